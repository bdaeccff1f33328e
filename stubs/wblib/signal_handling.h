#pragma once
#include <chrono>
#include <functional>
#include <initializer_list>
#include <vector>
#include <signal.h>
namespace WBMQTT
{
    namespace SignalHandling
    {
        void Handle(std::initializer_list<int> sigs);
        void OnSignals(std::initializer_list<int> sigs, std::function<void()>);
        void OnSignal(int, std::function<void()>);
        void SetOnTimeout(std::chrono::milliseconds, std::function<void()>);
        void Start();
        void Stop();
        void Wait();
    }
}
