#pragma once
#include <chrono>
#include <ostream>
#include <thread>
#include <mutex>
#include <string>
#include <functional>
#include <memory>
#include <sstream>
namespace WBMQTT
{
    class TLogger
    {
    public:
        enum TOutput { StdOut, StdErr };
        enum class EColorUsage { ON, OFF };
        static const int YELLOW = 33;
        static const int WHITE = 37;
        static const int RED = 31;
        static const int GREY = 90;
        struct TLine
        {
            TLine();
            TLine(TLine&&);
            ~TLine();
            template<class T> TLine& operator<<(const T& v);
            TLine& operator<<(const char* v);
        };
        TLogger(const std::string& prefix, TOutput out, int color, bool enabled = true, EColorUsage u = EColorUsage::ON);
        TLine Log();
        void SetEnabled(bool enabled);
        bool IsEnabled() const;
        void SetOutput(std::ostream&);
    };
    extern TLogger Error;
    extern TLogger Warn;
    extern TLogger Info;
    extern TLogger Debug;
}
