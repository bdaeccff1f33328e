#pragma once
#include <chrono>
#include <cstdint>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <optional>
#include <condition_variable>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <vector>
#include <algorithm>
#include <iostream>
#include <cassert>
#include <cstring>
namespace WBMQTT
{
    std::string StringFormat(const std::string& fmt, ...);
    bool StringStartsWith(const std::string& str, const std::string& prefix);
    bool StringHasSuffix(const std::string& str, const std::string& suffix);
    std::string StringReplace(std::string subject, const std::string& search, const std::string& replace);
    std::vector<std::string> StringSplit(const std::string& s, char delim);
    std::vector<std::string> StringSplit(const std::string& s, const std::string& delim);
    std::string& StringTrim(std::string& s);
    std::string HexDump(const std::vector<uint8_t>& data);
    std::string HexDump(const uint8_t* data, size_t size);
    void SetThreadName(const std::string& name);
    template<class T> std::string ToString(const T& v);
    template<class It> std::string JoinStrings(It b, It e, const std::string& d);
}
