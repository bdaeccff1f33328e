#pragma once
#include <exception>
#include <string>
#include <stdexcept>
namespace WBMQTT
{
    class TBaseException: public std::exception
    {
    public:
        TBaseException(const char* file, int line, const std::string& message);
        const char* what() const noexcept override;
        const std::string& GetMessage() const;
    };
}
#define wb_throw(E, MSG) throw E(__FILE__, __LINE__, MSG)
