#pragma once
#include "any_stub.h"
#include "json_utils.h"
namespace WBMQTT
{
    enum TMqttRpcErrorCode
    {
        E_RPC_PARSE_ERROR = -32700,
        E_RPC_REQUEST_TIMEOUT = -32600,
        E_RPC_SERVER_ERROR = -32000
    };
    class TMqttRpcServer
    {
    public:
        using TResultCallback = std::function<void(const Json::Value&)>;
        using TErrorCallback = std::function<void(TMqttRpcErrorCode, const std::string&)>;
        using TMethodHandler = std::function<Json::Value(const Json::Value&)>;
        using TAsyncMethodHandler = std::function<void(const Json::Value&, TResultCallback, TErrorCallback)>;
        virtual ~TMqttRpcServer();
        void RegisterMethod(const std::string& service, const std::string& method, TMethodHandler);
        void RegisterAsyncMethod(const std::string& service, const std::string& method, TAsyncMethodHandler);
        void Start();
        void Stop();
    };
    PMqttRpcServer NewMqttRpcServer(PMqttClient, const std::string&);
}
