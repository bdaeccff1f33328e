#pragma once
#include "json/json.h"
#include "exceptions.h"
#include "utils.h"
namespace WBMQTT
{
    namespace JSON
    {
        Json::Value Parse(const std::string& fileName);
        Json::Value ParseWithSettings(const std::string& fileName, const Json::Value& settings);
        void Validate(const Json::Value& root, const Json::Value& schema);
        class TValidator
        {
        public:
            TValidator();
            TValidator(const Json::Value& schema, size_t maxErrors = 10);
            TValidator(TValidator&&);
            TValidator& operator=(TValidator&&);
            ~TValidator();
            void Validate(const Json::Value& root) const;
        };
        template<class T> bool Get(const Json::Value& root, const std::string& key, T& value);
        template<class T> bool Is(const Json::Value& v);
        template<class T> T As(const Json::Value& v);
        std::unique_ptr<Json::StreamWriter> MakeWriter(const std::string& indentation = "  ", const std::string& commentStyle = "None");
    }
}
