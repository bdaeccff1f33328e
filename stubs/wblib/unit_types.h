#pragma once
#include <string>
#include <vector>
#include <unordered_map>
namespace WBMQTT
{
    const std::vector<std::string>& GetUnitTypes();
}
