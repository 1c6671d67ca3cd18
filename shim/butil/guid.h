#pragma once
#include <string>
namespace butil { inline std::string GenerateGUID() { static int n = 0; return "guid-" + std::to_string(++n); } }
