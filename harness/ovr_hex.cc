// The same conversion without string streams (their libstdc++ code is not available as IR); the repository uses it for log texts.
#include "common/helper.h"
namespace dingodb {
static char digit(unsigned c) { return (char)(c + (c < 10 ? '0' : 'a' - 10)); }
std::string Helper::StringToHex(const std::string& s) { std::string r; for (char c : s) { r.push_back(digit((unsigned char)c >> 4)); r.push_back(digit(c & 15)); } return r; }
std::string Helper::StringToHex(const std::string_view& s) { return StringToHex(std::string(s)); }
}
