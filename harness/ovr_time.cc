// The text form of a time is only logged; its stream formatting cannot be encoded.
#include "common/helper.h"
namespace dingodb { std::string Helper::NowTime() { return "now"; } std::string Helper::FormatMsTime(int64_t, const std::string&) { return "t"; } std::string Helper::FormatMsTime(int64_t) { return "t"; } }
