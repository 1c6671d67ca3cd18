#pragma once
#include <string>
namespace butil { template <class... A> std::string string_printf(const char*, A...) { return ""; } template <class... A> int string_appendf(std::string*, const char*, A...) { return 0; } template <class... A> int string_printf(std::string*, const char*, A...) { return 0; } }
