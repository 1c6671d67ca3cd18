#pragma once
#include <ostream>
namespace brpc { struct Path { template <class... A> Path(A...) {} }; template <class T> inline const T& min_width(const T& t, int) { return t; } inline int min_width(int, int) { return 0; } inline bool UseHTML(...) { return false; } inline const char* TabsHeadX() { return ""; } template <class T> bool UseHTML(const T&) { return false; } inline std::ostream& operator<<(std::ostream& o, const Path&) { return o; } }
