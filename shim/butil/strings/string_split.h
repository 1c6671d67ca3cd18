#pragma once
#include <string>
#include <vector>
namespace butil { class StringPiece : public std::string_view { public: using std::string_view::string_view; StringPiece(const std::string& s) : std::string_view(s) {} std::string as_string() const { return std::string(data(), size()); } };
inline void SplitString(const std::string& s, char c, std::vector<std::string>* r) { r->clear(); std::string cur; for (char x : s) if (x == c) { r->push_back(cur); cur.clear(); } else cur += x; if (!s.empty()) r->push_back(cur); }
inline void SplitStringAlongWhitespace(const std::string& s, std::vector<std::string>* r) { SplitString(s, ' ', r); }
}
