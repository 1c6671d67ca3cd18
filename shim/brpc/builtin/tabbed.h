#pragma once
#include <string>
#include <vector>
namespace brpc { struct TabInfo { std::string tab_name, path; bool valid() const { return true; } }; struct TabInfoList { TabInfo t; TabInfo* add() { return &t; } }; class Tabbed { public: virtual ~Tabbed() {} virtual void GetTabInfo(TabInfoList*) const = 0; }; }
