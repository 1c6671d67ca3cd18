#pragma once
#include "gflags/gflags.h"
namespace brpc { inline bool PassValidate(const char*, bool) { return true; } template <class T> bool PassValidate(const char*, T) { return true; } template <class T> bool PositiveInteger(const char*, T) { return true; } template <class T> bool NonNegativeInteger(const char*, T) { return true; } }

