#pragma once
#include <cerrno>
#include "butil/macros.h"
extern "C" const char* berror(int); extern "C++" { inline const char* berror() { return ""; } }
