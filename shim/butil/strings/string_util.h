#pragma once
#include "butil/strings/string_split.h"
