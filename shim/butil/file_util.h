#pragma once
#include "butil/files/file.h"
