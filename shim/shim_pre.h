#pragma once
#include "shim_std.h"
#include "proto/all.pb.h"
