#pragma once
#include "google/protobuf/shim_pb.h"
