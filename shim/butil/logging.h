#pragma once
#include "glog/logging.h"
namespace logging = google;
