#pragma once
#include "brpc/controller.h"
