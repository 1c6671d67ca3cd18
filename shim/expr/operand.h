#pragma once
#include "serial/shim_serial.h"
