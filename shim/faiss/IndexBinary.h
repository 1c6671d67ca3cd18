#pragma once
#include "faiss/MetricType.h"
