#pragma once
#include "tantivy_search_shim.h"
