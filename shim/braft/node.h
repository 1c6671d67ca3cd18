#pragma once
#include "braft/raft.h"
