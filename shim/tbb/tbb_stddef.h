// stand-in for a header that oneTBB no longer ships: only what the code under analysis names
#pragma once
#include <oneapi/tbb/detail/_range_common.h>
#include <oneapi/tbb/blocked_range.h>
