#pragma once
#include_next <tbb/iterators.h>
