#pragma once
#include "plan.hpp"
void growthOp(const Op&);      // one input shape at two sizes
