#pragma once
#include "gridpack/math/gp_math.hpp"
