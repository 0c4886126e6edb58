#pragma once
#include "ga.h"
