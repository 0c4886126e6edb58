#pragma once
#include <boost/serialization/gp_ser.hpp>
