#pragma once
#include <boost/serialization/gp_ser.hpp>
namespace boost { namespace archive { typedef gpar::oar binary_oarchive; } }
