#pragma once
#include <boost/shared_ptr.hpp>
#include <boost/array.hpp>
namespace geometry_msgs { struct Point { double x = 0, y = 0, z = 0; }; struct Vector3 { double x = 0, y = 0, z = 0; }; struct Quaternion { double x = 0, y = 0, z = 0, w = 0; }; }
