#pragma once
#include <pcl/kdtree/kdtree_flann.h>
