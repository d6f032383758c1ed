#pragma once
#include <geometry_msgs/Point.h>
#include <std_msgs/Header.h>
// only what passing a cloud on needs
namespace sensor_msgs { struct PointCloud2 { std_msgs::Header header; uint32_t width = 0, height = 1; bool is_dense = true; std::vector<geometry_msgs::Point> shim_points; }; }
