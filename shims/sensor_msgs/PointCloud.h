#pragma once
#include <geometry_msgs/Point.h>
#include <std_msgs/Header.h>
namespace sensor_msgs { struct PointCloud { std_msgs::Header header; std::vector<geometry_msgs::Point> points; }; }
