#pragma once
namespace pcl {
struct StopWatch { double getTime() const { return 0; } double getTimeSeconds() const { return 0; } void reset() {} };
struct ScopeTime : StopWatch { ScopeTime(const char * = "") {} };
inline double getTime() { return 0; }
}
