#pragma once
#include <tf/transform_datatypes.h>
namespace tf { class TransformBroadcaster { public: void sendTransform(const StampedTransform &t) { tree().sent.push_back(t); } }; }
