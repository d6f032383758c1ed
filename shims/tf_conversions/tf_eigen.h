#pragma once
#include <tf/transform_datatypes.h>
namespace tf {
inline void transformTFToEigen(const Transform &t, Eigen::Affine3d &e) { e = t.shim(); }
inline void poseTFToEigen(const Transform &t, Eigen::Affine3d &e) { e = t.shim(); }
inline void transformEigenToTF(const Eigen::Affine3d &e, Transform &t) { t = Transform::shim(e); }
}
