#pragma once
#include <pcl/common/transforms.h>
#include <pcl/common/time.h>
#include <pcl/kdtree/kdtree_flann.h>
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>
#include <cstdarg>
#include <functional>
#include <vector>
#include <string>
#ifndef PCL_ERROR
#define PCL_ERROR(...) ((void)0)
#define PCL_WARN(...) ((void)0)
#define PCL_INFO(...) ((void)0)
#define PCL_DEBUG(...) ((void)0)
#endif
namespace pcl {
struct PointIndices {
  typedef boost::shared_ptr<PointIndices> Ptr;
  typedef boost::shared_ptr<const PointIndices> ConstPtr;
  std::vector<int> indices;
};
// the part of pcl::Registration (1.7) that the matchers build on
template <typename Source, typename Target, typename Scalar = float> class Registration {
public:
  typedef Eigen::Matrix<Scalar, 4, 4> Matrix4;
  typedef boost::shared_ptr<Registration<Source, Target, Scalar>> Ptr;
  typedef boost::shared_ptr<const Registration<Source, Target, Scalar>> ConstPtr;
  typedef PointCloud<Source> PointCloudSource;
  typedef typename PointCloudSource::Ptr PointCloudSourcePtr;
  typedef typename PointCloudSource::ConstPtr PointCloudSourceConstPtr;
  typedef PointCloud<Target> PointCloudTarget;
  typedef typename PointCloudTarget::Ptr PointCloudTargetPtr;
  typedef typename PointCloudTarget::ConstPtr PointCloudTargetConstPtr;
  typedef KdTreeFLANN<Target> KdTree;
  Registration()
    : tree_(new KdTree()), nr_iterations_(0), max_iterations_(10), final_transformation_(Matrix4::Identity())
    , transformation_(Matrix4::Identity()), previous_transformation_(Matrix4::Identity()), transformation_epsilon_(0)
    , euclidean_fitness_epsilon_(0), corr_dist_threshold_(0), inlier_threshold_(0.05), converged_(false) {}
  virtual ~Registration() {}
  virtual void setInputSource(const PointCloudSourceConstPtr &c) { source_cloud_updated_ = true; input_ = c; }
  PointCloudSourceConstPtr const getInputSource() { return input_; }
  virtual void setInputTarget(const PointCloudTargetConstPtr &c)
  {
    if (!c || c->points.empty()) return;
    target_ = c;
    target_cloud_updated_ = true;
  }
  PointCloudTargetConstPtr const getInputTarget() { return target_; }
  Matrix4 getFinalTransformation() { return final_transformation_; }
  Matrix4 getLastIncrementalTransformation() { return transformation_; }
  void setMaximumIterations(int n) { max_iterations_ = n; }
  int getMaximumIterations() { return max_iterations_; }
  void setTransformationEpsilon(double e) { transformation_epsilon_ = e; }
  double getTransformationEpsilon() { return transformation_epsilon_; }
  bool hasConverged() { return converged_; }
  double getFitnessScore(double = 0) { return 0; }
  const std::string &getClassName() const { return reg_name_; }
  void align(PointCloudSource &out) { align(out, Matrix4::Identity()); }
  void align(PointCloudSource &out, const Matrix4 &guess)
  {
    if (!initCompute()) return;
    out.header = input_->header;
    out.points.assign(input_->points.begin(), input_->points.end());
    out.width = out.points.size(); out.height = 1; out.is_dense = input_->is_dense;
    converged_ = false;
    final_transformation_ = transformation_ = previous_transformation_ = Matrix4::Identity();
    computeTransformation(out, guess);
  }
  virtual bool initCompute()
  {
    if (!input_) return false;
    if (!target_) return false;
    if (target_cloud_updated_) { tree_->setInputCloud(target_); target_cloud_updated_ = false; }
    source_cloud_updated_ = false;
    return true;
  }
protected:
  std::string reg_name_;
  PointCloudSourceConstPtr input_;
  PointCloudTargetConstPtr target_;
  boost::shared_ptr<KdTree> tree_;
  int nr_iterations_, max_iterations_;
  Matrix4 final_transformation_, transformation_, previous_transformation_;
  double transformation_epsilon_, euclidean_fitness_epsilon_, corr_dist_threshold_, inlier_threshold_;
  bool converged_;
  boost::shared_ptr<std::vector<int>> indices_;
  std::function<void(const PointCloudSource &, const std::vector<int> &, const PointCloudTarget &, const std::vector<int> &)> update_visualizer_;
  bool target_cloud_updated_ = true, source_cloud_updated_ = true;
  virtual void computeTransformation(PointCloudSource &out, const Matrix4 &guess) = 0;
};
}
