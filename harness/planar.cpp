// Drives eigen_tools, Slam2d_Policy, pose graph edges, covariance helpers, string tools and the
// line search helpers of the registration.
#include "common.h"
#include <memory>
#include <ndt_gslam/registration/ndt_reg_tools.h>
#include <ndt_gslam/slam_optimizer/pose_graph.h>
#include <ndt_gslam/slam_optimizer/slam2d_policy.h>
#include <ndt_gslam/utils/covariance_inverse.h>
#include <ndt_gslam/utils/covariance_wrapper.h>
#include <ndt_gslam/utils/eigen_tools.h>
#include <ndt_gslam/utils/string_tools.h>
using namespace slamuk;
using vf::I; using vf::Json; using vf::Op;
typedef eigt::pose2d_t<double> Pose;
typedef eigt::transform2d_t<double> Trans;
typedef Slam2d_Policy P;
static const double TH = 0.64350110879328437;
static std::vector<Pose> reg;

static Pose pose(const Op &op, size_t i) { return Pose(I(op, i), I(op, i + 1), I(op, i + 2) * TH + I(op, i + 3) * M_PI / 2); }
static Pose normed(Pose p) { p(2) = std::remainder(p(2), 2 * M_PI); return p; }
static std::string jp(const Pose &v)
{
  return Json::list(std::vector<long long>{vf::scaled(v(0), 1000), vf::scaled(v(1), 1000), vf::scaled(v(2), 1e6)});
}
static std::string jpose(const Op &op, size_t i)
{
  return Json().i("x", I(op, i)).i("y", I(op, i + 1)).i("d", 0).i("n", I(op, i + 2)).i("k", ((I(op, i + 3) % 4) + 4) % 4).done();
}
template <class M> static std::string rows(const M &m, double s = 1000)
{
  std::vector<std::string> r;
  for (int i = 0; i < m.rows(); ++i) {
    std::vector<long long> v;
    for (int c = 0; c < m.cols(); ++c) v.push_back(vf::scaled(m(i, c), s));
    r.push_back(Json::list(v));
  }
  return Json::list(r);
}
static std::string ints(const Op &op, size_t a, size_t n)
{
  std::vector<long long> v;
  for (size_t i = a; i < a + n; ++i) v.push_back(I(op, i));
  return Json::list(v);
}
static std::string chars(const std::string &s)
{
  std::vector<int> v;
  for (unsigned char c : s) v.push_back(c);
  return Json::list(v);
}
static bool inpi(double a) { return a >= -M_PI - 1e-12 && a <= M_PI + 1e-12; }
static Eigen::Matrix3d spectral(const Op &op, size_t i, double scale)
{
  int ax = I(op, i + 3), n = I(op, i + 4);
  Eigen::Vector3d d(I(op, i), I(op, i + 1), I(op, i + 2));
  Eigen::Vector3d u = Eigen::Vector3d::Zero();
  u(ax - 1) = 1;
  // rotation in the plane of the two other axes, taken in increasing order
  Eigen::Matrix3d q = Eigen::Matrix3d::Identity();
  int a = ax == 1 ? 1 : 0, b = ax == 3 ? 1 : 2;
  double c = std::cos(n * TH), s = std::sin(n * TH);
  q(a, a) = c; q(a, b) = -s; q(b, a) = s; q(b, b) = c;
  Eigen::Matrix3d m = q * (scale * d).asDiagonal() * q.transpose();
  return 0.5 * (m + m.transpose());
}
static Eigen::Matrix3d sym(const Op &op, size_t i)
{
  Eigen::Matrix3d m;
  for (int r = 0; r < 3; ++r)
    for (int c = r; c < 3; ++c) m(r, c) = m(c, r) = I(op, i++);
  return m;
}
struct Fun {
  double c, m, p;
  bool quad;
  double f(double a) const
  {
    return quad ? 3 * c * (a - m) * (a - m) / 6.0 : c * (2 * a * a * a - 3 * (m + p) * a * a + 6 * m * p * a) / 6.0;
  }
  double g(double a) const { return quad ? c * (a - m) : c * (a - m) * (a - p); }
};

int main(int argc, char **argv)
{
  return vf::run(argc, argv, [&](const Op &op, Json &j) {
    const std::string &o = op[0];
    if (o == "reset") {
      reg.assign(3, Pose::Zero());
    } else if (o == "set") {
      reg.at(I(op, 1) - 1) = pose(op, 2);
      j.i("i", I(op, 1)).raw("p", jpose(op, 2));
      double a = pose(op, 2)(2), b = eigt::normalizeAngle(a);
      j.i("norm", vf::scaled(b, 1e6)).b("inpi", inpi(b));
    } else if (o == "norm") {
      Pose &p = reg.at(I(op, 1) - 1);
      p(2) = eigt::normalizeAngle(p(2));
      j.i("i", I(op, 1)).b("inpi", inpi(p(2)));
    } else if (o == "concat") {  // reg_i := reg_i followed by the given motion
      size_t i = I(op, 1) - 1;
      Trans t = eigt::getTransFromPose(pose(op, 2));
      Pose old = reg.at(i);
      reg[i] = eigt::transformConcat(old, t);
      Pose alt = eigt::getPoseFromTransform(Trans(P::vecToTransMat(old) * t));
      j.i("i", I(op, 1)).raw("p", jpose(op, 2)).b("inpi", inpi(reg[i](2))).raw("alt", jp(alt));
    } else if (o == "add") {  // world axes increment
      size_t i = I(op, 1) - 1;
      Pose old = reg.at(i), inc = pose(op, 2);
      Pose a = P::addPoses(old, inc);
      Pose b = eigt::transformPose(old, eigt::getTransFromPose(inc));
      Graph<P, int> g;
      size_t id = g.addNode(Node<P, int>(old, 0));
      g.getNode(id).addToPose(inc);
      Pose c = g.getNode(id).getPose();
      j.i("i", I(op, 1)).raw("p", jpose(op, 2)).b("inpi", inpi(a(2)) && inpi(b(2)) && inpi(c(2))).raw("alt", jp(b)).raw("alt2", jp(c));
      reg[i] = a;
    } else if (o == "rel") {  // relations of two registers
      Pose a = reg.at(I(op, 1) - 1), b = reg.at(I(op, 2) - 1);
      j.i("a", I(op, 1)).i("b", I(op, 2));
      Trans s = eigt::transBtwPoses(a, b);
      j.raw("shift", jp(eigt::getPoseFromTransform(s)));
      j.raw("back", jp(eigt::transformPose(a, s)));
      Trans f = eigt::transBtwFrames(a, b);
      j.raw("frames", jp(eigt::getPoseFromTransform(f)));
      j.raw("fmat", rows(f.matrix()));
      j.i("disp", vf::scaled(eigt::getDisplacement(s), 1000)).i("fdisp", vf::scaled(eigt::getDisplacement(f), 1000));
      double d = eigt::getAngleDiffrence(a, b);
      j.i("diff", vf::scaled(d, 1e6)).b("inpi", inpi(d));
      j.i("ang", vf::scaled(eigt::getAngle(f), 1e6));
    } else if (o == "conv") {
      Pose a = reg.at(I(op, 1) - 1);
      j.i("a", I(op, 1));
      Trans t = eigt::getTransFromPose(a);
      Eigen::Matrix4d m4 = eigt::convertFromTransform<double>(t);
      j.raw("t", rows(t.matrix())).raw("m4", rows(m4)).raw("t4", rows(eigt::convertToTransform<double>(m4).matrix()));
      Eigen::Matrix4d v4 = eigt::vecToMat3d<double>(a);
      Eigen::Matrix3d v3 = eigt::vecToMat2d<double>(a);
      j.raw("v4", rows(v4)).raw("v3", rows(v3));
      j.raw("b4", jp(eigt::matToVec2d<double>(v4))).raw("b3", jp(eigt::matToVec2d<double>(v3)));
      Eigen::Matrix4d r4 = pcl::ndt_reg::vecToMat<double>(a);
      Eigen::Matrix4f rf = pcl::ndt_reg::vecToMat<float>(a);
      j.raw("r4", rows(r4)).raw("rf", rows(rf.cast<double>().eval()));
      j.raw("rb", jp(pcl::ndt_reg::matToVec<double>(r4))).raw("pv", jp(P::transMatToVec(P::vecToTransMat(a))));
    } else if (o == "err") {  // measurement between registers
      Pose a = reg.at(I(op, 1) - 1), b = reg.at(I(op, 2) - 1), z = pose(op, 3);
      j.i("a", I(op, 1)).i("b", I(op, 2)).raw("p", jpose(op, 3));
      Pose e = P::calcError(a, b, z);
      P::JacobianPair jac = P::calcJacobianBlocks(a, b, z);
      Graph<P, int> g;
      size_t na = g.addNode(Node<P, int>(a, 0)), nb = g.addNode(Node<P, int>(b, 0));
      size_t id = g.addEdge(Edge<P, int>(&g.getNode(na), &g.getNode(nb), z, Eigen::Matrix3d::Identity()));
      Pose e2 = g.getEdge(id).getError();
      P::JacobianPair jac2 = g.getEdge(id).getJacobianBlocks();
      j.raw("err", jp(e)).raw("err2", jp(e2)).b("inpi", inpi(e(2)));
      j.raw("ja", rows(jac.first)).raw("jb", rows(jac.second));
      j.b("same", jac.first == jac2.first && jac.second == jac2.second);
    } else if (o == "inv") {  // d1 d2 d3 axis n
      Eigen::Matrix3d c = spectral(op, 1, 1), adj = Eigen::Matrix3d::Constant(7), ic = Eigen::Matrix3d::Constant(7);
      bool ok = covarInverse<double>(c, adj, ic);
      j.raw("d", ints(op, 1, 3)).i("ax", I(op, 4)).i("n", I(op, 5)).b("ok", ok);
      if (ok) {
        j.raw("adj", rows(adj, 100 * 625)).b("isinv", (adj * ic - Eigen::Matrix3d::Identity()).norm() < 1e-7 && (ic - ic.transpose()).norm() <= 1e-9 * ic.norm());
        j.b("kept", adj == c);
      } else {
        j.raw("adj", "[[0,0,0],[0,0,0],[0,0,0]]").b("isinv", true).b("kept", false);
      }
      Eigen::Matrix3f a2, i2;
      bool ok2 = covarInverse<float>(c.cast<float>(), a2, i2);
      j.b("okf", ok2 == ok && (!ok || (a2.cast<double>() - adj).norm() < 1e-4 * adj.norm()));
    } else if (o == "chain") {  // C(6) O(6) x y n k
      Eigen::Matrix3d c = sym(op, 1), a = sym(op, 7);
      CovarianceWrapper w(c);
      w.addToCovar(a, eigt::getTransFromPose(pose(op, 13)));
      j.raw("C", rows(c, 1)).raw("O", rows(a, 1)).raw("p", jpose(op, 13)).raw("R", rows(w.covar_, 10));
      Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> s(w.covar_);
      j.b("psd", (w.covar_ - w.covar_.transpose()).norm() <= 1e-9 * (1 + w.covar_.norm()) && s.eigenvalues()(0) >= -1e-9 * (1 + w.covar_.norm()));
      CovarianceWrapper d;
      j.b("unit", d.covar_ == Eigen::Matrix3d::Identity());
    } else if (o == "split") {  // _data _token
      std::string d = op[1].substr(1), t = op[2].substr(1);
      std::vector<std::string> r;
      for (auto &s : split(d, t)) r.push_back(chars(s));
      j.raw("s", chars(d)).raw("t", chars(t)).arr("parts", r);
    } else if (o == "search") {  // c m p quad al au at
      Fun h{double(I(op, 1)), double(I(op, 2)), double(I(op, 3)), I(op, 4) != 0};
      double al = I(op, 5), au = I(op, 6), at = I(op, 7);
      j.raw("h", Json().i("c", I(op, 1)).i("m", I(op, 2)).i("p", I(op, 3)).b("quad", h.quad).done());
      j.i("al", I(op, 5)).i("au", I(op, 6)).i("at", I(op, 7));
      double t = pcl::ndt_reg::trialValueSelectionMT(al, h.f(al), h.g(al), au, h.f(au), h.g(au), at, h.f(at), h.g(at));
      j.i("trial", vf::scaled(t, 1000));
      double l = al, fl = h.f(al), gl = h.g(al), u = au, fu = h.f(au), gu = h.g(au);
      bool done = pcl::ndt_reg::updateIntervalMT(l, fl, gl, u, fu, gu, at, h.f(at), h.g(at));
      j.i("l", vf::exact(l, 1)).i("u", vf::exact(u, 1)).b("done", done);
      j.b("vals", fl == h.f(l) && gl == h.g(l) && fu == h.f(u) && gu == h.g(u));
      // auxiliary function of the sufficient decrease condition, and its derivative
      double mu = 0.25;
      j.i("psi6", vf::exact(pcl::ndt_reg::auxilaryFunction_PsiMT(at, h.f(at), h.f(0), h.g(0), mu), 24, 1e-6));
      j.i("dpsi", vf::exact(pcl::ndt_reg::auxilaryFunction_dPsiMT(h.g(at), h.g(0), mu), 4));
    } else if (o == "fit") {  // outlier ratio percent, resolution in tenths
      double orat = I(op, 1) / 100.0, res = I(op, 2) / 10.0;
      pcl::ndt_reg::FittingParams f(orat, res);
      // the fitted Gaussian agrees with the mixture's log likelihood at 0, at one sigma and far away
      double c1 = 10 * (1 - orat), c2 = orat / (res * res);
      auto want = [&](double x) { return -std::log(c1 * std::exp(-0.5 * x * x) + c2); };
      double d3 = -std::log(c2);
      auto got = [&](double x) { return f.gauss_d1_ * std::exp(-0.5 * f.gauss_d2_ * x * x) + d3; };
      j.i("o", I(op, 1)).i("r", I(op, 2));
      j.b("ok", std::fabs(want(0) - got(0)) < 1e-9 && std::fabs(want(1) - got(1)) < 1e-9 && f.gauss_d2_ > 0 && f.gauss_d1_ < 0 && f.gauss_d2__half_ * 2 == f.gauss_d2_);
      // scores add componentwise
      typedef pcl::ndt_reg::ScoreAndDerivatives<3, double> S;
      S a, b;
      a.value_ = I(op, 1); b.value_ = I(op, 2);
      a.gradient_ = Eigen::Vector3d(1, 2, 3); b.gradient_ = Eigen::Vector3d(4, 5, I(op, 1));
      a.hessian_ = 2 * Eigen::Matrix3d::Identity(); b.hessian_ = Eigen::Matrix3d::Constant(3);
      S c = a + b, z = S::Zero();
      c += z;
      j.b("adds", c.value_ == a.value_ + b.value_ && c.gradient_ == a.gradient_ + b.gradient_ && c.hessian_ == a.hessian_ + b.hessian_ && z.value_ == 0 && z.hessian_.isZero(0) && z.gradient_.isZero(0));
    } else {
      std::fprintf(stderr, "unknown op %s\n", o.c_str());
      std::exit(3);
    }
    std::vector<std::string> r;
    for (auto &p : reg) r.push_back(jp(p));
    j.arr("reg", r);
  });
}
