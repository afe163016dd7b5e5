// Helpers for vectors, matrices and rotations.
#include "common.hpp"
#include <cmath>
#include <eigen3/Eigen/Geometry>
#include <eigen3/Eigen/QR>
#include <eigen3/Eigen/SVD>
#include <opencv2/opencv.hpp>
namespace spec {

Eigen::Matrix3d F_SkewSymmetric(const Eigen::Vector3d & v)
{
  Eigen::Matrix3d m;
  m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
  return m;
}

void F_MinBoundVector(Eigen::VectorXd & v, double bound)
{
  for (unsigned int i = 0; i < v.size(); ++i) {
    v[i] = v[i] < bound ? bound : v[i];
  }
}

void F_ApplyLeftNullspace(const Eigen::MatrixXd & h_f, Eigen::MatrixXd & h_x, Eigen::VectorXd & res)
{
  Eigen::HouseholderQR<Eigen::MatrixXd> qr(h_f);
  Eigen::MatrixXd q = qr.householderQ();
  // the columns of q after the first cols() span the left nullspace
  Eigen::MatrixXd n = q.block(0, h_f.cols(), h_f.rows(), h_f.rows() - h_f.cols());
  h_x = n.transpose() * h_x;
  res = n.transpose() * res;
}

void F_CompressMeasurements(Eigen::MatrixXd & h, Eigen::VectorXd & r)
{
  unsigned int m = h.rows();
  unsigned int n = h.cols();
  if (m < n) {return;}
  for (unsigned int j = 0; j < n; ++j) {
    for (unsigned int i = m - 1; i > j; --i) {
      Eigen::JacobiRotation<double> g;
      g.makeGivens(h(i - 1, j), h(i, j));
      h.block(i - 1, j, 2, n - j).applyOnTheLeft(0, 1, g.adjoint());
      r.segment<2>(i - 1).applyOnTheLeft(0, 1, g.adjoint());
    }
  }
  unsigned int keep = m;
  while (keep > 0 && !(h.row(keep - 1).array().abs() > 1e-9).any()) {--keep;}
  h.conservativeResize(keep, n);
  r.conservativeResize(keep);
}

Eigen::Vector3d F_average_vectors_w(const std::vector<Eigen::Vector3d> & v, const std::vector<double> & w)
{
  Eigen::Vector3d sum = Eigen::Vector3d::Zero();
  double weight = 0;
  for (unsigned int i = 0; i < v.size(); ++i) {
    sum += v[i] * w[i];
    weight += w[i];
  }
  return sum / weight;
}

Eigen::Vector3d F_average_vectors(const std::vector<Eigen::Vector3d> & v)
{
  return average_vectors(v, std::vector<double>(v.size(), 1.0));
}

Eigen::MatrixXd F_QuaternionJacobian(const Eigen::Quaterniond & q)
{
  Eigen::Vector3d v = QuatToRotVec(q);
  double a = std::max(v.norm(), 1e-9);
  Eigen::Matrix3d s = SkewSymmetric(v);
  Eigen::MatrixXd out = Eigen::Matrix3d::Identity(3, 3) - (1 - std::cos(a)) / (a * a) * s + (a - std::sin(a)) / (a * a * a) * s * s;
  return out;
}

double F_sign(double x) {return x > 0 ? 1 : (x < 0 ? -1 : 0);}

Eigen::MatrixXd F_matrix2d_from_vectors3d(const std::vector<Eigen::Vector3d> & v)
{
  Eigen::MatrixXd m(2, v.size());
  for (unsigned int i = 0; i < v.size(); ++i) {
    m(0, i) = v[i][0];
    m(1, i) = v[i][1];
  }
  return m;
}

double F_affine_angle(const Eigen::Affine3d & t) {return std::atan2(t.linear()(1, 0), t.linear()(0, 0));}

// the planar rotation and the translation that take the source points to the target points
bool F_kabsch_2d(
  const std::vector<Eigen::Vector3d> & tgt, const std::vector<Eigen::Vector3d> & src, Eigen::Affine3d & transform, double & pos_dev, double & ang_dev)
{
  if (tgt.size() != src.size() || tgt.size() < 4) {return false;}
  Eigen::Vector3d mean_src = average_vectors(src);
  Eigen::Vector3d mean_tgt = average_vectors(tgt);
  Eigen::MatrixXd s = matrix2d_from_vectors3d(src - mean_src);
  Eigen::MatrixXd t = matrix2d_from_vectors3d(tgt - mean_tgt);
  Eigen::MatrixXd cov = s * t.transpose();
  Eigen::JacobiSVD<Eigen::MatrixXd> svd(cov, Eigen::ComputeFullU | Eigen::ComputeFullV);
  Eigen::Matrix2d proper = Eigen::Matrix2d::Identity();
  proper(1, 1) = sign((svd.matrixV() * svd.matrixU().transpose()).determinant());
  Eigen::Matrix3d rot = Eigen::Matrix3d::Identity(3, 3);
  rot.block(0, 0, 2, 2) = svd.matrixV() * proper * svd.matrixU().transpose();
  transform.setIdentity();
  transform.linear() = rot;
  transform.translation() = mean_tgt - rot * mean_src;

  std::vector<Eigen::Vector3d> errors;
  double slopes = 0;
  double count = 0;
  for (unsigned int i = 0; i < tgt.size(); ++i) {
    Eigen::Vector3d e = tgt[i] - transform * src[i];
    errors.push_back(e);
    double arm = (tgt[i] - mean_tgt).norm();
    if (arm > e.norm()) {
      slopes += std::pow(e.norm() / arm, 2);
      count += 1;
    }
  }
  pos_dev = mean_standard_deviation(errors);
  ang_dev = 0;
  if (count != 0) {ang_dev = std::sqrt(slopes) / count;}
  return true;
}

double F_maximum_distance(const std::vector<Eigen::Vector3d> & v)
{
  std::vector<cv::Point> points;
  for (auto & p : v) {
    cv::Point q;
    q.x = static_cast<int>(p.x());
    q.y = static_cast<int>(p.y());
    points.push_back(q);
  }
  std::vector<cv::Point> hull;
  cv::convexHull(points, hull);
  double best = 0;
  for (unsigned int i = 0; i < hull.size(); ++i) {
    for (unsigned int j = 0; j < hull.size(); ++j) {
      if (i != j && cv::norm(hull[i] - hull[j]) > best) {best = cv::norm(hull[i] - hull[j]);}
    }
  }
  return best;
}

double F_mean_standard_deviation(const std::vector<Eigen::Vector3d> & v)
{
  Eigen::Vector3d mean = average_vectors(v);
  double sum = 0;
  for (auto & x : v) {sum += (x - mean).norm() * (x - mean).norm();}
  return std::sqrt(sum) / v.size();
}

// the upper triangle R with R'R = left'left + right'right
Eigen::MatrixXd F_QR_r(const Eigen::MatrixXd & left, const Eigen::MatrixXd & right)
{
  Eigen::MatrixXd stack(left.rows() + right.rows(), left.cols());
  stack << left, right;
  Eigen::HouseholderQR<Eigen::MatrixXd> qr(stack);
  Eigen::MatrixXd r = qr.matrixQR().block(0, 0, left.cols(), left.cols()).triangularView<Eigen::Upper>();
  return r;
}

// ---------------------------------------------------------------- conversions
Eigen::VectorXd F_StdToEigVec(const std::vector<double> & v)
{
  Eigen::VectorXd out(v.size());
  for (unsigned int i = 0; i < v.size(); ++i) {out(i) = v[i];}
  return out;
}

Eigen::Quaterniond F_StdToEigQuat(const std::vector<double> & v)
{
  if (v.size() != 4) {return Eigen::Quaterniond(1, 0, 0, 0);}
  Eigen::Quaterniond q(v[0], v[1], v[2], v[3]);
  q.normalize();
  return q;
}

Eigen::Quaterniond F_RotVecToQuat(const Eigen::Vector3d & v)
{
  double angle = v.norm();
  if (angle > 1e-9) {return Eigen::Quaterniond(Eigen::AngleAxisd(angle, v / angle));}
  return Eigen::Quaterniond(1, 0, 0, 0);
}

Eigen::Vector3d F_QuatToRotVec(const Eigen::Quaterniond & q)
{
  Eigen::AngleAxisd a(q);
  return a.angle() * a.axis();
}

Eigen::Quaterniond F_EigVecToQuat(const Eigen::Vector3d & rpy)
{
  Eigen::Quaterniond q =
    Eigen::AngleAxisd(rpy[2], Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(rpy[1], Eigen::Vector3d::UnitY()) *
    Eigen::AngleAxisd(rpy[0], Eigen::Vector3d::UnitX());
  return q;
}

void F_EigenMatrixToCv(const Eigen::Matrix3d & in, cv::Mat & out)
{
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {out.at<double>(i, j) = in(i, j);}
  }
}

void F_CvMatrixToEigen(const cv::Mat in, Eigen::Matrix3d & out)
{
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {out(i, j) = in.at<double>(i, j);}
  }
}

cv::Vec3d F_QuatToRodrigues(const Eigen::Quaterniond & q)
{
  Eigen::Matrix3d m = q.toRotationMatrix();
  cv::Mat mat(3, 3, cv::DataType<double>::type);
  EigenMatrixToCv(m, mat);
  cv::Vec3d out(3, 1, cv::DataType<double>::type);
  cv::Rodrigues(mat, out);
  return out;
}

Eigen::Quaterniond F_RodriguesToQuat(cv::Vec3d & v)
{
  cv::Mat mat(3, 3, cv::DataType<double>::type);
  cv::Rodrigues(v, mat);
  Eigen::Matrix3d m;
  CvMatrixToEigen(mat, m);
  return Eigen::Quaterniond(m);
}

Eigen::Vector3d F_CvVectorToEigen(cv::Vec3d & v)
{
  Eigen::Vector3d out;
  for (int i = 0; i < 3; ++i) {out[i] = v[i];}
  return out;
}

std::vector<Eigen::Vector3d> F_minus(const std::vector<Eigen::Vector3d> & v, const Eigen::Vector3d & x)
{
  std::vector<Eigen::Vector3d> out;
  for (auto & e : v) {out.push_back(e - x);}
  return out;
}

}  // namespace spec
