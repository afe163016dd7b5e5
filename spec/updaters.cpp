// Measurement models and updates of the sensors.
#include "common.hpp"
#include <chrono>
#include <cmath>
#include <iomanip>
#include <sstream>
#include "utility/gps_helper.hpp"
namespace spec {

using Eigen::Matrix3d;
using Eigen::MatrixXd;
using Eigen::Quaterniond;
using Eigen::Vector2d;
using Eigen::Vector3d;
using Eigen::VectorXd;

// variances of consecutive states from the covariance or its root
static VectorXd Variances(EKF & ekf, unsigned int index, unsigned int size)
{
  VectorXd d = ekf.m_cov.block(index, index, size, size).diagonal();
  if (ekf.m_use_root_covariance) {return d.cwiseProduct(d);}
  return d;
}

// ---------------------------------------------------------------- IMU
VectorXd ImuUpdater_PredictMeasurement(const ImuUpdater & self, EKF & ekf)
{
  const ImuState & imu = ekf.m_state.imu_states[self.m_id];
  const BodyState & b = ekf.m_state.body_state;
  Matrix3d rot_b_to_i = imu.ang_i_to_b.inverse().toRotationMatrix();
  Matrix3d rot_l_to_b = b.ang_b_to_l.inverse().toRotationMatrix();
  Vector3d w = b.ang_vel_b_in_l;
  Vector3d p = imu.pos_i_in_b;
  VectorXd z(6);
  z.segment<3>(0) = rot_b_to_i * (rot_l_to_b * b.acc_b_in_l + b.ang_acc_b_in_l.cross(p) + w.cross(w.cross(p))) + imu.acc_bias;
  z.segment<3>(3) = rot_b_to_i * rot_l_to_b * w + imu.omg_bias;
  return z;
}

MatrixXd ImuUpdater_GetMeasurementJacobian(const ImuUpdater & self, EKF & ekf)
{
  const ImuState & imu = ekf.m_state.imu_states[self.m_id];
  const BodyState & b = ekf.m_state.body_state;
  Matrix3d rot_b_to_i = imu.ang_i_to_b.inverse().toRotationMatrix();
  Matrix3d rot_l_to_b = b.ang_b_to_l.inverse().toRotationMatrix();
  Vector3d w = b.ang_vel_b_in_l;
  Vector3d dw = b.ang_acc_b_in_l;
  Vector3d p = imu.pos_i_in_b;
  MatrixXd h = MatrixXd::Zero(6, ekf.m_state_size);
  h.block<3, 3>(0, 6) = rot_b_to_i * rot_l_to_b;
  h.block<3, 3>(0, 12) = -rot_b_to_i * (SkewSymmetric(w) * SkewSymmetric(p) + SkewSymmetric(w.cross(p)));
  h.block<3, 3>(0, 15) = -rot_b_to_i * SkewSymmetric(p);
  h.block<3, 3>(3, 12) = rot_b_to_i * rot_l_to_b;
  if (self.m_is_extrinsic) {
    unsigned int x = imu.index_extrinsic;
    h.block<3, 3>(0, x) = rot_b_to_i * (SkewSymmetric(dw) + SkewSymmetric(w) * SkewSymmetric(w));
    h.block<3, 3>(0, x + 3) =
      SkewSymmetric(rot_b_to_i * (dw.cross(p) + w.cross(w.cross(p)) + rot_l_to_b * b.acc_b_in_l));
    h.block<3, 3>(3, x + 3) = SkewSymmetric(rot_b_to_i * rot_l_to_b * w);
  }
  if (self.m_is_intrinsic) {
    h.block<3, 3>(0, imu.index_intrinsic) = Matrix3d::Identity();
    h.block<3, 3>(3, imu.index_intrinsic + 3) = Matrix3d::Identity();
  }
  return h;
}

MatrixXd ImuUpdater_GetZeroAccelerationJacobian(const ImuUpdater & self, EKF & ekf)
{
  const ImuState & imu = ekf.m_state.imu_states[self.m_id];
  Vector3d g = imu.ang_i_to_b.inverse() * ekf.m_state.body_state.ang_b_to_l.inverse() * g_gravity;
  MatrixXd h = MatrixXd::Zero(self.m_is_intrinsic ? 6 : 3, ekf.m_state_size);
  h.block<3, 3>(0, 9) = -SkewSymmetric(g) * QuaternionJacobian(ekf.m_state.body_state.ang_b_to_l).transpose();
  if (self.m_is_extrinsic) {h.block<3, 3>(0, imu.index_extrinsic + 3) = -SkewSymmetric(g);}
  if (self.m_is_intrinsic) {
    h.block<3, 3>(0, imu.index_intrinsic) = -Matrix3d::Identity();
    h.block<3, 3>(3, imu.index_intrinsic + 3) = -Matrix3d::Identity();
  }
  return h;
}

static void LogImuRow(
  ImuUpdater & self, EKF & ekf, double local_time, int stationary, double score, const Vector3d & acc,
  const Vector3d & omg, const VectorXd & resid, int64_t duration)
{
  const ImuState & imu = ekf.m_state.imu_states[self.m_id];
  std::stringstream s;
  s << local_time << "," << stationary << "," << score;
  s << VectorToCommaString(imu.pos_i_in_b) << QuaternionToCommaString(imu.ang_i_to_b);
  s << VectorToCommaString(imu.acc_bias) << VectorToCommaString(imu.omg_bias);
  if (self.m_is_extrinsic) {s << VectorToCommaString(Variances(ekf, imu.index_extrinsic, 6));}
  if (self.m_is_intrinsic) {s << VectorToCommaString(Variances(ekf, imu.index_intrinsic, 6));}
  s << VectorToCommaString(acc) << VectorToCommaString(omg) << VectorToCommaString(resid);
  if (stationary == 1 && !self.m_is_intrinsic) {s << VectorToCommaString(Vector3d::Zero());}
  s << "," << duration;
  self.m_data_logger.RateLimitedLog(s.str(), local_time);
  ekf.LogBodyStateIfNeeded(static_cast<int>(duration));
}

bool ImuUpdater_ZeroAccelerationUpdate(
  ImuUpdater & self, EKF & ekf, double local_time, const Vector3d & acc, const Matrix3d & acc_cov,
  const Vector3d & omg, const Matrix3d & omg_cov)
{
  auto t0 = std::chrono::high_resolution_clock::now();
  if (self.m_initial_motion_detected) {return false;}
  const unsigned int n = self.m_is_intrinsic ? 6 : 3;
  const ImuState & imu = ekf.m_state.imu_states[self.m_id];
  MatrixXd h = ImuUpdater_GetZeroAccelerationJacobian(self, ekf);
  MatrixXd r = MatrixXd::Zero(n, n);
  r.block<3, 3>(0, 0) = acc_cov;
  VectorXd y = VectorXd::Zero(n);
  y.segment<3>(0) = imu.ang_i_to_b.inverse() * ekf.m_state.body_state.ang_b_to_l.inverse() * g_gravity - (acc - imu.acc_bias);
  if (self.m_is_intrinsic) {
    r.block<3, 3>(3, 3) = omg_cov;
    y.segment<3>(3) = imu.omg_bias - omg;
  }
  MatrixXd p = ekf.m_cov;
  if (ekf.m_use_root_covariance) {p = ekf.m_cov.transpose() * ekf.m_cov;}
  MatrixXd s = h * p * h.transpose() + ekf.m_imu_noise_scale_factor * r;
  MatrixXd m = y.transpose() * s.inverse() * y;
  double score = std::abs(m(0, 0));
  if (score > ekf.m_motion_detection_chi_squared && ekf.m_is_gravity_initialized) {
    self.m_initial_motion_detected = true;
    return false;
  }
  if (score < ekf.m_motion_detection_chi_squared) {ekf.m_is_gravity_initialized = true;}
  ekf.PredictModel(local_time);
  h = ImuUpdater_GetZeroAccelerationJacobian(self, ekf);
  self.KalmanUpdate(ekf, h, y, r);
  ekf.m_state.body_state.acc_b_in_l = g_gravity;
  ekf.m_state.body_state.ang_vel_b_in_l = Vector3d::Zero();
  ekf.m_state.body_state.ang_acc_b_in_l = Vector3d::Zero();
  auto t1 = std::chrono::high_resolution_clock::now();
  LogImuRow(
    self, ekf, local_time, 1, score, acc, omg, y,
    std::chrono::duration_cast<std::chrono::microseconds>(t1 - t0).count());
  return true;
}

void ImuUpdater_UpdateEKF(
  ImuUpdater & self, EKF & ekf, double time, const Vector3d & acc, const Matrix3d & acc_cov,
  const Vector3d & omg, const Matrix3d & omg_cov)
{
  double local_time = ekf.CalculateLocalTime(time);
  if (self.ZeroAccelerationUpdate(ekf, local_time, acc, acc_cov, omg, omg_cov)) {
    ekf.m_is_zero_acceleration = true;
    return;
  }
  ekf.m_is_zero_acceleration = false;
  auto t0 = std::chrono::high_resolution_clock::now();
  VectorXd y = VectorXd::Zero(6);
  if (ekf.m_state.imu_states.size() == 1) {
    // a single IMU is an input of the process model
    const ImuState & imu = ekf.m_state.imu_states[self.m_id];
    BodyState & b = ekf.m_state.body_state;
    Matrix3d rot_i_to_l = (b.ang_b_to_l * imu.ang_i_to_b).toRotationMatrix();
    b.acc_b_in_l = rot_i_to_l * (acc - imu.acc_bias);
    b.ang_vel_b_in_l = rot_i_to_l * (omg - imu.omg_bias);
    b.ang_acc_b_in_l = Vector3d::Zero();
  } else {
    VectorXd z(6);
    z.segment<3>(0) = acc;
    z.segment<3>(3) = omg;
    y = z - ImuUpdater_PredictMeasurement(self, ekf);
    MatrixXd h = ImuUpdater_GetMeasurementJacobian(self, ekf);
    MatrixXd r = MatrixXd::Zero(6, 6);
    r.block<3, 3>(0, 0) = acc_cov;
    r.block<3, 3>(3, 3) = omg_cov;
    self.KalmanUpdate(ekf, h, y, r);
  }
  ekf.PredictModel(local_time);
  auto t1 = std::chrono::high_resolution_clock::now();
  int64_t duration = std::chrono::duration_cast<std::chrono::microseconds>(t1 - t0).count();
  const ImuState & imu = ekf.m_state.imu_states[self.m_id];
  std::stringstream s;
  s << local_time << ",0," << ekf.m_motion_detection_chi_squared;
  s << VectorToCommaString(imu.pos_i_in_b) << QuaternionToCommaString(imu.ang_i_to_b);
  s << VectorToCommaString(imu.acc_bias) << VectorToCommaString(imu.omg_bias);
  if (self.m_is_extrinsic || self.m_is_intrinsic) {s << VectorToCommaString(Variances(ekf, imu.index, imu.size));}
  s << VectorToCommaString(acc) << VectorToCommaString(omg) << VectorToCommaString(y);
  s << "," << duration;
  self.m_data_logger.RateLimitedLog(s.str(), local_time);
  ekf.LogBodyStateIfNeeded(static_cast<int>(duration));
}

// ---------------------------------------------------------------- GPS
static void FreezeAntenna(GpsUpdater & self, EKF & ekf)
{
  if (ekf.m_use_first_estimate_jacobian && !self.m_is_first_estimate) {return;}
  self.m_pos_a_in_b = ekf.m_state.gps_states[self.m_id].pos_a_in_b;
  self.m_is_first_estimate = false;
}

Vector3d GpsUpdater_PredictMeasurement(GpsUpdater & self, EKF & ekf)
{
  FreezeAntenna(self, ekf);
  const BodyState & b = ekf.m_state.body_state;
  return b.ang_b_to_l.toRotationMatrix() * self.m_pos_a_in_b + b.pos_b_in_l;
}

MatrixXd GpsUpdater_GetMeasurementJacobian(GpsUpdater & self, EKF & ekf)
{
  FreezeAntenna(self, ekf);
  Quaterniond q = ekf.m_state.body_state.ang_b_to_l;
  MatrixXd h = MatrixXd::Zero(3, ekf.m_state_size);
  h.block<3, 3>(0, 0) = Matrix3d::Identity();
  h.block<3, 3>(0, 9) = -(q.toRotationMatrix() * SkewSymmetric(self.m_pos_a_in_b) * QuaternionJacobian(q));
  if (self.m_is_extrinsic) {h.block<3, 3>(0, ekf.m_state.gps_states[self.m_id].index) = q.toRotationMatrix();}
  return h;
}

void GpsUpdater_MultiUpdateEKF(GpsUpdater & self, EKF & ekf)
{
  const unsigned int n = static_cast<unsigned int>(ekf.m_gps_time_vec.size());
  MatrixXd h = MatrixXd::Zero(3 * n, ekf.m_state_size);
  VectorXd y = VectorXd::Zero(3 * n);
  for (unsigned int i = 0; i < n; ++i) {
    Vector3d fix = enu_to_local(ecef_to_enu(ekf.m_gps_ecef_vec[i], ekf.m_pos_e_in_g), ekf.m_ang_l_to_e);
    h.block(3 * i, 0, 3, ekf.m_state_size) = GpsUpdater_GetMeasurementJacobian(self, ekf);
    y.segment(3 * i, 3) = fix - ekf.m_gps_xyz_vec[i];
  }
  CompressMeasurements(h, y);
  if (y.size() <= 1) {return;}
  self.KalmanUpdate(ekf, h, y, MatrixXd::Identity(y.rows(), y.rows()));
}

void GpsUpdater_UpdateEKF(GpsUpdater & self, EKF & ekf, double time, const Vector3d & lla, const MatrixXd & cov)
{
  auto t0 = std::chrono::high_resolution_clock::now();
  double local_time = ekf.CalculateLocalTime(time);
  ekf.PredictModel(local_time);
  Vector3d z = Vector3d::Zero();
  Vector3d y = Vector3d::Zero();
  Vector3d ref = Vector3d::Zero();
  double heading = ekf.m_ang_l_to_e;
  if (ekf.IsLlaInitialized()) {
    ref = ekf.m_pos_e_in_g;
    z = enu_to_local(lla_to_enu(lla, ref), heading);
    y = z - GpsUpdater_PredictMeasurement(self, ekf);
    MatrixXd h = GpsUpdater_GetMeasurementJacobian(self, ekf);
    self.KalmanUpdate(ekf, h, y, cov);
  } else {
    ekf.AttemptGpsInitialization(local_time, lla);
    if (ekf.IsLlaInitialized()) {self.MultiUpdateEKF(ekf);}
  }
  auto t1 = std::chrono::high_resolution_clock::now();

  std::stringstream s;
  s << local_time << VectorToCommaString(lla, 12) << VectorToCommaString(z) << VectorToCommaString(ref, 12);
  s << "," << heading << "," << ekf.IsLlaInitialized();
  if (self.m_is_extrinsic) {
    const GpsState & gps = ekf.m_state.gps_states[self.m_id];
    s << VectorToCommaString(gps.pos_a_in_b) << VectorToCommaString(Variances(ekf, gps.index, 3));
  }
  s << VectorToCommaString(y) << "," << std::chrono::duration_cast<std::chrono::microseconds>(t1 - t0).count();
  self.m_data_logger.RateLimitedLog(s.str(), local_time);
}

// ---------------------------------------------------------------- fiducial
void FiducialUpdater_RefreshStates(FiducialUpdater & self, EKF & ekf)
{
  if (ekf.m_use_first_estimate_jacobian && !self.m_is_first_estimate) {return;}
  const CamState & cam = ekf.m_state.cam_states[self.m_camera_id];
  const FidState & fid = ekf.m_state.fid_states[self.m_id];
  self.m_pos_c_in_b = cam.pos_c_in_b;
  self.m_ang_c_to_b = cam.ang_c_to_b;
  self.m_pos_f_in_l = fid.pos_f_in_l;
  self.m_ang_f_to_l = fid.ang_f_to_l;
  self.m_is_first_estimate = false;
}

VectorXd FiducialUpdater_PredictMeasurement(FiducialUpdater & self, EKF & ekf)
{
  FiducialUpdater_RefreshStates(self, ekf);
  const BodyState & b = ekf.m_state.body_state;
  Matrix3d rot_b_to_c = self.m_ang_c_to_b.toRotationMatrix().transpose();
  Matrix3d rot_l_to_b = b.ang_b_to_l.toRotationMatrix().transpose();
  VectorXd z = VectorXd::Zero(6);
  z.segment<3>(0) = rot_b_to_c * (rot_l_to_b * (self.m_pos_f_in_l - b.pos_b_in_l) - self.m_pos_c_in_b);
  z.segment<3>(3) = QuatToRotVec(Quaterniond(rot_b_to_c * rot_l_to_b) * self.m_ang_f_to_l);
  return z;
}

MatrixXd FiducialUpdater_GetMeasurementJacobian(FiducialUpdater & self, EKF & ekf)
{
  FiducialUpdater_RefreshStates(self, ekf);
  const BodyState & b = ekf.m_state.body_state;
  Matrix3d rot_b_to_c = self.m_ang_c_to_b.toRotationMatrix().transpose();
  Matrix3d rot_l_to_b = b.ang_b_to_l.toRotationMatrix().transpose();
  Matrix3d rot_f_to_l = self.m_ang_f_to_l.toRotationMatrix();
  Matrix3d rot_l_to_c = rot_b_to_c * rot_l_to_b;
  Matrix3d jac_b = QuaternionJacobian(b.ang_b_to_l).transpose();
  Vector3d d = self.m_pos_f_in_l - b.pos_b_in_l;
  MatrixXd h = MatrixXd::Zero(6, ekf.m_state_size);
  h.block<3, 3>(0, 0) = -rot_l_to_c;
  h.block<3, 3>(0, 9) = rot_l_to_c * SkewSymmetric(d) * jac_b;
  h.block<3, 3>(3, 9) = -rot_l_to_c * rot_f_to_l * jac_b;
  if (self.m_is_cam_extrinsic) {
    unsigned int c = ekf.m_state.cam_states[self.m_camera_id].index;
    Matrix3d jac_c = QuaternionJacobian(self.m_ang_c_to_b).transpose();
    h.block<3, 3>(0, c) = -rot_b_to_c;
    h.block<3, 3>(0, c + 3) = rot_b_to_c * SkewSymmetric(rot_l_to_b * d - self.m_pos_c_in_b) * jac_c;
    h.block<3, 3>(3, c + 3) = -rot_b_to_c * jac_c * rot_l_to_b * rot_f_to_l;
  }
  if (self.m_is_fid_extrinsic) {
    unsigned int f = ekf.m_state.fid_states[self.m_id].index;
    h.block<3, 3>(0, f) = Matrix3d::Identity();
    h.block<3, 3>(3, f + 3) = Matrix3d::Identity();
  }
  return h;
}

void FiducialUpdater_UpdateEKF(FiducialUpdater & self, EKF & ekf, double time, const BoardDetection & board)
{
  double local_time = ekf.CalculateLocalTime(time);
  ekf.PredictModel(local_time);
  auto t0 = std::chrono::high_resolution_clock::now();
  VectorXd pred = FiducialUpdater_PredictMeasurement(self, ekf);
  VectorXd y = VectorXd::Zero(6);
  y.segment<3>(0) = board.pos_f_in_c - pred.segment<3>(0);
  y.segment<3>(3) = QuatToRotVec(board.ang_f_to_c * RotVecToQuat(pred.segment<3>(3)).inverse());
  MatrixXd h = FiducialUpdater_GetMeasurementJacobian(self, ekf);
  MatrixXd r = MatrixXd::Zero(6, 6);
  r.block<3, 3>(0, 0) = board.pos_error.asDiagonal();
  r.block<3, 3>(3, 3) = board.ang_error.asDiagonal();
  self.KalmanUpdate(ekf, h, y, r);
  auto t1 = std::chrono::high_resolution_clock::now();

  const CamState & cam = ekf.m_state.cam_states[self.m_camera_id];
  const FidState & fid = ekf.m_state.fid_states[self.m_id];
  std::stringstream s;
  s << local_time << "," << self.m_id;
  s << VectorToCommaString(board.pos_f_in_c) << QuaternionToCommaString(board.ang_f_to_c);
  s << VectorToCommaString(cam.pos_c_in_b) << QuaternionToCommaString(cam.ang_c_to_b);
  s << VectorToCommaString(y);
  if (self.m_is_fid_extrinsic) {
    s << VectorToCommaString(fid.pos_f_in_l) << QuaternionToCommaString(fid.ang_f_to_l);
    s << VectorToCommaString(Variances(ekf, fid.index, 6));
  }
  if (self.m_is_cam_extrinsic) {s << VectorToCommaString(Variances(ekf, cam.index, 6));}
  s << "," << std::chrono::duration_cast<std::chrono::microseconds>(t1 - t0).count();
  self.m_fiducial_logger.RateLimitedLog(s.str(), local_time);
}

// ---------------------------------------------------------------- camera features
static Vector3d Bearing(const MsckfUpdater & self, const FeaturePoint & p)
{
  Vector3d b;
  b(0) = (static_cast<double>(p.key_point.pt.x) - self.m_intrinsics.width / 2) * self.m_intrinsics.pixel_size / self.m_intrinsics.f_x;
  b(1) = (static_cast<double>(p.key_point.pt.y) - self.m_intrinsics.height / 2) * self.m_intrinsics.pixel_size / self.m_intrinsics.f_y;
  b(2) = 1;
  return b;
}

bool MsckfUpdater_TriangulateFeature(
  MsckfUpdater & self, double local_time, EKF & ekf, const FeatureTrack & feature_track, Vector3d & pos_f_in_l)
{
  if (self.m_use_true_triangulation) {pos_f_in_l = feature_track.true_feature_position;}
  AugState first = ekf.GetAugState(self.m_id, feature_track.track[0].frame_id, feature_track.track[0].frame_time);
  Matrix3d rot_c_to_b = self.m_ang_c_to_b.toRotationMatrix();
  Matrix3d rot_l_to_c0 = rot_c_to_b.transpose() * first.ang_b_to_l.toRotationMatrix().transpose();
  Vector3d pos_c0_in_l = first.ang_b_to_l.toRotationMatrix() * self.m_pos_c_in_b + first.pos_b_in_l;
  Matrix3d a = Matrix3d::Zero();
  Vector3d b = Vector3d::Zero();
  for (const auto & point : feature_track.track) {
    AugState clone = ekf.GetAugState(self.m_id, point.frame_id, point.frame_time);
    Matrix3d rot_b_to_l = clone.ang_b_to_l.toRotationMatrix();
    Vector3d bearing = Bearing(self, point);
    Matrix3d s = SkewSymmetric(rot_l_to_c0 * rot_b_to_l * rot_c_to_b * bearing / bearing.norm());
    a = a + s.transpose() * s;
    b = b + s.transpose() * s * (rot_l_to_c0 * (rot_b_to_l * self.m_pos_c_in_b + clone.pos_b_in_l - pos_c0_in_l));
  }
  Vector3d pos_f_in_c0 = a.colPivHouseholderQr().solve(b);
  if (pos_f_in_c0.z() < self.m_min_feat_dist || pos_f_in_c0.z() > self.m_max_feat_dist) {
    if (self.m_use_true_triangulation) {return true;}
    pos_f_in_l = Vector3d::Zero();
    return false;
  }
  Vector3d pos = first.ang_b_to_l.toRotationMatrix() * (self.m_ang_c_to_b * pos_f_in_c0 + self.m_pos_c_in_b) + first.pos_b_in_l;
  std::stringstream s;
  s << std::setprecision(3) << local_time << "," << std::to_string(feature_track.track[0].key_point.class_id);
  s << VectorToCommaString(pos);
  self.m_triangulation_logger.RateLimitedLog(s.str(), local_time);
  if (!self.m_use_true_triangulation) {pos_f_in_l = pos;}
  return true;
}

void MsckfUpdater_ProjectionJacobian(const Vector3d & p, MatrixXd & h)
{
  h(0, 0) = 1 / p(2);
  h(0, 1) = 0;
  h(0, 2) = -p(0) / (p(2) * p(2));
  h(1, 0) = 0;
  h(1, 1) = 1 / p(2);
  h(1, 2) = -p(1) / (p(2) * p(2));
}

Vector2d MsckfUpdater_Project(const Vector3d p)
{
  Vector2d xy;
  xy(0) = p(0) / p(2);
  xy(1) = p(1) / p(2);
  return xy;
}

// radial and tangential distortion of a normalised image point
Vector2d MsckfUpdater_Distort(const Vector2d & n, const Intrinsics & k)
{
  double x = n(0);
  double y = n(1);
  double r2 = x * x + y * y;
  double radial = 1 + k.k_1 * r2 + k.k_2 * r2 * r2;
  Vector2d d;
  d(0) = x * radial + 2 * k.p_1 * x * y + k.p_2 * (r2 + 2 * x * x);
  d(1) = y * radial + k.p_1 * (r2 + 2 * y * y) + 2 * k.p_2 * x * y;
  return d;
}

// and its derivatives
void MsckfUpdater_DistortionJacobian(const Vector2d & n, const Intrinsics & k, MatrixXd & h)
{
  double x = n(0);
  double y = n(1);
  double r2 = x * x + y * y;
  double radial = 1 + k.k_1 * r2 + k.k_2 * r2 * r2;
  h = MatrixXd::Zero(2, 2);
  h(0, 0) = radial + x * x * (2 * k.k_1 + 4 * k.k_2 * r2) + 2 * k.p_1 * y + 6 * k.p_2 * x;
  h(0, 1) = x * y * (2 * k.k_1 + 4 * k.k_2 * r2) + 2 * k.p_1 * x + 2 * k.p_2 * y;
  h(1, 0) = x * y * (2 * k.k_1 + 4 * k.k_2 * r2) + 2 * k.p_1 * x + 2 * k.p_2 * y;
  h(1, 1) = radial + y * y * (2 * k.k_1 + 4 * k.k_2 * r2) + 6 * k.p_1 * y + 2 * k.p_2 * x;
}

void MsckfUpdater_UpdateEKF(MsckfUpdater & self, EKF & ekf, double time, const FeatureTracks & tracks, double px_error)
{
  double local_time = ekf.CalculateLocalTime(time);
  ekf.PredictModel(local_time);
  auto t0 = std::chrono::high_resolution_clock::now();
  if (tracks.empty()) {return;}
  if (!ekf.m_use_first_estimate_jacobian || self.m_is_first_estimate) {
    const CamState & cam = ekf.m_state.cam_states[self.m_id];
    self.m_intrinsics = cam.intrinsics;
    self.m_pos_c_in_b = cam.pos_c_in_b;
    self.m_ang_c_to_b = cam.ang_c_to_b;
    self.m_is_first_estimate = false;
  }
  const unsigned int n = ekf.m_state_size;
  const unsigned int c = ekf.m_state.cam_states[self.m_id].index;
  unsigned int rows = 0;
  for (const auto & t : tracks) {rows += 2 * static_cast<unsigned int>(t.track.size());}
  VectorXd y = VectorXd::Zero(rows);
  MatrixXd h = MatrixXd::Zero(rows, n);
  unsigned int used = 0;
  for (const auto & t : tracks) {
    Vector3d pos_f_in_l;
    if (!self.TriangulateFeature(local_time, ekf, t, pos_f_in_l)) {continue;}
    VectorXd y_f = VectorXd::Zero(2 * t.track.size());
    MatrixXd h_f = MatrixXd::Zero(2 * t.track.size(), 3);
    MatrixXd h_x = MatrixXd::Zero(2 * t.track.size(), n);
    for (unsigned int i = 0; i < t.track.size(); ++i) {
      AugState clone = ekf.GetAugState(self.m_id, t.track[i].frame_id, t.track[i].frame_time);
      Matrix3d rot_b_to_c = self.m_ang_c_to_b.toRotationMatrix().transpose();
      Matrix3d rot_l_to_b = clone.ang_b_to_l.toRotationMatrix().transpose();
      Matrix3d rot_l_to_c = rot_b_to_c * rot_l_to_b;
      Vector3d d = pos_f_in_l - clone.pos_b_in_l;
      Vector3d pos_f_in_c = rot_b_to_c * (rot_l_to_b * d - self.m_pos_c_in_b);
      Vector3d bearing = Bearing(self, t.track[i]);
      Vector2d measured(bearing(0), bearing(1));
      y_f.segment<2>(2 * i) = measured - MsckfUpdater_Project(pos_f_in_c);
      MatrixXd h_p(2, 3);
      MsckfUpdater_ProjectionJacobian(pos_f_in_c, h_p);
      MatrixXd h_d(2, 2);
      MsckfUpdater_DistortionJacobian(measured, self.m_intrinsics, h_d);
      MatrixXd h_i = h_d * h_p;
      h_f.block<2, 3>(2 * i, 0) = h_i * rot_l_to_c;
      MatrixXd h_t = MatrixXd::Zero(3, 6);
      h_t.block<3, 3>(0, 0) = -rot_l_to_c;
      h_t.block<3, 3>(0, 3) = rot_l_to_c * SkewSymmetric(d) * QuaternionJacobian(clone.ang_b_to_l).transpose();
      if (self.m_is_cam_extrinsic) {
        h_x.block<2, 3>(2 * i, c) = -h_i * rot_b_to_c;
        h_x.block<2, 3>(2 * i, c + 3) = h_i * rot_b_to_c *
          SkewSymmetric(rot_l_to_b * d - self.m_pos_c_in_b) * QuaternionJacobian(self.m_ang_c_to_b).transpose();
      }
      MatrixXd h_clone = h_i * h_t;
      if (clone.alpha == 0.0) {
        h_x.block<2, 6>(2 * i, clone.index) = h_clone;
      } else {
        h_x.block<2, 6>(2 * i, clone.index) = h_clone * (1 - clone.alpha);
        if (clone.index + 12 > n) {
          h_x.block<2, 3>(2 * i, 0) = (h_clone * clone.alpha).block<2, 3>(0, 0);
          h_x.block<2, 3>(2 * i, 9) = (h_clone * clone.alpha).block<2, 3>(0, 3);
        } else {
          h_x.block<2, 6>(2 * i, clone.index + 6) = h_clone * clone.alpha;
        }
      }
    }
    ApplyLeftNullspace(h_f, h_x, y_f);
    h.block(used, 0, h_x.rows(), h_x.cols()) = h_x;
    y.block(used, 0, y_f.rows(), 1) = y_f;
    used += static_cast<unsigned int>(h_x.rows());
  }
  if (used == 0) {return;}
  CompressMeasurements(h, y);
  if (y.size() <= 1) {return;}
  double sigma = std::max(px_error, 0.5);
  self.KalmanUpdate(ekf, h, y, sigma * sigma * MatrixXd::Identity(y.rows(), y.rows()));
  auto t1 = std::chrono::high_resolution_clock::now();

  const CamState & cam = ekf.m_state.cam_states[self.m_id];
  std::stringstream s;
  s << local_time << VectorToCommaString(cam.pos_c_in_b) << QuaternionToCommaString(cam.ang_c_to_b);
  if (self.m_is_cam_extrinsic) {s << VectorToCommaString(Variances(ekf, c, 6));}
  s << "," << std::to_string(tracks.size());
  s << "," << std::chrono::duration_cast<std::chrono::microseconds>(t1 - t0).count();
  self.m_msckf_logger.RateLimitedLog(s.str(), local_time);
}

}  // namespace spec
