// Simulated truth: stored calibration and scene, trajectories, truth logs
#include "common.hpp"
#include <opencv2/opencv.hpp>
#include <eigen3/unsupported/Eigen/Splines>
#include "infrastructure/data_logger.hpp"
#include "infrastructure/sim/truth_engine.hpp"
#include "infrastructure/sim/truth_engine_cyclic.hpp"
#include "infrastructure/sim/truth_engine_smoother.hpp"
#include "infrastructure/sim/truth_engine_spline.hpp"
#include "trackers/sim/sim_feature_tracker.hpp"
#include "utility/sim/sim_rng.hpp"

std::vector<Eigen::Vector3d> InterpolateVectors(std::vector<double> m_time, std::vector<double> times, std::vector<Eigen::Vector3d> & vectors);
std::vector<Eigen::Vector3d> Derivative(std::vector<double> times, std::vector<Eigen::Vector3d> & values);

namespace spec
{
void base_TruthEngine(double max_time, std::shared_ptr<DebugLogger> logger);

// ---------------------------------------------------------------- calibration truth, stored per sensor
Eigen::Vector3d TruthEngine_GetImuPosition(TruthEngine & self, unsigned int id) {return self.m_imu_pos[id];}
Eigen::Quaterniond TruthEngine_GetImuAngularPosition(TruthEngine & self, unsigned int id) {return self.m_imu_ang_pos[id];}
Eigen::Vector3d TruthEngine_GetImuAccelerometerBias(TruthEngine & self, unsigned int id) {return self.m_imu_acc_bias[id];}
Eigen::Vector3d TruthEngine_GetImuGyroscopeBias(TruthEngine & self, unsigned int id) {return self.m_imu_gyro_bias[id];}
Eigen::Vector3d TruthEngine_GetCameraPosition(TruthEngine & self, unsigned int id) {return self.m_cam_pos[id];}
Eigen::Quaterniond TruthEngine_GetCameraAngularPosition(TruthEngine & self, unsigned int id) {return self.m_cam_ang_pos[id];}
Intrinsics TruthEngine_GetCameraIntrinsics(TruthEngine & self, unsigned int id) {return self.m_cam_intrinsics[id];}
Eigen::Vector3d TruthEngine_GetGpsPosition(TruthEngine & self, unsigned int id) {return self.m_gps_pos[id];}
Eigen::Vector3d TruthEngine_GetBoardPosition(TruthEngine & self, unsigned int id) {return self.m_board_pos[id];}
Eigen::Quaterniond TruthEngine_GetBoardOrientation(TruthEngine & self, unsigned int id) {return self.m_board_ang[id];}
Eigen::Vector3d TruthEngine_GetLocalPosition(const TruthEngine & self) {return self.m_lla_reference;}
double TruthEngine_GetLocalHeading(const TruthEngine & self) {return self.m_heading;}
void TruthEngine_SetImuPosition(TruthEngine & self, unsigned int id, const Eigen::Vector3d & x) {self.m_imu_pos[id] = x;}
void TruthEngine_SetImuAngularPosition(TruthEngine & self, unsigned int id, const Eigen::Quaterniond & x) {self.m_imu_ang_pos[id] = x;}
void TruthEngine_SetImuAccelerometerBias(TruthEngine & self, unsigned int id, const Eigen::Vector3d & x) {self.m_imu_acc_bias[id] = x;}
void TruthEngine_SetImuGyroscopeBias(TruthEngine & self, unsigned int id, const Eigen::Vector3d & x) {self.m_imu_gyro_bias[id] = x;}
void TruthEngine_SetCameraPosition(TruthEngine & self, unsigned int id, const Eigen::Vector3d & x) {self.m_cam_pos[id] = x;}
void TruthEngine_SetCameraAngularPosition(TruthEngine & self, unsigned int id, const Eigen::Quaterniond & x) {self.m_cam_ang_pos[id] = x;}
void TruthEngine_SetCameraIntrinsics(TruthEngine & self, unsigned int id, const Intrinsics & x) {self.m_cam_intrinsics[id] = x;}
void TruthEngine_SetGpsPosition(TruthEngine & self, unsigned int id, const Eigen::Vector3d & x) {self.m_gps_pos[id] = x;}
void TruthEngine_SetBoardPosition(TruthEngine & self, unsigned int id, const Eigen::Vector3d & x) {self.m_board_pos[id] = x;}
void TruthEngine_SetBoardOrientation(TruthEngine & self, unsigned int id, const Eigen::Quaterniond & x) {self.m_board_ang[id] = x;}
void TruthEngine_SetLocalPosition(TruthEngine & self, const Eigen::Vector3d & x) {self.m_lla_reference = x;}
void TruthEngine_SetLocalHeading(TruthEngine & self, double x) {self.m_heading = x;}

// ---------------------------------------------------------------- features: number i of the list is feature i of the map
std::vector<cv::Point3d> TruthEngine_GetFeatures(TruthEngine & self) {return self.m_feature_points;}
cv::Point3d TruthEngine_GetFeature(TruthEngine & self, int id) {return self.m_feature_points_map[static_cast<unsigned int>(id)];}

void TruthEngine_GenerateGridFeatures(TruthEngine & self)
{
  for (int i = 0; i < self.m_grid_size; ++i) {
    for (int j = 0; j < self.m_grid_size; ++j) {
      double n = self.m_grid_size;
      double wall = self.m_room_size / 2.0;
      double a = i / n * self.m_room_size - wall;
      double b = j / n * self.m_room_size - wall;
      self.m_feature_points.push_back(cv::Point3d(wall, a, b));
      self.m_feature_points.push_back(cv::Point3d(-wall, a, b));
      self.m_feature_points.push_back(cv::Point3d(a, wall, b));
      self.m_feature_points.push_back(cv::Point3d(a, -wall, b));
      self.m_feature_points.push_back(cv::Point3d(a, b, wall));
      self.m_feature_points.push_back(cv::Point3d(a, b, -wall));
    }
  }
  for (unsigned int i = 0; i < self.m_feature_points.size(); ++i) {
    self.m_feature_points_map[i] = self.m_feature_points[i];
  }
}

std::vector<cv::Point3d> TruthEngine_GenerateVisibleFeatures(TruthEngine & self, double time, unsigned int camera, unsigned int count)
{
  Eigen::Vector3d pos_b_in_l = self.GetBodyPosition(time);
  Eigen::Quaterniond ang_b_to_l = self.GetBodyAngularPosition(time);
  Eigen::Vector3d pos_c_in_b = self.GetCameraPosition(camera);
  Eigen::Quaterniond ang_c_to_b = self.GetCameraAngularPosition(camera);
  Intrinsics k = self.GetCameraIntrinsics(camera);
  for (unsigned int i = 0; i < count; ++i) {
    unsigned int u = static_cast<unsigned int>(SimRNG::UniRand(0, k.width));
    unsigned int v = static_cast<unsigned int>(SimRNG::UniRand(0, k.height));
    double depth = SimRNG::UniRand(0, self.m_room_size);
    Eigen::Vector3d pos_f_in_c;
    pos_f_in_c(0) = depth * (u - k.width / 2) * k.pixel_size / k.f_x;
    pos_f_in_c(1) = depth * (v - k.height / 2) * k.pixel_size / k.f_y;
    pos_f_in_c(2) = depth;
    Eigen::Vector3d f = pos_b_in_l + ang_b_to_l * pos_c_in_b + (ang_b_to_l * ang_c_to_b) * pos_f_in_c;
    cv::Point3d p(f(0), f(1), f(2));
    self.m_feature_points.push_back(p);
    unsigned int id = static_cast<unsigned int>(self.m_feature_points_map.size());
    self.m_feature_points_map[id] = p;
  }
  return self.m_feature_points;
}

std::vector<cv::KeyPoint> SimFeatureTracker_GetVisibleKeypoints(const SimFeatureTracker & self, double time)
{
  Eigen::Vector3d pos_b_in_l = self.m_truth->GetBodyPosition(time);
  Eigen::Quaterniond ang_b_to_l = self.m_truth->GetBodyAngularPosition(time);
  Eigen::Vector3d pos_c_in_b = self.m_truth->GetCameraPosition(self.m_camera_id);
  Eigen::Quaterniond ang_c_to_b = self.m_truth->GetCameraAngularPosition(self.m_camera_id);
  Eigen::Matrix3d rot_c_to_l = (ang_b_to_l * ang_c_to_b).toRotationMatrix();
  Eigen::Vector3d pos_c_in_l = pos_b_in_l + ang_b_to_l * pos_c_in_b;

  cv::Mat rotation(3, 3, cv::DataType<double>::type);
  EigenMatrixToCv(Eigen::Matrix3d(rot_c_to_l.transpose()), rotation);
  cv::Mat rotation_vector(3, 1, cv::DataType<double>::type);
  cv::Rodrigues(rotation, rotation_vector);
  Eigen::Vector3d pos_l_in_c = rot_c_to_l.transpose() * (-pos_c_in_l);
  cv::Mat translation(3, 1, cv::DataType<double>::type);
  translation.at<double>(0) = pos_l_in_c(0);
  translation.at<double>(1) = pos_l_in_c(1);
  translation.at<double>(2) = pos_l_in_c(2);

  Intrinsics k = self.m_truth->GetCameraIntrinsics(self.m_camera_id);
  cv::Mat camera_matrix = k.ToCameraMatrix();
  cv::Mat distortion = k.ToDistortionVector();
  std::vector<cv::Point2d> image;
  std::vector<cv::Point3d> features = self.m_truth->GetFeatures();
  cv::projectPoints(features, rotation_vector, translation, camera_matrix, distortion, image);
  std::vector<cv::KeyPoint> seen = self.FilterInvisiblePoints(features, image, rot_c_to_l, pos_c_in_l, k);
  if (seen.size() < self.m_feature_count) {
    features = self.m_truth->GenerateVisibleFeatures(time, self.m_camera_id, self.m_feature_count - static_cast<unsigned int>(seen.size()));
    cv::projectPoints(features, rotation_vector, translation, camera_matrix, distortion, image);
    seen = self.FilterInvisiblePoints(features, image, rot_c_to_l, pos_c_in_l, k);
  }
  return seen;
}

void TruthEngine_ctor(TruthEngine & self, double max_time, std::shared_ptr<DebugLogger> logger)
{
  self.m_max_time = max_time;
  self.m_logger = logger;
  self.m_lla_reference = Eigen::Vector3d(0.0, 0.0, 0.0);
  self.m_heading = 0.0;
  self.m_room_size = 4.0;
  self.m_grid_size = 15;
  self.m_feature_points.clear();
  self.m_feature_points_map.clear();
  TruthEngine_GenerateGridFeatures(self);
}

// ---------------------------------------------------------------- truth logs
void TruthEngine_WriteTruthData(TruthEngine & self, double rate, const std::string & directory)
{
  DataLogger body(directory, "body_truth.csv");
  body.EnableLogging();
  std::string h = "time";
  h += EnumerateHeader("body_pos", 3) + EnumerateHeader("body_vel", 3) + EnumerateHeader("body_acc", 3);
  h += EnumerateHeader("body_ang_pos", 4) + EnumerateHeader("body_ang_vel", 3) + EnumerateHeader("body_ang_acc", 3);
  unsigned int n = 0;
  for (unsigned int i = 0; i < self.m_imu_pos.size(); ++i) {
    ++n;
    h += EnumerateHeader("imu_pos_" + std::to_string(n), 3);
    h += EnumerateHeader("imu_ang_pos_" + std::to_string(n), 4);
    h += EnumerateHeader("imu_acc_bias_" + std::to_string(n), 3);
    h += EnumerateHeader("imu_gyr_bias_" + std::to_string(n), 3);
  }
  for (unsigned int i = 0; i < self.m_cam_pos.size(); ++i) {
    ++n;
    h += EnumerateHeader("cam_pos_" + std::to_string(n), 3);
    h += EnumerateHeader("cam_ang_pos_" + std::to_string(n), 4);
  }
  for (unsigned int i = 0; i < self.m_gps_pos.size(); ++i) {
    ++n;
    h += EnumerateHeader("gps_pos_" + std::to_string(n), 3);
  }
  if (!self.m_gps_pos.empty()) {
    h += ",ref_lat,ref_lon,ref_alt,ref_heading";
  }
  body.DefineHeader(h);

  unsigned int count = static_cast<unsigned int>(std::floor((self.m_max_time + 1.0) * rate));
  for (unsigned int i = 0; i < count; ++i) {
    double time = i / rate;
    std::stringstream row;
    row << time;
    row << VectorToCommaString(self.GetBodyPosition(time));
    row << VectorToCommaString(self.GetBodyVelocity(time));
    row << VectorToCommaString(self.GetBodyAcceleration(time) + g_gravity);
    row << QuaternionToCommaString(self.GetBodyAngularPosition(time));
    row << VectorToCommaString(self.GetBodyAngularRate(time));
    row << VectorToCommaString(self.GetBodyAngularAcceleration(time));
    unsigned int s = 0;
    for (unsigned int j = 0; j < self.m_imu_pos.size(); ++j) {
      ++s;
      row << VectorToCommaString(self.GetImuPosition(s));
      row << QuaternionToCommaString(self.GetImuAngularPosition(s));
      row << VectorToCommaString(self.GetImuAccelerometerBias(s));
      row << VectorToCommaString(self.GetImuGyroscopeBias(s));
    }
    for (unsigned int j = 0; j < self.m_cam_pos.size(); ++j) {
      ++s;
      row << VectorToCommaString(self.GetCameraPosition(s));
      row << QuaternionToCommaString(self.GetCameraAngularPosition(s));
    }
    for (unsigned int j = 0; j < self.m_gps_pos.size(); ++j) {
      ++s;
      row << VectorToCommaString(self.GetGpsPosition(s));
    }
    if (!self.m_gps_pos.empty()) {
      row << VectorToCommaString(self.GetLocalPosition());
      row << "," << self.GetLocalHeading();
    }
    body.Log(row.str());
  }

  DataLogger boards(directory, "board_truth.csv");
  boards.EnableLogging();
  boards.DefineHeader("board,pos_x,pos_y,pos_z,quat_w,quat_x,quat_y,quat_z");
  for (auto const & b : self.m_board_pos) {
    boards.Log(std::to_string(b.first) + VectorToCommaString(b.second) + QuaternionToCommaString(self.m_board_ang[b.first]));
  }

  DataLogger features(directory, "feature_points.csv");
  features.EnableLogging();
  features.DefineHeader("Feature,x,y,z");
  for (unsigned int i = 0; i < self.m_feature_points.size(); ++i) {
    std::stringstream row;
    row << std::to_string(i) << "," << self.m_feature_points[i].x << "," << self.m_feature_points[i].y << "," << self.m_feature_points[i].z;
    features.Log(row.str());
  }
}

// ---------------------------------------------------------------- cyclic trajectory: offset + amplitude / 2 (1 - cos(2 pi f t)) after the stationary time
void TruthEngineCyclic_ctor(
  TruthEngineCyclic & self, Eigen::Vector3d pos_frequency, Eigen::Vector3d ang_frequency, Eigen::Vector3d pos_offset, Eigen::Vector3d ang_offset,
  double pos_amplitude, double ang_amplitude, double stationary_time, double max_time, std::shared_ptr<DebugLogger> logger)
{
  base_TruthEngine(max_time, logger);
  self.m_pos_frequency = pos_frequency;
  self.m_ang_frequency = ang_frequency;
  self.m_pos_offset = pos_offset;
  self.m_ang_offset = ang_offset;
  self.m_pos_amplitude = pos_amplitude;
  self.m_ang_amplitude = ang_amplitude;
  self.m_stationary_time = stationary_time;
}

Eigen::Vector3d cycle(const Eigen::Vector3d & f, double amplitude, double t)
{
  Eigen::Vector3d x;
  for (unsigned int i = 0; i < 3; ++i) {
    x(i) = amplitude / 2.0 * (1.0 - std::cos(2.0 * M_PI * f(i) * t));
  }
  return x;
}

Eigen::Vector3d cycle_rate(const Eigen::Vector3d & f, double amplitude, double t)
{
  Eigen::Vector3d x;
  for (unsigned int i = 0; i < 3; ++i) {
    x(i) = amplitude * M_PI * f(i) * std::sin(2.0 * M_PI * f(i) * t);
  }
  return x;
}

Eigen::Vector3d cycle_acceleration(const Eigen::Vector3d & f, double amplitude, double t)
{
  Eigen::Vector3d x;
  for (unsigned int i = 0; i < 3; ++i) {
    x(i) = 2.0 * amplitude * M_PI * M_PI * f(i) * f(i) * std::cos(2.0 * M_PI * f(i) * t);
  }
  return x;
}

Eigen::Vector3d TruthEngineCyclic_GetBodyPosition(TruthEngineCyclic & self, double time)
{
  double t = time - self.m_stationary_time;
  if (t < 0.0) {return self.m_pos_offset;}
  return self.m_pos_offset + cycle(self.m_pos_frequency, self.m_pos_amplitude, t);
}

Eigen::Vector3d TruthEngineCyclic_GetBodyVelocity(TruthEngineCyclic & self, double time)
{
  double t = time - self.m_stationary_time;
  if (t < 0.0) {return Eigen::Vector3d::Zero();}
  return cycle_rate(self.m_pos_frequency, self.m_pos_amplitude, t);
}

Eigen::Vector3d TruthEngineCyclic_GetBodyAcceleration(TruthEngineCyclic & self, double time)
{
  double t = time - self.m_stationary_time;
  if (t < 0.0) {return Eigen::Vector3d::Zero();}
  return cycle_acceleration(self.m_pos_frequency, self.m_pos_amplitude, t);
}

Eigen::Vector3d TruthEngineCyclic_GetBodyRollPitchYaw(TruthEngineCyclic & self, double time)
{
  double t = time - self.m_stationary_time;
  if (t < 0.0) {return self.m_ang_offset;}
  return self.m_ang_offset + cycle(self.m_ang_frequency, self.m_ang_amplitude, t);
}

Eigen::Quaterniond TruthEngineCyclic_GetBodyAngularPosition(TruthEngineCyclic & self, double time)
{
  return EigVecToQuat(TruthEngineCyclic_GetBodyRollPitchYaw(self, time));
}

// angular rate in the body frame of roll, pitch, yaw angles applied in the order yaw, pitch, roll
Eigen::Matrix3d euler_transform(double r, double p)
{
  Eigen::Matrix3d m;
  m << 1.0, 0.0, -std::sin(p),
    0.0, std::cos(r), std::sin(r) * std::cos(p),
    0.0, -std::sin(r), std::cos(r) * std::cos(p);
  return m;
}

Eigen::Matrix3d euler_transform_rate(double r, double p, double dr, double dp)
{
  Eigen::Matrix3d m;
  m << 0.0, 0.0, -std::cos(p) * dp,
    0.0, -std::sin(r) * dr, std::cos(r) * std::cos(p) * dr - std::sin(r) * std::sin(p) * dp,
    0.0, -std::cos(r) * dr, -std::sin(r) * std::cos(p) * dr - std::cos(r) * std::sin(p) * dp;
  return m;
}

Eigen::Matrix3d TruthEngineCyclic_EulerDerivativeTransform(const Eigen::Vector3d & rpy)
{
  return euler_transform(rpy(0), rpy(1));
}

Eigen::Vector3d TruthEngineCyclic_GetBodyAngularRate(TruthEngineCyclic & self, double time)
{
  double t = time - self.m_stationary_time;
  if (t < 0.0) {return Eigen::Vector3d::Zero();}
  Eigen::Vector3d a = TruthEngineCyclic_GetBodyRollPitchYaw(self, time);
  return euler_transform(a(0), a(1)) * cycle_rate(self.m_ang_frequency, self.m_ang_amplitude, t);
}

Eigen::Vector3d TruthEngineCyclic_GetBodyAngularAcceleration(TruthEngineCyclic & self, double time)
{
  double t = time - self.m_stationary_time;
  if (t < 0.0) {return Eigen::Vector3d::Zero();}
  Eigen::Vector3d a = TruthEngineCyclic_GetBodyRollPitchYaw(self, time);
  Eigen::Vector3d d = cycle_rate(self.m_ang_frequency, self.m_ang_amplitude, t);
  return euler_transform(a(0), a(1)) * cycle_acceleration(self.m_ang_frequency, self.m_ang_amplitude, t) +
         euler_transform_rate(a(0), a(1), d(0), d(1)) * d;
}

void TruthEngineCyclic_SetBodyPosCycleFrequency(TruthEngineCyclic & self, const Eigen::Vector3d & f) {self.m_pos_frequency = f;}
void TruthEngineCyclic_SetBodyAngCycleFrequency(TruthEngineCyclic & self, const Eigen::Vector3d & f) {self.m_ang_frequency = f;}

// ---------------------------------------------------------------- spline trajectory
bool TruthEngineSpline_IsTimeInvalid(TruthEngineSpline & self, double t) {return t < 0.0 || t > self.m_max_time;}

void TruthEngineSpline_ctor(
  TruthEngineSpline & self, std::vector<double> positions, std::vector<double> angles, std::vector<double> position_errors, std::vector<double> angle_errors,
  double stationary_time, double max_time, std::shared_ptr<DebugLogger> logger)
{
  base_TruthEngine(max_time, logger);
  unsigned int n = static_cast<unsigned int>(std::floor(std::min(static_cast<double>(positions.size()), static_cast<double>(angles.size())) / 3.0));
  Eigen::Vector3d position_error = StdToEigVec(position_errors);
  Eigen::Vector3d angle_error = StdToEigVec(angle_errors);
  Eigen::MatrixXd p(3, n);
  Eigen::MatrixXd a(3, n);
  for (unsigned int i = 0; i < n; ++i) {
    Eigen::Vector3d x(positions[3 * i], positions[3 * i + 1], positions[3 * i + 2]);
    Eigen::Vector3d y(angles[3 * i], angles[3 * i + 1], angles[3 * i + 2]);
    if (i > 0) {
      x = SimRNG::VecNormRand(x, position_error);
      y = SimRNG::VecNormRand(y, angle_error);
    }
    p.col(i) = x;
    a.col(i) = y;
  }
  Eigen::MatrixXd derivatives(3, 1);
  Eigen::VectorXd at(1);
  derivatives.setZero();
  at.setZero();
  self.m_pos_spline = Eigen::SplineFitting<Eigen::Spline3d>::InterpolateWithDerivatives(p, derivatives, at, 2);
  self.m_ang_spline = Eigen::SplineFitting<Eigen::Spline3d>::InterpolateWithDerivatives(a, derivatives, at, 2);
  self.m_stationary_time = stationary_time;
}

bool spline_off(TruthEngineSpline & self, const Eigen::Spline3d & spline, double time)
{
  double t = time - self.m_stationary_time;
  return t < 0.0 || t > self.m_max_time || self.IsSplineInvalid(spline);
}

Eigen::Vector3d TruthEngineSpline_GetBodyPosition(TruthEngineSpline & self, double time)
{
  if (spline_off(self, self.m_pos_spline, time)) {return Eigen::Vector3d::Zero();}
  return self.m_pos_spline((time - self.m_stationary_time) / (self.m_max_time - self.m_stationary_time));
}

Eigen::Vector3d TruthEngineSpline_GetBodyVelocity(TruthEngineSpline & self, double time)
{
  if (spline_off(self, self.m_pos_spline, time)) {return Eigen::Vector3d::Zero();}
  double length = self.m_max_time - self.m_stationary_time;
  Eigen::Vector3d d = self.m_pos_spline.derivatives((time - self.m_stationary_time) / length, 1).block<3, 1>(0, 1);
  return d / length;
}

Eigen::Vector3d TruthEngineSpline_GetBodyAcceleration(TruthEngineSpline & self, double time)
{
  if (spline_off(self, self.m_pos_spline, time)) {return Eigen::Vector3d::Zero();}
  double length = self.m_max_time - self.m_stationary_time;
  Eigen::Vector3d d = self.m_pos_spline.derivatives((time - self.m_stationary_time) / length, 2).block<3, 1>(0, 2);
  return d / (length * length);
}

Eigen::Quaterniond TruthEngineSpline_GetBodyAngularPosition(TruthEngineSpline & self, double time)
{
  if (spline_off(self, self.m_ang_spline, time)) {return Eigen::Quaterniond(1.0, 0.0, 0.0, 0.0);}
  Eigen::Vector3d a = self.m_ang_spline((time - self.m_stationary_time) / (self.m_max_time - self.m_stationary_time));
  return EigVecToQuat(a);
}

// body angular rate and acceleration of the interpolated roll, pitch and yaw angles
Eigen::Vector3d TruthEngineSpline_GetBodyAngularRate(TruthEngineSpline & self, double time)
{
  if (spline_off(self, self.m_ang_spline, time)) {return Eigen::Vector3d::Zero();}
  double length = self.m_max_time - self.m_stationary_time;
  double u = (time - self.m_stationary_time) / length;
  Eigen::Vector3d a = self.m_ang_spline(u);
  Eigen::Vector3d d = self.m_ang_spline.derivatives(u, 1).block<3, 1>(0, 1) / length;
  return euler_transform(a(0), a(1)) * d;
}

Eigen::Vector3d TruthEngineSpline_GetBodyAngularAcceleration(TruthEngineSpline & self, double time)
{
  if (spline_off(self, self.m_ang_spline, time)) {return Eigen::Vector3d::Zero();}
  double length = self.m_max_time - self.m_stationary_time;
  double u = (time - self.m_stationary_time) / length;
  Eigen::Vector3d a = self.m_ang_spline(u);
  Eigen::Vector3d d = self.m_ang_spline.derivatives(u, 1).block<3, 1>(0, 1) / length;
  Eigen::Vector3d dd = self.m_ang_spline.derivatives(u, 2).block<3, 1>(0, 2) / (length * length);
  return euler_transform(a(0), a(1)) * dd + euler_transform_rate(a(0), a(1), d(0), d(1)) * d;
}

// known finding: the derivatives of the roll, pitch and yaw angles are returned as they are
Eigen::Vector3d TruthEngineSpline_GetBodyAngularRate_known(TruthEngineSpline & self, double time)
{
  if (spline_off(self, self.m_ang_spline, time)) {return Eigen::Vector3d::Zero();}
  double length = self.m_max_time - self.m_stationary_time;
  Eigen::Vector3d d = self.m_ang_spline.derivatives((time - self.m_stationary_time) / length, 1).block<3, 1>(0, 1);
  return d / length;
}

Eigen::Vector3d TruthEngineSpline_GetBodyAngularAcceleration_known(TruthEngineSpline & self, double time)
{
  if (spline_off(self, self.m_ang_spline, time)) {return Eigen::Vector3d::Zero();}
  double length = self.m_max_time - self.m_stationary_time;
  Eigen::Vector3d d = self.m_ang_spline.derivatives((time - self.m_stationary_time) / length, 2).block<3, 1>(0, 2);
  return d / (length * length);
}

// ---------------------------------------------------------------- sampled trajectory
Eigen::Vector3d TruthEngineSmoother_GetInterpolatedValue(const TruthEngineSmoother & self, double time, const std::vector<Eigen::Vector3d> & samples)
{
  double whole;
  double part = std::modf(time * self.m_rate, &whole);
  unsigned int i = static_cast<unsigned int>(whole);
  if (i + 1 < samples.size()) {
    return samples[i] + part * (samples[i + 1] - samples[i]);
  }
  return samples.back();
}

bool TruthEngineSmoother_IsTimeInvalid(const TruthEngineSmoother & self, double t) {return t < 0.0 || t > self.m_max_time;}

Eigen::Vector3d sampled(TruthEngineSmoother & self, double time, const std::vector<Eigen::Vector3d> & samples)
{
  double t = time - self.m_stationary_time;
  if (t < 0.0 || t > self.m_max_time) {return Eigen::Vector3d::Zero();}
  return self.GetInterpolatedValue(time, samples);
}

Eigen::Vector3d TruthEngineSmoother_GetBodyPosition(TruthEngineSmoother & self, double time) {return sampled(self, time, self.m_pos);}
Eigen::Vector3d TruthEngineSmoother_GetBodyVelocity(TruthEngineSmoother & self, double time) {return sampled(self, time, self.m_vel);}
Eigen::Vector3d TruthEngineSmoother_GetBodyAcceleration(TruthEngineSmoother & self, double time) {return sampled(self, time, self.m_acc);}
Eigen::Vector3d TruthEngineSmoother_GetBodyAngularRate(TruthEngineSmoother & self, double time)
{
  double t = time - self.m_stationary_time;
  if (t < 0.0 || t > self.m_max_time) {return Eigen::Vector3d::Zero();}
  Eigen::Vector3d a = self.GetInterpolatedValue(time, self.m_ang);
  return euler_transform(a(0), a(1)) * self.GetInterpolatedValue(time, self.m_ang_vel);
}

Eigen::Vector3d TruthEngineSmoother_GetBodyAngularAcceleration(TruthEngineSmoother & self, double time)
{
  double t = time - self.m_stationary_time;
  if (t < 0.0 || t > self.m_max_time) {return Eigen::Vector3d::Zero();}
  Eigen::Vector3d a = self.GetInterpolatedValue(time, self.m_ang);
  Eigen::Vector3d d = self.GetInterpolatedValue(time, self.m_ang_vel);
  return euler_transform(a(0), a(1)) * self.GetInterpolatedValue(time, self.m_ang_acc) + euler_transform_rate(a(0), a(1), d(0), d(1)) * d;
}

// known finding: the derivatives of the roll, pitch and yaw angles are returned as they are
Eigen::Vector3d TruthEngineSmoother_GetBodyAngularRate_known(TruthEngineSmoother & self, double time) {return sampled(self, time, self.m_ang_vel);}
Eigen::Vector3d TruthEngineSmoother_GetBodyAngularAcceleration_known(TruthEngineSmoother & self, double time) {return sampled(self, time, self.m_ang_acc);}
Eigen::Quaterniond TruthEngineSmoother_GetBodyAngularPosition(TruthEngineSmoother & self, double time)
{
  double t = time - self.m_stationary_time;
  if (t < 0.0 || t > self.m_max_time) {return Eigen::Quaterniond(1.0, 0.0, 0.0, 0.0);}
  return EigVecToQuat(self.GetInterpolatedValue(time, self.m_ang));
}

std::vector<Eigen::Vector3d> F_Derivative(std::vector<double> times, std::vector<Eigen::Vector3d> & values)
{
  std::vector<Eigen::Vector3d> d;
  for (unsigned int i = 0; i < values.size() - 1; ++i) {
    d.push_back((values[i + 1] - values[i]) / (times[i + 1] - times[i]));
  }
  d.push_back(d.back());
  return d;
}

std::vector<Eigen::Vector3d> F_InterpolateVectors(std::vector<double> at, std::vector<double> times, std::vector<Eigen::Vector3d> & values)
{
  std::vector<Eigen::Vector3d> out;
  unsigned int j = 0;
  for (unsigned int i = 0; i < at.size(); ++i) {
    Eigen::Vector3d x = Eigen::Vector3d::Zero();
    if (times[0] < at[i] && at[i] < times.back()) {
      while (j < times.size() && (at[i] < times[j] || times[j + 1] < at[i])) {
        ++j;
      }
      if (j >= times.size()) {
        break;
      }
      double w = (times[j + 1] - at[i]) / (times[j + 1] - times[j]);
      x = values[j] * w + values[j + 1] * (1.0 - w);
    }
    out.push_back(x);
  }
  return out;
}

void TruthEngineSmoother_ctor(
  TruthEngineSmoother & self, std::vector<double> times, std::vector<double> positions, std::vector<double> angles, std::vector<double> position_errors,
  std::vector<double> angle_errors, double stationary_time, double max_time, double rate, std::shared_ptr<DebugLogger> logger)
{
  base_TruthEngine(max_time, logger);
  self.m_rate = rate;
  self.m_time.clear();
  unsigned int n = static_cast<unsigned int>(std::floor(std::min(static_cast<double>(positions.size()), static_cast<double>(angles.size())) / 3.0));
  Eigen::Vector3d position_error = StdToEigVec(position_errors);
  Eigen::Vector3d angle_error = StdToEigVec(angle_errors);
  std::vector<Eigen::Vector3d> p;
  std::vector<Eigen::Vector3d> a;
  for (unsigned int i = 0; i < n; ++i) {
    Eigen::Vector3d x(positions[3 * i], positions[3 * i + 1], positions[3 * i + 2]);
    Eigen::Vector3d y(angles[3 * i], angles[3 * i + 1], angles[3 * i + 2]);
    if (i > 0) {
      x = SimRNG::VecNormRand(x, position_error);
      y = SimRNG::VecNormRand(y, angle_error);
    }
    p.push_back(x);
    a.push_back(y);
  }
  unsigned int count = static_cast<unsigned int>(std::ceil(self.m_max_time * rate));
  for (unsigned int i = 0; i < count; ++i) {
    self.m_time.push_back(i / rate);
  }
  self.m_pos = InterpolateVectors(self.m_time, times, p);
  self.m_ang = InterpolateVectors(self.m_time, times, a);
  self.m_vel = Derivative(self.m_time, self.m_pos);
  self.m_acc = Derivative(self.m_time, self.m_vel);
  self.m_ang_vel = Derivative(self.m_time, self.m_ang);
  self.m_ang_acc = Derivative(self.m_time, self.m_ang_vel);
  self.m_stationary_time = stationary_time;
}
}  // namespace spec
