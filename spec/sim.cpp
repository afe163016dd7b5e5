// Simulation: random numbers, simulated sensors and trackers, truth engines
#include "common.hpp"
#include <opencv2/opencv.hpp>
#include "infrastructure/sim/truth_engine.hpp"
#include "infrastructure/sim/truth_engine_cyclic.hpp"
#include "infrastructure/sim/truth_engine_smoother.hpp"
#include "infrastructure/sim/truth_engine_spline.hpp"
#include "sensors/sim/sim_camera.hpp"
#include "sensors/sim/sim_camera_message.hpp"
#include "sensors/sim/sim_gps.hpp"
#include "sensors/sim/sim_gps_message.hpp"
#include "sensors/sim/sim_imu.hpp"
#include "sensors/sim/sim_imu_message.hpp"
#include "sensors/sim/sim_sensor.hpp"
#include "trackers/sim/sim_feature_tracker.hpp"
#include "trackers/sim/sim_fiducial_tracker.hpp"
#include "utility/gps_helper.hpp"
#include "utility/sim/sim_rng.hpp"

namespace spec
{
// construction of a base class part
void base_IMU(IMU::Parameters p);
void base_GPS(GPS::Parameters p);
void base_Camera(Camera::Parameters p);
void base_FeatureTracker(FeatureTracker::Parameters p);
void base_FiducialTracker(FiducialTracker::Parameters p);
void base_SimSensor(SimSensor::Parameters p);

// ---------------------------------------------------------------- random numbers: one seeded generator
void SimRNG_SetSeed(unsigned int seed) {SimRNG::m_generator = std::mt19937_64(seed);}

double SimRNG_NormRand(double mean, double std_dev)
{
  std::normal_distribution<double> d(mean, std_dev);
  return d(SimRNG::m_generator);
}

double SimRNG_UniRand(double low, double high)
{
  std::uniform_real_distribution<double> d(low, high);
  return d(SimRNG::m_generator);
}

Eigen::Vector3d SimRNG_VecNormRand(const Eigen::Vector3d & mean, const Eigen::Vector3d & std_dev)
{
  double x = SimRNG::NormRand(mean(0), std_dev(0));
  double y = SimRNG::NormRand(mean(1), std_dev(1));
  double z = SimRNG::NormRand(mean(2), std_dev(2));
  return Eigen::Vector3d(x, y, z);
}

Eigen::Quaterniond SimRNG_QuatNormRand(const Eigen::Quaterniond & mean, const Eigen::Vector3d & std_dev)
{
  double x = std::min(SimRNG::NormRand(0.0, std_dev(0)), M_PI / 2.0);
  double y = std::min(SimRNG::NormRand(0.0, std_dev(1)), M_PI / 2.0);
  double z = std::min(SimRNG::NormRand(0.0, std_dev(2)), M_PI / 2.0);
  return RotVecToQuat(Eigen::Vector3d(x, y, z)) * mean;
}

// ---------------------------------------------------------------- measurement times
void SimSensor_ctor(SimSensor & self, SimSensor::Parameters p)
{
  self.m_no_errors = p.no_errors;
  self.m_time_error = p.no_errors ? 0.0 : p.time_error;
}

double SimSensor_ApplyTimeError(const SimSensor & self, double time)
{
  if (self.m_no_errors) {
    return time;
  }
  return SimRNG::NormRand(time, self.m_time_error);
}

std::vector<double> SimSensor_GenerateMeasurementTimes(const SimSensor & self, double rate)
{
  unsigned int n = static_cast<unsigned int>(std::floor(self.m_truth->m_max_time * rate));
  double start = 0.0;
  if (!self.m_no_errors) {
    start = SimRNG::UniRand(0.0, 1.0 / rate);
  }
  std::vector<double> out;
  for (unsigned int i = 0; i < n; ++i) {
    double t = i / rate + start;
    if (!self.m_no_errors) {
      t = SimRNG::NormRand(t, self.m_time_error);
    }
    out.push_back(t);
  }
  return out;
}

// ---------------------------------------------------------------- IMU
void SimIMU_ctor(SimIMU & self, SimIMU::Parameters p, std::shared_ptr<TruthEngine> truth)
{
  base_IMU(p.imu_params);
  SimSensor_ctor(self, p);
  self.m_acc_error = p.acc_error;
  self.m_omg_error = p.omg_error;
  self.m_truth = truth;
  Eigen::Vector3d pos = p.imu_params.pos_i_in_b;
  Eigen::Quaterniond ang = p.imu_params.ang_i_to_b;
  Eigen::Vector3d ba = p.imu_params.acc_bias;
  Eigen::Vector3d bg = p.imu_params.omg_bias;
  if (!p.no_errors) {
    pos = SimRNG::VecNormRand(p.imu_params.pos_i_in_b, p.pos_error);
    ang = SimRNG::QuatNormRand(p.imu_params.ang_i_to_b, p.ang_error);
    ba = SimRNG::VecNormRand(p.imu_params.acc_bias, p.acc_bias_error);
    bg = SimRNG::VecNormRand(p.imu_params.omg_bias, p.omg_bias_error);
  }
  truth->SetImuPosition(self.m_id, pos);
  truth->SetImuAngularPosition(self.m_id, ang);
  truth->SetImuAccelerometerBias(self.m_id, ba);
  truth->SetImuGyroscopeBias(self.m_id, bg);
}

std::vector<std::shared_ptr<SimImuMessage>> SimIMU_GenerateMessages(const SimIMU & self)
{
  std::vector<std::shared_ptr<SimImuMessage>> out;
  std::vector<double> times = self.GenerateMeasurementTimes(self.m_rate);
  TruthEngine & tr = *self.m_truth;
  for (double t : times) {
    auto m = std::make_shared<SimImuMessage>();
    m->time = t;
    m->sensor_id = self.m_id;
    m->sensor_type = SensorType::IMU;
    Eigen::Vector3d a = tr.GetBodyAcceleration(t);
    Eigen::Quaterniond q = tr.GetBodyAngularPosition(t);
    Eigen::Vector3d w = tr.GetBodyAngularRate(t);
    Eigen::Vector3d dw = tr.GetBodyAngularAcceleration(t);
    Eigen::Vector3d p = tr.GetImuPosition(self.m_id);
    Eigen::Quaterniond qi = tr.GetImuAngularPosition(self.m_id);
    Eigen::Vector3d ba = tr.GetImuAccelerometerBias(self.m_id);
    Eigen::Vector3d bg = tr.GetImuGyroscopeBias(self.m_id);
    // specific force at the IMU, in the IMU frame
    Eigen::Vector3d f = q.inverse() * (a + g_gravity) + dw.cross(p) + w.cross(w.cross(p));
    if (!self.m_no_errors) {
      ba = SimRNG::VecNormRand(ba, self.m_acc_error);
      bg = SimRNG::VecNormRand(bg, self.m_omg_error);
    }
    m->acceleration = qi.inverse() * f + ba;
    m->angular_rate = qi.inverse() * w + bg;
    m->acceleration_covariance = self.m_acc_error.cwiseProduct(self.m_acc_error).asDiagonal();
    m->angular_rate_covariance = self.m_omg_error.cwiseProduct(self.m_omg_error).asDiagonal();
    out.push_back(m);
  }
  return out;
}

// ---------------------------------------------------------------- GPS
void SimGPS_ctor(SimGPS & self, SimGPS::Parameters p, std::shared_ptr<TruthEngine> truth)
{
  base_GPS(p.gps_params);
  SimSensor_ctor(self, p);
  self.m_lla_error = p.lla_error;
  self.m_truth = truth;
  Eigen::Vector3d pos = p.gps_params.pos_a_in_b;
  if (!p.no_errors) {
    pos = SimRNG::VecNormRand(p.gps_params.pos_a_in_b, p.pos_a_in_b_err);
  }
  truth->SetGpsPosition(self.m_id, pos);
}

std::vector<std::shared_ptr<SimGpsMessage>> SimGPS_GenerateMessages(const SimGPS & self)
{
  std::vector<std::shared_ptr<SimGpsMessage>> out;
  std::vector<double> times = self.GenerateMeasurementTimes(self.m_rate);
  TruthEngine & tr = *self.m_truth;
  for (double t : times) {
    auto m = std::make_shared<SimGpsMessage>();
    m->time = t;
    m->sensor_id = self.m_id;
    m->sensor_type = SensorType::GPS;
    Eigen::Vector3d p = tr.GetBodyPosition(t);
    Eigen::Quaterniond q = tr.GetBodyAngularPosition(t);
    Eigen::Vector3d a = p + q * tr.GetGpsPosition(self.m_id);
    if (!self.m_no_errors) {
      a(0) += SimRNG::NormRand(0, self.m_lla_error(0));
      a(1) += SimRNG::NormRand(0, self.m_lla_error(1));
      a(2) += SimRNG::NormRand(0, self.m_lla_error(2));
    }
    m->gps_lla = enu_to_lla(local_to_enu(a, tr.GetLocalHeading()), tr.GetLocalPosition());
    m->pos_covariance = self.m_lla_error.cwiseProduct(self.m_lla_error).asDiagonal();
    out.push_back(m);
  }
  return out;
}

// ---------------------------------------------------------------- camera
void SimCamera_ctor(SimCamera & self, SimCamera::Parameters p, std::shared_ptr<TruthEngine> truth)
{
  base_Camera(p.cam_params);
  SimSensor_ctor(self, p);
  self.m_truth = truth;
  Eigen::Vector3d pos = p.cam_params.pos_c_in_b;
  Eigen::Quaterniond ang = p.cam_params.ang_c_to_b;
  if (!p.no_errors) {
    pos = SimRNG::VecNormRand(p.cam_params.pos_c_in_b, p.pos_error);
    ang = SimRNG::QuatNormRand(p.cam_params.ang_c_to_b, p.ang_error);
  }
  truth->SetCameraPosition(self.m_id, pos);
  truth->SetCameraAngularPosition(self.m_id, ang);
  truth->SetCameraIntrinsics(self.m_id, p.cam_params.intrinsics);
}

std::vector<std::shared_ptr<SimCameraMessage>> SimCamera_GenerateMessages(SimCamera & self)
{
  std::vector<std::shared_ptr<SimCameraMessage>> out;
  std::vector<double> times = self.GenerateMeasurementTimes(self.m_rate);
  for (double t : times) {
    unsigned int frame = self.GenerateFrameID();
    cv::Mat blank;
    auto m = std::make_shared<SimCameraMessage>(blank);
    m->sensor_id = self.m_id;
    m->sensor_type = SensorType::Camera;
    m->time = t;
    m->frame_id = frame;
    for (auto const & x : self.m_trackers) {
      m->feature_track_messages.push_back(self.m_trackers[x.first]->GenerateMessage(t, frame));
    }
    for (auto const & x : self.m_fiducials) {
      m->fiducial_track_messages.push_back(self.m_fiducials[x.first]->GenerateMessage(t, frame));
    }
    out.push_back(m);
  }
  return out;
}

void SimCamera_AddTracker(SimCamera & self, std::shared_ptr<SimFeatureTracker> x) {self.m_trackers[x->GetID()] = x;}
void SimCamera_AddFiducial(SimCamera & self, std::shared_ptr<SimFiducialTracker> x) {self.m_fiducials[x->GetID()] = x;}

void SimCamera_Callback(SimCamera & self, const SimCameraMessage & msg)
{
  EKF & ekf = *self.m_ekf;
  ekf.PredictModel(ekf.CalculateLocalTime(msg.time));
  ekf.AugmentStateIfNeeded(self.m_id, msg.frame_id);
  for (auto m : msg.feature_track_messages) {
    if (m->feature_tracks.size() > 0) {
      self.m_trackers[m->tracker_id]->Callback(msg.time, *m);
    }
  }
  for (auto m : msg.fiducial_track_messages) {
    self.m_fiducials[m->tracker_id]->Callback(msg.time, *m);
  }
}

// ---------------------------------------------------------------- simulated fiducial tracker
void SimFiducialTracker_ctor(SimFiducialTracker & self, SimFiducialTracker::Parameters p, std::shared_ptr<TruthEngine> truth)
{
  base_FiducialTracker(p.fiducial_params);
  self.m_no_errors = p.no_errors;
  self.m_truth = truth;
  self.m_t_vec_error = p.t_vec_error;
  self.m_r_vec_error = p.r_vec_error;
  self.m_min_track_length = p.fiducial_params.min_track_length;
  self.m_max_track_length = p.fiducial_params.max_track_length;
  Eigen::Vector3d pos = p.fiducial_params.pos_f_in_l;
  Eigen::Quaterniond ang = p.fiducial_params.ang_f_to_l;
  if (!p.no_errors) {
    pos = SimRNG::VecNormRand(p.fiducial_params.pos_f_in_l, p.pos_error);
    ang = SimRNG::QuatNormRand(p.fiducial_params.ang_f_to_l, p.ang_error);
  }
  truth->SetBoardPosition(self.m_id, pos);
  truth->SetBoardOrientation(self.m_id, ang);
}

bool SimFiducialTracker_IsBoardVisible(const SimFiducialTracker & self, double time)
{
  // every simulated frame observes the board
  return true;
}

std::shared_ptr<SimFiducialTrackerMessage> SimFiducialTracker_GenerateMessage(const SimFiducialTracker & self, double time, unsigned int frame_id)
{
  TruthEngine & tr = *self.m_truth;
  auto m = std::make_shared<SimFiducialTrackerMessage>();
  m->time = time;
  m->tracker_id = self.m_id;
  m->sensor_id = self.m_camera_id;
  m->sensor_type = SensorType::Tracker;
  m->is_board_visible = self.IsBoardVisible(time);
  if (m->is_board_visible) {
    Eigen::Matrix3d rot_l_to_b = tr.GetBodyAngularPosition(time).toRotationMatrix().transpose();
    Eigen::Matrix3d rot_b_to_c = tr.GetCameraAngularPosition(self.m_camera_id).toRotationMatrix().transpose();
    Eigen::Vector3d pos = rot_b_to_c * (
      rot_l_to_b * (tr.GetBoardPosition(self.m_id) - tr.GetBodyPosition(time)) - tr.GetCameraPosition(self.m_camera_id));
    Eigen::Quaterniond ang = tr.GetCameraAngularPosition(self.m_camera_id).inverse() * tr.GetBodyAngularPosition(time).inverse() *
      tr.GetBoardOrientation(self.m_id);
    BoardDetection d;
    d.frame_id = frame_id;
    d.frame_time = time;
    d.pos_error = self.m_t_vec_error;
    d.ang_error = self.m_r_vec_error;
    if (self.m_no_errors) {
      d.pos_f_in_c = pos;
      d.ang_f_to_c = ang;
    } else {
      d.pos_f_in_c = SimRNG::VecNormRand(pos, self.m_t_vec_error);
      d.ang_f_to_c = SimRNG::QuatNormRand(ang, self.m_r_vec_error);
    }
    m->board_detection = d;
  }
  return m;
}

// ---------------------------------------------------------------- simulated feature tracker
void SimFeatureTracker_ctor(SimFeatureTracker & self, SimFeatureTracker::Parameters p, std::shared_ptr<TruthEngine> truth)
{
  base_FeatureTracker(p.tracker_params);
  self.m_px_error = p.tracker_params.px_error;
  self.m_no_errors = p.no_errors;
  self.m_feature_count = p.feature_count;
  self.m_max_track_length = p.tracker_params.max_track_length;
  self.m_truth = truth;
}

std::vector<cv::KeyPoint> SimFeatureTracker_FilterInvisiblePoints(
  const SimFeatureTracker & self, const std::vector<cv::Point3d> & features, const std::vector<cv::Point2d> & projected,
  const Eigen::Matrix3d & rot_c_to_l, const Eigen::Vector3d & pos_c_in_l, const Intrinsics & intrinsics)
{
  std::vector<cv::KeyPoint> out;
  Eigen::Vector3d axis = rot_c_to_l * Eigen::Vector3d(0, 0, 1);
  for (unsigned int i = 0; i < projected.size(); ++i) {
    Eigen::Vector3d ray(features[i].x - pos_c_in_l(0), features[i].y - pos_c_in_l(1), features[i].z - pos_c_in_l(2));
    bool in_front = axis.dot(ray) > 0;
    bool in_image = projected[i].x >= 0 && projected[i].y >= 0 && projected[i].x <= intrinsics.width && projected[i].y <= intrinsics.height;
    if (in_front && in_image) {
      cv::KeyPoint k;
      k.class_id = static_cast<int>(i);
      if (self.m_no_errors) {
        k.pt.x = static_cast<float>(projected[i].x);
        k.pt.y = static_cast<float>(projected[i].y);
      } else {
        k.pt.x = static_cast<float>(round(projected[i].x));
        k.pt.y = static_cast<float>(round(projected[i].y));
      }
      out.push_back(k);
    }
  }
  return out;
}

std::shared_ptr<SimFeatureTrackerMessage> SimFeatureTracker_GenerateMessage(SimFeatureTracker & self, double time, unsigned int frame_id)
{
  std::vector<cv::KeyPoint> keys = self.GetVisibleKeypoints(time);
  for (auto & k : keys) {
    FeaturePoint point = FeaturePoint{frame_id, time, k};
    self.m_feature_points_map[static_cast<unsigned int>(k.class_id)].push_back(point);
  }
  FeatureTracks tracks;
  for (auto it = self.m_feature_points_map.cbegin(); it != self.m_feature_points_map.cend(); ) {
    const auto & points = it->second;
    bool finished = points.back().frame_id < frame_id || points.size() >= self.m_max_track_length;
    if (finished) {
      if (points.size() >= self.m_min_track_length) {
        FeatureTrack track;
        track.track = points;
        cv::Point3d p = self.m_truth->GetFeature(points[0].key_point.class_id);
        track.true_feature_position.x() = p.x;
        track.true_feature_position.y() = p.y;
        track.true_feature_position.z() = p.z;
        tracks.push_back(track);
      }
      it = self.m_feature_points_map.erase(it);
    } else {
      ++it;
    }
  }
  auto m = std::make_shared<SimFeatureTrackerMessage>();
  m->feature_tracks = tracks;
  m->time = time;
  m->tracker_id = self.m_id;
  m->sensor_id = self.m_camera_id;
  m->sensor_type = SensorType::Tracker;
  return m;
}

void SimFiducialTracker_Callback(SimFiducialTracker & self, const double time, const SimFiducialTrackerMessage & msg)
{
  if (!msg.is_board_visible) {
    return;
  }
  self.m_fiducial_updater.UpdateEKF(*self.m_ekf, time, msg.board_detection);
}

void SimFeatureTracker_Callback(SimFeatureTracker & self, const double time, const SimFeatureTrackerMessage & msg)
{
  self.m_msckf_updater.UpdateEKF(*self.m_ekf, time, msg.feature_tracks, self.m_px_error);
}
}  // namespace spec
