// Sensors and trackers: what they register with the filter and what they hand on from their messages.
#include "common.hpp"
#include <cmath>
#include <sstream>
#include <opencv2/opencv.hpp>
#include <opencv2/features2d.hpp>
#include <opencv2/aruco.hpp>
#include <opencv2/aruco/charuco.hpp>
#include "sensors/sensor.hpp"
#include "sensors/imu.hpp"
#include "sensors/gps.hpp"
#include "sensors/camera.hpp"
#include "trackers/tracker.hpp"
#include "trackers/feature_tracker.hpp"
#include "trackers/fiducial_tracker.hpp"
namespace spec {

void base_Sensor(Sensor::Parameters p);
void base_Tracker(Tracker::Parameters p);

// ---------------------------------------------------------------- sensors
void Sensor_ctor(Sensor & self, Sensor::Parameters p)
{
  Sensor::m_sensor_count += 1;
  self.m_id = Sensor::m_sensor_count;
  self.m_name = p.name;
  self.m_logger = p.logger;
}

unsigned int Sensor_GetId(const Sensor & self) {return self.m_id;}
std::string Sensor_GetName(const Sensor & self) {return self.m_name;}

bool F_MessageCompare(std::shared_ptr<SensorMessage> l, std::shared_ptr<SensorMessage> r) {return l->time < r->time;}

// variances below the smallest allowed one are raised to it
Eigen::VectorXd bounded(Eigen::VectorXd v)
{
  MinBoundVector(v, 1e-6);
  return v;
}

void IMU_ctor(IMU & self, IMU::Parameters p)
{
  base_Sensor(p);
  self.m_ekf = p.ekf;
  self.m_rate = p.rate;
  self.m_is_extrinsic = p.is_extrinsic;
  self.m_is_intrinsic = p.is_intrinsic;
  self.m_imu_updater = ImuUpdater(self.m_id, p.is_extrinsic, p.is_intrinsic, p.log_directory, p.data_log_rate, p.logger);
  ImuState s;
  s.is_extrinsic = p.is_extrinsic;
  s.is_intrinsic = p.is_intrinsic;
  s.size = 6 * p.is_extrinsic + 6 * p.is_intrinsic;
  s.pos_i_in_b = p.pos_i_in_b;
  s.ang_i_to_b = p.ang_i_to_b;
  s.acc_bias = p.acc_bias;
  s.omg_bias = p.omg_bias;
  s.pos_stability = p.pos_stability;
  s.ang_stability = p.ang_stability;
  s.acc_bias_stability = p.acc_bias_stability;
  s.omg_bias_stability = p.omg_bias_stability;
  Eigen::VectorXd v = bounded(p.variance);
  Eigen::MatrixXd cov;
  if (p.is_extrinsic) {
    cov = v.segment(0, 6).asDiagonal();
    if (p.is_intrinsic) {cov = v.segment(0, 12).asDiagonal();}
  } else if (p.is_intrinsic) {
    cov = v.segment(6, 6).asDiagonal();
  }
  p.ekf->RegisterIMU(self.m_id, s, cov);
}

void IMU_Callback(IMU & self, const ImuMessage & m)
{
  self.m_imu_updater.UpdateEKF(
    *self.m_ekf, m.time, m.acceleration, m.acceleration_covariance, m.angular_rate, m.angular_rate_covariance);
}

void GPS_ctor(GPS & self, GPS::Parameters p)
{
  base_Sensor(p);
  self.m_ekf = p.ekf;
  self.m_rate = p.rate;
  self.m_gps_updater = GpsUpdater(self.m_id, p.is_extrinsic, p.log_directory, p.data_log_rate, p.logger);
  GpsState s;
  s.is_extrinsic = p.is_extrinsic;
  s.size = 3 * p.is_extrinsic;
  s.pos_a_in_b = p.pos_a_in_b;
  s.pos_stability = p.pos_stability;
  p.ekf->RegisterGPS(self.m_id, s, p.variance.asDiagonal());
}

void GPS_Callback(GPS & self, const GpsMessage & m)
{
  self.m_gps_updater.UpdateEKF(*self.m_ekf, m.time, m.gps_lla, m.pos_covariance);
}

void Camera_ctor(Camera & self, Camera::Parameters p)
{
  base_Sensor(p);
  self.m_ekf = p.ekf;
  self.m_rate = p.rate;
  CamState s;
  s.is_extrinsic = p.is_extrinsic;
  s.size = 6 * p.is_extrinsic;
  s.rate = p.rate;
  s.pos_c_in_b = p.pos_c_in_b;
  s.ang_c_to_b = p.ang_c_to_b;
  s.pos_stability = p.pos_stability;
  s.ang_stability = p.ang_stability;
  s.intrinsics = p.intrinsics;
  Eigen::MatrixXd cov = bounded(p.variance).asDiagonal();
  p.ekf->RegisterCamera(self.m_id, s, cov);
}

void Camera_Callback(Camera & self, const CameraMessage & m)
{
  if (m.image.empty() || (self.m_trackers.empty() && self.m_fiducials.empty())) {return;}
  // the clone is taken at the time of the frame, before any tracker uses it
  self.m_ekf->PredictModel(self.m_ekf->CalculateLocalTime(m.time));
  unsigned int frame = self.GenerateFrameID();
  self.m_ekf->AugmentStateIfNeeded(self.m_id, frame);
  cv::cvtColor(m.image, self.m_out_img, cv::COLOR_GRAY2RGB);
  for (auto & t : self.m_trackers) {t.second->Track(m.time, frame, m.image, self.m_out_img);}
  for (auto & f : self.m_fiducials) {f.second->Track(m.time, frame, m.image, self.m_out_img);}
}

void Camera_AddTracker(Camera & self, std::shared_ptr<FeatureTracker> t) {self.m_trackers[t->GetID()] = t;}
void Camera_AddFiducial(Camera & self, std::shared_ptr<FiducialTracker> f) {self.m_fiducials[f->GetID()] = f;}

// every call gives a number that no other call gives
unsigned int Camera_GenerateFrameID()
{
  static unsigned int frame_id = 0;
  unsigned int n = frame_id;
  frame_id = frame_id + 1;
  return n;
}

// ---------------------------------------------------------------- trackers
void Tracker_ctor(Tracker & self, Tracker::Parameters p)
{
  Tracker::m_tracker_count += 1;
  self.m_id = Tracker::m_tracker_count;
  self.m_camera_id = p.camera_id;
  self.m_min_track_length = p.min_track_length;
  self.m_max_track_length = p.max_track_length;
  self.m_ekf = p.ekf;
  self.m_logger = p.logger;
}

unsigned int Tracker_GetID(const Tracker & self) {return self.m_id;}

void FeatureTracker_ctor(FeatureTracker & self, FeatureTracker::Parameters p)
{
  base_Tracker(p);
  self.m_msckf_updater = MsckfUpdater(p.camera_id, p.is_cam_extrinsic, p.log_directory, p.data_log_rate, p.min_feat_dist, p.logger);
  self.m_px_error = p.px_error;
  self.m_down_sample = p.down_sample;
  self.m_down_sample_height = p.down_sample_height;
  self.m_down_sample_width = p.down_sample_width;
  self.m_prev_frame_time = self.m_ekf->GetCurrentTime();
  self.m_feature_detector = FeatureTracker::InitFeatureDetector(p.detector, p.threshold);
  self.m_descriptor_extractor = FeatureTracker::InitDescriptorExtractor(p.descriptor, p.threshold);
  self.m_descriptor_matcher = FeatureTracker::InitDescriptorMatcher(p.matcher);
}

cv::Ptr<cv::FeatureDetector> FeatureTracker_InitFeatureDetector(Detector type, int threshold)
{
  // the detector named by the configuration, at the configured sensitivity
  cv::Ptr<cv::FeatureDetector> d;
  if (type == Detector::BRISK) {d = cv::BRISK::create(threshold, 3, 1);}
  if (type == Detector::FAST) {d = cv::FastFeatureDetector::create(threshold, true, cv::FastFeatureDetector::TYPE_9_16);}
  if (type == Detector::GFTT) {d = cv::GFTTDetector::create();}
  if (type == Detector::MSER) {d = cv::MSER::create();}
  if (type == Detector::ORB) {d = cv::ORB::create(1000, 1.2, 8, 31, 0, 2, cv::ORB::HARRIS_SCORE, 31, threshold);}
  if (type == Detector::SIFT) {d = cv::SIFT::create();}
  return d;
}

cv::Ptr<cv::DescriptorExtractor> FeatureTracker_InitDescriptorExtractor(Descriptor type, int threshold)
{
  cv::Ptr<cv::DescriptorExtractor> d;
  if (type == Descriptor::ORB) {d = cv::ORB::create(500, 1.2, 8, 31, 0, 2, cv::ORB::HARRIS_SCORE, 31, threshold);}
  if (type == Descriptor::SIFT) {d = cv::SIFT::create();}
  return d;
}

cv::Ptr<cv::DescriptorMatcher> FeatureTracker_InitDescriptorMatcher(Matcher type)
{
  cv::Ptr<cv::DescriptorMatcher> d;
  if (type == Matcher::BRUTE_FORCE) {d = cv::BFMatcher::create();}
  if (type == Matcher::FLANN) {d = cv::FlannBasedMatcher::create();}
  return d;
}

int FeatureTracker_GenerateFeatureID()
{
  static int featureID = 0;
  int n = featureID;
  featureID = featureID + 1;
  return n;
}

// at most one key point per 10 x 10 pixel cell, the first one, and none outside of the image
std::vector<cv::KeyPoint> FeatureTracker_GridFeatures(std::vector<cv::KeyPoint> & in, int rows, int cols)
{
  cv::Size cells(static_cast<int>(cols / 10.0), static_cast<int>(rows / 10.0));
  cv::Mat taken = cv::Mat::zeros(cells, CV_8UC1);
  std::vector<cv::KeyPoint> out;
  for (unsigned int i = 0; i < in.size(); ++i) {
    int x = static_cast<int>(in[i].pt.x);
    int y = static_cast<int>(in[i].pt.y);
    int cx = static_cast<int>(in[i].pt.x / 10.0);
    int cy = static_cast<int>(in[i].pt.y / 10.0);
    if (x < 0 || y < 0 || x >= cols || y >= rows || cx < 0 || cy < 0 || cx >= cells.width || cy >= cells.height) {continue;}
    if (taken.at<uint8_t>(cy, cx) <= 127) {
      out.push_back(in[i]);
      taken.at<uint8_t>(cy, cx) = 255;
    }
  }
  return out;
}

void FeatureTracker_RatioTest(const FeatureTracker & self, std::vector<std::vector<cv::DMatch>> & matches)
{
  for (auto & m : matches) {
    bool single = m.size() == 1;
    bool ambiguous = m.size() == 2 && m[0].distance / m[1].distance > self.m_knn_ratio;
    if (single || ambiguous) {m.clear();}
  }
}

void FeatureTracker_SymmetryTest(
  std::vector<std::vector<cv::DMatch>> & forward, std::vector<std::vector<cv::DMatch>> & backward, std::vector<cv::DMatch> & out)
{
  for (auto & f : forward) {
    if (f.size() == 2) {
      for (auto & b : backward) {
        if (b.size() == 2 && f[0].queryIdx == b[0].trainIdx && b[0].queryIdx == f[0].trainIdx) {
          out.push_back(cv::DMatch(f[0].queryIdx, f[0].trainIdx, f[0].distance));
          break;
        }
      }
    }
  }
}

void FeatureTracker_RANSAC(
  const FeatureTracker & self, std::vector<cv::DMatch> & in, std::vector<cv::KeyPoint> & curr, std::vector<cv::DMatch> & out)
{
  if (in.size() < 10) {return;}
  std::vector<cv::Point2f> prev_points;
  std::vector<cv::Point2f> curr_points;
  for (auto & m : in) {
    prev_points.push_back(self.m_prev_key_points[m.queryIdx].pt);
    curr_points.push_back(curr[m.trainIdx].pt);
  }
  std::vector<uint8_t> mask;
  cv::findFundamentalMat(prev_points, curr_points, cv::FM_RANSAC, 1.0, 0.99, mask);
  for (unsigned int i = 0; i < in.size(); ++i) {
    if (mask[i] == 1) {out.push_back(in[i]);}
  }
}

double moved(const cv::Point2f & a, const cv::Point2f & b)
{
  return std::sqrt(std::pow(b.x - a.x, 2) + std::pow(b.y - a.y, 2));
}

void FeatureTracker_DistanceTest(
  const FeatureTracker & self, std::vector<cv::DMatch> & in, std::vector<cv::KeyPoint> & curr, std::vector<cv::DMatch> & out)
{
  double sum = 0;
  for (auto & m : in) {sum += moved(self.m_prev_key_points[m.queryIdx].pt, curr[m.trainIdx].pt);}
  double mean = sum / in.size();
  for (auto & m : in) {
    if (moved(self.m_prev_key_points[m.queryIdx].pt, curr[m.trainIdx].pt) < 3 * mean) {out.push_back(m);}
  }
}

void FeatureTracker_Track(FeatureTracker & self, double time, unsigned int frame_id, const cv::Mat & img_in, cv::Mat & img_out)
{
  cv::Mat img = img_in;
  if (self.m_down_sample) {
    cv::Mat small;
    cv::Size size;
    size.width = self.m_down_sample_width;
    size.height = self.m_down_sample_height;
    cv::resize(img_in, small, size);
    img = small;
  }
  std::vector<cv::KeyPoint> points;
  self.m_feature_detector->detect(img, points);
  points = FeatureTracker::GridFeatures(points, img.rows, img.cols);
  cv::Mat descriptors;
  self.m_descriptor_extractor->compute(img, points, descriptors);
  descriptors.convertTo(descriptors, CV_32F);

  if (self.m_prev_descriptors.rows > 0 && descriptors.rows > 0) {
    std::vector<std::vector<cv::DMatch>> forward;
    std::vector<std::vector<cv::DMatch>> backward;
    std::vector<cv::DMatch> symmetric;
    std::vector<cv::DMatch> inliers;
    std::vector<cv::DMatch> matches;
    self.m_descriptor_matcher->knnMatch(self.m_prev_descriptors, descriptors, forward, 2);
    self.m_descriptor_matcher->knnMatch(descriptors, self.m_prev_descriptors, backward, 2);
    self.RatioTest(forward);
    self.RatioTest(backward);
    FeatureTracker::SymmetryTest(forward, backward, symmetric);
    self.RANSAC(symmetric, points, inliers);
    self.DistanceTest(inliers, points, matches);

    for (auto & m : matches) {
      cv::Point2f from = self.m_prev_key_points[m.queryIdx].pt;
      cv::Point2f to = points[m.trainIdx].pt;
      cv::line(img_out, from, to, cv::Scalar(0, 255, 0), 2, 8, 0);
    }

    // a matched point continues the track of the point before it, or starts one with both points
    for (auto & m : matches) {
      if (self.m_prev_key_points[m.queryIdx].class_id == -1) {
        int id = FeatureTracker::GenerateFeatureID();
        self.m_prev_key_points[m.queryIdx].class_id = id;
        FeaturePoint first {self.m_prev_frame_id, self.m_prev_frame_time, self.m_prev_key_points[m.queryIdx]};
        self.m_feature_points_map[id].push_back(first);
      }
      points[m.trainIdx].class_id = self.m_prev_key_points[m.queryIdx].class_id;
      FeaturePoint next {frame_id, self.m_ekf->GetCurrentTime(), points[m.trainIdx]};
      self.m_feature_points_map[points[m.trainIdx].class_id].push_back(next);
    }

    // tracks that were lost or are complete are used once, if long enough, and forgotten
    FeatureTracks finished;
    for (auto it = self.m_feature_points_map.cbegin(); it != self.m_feature_points_map.cend(); ) {
      bool lost = it->second.back().frame_id < frame_id;
      bool complete = it->second.size() >= self.m_max_track_length;
      if (lost || complete) {
        if (it->second.size() >= self.m_min_track_length) {
          FeatureTrack track;
          track.track = it->second;
          finished.push_back(track);
        }
        it = self.m_feature_points_map.erase(it);
      } else {
        ++it;
      }
    }
    if (finished.size() > 0) {self.m_msckf_updater.UpdateEKF(*self.m_ekf, time, finished, self.m_px_error);}
  }
  self.m_prev_frame_id = frame_id;
  self.m_prev_frame_time = self.m_ekf->GetCurrentTime();
  self.m_prev_key_points = points;
  self.m_prev_descriptors = descriptors;
}

// ---------------------------------------------------------------- fiducials
void FiducialTracker_ctor(FiducialTracker & self, FiducialTracker::Parameters p)
{
  base_Tracker(p);
  self.m_fiducial_updater = FiducialUpdater(
    p.id, p.camera_id, p.is_extrinsic, p.is_cam_extrinsic, p.log_directory, p.data_log_rate, p.logger);
  self.m_detector_type = p.detector_type;
  self.m_pos_error = p.variance.head(3);
  self.m_ang_error = p.variance.segment(3, 3);
  self.m_dict = cv::aruco::getPredefinedDictionary(static_cast<cv::aruco::PREDEFINED_DICTIONARY_NAME>(p.predefined_dict));
  if (p.detector_type == FiducialType::ARUCO_BOARD) {
    self.m_board = cv::aruco::GridBoard::create(
      static_cast<int>(p.squares_x), static_cast<int>(p.squares_y), static_cast<float>(p.square_length), static_cast<float>(p.marker_length), self.m_dict);
  } else if (p.detector_type == FiducialType::CHARUCO_BOARD) {
    self.m_board = cv::aruco::CharucoBoard::create(
      static_cast<int>(p.squares_x), static_cast<int>(p.squares_y), static_cast<float>(p.square_length), static_cast<float>(p.marker_length), self.m_dict);
  }
  FidState s;
  s.is_extrinsic = p.is_extrinsic;
  s.size = 6 * p.is_extrinsic;
  s.id = p.id;
  s.pos_f_in_l = p.pos_f_in_l;
  s.ang_f_to_l = p.ang_f_to_l;
  Eigen::MatrixXd cov = p.variance.asDiagonal();
  self.m_ekf->RegisterFiducial(s, cov);
}

int FiducialTracker_InterpolateCorners(
  const FiducialTracker & self, std::vector<std::vector<cv::Point2f>> & marker_corners, std::vector<int> & marker_ids, cv::Mat image,
  cv::Ptr<cv::aruco::Board> & board, std::vector<cv::Point2f> & corners, std::vector<int> & ids, cv::Mat camera_matrix, cv::Mat dist)
{
  switch (self.m_detector_type) {
    case FiducialType::CHARUCO_BOARD: {
        auto b = board.staticCast<cv::aruco::CharucoBoard>();
        return cv::aruco::interpolateCornersCharuco(marker_corners, marker_ids, image, b, corners, ids, camera_matrix, dist);
      }
    case FiducialType::ARUCO_BOARD:
      ids = marker_ids;
      return static_cast<int>(marker_ids.size());
    default:
      return 0;
  }
}

bool FiducialTracker_EstimatePoseBoard(
  const FiducialTracker & self, std::vector<std::vector<cv::Point2f>> & marker_corners, cv::InputArray & corners, cv::InputArray & ids,
  cv::Ptr<cv::aruco::Board> board, cv::InputArray & camera_matrix, cv::InputArray & dist, cv::Vec3d & r_vec, cv::Vec3d & t_vec)
{
  if (self.m_detector_type == FiducialType::CHARUCO_BOARD) {
    auto b = board.staticCast<cv::aruco::CharucoBoard>();
    return cv::aruco::estimatePoseCharucoBoard(corners, ids, b, camera_matrix, dist, r_vec, t_vec);
  }
  if (self.m_detector_type == FiducialType::ARUCO_BOARD) {
    return cv::aruco::estimatePoseBoard(marker_corners, ids, board, camera_matrix, dist, r_vec, t_vec) != 0;
  }
  return false;
}

void FiducialTracker_Track(FiducialTracker & self, double time, unsigned int frame_id, const cv::Mat & img_in, cv::Mat & img_out)
{
  cv::Mat matrix = self.m_ekf->m_state.cam_states[self.m_camera_id].intrinsics.ToCameraMatrix();
  cv::Mat dist = self.m_ekf->m_state.cam_states[self.m_camera_id].intrinsics.ToDistortionVector();
  cv::Ptr<cv::aruco::DetectorParameters> params = cv::makePtr<cv::aruco::DetectorParameters>();
  std::vector<int> marker_ids;
  std::vector<std::vector<cv::Point2f>> marker_corners;
  cv::aruco::detectMarkers(img_in, self.m_dict, marker_corners, marker_ids, params);
  if (marker_ids.empty()) {return;}
  cv::aruco::drawDetectedMarkers(img_out, marker_corners, marker_ids);
  std::vector<cv::Point2f> corners;
  std::vector<int> ids;
  self.InterpolateCorners(marker_corners, marker_ids, img_in, self.m_board, corners, ids, matrix, dist);
  if (ids.empty()) {return;}
  cv::Scalar color = cv::Scalar(255, 0, 0);
  self.DrawDetectedCorners(img_out, marker_corners, corners, ids, color);
  cv::Vec3d r_vec;
  cv::Vec3d t_vec;
  bool valid = self.EstimatePoseBoard(marker_corners, corners, ids, self.m_board, matrix, dist, r_vec, t_vec);
  if (!valid) {return;}
  cv::drawFrameAxes(img_out, matrix, dist, r_vec, t_vec, 0.5);
  BoardDetection d;
  d.frame_id = frame_id;
  d.pos_f_in_c = CvVectorToEigen(t_vec);
  d.ang_f_to_c = RodriguesToQuat(r_vec);
  d.pos_error = self.m_pos_error;
  d.ang_error = self.m_ang_error;
  self.m_fiducial_updater.UpdateEKF(*self.m_ekf, time, d);
}

// ---------------------------------------------------------------- intrinsics
cv::Mat Intrinsics_ToCameraMatrix(const Intrinsics & self)
{
  cv::Mat m = cv::Mat(3, 3, CV_64F, 0.0);
  m.at<double>(0, 0) = self.f_x / self.pixel_size;
  m.at<double>(0, 2) = self.width / 2;
  m.at<double>(1, 1) = self.f_y / self.pixel_size;
  m.at<double>(1, 2) = self.height / 2;
  m.at<double>(2, 2) = 1;
  return m;
}

cv::Mat Intrinsics_ToDistortionVector(const Intrinsics & self)
{
  cv::Mat m = cv::Mat(4, 1, CV_64F, 0.0);
  m.at<double>(0) = self.k_1;
  m.at<double>(1) = self.k_2;
  m.at<double>(2) = self.p_1;
  m.at<double>(3) = self.p_2;
  return m;
}

}  // namespace spec
