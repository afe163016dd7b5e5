// The values objects start with.
#include "common.hpp"
#include "sensors/imu.hpp"
#include "sensors/gps.hpp"
#include "sensors/camera.hpp"
#include "sensors/sim/sim_imu.hpp"
#include "sensors/sim/sim_gps.hpp"
#include "sensors/sim/sim_camera.hpp"
#include "trackers/feature_tracker.hpp"
#include "trackers/fiducial_tracker.hpp"
#include "trackers/sim/sim_feature_tracker.hpp"
#include "trackers/sim/sim_fiducial_tracker.hpp"
#include "trackers/sim/sim_feature_tracker_message.hpp"
#include "trackers/sim/sim_fiducial_tracker_message.hpp"
namespace spec {

const Eigen::Vector3d zero(0.0, 0.0, 0.0);
const Eigen::Vector3d tiny(1e-9, 1e-9, 1e-9);
const Eigen::Quaterniond identity(1.0, 0.0, 0.0, 0.0);

// ---------------------------------------------------------------- the filter
void EKF_initial(EKF & self, EKF::Parameters params)
{
  self.m_cov = (params.use_root_covariance ? std::sqrt(1e-2) : 1e-2) * Eigen::MatrixXd::Identity(18, 18);
  self.m_state_size = 18;
  self.m_imu_state_size = 0;
  self.m_gps_state_size = 0;
  self.m_cam_state_size = 0;
  self.m_aug_state_size = 0;
  self.m_fid_state_size = 0;
  self.m_current_time = 0.0;
  self.m_reference_time = 0.0;
  self.m_time_initialized = false;
  self.m_max_track_length = 20;
  self.m_process_noise = Eigen::MatrixXd::Zero(18, 18);
  self.m_body_process_noise = params.process_noise;
  self.m_data_log_rate = params.data_log_rate;
  self.m_debug_logger = params.debug_logger;
  self.m_gps_init_type = params.gps_init_type;
  self.m_gps_init_pos_thresh = params.gps_init_pos_thresh;
  self.m_gps_init_ang_thresh = params.gps_init_ang_thresh;
  self.m_gps_init_baseline_dist = params.gps_init_baseline_dist;
  self.m_is_lla_initialized = params.gps_init_type == GpsInitType::CONSTANT;
  self.m_pos_e_in_g = params.pos_e_in_g;
  self.m_ang_l_to_e = params.ang_l_to_e;
  self.m_augmenting_type = params.augmenting_type;
  self.m_augmenting_delta_time = params.augmenting_delta_time;
  self.m_augmenting_pos_error = params.augmenting_pos_error;
  self.m_augmenting_ang_error = params.augmenting_ang_error;
  self.m_primary_camera_id = 0;
  self.m_max_frame_period = 0.0;
  self.m_max_track_duration = 0.0;
  self.m_min_aug_period = 1.0;
  self.m_is_gravity_initialized = false;
  self.m_motion_detection_chi_squared = params.motion_detection_chi_squared;
  self.m_imu_noise_scale_factor = params.imu_noise_scale_factor;
  self.m_use_root_covariance = params.use_root_covariance;
  self.m_use_first_estimate_jacobian = params.use_first_estimate_jacobian;
  self.m_is_zero_acceleration = true;
  self.m_frame_received_since_last_aug = true;
}

EKF::Parameters start_EKF_Parameters() {EKF::Parameters p; return p;}
EKF::Parameters must_EKF_Parameters()
{
  EKF::Parameters p;
  p.data_log_rate = 0.0;
  p.log_directory = std::string("");
  p.augmenting_type = AugmentationType::ALL;
  p.augmenting_delta_time = 1.0;
  p.augmenting_pos_error = 0.1;
  p.augmenting_ang_error = 0.1;
  p.process_noise = Eigen::VectorXd::Ones(18);
  p.pos_b_in_l = zero;
  p.ang_b_to_l = identity;
  p.pos_e_in_g = zero;
  p.ang_l_to_e = 0.0;
  p.gps_init_type = GpsInitType::CONSTANT;
  p.gps_init_baseline_dist = 100.0;
  p.gps_init_pos_thresh = 0.1;
  p.gps_init_ang_thresh = 0.1;
  p.motion_detection_chi_squared = 1.0;
  p.imu_noise_scale_factor = 100.0;
  p.use_root_covariance = false;
  p.use_first_estimate_jacobian = false;
  return p;
}

// ---------------------------------------------------------------- states
Intrinsics start_Intrinsics() {Intrinsics p; return p;}
Intrinsics must_Intrinsics()
{
  Intrinsics p;
  p.f_x = 0.01;
  p.f_y = 0.01;
  p.k_1 = 0.0;
  p.k_2 = 0.0;
  p.p_1 = 0.0;
  p.p_2 = 0.0;
  p.width = 1920;
  p.height = 1080;
  p.pixel_size = 5.0e-6;
  return p;
}

BodyState start_BodyState() {BodyState p; return p;}
BodyState must_BodyState()
{
  BodyState p;
  p.pos_b_in_l = zero;
  p.vel_b_in_l = zero;
  p.acc_b_in_l = Eigen::Vector3d(0, 0, 9.80665);
  p.ang_b_to_l = identity;
  p.ang_vel_b_in_l = zero;
  p.ang_acc_b_in_l = zero;
  p.size = 18;
  p.index = 0;
  return p;
}

ImuState start_ImuState() {ImuState p; return p;}
ImuState must_ImuState()
{
  ImuState p;
  p.pos_stability = 1e-9;
  p.ang_stability = 1e-9;
  p.acc_bias_stability = 1e-9;
  p.omg_bias_stability = 1e-9;
  p.pos_i_in_b = zero;
  p.ang_i_to_b = identity;
  p.acc_bias = zero;
  p.omg_bias = zero;
  p.size = 0;
  p.index = 0;
  p.index_intrinsic = 0;
  p.index_extrinsic = 0;
  p.is_extrinsic = false;
  p.is_intrinsic = false;
  return p;
}

GpsState start_GpsState() {GpsState p; return p;}
GpsState must_GpsState()
{
  GpsState p;
  p.pos_a_in_b = zero;
  p.pos_stability = 1e-9;
  p.size = 0;
  p.index = 0;
  p.is_extrinsic = false;
  return p;
}

CamState start_CamState() {CamState p; return p;}
CamState must_CamState()
{
  CamState p;
  p.pos_stability = 1e-9;
  p.ang_stability = 1e-9;
  p.pos_c_in_b = zero;
  p.ang_c_to_b = identity;
  p.intrinsics = must_Intrinsics();
  p.rate = 1.0;
  p.size = 0;
  p.index = 0;
  p.is_extrinsic = false;
  return p;
}

FidState start_FidState() {FidState p; return p;}
FidState must_FidState()
{
  FidState p;
  p.frame_id = 0;
  p.pos_stability = 1e-9;
  p.ang_stability = 1e-9;
  p.size = 0;
  p.index = 0;
  p.id = 0;
  p.is_extrinsic = false;
  return p;
}

AugState start_AugState() {AugState p; return p;}
AugState must_AugState()
{
  AugState p;
  p.frame_id = 0;
  p.time = 0.0;
  p.pos_b_in_l = zero;
  p.ang_b_to_l = identity;
  p.size = 6;
  p.index = 0;
  p.alpha = 0.0;
  return p;
}

State start_State() {State p; return p;}
State must_State()
{
  State p;
  p.body_state = must_BodyState();
  p.imu_states = std::map<unsigned int, ImuState>();
  p.gps_states = std::map<unsigned int, GpsState>();
  p.cam_states = std::map<unsigned int, CamState>();
  p.fid_states = std::map<unsigned int, FidState>();
  p.aug_states = std::map<unsigned int, std::vector<AugState>>();
  return p;
}

BoardDetection start_BoardDetection() {BoardDetection p; return p;}
BoardDetection must_BoardDetection()
{
  BoardDetection p;
  p.frame_id = 0;
  p.frame_time = -1.0;
  p.pos_error = tiny;
  p.ang_error = tiny;
  return p;
}

// ---------------------------------------------------------------- sensors
template<typename T>
void must_sensor(T & p)
{
  p.name = std::string("");
  p.topic = std::string("");
  p.rate = 1.0;
  p.data_log_rate = 0.0;
  p.log_directory = std::string("");
}

IMU::Parameters start_IMU_Parameters() {IMU::Parameters p; return p;}
void must_imu(IMU::Parameters & p)
{
  must_sensor(p);
  p.is_extrinsic = false;
  p.is_intrinsic = false;
  p.pos_i_in_b = zero;
  p.ang_i_to_b = identity;
  p.acc_bias = zero;
  p.omg_bias = zero;
  p.pos_stability = 1e-9;
  p.ang_stability = 1e-9;
  p.acc_bias_stability = 1e-9;
  p.omg_bias_stability = 1e-9;
  p.motion_detection_threshold = 1.0;
  p.noise_scale_factor = 1.0;
  p.variance = Eigen::VectorXd::Ones(12);
}
IMU::Parameters must_IMU_Parameters() {IMU::Parameters p; must_imu(p); return p;}

GPS::Parameters start_GPS_Parameters() {GPS::Parameters p; return p;}
void must_gps(GPS::Parameters & p)
{
  must_sensor(p);
  p.pos_a_in_b = zero;
  p.variance = Eigen::Vector3d(1, 1, 1);
  p.is_extrinsic = false;
  p.pos_stability = 1e-9;
}
GPS::Parameters must_GPS_Parameters() {GPS::Parameters p; must_gps(p); return p;}

Camera::Parameters start_Camera_Parameters() {Camera::Parameters p; return p;}
void must_camera(Camera::Parameters & p)
{
  must_sensor(p);
  p.is_extrinsic = false;
  p.pos_c_in_b = zero;
  p.ang_c_to_b = identity;
  p.pos_stability = 1e-9;
  p.ang_stability = 1e-9;
  p.variance = Eigen::VectorXd::Zero(6);
  p.intrinsics = must_Intrinsics();
}
Camera::Parameters must_Camera_Parameters() {Camera::Parameters p; must_camera(p); return p;}

// ---------------------------------------------------------------- trackers
template<typename T>
void must_tracker(T & p)
{
  p.name = std::string("");
  p.camera_id = 0;
  p.log_directory = std::string("");
  p.intrinsics = must_Intrinsics();
  p.min_track_length = 2;
  p.max_track_length = 20;
  p.data_log_rate = 0.0;
  p.is_cam_extrinsic = false;
}

FeatureTracker::Parameters start_FeatureTracker_Parameters() {FeatureTracker::Parameters p; return p;}
void must_features(FeatureTracker::Parameters & p)
{
  must_tracker(p);
  p.detector = Detector::FAST;
  p.descriptor = Descriptor::ORB;
  p.matcher = Matcher::FLANN;
  p.threshold = 20;
  p.px_error = 1e-9;
  p.min_feat_dist = 1.0;
  p.down_sample = false;
  p.down_sample_height = 480;
  p.down_sample_width = 640;
}
FeatureTracker::Parameters must_FeatureTracker_Parameters() {FeatureTracker::Parameters p; must_features(p); return p;}

FiducialTracker::Parameters start_FiducialTracker_Parameters() {FiducialTracker::Parameters p; return p;}
void must_fiducial(FiducialTracker::Parameters & p)
{
  must_tracker(p);
  p.detector_type = FiducialType::ARUCO_BOARD;
  p.predefined_dict = 0;
  p.squares_x = 1;
  p.squares_y = 1;
  p.square_length = 1.0;
  p.marker_length = 1.0;
  p.id = 0;
  p.pos_f_in_l = zero;
  p.ang_f_to_l = identity;
  p.is_extrinsic = false;
  p.variance = Eigen::VectorXd::Ones(6);
}
FiducialTracker::Parameters must_FiducialTracker_Parameters() {FiducialTracker::Parameters p; must_fiducial(p); return p;}

// ---------------------------------------------------------------- simulation
SimIMU::Parameters start_SimIMU_Parameters() {SimIMU::Parameters p; return p;}
SimIMU::Parameters must_SimIMU_Parameters()
{
  SimIMU::Parameters p;
  p.no_errors = false;
  p.time_error = 0.0;
  p.acc_error = zero;
  p.omg_error = zero;
  p.pos_error = zero;
  p.ang_error = zero;
  p.acc_bias_error = zero;
  p.omg_bias_error = zero;
  must_imu(p.imu_params);
  return p;
}

SimGPS::Parameters start_SimGPS_Parameters() {SimGPS::Parameters p; return p;}
SimGPS::Parameters must_SimGPS_Parameters()
{
  SimGPS::Parameters p;
  p.no_errors = false;
  p.time_error = 0.0;
  p.lla_error = tiny;
  p.pos_a_in_b_err = tiny;
  p.pos_e_in_g_err = tiny;
  p.ang_l_to_e_err = 1e-9;
  p.ang_l_to_e = 0.0;
  must_gps(p.gps_params);
  return p;
}

SimCamera::Parameters start_SimCamera_Parameters() {SimCamera::Parameters p; return p;}
SimCamera::Parameters must_SimCamera_Parameters()
{
  SimCamera::Parameters p;
  p.no_errors = false;
  p.time_error = 0.0;
  p.pos_error = zero;
  p.ang_error = zero;
  must_camera(p.cam_params);
  return p;
}

SimFeatureTracker::Parameters start_SimFeatureTracker_Parameters() {SimFeatureTracker::Parameters p; return p;}
SimFeatureTracker::Parameters must_SimFeatureTracker_Parameters()
{
  SimFeatureTracker::Parameters p;
  p.feature_count = 0;
  p.room_size = 10.0;
  p.no_errors = false;
  must_features(p.tracker_params);
  return p;
}

SimFiducialTracker::Parameters start_SimFiducialTracker_Parameters() {SimFiducialTracker::Parameters p; return p;}
SimFiducialTracker::Parameters must_SimFiducialTracker_Parameters()
{
  SimFiducialTracker::Parameters p;
  p.no_errors = false;
  p.pos_error = tiny;
  p.ang_error = tiny;
  p.t_vec_error = tiny;
  p.r_vec_error = tiny;
  must_fiducial(p.fiducial_params);
  return p;
}

SimFeatureTrackerMessage start_SimFeatureTrackerMessage() {SimFeatureTrackerMessage p; return p;}
SimFeatureTrackerMessage must_SimFeatureTrackerMessage()
{
  SimFeatureTrackerMessage p;
  p.tracker_id = 0;
  return p;
}

SimFiducialTrackerMessage start_SimFiducialTrackerMessage() {SimFiducialTrackerMessage p; return p;}
SimFiducialTrackerMessage must_SimFiducialTrackerMessage()
{
  SimFiducialTrackerMessage p;
  p.tracker_id = 0;
  p.is_board_visible = false;
  p.board_detection = must_BoardDetection();
  return p;
}

// ---------------------------------------------------------------- updaters
void ImuUpdater_initial(ImuUpdater & self, unsigned int id, bool ext, bool in, const std::string & dir, double rate, std::shared_ptr<DebugLogger> logger)
{
  self.m_id = id;
  self.m_logger = logger;
  self.m_is_extrinsic = ext;
  self.m_is_intrinsic = in;
  self.m_initial_motion_detected = false;
}

void GpsUpdater_initial(GpsUpdater & self, unsigned int id, bool ext, const std::string & dir, double rate, std::shared_ptr<DebugLogger> logger)
{
  self.m_id = id;
  self.m_logger = logger;
  self.m_is_extrinsic = ext;
  self.m_is_first_estimate = true;
  self.m_pos_a_in_b = zero;
}

void FiducialUpdater_initial(
  FiducialUpdater & self, unsigned int id, unsigned int camera, bool fid, bool cam, const std::string & dir, double rate, std::shared_ptr<DebugLogger> logger)
{
  self.m_id = id;
  self.m_logger = logger;
  self.m_is_fid_extrinsic = fid;
  self.m_is_cam_extrinsic = cam;
  self.m_camera_id = camera;
  self.m_is_first_estimate = true;
}

void MsckfUpdater_initial(
  MsckfUpdater & self, unsigned int id, bool ext, const std::string & dir, double rate, double min_feat_dist, std::shared_ptr<DebugLogger> logger)
{
  self.m_id = id;
  self.m_logger = logger;
  self.m_is_cam_extrinsic = ext;
  self.m_is_first_estimate = true;
  self.m_min_feat_dist = min_feat_dist;
  self.m_max_feat_dist = 100.0;
  self.m_use_true_triangulation = true;
}
}  // namespace spec
