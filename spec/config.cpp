// Configuration of the simulation: which entry of the configuration file reaches which parameter, what is built from it and in which order messages run
#include "common.hpp"
#include <yaml-cpp/yaml.h>
#include <algorithm>
#include <opencv2/opencv.hpp>
#include "infrastructure/ekf_cal_version.hpp"
#include "infrastructure/debug_logger.hpp"
#include "infrastructure/sim/truth_engine_cyclic.hpp"
#include "infrastructure/sim/truth_engine_smoother.hpp"
#include "infrastructure/sim/truth_engine_spline.hpp"
#include "infrastructure/sim/truth_engine.hpp"
#include "sensors/sim/sim_camera_message.hpp"
#include "sensors/sim/sim_camera.hpp"
#include "sensors/sim/sim_gps_message.hpp"
#include "sensors/sim/sim_gps.hpp"
#include "sensors/sim/sim_imu_message.hpp"
#include "sensors/sim/sim_imu.hpp"
#include "trackers/sim/sim_feature_tracker.hpp"
#include "trackers/sim/sim_fiducial_tracker.hpp"
#include "utility/gps_helper.hpp"
#include "utility/sim/sim_rng.hpp"

std::vector<std::string> LoadNodeList(YAML::Node node);
Eigen::VectorXd LoadProcessNoise(YAML::Node node);

namespace spec
{
std::vector<std::string> F_LoadNodeList(YAML::Node node)
{
  std::vector<std::string> names;
  for (unsigned int i = 0; i < node.size(); ++i) {
    names.push_back(node[i].as<std::string>());
  }
  return names;
}

void F_LoadSensorParams(
  Sensor::Parameters & p, YAML::Node node, const std::string & name, const std::string & directory, std::shared_ptr<EKF> ekf,
  std::shared_ptr<DebugLogger> logger)
{
  p.name = name;
  p.topic = node["topic"].as<std::string>("");
  p.rate = node["rate"].as<double>(1.0);
  p.data_log_rate = node["data_log_rate"].as<double>(0.0);
  p.log_directory = directory;
  p.ekf = ekf;
  p.logger = logger;
}

void F_LoadSimSensorParams(SimSensor::Parameters & p, YAML::Node node)
{
  p.no_errors = node["no_errors"].as<bool>(false);
  p.time_error = node["time_error"].as<double>(0.0);
}

void F_LoadTrackerParams(
  Tracker::Parameters & p, const std::string & name, const std::string & directory, std::shared_ptr<EKF> ekf, std::shared_ptr<DebugLogger> logger)
{
  p.name = name;
  p.log_directory = directory;
  p.ekf = ekf;
  p.logger = logger;
}

Eigen::VectorXd F_LoadProcessNoise(YAML::Node node)
{
  Eigen::VectorXd q(18);
  double pos = node["pos"].as<double>(1.0e-2);
  double vel = node["vel"].as<double>(1.0e-2);
  double acc = node["acc"].as<double>(1.0e-2);
  double ang_pos = node["ang_pos"].as<double>(1.0e-2);
  double ang_vel = node["ang_vel"].as<double>(1.0e-2);
  double ang_acc = node["ang_acc"].as<double>(1.0e-2);
  for (unsigned int i = 0; i < 3; ++i) {
    q(i) = pos;
    q(3 + i) = vel;
    q(6 + i) = acc;
    q(9 + i) = ang_pos;
    q(12 + i) = ang_vel;
    q(15 + i) = ang_acc;
  }
  return q;
}

Eigen::VectorXd vec(YAML::Node node)
{
  std::vector<double> zero{0.0, 0.0, 0.0};
  return StdToEigVec(node.as<std::vector<double>>(zero));
}

Eigen::Quaterniond quat(YAML::Node node)
{
  std::vector<double> identity{1.0, 0.0, 0.0, 0.0};
  return StdToEigQuat(node.as<std::vector<double>>(identity));
}

std::vector<double> numbers(YAML::Node node)
{
  std::vector<double> zero{0.0, 0.0, 0.0};
  return node.as<std::vector<double>>(zero);
}

int F_main(int argc, char ** argv)
{
  cv::CommandLineParser parser(
    argc, argv,
    cv::String(
      "{@config        | <none> | Input YAML configuration file }"
      "{@log_directory | ~/log/ | Output directory for logs     }"
      "{help h usage ? |        | print this help message       }"));
  parser.about("ekf_cal Simulation: " + std::string(EKF_CAL_VERSION));
  if (parser.has("help") || (!parser.has("@config") || !parser.has("@log_directory"))) {
    parser.printMessage();
    return 0;
  }
  std::string config = parser.get<std::string>("@config");
  std::string directory = parser.get<std::string>("@log_directory");
  YAML::Node root = YAML::LoadFile(config);
  YAML::Node all = root["/EkfCalNode"]["ros__parameters"];
  std::vector<std::string> imus = LoadNodeList(all["imu_list"]);
  std::vector<std::string> cameras = LoadNodeList(all["camera_list"]);
  std::vector<std::string> trackers = LoadNodeList(all["tracker_list"]);
  std::vector<std::string> fiducials = LoadNodeList(all["fiducial_list"]);
  std::vector<std::string> gps_list = LoadNodeList(all["gps_list"]);

  unsigned int level = all["debug_log_level"].as<unsigned int>(0);
  std::shared_ptr<DebugLogger> logger = std::make_shared<DebugLogger>(level, directory);

  // ---------------------------------------------------------------- filter
  EKF::Parameters e;
  double log_rate = all["data_log_rate"].as<double>(0.0);
  e.debug_logger = logger;
  e.data_log_rate = log_rate;
  e.log_directory = directory;
  e.augmenting_type = static_cast<AugmentationType>(all["augmenting_type"].as<unsigned int>(1));
  e.augmenting_delta_time = all["augmenting_delta_time"].as<double>(1.0);
  e.augmenting_pos_error = all["augmenting_pos_error"].as<double>(0.1);
  e.augmenting_ang_error = all["augmenting_ang_error"].as<double>(0.1);
  e.process_noise = LoadProcessNoise(all["process_noise"]);
  e.pos_b_in_l = vec(all["pos_b_in_l"]);
  e.ang_b_to_l = quat(all["ang_b_to_l"]);
  e.pos_e_in_g = vec(all["pos_e_in_g"]);
  e.ang_l_to_e = all["ang_l_to_e"].as<double>(0.0);
  e.gps_init_type = static_cast<GpsInitType>(all["gps_init_type"].as<unsigned int>(0));
  e.gps_init_baseline_dist = all["gps_init_baseline_dist"].as<double>(1.0);
  e.gps_init_pos_thresh = all["gps_init_pos_thresh"].as<double>(1.0);
  e.gps_init_ang_thresh = all["gps_init_ang_thresh"].as<double>(1.0);
  e.motion_detection_chi_squared = all["motion_detection_chi_squared"].as<double>(1.0);
  e.imu_noise_scale_factor = all["imu_noise_scale_factor"].as<double>(100.0);
  e.use_root_covariance = all["use_root_covariance"].as<bool>(true);
  e.use_first_estimate_jacobian = all["use_first_estimate_jacobian"].as<bool>(false);
  if (trackers.empty()) {
    e.augmenting_type = AugmentationType::NONE;
  }
  std::shared_ptr<EKF> ekf = std::make_shared<EKF>(e);

  // ---------------------------------------------------------------- truth
  YAML::Node sim = all["sim_params"];
  unsigned int seed = sim["seed"].as<unsigned int>(1);
  double max_time = sim["max_time"].as<double>(10.0);
  if (seed > 0) {
    SimRNG::SetSeed(seed);
  }
  std::string kind = sim["truth_type"].as<std::string>("cyclic");
  double rest = std::max(sim["stationary_time"].as<double>(0.1), 0.1);
  std::shared_ptr<TruthEngine> truth;
  if (kind == "cyclic") {
    truth = std::make_shared<TruthEngineCyclic>(
      vec(sim["pos_frequency"]), vec(sim["ang_frequency"]), vec(sim["pos_offset"]), vec(sim["ang_offset"]),
      sim["pos_amplitude"].as<double>(1.0), sim["ang_amplitude"].as<double>(0.1), rest, max_time, logger);
  } else if (kind == "smoother") {
    truth = std::make_shared<TruthEngineSmoother>(
      numbers(sim["times"]), numbers(sim["positions"]), numbers(sim["angles"]), numbers(sim["pos_errors"]), numbers(sim["ang_errors"]),
      rest, max_time, 1000.0, logger);
  } else if (kind == "spline") {
    truth = std::make_shared<TruthEngineSpline>(
      numbers(sim["positions"]), numbers(sim["angles"]), numbers(sim["pos_errors"]), numbers(sim["ang_errors"]), rest, max_time, logger);
  }

  // ---------------------------------------------------------------- initial state and global reference
  Eigen::VectorXd pos_error = vec(sim["pos_b_in_l_error"]);
  Eigen::VectorXd ang_error = vec(sim["ang_b_to_l_error"]);
  BodyState initial;
  initial.pos_b_in_l = SimRNG::VecNormRand(e.pos_b_in_l, pos_error);
  double roll = SimRNG::NormRand(0, ang_error(0));
  double pitch = SimRNG::NormRand(0, ang_error(1));
  initial.ang_b_to_l = Eigen::AngleAxisd(roll, Eigen::Vector3d::UnitX()) * Eigen::AngleAxisd(pitch, Eigen::Vector3d::UnitY()) * e.ang_b_to_l;
  ekf->Initialize(0.0, initial);
  Eigen::VectorXd ref_error = vec(sim["pos_e_in_g_error"]);
  double heading_error = sim["ang_l_to_e_error"].as<double>(0.0);
  double lat = SimRNG::NormRand(e.pos_e_in_g(0), wgs84_m_to_deg(ref_error(0)));
  double lon = SimRNG::NormRand(e.pos_e_in_g(1), wgs84_m_to_deg(ref_error(1)));
  double alt = SimRNG::NormRand(e.pos_e_in_g(2), ref_error(2));
  double heading = SimRNG::NormRand(e.ang_l_to_e, heading_error);
  truth->SetLocalPosition(Eigen::Vector3d(lat, lon, alt));
  truth->SetLocalHeading(heading);

  std::map<unsigned int, std::shared_ptr<Sensor>> sensors;
  std::vector<std::shared_ptr<SensorMessage>> messages;

  // ---------------------------------------------------------------- IMUs
  for (unsigned int i = 0; i < imus.size(); ++i) {
    YAML::Node node = all["imu"][imus[i]];
    YAML::Node err = node["sim_params"];
    IMU::Parameters p;
    F_LoadSensorParams(p, node, imus[i], directory, ekf, logger);
    p.is_extrinsic = node["is_extrinsic"].as<bool>(false);
    p.is_intrinsic = node["is_intrinsic"].as<bool>(false);
    p.variance = vec(node["variance"]);
    p.pos_i_in_b = vec(node["pos_i_in_b"]);
    p.ang_i_to_b = quat(node["ang_i_to_b"]);
    p.acc_bias = vec(node["acc_bias"]);
    p.omg_bias = vec(node["omg_bias"]);
    p.pos_stability = node["pos_stability"].as<double>(1.0e-9);
    p.ang_stability = node["ang_stability"].as<double>(1.0e-9);
    p.acc_bias_stability = node["acc_bias_stability"].as<double>(1.0e-9);
    p.omg_bias_stability = node["omg_bias_stability"].as<double>(1.0e-9);
    SimIMU::Parameters s;
    F_LoadSimSensorParams(s, err);
    s.imu_params = p;
    s.acc_error = vec(err["acc_error"]);
    s.omg_error = vec(err["omg_error"]);
    s.pos_error = vec(err["pos_error"]);
    s.ang_error = vec(err["ang_error"]);
    s.acc_bias_error = vec(err["acc_bias_error"]);
    s.omg_bias_error = vec(err["omg_bias_error"]);
    std::shared_ptr<SimIMU> imu = std::make_shared<SimIMU>(s, truth);
    sensors[imu->GetId()] = imu;
    auto made = imu->GenerateMessages();
    messages.insert(messages.end(), made.begin(), made.end());
  }

  // ---------------------------------------------------------------- trackers
  unsigned int longest = 0;
  std::map<std::string, SimFeatureTracker::Parameters> tracker_map;
  for (unsigned int i = 0; i < trackers.size(); ++i) {
    YAML::Node node = all["tracker"][trackers[i]];
    YAML::Node err = node["sim_params"];
    SimFeatureTracker::Parameters s;
    FeatureTracker::Parameters p;
    F_LoadTrackerParams(p, trackers[i], directory, ekf, logger);
    p.px_error = node["pixel_error"].as<double>(1.0);
    p.min_track_length = node["min_track_length"].as<unsigned int>(2);
    p.max_track_length = node["max_track_length"].as<unsigned int>(20);
    p.min_feat_dist = node["min_feat_dist"].as<double>(1.0);
    p.down_sample = node["down_sample"].as<bool>(false);
    p.down_sample_height = node["down_sample_height"].as<int>(480);
    p.down_sample_width = node["down_sample_width"].as<int>(640);
    longest = std::max(longest, p.max_track_length);
    s.feature_count = err["feature_count"].as<unsigned int>(100);
    s.room_size = err["room_size"].as<double>(10.0);
    s.no_errors = err["no_errors"].as<bool>(false);
    s.tracker_params = p;
    tracker_map[p.name] = s;
  }

  // ---------------------------------------------------------------- fiducials
  std::map<std::string, SimFiducialTracker::Parameters> fiducial_map;
  for (unsigned int i = 0; i < fiducials.size(); ++i) {
    YAML::Node node = all["fiducial"][fiducials[i]];
    YAML::Node err = node["sim_params"];
    SimFiducialTracker::Parameters s;
    FiducialTracker::Parameters p;
    F_LoadTrackerParams(p, fiducials[i], directory, ekf, logger);
    p.pos_f_in_l = vec(node["pos_f_in_l"]);
    p.ang_f_to_l = quat(node["ang_f_to_l"]);
    p.variance = vec(node["variance"]);
    p.squares_x = node["squares_x"].as<unsigned int>(1);
    p.squares_y = node["squares_y"].as<unsigned int>(1);
    p.square_length = node["square_length"].as<double>(0.0);
    p.marker_length = node["marker_length"].as<double>(0.0);
    p.id = node["id"].as<unsigned int>(0);
    p.is_extrinsic = node["is_extrinsic"].as<bool>(false);
    longest = std::max(longest, p.max_track_length);
    s.pos_error = vec(err["pos_error"]);
    s.ang_error = vec(err["ang_error"]);
    s.t_vec_error = vec(err["t_vec_error"]);
    s.r_vec_error = vec(err["r_vec_error"]);
    s.no_errors = err["no_errors"].as<bool>(false);
    s.fiducial_params = p;
    fiducial_map[p.name] = s;
  }
  ekf->SetMaxTrackLength(longest);

  // ---------------------------------------------------------------- cameras
  for (unsigned int i = 0; i < cameras.size(); ++i) {
    YAML::Node node = all["camera"][cameras[i]];
    YAML::Node err = node["sim_params"];
    YAML::Node in = node["intrinsics"];
    Camera::Parameters p;
    F_LoadSensorParams(p, node, cameras[i], directory, ekf, logger);
    p.variance = vec(node["variance"]);
    p.pos_c_in_b = vec(node["pos_c_in_b"]);
    p.ang_c_to_b = quat(node["ang_c_to_b"]);
    p.is_extrinsic = node["is_extrinsic"].as<bool>(false);
    p.pos_stability = node["pos_stability"].as<double>(1.0e-9);
    p.ang_stability = node["ang_stability"].as<double>(1.0e-9);
    p.tracker = node["tracker"].as<std::string>("");
    p.fiducial = node["fiducial"].as<std::string>("");
    p.intrinsics.f_x = in["f_x"].as<double>(0.01);
    p.intrinsics.f_y = in["f_y"].as<double>(0.01);
    p.intrinsics.k_1 = in["k_1"].as<double>(0.0);
    p.intrinsics.k_2 = in["k_2"].as<double>(0.0);
    p.intrinsics.p_1 = in["p_1"].as<double>(0.0);
    p.intrinsics.p_2 = in["p_2"].as<double>(0.0);
    p.intrinsics.width = in["width"].as<double>(640.0);
    p.intrinsics.height = in["height"].as<double>(480.0);
    p.intrinsics.pixel_size = in["pixel_size"].as<double>(5.0e-6);
    SimCamera::Parameters s;
    F_LoadSimSensorParams(s, err);
    s.cam_params = p;
    s.pos_error = vec(err["pos_error"]);
    s.ang_error = vec(err["ang_error"]);
    std::shared_ptr<SimCamera> cam = std::make_shared<SimCamera>(s, truth);
    if (!p.tracker.empty()) {
      SimFeatureTracker::Parameters t = tracker_map[p.tracker];
      t.tracker_params.camera_id = cam->GetId();
      t.tracker_params.intrinsics = p.intrinsics;
      t.tracker_params.is_cam_extrinsic = p.is_extrinsic;
      t.tracker_params.data_log_rate = p.data_log_rate;
      t.no_errors = t.no_errors || s.no_errors;
      cam->AddTracker(std::make_shared<SimFeatureTracker>(t, truth));
    }
    if (!p.fiducial.empty()) {
      SimFiducialTracker::Parameters f = fiducial_map[p.fiducial];
      f.fiducial_params.camera_id = cam->GetId();
      f.fiducial_params.intrinsics = p.intrinsics;
      f.fiducial_params.is_cam_extrinsic = p.is_extrinsic;
      f.fiducial_params.data_log_rate = p.data_log_rate;
      f.no_errors = f.no_errors || s.no_errors;
      cam->AddFiducial(std::make_shared<SimFiducialTracker>(f, truth));
    }
    sensors[cam->GetId()] = cam;
    auto made = cam->GenerateMessages();
    messages.insert(messages.end(), made.begin(), made.end());
  }

  // ---------------------------------------------------------------- GPS antennas
  for (unsigned int i = 0; i < gps_list.size(); ++i) {
    YAML::Node node = all["gps"][gps_list[i]];
    YAML::Node err = node["sim_params"];
    GPS::Parameters p;
    F_LoadSensorParams(p, node, gps_list[i], directory, ekf, logger);
    p.variance = vec(node["variance"]);
    p.pos_a_in_b = vec(node["pos_a_in_b"]);
    p.pos_stability = node["pos_stability"].as<double>(0.0);
    p.is_extrinsic = node["is_extrinsic"].as<bool>(false);
    SimGPS::Parameters s;
    F_LoadSimSensorParams(s, err);
    s.gps_params = p;
    s.lla_error = vec(err["lla_error"]);
    s.pos_a_in_b_err = vec(err["pos_a_in_b_error"]);
    s.pos_e_in_g_err = vec(err["pos_e_in_g_error"]);
    s.ang_l_to_e_err = err["ang_l_to_e_error"].as<double>(1e-9);
    std::shared_ptr<SimGPS> gps = std::make_shared<SimGPS>(s, truth);
    sensors[gps->GetId()] = gps;
    auto made = gps->GenerateMessages();
    messages.insert(messages.end(), made.begin(), made.end());
  }

  if (log_rate != 0.0) {
    truth->WriteTruthData(log_rate, directory);
  }

  // ---------------------------------------------------------------- every message, in time order, to the sensor it names
  std::sort(messages.begin(), messages.end(), MessageCompare);
  for (auto message : messages) {
    auto found = sensors.find(message->sensor_id);
    if (found == sensors.end()) {
      continue;
    }
    if (message->sensor_type == SensorType::IMU) {
      std::static_pointer_cast<SimIMU>(found->second)->Callback(*std::static_pointer_cast<SimImuMessage>(message));
    } else if (message->sensor_type == SensorType::Camera) {
      std::static_pointer_cast<SimCamera>(found->second)->Callback(*std::static_pointer_cast<SimCameraMessage>(message));
    } else if (message->sensor_type == SensorType::GPS) {
      std::static_pointer_cast<SimGPS>(found->second)->Callback(*std::static_pointer_cast<SimGpsMessage>(message));
    }
  }
  return 0;
}
}  // namespace spec
