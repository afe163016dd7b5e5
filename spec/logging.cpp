// Data logs: headers, rows, rate limiting, verbosity of the debug log
#include "common.hpp"

namespace spec
{
// ---------------------------------------------------------------- logger
void DataLogger_ctor(DataLogger & self, const std::string & dir, const std::string & file)
{
  self.m_log_directory = dir;
  self.m_file_name = file;
  self.m_log_header = std::string("");
  self.m_initialized = false;
  self.m_logging_on = false;
  self.m_rate = 0.0;
  self.m_time_initialized = false;
  self.m_log_count = 0;
}

void DataLogger_ctor_rate(DataLogger & self, const std::string & dir, const std::string & file, double rate)
{
  DataLogger_ctor(self, dir, file);
  self.m_rate = rate;
}

void DataLogger_Log(DataLogger & self, const std::string & message)
{
  if (!self.m_logging_on) {
    return;
  }
  if (!self.m_initialized) {
    self.m_log_file.open(self.m_log_directory + self.m_file_name);
    self.m_log_file << self.m_log_header << std::endl;
    self.m_initialized = true;
  }
  self.m_log_file << message << std::endl;
  self.m_log_count = self.m_log_count + 1;
}

void DataLogger_RateLimitedLog(DataLogger & self, const std::string & message, double time)
{
  if (!self.m_logging_on) {
    return;
  }
  if (!self.m_time_initialized) {
    self.m_time_init = time;
    self.m_time_initialized = true;
    DataLogger_Log(self, message);
  } else if (self.m_rate == 0.0 || static_cast<double>(self.m_log_count) < self.m_rate * (time - self.m_time_init)) {
    DataLogger_Log(self, message);
  }
}

void DataLogger_EnableLogging(DataLogger & self) {self.m_logging_on = true;}
void DataLogger_SetOutputDirectory(DataLogger & self, const std::string & dir) {self.m_log_directory = dir;}
void DataLogger_SetOutputFileName(DataLogger & self, const std::string & file) {self.m_file_name = file;}
void DataLogger_DefineHeader(DataLogger & self, const std::string & header) {self.m_log_header = header;}
void DataLogger_SetLogRate(DataLogger & self, double rate) {self.m_rate = rate;}

// ---------------------------------------------------------------- debug messages
void DebugLogger_ctor(DebugLogger & self, LogLevel level, const std::string & dir)
{
  self.m_log_level = level;
  self.m_log_directory = dir;
}

void DebugLogger_ctor_int(DebugLogger & self, unsigned int level, const std::string & dir)
{
  self.m_log_level = static_cast<LogLevel>(level);
  self.m_log_directory = dir;
}

void DebugLogger_SetLogLevel(DebugLogger & self, LogLevel level) {self.m_log_level = level;}
void DebugLogger_SetLogLevel_int(DebugLogger & self, unsigned int level) {self.m_log_level = static_cast<LogLevel>(level);}

void DebugLogger_Log(DebugLogger & self, LogLevel level, const std::string & message)
{
  if (self.m_log_level < level) {
    return;
  }
  if (level == LogLevel::DEBUG || level == LogLevel::INFO) {
    std::cout << "[" << self.m_log_level_names[static_cast<int>(level)] << "]: " << message << std::endl;
  }
  if (level == LogLevel::WARN || level == LogLevel::ERROR || level == LogLevel::FATAL) {
    std::cerr << "[" << self.m_log_level_names[static_cast<int>(level)] << "]: " << message << std::endl;
  }
}

// ---------------------------------------------------------------- text of a row
std::string F_EnumerateHeader(const std::string & name, const unsigned int size)
{
  std::stringstream s;
  for (unsigned int i = 0; i < size; ++i) {
    s << ",";
    s << name;
    s << "_";
    s << i;
  }
  return s.str();
}

std::string F_VectorToCommaString(const Eigen::VectorXd & v)
{
  std::stringstream s;
  for (unsigned int i = 0; i < v.size(); ++i) {
    s << ",";
    s << v(i);
  }
  return s.str();
}

std::string F_VectorToCommaString_p(const Eigen::VectorXd & v, const int precision)
{
  std::stringstream s;
  for (unsigned int i = 0; i < v.size(); ++i) {
    s << "," << std::setprecision(precision) << v(i);
  }
  return s.str();
}

std::string F_QuaternionToCommaString(const Eigen::Quaterniond & q)
{
  std::stringstream s;
  s << "," << q.w() << "," << q.x() << "," << q.y() << "," << q.z();
  return s.str();
}

// ---------------------------------------------------------------- headers
void define_log(DataLogger & log, const std::string & dir, const std::string & file, const std::string & header, double rate, bool limit)
{
  DataLogger_ctor(log, dir, file);
  log.m_log_header = header;
  if (rate != 0.0) {
    log.m_logging_on = true;
  }
  if (limit) {
    log.m_rate = rate;
  }
}

void ImuUpdater_ctor(ImuUpdater & self, unsigned int id, bool ext, bool in, const std::string & dir, double rate, std::shared_ptr<DebugLogger> logger)
{
  self.m_id = id;
  self.m_logger = logger;
  self.m_is_extrinsic = ext;
  self.m_is_intrinsic = in;
  std::string h = "time,stationary,score";
  h += EnumerateHeader("imu_pos", 3) + EnumerateHeader("imu_ang_pos", 4);
  h += EnumerateHeader("imu_acc_bias", 3) + EnumerateHeader("imu_gyr_bias", 3);
  if (ext) {h += EnumerateHeader("imu_ext_cov", 6);}
  if (in) {h += EnumerateHeader("imu_int_cov", 6);}
  h += EnumerateHeader("acc", 3) + EnumerateHeader("omg", 3) + EnumerateHeader("residual", 6) + EnumerateHeader("duration", 1);
  define_log(self.m_data_logger, dir, "imu_" + std::to_string(id) + ".csv", h, rate, true);
}

void GpsUpdater_ctor(GpsUpdater & self, unsigned int id, bool ext, const std::string & dir, double rate, std::shared_ptr<DebugLogger> logger)
{
  self.m_id = id;
  self.m_logger = logger;
  self.m_is_extrinsic = ext;
  std::string h = "time,lat,lon,alt,x,y,z,ref_lat,ref_lon,ref_alt,ref_heading,is_initialized";
  if (ext) {h += EnumerateHeader("ant_pos", 3) + EnumerateHeader("gps_cov", 3);}
  h += EnumerateHeader("residual", 3) + EnumerateHeader("duration", 1);
  define_log(self.m_data_logger, dir, "gps_" + std::to_string(id) + ".csv", h, rate, true);
}

void FiducialUpdater_ctor(
  FiducialUpdater & self, unsigned int id, unsigned int cam, bool fid_ext, bool cam_ext, const std::string & dir, double rate,
  std::shared_ptr<DebugLogger> logger)
{
  self.m_id = id;
  self.m_logger = logger;
  self.m_is_fid_extrinsic = fid_ext;
  self.m_is_cam_extrinsic = cam_ext;
  self.m_camera_id = cam;
  std::string h = "time,board";
  h += EnumerateHeader("board_meas_pos", 3) + EnumerateHeader("board_meas_ang", 4);
  h += EnumerateHeader("cam_pos", 3) + EnumerateHeader("cam_ang_pos", 4) + EnumerateHeader("residual", 6);
  if (fid_ext) {h += EnumerateHeader("fid_pos", 3) + EnumerateHeader("fid_ang", 4) + EnumerateHeader("fid_cov", 6);}
  if (cam_ext) {h += EnumerateHeader("cam_cov", 6);}
  h += EnumerateHeader("duration", 1);
  define_log(self.m_fiducial_logger, dir, "fiducial_" + std::to_string(cam) + ".csv", h, rate, true);
}

void MsckfUpdater_ctor(
  MsckfUpdater & self, unsigned int id, bool ext, const std::string & dir, double rate, double min_feat_dist,
  std::shared_ptr<DebugLogger> logger)
{
  self.m_id = id;
  self.m_logger = logger;
  self.m_is_cam_extrinsic = ext;
  self.m_min_feat_dist = min_feat_dist;
  std::string h = "time";
  h += EnumerateHeader("cam_pos", 3) + EnumerateHeader("cam_ang_pos", 4);
  if (ext) {h += EnumerateHeader("cam_cov", 6);}
  h += ",FeatureTracks" + EnumerateHeader("duration", 1);
  define_log(self.m_msckf_logger, dir, "msckf_" + std::to_string(id) + ".csv", h, rate, true);
  define_log(self.m_triangulation_logger, dir, "triangulation_" + std::to_string(id) + ".csv", "time,feature,x,y,z", rate, true);
}

void EKF_ctor(EKF & self, EKF::Parameters params)
{
  std::string h = "time";
  h += EnumerateHeader("body_pos", 3) + EnumerateHeader("body_vel", 3) + EnumerateHeader("body_acc", 3);
  h += EnumerateHeader("body_ang_pos", 4) + EnumerateHeader("body_ang_vel", 3) + EnumerateHeader("body_ang_acc", 3);
  h += EnumerateHeader("body_cov", 18) + ",state_size" + EnumerateHeader("duration", 1);
  define_log(self.m_data_logger, params.log_directory, "body_state.csv", h, params.data_log_rate, true);
  std::string a = "time" + EnumerateHeader("aug_pos", 3) + EnumerateHeader("aug_ang", 4);
  define_log(self.m_augmentation_logger, params.log_directory, "aug_state.csv", a, params.data_log_rate, false);
  self.m_data_log_rate = params.data_log_rate;
}

void EKF_LogBodyStateIfNeeded(EKF & self, int execution_count)
{
  if (self.m_data_log_rate == 0.0) {
    return;
  }
  Eigen::VectorXd var = self.m_cov.block<18, 18>(0, 0).diagonal();
  if (self.m_use_root_covariance) {
    var = var.cwiseProduct(var);
  }
  const BodyState & b = self.m_state.body_state;
  std::stringstream m;
  m << self.m_current_time << VectorToCommaString(b.pos_b_in_l) << VectorToCommaString(b.vel_b_in_l) << VectorToCommaString(b.acc_b_in_l)
    << QuaternionToCommaString(b.ang_b_to_l) << VectorToCommaString(b.ang_vel_b_in_l) << VectorToCommaString(b.ang_acc_b_in_l)
    << VectorToCommaString(var) << "," << self.m_state_size << "," << execution_count;
  self.m_data_logger.RateLimitedLog(m.str(), self.m_current_time);
}
}  // namespace spec
