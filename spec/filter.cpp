// The filter core: time, propagation, registration of sensors, clones.
#include "common.hpp"
namespace spec {

// ---------------------------------------------------------------- time
double EKF_CalculateLocalTime(EKF & self, double time)
{
  if (self.m_time_initialized) {return time - self.m_reference_time;}
  self.m_time_initialized = true;
  self.m_reference_time = time;
  self.m_current_time = 0;
  return 0;
}

void EKF_Initialize(EKF & self, double initial_time, const BodyState & body)
{
  self.m_time_initialized = true;
  self.m_current_time = initial_time;
  self.m_state.body_state = body;
}

double EKF_GetCurrentTime(const EKF & self) {return self.m_current_time;}

// ---------------------------------------------------------------- propagation
Eigen::MatrixXd EKF_GetStateTransition(double dt)
{
  Eigen::MatrixXd f = Eigen::MatrixXd::Identity(18, 18);
  f.block(0, 3, 3, 3) = dt * Eigen::MatrixXd::Identity(3, 3);
  return f;
}

void EKF_PredictModel(EKF & self, double local_time)
{
  if (local_time < self.m_current_time) {return;}
  if (self.m_is_gravity_initialized) {
    double dt = local_time - self.m_current_time;
    BodyState & b = self.m_state.body_state;
    Eigen::Vector3d acc = Eigen::Vector3d::Zero();
    if (!self.m_is_zero_acceleration) {acc = b.acc_b_in_l - g_gravity;}
    b.vel_b_in_l = b.vel_b_in_l + acc * dt;
    b.pos_b_in_l = b.pos_b_in_l + b.vel_b_in_l * dt;
    b.ang_b_to_l = RotVecToQuat(Eigen::Vector3d(dt * b.ang_vel_b_in_l)) * b.ang_b_to_l;

    Eigen::MatrixXd f = EKF_GetStateTransition(dt);
    unsigned int rest = self.m_state_size - 18;
    if (self.m_use_root_covariance) {
      self.m_cov.block(0, 0, 18, 18) = self.m_cov.block(0, 0, 18, 18) * f.transpose();
      self.m_cov = QR_r(self.m_cov, self.m_process_noise * std::sqrt(dt));
    } else {
      Eigen::MatrixXd p = self.m_cov;
      p.diagonal() = p.diagonal() + dt * self.m_process_noise.diagonal();
      self.m_cov = p;
      self.m_cov.block(0, 0, 18, 18) = f * p.block(0, 0, 18, 18) * f.transpose();
      self.m_cov.block(0, 18, 18, rest) = f * p.block(0, 18, 18, rest);
      self.m_cov.block(18, 0, rest, 18) = p.block(18, 0, rest, 18) * f.transpose();
    }
  }
  self.m_current_time = local_time;
  self.AugmentStateIfNeeded();
  self.LogBodyStateIfNeeded(0);
}

void EKF_SetBodyProcessNoise(EKF & self, const Eigen::VectorXd & q) {self.m_body_process_noise = q;}
void EKF_SetZeroAcceleration(EKF & self, bool on) {self.m_is_zero_acceleration = on;}
void EKF_InitializeGravity(EKF & self) {self.m_is_gravity_initialized = true;}
bool EKF_IsGravityInitialized(const EKF & self) {return self.m_is_gravity_initialized;}

// ---------------------------------------------------------------- registration
static Eigen::MatrixXd as_kept(const EKF & self, const Eigen::MatrixXd & cov)
{
  return self.m_use_root_covariance ? Eigen::MatrixXd(cov.cwiseSqrt()) : cov;
}

void EKF_RegisterIMU(EKF & self, unsigned int id, const ImuState & s, const Eigen::MatrixXd & cov)
{
  if (self.m_state.imu_states.count(id) != 0) {return;}
  self.m_state.imu_states[id] = s;
  unsigned int n = (s.is_extrinsic ? 6 : 0) + (s.is_intrinsic ? 6 : 0);
  self.m_imu_state_size += n;
  self.m_state_size += n;
  self.RefreshIndices();
  if (s.is_extrinsic || s.is_intrinsic) {
    unsigned int at = self.m_state.imu_states[id].index;
    self.m_cov = InsertInMatrix(as_kept(self, cov.block(0, 0, s.size, s.size)), self.m_cov, at, at);
  }
}

void EKF_RegisterGPS(EKF & self, unsigned int id, const GpsState & s, const Eigen::Matrix3d & cov)
{
  if (self.m_state.gps_states.count(id) != 0) {return;}
  self.m_state.gps_states[id] = s;
  if (s.is_extrinsic) {
    self.m_gps_state_size += 3;
    self.m_state_size += 3;
  }
  self.RefreshIndices();
  if (s.is_extrinsic) {
    unsigned int at = self.m_state.gps_states[id].index;
    self.m_cov = InsertInMatrix(as_kept(self, cov.block(0, 0, s.size, s.size)), self.m_cov, at, at);
  }
}

void EKF_RegisterCamera(EKF & self, unsigned int id, const CamState & s, const Eigen::MatrixXd & cov)
{
  if (self.m_state.cam_states.count(id) != 0) {return;}
  double period = 1 / s.rate;
  self.m_max_frame_period = std::max(self.m_max_frame_period, period);
  self.m_max_track_duration = (self.m_max_track_length + 1) * self.m_max_frame_period;
  self.m_min_aug_period = std::min(self.m_min_aug_period, period);
  if (self.m_primary_camera_id == 0) {self.m_primary_camera_id = id;}
  self.m_state.cam_states[id] = s;
  if (s.is_extrinsic) {
    self.m_cam_state_size += 6;
    self.m_state_size += 6;
  }
  self.RefreshIndices();
  if (s.is_extrinsic) {
    unsigned int at = self.m_state.cam_states[id].index;
    self.m_cov = InsertInMatrix(as_kept(self, cov.block(0, 0, s.size, s.size)), self.m_cov, at, at);
  }
}

void EKF_RegisterFiducial(EKF & self, const FidState & s, const Eigen::MatrixXd & cov)
{
  if (self.m_state.fid_states.count(s.id) != 0) {return;}
  self.m_state.fid_states[s.id] = s;
  if (s.is_extrinsic) {
    self.m_fid_state_size += 6;
    self.m_state_size += 6;
  }
  self.RefreshIndices();
  if (s.is_extrinsic) {
    unsigned int at = self.m_state.fid_states[s.id].index;
    self.m_cov = InsertInMatrix(as_kept(self, cov.block(0, 0, s.size, s.size)), self.m_cov, at, at);
  }
}

Eigen::MatrixXd F_InsertInMatrix(const Eigen::MatrixXd & sub, const Eigen::MatrixXd & in, unsigned int row, unsigned int col)
{
  unsigned int r = in.rows(), c = in.cols(), sr = sub.rows(), sc = sub.cols();
  Eigen::MatrixXd out = Eigen::MatrixXd::Zero(r + sr, c + sc);
  out.block(0, 0, row, col) = in.block(0, 0, row, col);
  out.block(0, col + sc, row, c - col) = in.block(0, col, row, c - col);
  out.block(row, col, sr, sc) = sub;
  out.block(row + sr, 0, r - row, col) = in.block(row, 0, r - row, col);
  out.block(row + sr, col + sc, r - row, c - col) = in.block(row, col, r - row, c - col);
  return out;
}

Eigen::MatrixXd F_RemoveFromMatrix(const Eigen::MatrixXd & in, unsigned int row, unsigned int col, unsigned int n)
{
  unsigned int r = in.rows() - n, c = in.cols() - n;
  Eigen::MatrixXd out = Eigen::MatrixXd::Zero(r, c);
  out.block(0, 0, row, col) = in.block(0, 0, row, col);
  out.block(0, col, row, c - col) = in.block(0, col + n, row, c - col);
  out.block(row, 0, r - row, col) = in.block(row + n, 0, r - row, col);
  out.block(row, col, r - row, c - col) = in.block(row + n, col + n, r - row, c - col);
  return out;
}

// ---------------------------------------------------------------- reading never changes the filter
unsigned int EKF_GetStateSize(const EKF & self) {return self.m_state_size;}
unsigned int EKF_GetImuStateSize(const EKF & self) {return self.m_imu_state_size;}
unsigned int EKF_GetGpsStateSize(const EKF & self) {return self.m_gps_state_size;}
unsigned int EKF_GetCamStateSize(const EKF & self) {return self.m_cam_state_size;}
unsigned int EKF_GetAugStateSize(const EKF & self) {return self.m_aug_state_size;}
unsigned int EKF_GetImuCount(const EKF & self) {return self.m_state.imu_states.size();}
unsigned int EKF_GetGpsCount(const EKF & self) {return self.m_state.gps_states.size();}
unsigned int EKF_GetCamCount(const EKF & self) {return self.m_state.cam_states.size();}
unsigned int EKF_GetImuStateStart(const EKF & self) {return self.m_imu_state_start;}
unsigned int EKF_GetGpsStateStart(const EKF & self) {return self.m_gps_state_start;}
unsigned int EKF_GetCamStateStart(const EKF & self) {return self.m_cam_state_start;}
unsigned int EKF_GetFidStateStart(const EKF & self) {return self.m_fid_state_start;}
unsigned int EKF_GetAugStateStart(const EKF & self) {return self.m_aug_state_start;}
bool EKF_GetUseRootCovariance(const EKF & self) {return self.m_use_root_covariance;}
bool EKF_GetUseFirstEstimateJacobian(const EKF & self) {return self.m_use_first_estimate_jacobian;}
double EKF_GetMotionDetectionChiSquared(const EKF & self) {return self.m_motion_detection_chi_squared;}
double EKF_GetImuNoiseScaleFactor(const EKF & self) {return self.m_imu_noise_scale_factor;}
ImuState EKF_GetImuState(const EKF & self, unsigned int id)
{
  return self.m_state.imu_states.count(id) ? self.m_state.imu_states.at(id) : ImuState();
}
GpsState EKF_GetGpsState(const EKF & self, unsigned int id)
{
  return self.m_state.gps_states.count(id) ? self.m_state.gps_states.at(id) : GpsState();
}
CamState EKF_GetCamState(const EKF & self, unsigned int id)
{
  return self.m_state.cam_states.count(id) ? self.m_state.cam_states.at(id) : CamState();
}

// ---------------------------------------------------------------- clones
static AugState clone_now(const EKF & self, unsigned int frame)
{
  AugState s;
  s.time = self.m_current_time;
  s.frame_id = frame;
  s.pos_b_in_l = self.m_state.body_state.pos_b_in_l;
  s.ang_b_to_l = self.m_state.body_state.ang_b_to_l;
  return s;
}

static void log_clone(EKF & self)
{
  std::stringstream row;
  row << self.m_current_time << VectorToCommaString(self.m_state.body_state.pos_b_in_l) <<
    QuaternionToCommaString(self.m_state.body_state.ang_b_to_l);
  self.m_augmentation_logger.Log(row.str());
}

// the clone of a state has the covariance, and the correlation with everything else, of the position and orientation it copies
Eigen::MatrixXd EKF_AugmentCovariance(const EKF & self, const Eigen::MatrixXd & in, unsigned int at)
{
  unsigned int n = in.rows(), m = in.cols();
  Eigen::MatrixXd out = Eigen::MatrixXd::Zero(n + 6, m + 6);
  if (self.m_use_root_covariance) {
    out.block(0, 0, at, at) = in.block(0, 0, at, at);
    out.block(0, at, 3, 3) = in.block(0, 0, 3, 3);
    out.block(0, at + 3, 12, 3) = in.block(0, 9, 12, 3);
    out.block(0, at + 6, n, m - at) = in.block(0, at, n, m - at);
    return out;
  }
  out.block(0, 0, at, at) = in.block(0, 0, at, at);
  out.block(0, at + 6, at, m - at) = in.block(0, at, at, m - at);
  out.block(at + 6, 0, n - at, at) = in.block(at, 0, n - at, at);
  out.block(at + 6, at + 6, n - at, m - at) = in.block(at, at, n - at, m - at);
  out.block(0, at, at, 3) = in.block(0, 0, at, 3);
  out.block(0, at + 3, at, 3) = in.block(0, 9, at, 3);
  out.block(at + 6, at, n - at, 3) = in.block(at, 0, n - at, 3);
  out.block(at + 6, at + 3, n - at, 3) = in.block(at, 9, n - at, 3);
  out.block(at, 0, 3, m + 6) = out.block(0, 0, 3, m + 6);
  out.block(at + 3, 0, 3, m + 6) = out.block(9, 0, 3, m + 6);
  return out;
}

// marginalising a clone drops its columns (and rows) and nothing else
static Eigen::MatrixXd without_clone(const EKF & self, const Eigen::MatrixXd & p, unsigned int at)
{
  if (!self.m_use_root_covariance) {return RemoveFromMatrix(p, at, at, 6);}
  unsigned int n = p.cols();
  Eigen::MatrixXd r = Eigen::MatrixXd::Zero(n, n - 6);
  r.block(0, 0, n, at) = p.block(0, 0, n, at);
  r.block(0, at, n, n - at - 6) = p.block(0, at + 6, n, n - at - 6);
  return QR_r(r.block(0, 0, n - 6, n - 6), r.block(n - 6, 0, 6, n - 6));
}

void EKF_AugmentForFrame(EKF & self, unsigned int camera, unsigned int frame)
{
  self.m_frame_received_since_last_aug = true;
  bool wanted = self.m_augmenting_type == AugmentationType::ALL ||
    (self.m_augmenting_type == AugmentationType::PRIMARY && camera == self.m_primary_camera_id);
  if (!wanted) {return;}
  std::vector<AugState> & clones = self.m_state.aug_states[camera];
  clones.push_back(clone_now(self, frame));
  if (clones.size() > self.m_max_track_length) {
    unsigned int at = clones[0].index;
    clones.erase(clones.begin());
    self.m_cov = without_clone(self, self.m_cov, at);
  } else {
    self.m_aug_state_size += 6;
    self.m_state_size += 6;
  }
  self.RefreshIndices();
  self.m_cov = self.AugmentCovariance(self.m_cov, clones.back().index);
  log_clone(self);
}

void EKF_AugmentPeriodically(EKF & self)
{
  if (
    self.m_augmenting_type == AugmentationType::NONE || self.m_augmenting_type == AugmentationType::ALL ||
    self.m_augmenting_type == AugmentationType::PRIMARY) {return;}
  std::vector<AugState> & clones = self.m_state.aug_states[0];
  bool needed = clones.empty();
  if (!needed && self.m_augmenting_type == AugmentationType::TIME) {
    needed = std::abs(self.m_current_time - self.m_augmenting_prev_time) > self.m_augmenting_delta_time;
  } else if (!needed) {
    AugState last = clones.back();
    double age = self.m_current_time - last.time;
    if (age > self.m_max_track_duration) {
      needed = true;
    } else if (age > self.m_min_aug_period) {
      const BodyState & b = self.m_state.body_state;
      Eigen::Vector3d dp = b.pos_b_in_l - age * b.vel_b_in_l - last.pos_b_in_l;
      Eigen::Vector3d da = QuatToRotVec(
        b.ang_b_to_l * RotVecToQuat(Eigen::Vector3d(age * b.ang_vel_b_in_l)).inverse() * last.ang_b_to_l.inverse());
      needed = dp.norm() > self.m_augmenting_pos_error || da.norm() > self.m_augmenting_ang_error;
    }
  }
  // drop what is older than the track window (a clone is kept while its successor is within the window)
  for (int i = static_cast<int>(clones.size()) - 2; i >= 0; --i) {
    if (self.m_current_time - clones[i + 1].time > self.m_max_track_duration && static_cast<unsigned int>(i) < clones.size()) {
      self.m_state_size -= 6;
      self.m_aug_state_size -= 6;
      unsigned int at = clones[i].index;
      clones.erase(clones.begin() + i);
      self.m_cov = without_clone(self, self.m_cov, at);
      self.RefreshIndices();
    }
  }
  if (needed && self.m_frame_received_since_last_aug) {
    self.m_augmenting_prev_time = self.m_current_time;
    clones.push_back(clone_now(self, 0));
    self.m_state_size += 6;
    self.m_aug_state_size += 6;
    self.RefreshIndices();
    self.m_cov = self.AugmentCovariance(self.m_cov, clones.back().index);
    log_clone(self);
    self.m_frame_received_since_last_aug = false;
  }
}

AugState EKF_GetAugState(EKF & self, unsigned int camera, unsigned int frame, double time)
{
  AugState out;
  bool own = self.m_augmenting_type == AugmentationType::ALL ||
    (self.m_augmenting_type == AugmentationType::PRIMARY && camera == self.m_primary_camera_id);
  if (own) {
    for (auto const & c : self.m_state.aug_states[camera]) {
      if (c.frame_id == frame) {out = c;}
    }
    return out;
  }
  unsigned int key = self.m_augmenting_type == AugmentationType::PRIMARY ? self.m_primary_camera_id : 0;
  const std::vector<AugState> & clones = self.m_state.aug_states[key];
  double alpha = 0;
  AugState before, after;
  if (time < clones[0].time) {
    before = clones[0];
  } else if (time < clones.back().time) {
    for (unsigned int i = 0; i < clones.size() - 1; ++i) {
      if (clones[i].time <= time && time <= clones[i + 1].time) {
        alpha = (time - clones[i].time) / (clones[i + 1].time - clones[i].time);
        before = clones[i];
        after = clones[i + 1];
      }
    }
  } else {
    before = clones.back();
    after.pos_b_in_l = self.m_state.body_state.pos_b_in_l;
    after.ang_b_to_l = self.m_state.body_state.ang_b_to_l;
    if (self.m_current_time > clones.back().time) {
      alpha = (time - clones.back().time) / (self.m_current_time - clones.back().time);
    }
  }
  out.pos_b_in_l = before.pos_b_in_l + alpha * (after.pos_b_in_l - before.pos_b_in_l);
  out.ang_b_to_l = before.ang_b_to_l.slerp(alpha, after.ang_b_to_l);
  out.time = time;
  out.index = before.index;
  out.alpha = alpha;
  return out;
}

void EKF_SetMaxTrackLength(EKF & self, unsigned int n)
{
  self.m_max_track_length = n;
  self.m_max_track_duration = n * self.m_max_frame_period;
}

// ---------------------------------------------------------------- correction
void Updater_KalmanUpdate(
  EKF & ekf, const Eigen::MatrixXd & h, const Eigen::VectorXd & r, const Eigen::MatrixXd & noise)
{
  Eigen::MatrixXd p = ekf.m_cov;
  Eigen::MatrixXd eye = Eigen::MatrixXd::Identity(p.rows(), p.cols());
  if (ekf.m_use_root_covariance) {
    Eigen::MatrixXd root_noise = noise.cwiseSqrt();
    Eigen::MatrixXd s = QR_r(p * h.transpose(), root_noise);
    Eigen::MatrixXd k = p.transpose() * p * h.transpose() * (s.transpose() * s).inverse();
    ekf.m_state += Eigen::VectorXd(k * r);
    ekf.m_cov = QR_r(p * (eye - k * h).transpose(), root_noise * k.transpose());
  } else {
    Eigen::MatrixXd s = h * p * h.transpose() + noise;
    Eigen::MatrixXd k = p * h.transpose() * s.inverse();
    ekf.m_state += Eigen::VectorXd(k * r);
    ekf.m_cov = (eye - k * h) * p * (eye - k * h).transpose() + k * noise * k.transpose();
  }
}

}  // namespace spec
