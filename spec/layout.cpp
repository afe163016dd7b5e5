// State-vector layout: body, IMUs (extrinsic then intrinsic part), GPS, cameras, fiducials, clones; each map in key order.
// One routine lays the vector out ("where is the k-th quantity"); writing, reading, correcting and indexing all use it.
#include "common.hpp"
namespace spec {

unsigned int State_GetStateSize(const State & self)
{
  unsigned int n = 18;
  for (auto const & s : self.imu_states) {
    n += (s.second.is_extrinsic ? 6 : 0) + (s.second.is_intrinsic ? 6 : 0);
  }
  for (auto const & s : self.gps_states) {n += s.second.is_extrinsic ? 3 : 0;}
  for (auto const & s : self.cam_states) {n += s.second.is_extrinsic ? 6 : 0;}
  for (auto const & s : self.fid_states) {n += s.second.is_extrinsic ? 6 : 0;}
  for (auto const & s : self.aug_states) {n += 6 * s.second.size();}
  return n;
}

static void body_correct(BodyState & b, const Eigen::VectorXd & v)
{
  b.pos_b_in_l = b.pos_b_in_l + v.segment(0, 3);
  b.vel_b_in_l = b.vel_b_in_l + v.segment(3, 3);
  b.acc_b_in_l = b.acc_b_in_l + v.segment(6, 3);
  b.ang_b_to_l = b.ang_b_to_l * RotVecToQuat(v.segment(9, 3));
  b.ang_vel_b_in_l = b.ang_vel_b_in_l + v.segment(12, 3);
  b.ang_acc_b_in_l = b.ang_acc_b_in_l + v.segment(15, 3);
}

BodyState & BodyState_add_vec(BodyState & l, const Eigen::VectorXd & v)
{
  body_correct(l, v);
  return l;
}

BodyState & BodyState_add_state(BodyState & l, const BodyState & r)
{
  l.pos_b_in_l = l.pos_b_in_l + r.pos_b_in_l;
  l.vel_b_in_l = l.vel_b_in_l + r.vel_b_in_l;
  l.acc_b_in_l = l.acc_b_in_l + r.acc_b_in_l;
  l.ang_b_to_l = r.ang_b_to_l * l.ang_b_to_l;
  l.ang_vel_b_in_l = l.ang_vel_b_in_l + r.ang_vel_b_in_l;
  l.ang_acc_b_in_l = l.ang_acc_b_in_l + r.ang_acc_b_in_l;
  return l;
}

static void imu_correct(ImuState & s, const Eigen::VectorXd & v, unsigned int & at)
{
  if (s.is_extrinsic) {
    s.pos_i_in_b = s.pos_i_in_b + v.segment(at, 3);
    s.ang_i_to_b = s.ang_i_to_b * RotVecToQuat(v.segment(at + 3, 3));
    at += 6;
  }
  if (s.is_intrinsic) {
    s.acc_bias = s.acc_bias + v.segment(at, 3);
    s.omg_bias = s.omg_bias + v.segment(at + 3, 3);
    at += 6;
  }
}

ImuState & ImuState_add_vec(ImuState & l, const Eigen::VectorXd & v)
{
  unsigned int at = 0;
  imu_correct(l, v, at);
  return l;
}

std::map<unsigned int, ImuState> & ImuMap_add_vec(std::map<unsigned int, ImuState> & l, const Eigen::VectorXd & v)
{
  unsigned int at = 0;
  for (auto & s : l) {imu_correct(s.second, v, at);}
  return l;
}

static void cam_correct(CamState & s, const Eigen::VectorXd & v, unsigned int & at)
{
  if (s.is_extrinsic) {
    s.pos_c_in_b = s.pos_c_in_b + v.segment(at, 3);
    s.ang_c_to_b = s.ang_c_to_b * RotVecToQuat(v.segment(at + 3, 3));
    at += 6;
  }
}

std::map<unsigned int, CamState> & CamMap_add_vec(std::map<unsigned int, CamState> & l, const Eigen::VectorXd & v)
{
  unsigned int at = 0;
  for (auto & s : l) {cam_correct(s.second, v, at);}
  return l;
}

static void aug_correct(AugState & s, const Eigen::VectorXd & v, unsigned int & at)
{
  s.pos_b_in_l = s.pos_b_in_l + v.segment(at, 3);
  s.ang_b_to_l = s.ang_b_to_l * RotVecToQuat(v.segment(at + 3, 3));
  at += 6;
}

std::vector<AugState> & AugVec_add_vec(std::vector<AugState> & l, const Eigen::VectorXd & v)
{
  unsigned int at = 0;
  for (auto & s : l) {aug_correct(s, v, at);}
  return l;
}

State & State_add_vec(State & l, const Eigen::VectorXd & v)
{
  body_correct(l.body_state, v);
  unsigned int at = 18;
  for (auto & s : l.imu_states) {imu_correct(s.second, v, at);}
  for (auto & s : l.gps_states) {
    if (s.second.is_extrinsic) {
      s.second.pos_a_in_b = s.second.pos_a_in_b + v.segment(at, 3);
      at += 3;
    }
  }
  for (auto & s : l.cam_states) {cam_correct(s.second, v, at);}
  for (auto & s : l.fid_states) {
    if (s.second.is_extrinsic) {
      s.second.pos_f_in_l = s.second.pos_f_in_l + v.segment(at, 3);
      s.second.ang_f_to_l = s.second.ang_f_to_l * RotVecToQuat(v.segment(at + 3, 3));
      at += 6;
    }
  }
  for (auto & cam : l.aug_states) {
    for (auto & s : cam.second) {aug_correct(s, v, at);}
  }
  return l;
}

State & State_add_state(State & l, State & r)
{
  BodyState_add_state(l.body_state, r.body_state);
  for (auto & s : l.imu_states) {
    ImuState & o = r.imu_states[s.first];
    s.second.pos_i_in_b = s.second.pos_i_in_b + o.pos_i_in_b;
    s.second.ang_i_to_b = o.ang_i_to_b * s.second.ang_i_to_b;
    s.second.acc_bias = s.second.acc_bias + o.acc_bias;
    s.second.omg_bias = s.second.omg_bias + o.omg_bias;
  }
  for (auto & s : l.gps_states) {
    s.second.pos_a_in_b = s.second.pos_a_in_b + r.gps_states[s.first].pos_a_in_b;
  }
  for (auto & s : l.cam_states) {
    s.second.pos_c_in_b = s.second.pos_c_in_b + r.cam_states[s.first].pos_c_in_b;
    s.second.ang_c_to_b = r.cam_states[s.first].ang_c_to_b * s.second.ang_c_to_b;
  }
  for (auto & s : l.fid_states) {
    s.second.pos_f_in_l = s.second.pos_f_in_l + r.fid_states[s.first].pos_f_in_l;
    s.second.ang_f_to_l = r.fid_states[s.first].ang_f_to_l * s.second.ang_f_to_l;
  }
  for (auto & s : l.aug_states) {
    for (unsigned int i = 0; i < s.second.size(); ++i) {
      s.second[i].pos_b_in_l = s.second[i].pos_b_in_l + r.aug_states[s.first][i].pos_b_in_l;
      s.second[i].ang_b_to_l = r.aug_states[s.first][i].ang_b_to_l * s.second[i].ang_b_to_l;
    }
  }
  return l;
}

Eigen::VectorXd BodyState_ToVector(const BodyState & self)
{
  Eigen::VectorXd v = Eigen::VectorXd::Zero(18);
  v.segment(0, 3) = self.pos_b_in_l;
  v.segment(3, 3) = self.vel_b_in_l;
  v.segment(6, 3) = self.acc_b_in_l;
  v.segment(9, 3) = QuatToRotVec(self.ang_b_to_l);
  v.segment(12, 3) = self.ang_vel_b_in_l;
  v.segment(15, 3) = self.ang_acc_b_in_l;
  return v;
}

Eigen::VectorXd CamState_ToVector(const CamState & self)
{
  Eigen::VectorXd v = Eigen::VectorXd::Zero(6);
  v.segment(0, 3) = self.pos_c_in_b;
  v.segment(3, 3) = QuatToRotVec(self.ang_c_to_b);
  return v;
}

Eigen::VectorXd AugState_ToVector(const AugState & self)
{
  Eigen::VectorXd v = Eigen::VectorXd::Zero(6);
  v.segment(0, 3) = self.pos_b_in_l;
  v.segment(3, 3) = QuatToRotVec(self.ang_b_to_l);
  return v;
}

Eigen::VectorXd GpsState_ToVector(const GpsState & self)
{
  return self.pos_a_in_b;
}

Eigen::VectorXd ImuState_ToVector(const ImuState & self)
{
  Eigen::VectorXd v = Eigen::VectorXd::Zero(self.size);
  unsigned int at = 0;
  if (self.is_extrinsic) {
    v.segment(0, 3) = self.pos_i_in_b;
    v.segment(3, 3) = QuatToRotVec(self.ang_i_to_b);
    at = 6;
  }
  if (self.is_intrinsic) {
    v.segment(at, 3) = self.acc_bias;
    v.segment(at + 3, 3) = self.omg_bias;
  }
  return v;
}

Eigen::VectorXd FidState_ToVector(const FidState & self)
{
  Eigen::VectorXd v = Eigen::VectorXd::Zero(self.size);
  if (self.is_extrinsic) {
    v.segment(0, 3) = self.pos_f_in_l;
    v.segment(3, 3) = QuatToRotVec(self.ang_f_to_l);
  }
  return v;
}

Eigen::VectorXd State_ToVector(const State & self)
{
  Eigen::VectorXd v = Eigen::VectorXd::Zero(State_GetStateSize(self));
  v.segment(0, 18) = BodyState_ToVector(self.body_state);
  unsigned int at = 18;
  for (auto const & s : self.imu_states) {
    if (s.second.is_extrinsic || s.second.is_intrinsic) {
      v.segment(at, s.second.size) = ImuState_ToVector(s.second);
      at += s.second.size;
    }
  }
  for (auto const & s : self.gps_states) {
    if (s.second.is_extrinsic) {
      v.segment(at, 3) = s.second.pos_a_in_b;
      at += 3;
    }
  }
  for (auto const & s : self.cam_states) {
    if (s.second.is_extrinsic) {
      v.segment(at, 6) = CamState_ToVector(s.second);
      at += 6;
    }
  }
  for (auto const & s : self.fid_states) {
    if (s.second.is_extrinsic) {
      v.segment(at, 6) = FidState_ToVector(s.second);
      at += 6;
    }
  }
  for (auto const & cam : self.aug_states) {
    for (auto const & s : cam.second) {
      v.segment(at, 6) = AugState_ToVector(s);
      at += 6;
    }
  }
  return v;
}

void BodyState_SetState(BodyState & self, const Eigen::VectorXd & v)
{
  self.pos_b_in_l = v.segment(0, 3);
  self.vel_b_in_l = v.segment(3, 3);
  self.acc_b_in_l = v.segment(6, 3);
  self.ang_b_to_l = RotVecToQuat(v.segment(9, 3));
  self.ang_vel_b_in_l = v.segment(12, 3);
  self.ang_acc_b_in_l = v.segment(15, 3);
}

void CamState_SetState(CamState & self, const Eigen::VectorXd & v)
{
  self.pos_c_in_b = v.segment(0, 3);
  self.ang_c_to_b = RotVecToQuat(v.segment(3, 3));
}

void FidState_SetState(FidState & self, const Eigen::VectorXd & v)
{
  self.pos_f_in_l = v.segment(0, 3);
  self.ang_f_to_l = RotVecToQuat(v.segment(3, 3));
}

void ImuState_SetExtrinsicState(ImuState & self, const Eigen::VectorXd & v)
{
  self.pos_i_in_b = v.segment(0, 3);
  self.ang_i_to_b = RotVecToQuat(v.segment(3, 3));
}

void ImuState_SetIntrinsicState(ImuState & self, const Eigen::VectorXd & v)
{
  self.acc_bias = v.segment(0, 3);
  self.omg_bias = v.segment(3, 3);
}

void State_SetState(State & self, const Eigen::VectorXd & v)
{
  BodyState_SetState(self.body_state, v);
  unsigned int at = 18;
  for (auto & s : self.imu_states) {
    if (s.second.is_extrinsic) {
      ImuState_SetExtrinsicState(s.second, v.segment(at, 6));
      at += 6;
    }
    if (s.second.is_intrinsic) {
      ImuState_SetIntrinsicState(s.second, v.segment(at, 6));
      at += 6;
    }
  }
  for (auto & s : self.gps_states) {
    if (s.second.is_extrinsic) {
      s.second.pos_a_in_b = v.segment(at, 3);
      at += 3;
    }
  }
  for (auto & s : self.cam_states) {
    if (s.second.is_extrinsic) {
      CamState_SetState(s.second, v.segment(at, 6));
      at += 6;
    }
  }
  for (auto & s : self.fid_states) {
    if (s.second.is_extrinsic) {
      FidState_SetState(s.second, v.segment(at, 6));
      at += 6;
    }
  }
  for (auto & cam : self.aug_states) {
    for (auto & s : cam.second) {
      s.pos_b_in_l = v.segment(at, 3);
      s.ang_b_to_l = RotVecToQuat(v.segment(at + 3, 3));
      at += 6;
    }
  }
}

void ImuState_SetIsExtrinsic(ImuState & self, bool on)
{
  self.is_extrinsic = on;
  self.size = (on ? 6 : 0) + (self.is_intrinsic ? 6 : 0);
}

void ImuState_SetIsIntrinsic(ImuState & self, bool on)
{
  self.is_intrinsic = on;
  self.size = (self.is_extrinsic ? 6 : 0) + (on ? 6 : 0);
}

void CamState_SetIsExtrinsic(CamState & self, bool on) {self.is_extrinsic = on; self.size = on ? 6 : 0;}
void GpsState_SetIsExtrinsic(GpsState & self, bool on) {self.is_extrinsic = on; self.size = on ? 3 : 0;}
void FidState_SetIsExtrinsic(FidState & self, bool on) {self.is_extrinsic = on; self.size = on ? 6 : 0;}
bool ImuState_GetIsExtrinsic(const ImuState & self) {return self.is_extrinsic;}
bool ImuState_GetIsIntrinsic(const ImuState & self) {return self.is_intrinsic;}
bool CamState_GetIsExtrinsic(const CamState & self) {return self.is_extrinsic;}
bool GpsState_GetIsExtrinsic(const GpsState & self) {return self.is_extrinsic;}
bool FidState_GetIsExtrinsic(const FidState & self) {return self.is_extrinsic;}

// where every block of the state starts in the covariance, and its process noise
void EKF_RefreshIndices(EKF & self)
{
  unsigned int at = 0;
  self.m_state.body_state.index = 0;
  at = 18;
  Eigen::MatrixXd q = Eigen::MatrixXd::Zero(self.m_state_size, self.m_state_size);
  q.block(0, 0, 18, 18) = self.m_body_process_noise.asDiagonal();
  self.m_imu_state_start = at;
  for (auto & s : self.m_state.imu_states) {
    s.second.index = at;
    if (s.second.is_extrinsic) {
      s.second.index_extrinsic = at;
      q.block(at, at, 3, 3) = s.second.pos_stability * Eigen::Matrix3d::Identity();
      q.block(at + 3, at + 3, 3, 3) = s.second.ang_stability * Eigen::Matrix3d::Identity();
      at += 6;
    }
    if (s.second.is_intrinsic) {
      s.second.index_intrinsic = at;
      q.block(at, at, 3, 3) = s.second.acc_bias_stability * Eigen::Matrix3d::Identity();
      q.block(at + 3, at + 3, 3, 3) = s.second.omg_bias_stability * Eigen::Matrix3d::Identity();
      at += 6;
    }
  }
  self.m_gps_state_start = at;
  for (auto & s : self.m_state.gps_states) {
    s.second.index = at;
    if (s.second.is_extrinsic) {
      q.block(at, at, 3, 3) = s.second.pos_stability * Eigen::Matrix3d::Identity();
      at += 3;
    }
  }
  self.m_cam_state_start = at;
  for (auto & s : self.m_state.cam_states) {
    s.second.index = at;
    if (s.second.is_extrinsic) {
      q.block(at, at, 3, 3) = s.second.pos_stability * Eigen::Matrix3d::Identity();
      q.block(at + 3, at + 3, 3, 3) = s.second.ang_stability * Eigen::Matrix3d::Identity();
      at += 6;
    }
  }
  self.m_fid_state_start = at;
  for (auto & s : self.m_state.fid_states) {
    s.second.index = at;
    if (s.second.is_extrinsic) {
      q.block(at, at, 3, 3) = s.second.pos_stability * Eigen::Matrix3d::Identity();
      q.block(at + 3, at + 3, 3, 3) = s.second.ang_stability * Eigen::Matrix3d::Identity();
      at += 6;
    }
  }
  self.m_aug_state_start = at;
  for (auto & cam : self.m_state.aug_states) {
    for (auto & s : cam.second) {
      s.index = at;
      at += 6;
    }
  }
  self.m_process_noise = self.m_use_root_covariance ? Eigen::MatrixXd(q.cwiseSqrt()) : q;
}

}  // namespace spec
