// Frames on the earth: geodetic, earth-centred, east-north-up, local; and finding the local frame from GPS fixes.
#include "common.hpp"
#include <cmath>
#include <iostream>
#include "utility/gps_helper.hpp"
namespace spec {

// WGS84
const double A = 6378137.0;
const double F = 3.35281066474748071998e-3;
const double E = 8.18191908426214947083e-2;
const double RAD = M_PI / 180.0;

Eigen::Vector3d F_lla_to_ecef(const Eigen::Vector3d & lla)
{
  double lat = lla[0] * RAD;
  double lon = lla[1] * RAD;
  if (lla[0] < -90 || lla[0] > 90 || lla[1] < -180 || lla[1] > 180) {
    std::cout << "WGS lat or WGS lon out of range" << std::endl;
    return Eigen::Vector3d::Zero();
  }
  double e2 = F * (2 - F);
  double n = A / std::sqrt(1 - e2 * std::sin(lat) * std::sin(lat));
  return Eigen::Vector3d(
    (n + lla[2]) * std::cos(lat) * std::cos(lon),
    (n + lla[2]) * std::cos(lat) * std::sin(lon),
    (n * (1 - e2) + lla[2]) * std::sin(lat));
}

// rows: east, north and up in the earth-centred frame
Eigen::Matrix3d axes(const Eigen::Vector3d & ref)
{
  double lat = ref[0] * RAD;
  double lon = ref[1] * RAD;
  Eigen::Matrix3d m;
  m << -std::sin(lon), std::cos(lon), 0,
    -std::sin(lat) * std::cos(lon), -std::sin(lat) * std::sin(lon), std::cos(lat),
    std::cos(lat) * std::cos(lon), std::cos(lat) * std::sin(lon), std::sin(lat);
  return m;
}

Eigen::Vector3d F_ecef_to_enu(const Eigen::Vector3d & p, const Eigen::Vector3d & ref) {return axes(ref) * (p - lla_to_ecef(ref));}
Eigen::Vector3d F_enu_to_ecef(const Eigen::Vector3d & p, const Eigen::Vector3d & ref) {return axes(ref).transpose() * p + lla_to_ecef(ref);}
Eigen::Vector3d F_lla_to_enu(const Eigen::Vector3d & p, const Eigen::Vector3d & ref) {return ecef_to_enu(lla_to_ecef(p), ref);}
Eigen::Vector3d F_enu_to_lla(const Eigen::Vector3d & p, const Eigen::Vector3d & ref) {return ecef_to_lla(enu_to_ecef(p, ref));}

// Olson, Accurate conversion of earth-fixed earth-centred coordinates to geodetic coordinates
Eigen::Vector3d F_ecef_to_lla(const Eigen::Vector3d & x)
{
  double e2 = E * E;
  double e4 = e2 * e2;
  double w2 = x[0] * x[0] + x[1] * x[1];
  double m = w2 / (A * A);
  double n = x[2] * x[2] * (1 - e2) / (A * A);
  double p = (m + n - e4) / 6;
  double G = m * n * e4 / 4;
  double H = 2 * p * p * p + G;
  double C = std::pow(H + G + 2 * std::sqrt(H * G), 1.0 / 3.0) * (1 / std::pow(2.0, 1.0 / 3.0));
  double i = -e4 / 4 - (m + n) / 2;
  double beta = i / 3 - C - p * p / C;
  double k = e4 / 4 * (e4 / 4 - (m + n));
  double s = std::sqrt(std::fabs((beta - i) / 2));
  double t = std::sqrt(std::sqrt(beta * beta - k) - (beta + i) / 2) + (m < n ? s : -s);
  double g = e2 * (m - n);
  double dt = -(t * t * t * t + 2 * i * t * t + g * t + k) / (4 * t * t * t + 4 * i * t + g);
  double u = t + dt + e2 / 2;
  double v = t + dt - e2 / 2;
  double w = std::sqrt(w2);
  double dw = w - w * v / (u * v);
  double dz = x[2] - x[2] * u * (1 - e2) / (u * v);
  double da = std::sqrt(dw * dw + dz * dz);
  return Eigen::Vector3d(std::atan2(x[2] * u, w * v) / RAD, std::atan2(x[1], x[0]) / RAD, u < 1 ? -da : da);
}

// the local frame is the east-north-up frame turned about the vertical
Eigen::Matrix3d heading(double a)
{
  Eigen::Matrix3d m;
  m << std::cos(a), -std::sin(a), 0, std::sin(a), std::cos(a), 0, 0, 0, 1;
  return m;
}

Eigen::Vector3d F_enu_to_local(const Eigen::Vector3d & p, double a) {return heading(a) * p;}
Eigen::Vector3d F_local_to_enu(const Eigen::Vector3d & p, double a) {return heading(a).transpose() * p;}

double F_wgs84_m_to_deg(double meters) {return meters / A / RAD;}

// ---------------------------------------------------------------- the local frame from GPS fixes
void EKF_SetGpsReference(EKF & self, const Eigen::VectorXd & pos, double angle)
{
  self.m_is_lla_initialized = true;
  self.m_ang_l_to_e = angle;
  self.m_pos_e_in_g = pos;
}

Eigen::VectorXd EKF_GetReferenceLLA(const EKF & self) {return self.m_pos_e_in_g;}
double EKF_GetReferenceAngle(const EKF & self) {return self.m_ang_l_to_e;}
bool EKF_IsLlaInitialized(const EKF & self) {return self.m_is_lla_initialized;}
std::vector<double> EKF_GetGpsTimeVector(const EKF & self) {return self.m_gps_time_vec;}
std::vector<Eigen::Vector3d> EKF_GetGpsEcefVector(const EKF & self) {return self.m_gps_ecef_vec;}
std::vector<Eigen::Vector3d> EKF_GetGpsXyzVector(const EKF & self) {return self.m_gps_xyz_vec;}

void EKF_AttemptGpsInitialization(EKF & self, double time, const Eigen::Vector3d & lla)
{
  self.m_gps_time_vec.push_back(time);
  self.m_gps_ecef_vec.push_back(lla_to_ecef(lla));
  self.m_gps_xyz_vec.push_back(self.m_state.body_state.pos_b_in_l);
  if (self.m_gps_time_vec.size() < 4) {return;}

  Eigen::Vector3d ref = ecef_to_lla(average_vectors(self.m_gps_ecef_vec));
  std::vector<Eigen::Vector3d> enu;
  for (auto & p : self.m_gps_ecef_vec) {enu.push_back(ecef_to_enu(p, ref));}

  Eigen::Affine3d enu_to_l;
  double pos_dev;
  double ang_dev;
  bool ok = kabsch_2d(self.m_gps_xyz_vec, enu, enu_to_l, pos_dev, ang_dev);
  bool found = false;
  if (self.m_gps_init_type == GpsInitType::BASELINE_DIST) {
    found = maximum_distance(enu) > self.m_gps_init_baseline_dist;
  } else if (self.m_gps_init_type == GpsInitType::ERROR_THRESHOLD) {
    found = ok && pos_dev < self.m_gps_init_pos_thresh && ang_dev != 0 && ang_dev < std::tan(self.m_gps_init_ang_thresh);
  }
  if (found) {
    self.m_pos_e_in_g = enu_to_lla(enu_to_l.inverse().translation(), ref);
    self.m_ang_l_to_e = affine_angle(enu_to_l);
    self.m_is_lla_initialized = true;
  }
}

}  // namespace spec
