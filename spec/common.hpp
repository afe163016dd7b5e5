// Reference models (specifications). They are only ever parsed; nothing in this directory is compiled into a program or run.
#ifndef SPEC_COMMON_HPP_
#define SPEC_COMMON_HPP_
#include <eigen3/Eigen/Eigen>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "ekf/constants.hpp"
#include "ekf/types.hpp"
#include "ekf/ekf.hpp"
#include "ekf/update/updater.hpp"
#include "ekf/update/imu_updater.hpp"
#include "ekf/update/gps_updater.hpp"
#include "ekf/update/fiducial_updater.hpp"
#include "ekf/update/msckf_updater.hpp"
#include "utility/math_helper.hpp"
#include "utility/type_helper.hpp"
#include "utility/string_helper.hpp"
#endif
