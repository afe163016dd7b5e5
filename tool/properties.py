NOTES = ('Every check reads /repo\'s working tree with a libTooling dumper (built by setup.sh), summarises each anchored function as terms over its inputs '
         'and compares it with a reference definition in /verif/spec. Nothing of /repo is executed.')
NOTE = ('For every input the analysed functions compute the same values, state changes and ordered effects as the reference definitions in /verif/spec/%s; '
        'equality of terms is decided by normalisation and identity testing. Assumes exact real arithmetic, non-wrapping unsigned arithmetic, no aliasing between '
        'distinct parameters, and the library models in /verif/sa/libmodel.py. Obligations that cannot be decided are reported as undecided, not as violations.')
ALL = 'inputs configurations'
EKF = 'src/ekf/ekf.cpp'

prop('P01', 'One layout of the state vector, used by every reader and writer',
     'The state vector has one layout: body quantities first, then every calibrated IMU, GPS antenna, camera, fiducial and pose clone, each group in identifier order. '
     'Its reported size, writing it out, reading it back, adding a correction to it and the start index of every block in the covariance and process noise all agree with that '
     'layout for every combination of sensors and calibration switches.',
     ALL, 'every set of registered sensors, every combination of their calibration switches, every number of clones, every state value and correction',
     'Tests use one sensor of each kind with every switch on; the layout has to agree for all combinations and counts.',
     'src/ekf/types.cpp src/ekf/types.hpp src/ekf/ekf.cpp',
     [('State::ToVector, State::SetState, State::GetStateSize', 'src/ekf/types.cpp'), ('operator+= on states', 'src/ekf/types.cpp'), ('EKF::RefreshIndices', EKF)],
     ['State', 'EKF::m_process_noise'], ['State vector, state size, block indices'], NOTE % 'layout.cpp')

prop('P02', 'Registering a sensor extends state and covariance consistently',
     'Registering an IMU, GPS antenna, camera or fiducial adds its state under its identifier and gives it, at the position the layout assigns to it, its own initial covariance with no '
     'correlation to anything else. Everything already in the filter keeps its values, its uncertainty and its correlations, whatever was registered before, in covariance and in square-root form.',
     'inputs configurations histories', 'every order of registrations, every initial state and covariance, with and without calibration, covariance or square-root form',
     'Tests register a few sensors in one order and look at sizes only; correctness depends on the order of registrations and on what the covariance already holds.',
     'src/ekf/ekf.cpp src/utility/math_helper.cpp',
     [('EKF::RegisterIMU/RegisterGPS/RegisterCamera/RegisterFiducial', EKF), ('InsertInMatrix, RemoveFromMatrix', 'src/utility/math_helper.cpp')],
     ['EKF::m_state', 'EKF::m_cov'], ['State and covariance after a registration'], NOTE % 'filter.cpp')

prop('P03', 'Pose clones are added, kept, found and dropped consistently',
     'A pose clone copies the body pose and its correlations into the state and covariance; it is added for a camera frame or on the periodic schedule, and the oldest clones are dropped '
     'once they are beyond the configured track length, removing exactly their rows and columns from the covariance. Looking up a clone for a camera, frame or time returns the matching clone, '
     'or the interpolation between its two neighbours in time.',
     'inputs configurations histories', 'every history of frames and times, every augmentation mode, track length and number of clones, covariance or square-root form',
     'The clone list is a growing and shrinking history; tests take one or two steps of it.',
     'src/ekf/ekf.cpp', [('EKF::AugmentStateIfNeeded', EKF), ('EKF::AugmentCovariance', EKF), ('EKF::GetAugState', EKF), ('EKF::SetMaxTrackLength', EKF)],
     ['EKF::m_state.aug_states', 'EKF::m_cov'], ['Clone list, covariance, looked-up clone'], NOTE % 'filter.cpp')

prop('P04', 'Duplicates are rejected and reading never changes the filter',
     'Registering a sensor identifier twice leaves the filter unchanged. Asking the filter for a state, a size, a start index, a count or a setting returns the stored value and never changes the filter, '
     'also for an identifier that was never registered.',
     'inputs configurations histories', 'every filter state, every known and unknown identifier, every order of registrations and reads',
     'A read that inserts a default entry is invisible until a later operation walks the containers; tests read only existing identifiers.',
     'src/ekf/ekf.cpp src/ekf/ekf.hpp', [('EKF getters', EKF), ('EKF::Register*', EKF)], ['EKF::m_state'], ['Return values, filter state'], NOTE % 'filter.cpp')

prop('P05', 'Filter time starts at the first measurement and never runs backwards',
     'The filter clock starts with the first measurement, whose time becomes its reference, and every later time is measured from that reference. Propagating to a time that lies before the current one leaves state, covariance '
     'and clock unchanged; otherwise the clock becomes exactly the requested time.',
     'inputs histories', 'every sequence of measurement times, including repeated and out-of-order ones',
     'Tests feed increasing times; late, repeated and first messages need every history.',
     'src/ekf/ekf.cpp', [('EKF::CalculateLocalTime', EKF), ('EKF::PredictModel', EKF), ('EKF::Initialize', EKF)],
     ['EKF::m_current_time', 'EKF::m_time_initialized', 'EKF::m_reference_time'], ['Filter time, state'], NOTE % 'filter.cpp')

prop('P06', 'Propagation follows the constant-acceleration, constant-rate body model',
     'Moving the filter forward by a time step applies the body motion model to the body state only, leaves sensor calibrations and clones untouched, and moves the covariance with the matching transition matrix and the '
     'process noise scaled by the step, in covariance and in square-root form alike. Process noise lies only on the body and calibration entries it is configured for.',
     'inputs configurations', 'every state, covariance, time step, sensor set, process noise and both covariance forms',
     'Tests propagate a handful of states by one step; the model has to hold for all states, steps and both covariance forms.',
     'src/ekf/ekf.cpp', [('EKF::PredictModel', EKF), ('EKF::GetStateTransition', EKF), ('EKF::SetBodyProcessNoise', EKF)],
     ['EKF::m_state', 'EKF::m_cov', 'EKF::m_process_noise'], ['State and covariance after propagation'], NOTE % 'filter.cpp')

prop('P07', 'A measurement update is the Kalman update in both covariance forms',
     'Given a residual, a measurement Jacobian and a measurement noise, the correction, the new state and the new covariance are those of the Kalman filter. The covariance form and the square-root form describe the same update.',
     'inputs configurations', 'every residual, Jacobian, noise, covariance and both covariance forms',
     'Tests compare a few numbers after whole scenarios; the algebra has to hold for every dimension and value.',
     'src/ekf/update/updater.cpp', [('Updater::KalmanUpdate', 'src/ekf/update/updater.cpp')], ['EKF::m_state', 'EKF::m_cov'], ['State and covariance after an update'], NOTE % 'filter.cpp')

prop('P08', 'IMU measurements are modelled and used consistently',
     'The predicted IMU measurement is what an IMU with the estimated extrinsics and biases would read on the estimated body, gravity included, and the Jacobian places each block in the columns of the state it belongs to. '
     'The update propagates to the measurement time, weighs the measurement with its scaled noise, and treats the platform as stationary only when the chi-squared score of its motion is below the configured threshold.',
     'inputs configurations', 'every state, IMU set, calibration switch combination, reading and threshold',
     'Block positions depend on which sensors are calibrated; tests use single configurations and only check that nothing crashes.',
     'src/ekf/update/imu_updater.cpp', [('ImuUpdater', 'src/ekf/update/imu_updater.cpp')], ['EKF::m_state', 'EKF::m_cov'], ['Residual, Jacobian, noise given to the Kalman update'], NOTE % 'updaters.cpp')

prop('P09', 'GPS measurements are modelled and used consistently',
     'The predicted GPS position is that of the estimated antenna on the estimated body, its Jacobian fills exactly the columns of body position, body orientation and, if calibrated, the antenna offset, and the '
     'measurement is weighed with the noise reported with it. A GPS fix updates the filter only after the local frame has been initialised, at the time it was taken.',
     'inputs configurations histories', 'every state, antenna set, calibration switch, fix and noise',
     'Tests update a filter with a few fixes and one antenna.',
     'src/ekf/update/gps_updater.cpp', [('GpsUpdater', 'src/ekf/update/gps_updater.cpp')], ['EKF::m_state', 'EKF::m_cov'], ['Residual, Jacobian, noise given to the Kalman update'], NOTE % 'updaters.cpp')

prop('P10', 'Fiducial detections are modelled and used consistently',
     'The predicted pose of a fiducial in a camera is the one that follows from the estimated body clone at the frame, the camera extrinsics and the fiducial pose, and residual and Jacobian agree with it in sign, frame and columns. '
     'Each detection is used with its own noise and corrects the filter at the time of its frame.',
     'inputs configurations', 'every state, camera, fiducial, calibration switch combination and detection',
     'Sign and frame errors converge in tests that start at the truth.',
     'src/ekf/update/fiducial_updater.cpp', [('FiducialUpdater', 'src/ekf/update/fiducial_updater.cpp')], ['EKF::m_state', 'EKF::m_cov'], ['Residual, Jacobian, noise given to the Kalman update'], NOTE % 'updaters.cpp')

prop('P11', 'Camera feature tracks are modelled and used consistently',
     'A finished feature track is triangulated from the clones of its frames, and every observation contributes its reprojection residual and the Jacobian blocks of its own clone, the camera extrinsics and the feature, in the columns the layout gives them. '
     'The feature position is projected out before the update, and tracks that are too short or triangulate badly are skipped without changing the filter.',
     'inputs configurations histories', 'every set of feature tracks, clones, cameras, intrinsics and distortion parameters',
     'Each track has its own length, frames and validity; tests feed a few hand-made tracks.',
     'src/ekf/update/msckf_updater.cpp', [('MsckfUpdater', 'src/ekf/update/msckf_updater.cpp')], ['EKF::m_state', 'EKF::m_cov'], ['Residual, Jacobian, noise given to the Kalman update'], NOTE % 'updaters.cpp')

prop('P12', 'Every data-log row matches its header',
     'Each data log starts with a header that names its columns, and every row written to it has exactly those columns, in that order, holding the quantity the column names, for every number of sensors and every calibration switch.',
     'inputs configurations histories', 'every sensor set, calibration switch combination, logging rate and history of updates',
     'Tests never read the logs back; the number of columns depends on the configuration.',
     'src/ekf/update/imu_updater.cpp src/ekf/update/gps_updater.cpp src/ekf/update/fiducial_updater.cpp src/ekf/update/msckf_updater.cpp src/ekf/ekf.cpp src/utility/string_helper.cpp',
     [('Update functions of each updater', 'src/ekf/update'), ('Log header definitions in the constructors', 'src/ekf/update')], ['DataLogger::m_log_header'], ['Lines of the log files'], NOTE % 'updaters.cpp')

LOGH = 'src/infrastructure/data_logger.cpp'
prop('P13', 'Loggers write exactly what they are told to, at the configured rate',
     'A data log creates its file with its header before its first line, writes nothing while it is disabled, and writes a rate-limited line exactly when it is the first one or the '
     'lines written so far are fewer than rate times the time since the first one, for any time origin; a rate of zero means no limit. Lines reach the file in the order of the calls, unchanged. The debug log writes a message exactly when its level is enabled.',
     'inputs histories', 'every sequence of log calls, every log rate, every time stamp, any switch of enabling, directory, file name or header in between',
     'Tests log a few lines at fixed times; the rate limit depends on the whole history of times.',
     'src/infrastructure/data_logger.cpp src/infrastructure/debug_logger.cpp', [('DataLogger', LOGH), ('DebugLogger', 'src/infrastructure/debug_logger.cpp')],
     ['DataLogger::m_initialized', 'DataLogger::m_time_init', 'DataLogger::m_log_count'], ['Lines of the log files'], NOTE % 'logging.cpp')

prop('P14', 'A simulation is a function of its seed',
     'Every random number of a simulation comes from the one seeded generator: after setting the same seed the same sequence of draws follows, a draw has the requested mean and deviation or range, '
     'and a draw for a vector or rotation uses its own entry of the deviation for every component. No other source of randomness or of wall-clock time influences simulated data.',
     'inputs histories', 'every seed and every sequence of draws', 'A test with one seed cannot tell whether a second source of randomness exists.',
     'src/utility/sim/sim_rng.cpp src/infrastructure/sim src/sensors/sim src/trackers/sim', [('SimRNG', 'src/utility/sim/sim_rng.cpp')], ['SimRNG::m_generator'], ['Simulated messages'], NOTE % 'sim.cpp')

prop('P15', 'Simulated measurements follow the truth and the error switches',
     'Simulated IMU, GPS, camera and fiducial messages carry what the sensor would measure at their time, computed from the truth with the true mounting, bias and intrinsics of that sensor, plus noise of '
     'the configured size exactly when errors are enabled. Without errors the measurement is exact. Measurement times cover the run at the sensor rate, starting at an offset within one period when errors are enabled, '
     'and a feature is reported exactly while it is in front of the camera and in the image.',
     'inputs configurations', 'every truth trajectory, sensor configuration, error switch and time', 'Each message depends on pose, mounting and switches together; tests look at message counts.',
     'src/sensors/sim src/trackers/sim', [('SimIMU, SimGPS, SimCamera', 'src/sensors/sim'), ('SimFeatureTracker, SimFiducialTracker', 'src/trackers/sim')], ['TruthEngine'], ['Generated messages'], NOTE % 'sim.cpp')

GPSH = 'src/utility/gps_helper.cpp'
prop('P16', 'Earth-frame conversions follow the WGS-84 definitions',
     'Conversions between geodetic, earth-centred, east-north-up and local coordinates follow the WGS-84 ellipsoid and the given reference point and heading; each conversion and its counterpart use the same reference, '
     'axes and sign of rotation, and altitudes and references are carried through.',
     'inputs', 'every position, reference point and heading', 'Tests sample a few points; a wrong sign or a swapped axis in one branch shows only in one region.',
     GPSH, [('lla_to_ecef, ecef_to_lla, ecef_to_enu, enu_to_ecef, lla_to_enu, enu_to_lla, enu_to_local, local_to_enu', GPSH)], ['none'], ['Converted coordinates'], NOTE % 'geo.cpp')

prop('P17', 'The GPS reference is initialised once, from enough well-spread data',
     'The reference frame is taken from the GPS history only once the configured conditions on error or baseline distance hold, and then exactly once; each stored GPS fix is paired with the filter position at its own time, and the '
     'origin and heading that result map the stored fixes onto the local trajectory. Until then no GPS fix corrects the filter, and a reference given by the configuration is used as it is.',
     'inputs configurations histories', 'every history of GPS fixes and filter positions, every initialisation type and threshold', 'Tests use a single straight trajectory; the decision depends on the whole history.',
     'src/ekf/ekf.cpp src/utility/gps_helper.cpp', [('EKF::AttemptGpsInitialization, EKF::SetGpsReference', EKF)], ['EKF::m_pos_e_in_g', 'EKF::m_ang_l_to_e', 'EKF::m_is_lla_initialized'], ['Reference, heading, initialised flag'], NOTE % 'geo.cpp')

FT = 'src/trackers/feature_tracker.cpp'
prop('P18', 'A feature track lists one feature over consecutive frames',
     'A key point matched between two frames carries the identifier of the feature in the previous frame, or a new one never used before if it had none. Each track holds the frames, times and key points of exactly one feature in '
     'order; when it has ended or reached its maximal length it is removed, and handed to the filter exactly once if it has the minimal length. Only matches that pass every configured test (ratio, symmetry, distance, epipolar) extend a track.',
     'inputs histories', 'every sequence of frames, key points and matches', 'Which tracks end depends on the history of matches over many frames; tests use two images.',
     FT, [('FeatureTracker::Track and its match tests', FT)], ['FeatureTracker::m_feature_track_map', 'FeatureTracker::m_prev_key_points'], ['Feature tracks given to the updater'], NOTE % 'sensors.cpp')

prop('P19', 'Sensors register themselves and every message reaches its own updater',
     'Each sensor has a unique identifier and registers its state and covariance with the filter under it, with the parameters it was constructed with. A message is delivered to the updater of its sensor, with the noise, calibration and '
     'timing of that sensor; a camera frame augments the filter before its trackers run and goes to the tracker or fiducial it names. Messages are processed in time order.',
     'inputs configurations histories', 'every set of sensors and parameters and every sequence of messages', 'Mixed-up identifiers or parameters show only with several sensors of one kind.',
     'src/sensors src/trackers', [('IMU, GPS, Camera constructors and Callback', 'src/sensors'), ('MessageCompare', 'src/sensors/sensor.cpp')], ['EKF'], ['Registrations and updater calls'], NOTE % 'sensors.cpp')

MH = 'src/utility/math_helper.cpp'
prop('P21', 'Vector, matrix and rotation helpers compute their definitions',
     'The shared helpers return what their names define for every input: skew matrices, left-nullspace projection and measurement compression, bounds, quaternion Jacobians, rotation-vector and Rodrigues conversions and their inverses, averages, '
     'deviations and distances of point sets, planar alignment of point sets, conversion of parameter lists and between matrix libraries, without dropping, reordering or inventing entries.',
     'inputs', 'every vector, matrix, rotation and list, of every size', 'Tests use one small example each; sizes, zero rows and degenerate rotations are not covered.',
     'src/utility/math_helper.cpp src/utility/type_helper.cpp', [('math helpers', MH), ('type helpers', 'src/utility/type_helper.cpp')], ['none'], ['Return values'], NOTE % 'math.cpp')

FD = 'src/trackers/fiducial_tracker.cpp'
prop('P24', 'Fiducial boards give one pose per valid detection',
     'A frame in which a board is detected with a valid pose gives exactly one detection, carrying the frame, the pose of the board in the camera and the noise of the tracker, and it corrects the filter; a frame without a valid pose changes nothing. '
     'The board type selects how corners are interpolated and the pose is estimated, and the camera matrix and distortion given to the estimation are those of the camera that took the frame.',
     'inputs configurations', 'every frame, board type and camera', 'Needs images of each board type, with and without valid poses.',
     FD, [('FiducialTracker::Track', FD), ('Intrinsics::ToCameraMatrix', 'src/ekf/types.cpp')], ['EKF'], ['Detections given to the updater'], NOTE % 'sensors.cpp')

SIM = 'src/application/sim/simulation.cpp'
prop('P20', 'Every configuration entry reaches the parameter it names',
     'A simulation run takes each entry of its configuration file to exactly the parameter of the sensor, tracker, filter or truth engine it is documented for, with the stated default when it is absent, for every sensor listed. '
     'Filter, truth, sensors and trackers are built and connected before messages are generated; each sensor generates its own messages; all messages are handed to their sensors in time order; the truth is written for the same run.',
     'configurations', 'every configuration file: any list of sensors and trackers, any subset of entries present', 'Tests do not run the application; a swapped key or default shows only for one configuration.',
     SIM, [('main', SIM), ('LoadSensorParams, LoadSimSensorParams, LoadTrackerParams, LoadProcessNoise', SIM)], ['parameters of every object'], ['Constructor arguments, order of calls'], NOTE % 'config.cpp')

TE = 'src/infrastructure/sim/truth_engine_'
prop('P22', 'Truth trajectories are consistent motions',
     'At every time the simulated truth is one rigid motion, with the angular rate and angular acceleration of its orientation. The cyclic trajectory rests while stationary; afterwards its velocity is the derivative of its position, its acceleration that of its velocity, and its orientation '
     'is continuous. The spline and smoothed trajectories take position, velocity, acceleration and orientation from the one curve built from the given way points, inside its time '
     'window, and rest outside it.',
     'inputs configurations', 'every time, frequency, amplitude, set of way points and stationary time', 'Tests look at a few instants; derivatives have to match at every time and for every parameter.',
     'src/infrastructure/sim', [('TruthEngineCyclic', TE + 'cyclic.cpp'), ('TruthEngineSpline', TE + 'spline.cpp'), ('TruthEngineSmoother', TE + 'smoother.cpp')], ['truth parameters'], ['Pose, velocity, acceleration, angular rate over time'],
     NOTE % 'truth.cpp')

prop('P23', 'Objects start from defined, documented values',
     'A filter constructed from parameters starts at rest in its initial pose with gravity as specific force, no sensors, the initial uncertainty in the form it uses, uninitialised time, and every option exactly as given; updaters start '
     'with their own identifier, calibration switches and first-estimate state. Every parameter structure, state and message not filled in by the user has its documented default and no undefined value.',
     'inputs configurations', 'every set of constructor parameters, every subset of fields left at its default', 'Undefined or swapped initial values are invisible to tests that set every field or use zero-filled memory.',
     'src/ekf/ekf.hpp src/ekf/ekf.cpp src/ekf/types.hpp src/sensors src/trackers', [('EKF::EKF', EKF), ('Parameters structures', 'src/ekf/ekf.hpp'), ('State structures', 'src/ekf/types.hpp')], ['initial values of all members'], ['Values after construction'], NOTE % 'defaults.cpp')

EST = [('EKF and updaters', EKF)]
na('N01', 'Estimates converge and are consistent', 'With enough excitation the estimated calibration converges to the true values and the errors stay within the reported covariance.', 'inputs histories',
   'every trajectory, sensor set and noise realisation', 'Needs the statistics of long runs.', EKF, EST, ['Errors against reported covariance'],
   'A statistical statement about closed-loop runs over trajectories and noise; no static argument in reach bounds the estimation error. The update equations it rests on are decided under P05 to P11.')
na('N02', 'The covariance stays symmetric and positive in floating point', 'After any sequence of updates the stored covariance is symmetric and positive semi-definite in floating-point arithmetic.', 'histories',
   'every sequence of predictions and updates', 'Depends on accumulated rounding.', EKF, EST, ['EKF::m_cov'],
   'Depends on accumulated rounding of matrix products, QR and inverses inside Eigen; the analysis treats arithmetic as exact. The exact-arithmetic forms are decided under P06 and P07.')
na('N03', 'Updates keep up with the sensor rates', 'Processing a message takes less than the period of its sensor.', 'inputs schedules', 'every load and state size', 'A property of time on the machine it runs on.', EKF, EST, ['Duration columns of the logs'],
   'Execution time depends on the machine and on data-dependent iteration counts in OpenCV and Eigen; not derivable from the source.')
na('N04', 'Triangulated features are accurate', 'A feature seen from enough base line is triangulated close to its true position.', 'inputs', 'every feature, camera path and noise', 'Accuracy of an iterative numerical solution.',
   'src/ekf/update/msckf_updater.cpp', [('MsckfUpdater::TriangulateFeature', 'src/ekf/update/msckf_updater.cpp')], ['Triangulated positions'],
   'Accuracy of a least-squares solution under noise and degenerate geometry is a numerical quantity; that the equations set up are the right ones is decided under P11.')
na('N05', 'Measurement Jacobians are exact derivatives', 'Each measurement Jacobian equals the derivative of the predicted measurement with respect to the error state.', 'inputs', 'every state', 'Needs derivatives at every state.',
   'src/ekf/update', [('GetMeasurementJacobian', 'src/ekf/update')], ['Jacobians'],
   'The filter uses documented small-angle approximations and rotation-vector coordinates, so its Jacobians are not the exact derivatives everywhere; what is decided (P08 to P11) is that they are the documented expressions at the right rows and columns.')
na('N06', 'Geodetic round trips are exact to the metre', 'Converting a position to latitude, longitude and altitude and back returns it within a stated error in floating point.', 'inputs', 'every position on and near the Earth', 'Rounding and truncation of the closed formula everywhere on the globe.',
   'src/utility/gps_helper.cpp', [('ecef_to_lla, lla_to_ecef', 'src/utility/gps_helper.cpp')], ['Converted positions'],
   'The closed-form inverse is approximate and its floating-point error is a numerical bound this analysis does not compute; the formulas are decided under P16.')
na('N07', 'The ROS nodes forward every message', 'The ROS nodes deliver each subscribed message to its sensor and publish the estimate.', 'schedules', 'every arrival of messages', 'Needs a running ROS graph.',
   'src/application/ros src/sensors/ros', [('ROS nodes', 'src/application/ros')], ['Published topics'],
   'The ROS code is not built here and its headers are not installed, so it cannot be type-checked or analysed.')
