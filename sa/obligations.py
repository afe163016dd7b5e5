"""Which repository function must equal which reference definition, per property."""
import oblig as ob
import rules
import terms as t_

ASSUMPTIONS = [
    'Floating-point arithmetic is treated as exact real arithmetic, unsigned arithmetic as not wrapping.',
    'Library calls (Eigen, the C++ library, OpenCV, yaml-cpp) mean what /verif/sa/libmodel.py says or are uninterpreted functions of their arguments.',
    'Distinct parameters, members and container elements do not alias unless the source shows that they do.',
    'Code under ros/ directories is not built here and not analysed.',
]

TABLE = []
EXTRA = {}


def O(prop, fn, spec, file, name=None, **kw):
    d = dict(kw)
    d.update(property=prop, fn=fn, spec=spec, file=file, name=name or fn)
    d['name'] = d['name'].replace(' ', '_')
    TABLE.append(d)


def R(prop, name, rule, **kw):
    d = dict(kw)
    d.update(property=prop, name=name, rule=rule)
    TABLE.append(d)


def for_property(pid, tier):
    return [o for o in TABLE if o['property'] == pid or pid in o.get('also', ())]


def extra_assumptions(pid):
    return EXTRA.get(pid, [])


# ------------------------------------------------------------------ P01 layout of the state vector
L = 'layout.cpp'
VEC = '=const Eigen::Matrix<double, -1, 1> &'
for c, ms in {
    'State': 'GetStateSize ToVector SetState', 'BodyState': 'ToVector SetState',
    'ImuState': 'ToVector SetExtrinsicState SetIntrinsicState SetIsExtrinsic SetIsIntrinsic GetIsExtrinsic GetIsIntrinsic',
    'CamState': 'ToVector SetState SetIsExtrinsic GetIsExtrinsic', 'GpsState': 'ToVector SetIsExtrinsic GetIsExtrinsic',
    'FidState': 'ToVector SetState SetIsExtrinsic GetIsExtrinsic', 'AugState': 'ToVector', 'EKF': 'RefreshIndices',
}.items():
    for m in ms.split():
        O('P01', c + '::' + m, c + '_' + m, L)
for sp, ty in [('BodyState_add_vec', 'BodyState'), ('ImuState_add_vec', 'ImuState'), ('ImuMap_add_vec', 'std::map<unsigned int, ImuState>'),
               ('CamMap_add_vec', 'std::map<unsigned int, CamState>'), ('AugVec_add_vec', 'std::vector<AugState>'), ('State_add_vec', 'State')]:
    O('P01', 'operator+=', sp, L, name=ty.replace(' ', '') + '+=vector', params=['=' + ty + ' &', VEC])
O('P01', 'operator+=', 'BodyState_add_state', L, name='BodyState+=BodyState', params=['=BodyState &', '=const BodyState &'])
O('P01', 'operator+=', 'State_add_state', L, name='State+=State', params=['=State &', '=State &'])

# ------------------------------------------------------------------ filter core
F = 'filter.cpp'
for m in 'CalculateLocalTime Initialize GetCurrentTime'.split():
    O('P05', 'EKF::' + m, 'EKF_' + m, F)
for m in 'GetStateTransition PredictModel SetBodyProcessNoise SetZeroAcceleration InitializeGravity IsGravityInitialized'.split():
    O('P06', 'EKF::' + m, 'EKF_' + m, F, opaque={'EKF::AugmentStateIfNeeded': ob.opaque_call('EKF::AugmentStateIfNeeded'),
      'EKF::LogBodyStateIfNeeded': ob.silent} if m == 'PredictModel' else {}, also=('P05',) if m == 'PredictModel' else ())
REF = {}
for m in 'RegisterIMU RegisterGPS RegisterCamera RegisterFiducial'.split():
    O('P02', 'EKF::' + m, 'EKF_' + m, F, opaque=REF)
O('P02', 'InsertInMatrix', 'F_InsertInMatrix', F)
O('P02', 'RemoveFromMatrix', 'F_RemoveFromMatrix', F)
for m in ('GetStateSize GetImuStateSize GetGpsStateSize GetCamStateSize GetAugStateSize GetImuCount GetGpsCount GetCamCount GetImuStateStart '
          'GetGpsStateStart GetCamStateStart GetFidStateStart GetAugStateStart GetUseRootCovariance GetUseFirstEstimateJacobian '
          'GetMotionDetectionChiSquared GetImuNoiseScaleFactor GetImuState GetGpsState GetCamState').split():
    O('P04', 'EKF::' + m, 'EKF_' + m, F)
O('P03', 'EKF::AugmentCovariance', 'EKF_AugmentCovariance', F)
O('P03', 'EKF::AugmentStateIfNeeded', 'EKF_AugmentForFrame', F, n=2, name='EKF::AugmentStateIfNeeded(frame)')
O('P03', 'EKF::AugmentStateIfNeeded', 'EKF_AugmentPeriodically', F, n=0, name='EKF::AugmentStateIfNeeded()')
O('P03', 'EKF::GetAugState', 'EKF_GetAugState', F)
O('P03', 'EKF::SetMaxTrackLength', 'EKF_SetMaxTrackLength', F)
O('P07', 'Updater::KalmanUpdate', 'Updater_KalmanUpdate', F)

# ------------------------------------------------------------------ measurement models and updates
U = 'updaters.cpp'
CORE = {k: ob.opaque_call(k) for k in ('Updater::KalmanUpdate', 'EKF::PredictModel', 'EKF::GetAugState', 'EKF::AttemptGpsInitialization')}
for k in ('CompressMeasurements', 'ApplyLeftNullspace'):
    CORE[k] = ob.opaque_call(k, event=False)
CORE['EKF::LogBodyStateIfNeeded'] = ob.opaque_call('EKF::LogBodyStateIfNeeded', mutates=False)
CORE['DataLogger::RateLimitedLog'] = ob.opaque_call('DataLogger::RateLimitedLog', mutates=False, receiver=True)
CORE['DataLogger::Log'] = ob.opaque_call('DataLogger::Log', mutates=False, receiver=True)
LOGEV = {'DataLogger::RateLimitedLog', 'DataLogger::Log', 'EKF::LogBodyStateIfNeeded'}
FILTEREV = lambda n: n in ('Updater::KalmanUpdate', 'EKF::PredictModel', 'EKF::AttemptGpsInitialization', 'ImuUpdater::ZeroAccelerationUpdate',
                           'GpsUpdater::MultiUpdateEKF', 'MsckfUpdater::TriangulateFeature')


def upd(prop, cls, pure, steps, opaque=()):
    for m in pure:
        O(prop, cls + '::' + m, cls + '_' + m, U, opaque=CORE)
    for m in steps:
        op = dict(CORE)
        op.update({cls + '::' + x: ob.opaque_call(cls + '::' + x) for x in opaque if x != m})
        O(prop, cls + '::' + m, cls + '_' + m, U, opaque=op, events=FILTEREV)
        O('P12', cls + '::' + m, cls + '_' + m, U, opaque=op, obs=['events'], events=LOGEV, name=cls + '::' + m + '#row')


upd('P08', 'ImuUpdater', ['PredictMeasurement', 'GetMeasurementJacobian', 'GetZeroAccelerationJacobian'],
    ['ZeroAccelerationUpdate', 'UpdateEKF'], ['ZeroAccelerationUpdate'])
upd('P09', 'GpsUpdater', ['PredictMeasurement', 'GetMeasurementJacobian', 'MultiUpdateEKF'], ['UpdateEKF'], ['MultiUpdateEKF'])
upd('P10', 'FiducialUpdater', ['RefreshStates', 'PredictMeasurement', 'GetMeasurementJacobian'], ['UpdateEKF'])
upd('P11', 'MsckfUpdater', ['ProjectionJacobian', 'Project', 'Distort', 'DistortionJacobian'], ['TriangulateFeature', 'UpdateEKF'],
    ['TriangulateFeature'])

# ------------------------------------------------------------------ logs
G = 'logging.cpp'
for c in 'ImuUpdater GpsUpdater FiducialUpdater MsckfUpdater EKF'.split():
    O('P12', c + '::' + c, c + '_ctor', G, name=c + '#header')
O('P12', 'EKF::LogBodyStateIfNeeded', 'EKF_LogBodyStateIfNeeded', G, opaque={'DataLogger::RateLimitedLog': ob.opaque_call('DataLogger::RateLimitedLog', mutates=False, receiver=True)})
O('P12', 'EKF::PredictModel', 'EKF_PredictModel', F, opaque={'EKF::AugmentStateIfNeeded': ob.opaque_call('EKF::AugmentStateIfNeeded'),
  'EKF::LogBodyStateIfNeeded': ob.row_of('EKF::LogBodyStateIfNeeded')}, obs=['events'], events=LOGEV, name='EKF::PredictModel#row')
O('P12', 'EnumerateHeader', 'F_EnumerateHeader', G)
O('P12', 'VectorToCommaString', 'F_VectorToCommaString', G, n=1)
O('P12', 'VectorToCommaString', 'F_VectorToCommaString_p', G, n=2, name='VectorToCommaString(precision)')
O('P12', 'QuaternionToCommaString', 'F_QuaternionToCommaString', G)
O('P13', 'DataLogger::DataLogger', 'DataLogger_ctor', G, n=2)
O('P13', 'DataLogger::DataLogger', 'DataLogger_ctor_rate', G, n=3, name='DataLogger::DataLogger(rate)')
for m in 'Log RateLimitedLog EnableLogging SetOutputDirectory SetOutputFileName DefineHeader SetLogRate'.split():
    O('P13', 'DataLogger::' + m, 'DataLogger_' + m, G)
O('P13', 'DebugLogger::DebugLogger', 'DebugLogger_ctor', G, params=['=LogLevel', 'string'])
O('P13', 'DebugLogger::DebugLogger', 'DebugLogger_ctor_int', G, params=['=unsigned int', 'string'], name='DebugLogger::DebugLogger(unsigned)')
O('P13', 'DebugLogger::SetLogLevel', 'DebugLogger_SetLogLevel', G, params=['=LogLevel'])
O('P13', 'DebugLogger::SetLogLevel', 'DebugLogger_SetLogLevel_int', G, params=['=unsigned int'], name='DebugLogger::SetLogLevel(unsigned)')
O('P13', 'DebugLogger::Log', 'DebugLogger_Log', G)

# ------------------------------------------------------------------ simulation
S = 'sim.cpp'
DRAW = {'SimRNG::NormRand': ob.rng_draw('NormRand'), 'SimRNG::UniRand': ob.rng_draw('UniRand')}
TRUTH = {'TruthEngine::' + m: ob.opaque_call('TruthEngine::' + m, mutates=False, event=False) for m in (
    'GetBodyPosition GetBodyVelocity GetBodyAcceleration GetBodyAngularPosition GetBodyAngularRate GetBodyAngularAcceleration').split()}
TRUTHG = {'TruthEngine::' + m: ob.opaque_call('TruthEngine::' + m, mutates=False, event=False) for m in (
    'GetImuPosition GetImuAngularPosition GetImuAccelerometerBias GetImuGyroscopeBias GetCameraPosition GetCameraAngularPosition GetCameraIntrinsics '
    'GetGpsPosition GetLocalPosition GetLocalHeading GetBoardPosition GetBoardOrientation GetFeatures GetFeature').split()}
SIM = dict(DRAW)
SIM.update(TRUTH)
SIM.update(TRUTHG)
SIM.update({'TruthEngine::' + m: ob.opaque_call('TruthEngine::' + m) for m in (
    'SetImuPosition SetImuAngularPosition SetImuAccelerometerBias SetImuGyroscopeBias SetCameraPosition SetCameraAngularPosition SetCameraIntrinsics '
    'SetGpsPosition SetBoardPosition SetBoardOrientation GenerateVisibleFeatures').split()})
SIM.update(ob.base_parts('IMU', 'GPS', 'Camera', 'FeatureTracker', 'FiducialTracker'))
for c, ms in {'SimFeatureTracker': 'GetVisibleKeypoints GenerateMessage Callback', 'SimFiducialTracker': 'GenerateMessage Callback',
              'MsckfUpdater': 'UpdateEKF', 'FiducialUpdater': 'UpdateEKF', 'EKF': 'PredictModel AugmentStateIfNeeded'}.items():
    SIM.update({c + '::' + m: ob.opaque_call(c + '::' + m) for m in ms.split()})
GEO = {k: ob.opaque_call(k, event=False) for k in 'enu_to_lla local_to_enu lla_to_enu ecef_to_enu enu_to_local lla_to_ecef ecef_to_lla enu_to_ecef'.split()}
SIM.update(GEO)


def sim(prop, cls, m, **kw):
    op = {k: v for k, v in SIM.items() if k != cls + '::' + m}
    O(prop, cls + '::' + m, cls + '_' + ('ctor' if m == cls else m), S, opaque=op, **kw)


for m in 'SetSeed NormRand UniRand VecNormRand QuatNormRand'.split():
    O('P14', 'SimRNG::' + m, 'SimRNG_' + m, S, opaque=DRAW if m[-8:] == 'NormRand' and m != 'NormRand' else {})
for c, ms in {'SimSensor': 'SimSensor ApplyTimeError GenerateMeasurementTimes', 'SimIMU': 'SimIMU GenerateMessages', 'SimGPS': 'SimGPS GenerateMessages',
              'SimCamera': 'SimCamera GenerateMessages AddTracker AddFiducial Callback', 'SimFiducialTracker': 'SimFiducialTracker IsBoardVisible GenerateMessage Callback',
              'SimFeatureTracker': 'SimFeatureTracker FilterInvisiblePoints GenerateMessage Callback'}.items():
    for m in ms.split():
        sim('P15', c, m)

# ------------------------------------------------------------------ earth frames, GPS initialisation
E_ = 'geo.cpp'
for m in 'lla_to_ecef ecef_to_enu enu_to_ecef lla_to_enu enu_to_lla ecef_to_lla enu_to_local local_to_enu wgs84_m_to_deg'.split():
    O('P16', m, 'F_' + m, E_, opaque={k: v for k, v in GEO.items() if k != m})
INIT = dict(GEO)
INIT.update({k: ob.opaque_call(k, event=False) for k in 'average_vectors kabsch_2d maximum_distance affine_angle'.split()})
for m in ('SetGpsReference GetReferenceLLA GetReferenceAngle IsLlaInitialized GetGpsTimeVector GetGpsEcefVector GetGpsXyzVector AttemptGpsInitialization').split():
    O('P17', 'EKF::' + m, 'EKF_' + m, E_, opaque=INIT)

# ------------------------------------------------------------------ vector, matrix and rotation helpers
H = 'math.cpp'
for m in ('SkewSymmetric MinBoundVector ApplyLeftNullspace CompressMeasurements QuaternionJacobian sign matrix2d_from_vectors3d affine_angle kabsch_2d '
          'maximum_distance mean_standard_deviation QR_r StdToEigVec StdToEigQuat RotVecToQuat QuatToRotVec EigVecToQuat EigenMatrixToCv CvMatrixToEigen '
          'QuatToRodrigues RodriguesToQuat CvVectorToEigen').split():
    O('P21', m, 'F_' + m, H)
O('P21', 'average_vectors', 'F_average_vectors', H, n=1)
O('P21', 'average_vectors', 'F_average_vectors_w', H, n=2, name='average_vectors(weights)')
O('P21', 'operator-', 'F_minus', H, n=2, name='vectors-vector')

# ------------------------------------------------------------------ sensors and trackers
T_ = 'sensors.cpp'
SENS = {k: ob.opaque_call(k) for k in (
    'EKF::RegisterIMU EKF::RegisterGPS EKF::RegisterCamera EKF::RegisterFiducial EKF::PredictModel EKF::CalculateLocalTime EKF::AugmentStateIfNeeded '
    'ImuUpdater::UpdateEKF GpsUpdater::UpdateEKF MsckfUpdater::UpdateEKF FiducialUpdater::UpdateEKF FeatureTracker::Track FiducialTracker::Track '
    'Camera::GenerateFrameID FeatureTracker::GenerateFeatureID FeatureTracker::GridFeatures FeatureTracker::RatioTest FeatureTracker::SymmetryTest FeatureTracker::RANSAC '
    'FeatureTracker::DistanceTest FiducialTracker::InterpolateCorners FiducialTracker::EstimatePoseBoard FiducialTracker::DrawDetectedCorners').split()}
SENS.update(ob.base_parts('Sensor', 'Tracker'))


def sens(prop, cls, m, **kw):
    op = {k: v for k, v in SENS.items() if k != cls + '::' + m}
    O(prop, cls + '::' + m, cls + '_' + ('ctor' if m == cls else m), T_, opaque=op, **kw)


for c, ms in {'Sensor': 'Sensor GetId GetName', 'IMU': 'IMU Callback', 'GPS': 'GPS Callback', 'Camera': 'Camera Callback AddTracker AddFiducial GenerateFrameID'}.items():
    for m in ms.split():
        sens('P19', c, m)
O('P19', 'MessageCompare', 'F_MessageCompare', T_)
for c, ms in {'Tracker': 'Tracker GetID', 'FeatureTracker': 'FeatureTracker InitFeatureDetector InitDescriptorExtractor InitDescriptorMatcher GenerateFeatureID GridFeatures RatioTest SymmetryTest RANSAC DistanceTest Track'}.items():
    for m in ms.split():
        sens('P18', c, m)
for c, ms in {'FiducialTracker': 'FiducialTracker InterpolateCorners EstimatePoseBoard Track', 'Intrinsics': 'ToCameraMatrix ToDistortionVector'}.items():
    for m in ms.split():
        sens('P24', c, m)

# ------------------------------------------------------------------ truth engines
R_ = 'truth.cpp'
for m in ('ImuPosition ImuAngularPosition ImuAccelerometerBias ImuGyroscopeBias CameraPosition CameraAngularPosition CameraIntrinsics GpsPosition BoardPosition '
          'BoardOrientation LocalPosition LocalHeading').split():
    O('P15', 'TruthEngine::Get' + m, 'TruthEngine_Get' + m, R_, obs=['ret'])
    O('P15', 'TruthEngine::Set' + m, 'TruthEngine_Set' + m, R_)
O('P15', 'TruthEngine::GetFeature', 'TruthEngine_GetFeature', R_, obs=['ret'])
O('P15', 'TruthEngine::GetFeatures', 'TruthEngine_GetFeatures', R_)
O('P15', 'TruthEngine::GenerateGridFeatures', 'TruthEngine_GenerateGridFeatures', R_)
O('P15', 'TruthEngine::GenerateVisibleFeatures', 'TruthEngine_GenerateVisibleFeatures', R_, opaque={**DRAW, **TRUTH, **TRUTHG})
KEYP = {**DRAW, **TRUTH, **TRUTHG, 'TruthEngine::GenerateVisibleFeatures': ob.opaque_call('TruthEngine::GenerateVisibleFeatures'),
        'SimFeatureTracker::FilterInvisiblePoints': ob.opaque_call('SimFeatureTracker::FilterInvisiblePoints', event=False),
        'EigenMatrixToCv': ob.opaque_call('EigenMatrixToCv', event=False)}
O('P15', 'SimFeatureTracker::GetVisibleKeypoints', 'SimFeatureTracker_GetVisibleKeypoints', R_, opaque=KEYP)
O('P15', 'TruthEngine::TruthEngine', 'TruthEngine_ctor', R_)
O('P12', 'TruthEngine::WriteTruthData', 'TruthEngine_WriteTruthData', R_, opaque={
    **TRUTH, **TRUTHG, 'DataLogger::Log': ob.opaque_call('DataLogger::Log', mutates=False, receiver=True)}, obs=['events'])
VEC_ = {**DRAW, 'SimRNG::VecNormRand': ob.rng_draw('VecNormRand'), **ob.base_parts('TruthEngine')}
for m in ('TruthEngineCyclic GetBodyPosition GetBodyVelocity GetBodyAcceleration GetBodyRollPitchYaw GetBodyAngularPosition EulerDerivativeTransform GetBodyAngularRate '
          'GetBodyAngularAcceleration SetBodyPosCycleFrequency SetBodyAngCycleFrequency').split():
    O('P22', 'TruthEngineCyclic::' + m, 'TruthEngineCyclic_' + m.replace('TruthEngineCyclic', 'ctor'), R_, opaque=VEC_)
for m in 'TruthEngineSpline IsTimeInvalid GetBodyPosition GetBodyVelocity GetBodyAcceleration GetBodyAngularPosition GetBodyAngularRate GetBodyAngularAcceleration'.split():
    O('P22', 'TruthEngineSpline::' + m, 'TruthEngineSpline_' + m.replace('TruthEngineSpline', 'ctor'), R_,
      opaque={**VEC_, 'TruthEngineSpline::IsSplineInvalid': ob.opaque_call('TruthEngineSpline::IsSplineInvalid', mutates=False, event=False)})
for m in ('TruthEngineSmoother IsTimeInvalid GetInterpolatedValue GetBodyPosition GetBodyVelocity GetBodyAcceleration GetBodyAngularPosition GetBodyAngularRate '
          'GetBodyAngularAcceleration').split():
    O('P22', 'TruthEngineSmoother::' + m, 'TruthEngineSmoother_' + m.replace('TruthEngineSmoother', 'ctor'), R_, opaque={
        **VEC_, **({} if m == 'GetInterpolatedValue' else {'TruthEngineSmoother::GetInterpolatedValue': ob.opaque_call('TruthEngineSmoother::GetInterpolatedValue', event=False)}),
        **({k: ob.opaque_call(k, event=False, const=True) for k in ('Derivative', 'InterpolateVectors')} if m == 'TruthEngineSmoother' else {})})
for m in 'Derivative InterpolateVectors'.split():
    O('P22', m, 'F_' + m, R_)

# ------------------------------------------------------------------ configuration of the simulation
C_ = 'config.cpp'
for m in 'LoadNodeList LoadSensorParams LoadSimSensorParams LoadTrackerParams LoadProcessNoise'.split():
    O('P20', m, 'F_' + m, C_)
RUN = {c + '::' + c: ob.made(c) for c in
       'EKF DebugLogger TruthEngineCyclic TruthEngineSmoother TruthEngineSpline SimIMU SimCamera SimGPS SimFeatureTracker SimFiducialTracker'.split()}
RUN.update({k: ob.opaque_call(k) for k in (
    'EKF::Initialize EKF::SetMaxTrackLength TruthEngine::SetLocalPosition TruthEngine::SetLocalHeading TruthEngine::WriteTruthData SimIMU::GenerateMessages '
    'SimGPS::GenerateMessages SimCamera::GenerateMessages SimCamera::AddTracker SimCamera::AddFiducial Camera::AddTracker Camera::AddFiducial IMU::Callback GPS::Callback '
    'SimCamera::Callback Camera::Callback SimRNG::SetSeed').split()})
RUN.update({k: ob.opaque_call(k, mutates=False, event=False) for k in 'Sensor::GetId StdToEigVec StdToEigQuat wgs84_m_to_deg LoadProcessNoise LoadNodeList'.split()})
RUN.update(DRAW)
RUN['SimRNG::VecNormRand'] = ob.rng_draw('VecNormRand')
RUN['DebugLogger::Log'] = ob.silent


def command_line(I):
    def q(what, kind):
        def h(I, e):
            k = I.ev(e['args'][0])
            return t_.mk('fn', what, k, kind=kind), None
        return h
    I.intr['cv::CommandLineParser::has'] = q('has-option', 'b')
    I.intr['cv::CommandLineParser::get'] = q('option', 'str')
    I.intr['cv::CommandLineParser::about'] = lambda I, e: (t_.UNINIT, None)


for nm, evs in {
        'filter': 'new:EKF EKF::Initialize EKF::SetMaxTrackLength new:DebugLogger', 'truth': 'SimRNG::SetSeed new:TruthEngineCyclic new:TruthEngineSmoother new:TruthEngineSpline '
        'TruthEngine::SetLocalPosition TruthEngine::SetLocalHeading TruthEngine::WriteTruthData', 'IMUs': 'new:SimIMU SimIMU::GenerateMessages',
        'cameras': 'new:SimCamera SimCamera::GenerateMessages', 'trackers': 'new:SimFeatureTracker SimCamera::AddTracker new:SimFiducialTracker SimCamera::AddFiducial',
        'GPS': 'new:SimGPS SimGPS::GenerateMessages', 'messages': 'IMU::Callback GPS::Callback SimCamera::Callback'}.items():
    O('P20', 'main', 'F_main', C_, opaque=RUN, obs=['events'], events=set(evs.split()), cfg=command_line, name='main#' + nm)

# ------------------------------------------------------------------ initial values
D_ = 'defaults.cpp'
for c in 'EKF ImuUpdater GpsUpdater FiducialUpdater MsckfUpdater'.split():
    O('P23', c + '::' + c, c + '_initial', D_)
for c in ('EKF_Parameters Intrinsics BodyState ImuState GpsState CamState FidState AugState State BoardDetection IMU_Parameters GPS_Parameters Camera_Parameters '
          'FeatureTracker_Parameters FiducialTracker_Parameters SimIMU_Parameters SimGPS_Parameters SimCamera_Parameters SimFeatureTracker_Parameters '
          'SimFiducialTracker_Parameters SimFeatureTrackerMessage SimFiducialTrackerMessage').split():
    O('P23', 'spec::start_' + c, 'must_' + c, D_, name='initial ' + c, record=c.replace('_', '::'))

# ------------------------------------------------------------------ rules over the whole program
R('P14', 'one generator', rules.one_generator)

# ------------------------------------------------------------------ parts several properties rest on
def share(props, *names):
    """these obligations also belong to other properties"""
    for n in names:
        l = [o for o in TABLE if o['name'] == n]
        if not l:
            raise KeyError(n)
        for o in l:
            o['also'] = tuple(o.get('also', ())) + tuple(p for p in props.split() if p != o['property'] and p not in o.get('also', ()))


REGISTER = ['EKF::Register' + k for k in ('IMU', 'GPS', 'Camera', 'Fiducial')]
STARTS = ['EKF::' + m for m in ('GetStateSize GetImuStateSize GetGpsStateSize GetCamStateSize GetAugStateSize GetImuStateStart GetGpsStateStart GetCamStateStart '
                                'GetFidStateStart GetAugStateStart').split()]
UPDATES = ['ImuUpdater::UpdateEKF', 'GpsUpdater::UpdateEKF', 'FiducialUpdater::UpdateEKF', 'MsckfUpdater::UpdateEKF']
CALLBACKS = ['IMU::Callback', 'GPS::Callback', 'Camera::Callback']
ADDERS = [o['name'] for o in TABLE if o['property'] == 'P01' and '+=vector' in o['name']]
share('P01', *STARTS)
share('P04 P06 P19', *REGISTER)
share('P02 P03 P06', 'EKF::RefreshIndices')
share('P03', 'RemoveFromMatrix', 'Camera::Callback', 'EKF::GetAugStateStart')
share('P06', 'QR_r', 'RotVecToQuat')
share('P07', 'RotVecToQuat')
share('P09', 'lla_to_ecef', 'ecef_to_enu', 'lla_to_enu', 'enu_to_local', 'EKF::SetGpsReference')
share('P10 P11', 'SkewSymmetric', 'RotVecToQuat')
share('P11', 'QuaternionJacobian', 'QR_r')
share('P10 P24', 'RodriguesToQuat', 'CvVectorToEigen')
share('P05', *(CALLBACKS + UPDATES))
share('P07', *(ADDERS + ['QR_r']))
share('P08 P09 P10 P11', 'Updater::KalmanUpdate')
share('P08', 'IMU::Callback', 'QuaternionJacobian', 'SkewSymmetric')
share('P09', 'GPS::Callback', 'EKF::AttemptGpsInitialization', 'EKF::GetAugState')
share('P10 P11', 'EKF::GetAugState', 'Camera::Callback')
share('P10', 'FiducialTracker::Track', 'QuaternionJacobian')
share('P11', 'ApplyLeftNullspace', 'CompressMeasurements', 'FeatureTracker::Track')
share('P12', 'DataLogger::Log', 'DataLogger::RateLimitedLog', 'DataLogger::DefineHeader')
share('P13', *[c + '#header' for c in 'ImuUpdater GpsUpdater FiducialUpdater MsckfUpdater EKF'.split()])
share('P14', *[o['name'] for o in TABLE if o['property'] == 'P15' and o['file'] == S])
share('P15', *[o['name'] for o in TABLE if o['property'] == 'P14' and 'rule' not in o and o['name'] != 'SimRNG::SetSeed'])
share('P15', 'enu_to_lla', 'local_to_enu')
share('P17', 'average_vectors', 'kabsch_2d', 'maximum_distance', 'affine_angle', 'GpsUpdater::UpdateEKF', 'lla_to_ecef', 'ecef_to_enu', 'enu_to_lla', 'ecef_to_lla',
      'enu_to_local', 'lla_to_enu')
share('P18', 'Camera::Callback', 'SimFeatureTracker::GenerateMessage', 'SimFeatureTracker::Callback')
share('P19', *(UPDATES + ['FeatureTracker::Track', 'FiducialTracker::Track', 'SimCamera::Callback', 'main#messages']))
share('P20', 'StdToEigVec', 'StdToEigQuat', 'wgs84_m_to_deg', 'MessageCompare', *[o['name'] for o in TABLE if o['property'] in ('P15', 'P18', 'P19', 'P22', 'P24')
      and o['name'].split('::')[0] == o['name'].split('::')[-1] and '::' in o['name']])
share('P24', 'FiducialUpdater::UpdateEKF', 'Camera::Callback')
share('P23', *[o['name'] for o in TABLE if o['property'] in ('P15', 'P18', 'P19', 'P22', 'P24') and o['name'].split('::')[0] == o['name'].split('::')[-1] and '::' in o['name']])
