#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
B = 'eskf_vio_backend/'
DL = [B+'src/data_manager/data_loader.cpp', B+'include/data_manager/data_loader.hpp']
FEAT = [B+'src/data_manager/vision_data/feature_manager.cpp', B+'include/data_manager/vision_data/feature_manager.hpp']
FRAME = [B+'src/data_manager/vision_data/frame_manager.cpp', B+'include/data_manager/vision_data/frame_manager.hpp']
BK = [B+'src/backend/backend.cpp']
INIT = [B+'src/backend/backend_initialize.cpp']
CFG = [B+'src/config/config.cpp', B+'src/backend/backend_config.cpp', B+'include/config/config.hpp']
UPD = [B+'src/update/multi_view_vision_update.cpp']
PROP = [B+'src/propagate/sequence_propagator.cpp', B+'include/propagate/sequence_propagator.hpp']
ATT = [B+'src/propagate/attitude_estimate.cpp', B+'include/propagate/attitude_estimate.hpp']
PNP = [B+'src/geometry/perspective_n_point.cpp', B+'include/geometry/perspective_n_point.hpp']
TRI = [B+'src/geometry/trianglation.cpp']
UTIL = [B+'include/utility/math_lib.hpp']

def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

SIM = 'The existing tests replay three recorded simulations of one well-behaved trajectory and accept a position error of 3 m'

prop('C01', 'Each input stream is accepted only in strictly increasing time order',
 'For each of the two input streams, a message is queued only if its time stamp is strictly greater than that of every message of the same stream accepted since the last clear, whether or not those were already consumed. A message that is not queued leaves what the stream accepts next unchanged, and the streams of different loader objects never influence each other.',
 ['inputs', 'histories'], 'all sequences of pushes, pops and clears, with any time stamps, on any number of loader objects',
 SIM + ', whose files are already sorted; no out-of-order, repeated or interleaved message is ever pushed.',
 DL, [('DataLoader::PushFeaturesMessage', DL[0]), ('DataLoader::PushIMUMessage', DL[0]), ('DataLoader::Clear', DL[0])],
 [('lastFeatTimeStamp / lastImuTimeStamp', 'newest accepted stamp of each stream', DL[1])])
prop('C02', 'Pending messages are delivered exactly once, merged in time order',
 'Taking one message removes from the pending queues exactly what it returns: the head of the queue with the older head (the feature message on a tie), plus, only for a feature message whose next IMU sample lies within one IMU period, that IMU sample. When both queues are empty it reports failure, and one backend step hands every sample and feature message it took to the estimator, the IMU sample before the features.',
 ['inputs', 'histories'], 'all interleavings of the two streams, all queue contents and IMU periods',
 SIM + '; all messages are loaded up front, so one interleaving per recording is seen.',
 DL + BK, [('DataLoader::PopOneMessage', DL[0]), ('Backend::RunOnce', BK[0])])
prop('C03', 'All messages are shifted by one common time origin',
 'The first well-formed message of either stream after construction or a clear fixes the time origin, and every well-formed message of both streams is shifted by exactly that origin, once. A clear forgets the origin together with all pending messages.',
 ['inputs', 'histories'], 'all orders of first arrival, all clears, any absolute time values',
 SIM + '; a different origin shifts the whole output and the tests accept a shift of a second.',
 DL, [('DataLoader::PushFeaturesMessage', DL[0]), ('DataLoader::PushIMUMessage', DL[0]), ('DataLoader::Clear', DL[0])],
 [('timeStampOffset', 'time origin, NaN while undefined', DL[1])])
prop('C04', 'A packed bundle holds the IMU data up to the image, closed by interpolation',
 'A successful packed read returns the oldest pending feature message with every pending IMU sample not later than it, in order, closed by a sample at the image time that also starts the next bundle: a linear interpolation of its two neighbours unless a sample lies within a microsecond. It returns nothing and consumes nothing while either queue is empty or no IMU sample is later than the image, and it drops an image for which there is no earlier IMU sample.',
 ['inputs', 'histories'], 'all contents of the two queues',
 'No existing test calls the packed read at all.',
 DL, [('DataLoader::PopPackedMessage', DL[0])])
prop('C05', 'Observations stay paired with the frames that reported them',
 'After any sequence of adding feature messages and removing the oldest, second-newest or newest frame, the k-th stored observation of a feature is the one reported by the frame whose id is the first frame id of the feature plus k. Empty observations and repetitions of a feature within a message are ignored, a feature that was not seen in the preceding frame restarts its track, a feature without any observation left is dropped, and every feature accepted from a message is linked to the new frame.',
 ['inputs', 'histories'], 'all sequences of messages and of removals, any feature ids, any track lengths',
 SIM + '; a wrong pairing costs accuracy but the run still passes, and irregular messages never occur.',
 FEAT + BK, [('FeatureManager::AddNewFeatures', FEAT[0]), ('FeatureManager::RemoveByFrameID', FEAT[0]), ('Feature::AddNewObserve', FEAT[0]), ('Feature::GetNorm', FEAT[0]), ('Feature::FinalFrameID', FEAT[0]), ('Backend::UpdateFeatureFrameManager', BK[0])])
prop('C06', 'Observation counts match the stored measurements and the rows they get',
 'The number of observations recorded for a feature always equals the total number of camera measurements it stores. The stacked measurement equation reserves exactly two rows per recorded observation of the features used, less three per feature for the eliminated position, and each measurement fills its own two rows.',
 ['inputs', 'histories'], 'all histories of observations with any number of cameras each',
 SIM + ' with one or two cameras and no lost camera, so a count that drifts shows up only after particular removals.',
 FEAT + UPD, [('Feature::AddNewObserve', FEAT[0]), ('FeatureManager::RemoveByFrameID', FEAT[0]), ('MultiViewVisionUpdate::ConstructMeasurementFunction', UPD[0])])
prop('C07', 'Window frames carry consecutive ids, and lookups by id are exact',
 'The frames in the window always carry ids that increase by one from oldest to newest, whatever was added and removed; an empty window restarts at id 1, and a new frame starts from the pose and velocity of its predecessor. Looking a frame up by id returns exactly the frame with that id, or nothing when the window holds none.',
 ['histories', 'inputs'], 'all sequences of additions and removals at any position, all ids looked up',
 SIM + ' with a fixed window; removals at other positions and failing lookups do not occur.',
 FRAME, [('FrameManager::AddNewFrame', FRAME[0]), ('FrameManager::RemoveFrame', FRAME[0]), ('FrameManager::GetFrame', FRAME[0]), ('FrameManager::GetMaxFrameID', FRAME[0])])
prop('C08', 'Marginalization removes the same frame from all bookkeeping',
 'When the window holds more frames than configured, an update discards one frame, the same one from the frame window, from every feature track and from the joint covariance: the oldest if the second-newest frame is a keyframe, otherwise the second-newest. While the window is not overfull nothing is discarded.',
 ['histories', 'inputs', 'configurations'], 'all window sizes, all keyframe decisions, all policies',
 SIM + '; discarding different frames in different places keeps all sizes consistent and only degrades accuracy.',
 BK + UPD + FRAME, [('MultiViewVisionUpdate::DecideMargPolicy', UPD[0]), ('MultiViewVisionUpdate::ReduceCameraCovariance', UPD[0]), ('Backend::MarginalizeFeatureFrameManager', BK[0]), ('Backend::RunOnce', BK[0]), ('FrameManager::NeedMarginalize', FRAME[0])])
prop('C09', 'The covariance dimension always matches the cameras and the window',
 'After initialization, and after every successful update, the joint covariance covers exactly the 15 IMU error states, six states per camera and six per window frame that remains, in this order, and its IMU, cross and camera parts agree on that size. An update refuses to run on a stored covariance of any other size.',
 ['histories', 'configurations'], 'all numbers of cameras, all window contents, all marginalization decisions',
 SIM + ' with one camera rig and one window size; assertions are compiled out, so a size mismatch goes unnoticed.',
 UPD + PROP, [('PropagateQueue::Propagate', PROP[0]), ('MultiViewVisionUpdate::ConstructCovariance', UPD[0]), ('MultiViewVisionUpdate::ExpandCameraCovariance', UPD[0]), ('MultiViewVisionUpdate::ReduceCameraCovariance', UPD[0]), ('MultiViewVisionUpdate::UpdateCovariance', UPD[0])])
prop('C10', 'Cloning and marginalizing move covariance blocks without altering them',
 'Assembling the joint covariance places the stored IMU, cross and camera blocks unchanged, and cloning the newest pose appends rows and columns that duplicate the IMU position and attitude ones. Discarding a frame deletes exactly its six rows and columns; all other entries keep their values and their order, and the stored parts are the corresponding parts of that matrix.',
 ['inputs', 'histories', 'configurations'], 'all covariance values, all numbers of cameras and frames',
 SIM + '; block mix-ups alter weights only and are absorbed by the tolerance.',
 UPD, [('MultiViewVisionUpdate::ConstructCovariance', UPD[0]), ('MultiViewVisionUpdate::ExpandCameraCovariance', UPD[0]), ('MultiViewVisionUpdate::ReduceCameraCovariance', UPD[0]), ('MultiViewVisionUpdate::UpdateCovariance', UPD[0])])
prop('C11', 'The joint covariance is kept symmetric',
 'Whatever the rounding in the gain, the covariance produced by a measurement update is symmetric. The IMU-to-camera and camera-to-IMU blocks of the joint covariance are transposes of each other after assembling, cloning and discarding.',
 ['inputs', 'histories'], 'all covariance and gain values, all window contents',
 SIM + '; asymmetry grows slowly and is invisible in the position error.',
 UPD, [('MultiViewVisionUpdate::UpdateState', UPD[0]), ('MultiViewVisionUpdate::ConstructCovariance', UPD[0]), ('MultiViewVisionUpdate::ExpandCameraCovariance', UPD[0]), ('MultiViewVisionUpdate::ReduceCameraCovariance', UPD[0])])
prop('C12', 'Every stored attitude is a unit quaternion',
 'Every attitude the estimator keeps or returns (IMU states, window frames, camera extrinsics, the attitude filter, solved camera poses) has unit norm, because it is renormalized after each change that is not itself norm preserving.',
 ['inputs', 'histories'], 'all measurements, corrections and step sizes',
 SIM + '; the drift of one missing normalization is far below the tolerance over the recorded time.',
 PROP + ATT + UPD + PNP + INIT + CFG, [('PropagateQueue::PropagateMotionNominalState', PROP[0]), ('AttitudeEstimate::Propagate', ATT[0]), ('MultiViewVisionUpdate::UpdateState', UPD[0]), ('PnPSolver::EstimatePose', PNP[0]), ('Configurator::ReadConfigParams', CFG[0])])
prop('C13', 'IMU propagation is the midpoint integration of the strapdown equations',
 'Each propagated state follows from its predecessor by midpoint integration over the actual time difference: the attitude with the mean bias-free rate, the velocity with the mean of the two rotated bias-free accelerations minus gravity, the position with the mean velocity. The first state after a (re)start is the given initial motion state at the time and with the measurement of the first sample.',
 ['inputs', 'histories'], 'all IMU samples, biases, gravity vectors, time steps and start states',
 SIM + '; vision corrects most integration mistakes within the tolerance.',
 PROP, [('PropagateQueue::Propagate', PROP[0]), ('PropagateQueue::PropagateMotionNominalState', PROP[0])])
prop('C14', 'Covariance propagation is the linearization of the IMU motion model',
 'Each propagated IMU covariance is F P F^T + G Q G^T, and each propagated cross covariance is F times its predecessor, with F and G the first-order error-state transition and noise matrices of the motion model at the predecessor state, and Q built from the four configured noise intensities in the order of the noise vector. Nothing of an earlier step remains in F or G, and a (re)start begins with zero covariance.',
 ['inputs', 'histories', 'configurations'], 'all states, measurements, time steps, covariances and noise settings',
 SIM + '; a wrong sign or block in the transition changes weights only.',
 PROP, [('PropagateQueue::PropagateFullErrorStateCovariance', PROP[0]), ('PropagateQueue::InitializeProcessNoiseMatrix', PROP[0]), ('PropagateQueue::ResetProcessFunction', PROP[0])])
prop('C15', 'Measurement Jacobians are the derivatives of the reprojection residual',
 'For every observation of a used feature, the residual is the measured minus the predicted normalized coordinate, and the matrix blocks are the derivatives of the prediction with respect to the feature position and the error states of exactly that frame (the IMU pose for the newest one) and camera, in their columns of the state. The feature position is eliminated by projecting on the left null space of its columns, and compressing the stacked equation keeps all its information.',
 ['inputs', 'configurations'], 'all poses, extrinsics, points, cameras and window contents',
 SIM + '; the filter tolerates wrong derivatives of weakly observable states such as the extrinsics.',
 UPD, [('MultiViewVisionUpdate::ConstructMeasurementFunction', UPD[0])])
prop('C16', 'The Kalman update injects the estimated error into exactly the right states',
 'The gain is P H^T (H P H^T + sigma^2 I)^-1, the error is K r and the covariance becomes (I - K H) P. Each part of the error corrects the state it belongs to, additively for vectors and by right multiplication for attitudes: IMU motion, biases, every camera extrinsic and every window frame, the newest frame taking over the corrected IMU motion.',
 ['inputs', 'configurations'], 'all covariances, measurement matrices, residuals, numbers of cameras and frames',
 SIM + '; states injected into the wrong slot are partly repaired by the next updates.',
 UPD + UTIL, [('MultiViewVisionUpdate::UpdateState', UPD[0]), ('Utility::Inverse', UTIL[0])])
prop('C17', 'A vision update acts at the image time and later states are recomputed',
 'An update discards propagated states older than the image by more than one IMU period, takes the first one left as the state at the image time, and gives its pose and velocity to the newest frame before triangulating. After the correction every later state and covariance is recomputed in order from it with the corrected biases, so that the latest state always follows from the corrected one; if no state is left the update is refused.',
 ['inputs', 'histories', 'schedules'], 'all delays between images and IMU data, all queue lengths',
 SIM + '; in these the image is always processed before later IMU samples, so nothing is ever left to recompute.',
 UPD + PROP, [('MultiViewVisionUpdate::Update', UPD[0]), ('PropagateQueue::ResetOrigin', PROP[0]), ('PropagateQueue::Repropagate', PROP[0]), ('MultiViewVisionUpdate::UpdateNewestFramePose', UPD[0])])
prop('C18', 'A failed initialization or update restarts from a clean state',
 'IMU samples always reach the attitude filter, but reach the propagated states only once initialization has succeeded, and only then are vision updates run. When initialization or an update fails, the estimator requires initialization again and keeps a single frame; a successful initialization replaces all propagated states by ones derived from the new start.',
 ['histories', 'fault_sequences'], 'all sequences of successes and failures',
 SIM + ', in which initialization succeeds once and updates never fail.',
 BK + INIT, [('Backend::RunOnce', BK[0]), ('Backend::Initialize', INIT[0]), ('Backend::InitializePropagator', INIT[0]), ('Backend::Reset', BK[0])])
prop('C19', 'IMU biases are removed exactly once from every sample',
 'Every IMU sample is stored and passed on as measured, and wherever it enters an integration the current bias estimate is subtracted exactly once. After each successful update the attitude filter uses the corrected biases of both sensors.',
 ['inputs', 'histories'], 'all samples and bias values, before and after initialization',
 SIM + ' with initial biases of zero, for which a bias removed twice or never makes little difference.',
 PROP + ATT + INIT + BK, [('AttitudeEstimate::Propagate', ATT[0]), ('PropagateQueue::PropagateMotionNominalState', PROP[0]), ('Backend::InitializePropagator', INIT[0]), ('Backend::RunOnce', BK[0])])
prop('C20', 'Every configuration value reaches its consumer, and bad files are rejected',
 'Each value of each configuration file is stored in its setting and from there reaches the component that uses it: IMU period, four noise intensities, two biases, gravity, camera extrinsics, window size, measurement noise and keyframe thresholds. A file that is missing, too short, or not numeric leaves the default in force, and no file content makes the reader touch memory outside the matrix.',
 ['configurations', 'inputs'], 'all configuration directories and file contents',
 'The tests use one configuration, most of whose values equal the defaults or each other.',
 CFG, [('Configurator::ReadConfigParams', CFG[0]), ('Configurator::LoadMatrix', CFG[0]), ('Backend::ConfigParams', CFG[1])])
prop('C21', 'Triangulation pairs every measurement with the pose of its own camera',
 'Whenever a feature is triangulated, each measurement is paired with the pose obtained by composing the pose of the frame that reported it with the extrinsics of the camera that reported it. All available measurements of the feature take part (those of one frame during initialization, those of the whole window during updates), and the outcome is recorded in the feature.',
 ['inputs', 'histories', 'configurations'], 'all frames, cameras, extrinsics and observation histories',
 SIM + '; with short baselines, pairing with a neighbouring pose stays within the tolerance.',
 INIT + UPD, [('Backend::TrianglizeMultiView', INIT[0]), ('MultiViewVisionUpdate::TrianglizeMultiFrame', UPD[0])])
prop('C22', 'PnP iterations solve the normal equations of the reprojection error',
 'Every iteration of the pose solvers accumulates, over all point pairs with usable depth, the weighted normal equations of the reprojection error with its true derivatives with respect to camera position and attitude, and applies the solution as an additive position and right-multiplied attitude correction. The robust variant weights both sides alike, by a weight of 1 for small errors that never grows with the error.',
 ['inputs'], 'all point sets, poses and outliers',
 'The tests solve one random well-conditioned problem per solver from a near start, where a wrong Jacobian still converges.',
 PNP, [('PnPSolver::EstimatePose', PNP[0]), ('PnPSolver::EstimatePoseKernel', PNP[0]), ('PnPSolver::Cauchy', PNP[1])])
prop('C23', 'RANSAC returns its best-scoring hypothesis and matching inlier flags',
 'The robust pose search draws distinct samples, scores each hypothesis on all points by squared reprojection error against the threshold, and returns the hypothesis with the highest score found, never a worse one tried later. The inlier flags have one entry per point and tell, for the returned pose, whether the point is within the threshold.',
 ['inputs', 'schedules'], 'all point sets and all sequences of random draws',
 'The one existing test uses outlier-free data with one fixed random sequence, where the first hypothesis is already perfect.',
 PNP, [('PnPSolver::EstimatePoseRANSAC', PNP[0])])
prop('C24', 'A geometric solver reports success only for usable input and results',
 'The pose solvers and triangulators refuse input lists of different lengths or with too few elements. Analytic triangulation reports success only for a finite point that lies in front of every camera that observed it, and a pose solver never reports success with an undefined correction.',
 ['inputs'], 'all point sets, poses and sizes',
 'The tests only pass well-formed input with points in front of the cameras.',
 PNP + TRI, [('Trianglator::TrianglateAnalytic', TRI[0]), ('Trianglator::TrianglateIterative', TRI[0]), ('PnPSolver::EstimatePose', PNP[0])])
prop('C25', 'Every call terminates',
 'Every loop of the estimator ends for every input: it walks a finite container, counts towards a fixed bound, consumes a finite queue, or samples from a set large enough to supply what it waits for.',
 ['inputs', 'configurations'], 'all inputs and all configuration values',
 'A test can only show that the runs it makes end.',
 BK + UPD + PNP + TRI + DL + FEAT + FRAME + ATT + PROP, [('all loops', B + 'src')])
prop('C26', 'No input makes the estimator access memory it does not own',
 'Whatever the messages contain (null pointers, unknown camera ids, repeated or missing features, empty observations), no entry point dereferences a null pointer, takes the front or back of an empty container, uses a reference after its element was removed, or indexes past the end of a container.',
 ['inputs', 'histories'], 'all message contents, orders and configurations',
 SIM + '; all their messages are complete and regular, and assertions are compiled out.',
 BK + UPD + INIT + DL + FEAT + FRAME + ATT + PROP, [('guards at the entry points', B + 'src')])
prop('C27', 'A published state is one consistent snapshot',
 'Publishing reports failure when there is no propagated state; otherwise position, velocity, attitude and time stamp come from one and the same state (the newest for the propagated output, the one at the last update for the updated output), together with the current biases of both sensors. Publishing changes nothing.',
 ['histories'], 'all states of the estimator',
 SIM + ', which look at positions only.',
 BK, [('Backend::PublishPropagateState', BK[0]), ('Backend::PublishUpdateState', BK[0])])
prop('C28', 'Scratch data reused between calls carries no information',
 'Buffers and matrices that survive a call only to save allocations are completely overwritten or emptied before they are read, so the result of a call never depends on earlier calls or on other estimator objects through them.',
 ['histories'], 'all sequences of calls, on any number of objects',
 'The tests run one estimator object per process.',
 INIT + UPD + CFG, [('function-local static buffers', B + 'src'), ('member work matrices', B + 'include')])
prop('C29', 'The attitude filter integrates, aligns and looks up attitudes correctly',
 'The filter starts only from a measurement whose magnitude matches gravity, with the attitude that maps the measured direction on gravity; afterwards each attitude is its predecessor rotated by the bias-free mean rate plus a proportional-integral correction towards the measured gravity direction, over the actual time difference. A lookup returns the stored attitude nearest to the requested time, and fails if that is farther than the tolerance.',
 ['inputs', 'histories'], 'all samples, time stamps, stored histories and requested times',
 SIM + ', starting at rest and level, and initialization looks up an attitude once.',
 ATT, [('AttitudeEstimate::Propagate', ATT[0]), ('AttitudeEstimate::GetAttitude', ATT[0]), ('AttitudeEstimate::CleanOldItems', ATT[0])])
prop('C30', 'The keyframe decision follows the configured thresholds',
 'A frame of the window is a keyframe if it is the oldest, or if compared with its predecessor it shares too few features seen by camera 0, their mean parallax is too large, or the position moved too far, each against its own configured threshold. The parallax of a shared feature is the distance between its measurements in those two frames, and a frame outside the window is not a keyframe.',
 ['inputs', 'configurations', 'histories'], 'all windows, features, poses and thresholds',
 SIM + '; a wrong decision changes which frame is dropped, not whether the run passes.',
 FRAME, [('FrameManager::IsKeyFrame', FRAME[0]), ('Feature::GetNorm', FEAT[0])])
prop('C31', 'The shared rotation and matrix helpers implement their definitions',
 'The skew matrix acts as the cross product, the small-rotation quaternion is 1 plus half the rotation vector, left and right quaternion matrices reproduce the quaternion product, the homogeneous matrix holds the given rotation and translation, and the symmetric inverse inverts every positive eigenvalue in its own eigenbasis. Splitting and joining an error state uses the same component order everywhere.',
 ['inputs'], 'all vectors, quaternions and matrices',
 'Only exercised through the end-to-end simulations.',
 UTIL + PROP, [('Utility', UTIL[0]), ('PropagateQueue::ErrorStateConvert', PROP[0])])
prop('C32', 'Iterative triangulation never returns a worse point than its start',
 'The iterative triangulation accepts a step only if it strictly lowers the total reprojection error over all views, otherwise it restores the previous estimate and increases the damping; the returned point is the best estimate found. Its steps solve the damped normal equations with the true derivatives of the reprojection error and a weight that is 1 for small errors.',
 ['inputs'], 'all view sets, start points and measurement errors',
 'The one existing test starts from a consistent problem that converges in a few accepted steps.',
 TRI, [('Trianglator::TrianglateIterative', TRI[0]), ('Trianglator::CumputeJacobian', TRI[0]), ('Trianglator::ComputeResidual', TRI[0])])
prop('C33', 'An update uses only well-triangulated features of the newest frame, up to a cap',
 'The features of an update are features of the newest frame whose triangulation in this update succeeded, and at most the configured number of them. With none of them, the update still clones, marginalizes and recomputes, but corrects nothing.',
 ['inputs', 'histories', 'configurations'], 'all feature sets and outcomes of triangulation, all caps',
 SIM + ', with an ample supply of good features.',
 UPD, [('MultiViewVisionUpdate::SelectGoodFeatures', UPD[0]), ('MultiViewVisionUpdate::Update', UPD[0])])
prop('C34', 'Initialization anchors the start state to the first two frames',
 'Initialization needs two frames at different times; it takes the attitude filter estimate at the first frame, puts that frame at the origin, triangulates within it, solves the second pose from at least ten solved features seen by camera 0, converts it from camera to body with the extrinsics of that camera, and uses the displacement over the time between the frames as velocity. The propagated states then start at the first frame and run through all later stored samples; if any step fails, initialization fails.',
 ['inputs', 'histories'], 'all frame pairs, feature sets and failure points',
 SIM + ', in which initialization is carried out once, nearly at rest.',
 INIT, [('Backend::Initialize', INIT[0]), ('Backend::EstimateFramePose', INIT[0]), ('Backend::InitializePropagator', INIT[0])])
prop('C35', 'Queries and diagnostics change nothing',
 'Printing information, looking up frames, observations and attitudes, deciding on keyframes or marginalization, listing shared features and publishing states leave every stored quantity of the estimator unchanged.',
 ['histories', 'inputs'], 'all states of the estimator',
 'Tests look at outputs of a fixed call sequence, not at side effects of queries.',
 FEAT + FRAME + BK + ATT, [('Information functions', B + 'src'), ('GetFrame, GetNorm, GetAttitude, IsKeyFrame, NeedMarginalize, GetCovisibleFeatures, Publish*State', B + 'src')])
prop('C36', 'Message objects hold exactly what they were built from',
 'Every message object built from values holds each value in its own field, a feature message built from lists of different lengths is empty, and clearing a message leaves none of its content. Reading a camera measurement succeeds exactly if that camera has one, and returns it.',
 ['inputs'], 'all constructor arguments and contents',
 SIM + ', built with consistent lists only.',
 [B + 'src/data_manager/data_typedef.cpp'], [('message constructors and Clear', B + 'src/data_manager/data_typedef.cpp'), ('FeatureObserve::GetNorm', B + 'src/data_manager/data_typedef.cpp')])

NA = [
prop('N01', 'The estimated trajectory stays close to the true one',
 'For every motion and every realistic sensor noise the position error of the estimator stays within a stated bound.',
 ['inputs'], 'all trajectories, scenes and noise realizations',
 'Three recorded trajectories are compared with a tolerance of 3 m.', UPD + PROP, [('the whole filter', B + 'src')]),
prop('N02', 'The joint covariance stays positive semidefinite in floating point',
 'No sequence of propagations and updates in single precision makes a variance negative.',
 ['inputs', 'histories'], 'all sequences of measurements and roundings',
 'Only the recorded runs are seen.', UPD + PROP, [('MultiViewVisionUpdate::UpdateState', UPD[0])]),
prop('N03', 'The iterative pose and point solvers converge near the true solution',
 'Started close enough, PnP and iterative triangulation converge to the minimum of the reprojection error within their iteration limits.',
 ['inputs'], 'all well-conditioned problems and start values',
 'One random problem per solver is tried.', PNP + TRI, [('PnPSolver, Trianglator', B + 'src/geometry')]),
prop('N04', 'The backend keeps up with the sensors in real time',
 'One step takes less time than one sensor period on the target hardware.',
 ['inputs', 'configurations'], 'all window and feature numbers',
 'The tests measure no time.', BK, [('Backend::RunOnce', BK[0])]),
prop('N05', 'The filter is statistically consistent',
 'The covariance the filter reports matches the spread of its actual errors.',
 ['inputs'], 'all noise realizations',
 'No test compares errors with the covariance.', UPD + PROP, [('the whole filter', B + 'src')]),
]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
