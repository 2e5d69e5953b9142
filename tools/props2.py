prop("C05", "The pose looked up for a past frame is the stored or interpolated clone pose",
 "GetAugState returns, for a frame cloned in its own window (ALL, or the primary camera), exactly that clone; otherwise, for a past time, the pose linearly interpolated in position and geodesically in attitude between the two neighbouring clones (or the newest clone and the current pose), the oldest clone for earlier times, together with the matching interpolation weight and the earlier clone's state index. A lookup never changes the filter.",
 ["histories", "inputs", "configurations"], "every word over frames of two cameras, predictions, corrections and late registrations up to the depth bound, for four augmentation types; every stored frame and a grid of times in every state reached",
 "Tests look up one time in one hand-made window; edges (exact clone times, one clone, time zero intervals) depend on the history.",
 EKF, [("EKF::GetAugState", "src/ekf/ekf.cpp")],
 "explicit enumeration of operation words on the real filter; every lookup compared with the defining interpolation", NOTE)

prop("C06", "Filter time starts at the first message and never runs back; only gaps count",
 "The first message defines local time zero unless the filter was initialised explicitly; afterwards filter time equals the largest local time seen and never decreases; a prediction to an earlier time changes nothing, and before gravity is initialised a prediction only moves time. Adding a constant to every message time changes neither estimates, covariance nor initialisation decisions.",
 ["histories", "schedules", "inputs"], "every word of sensor messages, predictions and stale messages up to the depth bound for nine configurations, each run again under clock offsets",
 "Tests use one clock starting near zero and messages in order.",
 EKF + ["src/ekf/update/imu_updater.cpp", "src/ekf/update/gps_updater.cpp"], [("CalculateLocalTime, PredictModel", "src/ekf/ekf.cpp")],
 "explicit enumeration of message words, real filters with shifted clocks in lockstep", NOTE)

prop("C07", "The filter stays finite, symmetric, positive; measurements never add uncertainty",
 "For every stream of valid sensor messages, state and covariance stay finite, all attitudes stay unit quaternions, the covariance stays symmetric and positive semi-definite (in square-root form: its product), and an IMU-at-rest, GPS, fiducial or feature measurement at the current time never increases the uncertainty of any combination of states. This includes stale messages, frames without tracks and tracks without any stored clone.",
 ["histories", "configurations"], "every word of messages up to the depth bound and every periodic schedule of short period over 30 messages, for sixteen configurations in both covariance forms",
 "Numerical breakdown needs particular message orders and covariance magnitudes.",
 EKF + ["src/ekf/update/updater.cpp", "src/ekf/update/imu_updater.cpp", "src/ekf/update/gps_updater.cpp", "src/ekf/update/fiducial_updater.cpp", "src/ekf/update/msckf_updater.cpp"], [("KalmanUpdate, PredictModel, updaters", "src/ekf/update/*.cpp")],
 "explicit enumeration of message words and periodic schedules on the real filter and updaters with health invariants", NOTE)

prop("C11", "Only parameters flagged for calibration are estimated, and those are",
 "A sensor's extrinsic and intrinsic parameters that are not flagged for calibration keep exactly their registered values for every message stream; each group that is flagged (IMU orientation, IMU biases, GPS antenna, camera pose, fiducial pose) is corrected by informative measurements, and the variances of flagged antenna, camera and fiducial poses fall. Leaving a mounting, antenna or board unflagged means exactly the same as flagging it with no uncertainty: the body estimate and covariance are the same.",
 ["configurations", "histories"], "every calibration-flag combination of two IMUs, a GPS, two cameras and two fiducials; every word of their messages up to the depth bound",
 "320 flag combinations times message orders; tests use a handful with everything on.",
 EKF + ["src/ekf/types.cpp", "src/ekf/update/imu_updater.cpp", "src/ekf/update/gps_updater.cpp", "src/ekf/update/fiducial_updater.cpp"], [("State::operator+=, RegisterX", "src/ekf/types.cpp, src/ekf/ekf.cpp")],
 "exhaustive enumeration of flag combinations and message words on the real filter", NOTE)

prop("C12", "Packing, unpacking and correcting the state vector lose and mix nothing",
 "For every combination of sensors, calibration flags and clones, ToVector lists body, IMU, GPS, camera, fiducial and clone parameters at their indices, SetState undoes it (rotations as rotation vectors), unpacking or correcting one component affects exactly that component of exactly that sensor, corrections add positions, velocities and biases and compose rotations on the body side, successive corrections accumulate, and adding two states adds or composes each parameter with its own counterpart.",
 ["inputs", "configurations"], "all 54 675 structures of up to two sensors of each kind and three clone arrangements, four rotation magnitudes each, every single-component correction and pairs",
 "Tests check one or two structures; mistakes depend on which sensors are present, their order and flags.",
 ["src/ekf/types.cpp", "src/ekf/types.hpp"], [("State::ToVector, SetState, operator+=, GetStateSize", "src/ekf/types.cpp")],
 "exhaustive enumeration of state structures and corrections on the real code against a labelled model", NOTE)

prop("C13", "Rest detection, gravity initialisation and IMU dead reckoning follow the score",
 "Each IMU stays in its rest phase until, with gravity initialised, a reading's chi-square score under the current belief exceeds the threshold; from then on it is moving for good. Gravity is initialised by the first rest-phase reading scoring below the threshold. A rest reading corrects attitude, IMU orientation and biases (only calibrated ones) by the optimal gain, sets acceleration to gravity and rates to zero and turns zero-acceleration mode on; with a single IMU a moving reading turns it off and becomes the body's acceleration and angular rate. Both advance the filter to the message time.",
 ["histories", "inputs", "configurations"], "every word of readings of five motion levels from one or two IMUs, GPS messages and predictions up to the depth bound, for every flag combination, threshold and noise scale",
 "The phase automaton and its score depend on the history of the belief; tests feed one or two readings.",
 ["src/ekf/update/imu_updater.cpp", "src/ekf/ekf.cpp"], [("ZeroAccelerationUpdate, UpdateEKF", "src/ekf/update/imu_updater.cpp")],
 "explicit enumeration of reading sequences on the real updater in lockstep with the two-phase automaton", NOTE)

prop("C14", "GPS initialisation waits for its criterion, then aligns map and local frame",
 "With GPS initialisation by baseline or error threshold, GPS messages before initialisation change nothing in the estimate; the local frame is initialised by exactly the first message (from the fourth on) at which the largest horizontal distance between readings exceeds the baseline, or both the position and angle error of the alignment are below their thresholds; the reference then realises the least-squares planar (heading and translation) alignment of antenna positions and readings, for every heading and reference location, and never changes afterwards. The collected readings then count as one correction, which reduces the uncertainty of the position but leaves the estimate where it is. A configured or explicitly set reference is used as is.",
 ["histories", "inputs", "configurations"], "every word of GPS messages of two receivers up to the depth bound for headings over the full circle, reference points including the date line, both criteria, loose and strict thresholds, both covariance forms",
 "Whether and how initialisation happens depends on the whole history of antenna positions and readings; tests use one straight line with heading zero.",
 EKF + ["src/ekf/update/gps_updater.cpp", "src/utility/gps_helper.cpp", "src/utility/math_helper.cpp"], [("EKF::AttemptGpsInitialization", "src/ekf/ekf.cpp"), ("kabsch_2d", "src/utility/math_helper.cpp")],
 "explicit enumeration of GPS message words on the real filter in lockstep with the criterion and a closed-form alignment", NOTE)

prop("C15", "Geodetic conversions are WGS84-exact and mutually inverse everywhere",
 "Conversions between latitude/longitude/altitude, earth-centred, east-north-up and local coordinates agree with the WGS84 definitions to within 0.01 mm (0.1 mm after the inverse geodetic solution, 1 mm for an offset), are inverse to each other, return latitudes in [-90, 90] and longitudes in [-180, 180], and the local rotation is the rotation by the heading, at every place on earth including poles, equator and date line.",
 ["inputs"], "a grid of latitudes, longitudes and altitudes with the poles, equator, date line and their neighbourhoods; 48 offsets at every point; headings over the full circle",
 "Tests convert a handful of points; sign, quadrant and pole errors need particular places.",
 ["src/utility/gps_helper.cpp"], [("lla_to_ecef, ecef_to_lla, lla_to_enu, enu_to_lla, enu_to_local", "src/utility/gps_helper.cpp")],
 "exhaustive enumeration of a bounded input grid on the real code against an independent WGS84 implementation", NOTE)

prop("C19", "Triangulation, lens model and feature elimination are geometrically exact",
 "A feature seen without noise from known camera poses is triangulated to its position for every camera mounting, augmentation type, track length and subset of frames, and is used exactly if its depth in the first frame lies between the configured minimum and 100 m; a known true position is used as is; triangulating never changes the filter. Projection and lens distortion follow the pinhole and radial-tangential model and their Jacobians are their derivatives, and the camera matrix and distortion vector handed to OpenCV describe the same lens. Eliminating the feature and compressing the measurements keep exactly the information about the state that is independent of the feature position, with at most as many rows as states.",
 ["inputs", "configurations"], "grids of bearings, depths (too near, too far, behind), camera mountings, augmentation types and every subset of up to seven frames; grids of image points times 81 coefficient sets; every matrix shape up to the bound in four rank patterns",
 "Tests triangulate one feature with identity extrinsics and check signs of single Jacobian entries.",
 ["src/ekf/update/msckf_updater.cpp", "src/utility/math_helper.cpp"], [("TriangulateFeature, Project, Distort, DistortionJacobian, ProjectionJacobian", "src/ekf/update/msckf_updater.cpp"), ("ApplyLeftNullspace, CompressMeasurements", "src/utility/math_helper.cpp")],
 "exhaustive enumeration of bounded geometric configurations on the real code against the defining geometry", NOTE)

prop("C20", "Each sensor correction is the optimal update for its measurement model",
 "For every history, a GPS, fiducial, moving multi-IMU or feature-track message changes estimate and covariance exactly as the textbook Kalman correction at the message's time does: residual = reading minus the physical measurement model at the current estimate (antenna, camera, board and IMU offsets, lever arm, biases, clone or interpolated clone pose), Jacobian = derivative of that model along the filter's own correction, noise = the stated covariance (pixel error at least 0.5). An uncalibrated sensor's parameters enter the residual but not the Jacobian, nor does the attitude for IMU readings; the feature error is projected out of tracks of estimated features only, not of known landmarks; tracks out of depth range are skipped; with several IMUs the correction precedes the prediction to the message time.",
 ["histories", "configurations"], "every word of messages of up to three IMUs, two GPS receivers, two cameras and two boards, known and unknown features, stale messages and predictions up to the depth bound, plus all short periodic schedules, for twelve configurations in both covariance forms",
 "A wrong Jacobian block or frame still reduces residuals in the few samples a test feeds; it is only visible against the exact correction with correlations built by a history.",
 ["src/ekf/update/gps_updater.cpp", "src/ekf/update/fiducial_updater.cpp", "src/ekf/update/imu_updater.cpp", "src/ekf/update/msckf_updater.cpp", "src/ekf/update/updater.cpp"], [("PredictMeasurement, GetMeasurementJacobian, KalmanUpdate", "src/ekf/update/*.cpp")],
 "explicit enumeration of message words on the real filter in lockstep with a reference correction built from numerically differentiated measurement models", NOTE)

prop("C21", "First-estimate Jacobians freeze only the sensor linearisation point",
 "With first-estimate Jacobians on, each GPS, fiducial and feature updater linearises its own sensor parameters (antenna; camera and board; camera) at the values they had at that updater's first correction (for GPS, the readings that initialise the filter included), while residuals, body pose and clones always use the current estimate; so the first correction of every updater equals the one without the option. With the option off no linearisation point is ever frozen.",
 ["histories", "configurations"], "every word of messages up to the depth bound and all short periodic schedules for twelve configurations in both covariance forms, in lockstep with the reference correction and with a filter without the option",
 "Freezing shows only from the second correction on, after the calibration has moved.",
 ["src/ekf/update/gps_updater.cpp", "src/ekf/update/fiducial_updater.cpp", "src/ekf/update/msckf_updater.cpp"], [("RefreshStates, m_is_first_estimate", "src/ekf/update/*.cpp")],
 "explicit enumeration of message words on the real filter in lockstep with a reference correction with frozen linearisation points", NOTE)

prop("C22", "Feature tracks are consistent, end on time and are used exactly once",
 "For every image sequence, detector, descriptor and matcher, the tracks handed to the feature update are exactly the finished ones: chains of consecutive frames linked by matches that pass the ratio, symmetry, epipolar (at least ten matches) and distance tests, between the minimum and maximum track length, handed over at the frame where the feature is first missing (blank frames included) or where the track is full. Every observation is used at most once, in pixels of the input image (also when down-sampling), with the identifier and time of its frame, whose clone still exists; one update per frame, at the message time with the configured pixel error. At most one feature per 10-pixel cell is kept.",
 ["histories", "inputs", "configurations"], "every word of image frames (motions, blank, scene change, half covered, unchanged) up to the depth bound and all short periodic sequences over 12 frames, for six detector, length and augmentation settings; all small match lists",
 "Which tracks are alive depends on the whole image history; the tests track a fixed image list without looking at the tracks.",
 ["src/trackers/feature_tracker.cpp", "src/trackers/feature_tracker.hpp", "src/sensors/camera.cpp"], [("Track, RatioTest, SymmetryTest, RANSAC, DistanceTest, GridFeatures", "src/trackers/feature_tracker.cpp")],
 "explicit enumeration of image sequences through the real camera and tracker in lockstep with a track life-cycle model", NOTE)

prop("C16", "The data logger writes exactly the lines due, completely and in order",
 "A data logger writes nothing until enabled; once enabled, its file is the header followed by every plain line and every rate-limited line that is due, complete on disk after each call and in call order. A rate-limited line is due if it is the first, if the rate is zero (no limit), or while fewer lines than rate times the time since the first were written, whatever the starting time (zero and negative included). Changes of rate, header or file name before the first line take effect; they never disturb lines already written, and a file of the same name that an earlier run left is replaced.",
 ["histories", "inputs"], "every word of log calls (plain, rate-limited at equal, later and earlier times), enabling, rate, header and file changes up to the depth bound from four starting points, and every short periodic word over 24 calls",
 "The limiter depends on the whole call history; the test writes one file.",
 ["src/infrastructure/data_logger.cpp"], [("RateLimitedLog, Log, EnableLogging", "src/infrastructure/data_logger.cpp")],
 "explicit enumeration of call sequences on the real logger, file contents compared with a reference log after every call", NOTE)

prop("C17", "The CSV logs describe the filter, one complete row per processed message",
 "With logging on, every sensor message adds one row to that sensor's log and to no other sensor's, and every row has as many numbers as the header has columns, whose names are unique and start with time. The row gives the filter time, the measurement, its residual (reading minus prediction), whether the IMU was taken to stand, and the sensor's estimated parameters after the update, and the variances of exactly the calibrated ones (taken from the covariance, in full and in square-root form). The body log gives body state, variances and state size at every prediction; every clone made appears in the clone log. No log grows faster than the configured rate, and with logging off no file is written.",
 ["histories", "configurations"], "every word of sensor messages and predictions up to the depth bound, and short periodic words over 14 to 20 messages, for twelve configurations in both covariance forms, at an unlimited, a low and a zero rate",
 "Rows depend on flags, covariance form and message order; tests never parse the logs.",
 EKF + ["src/ekf/update/imu_updater.cpp", "src/ekf/update/gps_updater.cpp", "src/ekf/update/fiducial_updater.cpp", "src/ekf/update/msckf_updater.cpp", "src/utility/string_helper.cpp"],
 [("UpdateEKF log rows", "src/ekf/update/*.cpp"), ("EKF::LogBodyStateIfNeeded, AugmentStateIfNeeded", "src/ekf/ekf.cpp")],
 "explicit enumeration of message words on the real filter; every log file parsed and compared column by column with the filter after every message", NOTE)

prop("C18", "Debug messages appear exactly when their level is enabled",
 "A debug message is written exactly once, complete and with its level's name, if its level is at or above the current threshold's severity, and not at all otherwise; fatal, error and warning messages go to the error output, information and debugging messages to the standard output. The threshold is the one set last, by name or by number.",
 ["histories"], "every word of messages and threshold changes up to the depth bound for every initial threshold",
 "The test prints a few lines without looking at them.",
 ["src/infrastructure/debug_logger.cpp"], [("Log, SetLogLevel", "src/infrastructure/debug_logger.cpp")],
 "explicit enumeration of call sequences on the real logger with captured outputs", NOTE)

prop("C27", "Fiducial boards in images become exactly one correct pose measurement each",
 "For every image, each fiducial tracker of the camera hands the filter exactly one pose measurement if its board (ArUco grid or ChArUco, of its dictionary and any size) is visible well enough to determine a pose, and none otherwise (blank images, other boards, too few corners): the board's pose in the camera frame, in metres with a unit quaternion, with this camera's intrinsics and lens distortion, the message's time, the frame of this image and the board's own configured error. A measurement corrects only its own board, a frame without one changes no board, and the input image is not modified.",
 ["inputs", "histories", "configurations"], "a grid of board poses for four boards with and without lens distortion, every rectangle of visible squares of each board, and all words of frames (boards present, absent, partly covered, swapped) up to the depth bound with two boards",
 "Tests feed one or two images and do not look at the pose.",
 ["src/trackers/fiducial_tracker.cpp", "src/sensors/camera.cpp", "src/ekf/update/fiducial_updater.cpp"], [("FiducialTracker::Track, DetectAruco, DetectCharuco", "src/trackers/fiducial_tracker.cpp"), ("Camera::Callback", "src/sensors/camera.cpp")],
 "exhaustive enumeration of rendered board views and image sequences through the real camera and trackers against the rendered pose", NOTE)

prop("C25", "The simulated truth is consistent and its logs record it",
 "For every motion, true velocity, acceleration, body angular rate and angular acceleration are the derivatives of true position and orientation. A cyclic motion oscillates from its offset with the given amplitudes and frequencies; a spline passes its waypoints in order and reaches the last at the maximum time; a smoothed motion follows the lines between its timed waypoints, whose entries other than the first deviate by the configured errors. Before the stationary time the body rests, where the motion starts. Truth depends only on parameters and seed. Every sensor's true parameters are its own; the truth logs hold body, sensors, boards and features at every 1/rate from zero to the maximum time in named columns. Generated features lie in the requested camera's view, or on all six walls of the grid, and keep their identifier.",
 ["configurations", "inputs", "histories"], "grids of cyclic parameters, all waypoint words up to the length bound (repeated points included), grids of smoother settings, all on dense time grids; every subset of eleven sensors and boards for several log rates; grids of camera poses, counts and call orders for feature generation",
 "Tests look at one-axis motions with one setting at a few times.",
 ["src/infrastructure/sim/truth_engine.cpp", "src/infrastructure/sim/truth_engine_cyclic.cpp", "src/infrastructure/sim/truth_engine_spline.cpp", "src/infrastructure/sim/truth_engine_smoother.cpp"],
 [("GetBodyAngularRate, GetBodyAngularAcceleration", "src/infrastructure/sim/truth_engine_*.cpp"), ("WriteTruthData, GenerateVisibleFeatures", "src/infrastructure/sim/truth_engine.cpp")],
 "exhaustive enumeration of bounded motion parameters, waypoint words and sensor subsets on the real code against differentiated poses", NOTE)

prop("C24", "Simulated sensors measure the simulated truth with just the errors asked for",
 "Every simulated measurement is what the true sensor (true mounting, bias, antenna, board) would measure at the message's time: specific force and rate at the IMU, the antenna in latitude, longitude and altitude, the board pose in the camera. Without errors it is exact, true parameters are the configured ones, and message i comes at i/rate, floor(duration x rate) of them. With errors, true parameters and measurements deviate with the configured standard deviation on each axis, times by a common offset within one period plus the time error. Covariances are the squares of the configured noise. Messages carry the right sensor, tracker and frame numbers, frames are unique and increasing. One seed gives one data set.",
 ["configurations", "inputs"], "every combination of six motions, mountings, biases, eight error settings, rates and durations, references and headings, and numbers of cameras, trackers and boards; parameter errors over every seed of a range",
 "Tests only run the generators or look at a single still motion.",
 ["src/sensors/sim/sim_sensor.cpp", "src/sensors/sim/sim_imu.cpp", "src/sensors/sim/sim_gps.cpp", "src/sensors/sim/sim_camera.cpp", "src/trackers/sim/sim_fiducial_tracker.cpp", "src/utility/sim/sim_rng.cpp"],
 [("GenerateMessages, GenerateMeasurementTimes", "src/sensors/sim/*.cpp"), ("GenerateMessage", "src/trackers/sim/sim_fiducial_tracker.cpp")],
 "exhaustive enumeration of sensor configurations, motions and error settings on the real generators against measurements differentiated from the truth", NOTE)

prop("C23", "Simulated feature tracks are the finished runs of visibility of true features",
 "Each simulated tracker message holds exactly the tracks that end at its frame: a true feature that was in view (in front of the camera, projected inside the image with the true intrinsics, distortion and true pose) in all of the tracker's frames up to now is handed over when it is first out of view, or when the track reaches the maximum length, if it has the minimum length; otherwise it is dropped. Observations carry frame, time and identifier of the feature and its exact projection, rounded to whole pixels when errors are on, together with its true position. Features never move; as many new ones as are missing to the wanted count appear, in view. The tracks reach the camera's filter update once, unchanged, with the configured pixel error.",
 ["histories", "configurations"], "every word of six camera poses up to the depth bound and all short periodic words over 24 frames, for seven settings of track lengths, counts, errors, distortion and cameras",
 "Which tracks end depends on the history of views; the tests look at message counts of one motion.",
 ["src/trackers/sim/sim_feature_tracker.cpp", "src/infrastructure/sim/truth_engine.cpp"], [("GenerateMessage, GetVisibleKeypoints, FilterInvisiblePoints", "src/trackers/sim/sim_feature_tracker.cpp"), ("GenerateVisibleFeatures", "src/infrastructure/sim/truth_engine.cpp")],
 "explicit enumeration of pose words through the real simulated tracker in lockstep with a life-cycle model fed by an independent projection", NOTE)

prop("C29", "Sensors configure the filter and hand every message over unchanged",
 "A constructed IMU, GPS receiver, camera or fiducial has a new, larger identifier than all before, and the filter then estimates exactly what was configured: offsets, biases, intrinsics, rate, stabilities and calibration flags, with the configured prior variances of the parameters that are calibrated (at least 1e-6 for IMUs and cameras). Every message given to a sensor corrects that sensor's own parameters once, with the message's time, values and covariance: simulated cameras first predict and store the frame, then use the non-empty tracks of each of their trackers, however many, and every visible board, and nothing else.",
 ["configurations", "histories"], "every combination of calibration flags, covariance form and prior variances (also below the minimum) for two sensors of each kind; every word of messages up to the depth bound and all two-letter periodic words",
 "Depends on flag combinations and on message histories across sensors; tests construct one sensor and run one callback.",
 ["src/sensors/sensor.cpp", "src/sensors/imu.cpp", "src/sensors/gps.cpp", "src/sensors/camera.cpp", "src/sensors/sim/sim_camera.cpp", "src/trackers/tracker.cpp", "src/trackers/fiducial_tracker.cpp", "src/trackers/sim/sim_fiducial_tracker.cpp"],
 [("constructors, Callback", "src/sensors/*.cpp"), ("SimCamera::Callback", "src/sensors/sim/sim_camera.cpp")],
 "explicit enumeration of configurations and message words on the real sensor objects in lockstep with a filter driven directly", NOTE)

prop("C26", "The simulation runs what the configuration says, every message once, in order",
 "For every configuration, the simulation constructs exactly the listed sensors, trackers, boards, truth and filter with every given parameter at its place and the documented default for every other; a camera uses the tracker and board it names, with its own lens, calibration flag and log rate; the filter starts at time zero at the configured pose (plus the configured initial error), its track limit is the longest of all trackers and boards, and without trackers it clones nothing. Every generated message is handed exactly once to the sensor that made it, in time order, as many as rate and duration say; the same seed repeats a run and another one does not; logs go to the given directory.",
 ["configurations", "inputs"], "nothing, everything, each parameter alone, each missing and pairs of about 130 parameters for each kind of truth; 0 to 2 sensors of each kind with every assignment of trackers and boards; all pairs of seeds",
 "A parameter read under another name or into the wrong sensor shows only in a configuration that sets it; the repository has no test of the application.",
 ["src/application/sim/simulation.cpp", "src/utility/type_helper.cpp"], [("main, LoadSensorParams, LoadTrackerParams", "src/application/sim/simulation.cpp")],
 "explicit enumeration of configurations through the real application, observed at the interfaces of its components, against a parameter table", NOTE)

prop("C28", "Matrix surgery, covariance roots and packed text keep exactly the information",
 "Inserting a block into a matrix or removing a range from it moves every other entry to its new place unchanged and leaves zeros beside the new block, for every shape and position. The square root of a covariance reproduces it at every rank and scale; stacking roots gives the root of the sum; removing states from a root gives the root of the remaining marginal covariance. So any sequence of insertions and removals on a covariance and on its root describes the same distribution. Lower bounds, skew-symmetric matrices and comma-separated values and headers hold every element once, in order.",
 ["inputs", "histories"], "every shape, block shape and position up to the bound with labelled entries; every integer root with entries -1, 0, 1, every pair of such blocks, scaled from 1e-8 to 1e8; every word of insertions and removals up to the depth bound",
 "Tests remove one block from one matrix; an error in a position, rank or sign moves information silently between states.",
 ["src/utility/math_helper.cpp", "src/utility/string_helper.cpp", "src/utility/type_helper.cpp"], [("InsertInMatrix, RemoveFromMatrix, CovarianceSquareRoot, QR_r, RemoveFromRootMatrix", "src/utility/math_helper.cpp")],
 "exhaustive enumeration of matrices and of insertion/removal words on the real helpers in lockstep with a marginalisation model", NOTE)

prop("C30", "Rotation conversions, averages and planar fits are exact everywhere",
 "Rotation vectors, quaternions and matrices convert into each other as the exponential and logarithm do, for every axis and angle from zero over tiny to half and full turns and for both signs of a quaternion; the conversion Jacobian is the derivative. Vectors of numbers become the vectors and unit quaternions they list. The (weighted) average of vectors is their (weighted) mean; the largest distance is the largest over all pairs; the planar fit returns the heading and translation that minimise the squared distances between two point sets, exact for a rigid motion.",
 ["inputs"], "grids of axes times angles through zero, tiny, quarter, half and full turns; Euler angles with gimbal lock; every set of up to five points of a grid times rigid motions",
 "Small-angle and half-turn branches switch at thresholds the handful of tested rotations do not reach.",
 ["src/utility/math_helper.cpp", "src/utility/type_helper.cpp"], [("RotVecToQuat, QuatToRotVec, average_vectors, kabsch_2d, maximum_distance", "src/utility/math_helper.cpp, src/utility/type_helper.cpp")],
 "exhaustive enumeration of rotations and point sets on the real functions against defining equations", NOTE)

prop("C31", "The ROS node builds what its parameters say and forwards each message once",
 "Started with any parameters, the node builds exactly the listed IMUs, cameras with the trackers and boards they name, GPS antennas and filter, every parameter at its place and every other at its documented default, and subscribes each sensor to its topic once. Every IMU, image and GPS message reaches its own sensor exactly once with stamp, values and covariances unchanged, so the filter ends where the same sensors fed directly end; messages for no known sensor change nothing. The camera's image is republished once per frame, the published state is the filter's, and the debug log carries each message of sufficient level unaltered; without trackers nothing is cloned.",
 ["configurations", "histories"], "each parameter alone, each missing and pairs; 0 to 2 sensors of each kind with every assignment of trackers and boards; every word of messages on the sensors' topics up to the depth bound",
 "The node is built only with ROS present, where its one test calls each callback once and asserts nothing.",
 ["src/application/ros/node/ekf_cal_node.cpp", "src/sensors/ros/ros_imu_message.cpp", "src/sensors/ros/ros_gps_message.cpp", "src/sensors/ros/ros_camera_message.cpp", "src/sensors/ros/ros_camera.cpp", "src/utility/ros_helper.cpp", "src/infrastructure/ros/ros_debug_logger.cpp"],
 [("EkfCalNode load and callback functions", "src/application/ros/node/ekf_cal_node.cpp")],
 "explicit enumeration of parameter sets and message words on the real node over stand-ins for the ROS packages, in lockstep with directly driven sensors", NOTE)

PYNOTE = ("Exhaustive within the stated bounds, on the repository's own scripts under the installed Python; pandas and bokeh are "
          "stand-ins (harness/py_stub), and the reference model in the harness is trusted.")
prop("C32", "The evaluation script runs exactly the simulations asked for, each once",
 "Evaluating configurations simulates each of them exactly once, or, with several runs (from the configuration or -n), once per run: every run has its own folder numbered one by one, its own run number counting from the configured one, and its own seed (unless that is zero), reproducible from the configured seed; every other parameter is the configured one, and the time limit is the one given with -t. The given files are not changed. Output and errors of each run are kept in its folder. A run that fails, is killed or finishes in any order does not disturb the others, and the statistics are those over all runs.",
 ["configurations", "schedules", "histories"], "every combination of run counts, command-line options, seeds and start numbers; every order in which the runs can finish times every way each can end; sets of inputs, paths, cores, workers and repeated evaluations",
 "The repository has no test of its Python tools; run numbering and seeds go wrong only at certain run counts.",
 ["eval/run.py", "eval/evaluate.py", "eval/utilities.py", "eval/input_parser.py"], [("add_mc_runs, run_sims", "eval/run.py"), ("generate_mc_lists", "eval/utilities.py")],
 "exhaustive enumeration of configurations, completion orders and run outcomes through the real scripts with a recording simulator, against a model of the runs", PYNOTE)

prop("C33", "Statistics and report say what the logs say",
 "For every set of logs, each statistic is the mean and deviation over the runs of the root mean square difference between estimate and truth at the time of the estimate (angles as rotation angles in radians, headings the short way round), of the logged sizes and durations, or, for GPS, of the first reference in use; each report figure draws, for every run and axis, exactly the logged values, or their errors in the stated unit, over the logged times; the normalised error is the sum of squared errors over the logged variances, with the chi-squared limits of as many parameters; durations are counted once each. Every run and every sensor, whatever its identifier, is compared with its own truth, also where other runs lack a log. Unfinished last rows are left out.",
 ["inputs", "configurations"], "about thirty sets of sensors, calibration flags and identifiers times relations of estimate and truth times, rows logged per run, logs cut short, and rows at which the GPS reference is found; and the logs the real simulator writes for every repository configuration",
 "The repository has no test of its Python tools; a wrong column, unit or run pairing still gives plausible plots.",
 ["eval/stats.py", "eval/report.py", "eval/utilities.py", "eval/tab_body.py", "eval/tab_imu.py", "eval/tab_msckf.py", "eval/tab_fiducial.py", "eval/tab_gps.py"],
 [("calc_sim_stats", "eval/stats.py"), ("tab_*.get_tab", "eval/tab_*.py"), ("interpolate_error, interpolate_quat_error, find_and_read_data_frames", "eval/utilities.py")],
 "exhaustive enumeration of bounded log sets through the real scripts with recording figures, against an independent reading of the same files", PYNOTE)

prop("C34", "Estimates do not depend on the choice of origin, heading, clock or identifiers",
 "Told the same messages in another local frame (turned by any angle about the vertical, moved anywhere, with another heading or place of the GPS reference), on another clock, and with other identifiers of sensors, boards and frames, the filter computes the same estimate, calibration, clones and covariance, told back in that frame, after every message; so clones, rest detection and GPS initialisation happen at the same messages too.",
 ["histories", "configurations"], "every word of messages of all sensors up to the depth bound and all short periodic schedules, for nine configurations in both covariance forms (all clone types, both GPS initialisation criteria), each under eight changes of frame, clock, place and numbering",
 "It relates two runs of the filter; a term in the wrong frame or an identifier used as an index gives plausible results in the one frame and numbering a test uses.",
 ["src/ekf/ekf.cpp", "src/ekf/types.cpp", "src/ekf/update/imu_updater.cpp", "src/ekf/update/gps_updater.cpp", "src/ekf/update/fiducial_updater.cpp", "src/ekf/update/msckf_updater.cpp", "src/utility/gps_helper.cpp"],
 [("PredictModel, AugmentStateIfNeeded, GetAugState", "src/ekf/ekf.cpp"), ("UpdateEKF", "src/ekf/update/*.cpp")],
 "explicit enumeration of message words on two real filters with different observers, compared after every message", NOTE)

prop("C35", "A correct estimate fed with error-free readings stays correct",
 "If the filter starts at the truth and every IMU, GPS, board and camera reading is what the true body, sensor mountings, biases, boards and features produce (features of known or unknown position), then after every message, in any order and with any clone type, the estimated body pose, velocity, rotation rate and accelerations, all calibrated and uncalibrated sensor parameters, board poses and clones equal the truth at the filter's time, whether the body rests, drifts at constant velocity, turns at a constant rate or both. (IMU readings are used at the pose the filter has reached, and a single IMU is taken to sit at the body origin; so a turning body is first predicted to the time of each IMU reading and carries a single IMU at its origin.)",
 ["histories", "configurations"], "every word of error-free messages of up to two IMUs, two GPS receivers, two cameras and two boards and predictions up to the depth bound and all short periodic schedules over 16 messages, for four motions and six configurations in both covariance forms",
 "Tests feed readings that disagree with the estimate and check that something changes; a constant wrong offset in one model shows only when nothing should change.",
 ["src/ekf/ekf.cpp", "src/ekf/update/imu_updater.cpp", "src/ekf/update/gps_updater.cpp", "src/ekf/update/fiducial_updater.cpp", "src/ekf/update/msckf_updater.cpp", "src/ekf/update/updater.cpp"],
 [("PredictMeasurement, UpdateEKF", "src/ekf/update/*.cpp"), ("PredictModel, GetAugState", "src/ekf/ekf.cpp")],
 "explicit enumeration of message words on the real filter and updaters against a closed-form world", NOTE)

NOT_APPLICABLE = []

prop("C36", "The animation replays the logged paths of all runs",
 "For every set of runs and logs of any length, the animation of a configuration takes five seconds and shows, in every frame and for every run that left a log, a piece of at least one and exactly the logged positions in their order, that advances in proportion to time, reaches the last logged position in the last frame and is at most one second of the replay long. The limits of the axes span all positions of all runs of that configuration and of no other. There is one animation per configuration, saved with its results under its name, and unfinished last rows are left out.",
 ["inputs", "configurations"], "log lengths around every multiple of the number of frames, alone and cut short; every pair of lengths as two runs and as two configurations; runs without a log; run counts from the configuration and from the command line",
 "The repository has no test of its Python tools; whether anything is drawn depends on the number of rows per frame.",
 ["eval/animate.py", "eval/utilities.py"], [("generate_animation", "eval/animate.py"), ("generate_mc_lists, find_and_read_data_frames", "eval/utilities.py")],
 "exhaustive enumeration of bounded log sets through the real script with recording figures, against the rows of the logs", PYNOTE)
