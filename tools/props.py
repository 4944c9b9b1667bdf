WHY = "The one stable test of the repository covers timer statistics only; nothing executes the estimator. "

def P(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=WHY + why, anchors=a, technique=technique, note=note)

CORE = "msf_core/include/msf_core/implementation/msf_core_inl.h"
PROPS = [
 P("C01", "No input makes the estimator crash, hang or touch invalid memory",
   "Whatever arrives on the sensor, IMU and external state topics, services, parameters and reconfiguration requests, in any order, before or after initialisation, also NaN, infinite or huge values, arrays of unexpected length and stamps far off, every call returns in bounded time and without out-of-bounds access, use of freed or uninitialised memory, undefined arithmetic or conversion, or a failed internal assertion.",
   ["inputs", "histories", "configurations"], "all sequences of messages, requests and parameters on the five applications and direct calls of the library parts; the clock is running when the filter is initialised",
   "One test with fixed arguments runs without instrumentation.",
   ["msf_core/include/msf_core", "msf_updates/include/msf_updates", "msf_updates/src", "msf_timing/src/Timer.cc", "msf_distort/src/msf_distort.cc"],
   [("state and measurement buffers", "msf_core/include/msf_core/msf_sortedContainer.h"), ("message handlers", "msf_updates/include/msf_updates"), ("external state input", "msf_core/include/msf_core/implementation/msf_sensormanagerROS.hpp")],
   "runtime monitoring: ASan, UBSan and memcheck over hostile message histories on all applications",
   "The real applications run against a message-bus shim; every event sequence is executed under the sanitizers and a time limit."),
 P("C02", "The estimate does not depend on when measurements arrive",
   "Measurements that arrive late, early, shuffled or in bursts lead to the same final state estimate and covariance as processing the same IMU data and measurements strictly in time order. The resulting covariance is symmetric.",
   ["schedules", "histories", "inputs"], "every delivery order and delay of a set of measurements within the buffered horizon, stamps on, near and between IMU samples; measurements at least 2.2 ms apart",
   "Arrival orders are unbounded; no test feeds the filter at all.",
   [CORE, "msf_core/include/msf_core/msf_sortedContainer.h", "msf_core/include/msf_core/implementation/msf_measurement_inl.h"],
   [("re-application of later measurements and repropagation", CORE + " MSF_Core::AddMeasurement"), ("interpolated state insertion", CORE + " MSF_Core::GetClosestState")],
   "runtime monitoring: differential oracle (batch filter) and metamorphic comparison of arrival orders through the applications, over randomised delivery schedules",
   "Randomised executions of the real filter compared with an independent batch reference that uses its own update equations and the filter's one-step propagation (which C05 and C06 judge)."),
 P("C03", "Each measurement is applied exactly once, in time order, when data covers it",
   "A measurement whose stamp is covered by IMU data takes effect immediately, together with all already known later measurements in time order, and one updated state of the newest time is published; a measurement ahead of the IMU data has no effect until it is covered and is then applied. No measurement is lost, applied to a state more than 1 ms away from its stamp, or has an effect twice, also when two measurements carry the same stamp.",
   ["schedules", "histories"], "all arrival schedules of measurements relative to the IMU stream",
   "The schedule space is unbounded and nothing tests it.",
   [CORE], [("scheduling", CORE + " MSF_Core::AddMeasurement, HandlePendingMeasurements")],
   "runtime monitoring: online trace-specification checker on instrumented measurements",
   "The application trace of instrumented measurements is compared with the specified sequence after every input."),
 P("C04", "Time-indexed buffer queries return the right element",
   "For any content and any query time, the time-indexed buffers return the nearest, previous, next, first or last element as specified, insertion keeps the time order, and removing old elements keeps the element nearest to the cut.",
   ["inputs", "histories"], "all operation sequences and query times, including empty buffers and queries outside the stored range",
   "Query positions relative to the contents are unbounded.",
   ["msf_core/include/msf_core/msf_sortedContainer.h"], [("sorted container", "msf_core/include/msf_core/msf_sortedContainer.h")],
   "runtime monitoring: model-based oracle over random operation sequences", "Every operation's result is compared with a reference model."),
 P("C05", "IMU propagation follows the strapdown equations with a unit quaternion",
   "Propagating the state over an IMU interval gives position, velocity and attitude that agree with integrating the bias-corrected, gravity-compensated IMU signal, to the order of accuracy of the scheme, with a unit attitude quaternion. All other estimated quantities are unchanged.",
   ["inputs"], "all states, biases, IMU readings and sample intervals in the operating range (0.5-100 ms, up to 4 rad/s, 30 m/s2)",
   "The input space is continuous and untested.",
   [CORE], [("state propagation", CORE + " MSF_Core::PropagateState")],
   "runtime monitoring: numerical oracle (sub-stepped integration) over random inputs", "Error budgets are derived from the leading neglected terms of the scheme."),
 P("C06", "Covariance propagation applies the linearised motion and the configured noise",
   "Propagating the covariance over an IMU interval transports it with the linearised error dynamics of the current state, adds the process noise of the configured sensor noise densities and of the additional states, and keeps it symmetric. The state estimate is not changed by it.",
   ["inputs", "configurations"], "all states, readings, intervals, noise settings and prior covariances",
   "The input space is continuous and untested.",
   [CORE, "msf_core/include/msf_core/implementation/calcQCore.h"], [("covariance propagation", CORE + " MSF_Core::PredictProcessCovariance")],
   "runtime monitoring: numerical oracle (matrix exponential, exact noise integral) over random inputs", "One known finding: the generated process-noise formula deviates from the exact integral; entries must be exact or equal the frozen formula."),
 P("C07", "Measurement updates are exact Kalman updates; outliers change nothing",
   "Applying a measurement changes state and covariance exactly as the Kalman update with the measurement's residual, Jacobian and noise does (Joseph form). The covariance stays symmetric, positive semidefinite and never grows. A measurement that fails its Mahalanobis test leaves state and covariance untouched; one that passes is applied. Fixed-size, dynamic-size and relative measurements behave alike.",
   ["inputs"], "all states, covariances (well and ill conditioned), Jacobians, residuals, noise matrices and thresholds",
   "The input space is continuous and untested.",
   ["msf_core/include/msf_core/implementation/msf_measurement_inl.h", "msf_core/include/msf_core/msf_state.h"],
   [("Kalman update", "msf_measurement_inl.h MSF_MeasurementBase::CalculateAndApplyCorrection"), ("relative update", "msf_measurement_inl.h CalculateAndApplyCorrectionRelative"), ("state correction", "implementation/msf_state_inl.h GenericState_T::Correct")],
   "runtime monitoring: numerical oracle (independent Kalman update) around every observed measurement application",
   "The state before and after each application is compared with an independent update in different arithmetic; definiteness is checked by eigenvalues."),
 P("C09", "Faulty IMU streams never corrupt the filter",
   "Before initialisation IMU data has no effect. Duplicate or slightly out-of-order IMU messages are ignored; a stream restart (backward jump) or a non-numeric state turns the filter off, without publishing the bad state, until it is initialised again; large gaps before the first prediction only re-time the initial state; acceleration spikes never enter the propagation. In between every IMU message advances the state from the previous one and is published exactly once. Initialisation takes over the given values and drops everything received before.",
   ["histories", "inputs", "faults"], "all IMU streams with duplicates, reordering, gaps, spikes, NaN/inf and restarts, with interleaved measurements and re-initialisations",
   "Fault sequences are unbounded and untested.",
   [CORE], [("IMU processing", CORE + " MSF_Core::ProcessIMU"), ("initialisation", CORE + " MSF_Core::Init")],
   "runtime monitoring: online stream-specification checker under fault injection",
   "A model of the documented stream handling predicts the reaction to every message; state and covariance are compared after each."),
 P("C12", "Externally propagated states are taken over, or safely replaced or ignored",
   "With propagation done on an external controller, a received position, velocity and attitude become the estimate, the remaining quantities and the covariance continue from the last state; a message whose state is not propagated or not numeric is propagated internally instead. The first one keeps the initial covariance. Messages not newer than the last one are ignored, a large backward jump resets the filter, a gap of more than 5 s (either way) before the first one only re-times the initial state, acceleration spikes are not used, and measurements still update the estimate.",
   ["histories", "inputs", "faults"], "all streams of external state messages with gaps, duplicates, backward jumps and non-numeric contents, interleaved with measurements",
   "Message histories are unbounded and untested.",
   [CORE], [("external propagation", CORE + " MSF_Core::ProcessExternallyPropagatedState")],
   "runtime monitoring: online stream-specification checker under fault injection",
   "A model predicts the reaction to every message; state, covariance and publications are compared after each."),
 P("C13", "The filter keeps the last minute and lets go of everything older",
   "However long the filter runs, with regular, late, sparse, useless or no measurements, with internal or external propagation: states and measurements of about the last minute stay available, older ones are released, measurements that can never be used and everything received before initialisation are not kept, and an initialisation releases all of the past. Memory use is therefore bounded.",
   ["histories"], "all operation histories of minutes, with and without measurements",
   "Unbounded growth or early loss only shows over long histories.",
   [CORE, "msf_core/include/msf_core/msf_sortedContainer.h"], [("buffer clean-up", CORE + " MSF_Core::CleanUpBuffers")],
   "runtime monitoring: lifetime monitor (weak references to every state and measurement) over long histories",
   "Every published state and delivered measurement is watched by a weak reference; which are alive is compared with the horizon every 50 samples."),
 P("C14", "States held fixed stay fixed; the drift safeguard works as specified",
   "An update never changes a bias while biases are configured fixed, nor a quantity the sensor configuration holds fixed, and all other quantities are corrected as in a normal update. Once 30 updates have been seen since initialisation, an update that throws the drift-free frame rotation off its recent median by more than the threshold leaves every non-propagated quantity unaltered, and only then.",
   ["configurations", "histories", "inputs"], "all subsets of fixed quantities, update histories and correction sizes",
   "Configurations and histories are unbounded and untested.",
   [CORE, "msf_core/include/msf_core/msf_IMUHandler_ROS.h"], [("state fixing", CORE + " MSF_Core::ApplyCorrection"), ("safeguard", "msf_core/include/msf_core/msf_tools.h CheckFuzzyTracking")],
   "runtime monitoring: state monitors and numerical oracle around every update",
   "States are compared bit for bit before and after each update for the fixed quantities, and with an independent update for the others."),
 P("C15", "Relative measurements see the true transition between their two states",
   "For two buffered states the accumulated transition equals the product, in time order, of the one-step transitions between them, so that a relative measurement's gain uses the correct cross covariance; and the previous measurement of a sensor is the latest earlier one carrying its identifier, or none.",
   ["inputs", "histories"], "all pairs of buffered states and all measurement histories of several sensors",
   "Histories are unbounded and untested.",
   [CORE, "msf_core/include/msf_core/implementation/msf_measurement_inl.h"], [("accumulated transition", CORE + " GetAccumulatedStateTransitionStochasticCloning"), ("previous measurement", CORE + " GetPreviousMeasurement")],
   "runtime monitoring: numerical oracle (augmented-state filter) and model-based oracle",
   "The relative update is compared with an update of the augmented (cloned) state; the search with a reference model."),
 P("C08", "Every sensor's measurement updates the estimate through its true sensor model",
   "A pose, position, GPS, pressure height, angle or distance measurement corrects the estimate and covariance as the Kalman update with the exact residual and first-order sensitivity of that sensor's geometry does: scaled, rotated and shifted vision frame with camera lever arm (both pose conventions), antenna lever arm, height bias, spherical angles. Quantities configured fixed are excluded, noise comes from the configuration or from the message's covariance as configured, and outliers beyond the Mahalanobis threshold change nothing. A relative pose measurement acts on the change since the sensor's previous one; the first one changes nothing.",
   ["inputs", "configurations"], "all estimates and covariances, measured values, sensor configurations and input topics of the five applications; angle measurements away from the pole",
   "The input space is continuous and untested.",
   ["msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h", "msf_updates/include/msf_updates/position_sensor_handler/position_measurement.h", "msf_updates/include/msf_updates/pressure_sensor_handler/pressure_measurement.h", "msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h"],
   [("measurement Apply", "msf_updates/include/msf_updates/*/*_measurement.h"), ("sensor handlers", "msf_updates/include/msf_updates/*/implementation/*_sensorhandler.hpp")],
   "runtime monitoring: numerical oracle (differentiated independent sensor model) around every sensor message",
   "The Jacobian of the reference is obtained by numerical differentiation of an independent sensor model, residuals and noise in sensor terms; state before and after each message compared."),
 P("C10", "Sensor messages are admitted and dated as configured",
   "A sensor message takes effect exactly once, at its stamp minus the configured delay, leaving earlier states alone, unless it is to be discarded: pose messages closer to the last used one than the minimum interval, messages without covariance when message covariances are configured (or GPS fixes with unknown or zero covariance), transform position messages other than every fifth and pressure messages other than every tenth, and anything before the filter has predicted. Discarded messages change nothing. Unset parameters behave as their documented defaults.",
   ["histories", "configurations"], "all sequences of sensor messages on all input topics of the five applications, delays of either sign, all admission parameters",
   "Message histories are unbounded and untested.",
   ["msf_updates/include/msf_updates/pose_sensor_handler/implementation/pose_sensorhandler.hpp", "msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp"],
   [("sensor handlers", "msf_updates/include/msf_updates/*/implementation/*_sensorhandler.hpp")],
   "runtime monitoring: online trace-specification checker on ROS messages", "Number of updates and the first state changed by each message compared with the specification."),
 P("C11", "Published messages report the estimate faithfully",
   "After each propagation the pose, odometry and external-state messages, and after each update the correction, full state, pose, transform and covariance messages, are published once to their subscribers with the stamp, frames, values and covariance blocks of the state they report: body-frame velocity with its first-order covariance and bias-corrected rate in odometry, the difference to the external controller's last state in corrections, and its initial values at initialisation. Nothing is published otherwise, and no correction is sent if the navigation state is not numeric.",
   ["inputs", "histories", "configurations"], "all states, subscriber sets, frame names, playback and external propagation histories of the five applications",
   "Nothing tests the messages.",
   ["msf_core/include/msf_core/msf_sensormanagerROS.h", "msf_core/include/msf_core/implementation/msf_state_inl.h", "msf_core/include/msf_core/msf_IMUHandler_ROS.h"],
   [("publication", "msf_core/include/msf_core/msf_sensormanagerROS.h PublishStateAfterPropagation, PublishStateAfterUpdate, PublishStateInitial"), ("message conversion", "msf_core/include/msf_core/implementation/msf_state_inl.h ToExtStateMsg, ToFullStateMsg, GetPoseCovariance, ...")],
   "runtime monitoring: field-by-field oracle over every published message", "Every message on every topic is captured and compared with the state handed to the publisher."),
 P("C23", "Initialisation is consistent with sensors, parameters and settings",
   "Initialising an application by check box, height, scale or height service sets a finite, normalised state of the current time that predicts the latest measurement of every sensor, with the calibration from the parameters, the configured or derived scale (1 if not positive), the configured yaw, zero velocity and biases and the default covariance; requests by height without a measurement or with a height below 1 cm are refused and change nothing. Afterwards each noise density configured for a core or additional state grows exactly its own covariance.",
   ["inputs", "configurations", "histories"], "all parameters, settings, ways to initialise and measurements received before, for the five applications",
   "Configurations are unbounded and untested.",
   ["msf_updates/src/pose_msf/pose_sensormanager.h", "msf_updates/src/position_msf/position_sensormanager.h", "msf_updates/src/position_pose_msf/position_pose_sensormanager.h", "msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h", "msf_updates/src/spherical_msf/spherical_sensormanager.h"],
   [("initialisation", "msf_updates/src/*/*manager.h Init"), ("process noise", "msf_updates/src/*/*manager.h CalculateQAuxiliaryStates")],
   "runtime monitoring: state monitors after every initialisation against sensor models and configuration", "The initial state is checked by predicting each sensor's latest measurement with an independent model; noise by the growth of the covariance."),
 P("C16", "GPS coordinates map to true local East-North-Up coordinates",
   "With a reference point set, any geodetic position maps to its WGS84 position relative to the reference in the local East-North-Up frame, to rounding accuracy anywhere on and above the earth; the reference maps to zero, adjusting the reference height by z moves every result down by z along the local vertical, and without a reference the earth-fixed frame is used. In the applications the first satellite fix is the origin for the session, and every fix places the antenna at its local coordinates.",
   ["inputs", "histories"], "all latitudes, longitudes and altitudes, including poles and the date line, references, re-initialisations and height adjustments",
   "Conversions are not executed by any test.",
   ["msf_core/src/lib/gps_conversion.cc", "msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp"], [("conversion", "gps_conversion.cc WGS84ToENU, ECEFToENU"), ("reference", "gps_conversion.cc InitReference, AdjustReference")],
   "runtime monitoring: numerical oracle (independent WGS84 model in extended precision)", "Tolerances are a few ulps of the earth-fixed coordinates."),
 P("C17", "The similarity transform is the least-squares fit to its pose pairs",
   "From two or more pairs of poses, the computed rotation maximises the mean squared quaternion alignment, and scale and position are the least-squares solution for it; noise-free pairs of a well-posed configuration return the true transform. The reported condition number is that of the problem, below a given threshold the minimum-norm solution is used, and fewer than two pairs are refused. Quaternion signs do not matter.",
   ["inputs"], "all numbers of pairs, poses, noise levels and degenerate motions",
   "The transform is not executed by any test.",
   ["msf_core/src/similaritytransform.cc", "msf_core/include/msf_core/similaritytransform.h"], [("fit", "similaritytransform.cc From6DoF::Compute"), ("pseudo inverse", "similaritytransform.cc From6DoF")],
   "runtime monitoring: numerical oracle (optimality of the result against an independent least-squares solution)", "Optimality is judged through cost and eigenvalues, so any solver is accepted."),
 P("C18", "Numeric helpers compute what their mathematical definition says",
   "The cross-product, quaternion-rate and rotation helpers, the median, the geometry message conversions and the covariance block access return the values their definitions give for every argument, whatever matrix type (fixed, dynamic, block or expression) is passed; the numeric check reports exactly the matrices that contain a NaN or infinity. The colour palettes hold the colours of the maps they are named after.",
   ["inputs"], "all finite and non-finite arguments and matrix shapes",
   "Helpers are not executed by any test.",
   ["msf_core/include/msf_core/eigen_utils.h", "msf_core/include/msf_core/eigen_conversions.h", "msf_core/include/msf_core/msf_tools.h", "msf_core/src/lib/msf_tools.cc", "msf_core/src/lib/falsecolor.cc"],
   [("algebra", "eigen_utils.h"), ("conversions", "eigen_conversions.h"), ("numeric check", "msf_tools.h CheckForNumeric")],
   "runtime monitoring: direct oracle per helper over random arguments", "Each helper is compared with its definition written out independently."),
 P("C19", "The distorters add exactly the configured drift and nothing else",
   "The pose distorter adds position, attitude and scale drift that accumulates with the elapsed time at the configured mean rate and with the configured standard deviation, independently per axis and step, keeps attitudes of unit length, and changes nothing when all settings are zero. The relay node forwards each enabled message exactly once, unchanged, on its own output and drops the disabled ones, following reconfiguration.",
   ["inputs", "configurations", "histories"], "all drift settings, time steps, poses and message sequences",
   "Neither is executed by any test.",
   ["msf_updates/src/msf_distort/PoseDistorter.cc", "msf_distort/src/msf_distort.cc"],
   [("drift", "PoseDistorter.cc Distort"), ("relay", "msf_distort.cc CallbackHandler")],
   "runtime monitoring: closed-form oracle without noise, statistical oracle with noise, message-trace monitor for the node", "Statistical bounds are 8 sigma of a fixed-seed workload, so a false alarm cannot occur at random on unchanged code."),
 P("C20", "Timing statistics account for every interval exactly once",
   "For each tag the number of samples, total, mean, minimum, maximum, rolling variance and rate agree with the intervals that ended under it, by Stop or by scope, whatever timers overlap, restart or share the tag; handles and tags stay paired, and the printed table shows the same numbers. The accumulator returns the exact statistics of all or of the last N samples.",
   ["histories", "inputs"], "all sequences of timer and accumulator operations, durations from nanoseconds to a minute",
   "The one test samples a single interval sequence.",
   ["msf_timing/include/msf_timing/Timer.h", "msf_timing/src/Timer.cc"], [("timers", "Timer.cc"), ("accumulator", "Timer.h Accumulator")],
   "runtime monitoring: model-based oracle under a scripted clock", "All clocks of the process are scripted, so results are compared exactly."),
 P("C22", "Any state definition gets a consistent layout and correction",
   "For any list of state variables the sizes, index tables, error-state layout, messages, printed form and covariance blocks agree with the order and sizes of the list; a correction adds to vectors, multiplies where so declared and composes with rotations, each at its own place; copies, resets, noise blocks and initial values touch exactly the variables they are for.",
   ["inputs", "configurations"], "all state definitions (here five with every variable type and option), values and corrections",
   "Only compile-time template code of one definition is used by the applications; no test executes it.",
   ["msf_core/include/msf_core/msf_state.h", "msf_core/include/msf_core/implementation/msf_state_inl.h", "msf_core/include/msf_core/msf_tmp.h"],
   [("index tables", "msf_tmp.h"), ("correction and messages", "implementation/msf_state_inl.h")],
   "runtime monitoring: layout written by hand as the oracle for every access path", "Definitions cover core-only, mixed, multiplicative, several rotations, and an unusual core."),
 P("C21", "The estimate converges to the truth and knows its own accuracy",
   "Fed through its ROS interface with IMU and sensor data of a flight whose noise, biases and calibration accuracy match the configuration, every application converges: tilt, velocity, biases, and where observable position, heading and scale stay within a few standard deviations of the truth, as consistent with the reported covariance, despite late and shuffled messages, configured delays, rejected outliers and sensor outages.",
   ["inputs", "histories", "schedules", "configurations"], "all sufficiently exciting flights, noise levels, sensor delays, arrival orders, outliers and outages for the five applications",
   "No test runs the estimator.",
   [CORE, "msf_updates/src/pose_msf/pose_sensormanager.h", "msf_updates/include/msf_updates/pose_sensor_handler/implementation/pose_sensorhandler.hpp"],
   [("the whole chain from message to estimate", "msf_updates/src/*_msf, msf_core")],
   "runtime monitoring: simulated ground truth as the oracle (error and NEES bounds)", "Errors are judged where observable; consistency by the normalised estimation error squared of the core states."),
]
NA = {}
