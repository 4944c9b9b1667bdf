"""What each property's check builds and runs."""
POS = ["-DSTATE_POSITION"]
BINARIES = {
    "core_pose": dict(src="h_core.cc", select=1),
    "core_position": dict(src="h_core.cc", flags=POS, select=1),
    "container": dict(src="h_container.cc"),
}
EXTRA = ["REPO/msf_timing/src/Timer.cc", "REPO/msf_core/src/lib/msf_tools.cc", "REPO/msf_core/src/lib/falsecolor.cc", "REPO/msf_core/src/lib/gps_conversion.cc", "REPO/msf_updates/src/msf_distort/PoseDistorter.cc"]
BINARIES["util"] = dict(src="h_util.cc", select=1, extra=EXTRA + ["REPO/msf_core/src/similaritytransform.cc"])
BINARIES["node"] = dict(src="h_node.cc", extra=EXTRA)
BINARIES["layout"] = dict(src="h_layout.cc")
def util(q, scale=40):
    return [dict(bin="util", quick=q, thorough={k: v * scale for k, v in q.items()})]
APPS = ["POSE", "POSITION", "POSITION_POSE", "POSE_PRESSURE", "SPHERICAL"]
for _a in APPS:
    BINARIES["app_" + _a.lower()] = dict(src="h_app.cc", flags=["-DAPP_" + _a], select=1, extra=EXTRA)
def apps(q, scale=40, only={}):
    """the suites for each of the five applications (some suites only exist for some)"""
    r = []
    for a in APPS:
        m = {k: v for k, v in q.items() if a in only.get(k, APPS)}
        if m:
            r.append(dict(bin="app_" + a.lower(), quick=m, thorough={k: v * scale for k, v in m.items()}))
    return r
def both(q, scale=40, **kw):
    """the same suites for the pose and the position state definition"""
    t = {k: v * scale for k, v in q.items()}
    return [dict(bin="core_pose", quick=q, thorough=t, **kw), dict(bin="core_position", quick=q, thorough=t, **kw)]
for _n in ["core_pose", "core_position", "container", "util", "node", "layout"] + ["app_" + _a.lower() for _a in APPS]:
    BINARIES["asan_" + _n] = dict(BINARIES[_n], san="asan")
VALGRIND = ["valgrind", "-q", "--error-exitcode=0"]
def memory():
    """every part of the code under ASan+UBSan, the applications also under memcheck (uninitialised reads)"""
    r = []
    for a in APPS:
        r.append(dict(bin="asan_app_" + a.lower(), quick=dict(hostile=500), thorough=dict(hostile=15000), timeout=60))
    for a in APPS[2:] + APPS[:1]:
        r.append(dict(bin="app_" + a.lower(), name="memcheck_" + a, wrap=VALGRIND, quick=dict(hostile=60), thorough=dict(hostile=1500), timeout=200))
    q = dict(history=150, sched_edges=100, longrun=6, imu_faults=200, external=200, update=100, relative=100, prevmeas=100, fixed_states=50, fuzzy=20, prop_mean=3, prop_cov=3)
    r.append(dict(bin="asan_core_pose", quick=q, thorough={k: v * 40 for k, v in q.items()}))
    for b, q in [("container", dict(container=500)), ("util", dict(gps=500, simtrans=200, numeric=300, distort=20, timer=150, accum=200, palette=50)), ("node", dict(node=40)), ("layout", dict(layout=100))]:
        r.append(dict(bin="asan_" + b, quick=q, thorough={k: v * 40 for k, v in q.items()}))
    return r
ONE = "the filter's own one-step propagation (judged by C05/C06) is the building block of the reference"
CHECKS = {
    "C01": dict(
        runs=memory(), keys="^$", need=["hostile_cases", "hostile_initialised", "hostile_propagated", "hostile_updated", "hostile_values", "memcheck_cases", "op_imu", "op_ext", "op_init", "op_reconfigure", "op_service", "op_query", "long_runs", "palettes"],
        assumptions=["initialisation happens while the clock is running (a time of zero is refused by an assertion on purpose)", "messages have the layout of their type"],
        rule="hostile: 20-150 random events per case on one of the five applications (IMU, external state, every sensor topic, initialisation, services, reconfiguration, queries; before and after initialisation), where a random share of all numbers is NaN, infinite, denormal or huge and of all stamps far off; also all workloads of the other checks. Judged by AddressSanitizer, UBSan (with float-cast-overflow), libstdc++/Eigen assertions, memcheck and a time limit."),
    "C02": dict(
        runs=both(dict(history=5000, longrun=150)) + apps(dict(arrival=1200)),
        keys="estimate_differs|no_state|asymmetric", need=["compared_with_batch", "published_update_compared", "published_propagation_compared", "late_measurements", "future_measurements", "long_runs", "arrival_pairs", "arrival_relative", "arrival_gps", "arrival_angle", "arrival_pressure"], assumptions=[ONE],
        rule="arrival: each flight twice through the ROS topics of each application, messages in order and late, early or shuffled across sensors; final estimates compared. history: random IMU trajectory (20-90 samples, jittered or regular) with 2-14 measurements of random variables (also clusters, equal stamps and outliers), delivered in order / randomly delayed / early / shuffled at the end. longrun: two minutes of operation with late measurements, beyond the buffer horizon. Non-trivial: the final state was compared with a batch filter. Distinct: hash of the measurement stamps, delivery mode and order of applications."),
    "C03": dict(
        runs=both(dict(history=5000, sched_edges=5000, longrun=80)),
        keys="apply_|future_applied|update_publish|prop_publish|spurious_apply|queue_stuck|lost|applied_before|too_old|gap_measurement|covered_|expired|trimmed", need=["late_measurements", "queued_applied", "reapplied", "in_gap", "too_old", "trim_checked"],
        rule="history as in C02, where the trace of measurement applications and publications is checked online against the specification; sched_edges: measurements before the filter is ready, inside IMU gaps and older than all states; longrun: measurements older than the buffer horizon."),
    "C04": dict(
        runs=[dict(bin="container", quick=dict(container=20000), thorough=dict(container=1000000))], rule="Random operation sequences on the time-sorted buffer, compared with a reference model after each operation."),
    "C05": dict(
        runs=both(dict(prop_mean=600)) + apps(dict(stream=300)), keys="^(?!stream_cov|stream_noise)",
        need=["propagations", "imu_messages", "external_messages"], rule="stream: 12-40 IMU or external messages on the ROS topics of each application, readings and propagated state compared the same way. prop_mean: 12 random propagation steps per case: interval 0.5-100 ms, angular rate up to 4 rad/s, acceleration up to 30 m/s2, random biases; compared with a 400-fold sub-stepped strapdown integration."),
    "C06": dict(
        runs=both(dict(prop_cov=600)) + apps(dict(stream=300)), keys="^(?!stream_mean|stream_reading)",
        need=["cov_propagations", "covariances", "noise_entries"], rule="stream: the same for 12-40 messages on the ROS topics of each application with random configured noise densities of the core and of every additional state. prop_cov: 6 random covariance steps per case, each run from a random and from a zero covariance; transition part compared with the matrix exponential, noise part with the exact integral."),
    "C07": dict(
        runs=both(dict(update=6000)),
        rule="Random prior covariances, Jacobians (dense, sparse, rank deficient), residuals and noise; fixed-size 1-6 rows and dynamic-size measurements, Mahalanobis thresholds just above and below the distance; every application is compared with an independent Joseph-form update."),
    "C09": dict(
        runs=both(dict(imu_faults=6000)),
        need=["stale_ignored", "resets", "nan_resets", "gap_retimed", "spikes_replaced", "pending_applied", "initialisations"],
        rule="15-60 random stream operations per case (normal, duplicate, slightly/far out of order, gap, spike, NaN/inf, measurement, initialisation); reaction to each compared with a model. Distinct: operation script and start time."),
    "C12": dict(
        runs=both(dict(external=6000)) + apps(dict(ros_ext=2000))[:2],
        need=["taken", "short", "playback", "external_taken", "external_propagated_here", "nonnumeric_external", "spikes", "stale_ignored", "resets", "gap_retimed", "updates"],
        rule="8-40 random external state messages per case (propagated or not, duplicate, out of order, gap, non-numeric) with interleaved measurements; reaction to each compared with a model. ros_ext: the same messages delivered to the pose and the position application on their ROS topic, also too short ones, other flags and playback mode."),
    "C13": dict(
        runs=both(dict(soak=180), 60),
        need=["inspections_after_a_minute", "mode_regular", "mode_none", "mode_late", "mode_useless", "mode_then_silent", "mode_sparse", "mode_none_external", "mode_regular_external"],
        rule="75-160 s of operation at 12-33 Hz with regular, late, sparse, unusable, ceasing or no measurements, IMU or external propagation; all published states and all measurements are tracked by weak references."),
    "C14": dict(
        runs=both(dict(fixed_states=1500, fuzzy=600)) + apps(dict(models=500)), keys="^(?!model_|outlier_|not_processed)",
        need=["fixed_updates", "jumps_after_30", "updates_before_30", "normal_updates_after_30", "just_above", "just_below", "initialisations", "with_fixed", "with_fixed_bias"],
        rule="fixed_states: random subsets of fixed quantities, 8 random 6-row updates each. fuzzy: 25-130 updates with drift and random jumps of the drift-free rotation, most within 40 % of the threshold, re-initialisation in half of the cases; exact model of the last 30 accepted rotations and of the decision. models: the configured fixed quantities and biases in the five applications."),
    "C15": dict(
        runs=both(dict(relative=4000, prevmeas=4000)) + [dict(r, keys="model_relative|first_relative") for r in apps(dict(relpose=1000), only=dict(relpose=["POSE", "POSITION_POSE", "POSE_PRESSURE"])) if r["quick"]], need=["previous_found", "previous_none", "relative_updates"],
        rule="Random state pairs of a random trajectory with random relative measurements, compared with an augmented-state update; random multi-sensor measurement histories with queries for each sensor; sequences of relative pose messages to the applications with a pose sensor (inverted or not, fixed quantities)."),
    "C08": dict(
        runs=apps(dict(models=2500, relpose=1500), only=dict(relpose=["POSE", "POSITION_POSE", "POSE_PRESSURE"])),
        need=["with_fixed_bias", "sensor_pose", "sensor_position", "sensor_gps", "sensor_pressure", "sensor_angle", "sensor_distance", "applied", "rejected", "exact", "with_fixed", "relative_updates"],
        assumptions=["the Kalman update itself is judged by C07; GPS conversion by an independent WGS84 model"],
        rule="3-8 sensor messages per case on any input topic of the application, the estimate and covariance at the measured time drawn at random (all variables), random configuration (noise, delays, fixed quantities, message or fixed covariance, inverted pose, outlier threshold); the state after each is compared with an update whose Jacobian is the numerical derivative of an independent sensor model. relpose: sequences of relative pose messages compared with an augmented-state update. Distinct: sensor, fixed quantities and residual."),
    "C10": dict(
        runs=apps(dict(admission=2000)),
        need=["admitted", "discarded", "throttled", "effects", "before_ready", "topic_pose_with_covariance_input", "topic_odometry_input", "topic_pose_input", "topic_transform_input", "topic_position_input", "topic_navsatfix_input", "topic_pressure_height", "topic_angle_input", "topic_distance_input"],
        rule="40-90 IMU steps per case with sensor messages on random topics, delays -0.3..0.5 s, throttling intervals, default or random parameters; number of updates and the time of the first changed state are compared with the specification after each. Distinct: admission pattern and stamps."),
    "C11": dict(
        runs=apps(dict(publish=1200)),
        need=["pose", "odometry", "ext_state", "state_out", "tf", "cov_core", "cov_aux", "cov_core_aux", "correction", "correction_init", "correction_playback", "pose_after_update", "external", "nonnumeric_corrections"],
        rule="15-40 IMU or external state messages per case with interleaved measurements; random subscriber sets, frames, playback mode and noise setting; every field of every published message is compared with the state it reports."),
    "C23": dict(
        runs=apps(dict(init=3000)),
        need=["initialisations", "refused", "how_checkbox", "how_height", "how_scale service", "how_height service", "init_pose_consistent_ok", "init_position_consistent_ok", "init_pressure_consistent_ok", "noise_var_ok"],
        rule="1-3 initialisations per case by check box, height, scale service or height service, after random (or no) measurements of each sensor, with random parameters and configuration; the initial state, covariance and the process noise of every additional state are checked against the sensor models and the configuration."),
    "C16": dict(
        runs=util(dict(gps=40000), 100) + apps(dict(navsat=600), only=dict(navsat=["POSITION", "POSITION_POSE"])), need=["points", "adjustments", "points_uninitialised", "references", "navsat_inits", "navsat_updates", "fixes_far"],
        rule="navsat: 1-4 initialisations and updates per case from satellite fixes near and far from the first one, anywhere on earth, through the ROS topics of the position and position+pose applications. gps: 3-14 operations per case (set reference, adjust height, convert a point near or far, also poles, date line, before any reference), each compared with an independent WGS84 model in extended precision. Distinct: operations and latitudes."),
    "C17": dict(
        runs=util(dict(simtrans=15000), 40), need=["exact", "well_posed", "ill_posed", "minimum_norm", "too_few"],
        rule="0-30 pose pairs of a random similarity transform with or without noise, with and without rotation and translation, quaternion signs flipped at random; intermediate and final results compared with the attainable optimum of an independent least-squares problem. Distinct: number of pairs and result."),
    "C18": dict(
        runs=util(dict(numeric=20000, palette=20), 40), need=["palettes", "medians_dynamic", "nonnumeric_dynamic"],
        rule="Every helper on random arguments (tiny to large, zero, special angles; fixed and dynamic size, blocks and expressions; NaN and infinities at random places)."),
    "C19": dict(
        runs=util(dict(distort=800), 40) + [dict(bin="node", quick=dict(node=300), thorough=dict(node=6000))], need=["deterministic_steps", "noisy_increments", "reconfigures"],
        rule="distort: random drift settings, 1-40 noiseless steps compared with the closed form, and 3000 noisy increments tested for mean, deviation, whiteness and independence at 8 sigma. node: the distorting relay node run with random settings and messages."),
    "C20": dict(
        runs=util(dict(timer=4000, accum=6000), 40), need=["printed_rows", "intervals", "intervals_by_scope", "restarts", "resets", "window_full", "all_negative"],
        rule="timer: 10-160 operations per case on several tags under a scripted clock, all statistics and the printed table compared with a record of the intervals. accum: statistics compared with a reference after random additions."),
    "C22": dict(
        runs=[dict(bin="layout", quick=dict(layout=2000), thorough=dict(layout=60000))], need=["corrections", "index_entries", "copies", "init_values", "initialised_through_core", "accesses"],
        rule="Five state definitions (with every variable type and option); random values through every access path, compared with a reference layout written by hand."),
    "C21": dict(
        runs=apps(dict(converge=120)), need=["flights", "frame_known", "scale_unknown", "outages", "outliers_sent"],
        assumptions=["bounds are about twice the largest errors met in 7500 flights on the repaired tree; noise, biases and calibration errors match the configuration"],
        rule="40 s flights with a random smooth trajectory, noisy biased IMU at 100 or 200 Hz, sensor messages at 8-20 Hz arriving up to 0.2 s late and shuffled, message delays, outliers when the outlier test is on, a sensor outage, inverted poses, unknown scale; errors and their agreement with the covariance judged over the last 8 s. Distinct: start time."),
}
