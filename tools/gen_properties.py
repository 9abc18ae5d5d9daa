#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))

PROP = "src/filter/inekf/propagation/imu_propagation.cpp"
VEL = "src/filter/inekf/correction/velocity_correction.cpp"
LEG = "src/filter/inekf/correction/legged_kinematics_correction.cpp"
INEKF = "src/filter/inekf/inekf.cpp"
EST = "src/estimator/inekf_estimator.cpp"
GYRO = "src/imu_filter/imu_ang_vel_ekf.cpp"
RS = "src/state/robot_state.cpp"
LIE = "src/math/lie_group.cpp"

prop("C01", "IMU prediction integrates the motion of the body exactly",
 "Every inertial sample the filter consumes moves the estimated orientation, velocity and position by the exact solution of rigid-body motion under the sample's bias-corrected angular rate and specific force (rotated into the body frame and compensated for the IMU lever arm) plus gravity, over the time that has passed since the last prediction. Each sample is held from the time it was received until the next one is used, every sample is used exactly once in arrival order, and augmented contact points and biases do not move. The estimate's time stamps advance to the sample that was integrated.",
 ["inputs", "histories", "configurations"], "all sequences of IMU samples up to a depth over an alphabet of rates, accelerations, time steps (zero, tiny, regular, long), mounting rotations, lever arms and biases",
 "The only propagation test integrates one recorded trajectory with one configuration; wrong lever-arm, bias, small-angle or time bookkeeping stays within its tolerance or is not exercised at all.",
 [PROP, LIE], [("ImuPropagation::Propagate mean update", PROP), ("Gamma_SO3 closed forms", LIE)],
 [("previous sample", "the sample to be integrated next", PROP), ("propagate time", "time up to which the estimate was predicted", RS)],
 ["InekfEstimator::get_state after RunOnce", "published robot states"])

prop("C02", "IMU prediction spreads uncertainty by the linearised error dynamics",
 "The covariance after an inertial prediction equals the covariance before it, pushed through the exact transition of the linearised invariant error dynamics over that step plus the configured gyro, accelerometer, bias and contact noise entering through that transition, in the error convention the filter was created with. With bias estimation switched off the bias block stays decoupled from the motion states and has no effect on them. This holds at every rotation rate including zero and very small ones, and for any number of tracked contacts.",
 ["inputs", "histories", "configurations"], "all combinations of error convention, bias estimation on/off, 0-4 contacts, rotation rates from 0 to several rad/s and time steps, plus short sequences of predictions",
 "No test inspects the covariance at all; the analytic transition blocks and their small-angle branch are unreached oracles.",
 [PROP, RS], [("StateTransitionMatrix / DiscreteNoiseMatrix", PROP), ("process-noise bookkeeping of augmented columns", RS)],
 [("P", "error covariance", RS), ("Qc", "continuous process noise incl. contact noise", RS)],
 ["RobotState::get_P after Propagate"])

prop("C03", "A velocity measurement is fused as the exact invariant Kalman update",
 "Applying a body-velocity measurement changes orientation, velocity, position, contact points, biases and covariance by exactly the invariant extended Kalman update for that measurement: the sensor velocity is scaled and rotated into the body and world frames, weighted by the configured measurement noise, and the whole state is corrected on the group in one step. The yaw-rate bias is never changed by a velocity or contact correction, and no bias changes when bias estimation is off. A measurement that agrees with the prediction leaves the mean unchanged and never increases uncertainty about velocity. The general left- and right-invariant update functions that corrections are built on are exact for any linear observation in either error convention.",
 ["inputs", "histories", "configurations"], "all combinations of an alphabet of prior states, covariances (diagonal and strongly correlated), measurements, mounting rotations, scales, noises, bias switches, contact counts and error conventions",
 "The single correction test feeds a consistent trajectory with the identity mounting, so innovations are nearly zero and the gain, cross-correlations and covariance update are not observed.",
 [VEL, INEKF], [("VelocityCorrection::Correct", VEL), ("CorrectRightInvariant", INEKF)],
 [("innovation", "measured minus predicted world velocity", VEL)],
 ["RobotState after Correct"])

prop("C04", "Velocity measurements are applied in order, once, and only when timely",
 "A velocity measurement is applied only if its time stamp lies strictly before the time the state was last predicted to and is not older than the configured threshold; a measurement that is too old is discarded without touching the estimate, and one that is not yet due stays queued and is used later. At most one measurement is applied per filter step, each measurement at most once, in arrival order. A step that applies no measurement leaves the state and its covariance unchanged by this sensor.",
 ["histories", "inputs", "configurations"], "all queue contents up to a depth over time stamps around both thresholds, interleaved with predictions and arrivals, for several thresholds",
 "Tests push one well-ordered stream; stale bursts, future stamps and threshold edges never occur in them.",
 [VEL, EST], [("time gate and stale-skip loop", VEL)],
 [("measurement queue", "pending sensor data", VEL), ("propagate time", "reference time for gating", RS)],
 ["queue length and RobotState after Correct/RunOnce"])

prop("C05", "Contact points are tracked exactly for the legs in contact",
 "After each leg-kinematics measurement the state contains exactly one augmented contact point per leg reported in contact and none for the others, each one attributed to the right leg whatever the order in which legs touched down and lifted off. New contact points start at the forward-kinematics foot position with the uncertainty of pose and encoders and the correct correlation to the pose, removal marginalises the point out without disturbing anything else, and points that stay in contact are corrected by the exact invariant Kalman update. State, covariance and process-noise dimensions always agree and every live contact keeps its configured contact noise.",
 ["histories", "inputs", "configurations"], "all sequences of contact patterns (16 patterns for 4 legs) up to a depth from every reachable contact set, with predictions in between, in both error conventions",
 "No test runs the legged correction; the index bookkeeping depends on the history of touch-down and lift-off orders.",
 [LEG, RS, INEKF], [("augment/remove bookkeeping", LEG), ("add_aug_state/del_aug_state", RS)],
 [("leg to column map", "which column holds which leg", LEG), ("Qc", "contact process noise", RS)],
 ["RobotState after Correct"])

prop("C06", "Leg-kinematics measurements are used in order, once, and only when timely",
 "A leg-kinematics measurement is used only if its time stamp is within the configured threshold of the time the state was last predicted to; older ones are discarded without touching estimate or contacts, and one that is too far ahead is not applied. At most one measurement is applied per filter step, each at most once and in arrival order. When nothing is applied the step reports no new information and the state is unchanged.",
 ["histories", "inputs", "configurations"], "all queue contents up to a depth over time stamps around both thresholds, interleaved with predictions",
 "No test runs the legged correction with more than consistent time stamps.",
 [LEG], [("time gate", LEG)], [("measurement queue", "pending sensor data", LEG)], ["queue and RobotState after Correct"])

prop("C07", "Left- and right-invariant filters give the same estimate",
 "Starting from the same belief and fed the same measurements, a filter created with the left-invariant error convention and one created with the right-invariant convention produce identical means at every step, and their covariances are images of each other under the adjoint of the estimate. This holds across predictions, velocity updates, contact touch-downs, corrections and lift-offs, with bias estimation on or off.",
 ["histories", "configurations"], "all operation sequences up to a depth over IMU samples, velocity measurements and contact patterns",
 "Tests only ever build one error convention; the mapping between conventions is visible only by comparing two runs.",
 [INEKF, PROP, LEG], [("temporary adjoint mapping", INEKF), ("left/right transition matrices", PROP), ("contact augmentation per convention", LEG)],
 [], ["RobotState of two estimators"])

prop("C08", "The estimate always stays a valid pose with a valid covariance",
 "After any sequence of filter operations the orientation is a proper rotation matrix, the state matrix keeps its group structure, all numbers are finite, and the covariance is symmetric positive semi-definite with the dimension that matches the tracked contacts. Reported derived quantities (body and world velocity, position and rotation, inverse, per-block covariances) are consistent with the state. No operation sequence crashes the filter.",
 ["histories", "inputs", "configurations"], "all operation sequences up to a depth over extreme but legal samples, measurements, contact patterns, gaps, re-initialisations and configurations",
 "Tests check one nominal trajectory's position only.",
 [INEKF, PROP, LEG, VEL, RS, EST], [("Joseph-form update", INEKF), ("group updates", LIE)], [], ["RobotState getters"])

prop("C09", "Estimator life cycle: publish exactly what was estimated, only when ready",
 "Nothing is published and the filter is not enabled before initialisation has succeeded; initialisation publishes the initial state once, and afterwards each filter step publishes exactly one new state if it used any measurement and none otherwise, in the order of the steps. A filter step is only called on an enabled filter. Published states are independent snapshots that later steps never change. The initial state takes orientation, rates and biases from the inertial sample, velocity and time from the newest waiting velocity or leg sample (older waiting ones are discarded), and the configured covariances.",
 ["histories", "configurations"], "all sequences of arrivals and estimator calls (bias initialisation, state initialisation, enabling, filter steps) up to a depth, for several sensor sets",
 "The one estimator test drives a fixed happy path with sensors always ready.",
 [EST, PROP, VEL, LEG], [("InitBias/InitState/RunOnce", EST), ("set_initial_state/initialize", PROP)],
 [("enabled flag", "filter may run", EST), ("state queue", "published states", EST)], ["robot state queue, is_enabled, BiasInitialized"])

prop("C10", "Resetting the estimator equals starting afresh",
 "After a reset the filter is disabled, all sensor and output queues (also those of an angular-velocity filter in front of it) are empty, no contact is tracked, and initialising again and feeding any measurements yields the same published states as a newly created estimator fed the same measurements (with an already estimated IMU bias, the fact that it has been estimated, and the running estimate of an angular-velocity filter kept). This is so wherever in the history of operations the reset happens, and repeatedly.",
 ["histories"], "all operation sequences up to a depth followed by a reset and a fixed or enumerated continuation, compared with a fresh estimator",
 "No test calls the reset at all.",
 [EST, PROP, VEL, LEG, RS, GYRO], [("clear() of estimator, propagation, corrections, state, gyro filter", EST)],
 [], ["robot state queue of two estimators"])

prop("C11", "Bias initialisation averages the static samples and nothing else",
 "With static bias initialisation on, exactly the configured number of stationary samples is consumed, in order, and the biases become the average body-frame rate and the average body-frame specific force with gravity (and lever-arm effect) removed, using the IMU's own orientation if so configured; with it off the configured priors are used and no sample is consumed. The result is always finite, is reported as initialised only once it is available, and is exactly what the filter starts from. While bias estimation is off, biases never change afterwards.",
 ["inputs", "histories", "configurations"], "all sample sequences over an alphabet for window sizes 0-4, mounting rotations, lever arms, orientation flag and arrival interleavings",
 "Tests never initialise the bias.",
 [PROP, EST], [("InitImuBias", PROP)], [("collected samples", "static window", PROP)], ["get_estimate_gyro_bias/accel_bias, RobotState biases"])

prop("C12", "Estimates do not depend on the choice of world or sensor frame",
 "Turning the initial heading or shifting the initial position turns and shifts the whole estimated trajectory and leaves everything else as it was. Mounting a sensor differently and declaring that mounting in the configuration gives the same estimate as the aligned sensor delivering the rotated readings. The same holds for a velocity sensor with a scale factor. (Static initialisation with the IMU's own orientation assumes an aligned IMU and is not covered.)",
 ["inputs", "histories", "configurations"], "all operation sequences up to a depth times a set of yaw turns, shifts and mounting rotations",
 "Tests use the identity mounting and one initial pose.",
 [PROP, VEL, LEG, INEKF], [("rotation_imu2body, translation_imu2body, rotation_vel2body, velocity_scale", PROP)], [], ["RobotState of paired runs"])

prop("C13", "Sensors, filter and readers can run in parallel without losing or racing data",
 "When sensor threads push measurements, the filter thread initialises, steps or resets, and a reader takes published states, all at the same time and each using the shared locks, no interleaving causes a data race, a deadlock, a crash or an access to an empty queue. Every published state is delivered to readers exactly once and in order, and every measurement is used or discarded exactly once in order. The published sequence equals one that some one-after-the-other ordering of the same actions would give, where a filter step counts as its propagation followed by each correction and the publication, and a reset empties the queues one after another.",
 ["schedules"], "all interleavings at synchronisation points of 2-4 threads with a bounded number of preemptions, with happens-before race detection on every memory access of the library",
 "Unit tests are single-threaded.",
 [EST, PROP, VEL, LEG], [("buffer mutexes", EST)], [("sensor queues, state queue, log queue", "shared between threads", EST)], ["race reports, deadlock, delivered states"])

prop("C14", "The gyro filter fuses rates exactly and routes each sample by its rules",
 "For each combination of propagation source (gyro or random walk) and correction sources (one IMU, several IMUs, IMU plus encoder rate, encoder rate only) the filter's output rate and bias follow the linear Kalman filter defined by the configured noises, and each correction used emits exactly one filtered IMU sample that carries the fused rate, the correction's time stamp and the latest IMU's acceleration and orientation. Samples are used at most once and in order per source, with IMU and encoder together the earlier of the two pending samples goes first, with several IMUs each contributes one sample per step in their order, and IMU samples (or, with IMU and encoder together, encoder samples) older than the threshold are dropped without affecting estimate or output. Static bias initialisation averages exactly the configured number of samples.",
 ["histories", "inputs", "configurations"], "all sequences of arrivals and filter steps up to a depth over small alphabets of rates and time stamps for every method combination",
 "The gyro filter has no test.",
 [GYRO], [("RunOnce dispatch, corrections, propagation, initialisation", GYRO)],
 [("rate and bias estimate, P", "Kalman state", GYRO)], ["filtered IMU queue"])

prop("C15", "The gyro filter thread is safe to start, feed, reset and stop at any time",
 "While the gyro filter thread runs, sensor threads may push, the reader may take filtered samples, and the owner may reset or destroy the filter at any moment: no interleaving causes a data race on the sample queues, a deadlock, a crash or use of an empty queue. No filtered sample is duplicated or emitted out of order, what comes out is what some one-after-the-other ordering of the same queue operations gives (a sample the filter had already taken when the reset came may still be emitted), and destruction always stops the thread, also if it was never started.",
 ["schedules"], "all interleavings at synchronisation points of filter thread, producer, reader and owner with a bounded number of preemptions",
 "The gyro filter has no test, and no test is multi-threaded.",
 [GYRO, EST], [("mutexes, stop flag, join", GYRO)], [("queues", "shared", GYRO)], ["race reports, filtered queue"])

prop("C16", "The pose log holds the published trajectory, in order, at the set rate",
 "With logging on, every state published by a filter step that is at least one logging period after the last logged one (counted from zero when a log is started) appears in the pose, world-velocity and body-velocity logs exactly once, in order, with full precision values and a unit quaternion matching the state, under every scheduling of the logger thread, including states still pending when the estimator is destroyed. A reset closes the current logs (states still waiting then may be dropped) and starts new ones that contain only states estimated after the reset. Logging never changes, delays or loses published states.",
 ["schedules", "histories"], "all interleavings of filter steps, resets, destruction and the logger thread with bounded preemptions, and all step sequences over time-stamp alphabets",
 "No test enables the logger.",
 [EST], [("PoseLoggingThread, clear, destructor", EST)], [("log queue", "states to be logged", EST)], ["log files"])

prop("C17", "Lie group functions satisfy their defining series and identities",
 "The exponential, its integrals, the left and right Jacobians, the hat operator and the adjoint of the extended pose groups equal their defining power series or conjugation identities for every rotation angle, including zero, angles far below and around numerical switching points, and beyond half a turn, and for any number of augmented vectors. Pose-group elements multiply and invert consistently and getters and setters address the same entries.",
 ["inputs"], "an exhaustive grid of axes, magnitudes from 0 to 2 pi covering every decade, integral orders 0-5 and 1-6 augmented vectors",
 "Tests evaluate a few moderate angles.",
 [LIE, "src/math/se_k_3.cpp"], [("Gamma_SO3, Exp_SEK3, Adjoint_SEK3, skew", LIE), ("SEK3", "src/math/se_k_3.cpp")], [], ["function results"])

prop("C18", "Leg kinematics are self-consistent for every joint configuration",
 "For every joint configuration each foot's position depends only on its own leg's joints, its Jacobian is the derivative of its position, left and right legs are mirror images and front and hind legs differ by the hip offset. Positions and Jacobians reported for a leg belong to that leg, and the initial body velocity derived from a stance leg is exactly the one for which that foot stands still in the world, taking the first leg in contact and zero if there is none.",
 ["inputs"], "an exhaustive joint-angle grid times all 16 contact patterns times alphabets of joint and body rates",
 "Tests compare a handful of configurations with stored numbers for position and Jacobian only.",
 ["src/kinematics/mini_cheetah_kinematics.cpp", "src/measurement/legged_kinematics.cpp", "src/kinematics/robots/mini_cheetah"], [("ComputeKinematics/get_init_velocity", "src/kinematics/mini_cheetah_kinematics.cpp")], [], ["get_kin_pos, get_J, get_init_velocity"])

prop("C19", "State container edits touch exactly what they name",
 "Adding, overwriting and removing augmented vectors, biases, covariances and noise, and every setter, change exactly the addressed entries of mean, covariance and process noise and keep all others, so that after any sequence of edits the container equals an ordered list of named vectors with their joint covariance. The column numbers handed out for augmented vectors stay correct when others are removed, inverse and body/world views agree with the state matrix, and a reset restores a fresh container.",
 ["histories", "programs"], "all sequences of container operations up to a depth over 0-4 augmented vectors",
 "Tests cover a fixed sequence of a few setters.",
 [RS], [("add_aug_state/del_aug_state, RemoveRowAndColumn, setters", RS)], [("X, Theta, P, Qc, column map", "state container", RS)], ["RobotState getters"])

prop("C20", "ROS messages are translated faithfully in both directions",
 "Every supported sensor message becomes exactly one queued measurement with the message's time stamp, sequence number and frame, and values converted by the documented physical relation (wheel radius, track width, odometry differencing, IMU offset, contact and joint arrays); a malformed or insufficient message adds none (it may be rejected by an exception). Body velocity from odometry is the displacement between successive poses over the time between them, expressed through the configured odometry-to-body mounting. Each estimated state taken from the queue is published as one pose message with its position, unit quaternion, time and pose covariance in the message's order (position, then rotation), numbered consecutively, and the path contains every n-th published pose in order, n being the pose rate divided by the path rate, rounded down.",
 ["inputs", "histories", "configurations"], "all message sequences up to a depth over small alphabets for every subscriber and publisher kind",
 "The ROS wrapper is not built or tested here.",
 ["ROS/drift/src/communication/ros_subscriber.cpp", "ROS/drift/src/communication/ros_publisher.cpp"], [("callbacks", "ROS/drift/src/communication/ros_subscriber.cpp"), ("PosePublish/PathPublish", "ROS/drift/src/communication/ros_publisher.cpp")], [], ["queues and published messages against stand-in ROS headers"])

prop("C21", "Measurements carry exactly what was put in and reject invalid data",
 "Every measurement object returns exactly the values, time stamp, header and type it was given, setters of one field never alter another, copies are independent, and magnitudes and unit vectors agree with the stored vector. An orientation that is not a unit quaternion, including one with undefined entries, is rejected and leaves the stored orientation unchanged.",
 ["inputs", "programs"], "all sequences of setter calls up to a depth over value alphabets for every measurement kind",
 "Tests set each field once with ordinary values.",
 ["src/measurement/measurement.cpp", "src/measurement/legged_kinematics.cpp", "include/drift/measurement/impl/imu_impl.cpp", "include/drift/measurement/odom.h"], [("setters/getters/validation", "include/drift/measurement/impl/imu_impl.cpp")], [], ["getters"])

prop("C22", "Every configuration entry takes effect, and an absent one means its default",
 "Each documented noise, threshold, prior, mounting, covariance, logging and mode entry of the configuration files changes the filter's behaviour according to its meaning (standard deviations are squared into covariances; the entry that turns logging on is mandatory), independent of which other entries are present. Leaving an entry out behaves exactly like giving its documented default.",
 ["configurations"], "all subsets (present at default, present at another value, absent) of entries taken one and two at a time for every component",
 "Tests load three fixed files in which most entries equal the defaults.",
 [PROP, VEL, LEG, EST, GYRO], [("constructors reading YAML", PROP)], [], ["behaviour of components built from generated configuration files"])

prop("C23", "Wheel odometry integrates paired velocity and turn-rate readings exactly",
 "The wheel-odometry baseline consumes velocity and angular-velocity readings strictly in pairs and in order, starts at the first reading's time at the origin, and moves the pose by the measured body velocity and rotation over each interval. Its log contains the poses in order, at most at the set rate, with unit quaternions. A missing partner reading leaves everything queued and unchanged.",
 ["histories", "inputs", "configurations"], "all arrival and step sequences up to a depth over value and time alphabets",
 "The baseline has no test and is not built.",
 ["baselines/src/wheel_odometry/wheel_odometry.cpp"], [("RunOnce/Integrate/LogPose", "baselines/src/wheel_odometry/wheel_odometry.cpp")], [], ["pose log file and queues"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
