# Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=()):
    assert len(title) <= 80, title
    parts = statement.rstrip(".").split(". ")   # at most three sentences
    if len(parts) > 3:
        low = [x if x.split()[0].isupper() else x[0].lower() + x[1:] for x in parts[3:]]
        statement = ". ".join(parts[:2] + ["; ".join([parts[2]] + low)]) + "."
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, state=state, observe=observe))
EKF = ["src/ekf/ekf.cpp", "src/ekf/ekf.hpp"]
NOTE = ("Exhaustive within the stated bounds, directly on the compiled code of /repo; trusts the reference model in "
        "harness/ref_ekf.hpp, Eigen and the floating-point tolerances stated in the harness.")

prop("C01", "State layout, indices, sizes and covariance dimension always agree",
 "After any sequence of sensor registrations, camera frames, predictions and updates, the calibrated parameters of all sensors and the pose clones occupy disjoint, gap-free index ranges after the 18 body states, and the reported state size, the per-section sizes and starts, the packed state vector, the covariance and the process noise all have exactly that dimension.",
 ["histories", "configurations"], "every word of registrations (any id order, duplicates, every calibration-flag combination), frames, predictions and updates up to the depth bound, for every augmentation type",
 "Unit tests register one or two sensors in ascending id order and never interleave registration with cloning; the guarantee is about every order.",
 EKF + ["src/ekf/types.cpp"], [("RefreshIndices / RegisterX / AugmentState", "src/ekf/ekf.cpp")],
 "explicit enumeration of operation words on the real filter against a layout model", NOTE,
 [("m_state_size", "total error-state size", "src/ekf/ekf.hpp")], ["EKF::GetStateSize", "State::ToVector", "EKF::m_cov"])

prop("C02", "A sensor's prior stays attached to that sensor, whatever the order",
 "When a sensor is registered with calibration enabled, its initial parameters and prior covariance (uncorrelated with everything already estimated) become the filter's belief about exactly that sensor, for any registration order, id assignment and moment of registration, in both covariance forms; nothing already estimated changes. Registering an id twice or an uncalibrated sensor leaves state and covariance of everything else untouched.",
 ["histories", "configurations"], "every word of registrations, frames, updates and predictions up to the depth bound, full and square-root form",
 "Tests register sensors in a single order and check sizes only; a prior that lands on a neighbouring sensor keeps every test green.",
 EKF, [("RegisterIMU/GPS/Camera/Fiducial, InsertInMatrix", "src/ekf/ekf.cpp, src/utility/math_helper.cpp")],
 "explicit enumeration of operation words on the real filter, in lockstep with a labelled reference filter", NOTE)

prop("C03", "A pose clone is exact, windows are bounded, dropping a clone is marginalisation",
 "A clone created for a camera frame equals the body pose at that moment and has exactly its variance and its correlations with every other state; per-camera windows never exceed the maximum track length; retiring a clone leaves the joint distribution of all remaining states unchanged. This holds in full and in square-root covariance form.",
 ["histories", "configurations"], "every word over frames of two cameras, predictions, updates and late registrations up to the depth bound; every periodic schedule of short period over a long run",
 "The existing tests check covariance sizes after a few frames, never values or correlations after clones were dropped from the middle of the state.",
 EKF, [("AugmentStateIfNeeded / AugmentState, RemoveFromMatrix", "src/ekf/ekf.cpp")],
 "explicit enumeration of operation words on the real filter, in lockstep with a labelled reference filter", NOTE)

prop("C04", "Clones are created and retired exactly as the augmentation type prescribes",
 "ALL clones every frame of every camera into that camera's window and PRIMARY only frames of the first registered camera, each window keeping the newest clones up to the maximum track length; NONE never clones. TIME and ERROR keep one shared window: after a frame was received, the next prediction clones if the window is empty, if (TIME) more than the configured interval passed since the last clone, or if (ERROR) the last clone is older than the longest track, or older than one frame period with constant-velocity extrapolation off by more than the configured position or angle error. TIME and ERROR drop every clone whose successor is older than the longest track.",
 ["histories", "configurations"], "every word over frames of two cameras, predictions, corrections and stale predictions up to the depth bound, for every augmentation type, window length, camera rate and camera registration order",
 "Tests exercise a single fixed schedule per augmentation type; threshold and retirement errors only show on particular schedules.",
 EKF, [("AugmentStateIfNeeded", "src/ekf/ekf.cpp")],
 "explicit enumeration of frame/prediction schedules on the real filter against a policy state machine", NOTE)

prop("C08", "Prediction propagates state and covariance by the documented motion model",
 "Once gravity is initialised, predicting by a positive interval dt adds (acceleration - gravity) * dt to the velocity unless zero-acceleration mode is on, moves the position by dt times the new velocity and left-multiplies the attitude by the rotation of angular rate times dt, leaves calibration parameters and clones unchanged, and propagates the joint covariance as F (P + Q dt) F', with the body process noise and each sensor's stability terms then in force; a zero or negative interval changes nothing. This holds in full and in square-root form and with zero-acceleration mode on or off.",
 ["histories", "inputs", "configurations"], "every word over predictions (zero, short, long, stale), mode changes, noise changes, frames and updates up to the depth bound, for several start motions and sensor sets",
 "Tests predict once from rest with one sensor and compare a few numbers.",
 EKF, [("PredictModel, GetStateTransition, process noise", "src/ekf/ekf.cpp")],
 "explicit enumeration of operation words on the real filter, in lockstep with a reference filter", NOTE)

prop("C09", "A measurement update is the Kalman update, and never adds uncertainty",
 "For any measurement Jacobian, residual and positive-definite noise, the update corrects the state by the optimal gain (rotations composed, additive parameters added) and leaves the optimal posterior covariance, which is symmetric, positive semi-definite and never larger than the prior. Full and square-root forms both do so for any number of rows, correlated or nearly perfect noise and rank-deficient Jacobians.",
 ["inputs", "histories", "configurations"], "every measurement shape of a structured set, alone and in every ordered pair (triples in thorough), on several sensor sets and both covariance forms",
 "Tests run one update with diagonal noise on one state layout.",
 ["src/ekf/update/updater.cpp", "src/ekf/types.cpp"], [("Updater::KalmanUpdate, State::operator+=", "src/ekf/update/updater.cpp")],
 "exhaustive enumeration of measurement shapes and update sequences on the real code against the information-form reference", NOTE)

prop("C10", "The square-root filter gives the same answers as the full filter",
 "For every stream of sensor messages the square-root configuration produces, message by message, the same estimates, time, initialisation decisions and joint covariance as the full-covariance configuration, up to rounding.",
 ["histories", "configurations"], "every word of IMU, GPS, camera, fiducial and stale messages up to the depth bound for six sensor configurations, plus every periodic schedule of short period",
 "No test runs both forms on the same messages.",
 EKF + ["src/ekf/update/updater.cpp", "src/ekf/update/imu_updater.cpp", "src/ekf/update/msckf_updater.cpp"], [("m_use_root_covariance branches", "src/ekf/ekf.cpp, src/ekf/update/*.cpp")],
 "explicit enumeration of message words, two real filters in lockstep", NOTE)

exec(open(os.path.join(V, "tools", "props2.py")).read())

NA = NOT_APPLICABLE
claimed = [p for p in P if any(os.path.exists(os.path.join(V, "harness", p["id"] + e)) for e in (".cpp", ".py"))]
claimed.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in claimed:
        a = {"files": list(p["files"]), "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]: a["observe_at"] = list(p["observe"])
        a["hook_needed"] = None
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    for n in NA:
        f.write(json.dumps(n["prop"]) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "bash check.sh %s quick" % p["id"],
                 "thorough_cmd": "bash check.sh %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": p["technique"], "level": "model_checking", "level_note": p["note"]} for p in claimed],
     "not_applicable": [{"property": n["prop"]["id"], "reason": n["reason"]} for n in NA],
     "notes": "No hooks in /repo: every check drives the public interfaces of the compiled sources. tools/props.py regenerates this file and properties.jsonl."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(claimed), "claimed")
