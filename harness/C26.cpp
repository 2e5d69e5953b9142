// C26: the simulation application builds what the configuration describes and
// feeds every simulated message to its own sensor, once, in time order.
// links: yaml
#include "mc.hpp"

#include <cmath>
#include <fstream>
#include <sys/stat.h>

#include <yaml-cpp/yaml.h>

#include "ekf/ekf.hpp"
#include "infrastructure/debug_logger.hpp"
#include "infrastructure/ekf_cal_version.hpp"
#include "infrastructure/sim/truth_engine_cyclic.hpp"
#include "infrastructure/sim/truth_engine_smoother.hpp"
#include "infrastructure/sim/truth_engine_spline.hpp"
#include "sensors/sim/sim_camera.hpp"
#include "sensors/sim/sim_camera_message.hpp"
#include "sensors/sim/sim_gps.hpp"
#include "sensors/sim/sim_gps_message.hpp"
#include "sensors/sim/sim_imu.hpp"
#include "sensors/sim/sim_imu_message.hpp"
#include "trackers/sim/sim_feature_tracker.hpp"
#include "trackers/sim/sim_fiducial_tracker.hpp"
#include "utility/gps_helper.hpp"
#include "utility/sim/sim_rng.hpp"
#include "utility/string_helper.hpp"
#include "utility/type_helper.hpp"

using V = std::vector<double>;

// What the application built and did, seen at the interfaces of its components.
struct Message
{
  double time; unsigned sensor; uint64_t hash;
  bool operator<(const Message & o) const {return std::tie(time, sensor, hash) < std::tie(o.time, o.sensor, o.hash);}
  bool operator==(const Message & o) const {return std::tie(time, sensor, hash) == std::tie(o.time, o.sensor, o.hash);}
};
struct Record
{
  std::map<std::string, V> val;            // parameter -> numbers
  std::map<std::string, std::string> str;  // parameter -> text
  std::vector<Message> made, used;
  std::vector<std::pair<double, BodyState>> init;
  std::map<std::string, unsigned> id;      // sensor name -> identifier
  std::shared_ptr<TruthEngine> truth;
  unsigned ekfs {0};
  bool wrong_use {false}, late_init {false};
};
static Record * rec = nullptr;

static V Flat(double x) {return {x};}
static V Flat(const Eigen::VectorXd & v) {return V(v.data(), v.data() + v.size());}
static V Flat(const Eigen::Vector3d & v) {return V(v.data(), v.data() + v.size());}
static V Flat(const Eigen::Quaterniond & q) {return {q.w(), q.x(), q.y(), q.z()};}
static V Flat(const std::vector<double> & v) {return v;}

static void RecSensor(const std::string & n, const Sensor::Parameters & p)
{
  rec->str[n + ".topic"] = p.topic;
  rec->val[n + ".rate"] = {p.rate};
  rec->val[n + ".data_log_rate"] = {p.data_log_rate};
  rec->str[n + ".dir"] = p.log_directory;
}
static void RecSim(const std::string & n, const SimSensor::Parameters & p)
{
  rec->val[n + ".no_errors"] = {double(p.no_errors)};
  rec->val[n + ".time_error"] = {p.time_error};
}
static void RecIntrinsics(const std::string & n, const Intrinsics & i)
{
  rec->val[n + ".f_x"] = {i.f_x}; rec->val[n + ".f_y"] = {i.f_y};
  rec->val[n + ".k_1"] = {i.k_1}; rec->val[n + ".k_2"] = {i.k_2};
  rec->val[n + ".p_1"] = {i.p_1}; rec->val[n + ".p_2"] = {i.p_2};
  rec->val[n + ".width"] = {double(i.width)}; rec->val[n + ".height"] = {double(i.height)};
  rec->val[n + ".pixel_size"] = {i.pixel_size};
}

class ObsEKF : public EKF
{
public:
  explicit ObsEKF(EKF::Parameters p) : EKF(p)
  {
    rec->ekfs++;
    auto & v = rec->val;
    v["ekf.data_log_rate"] = {p.data_log_rate};
    rec->str["ekf.dir"] = p.log_directory;
    v["ekf.augmenting_type"] = {double(static_cast<int>(p.augmenting_type))};
    v["ekf.augmenting_delta_time"] = {p.augmenting_delta_time};
    v["ekf.augmenting_pos_error"] = {p.augmenting_pos_error};
    v["ekf.augmenting_ang_error"] = {p.augmenting_ang_error};
    v["ekf.process_noise"] = Flat(p.process_noise);
    v["ekf.pos_b_in_l"] = Flat(p.pos_b_in_l);
    v["ekf.ang_b_to_l"] = Flat(p.ang_b_to_l);
    v["ekf.pos_e_in_g"] = Flat(p.pos_e_in_g);
    v["ekf.ang_l_to_e"] = {p.ang_l_to_e};
    v["ekf.gps_init_type"] = {double(static_cast<int>(p.gps_init_type))};
    v["ekf.gps_init_baseline_dist"] = {p.gps_init_baseline_dist};
    v["ekf.gps_init_pos_thresh"] = {p.gps_init_pos_thresh};
    v["ekf.gps_init_ang_thresh"] = {p.gps_init_ang_thresh};
    v["ekf.motion_detection_chi_squared"] = {p.motion_detection_chi_squared};
    v["ekf.imu_noise_scale_factor"] = {p.imu_noise_scale_factor};
    v["ekf.use_root_covariance"] = {double(p.use_root_covariance)};
    v["ekf.use_first_estimate_jacobian"] = {double(p.use_first_estimate_jacobian)};
  }
  void Initialize(double t, const BodyState & b)
  {
    if (!rec->used.empty()) {rec->late_init = true;}
    rec->init.push_back({t, b}); EKF::Initialize(t, b);
  }
  void SetMaxTrackLength(unsigned n) {rec->val["ekf.max_track_length"] = {double(n)}; EKF::SetMaxTrackLength(n);}
};

static uint64_t HashOf(const SimImuMessage & m)
{
  return mc::Hash().d(m.time).m(m.acceleration).m(m.angular_rate).m(m.acceleration_covariance).m(m.angular_rate_covariance).h;
}
static uint64_t HashOf(const SimGpsMessage & m) {return mc::Hash().d(m.time).m(m.gps_lla).m(m.pos_covariance).h;}
static uint64_t HashOf(const SimCameraMessage & m)
{
  mc::Hash h; h.d(m.time);   // frames are numbered through the whole process
  for (const auto & f : m.feature_track_messages) {
    for (const auto & t : f->feature_tracks) {
      for (const auto & p : t.track) {h.d(p.frame_time).d(p.key_point.pt.x).d(p.key_point.pt.y).u(p.key_point.class_id);}
    }
  }
  for (const auto & f : m.fiducial_track_messages) {
    h.u(f->is_board_visible);
    if (f->is_board_visible) {h.m(f->board_detection.pos_f_in_c).m(f->board_detection.ang_f_to_c.coeffs());}
  }
  return h.h;
}
template<class L> static void Made(const L & list)
{
  for (const auto & m : list) {rec->made.push_back({m->time, m->sensor_id, HashOf(*m)});}
}
template<class M> static void Used(unsigned id, const M & m)
{
  rec->used.push_back({m.time, id, HashOf(m)});
  if (m.sensor_id != id) {rec->wrong_use = true;}
}

class ObsSimIMU : public SimIMU
{
public:
  ObsSimIMU(SimIMU::Parameters p, std::shared_ptr<TruthEngine> t) : SimIMU(p, t)
  {
    const auto & q = p.imu_params; const std::string n = q.name;
    rec->truth = t; rec->id[n] = GetId();
    RecSensor(n, q); RecSim(n, p);
    auto & v = rec->val;
    v[n + ".is_extrinsic"] = {double(q.is_extrinsic)}; v[n + ".is_intrinsic"] = {double(q.is_intrinsic)};
    v[n + ".variance"] = Flat(q.variance);
    v[n + ".pos_i_in_b"] = Flat(q.pos_i_in_b); v[n + ".ang_i_to_b"] = Flat(q.ang_i_to_b);
    v[n + ".acc_bias"] = Flat(q.acc_bias); v[n + ".omg_bias"] = Flat(q.omg_bias);
    v[n + ".pos_stability"] = {q.pos_stability}; v[n + ".ang_stability"] = {q.ang_stability};
    v[n + ".acc_bias_stability"] = {q.acc_bias_stability}; v[n + ".omg_bias_stability"] = {q.omg_bias_stability};
    v[n + ".acc_error"] = Flat(p.acc_error); v[n + ".omg_error"] = Flat(p.omg_error);
    v[n + ".pos_error"] = Flat(p.pos_error); v[n + ".ang_error"] = Flat(p.ang_error);
    v[n + ".acc_bias_error"] = Flat(p.acc_bias_error); v[n + ".omg_bias_error"] = Flat(p.omg_bias_error);
  }
  auto GenerateMessages() const {auto l = SimIMU::GenerateMessages(); Made(l); return l;}
  template<class M> void Callback(const M & m) {Used(GetId(), m); SimIMU::Callback(m);}
};
class ObsSimGPS : public SimGPS
{
public:
  ObsSimGPS(SimGPS::Parameters p, std::shared_ptr<TruthEngine> t) : SimGPS(p, t)
  {
    const auto & q = p.gps_params; const std::string n = q.name;
    rec->truth = t; rec->id[n] = GetId();
    RecSensor(n, q); RecSim(n, p);
    auto & v = rec->val;
    v[n + ".is_extrinsic"] = {double(q.is_extrinsic)};
    v[n + ".variance"] = Flat(q.variance); v[n + ".pos_a_in_b"] = Flat(q.pos_a_in_b);
    v[n + ".pos_stability"] = {q.pos_stability};
    v[n + ".lla_error"] = Flat(p.lla_error); v[n + ".pos_a_in_b_error"] = Flat(p.pos_a_in_b_err);
  }
  auto GenerateMessages() const {auto l = SimGPS::GenerateMessages(); Made(l); return l;}
  template<class M> void Callback(const M & m) {Used(GetId(), m); SimGPS::Callback(m);}
};
class ObsSimFeatureTracker : public SimFeatureTracker
{
public:
  ObsSimFeatureTracker(SimFeatureTracker::Parameters p, std::shared_ptr<TruthEngine> t) : SimFeatureTracker(p, t)
  {
    const auto & q = p.tracker_params; name = q.name;
    std::string n = q.name + "@" + std::to_string(q.camera_id);
    auto & v = rec->val;
    v[n + ".pixel_error"] = {q.px_error};
    v[n + ".min_track_length"] = {double(q.min_track_length)}; v[n + ".max_track_length"] = {double(q.max_track_length)};
    v[n + ".min_feature_distance"] = {q.min_feat_dist};
    v[n + ".down_sample"] = {double(q.down_sample)}; v[n + ".down_sample_height"] = {double(q.down_sample_height)};
    v[n + ".down_sample_width"] = {double(q.down_sample_width)};
    v[n + ".feature_count"] = {double(p.feature_count)}; v[n + ".room_size"] = {p.room_size};
    v[n + ".no_errors"] = {double(p.no_errors)};
    v[n + ".is_cam_extrinsic"] = {double(q.is_cam_extrinsic)}; v[n + ".data_log_rate"] = {q.data_log_rate};
    rec->str[n + ".dir"] = q.log_directory;
    RecIntrinsics(n, q.intrinsics);
    tag = n;
  }
  std::string name, tag;
};
class ObsSimFiducialTracker : public SimFiducialTracker
{
public:
  ObsSimFiducialTracker(SimFiducialTracker::Parameters p, std::shared_ptr<TruthEngine> t) : SimFiducialTracker(p, t)
  {
    const auto & q = p.fiducial_params;
    std::string n = q.name + "@" + std::to_string(q.camera_id);
    auto & v = rec->val;
    v[n + ".fiducial_type"] = {double(static_cast<int>(q.detector_type))};
    v[n + ".min_track_length"] = {double(q.min_track_length)};
    v[n + ".squares_x"] = {double(q.squares_x)}; v[n + ".squares_y"] = {double(q.squares_y)};
    v[n + ".square_length"] = {q.square_length}; v[n + ".marker_length"] = {q.marker_length};
    v[n + ".id"] = {double(q.id)}; v[n + ".is_extrinsic"] = {double(q.is_extrinsic)};
    v[n + ".pos_f_in_l"] = Flat(q.pos_f_in_l); v[n + ".ang_f_to_l"] = Flat(q.ang_f_to_l);
    v[n + ".variance"] = Flat(q.variance);
    v[n + ".pos_error"] = Flat(p.pos_error); v[n + ".ang_error"] = Flat(p.ang_error);
    v[n + ".t_vec_error"] = Flat(p.t_vec_error); v[n + ".r_vec_error"] = Flat(p.r_vec_error);
    v[n + ".no_errors"] = {double(p.no_errors)};
    v[n + ".is_cam_extrinsic"] = {double(q.is_cam_extrinsic)}; v[n + ".data_log_rate"] = {q.data_log_rate};
    rec->str[n + ".dir"] = q.log_directory;
    RecIntrinsics(n, q.intrinsics);
    tag = n;
  }
  std::string tag;
};
class ObsSimCamera : public SimCamera
{
public:
  ObsSimCamera(SimCamera::Parameters p, std::shared_ptr<TruthEngine> t) : SimCamera(p, t)
  {
    const auto & q = p.cam_params; const std::string n = q.name;
    name = n;
    rec->truth = t; rec->id[n] = GetId();
    RecSensor(n, q); RecSim(n, p);
    auto & v = rec->val;
    v[n + ".is_extrinsic"] = {double(q.is_extrinsic)};
    v[n + ".variance"] = Flat(q.variance);
    v[n + ".pos_c_in_b"] = Flat(q.pos_c_in_b); v[n + ".ang_c_to_b"] = Flat(q.ang_c_to_b);
    v[n + ".pos_stability"] = {q.pos_stability}; v[n + ".ang_stability"] = {q.ang_stability};
    v[n + ".pos_error"] = Flat(p.pos_error); v[n + ".ang_error"] = Flat(p.ang_error);
    RecIntrinsics(n, q.intrinsics);
  }
  template<class T> void AddTracker(const T & t) {rec->str[name + ".tracker"] += t->tag + ";"; SimCamera::AddTracker(t);}
  template<class T> void AddFiducial(const T & t) {rec->str[name + ".fiducial"] += t->tag + ";"; SimCamera::AddFiducial(t);}
  auto GenerateMessages() {auto l = SimCamera::GenerateMessages(); Made(l); return l;}
  template<class M> void Callback(const M & m) {Used(GetId(), m); SimCamera::Callback(m);}
  std::string name;
};
static void RecTruth(const std::string & kind, const std::vector<std::string> & names, const std::vector<V> & args)
{
  rec->str["truth"] = kind;
  for (size_t k = 0; k < names.size() && k < args.size(); ++k) {rec->val["truth." + names[k]] = args[k];}
}
template<class T> static V Arg(const T & x) {return Flat(x);}
template<class T> static V Arg(const std::shared_ptr<T> &) {return {};}
class ObsCyclic : public TruthEngineCyclic
{
public:
  template<class ... A> explicit ObsCyclic(const A & ... a) : TruthEngineCyclic(a ...)
  {
    RecTruth("cyclic", {"pos_frequency", "ang_frequency", "pos_offset", "ang_offset", "pos_amplitude", "ang_amplitude", "stationary_time",
        "max_time"}, {Arg(a) ...});
  }
};
class ObsSmoother : public TruthEngineSmoother
{
public:
  template<class ... A> explicit ObsSmoother(const A & ... a) : TruthEngineSmoother(a ...)
  {
    RecTruth("smoother", {"times", "positions", "angles", "pos_errors", "ang_errors", "stationary_time", "max_time"}, {Arg(a) ...});
  }
};
class ObsSpline : public TruthEngineSpline
{
public:
  template<class ... A> explicit ObsSpline(const A & ... a) : TruthEngineSpline(a ...)
  {
    RecTruth("spline", {"positions", "angles", "pos_errors", "ang_errors", "stationary_time", "max_time"}, {Arg(a) ...});
  }
};
struct ObsSimRNG : public SimRNG
{
  static void SetSeed(unsigned s) {rec->val["sim.seed"] = {double(s)}; SimRNG::SetSeed(s);}
};
class ObsDebugLogger : public DebugLogger
{
public:
  template<class L> ObsDebugLogger(L level, const std::string & d) : DebugLogger(level, d)
  {
    rec->val["debug_log_level"] = {double(static_cast<int>(level))}; rec->str["debug.dir"] = d;
  }
};

#define main sim_main
#define EKF ObsEKF
#define SimIMU ObsSimIMU
#define SimGPS ObsSimGPS
#define SimCamera ObsSimCamera
#define SimFeatureTracker ObsSimFeatureTracker
#define SimFiducialTracker ObsSimFiducialTracker
#define TruthEngineCyclic ObsCyclic
#define TruthEngineSmoother ObsSmoother
#define TruthEngineSpline ObsSpline
#define SimRNG ObsSimRNG
#define DebugLogger ObsDebugLogger
#include "application/sim/simulation.cpp"
#undef main
#undef EKF
#undef SimIMU
#undef SimGPS
#undef SimCamera
#undef SimFeatureTracker
#undef SimFiducialTracker
#undef TruthEngineCyclic
#undef TruthEngineSmoother
#undef TruthEngineSpline
#undef SimRNG
#undef DebugLogger

// ---------------------------------------------------------------------------
// Reference: every parameter, its default and where it has to arrive.
struct Param
{
  std::string path;     // place in the configuration
  std::string text;     // the value given
  std::string to;       // what it configures
  V given, absent;      // the numbers that arrive with and without it
  std::string sgiven, sabsent;
};
static std::string List(const V & v)
{
  std::ostringstream o; o << "[";
  for (size_t k = 0; k < v.size(); ++k) {o << (k ? ", " : "") << std::fixed << v[k];}
  o << "]"; return o.str();
}
static std::string Num(double v) {std::ostringstream o; o << std::fixed << v; return o.str();}

static std::vector<Param> Table(const std::string & truth)
{
  std::vector<Param> t;
  auto num = [&](const std::string & p, const std::string & to, double v, double d) {t.push_back({p, Num(v), to, {v}, {d}, "", ""});};
  auto cnt = [&](const std::string & p, const std::string & to, unsigned v, unsigned d) {
      t.push_back({p, std::to_string(v), to, {double(v)}, {double(d)}, "", ""});
    };
  auto flag = [&](const std::string & p, const std::string & to, bool v, bool d) {
      t.push_back({p, v ? "true" : "false", to, {double(v)}, {double(d)}, "", ""});
    };
  auto vec = [&](const std::string & p, const std::string & to, V v, V d) {t.push_back({p, List(v), to, v, d, "", ""});};
  auto txt = [&](const std::string & p, const std::string & to, const std::string & v, const std::string & d) {
      t.push_back({p, v, to, {}, {}, v, d});
    };
  // Values are all different, so that a value in the wrong place is noticed.
  double s = 0.001;
  auto v3 = [&]() {s += 0.004; return V{s, s + 0.001, s + 0.002};};
  auto vn = [&](unsigned n) {V v; for (unsigned k = 0; k < n; ++k) {s += 0.001; v.push_back(s);} return v;};
  auto v1 = [&]() {return s += 0.003;};
  const V z3 = {0, 0, 0}, id = {1, 0, 0, 0};
  const V qa = {0.5, 0.5, -0.5, 0.5}, qb = {0.6, 0, 0.8, 0}, qc = {0, 0.6, 0, 0.8}, qd = {0.28, 0.96, 0, 0};
  cnt("debug_log_level", "debug_log_level", 2, 0);
  num("data_log_rate", "ekf.data_log_rate", 7, 0);
  cnt("augmenting_type", "ekf.augmenting_type", 3, 1);
  for (const char * k : {"augmenting_pos_error", "augmenting_ang_error"}) {num(k, std::string("ekf.") + k, v1(), 0.1);}
  for (const char * k : {"augmenting_delta_time", "gps_init_baseline_dist", "gps_init_pos_thresh", "gps_init_ang_thresh",
      "motion_detection_chi_squared"})
  {
    num(k, std::string("ekf.") + k, v1(), 1.0);
  }
  num("imu_noise_scale_factor", "ekf.imu_noise_scale_factor", 40 + v1(), 100);
  unsigned n = 0;
  for (const char * k : {"pos", "vel", "acc", "ang_pos", "ang_vel", "ang_acc"}) {
    num(std::string("process_noise.") + k, "ekf.process_noise#" + std::to_string(3 * n++), v1(), 0.01);
  }
  vec("pos_b_in_l", "ekf.pos_b_in_l", {3.1, -2.2, 1.4}, z3);
  vec("ang_b_to_l", "ekf.ang_b_to_l", qa, id);
  vec("pos_e_in_g", "ekf.pos_e_in_g", v3(), z3);
  num("ang_l_to_e", "ekf.ang_l_to_e", 1.5, 0);
  cnt("gps_init_type", "ekf.gps_init_type", 1, 0);
  flag("use_root_covariance", "ekf.use_root_covariance", false, true);
  flag("use_first_estimate_jacobian", "ekf.use_first_estimate_jacobian", true, false);
  cnt("sim_params.seed", "sim.seed", 4, 1);
  num("sim_params.max_time", "truth.max_time", 2.5, 10);
  num("sim_params.stationary_time", "truth.stationary_time", 1.6, 0.1);
  txt("sim_params.truth_type", "truth", truth, "cyclic");
  if (truth == "cyclic") {
    for (const char * k : {"pos_frequency", "ang_frequency", "pos_offset", "ang_offset"}) {
      vec(std::string("sim_params.") + k, std::string("truth.") + k, v3(), z3);
    }
    num("sim_params.pos_amplitude", "truth.pos_amplitude", v1(), 1.0);
    num("sim_params.ang_amplitude", "truth.ang_amplitude", v1(), 0.1);
  } else {
    for (const char * k : {"pos_errors", "ang_errors"}) {vec(std::string("sim_params.") + k, std::string("truth.") + k, v3(), z3);}
    vec("sim_params.positions", "truth.positions", {0.1, 0.2, 0.3, 0.5, 0.4, 0.6, 0.7, 0.9, 0.8, 1.0, 1.2, 1.1}, z3);
    vec("sim_params.angles", "truth.angles", {0.02, 0.01, 0.03, 0.05, 0.04, 0.06, 0.07, 0.09, 0.08, 0.01, 0.02, 0.11}, z3);
    if (truth == "smoother") {vec("sim_params.times", "truth.times", {0, 1, 2, 2.5}, z3);}
  }
  auto sensor = [&](const std::string & p, const std::string & to, double rate) {
      txt(p + "topic", to + "topic", "/t" + std::to_string(unsigned(rate)), "");
      num(p + "rate", to + "rate", rate, 1);
      num(p + "data_log_rate", to + "data_log_rate", rate / 2, 0);
      flag(p + "is_extrinsic", to + "is_extrinsic", true, false);
      flag(p + "sim_params.no_errors", to + "no_errors", true, false);
      num(p + "sim_params.time_error", to + "time_error", v1(), 0);
    };
  auto many = [&](const std::string & p, const std::string & to, std::initializer_list<const char *> keys) {
      for (const char * k : keys) {vec(p + k, to + k, v3(), z3);}
    };
  sensor("imu.a.", "a.", 8);
  flag("imu.a.is_intrinsic", "a.is_intrinsic", true, false);
  vec("imu.a.variance", "a.variance", vn(12), V(12, 0.0));
  many("imu.a.", "a.", {"pos_i_in_b", "acc_bias", "omg_bias"});
  vec("imu.a.ang_i_to_b", "a.ang_i_to_b", qb, id);
  for (const char * k : {"pos_stability", "ang_stability", "acc_bias_stability", "omg_bias_stability"}) {
    num(std::string("imu.a.") + k, std::string("a.") + k, v1(), 1e-9);
  }
  many("imu.a.sim_params.", "a.", {"acc_error", "omg_error", "pos_error", "ang_error", "acc_bias_error", "omg_bias_error"});
  num("tracker.t.pixel_error", "t@c.pixel_error", v1(), 1);
  num("tracker.t.min_feature_distance", "t@c.min_feature_distance", v1(), 1);
  cnt("tracker.t.min_track_length", "t@c.min_track_length", 3, 2);
  cnt("tracker.t.max_track_length", "t@c.max_track_length", 5, 20);
  flag("tracker.t.down_sample", "t@c.down_sample", true, false);
  cnt("tracker.t.down_sample_height", "t@c.down_sample_height", 260, 480);
  cnt("tracker.t.down_sample_width", "t@c.down_sample_width", 410, 640);
  cnt("tracker.t.sim_params.feature_count", "t@c.feature_count", 30, 100);
  num("tracker.t.sim_params.room_size", "t@c.room_size", 6, 10);
  flag("tracker.t.sim_params.no_errors", "t@c.no_errors", true, false);
  cnt("fiducial.f.fiducial_type", "f@c.fiducial_type", 1, 0);
  cnt("fiducial.f.squares_x", "f@c.squares_x", 6, 1);
  cnt("fiducial.f.squares_y", "f@c.squares_y", 9, 1);
  cnt("fiducial.f.id", "f@c.id", 11, 0);
  double marker = v1(), square = v1();
  num("fiducial.f.square_length", "f@c.square_length", square, 0);
  num("fiducial.f.marker_length", "f@c.marker_length", marker, 0);
  cnt("fiducial.f.min_track_length", "f@c.min_track_length", 1, 2);
  cnt("fiducial.f.max_track_length", "f.max_track_length", 4, 20);
  flag("fiducial.f.is_extrinsic", "f@c.is_extrinsic", true, false);
  vec("fiducial.f.pos_f_in_l", "f@c.pos_f_in_l", v3(), z3);
  vec("fiducial.f.ang_f_to_l", "f@c.ang_f_to_l", qc, id);
  vec("fiducial.f.variance", "f@c.variance", vn(6), V(6, 0.0));
  many("fiducial.f.sim_params.", "f@c.", {"pos_error", "ang_error", "t_vec_error", "r_vec_error"});
  flag("fiducial.f.sim_params.no_errors", "f@c.no_errors", true, false);
  sensor("camera.c.", "c.", 4);
  vec("camera.c.pos_c_in_b", "c.pos_c_in_b", v3(), z3);
  vec("camera.c.ang_c_to_b", "c.ang_c_to_b", qd, id);
  vec("camera.c.variance", "c.variance", vn(6), V(6, 0.0));
  num("camera.c.pos_stability", "c.pos_stability", v1(), 1e-9);
  num("camera.c.ang_stability", "c.ang_stability", v1(), 1e-9);
  num("camera.c.intrinsics.f_x", "c.f_x", 0.01 + v1() / 100, 0.01);
  num("camera.c.intrinsics.f_y", "c.f_y", 0.01 + v1() / 100, 0.01);
  for (const char * k : {"k_1", "k_2", "p_1", "p_2"}) {num(std::string("camera.c.intrinsics.") + k, std::string("c.") + k, v1() / 100, 0);}
  num("camera.c.intrinsics.width", "c.width", 800, 640);
  num("camera.c.intrinsics.height", "c.height", 600, 480);
  num("camera.c.intrinsics.pixel_size", "c.pixel_size", 6e-6, 5e-6);
  txt("camera.c.tracker", "c.tracker", "t", "");
  txt("camera.c.fiducial", "c.fiducial", "f", "");
  many("camera.c.sim_params.", "c.", {"pos_error", "ang_error"});
  sensor("gps.g.", "g.", 2);
  vec("gps.g.variance", "g.variance", v3(), z3);
  vec("gps.g.pos_a_in_b", "g.pos_a_in_b", v3(), z3);
  num("gps.g.pos_stability", "g.pos_stability", v1(), 0);
  many("gps.g.sim_params.", "g.", {"lla_error", "pos_a_in_b_error"});
  vec("sim_params.pos_b_in_l_error", "init.pos", v3(), z3);
  vec("sim_params.ang_b_to_l_error", "init.ang", v3(), z3);
  vec("sim_params.pos_e_in_g_error", "ref.pos", {3, 4, 5}, z3);
  num("sim_params.ang_l_to_e_error", "ref.ang", v1(), 0);
  return t;
}

// The sensors of a configuration, by name; a camera names its tracker and board.
struct Cast {std::vector<std::string> imu, camera, tracker, fiducial, gps; std::map<std::string, std::string> trk, fid;};

static std::string Yaml(const Cast & k, const std::vector<std::pair<std::string, std::string>> & values)
{
  // Nested maps, written in flow style
  struct Node {std::map<std::string, Node> sub; std::string text;};
  Node root;
  auto set = [&](const std::string & p, const std::string & v) {
      Node * n = &root; std::stringstream s(p); std::string w;
      while (std::getline(s, w, '.')) {n = &n->sub[w];}
      n->text = v;
    };
  for (const auto & v : values) {set(v.first, v.second);}
  auto list = [&](const std::string & p, const std::vector<std::string> & l) {
      std::string t = "[";
      for (size_t i = 0; i < l.size(); ++i) {t += (i ? ", " : "") + ("\"" + l[i] + "\"");}
      set(p, t + "]");
    };
  list("imu_list", k.imu); list("camera_list", k.camera); list("tracker_list", k.tracker);
  list("fiducial_list", k.fiducial); list("gps_list", k.gps);
  std::ostringstream o;
  std::function<void(const Node &)> put = [&](const Node & n) {
      if (n.sub.empty()) {o << n.text; return;}
      o << "{"; bool first = true;
      for (const auto & c : n.sub) {o << (first ? "" : ", ") << c.first << ": "; first = false; put(c.second);}
      o << "}";
    };
  o << "/EkfCalNode:\n  ros__parameters: "; put(root); o << "\n";
  return o.str();
}
static int Run(const std::string & dir, const std::string & yaml, Record & r)
{
  mkdir(dir.c_str(), 0755);
  std::ofstream(dir + "/config.yaml") << yaml;
  std::string a = "sim", b = dir + "/config.yaml", d = dir + "/";
  char * argv[] = {a.data(), b.data(), d.data(), nullptr};
  rec = &r;
  std::ostringstream out, err;
  auto * o = std::cout.rdbuf(out.rdbuf()); auto * e = std::cerr.rdbuf(err.rdbuf());
  int rc = sim_main(3, argv);
  std::cout.rdbuf(o); std::cerr.rdbuf(e);
  rec = nullptr;
  return rc;
}
static bool Same(const V & a, const V & b)
{
  if (a.size() != b.size()) {return false;}
  for (size_t k = 0; k < a.size(); ++k) {if (!(std::abs(a[k] - b[k]) <= 1e-12 * std::max(1.0, std::abs(b[k])))) {return false;}}
  return true;
}
static std::string Show(const V & v) {std::ostringstream o; for (double x : v) {o << " " << x;} return o.str();}

// Message handling, the same for every configuration
static void Messages(mc::Ctx & c, const Record & r, const std::map<std::string, double> & rates, double max_time, bool exact)
{
  c.Check(!r.wrong_use, "a message reached another sensor than its own");
  for (size_t k = 1; k < r.used.size(); ++k) {
    if (!c.Check(r.used[k - 1].time <= r.used[k].time, "messages are not handed over in time order")) {break;}
  }
  auto a = r.made, b = r.used;
  std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
  c.Check(a == b, "not every generated message is handed over exactly once: " + std::to_string(a.size()) + " generated, " +
    std::to_string(b.size()) + " handed over");
  std::set<unsigned> ids;
  for (const auto & s : rates) {
    auto it = r.id.find(s.first);
    if (!c.Check(it != r.id.end(), "sensor " + s.first + " was not made")) {continue;}
    c.Check(ids.insert(it->second).second, "two sensors share an identifier");
    size_t n = 0; for (const auto & m : r.used) {n += m.sensor == it->second;}
    double want = std::floor(max_time * s.second + 1e-9);
    c.Check(exact ? n == want : std::abs(double(n) - want) <= 1,
      "sensor " + s.first + ": " + std::to_string(n) + " messages instead of " + std::to_string(want));
  }
  c.Check(r.id.size() == rates.size(), "other sensors were made than those listed");
  c.Check(r.ekfs == 1 && r.init.size() == 1 && !r.late_init, "the filter is not initialised exactly once, before the first message");
  if (!r.init.empty()) {c.Check(r.init[0].first == 0.0, "the filter is not initialised at time zero");}
  c.Transition(r.used.size() + 1);
  for (const auto & m : r.used) {c.State(m.hash);}
}

// One configuration of one sensor of each kind with a set of parameters given
static void One(mc::Ctx & c, const std::vector<Param> & t, std::set<size_t> on)
{
  Cast k; k.imu = {"a"}; k.camera = {"c"}; k.tracker = {"t"}; k.fiducial = {"f"}; k.gps = {"g"};
  std::vector<std::pair<std::string, std::string>> values;
  std::map<std::string, V> want; std::map<std::string, std::string> swant;
  // A board that is used has a size
  bool board = false; for (size_t i : on) {board = board || t[i].path == "camera.c.fiducial";}
  for (size_t i = 0; board && i < t.size(); ++i) {
    const std::string & p = t[i].path;
    if (p == "fiducial.f.squares_x" || p == "fiducial.f.squares_y" || p == "fiducial.f.square_length" || p == "fiducial.f.marker_length") {on.insert(i);}
  }
  for (size_t i = 0; i < t.size(); ++i) {
    if (on.count(i)) {values.push_back({t[i].path, t[i].text});}
    want[t[i].to] = on.count(i) ? t[i].given : t[i].absent;
    swant[t[i].to] = on.count(i) ? t[i].sgiven : t[i].sabsent;
  }
  Record r;
  const std::string dir = c.scratch + "/run";
  std::string clean = "rm -rf " + dir; if (system(clean.c_str())) {}
  int rc = Run(dir, Yaml(k, values), r);
  c.Trace(); c.Eval();
  c.Check(rc == 0, "the simulation failed");
  const std::string cam = "@" + std::to_string(r.id.count("c") ? r.id.at("c") : 0u);
  const bool has_t = swant["c.tracker"] == "t", has_f = swant["c.fiducial"] == "f";
  c.Check(r.str["c.tracker"] == (has_t ? "t" + cam + ";" : ""), "the camera has trackers " + r.str["c.tracker"]);
  c.Check(r.str["c.fiducial"] == (has_f ? "f" + cam + ";" : ""), "the camera has boards " + r.str["c.fiducial"]);
  c.Check(r.str["truth"] == swant["truth"], "truth is " + r.str["truth"]);
  for (const auto & w : want) {
    std::string to = w.first; V exp = w.second;
    if (to == "c.tracker" || to == "c.fiducial" || to == "truth" || to.rfind("init.", 0) == 0 || to.rfind("ref.", 0) == 0 ||
      to == "f.max_track_length") {continue;}
    if (exp.empty()) {c.Check(r.str[to] == swant[to], to + " is \"" + r.str[to] + "\""); continue;}
    size_t h = to.find('#');
    if (h != std::string::npos) {
      V all = r.val[to.substr(0, h)]; size_t i = std::stoul(to.substr(h + 1));
      c.Check(all.size() == 18 && Same(V(all.begin() + i, all.begin() + i + 3), V(3, exp[0])), to + " is" + Show(all));
      continue;
    }
    size_t at = to.find("@c.");
    if (at != std::string::npos) {
      if (to[0] == 't' ? !has_t : !has_f) {continue;}
      if (to.find(".no_errors") != std::string::npos) {exp[0] = std::max(exp[0], want["c.no_errors"][0]);}
      to = to.substr(0, at) + cam + to.substr(at + 2);
    }
    if (!c.Check(r.val.count(to), to + " never arrives")) {continue;}
    c.Check(Same(r.val[to], exp), to + " is" + Show(r.val[to]) + " instead of" + Show(exp));
  }
  // Trackers and boards share the camera's lens, flag and log rate
  for (const std::string & n : {std::string("t"), std::string("f")}) {
    if (n == "t" ? !has_t : !has_f) {continue;}
    for (const char * w : {"f_x", "f_y", "k_1", "k_2", "p_1", "p_2", "width", "height", "pixel_size", "data_log_rate"}) {
      c.Check(Same(r.val[n + cam + "." + w], r.val[std::string("c.") + w]), std::string(w) + " of " + n + " is not the camera's");
    }
    c.Check(r.val[n + cam + ".is_cam_extrinsic"] == r.val["c.is_extrinsic"], "camera calibration flag of " + n + " is not the camera's");
  }
  c.Check(r.val["ekf.max_track_length"] == V{std::max(want["t@c.max_track_length"][0], want["f.max_track_length"][0])},
    "the longest track of the filter is" + Show(r.val["ekf.max_track_length"]));
  for (const auto & s : r.str) {
    if (s.first.size() > 4 && s.first.substr(s.first.size() - 4) == ".dir") {c.Check(s.second == dir + "/", s.first + " is " + s.second);}
  }
  // Initial state and reference
  if (!r.init.empty()) {
    const BodyState & b = r.init[0].second;
    const V & e = want["init.pos"]; const V & m = want["ekf.pos_b_in_l"];
    for (int i = 0; i < 3; ++i) {
      double d = b.pos_b_in_l[i] - m[i];
      c.Check(e[i] > 0 ? d != 0 && std::abs(d) < 7 * e[i] : std::abs(d) < 1e-9, "initial position deviates by " + std::to_string(d));
    }
    const V & a = want["init.ang"]; const V & q = want["ekf.ang_b_to_l"];
    double ang = b.ang_b_to_l.angularDistance(Eigen::Quaterniond(q[0], q[1], q[2], q[3]));
    double lim = 7 * std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]);
    c.Check(lim > 0 ? ang > 1e-9 && ang < lim : ang < 1e-7, "initial orientation deviates by " + std::to_string(ang));
    c.Check(b.vel_b_in_l.norm() == 0 && (b.acc_b_in_l - Eigen::Vector3d(0, 0, 9.80665)).norm() < 0.01 && b.ang_vel_b_in_l.norm() == 0, "the body does not start at rest");
  }
  if (c.Check(r.truth != nullptr, "no truth")) {
    Eigen::Vector3d g = r.truth->GetLocalPosition(); const V & m = want["ekf.pos_e_in_g"]; const V & e = want["ref.pos"];
    for (int i = 0; i < 3; ++i) {
      double d = (g[i] - m[i]) * (i < 2 ? 111320.0 : 1.0);
      c.Check(e[i] > 0 ? d != 0 && std::abs(d) < 7 * e[i] : std::abs(d) < 1e-6, "true reference deviates by " + std::to_string(d) + " m");
    }
    double d = r.truth->GetLocalHeading() - want["ekf.ang_l_to_e"][0], s = want["ref.ang"][0];
    c.Check(s > 0 ? d != 0 && std::abs(d) < 7 * s : std::abs(d) < 1e-9, "true heading deviates by " + std::to_string(d));
  }
  Messages(c, r, {{"a", want["a.rate"][0]}, {"c", want["c.rate"][0]}, {"g", want["g.rate"][0]}}, want["truth.max_time"][0], true);
  c.Check((access((dir + "/body_truth.csv").c_str(), F_OK) == 0) == (want["ekf.data_log_rate"][0] != 0), "truth log");
}

// Several sensors of each kind, each with parameters of its own
static void Many(mc::Ctx & c, unsigned code)
{
  Cast k; std::vector<std::pair<std::string, std::string>> v;
  const unsigned ni = code % 3, nc = code / 3 % 3, ng = code / 9 % 3, nt = code / 27 % 3, nf = code / 81 % 3;
  const unsigned share = code / 243 % 6;   // which camera uses which tracker and board
  std::map<std::string, double> rates;
  auto rate = [&](const std::string & p, const std::string & n, double r) {v.push_back({p + n + ".rate", Num(r)}); rates[n] = r;};
  v.push_back({"sim_params.max_time", "1.0"});
  // A section that is not listed is not used
  v.push_back({"imu.ghost.rate", "50.0"}); v.push_back({"camera.ghost.rate", "50.0"}); v.push_back({"gps.ghost.rate", "50.0"});
  for (unsigned i = 0; i < ni; ++i) {k.imu.push_back("i" + std::to_string(i)); rate("imu.", k.imu.back(), 6 - i);}
  for (unsigned i = 0; i < ng; ++i) {k.gps.push_back("g" + std::to_string(i)); rate("gps.", k.gps.back(), 3 + i);}
  unsigned longest = nf ? 20 : 0;
  for (unsigned i = 0; i < nt; ++i) {
    k.tracker.push_back("t" + std::to_string(i));
    unsigned len = share % 2 ? 7 + i : 9 - i; longest = std::max(longest, len);
    v.push_back({"tracker." + k.tracker.back() + ".max_track_length", std::to_string(len)});
    v.push_back({"tracker." + k.tracker.back() + ".pixel_error", Num(0.6 + 0.1 * i)});
    v.push_back({"tracker." + k.tracker.back() + ".sim_params.feature_count", std::to_string(15 + i)});
  }
  for (unsigned i = 0; i < nf; ++i) {
    k.fiducial.push_back("f" + std::to_string(i));
    const std::string p = "fiducial." + k.fiducial.back() + ".";
    v.push_back({p + "id", std::to_string(3 + i)});
    v.push_back({p + "squares_x", "5"}); v.push_back({p + "squares_y", "7"});
    v.push_back({p + "square_length", "0.04"}); v.push_back({p + "marker_length", "0.02"});
  }
  for (unsigned i = 0; i < nc; ++i) {
    k.camera.push_back("c" + std::to_string(i)); const std::string n = k.camera.back();
    rate("camera.", n, 4 + i);
    v.push_back({"camera." + n + ".intrinsics.f_x", Num(0.01 + 0.001 * i)});
    v.push_back({"camera." + n + ".is_extrinsic", i ? "true" : "false"});
    v.push_back({"camera." + n + ".data_log_rate", Num(2 + i)});
    v.push_back({"camera." + n + ".sim_params.no_errors", i ? "false" : "true"});
    unsigned w = (share + i) % (nt + 1), x = (share / 2 + i) % (nf + 1);
    if (share > 3) {w = share - 4; x = share - 4;}   // cameras share their tracker and board
    if (w < nt) {k.trk[n] = k.tracker[w]; v.push_back({"camera." + n + ".tracker", k.tracker[w]});}
    if (x < nf) {k.fid[n] = k.fiducial[x]; v.push_back({"camera." + n + ".fiducial", k.fiducial[x]});}
  }
  Record r;
  const std::string dir = c.scratch + "/run";
  std::string clean = "rm -rf " + dir; if (system(clean.c_str())) {}
  int rc = Run(dir, Yaml(k, v), r);
  c.Trace(); c.Eval();
  c.Check(rc == 0, "the simulation failed");
  Messages(c, r, rates, 1.0, true);
  c.Check(r.val["ekf.augmenting_type"] == V{nt ? 1.0 : 0.0}, "frames are cloned" + Show(r.val["ekf.augmenting_type"]));
  c.Check(r.val["ekf.max_track_length"] == V{double(longest)}, "the longest track of the filter is" + Show(r.val["ekf.max_track_length"]));
  for (unsigned i = 0; i < nc; ++i) {
    const std::string n = k.camera[i], at = "@" + std::to_string(r.id.count(n) ? r.id[n] : 0u);
    c.Check(r.str[n + ".tracker"] == (k.trk.count(n) ? k.trk[n] + at + ";" : ""), "camera " + n + " has trackers " + r.str[n + ".tracker"]);
    c.Check(r.str[n + ".fiducial"] == (k.fid.count(n) ? k.fid[n] + at + ";" : ""), "camera " + n + " has boards " + r.str[n + ".fiducial"]);
    for (const std::string & u : {k.trk.count(n) ? k.trk[n] + at : std::string(), k.fid.count(n) ? k.fid[n] + at : std::string()}) {
      if (u.empty()) {continue;}
      c.Check(Same(r.val[u + ".f_x"], {0.01 + 0.001 * i}), u + " has another camera's lens");
      c.Check(r.val[u + ".is_cam_extrinsic"] == V{i ? 1.0 : 0.0}, u + " has another camera's calibration flag");
      c.Check(Same(r.val[u + ".data_log_rate"], {2.0 + i}), u + " has another camera's log rate");
      c.Check(r.val[u + ".no_errors"] == V{i ? 0.0 : 1.0}, u + " has another camera's choice of errors");
    }
    if (k.trk.count(n)) {
      double w = k.trk[n].back() - '0';
      c.Check(Same(r.val[k.trk[n] + at + ".pixel_error"], {0.6 + 0.1 * w}) && Same(r.val[k.trk[n] + at + ".feature_count"], {15 + w}),
        "camera " + n + " has another tracker's parameters");
    }
    if (k.fid.count(n)) {
      c.Check(Same(r.val[k.fid[n] + at + ".id"], {3.0 + (k.fid[n].back() - '0')}), "camera " + n + " has another board's parameters");
    }
  }
}

// The same seed repeats a run, another one does not; zero leaves the generator alone
static void Seeds(mc::Ctx & c, unsigned code)
{
  const char * truths[] = {"cyclic", "spline", "smoother"};
  const std::string truth = truths[code % 3];
  const unsigned s1 = 1 + code / 3 % 4, s2 = 1 + code / 12 % 4; const bool errors = code / 48 % 2;
  Cast k; k.imu = {"a"}; k.camera = {"c"}; k.tracker = {"t"}; k.fiducial = {"f"}; k.gps = {"g"};
  auto conf = [&](unsigned seed) {
      std::vector<std::pair<std::string, std::string>> v;
      std::set<std::string> skip = {"sim_params.seed", "imu.a.sim_params.no_errors", "camera.c.sim_params.no_errors", "gps.g.sim_params.no_errors",
        "tracker.t.sim_params.no_errors", "fiducial.f.sim_params.no_errors"};
      for (const auto & p : Table(truth)) {if (!skip.count(p.path)) {v.push_back({p.path, p.text});}}
      v.push_back({"sim_params.seed", std::to_string(seed)});
      for (const std::string s : {"imu.a", "camera.c", "gps.g", "tracker.t", "fiducial.f"}) {
        v.push_back({s + ".sim_params.no_errors", errors ? "false" : "true"});
      }
      return Yaml(k, v);
    };
  std::vector<Record> r(3);
  unsigned seed[] = {s1, s2, s1};
  for (int q = 0; q < 3; ++q) {
    std::string clean = "rm -rf " + c.scratch + "/run"; if (system(clean.c_str())) {}
    c.Check(Run(c.scratch + "/run", conf(seed[q]), r[q]) == 0, "the simulation failed");
    c.Trace(); c.Transition(r[q].used.size()); for (const auto & m : r[q].used) {c.State(m.hash);}
  }
  auto same = [](const Record & a, const Record & b) {
      if (a.used.size() != b.used.size()) {return false;}
      for (size_t i = 0; i < a.used.size(); ++i) {if (a.used[i].hash != b.used[i].hash) {return false;}}
      return a.init.size() == 1 && b.init.size() == 1 && a.init[0].second.pos_b_in_l == b.init[0].second.pos_b_in_l &&
             a.truth->GetLocalPosition() == b.truth->GetLocalPosition();
    };
  c.Eval();
  c.Check(same(r[0], r[2]), "two runs with seed " + std::to_string(s1) + " differ");
  if (s1 != s2) {c.Check(!same(r[0], r[1]), "seeds " + std::to_string(s1) + " and " + std::to_string(s2) + " give the same run");}
}

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C26");
  R.rule = "the simulation application itself is run on every configuration: nothing given, everything given, each parameter alone, each "
    "missing, every pair (thorough; quick: every pair within one section), for each kind of truth; 0 to 2 sensors of each kind with every "
    "assignment pattern of trackers and boards; all pairs of seeds. Its components are observed where they are built and used and compared "
    "with a reference table and with the messages generated";
  R.assumptions = {"parameter names are those the application documents or reads; values are valid",
    "the configured angular error about the third axis need not be applied to the initial orientation"};
  std::vector<std::pair<std::string, std::function<void(mc::Ctx &)>>> cases;
  size_t pairs = 0;
  for (const std::string truth : {"cyclic", "spline", "smoother"}) {
    auto t = std::make_shared<std::vector<Param>>(Table(truth));
    // The truth type and its waypoints belong together
    std::set<size_t> base;
    for (size_t i = 0; i < t->size(); ++i) {
      const auto & p = (*t)[i].path;
      if (truth != "cyclic" && (p == "sim_params.truth_type" || p == "sim_params.positions" || p == "sim_params.angles" ||
        p == "sim_params.times" || p == "sim_params.max_time")) {base.insert(i);}
    }
    std::set<size_t> all; for (size_t i = 0; i < t->size(); ++i) {all.insert(i);}
    auto add = [&](const std::string & key, std::set<size_t> on) {
        on.insert(base.begin(), base.end());
        cases.push_back({truth + " " + key, [t, on](mc::Ctx & c) {One(c, *t, on);}});
      };
    add("nothing", {}); add("everything", all);
    for (size_t i = 0; i < t->size(); ++i) {
      if (base.count(i)) {continue;}
      add("only " + (*t)[i].path, {i});
      auto most = all; most.erase(i); add("without " + (*t)[i].path, most);
    }
    if (truth != "cyclic" && !R.thorough) {continue;}
    for (size_t i = 0; i < t->size(); ++i) {
      for (size_t j = i + 1; j < t->size(); ++j) {
        auto sec = [&](size_t x) {auto & p = (*t)[x].path; return p.substr(0, p.find_first_of('.') == std::string::npos ? 0 : p.find_first_of('.'));};
        if (!R.thorough && sec(i) != sec(j)) {continue;}
        ++pairs;
        add("pair " + (*t)[i].path + " " + (*t)[j].path, {i, j});
      }
    }
  }
  R.Bound("parameters", Table("cyclic").size()); R.Bound("pairs", pairs); R.Bound("sensors of each kind", 2);
  for (unsigned q = 0; q < 1458; ++q) {
    cases.push_back({"sensors " + std::to_string(q), [q](mc::Ctx & c) {Many(c, q);}});
  }
  for (unsigned q = 0; q < 96; ++q) {cases.push_back({"seeds " + std::to_string(q), [q](mc::Ctx & c) {Seeds(c, q);}});}
  R.Parallel(cases.size(), [&](size_t i, mc::Ctx & c) {
      if (!R.Selected(cases[i].first)) {return;}
      c.Key(cases[i].first);
      cases[i].second(c);
      c.Sample(cases[i].first);
    });
  return R.Finish();
}
