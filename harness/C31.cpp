// C31: the ROS node, compiled against stand-ins for the ROS packages
// (harness/ros_stub): configuration, message delivery, publishing, debug log.
// links: yaml
// include: ros_stub
#include "mc.hpp"

#include <fstream>

#include <opencv2/opencv.hpp>
#include <yaml-cpp/yaml.h>

#include "ros_stub/rclcpp/rclcpp.hpp"
#include "ros_stub/cv_bridge/cv_bridge.hpp"
#define private public
#include "ekf/ekf.hpp"
#undef private
#include "infrastructure/data_logger.hpp"
#include "infrastructure/debug_logger.hpp"
#include "infrastructure/ekf_cal_version.hpp"
#include "sensors/camera.hpp"
#include "sensors/gps.hpp"
#include "sensors/imu.hpp"
#include "trackers/feature_tracker.hpp"
#include "trackers/fiducial_tracker.hpp"
#include "utility/constants.hpp"
#include "utility/string_helper.hpp"
#include "utility/type_helper.hpp"

#include "utility/ros_helper.cpp"
#include "sensors/ros/ros_camera_message.cpp"
#include "sensors/ros/ros_camera.cpp"
#include "sensors/ros/ros_gps_message.cpp"
#include "sensors/ros/ros_gps.cpp"
#include "sensors/ros/ros_imu_message.cpp"
#include "sensors/ros/ros_imu.cpp"

// the debug logger of the ROS build, beside the one of the library
#undef INFRASTRUCTURE__DEBUG_LOGGER_HPP_
#define DebugLogger RosDebugLogger
#define LogLevel RosLogLevel
#include "infrastructure/debug_logger.hpp"
#include "infrastructure/debug_logger.cpp"
#include "infrastructure/ros/ros_debug_logger.cpp"
#undef DebugLogger
#undef LogLevel

using V = std::vector<double>;
using rclcpp::ParameterValue;

// What the node built and did, seen at the interfaces of its components.
struct Record
{
  std::map<std::string, V> val;
  std::map<std::string, std::string> str;
  std::map<std::string, int> made;
  std::vector<std::string> used;       // sensors that were handed a message
  std::map<std::string, unsigned> id;
  std::shared_ptr<EKF> ekf;
};
static Record * rec = nullptr;
static V Flat(double x) {return {x};}
static V Flat(const Eigen::VectorXd & v) {return V(v.data(), v.data() + v.size());}
static V Flat(const Eigen::Quaterniond & q) {return {q.w(), q.x(), q.y(), q.z()};}
static void RecSensor(const std::string & n, const Sensor::Parameters & p)
{
  rec->made[n]++;
  rec->str[n + ".topic"] = p.topic; rec->val[n + ".rate"] = {p.rate}; rec->val[n + ".data_log_rate"] = {p.data_log_rate};
  rec->str[n + ".dir"] = p.log_directory; rec->val[n + ".ekf"] = {double(p.ekf == rec->ekf)};
  rec->val[n + ".logger"] = {double(p.logger != nullptr)};
}
static void RecTracker(const std::string & n, const Tracker::Parameters & p)
{
  rec->made[n]++;
  auto & v = rec->val; const auto & i = p.intrinsics;
  v[n + ".min_track_length"] = {double(p.min_track_length)}; v[n + ".max_track_length"] = {double(p.max_track_length)};
  v[n + ".data_log_rate"] = {p.data_log_rate}; rec->str[n + ".dir"] = p.log_directory;
  v[n + ".ekf"] = {double(p.ekf == rec->ekf)}; v[n + ".logger"] = {double(p.logger != nullptr)};
  v[n + ".f_x"] = {i.f_x}; v[n + ".f_y"] = {i.f_y}; v[n + ".k_1"] = {i.k_1}; v[n + ".k_2"] = {i.k_2};
  v[n + ".p_1"] = {i.p_1}; v[n + ".p_2"] = {i.p_2};
  v[n + ".width"] = {double(i.width)}; v[n + ".height"] = {double(i.height)}; v[n + ".pixel_size"] = {i.pixel_size};
}
class ObsEKF : public EKF
{
public:
  explicit ObsEKF(EKF::Parameters p) : EKF(p)
  {
    rec->made["ekf"]++;
    auto & v = rec->val;
    v["ekf.data_log_rate"] = {p.data_log_rate}; rec->str["ekf.dir"] = p.log_directory;
    v["ekf.augmenting_type"] = {double(static_cast<int>(p.augmenting_type))};
    v["ekf.augmenting_delta_time"] = {p.augmenting_delta_time};
    v["ekf.augmenting_pos_error"] = {p.augmenting_pos_error};
    v["ekf.augmenting_ang_error"] = {p.augmenting_ang_error};
    for (int k = 0; k < 6; ++k) {
      static const char * nm[] = {"pos", "vel", "acc", "ang_pos", "ang_vel", "ang_acc"};
      v[std::string("ekf.process_noise.") + nm[k]] = p.process_noise.size() == 18 ? Flat(p.process_noise.segment(3 * k, 3)) : V();
    }
    v["ekf.pos_b_in_l"] = Flat(p.pos_b_in_l); v["ekf.ang_b_to_l"] = Flat(p.ang_b_to_l);
    v["ekf.pos_e_in_g"] = Flat(p.pos_e_in_g); v["ekf.ang_l_to_e"] = {p.ang_l_to_e};
    v["ekf.gps_init_type"] = {double(static_cast<int>(p.gps_init_type))};
    v["ekf.gps_init_baseline_dist"] = {p.gps_init_baseline_dist};
    v["ekf.gps_init_pos_thresh"] = {p.gps_init_pos_thresh}; v["ekf.gps_init_ang_thresh"] = {p.gps_init_ang_thresh};
    v["ekf.motion_detection_chi_squared"] = {p.motion_detection_chi_squared};
    v["ekf.imu_noise_scale_factor"] = {p.imu_noise_scale_factor};
    v["ekf.use_root_covariance"] = {double(p.use_root_covariance)};
    v["ekf.use_first_estimate_jacobian"] = {double(p.use_first_estimate_jacobian)};
  }
};
class ObsRosIMU : public RosIMU
{
public:
  explicit ObsRosIMU(IMU::Parameters q) : RosIMU((rec->ekf = q.ekf, q))
  {
    const std::string n = q.name; name = n; rec->id[n] = GetId();
    RecSensor(n, q);
    auto & v = rec->val;
    v[n + ".is_extrinsic"] = {double(q.is_extrinsic)}; v[n + ".is_intrinsic"] = {double(q.is_intrinsic)};
    v[n + ".variance"] = Flat(q.variance);
    v[n + ".pos_i_in_b"] = Flat(q.pos_i_in_b); v[n + ".ang_i_to_b"] = Flat(q.ang_i_to_b);
    v[n + ".acc_bias"] = Flat(q.acc_bias); v[n + ".omg_bias"] = Flat(q.omg_bias);
    v[n + ".pos_stability"] = {q.pos_stability}; v[n + ".ang_stability"] = {q.ang_stability};
    v[n + ".acc_bias_stability"] = {q.acc_bias_stability}; v[n + ".omg_bias_stability"] = {q.omg_bias_stability};
  }
  template<class M> void Callback(const M & m)
  {
    rec->used.push_back(name + (m.sensor_id == GetId() && m.sensor_type == SensorType::IMU ? "" : " as another sensor"));
    RosIMU::Callback(m);
  }
  std::string name;
};
class ObsRosGPS : public RosGPS
{
public:
  explicit ObsRosGPS(GPS::Parameters q) : RosGPS((rec->ekf = q.ekf, q))
  {
    const std::string n = q.name; name = n; rec->id[n] = GetId();
    RecSensor(n, q);
    auto & v = rec->val;
    v[n + ".is_extrinsic"] = {double(q.is_extrinsic)};
    v[n + ".variance"] = Flat(q.variance); v[n + ".pos_a_in_b"] = Flat(q.pos_a_in_b); v[n + ".pos_stability"] = {q.pos_stability};
  }
  template<class M> void Callback(const M & m)
  {
    rec->used.push_back(name + (m.sensor_id == GetId() && m.sensor_type == SensorType::GPS ? "" : " as another sensor"));
    RosGPS::Callback(m);
  }
  std::string name;
};
class ObsFeatureTracker : public FeatureTracker
{
public:
  explicit ObsFeatureTracker(FeatureTracker::Parameters q) : FeatureTracker(q)
  {
    tag = "tracker@" + std::to_string(q.camera_id);
    const std::string & n = tag;
    RecTracker(n, q);
    auto & v = rec->val;
    v[n + ".detector"] = {double(static_cast<int>(q.detector))}; v[n + ".descriptor"] = {double(static_cast<int>(q.descriptor))};
    v[n + ".matcher"] = {double(static_cast<int>(q.matcher))}; v[n + ".threshold"] = {double(q.threshold)};
    v[n + ".px_error"] = {q.px_error}; v[n + ".min_feat_dist"] = {q.min_feat_dist};
    v[n + ".down_sample"] = {double(q.down_sample)};
    v[n + ".down_sample_height"] = {double(q.down_sample_height)}; v[n + ".down_sample_width"] = {double(q.down_sample_width)};
    v[n + ".is_cam_extrinsic"] = {double(q.is_cam_extrinsic)};
  }
  std::string tag;
};
class ObsFiducialTracker : public FiducialTracker
{
public:
  explicit ObsFiducialTracker(FiducialTracker::Parameters q) : FiducialTracker(q)
  {
    tag = "fiducial@" + std::to_string(q.camera_id);
    const std::string & n = tag;
    RecTracker(n, q);
    auto & v = rec->val;
    v[n + ".fiducial_type"] = {double(static_cast<int>(q.detector_type))};
    v[n + ".squares_x"] = {double(q.squares_x)}; v[n + ".squares_y"] = {double(q.squares_y)};
    v[n + ".square_length"] = {q.square_length}; v[n + ".marker_length"] = {q.marker_length};
    v[n + ".id"] = {double(q.id)}; v[n + ".is_extrinsic"] = {double(q.is_extrinsic)};
    v[n + ".pos_f_in_l"] = Flat(q.pos_f_in_l); v[n + ".ang_f_to_l"] = Flat(q.ang_f_to_l); v[n + ".variance"] = Flat(q.variance);
    v[n + ".is_cam_extrinsic"] = {double(q.is_cam_extrinsic)};
  }
  std::string tag;
};
class ObsRosCamera : public RosCamera
{
public:
  explicit ObsRosCamera(Camera::Parameters q) : RosCamera((rec->ekf = q.ekf, q))
  {
    const std::string n = q.name; name = n; rec->id[n] = GetId();
    RecSensor(n, q);
    auto & v = rec->val;
    v[n + ".is_extrinsic"] = {double(q.is_extrinsic)}; v[n + ".variance"] = Flat(q.variance);
    v[n + ".pos_c_in_b"] = Flat(q.pos_c_in_b); v[n + ".ang_c_to_b"] = Flat(q.ang_c_to_b);
    v[n + ".pos_stability"] = {q.pos_stability}; v[n + ".ang_stability"] = {q.ang_stability};
    const auto & i = q.intrinsics;
    v[n + ".f_x"] = {i.f_x}; v[n + ".f_y"] = {i.f_y}; v[n + ".k_1"] = {i.k_1}; v[n + ".k_2"] = {i.k_2};
    v[n + ".p_1"] = {i.p_1}; v[n + ".p_2"] = {i.p_2};
    v[n + ".width"] = {double(i.width)}; v[n + ".height"] = {double(i.height)}; v[n + ".pixel_size"] = {i.pixel_size};
  }
  template<class T> void AddTracker(const T & t) {rec->str[name + ".tracker"] += t->tag + ";"; RosCamera::AddTracker(t);}
  template<class T> void AddFiducial(const T & t) {rec->str[name + ".fiducial"] += t->tag + ";"; RosCamera::AddFiducial(t);}
  template<class M> void Callback(const M & m)
  {
    rec->used.push_back(name + (m.sensor_id == GetId() && m.sensor_type == SensorType::Camera ? "" : " as another sensor"));
    RosCamera::Callback(m);
  }
  std::string name;
};
class ObsDebugLogger : public DebugLogger
{
public:
  template<class L> ObsDebugLogger(L level, const std::string & d) : DebugLogger(level, d)
  {
    rec->made["debug"]++;
    rec->val["debug_log_level"] = {double(static_cast<int>(level))}; rec->str["debug.dir"] = d;
  }
};

#define EKF ObsEKF
#define RosIMU ObsRosIMU
#define RosGPS ObsRosGPS
#define RosCamera ObsRosCamera
#define FeatureTracker ObsFeatureTracker
#define FiducialTracker ObsFiducialTracker
#define DebugLogger ObsDebugLogger
#define private public
#include "application/ros/node/ekf_cal_node.hpp"
#undef private
#include "application/ros/node/ekf_cal_node.cpp"
#define main node_main
#include "application/ros/ekf_cal_main.cpp"
#undef main
#undef EKF
#undef RosIMU
#undef RosGPS
#undef RosCamera
#undef FeatureTracker
#undef FiducialTracker
#undef DebugLogger

// ---------------------------------------------------------------------------
struct Param
{
  std::string path; ParameterValue value; std::string to;
  V given, absent; std::string sgiven, sabsent;
};
static std::vector<Param> Table(unsigned cam_id)
{
  std::vector<Param> t;
  auto num = [&](const std::string & p, const std::string & to, double g, double a) {t.push_back({p, ParameterValue(g), to, {g}, {a}, "", ""});};
  auto num3 = [&](const std::string & p, const std::string & to, double g, double a) {t.push_back({p, ParameterValue(g), to, {g, g, g}, {a, a, a}, "", ""});};
  auto integer = [&](const std::string & p, const std::string & to, int64_t g, int64_t a) {t.push_back({p, ParameterValue(g), to, {double(g)}, {double(a)}, "", ""});};
  auto boolean = [&](const std::string & p, const std::string & to, bool g, bool a) {t.push_back({p, ParameterValue(g), to, {double(g)}, {double(a)}, "", ""});};
  auto vec = [&](const std::string & p, const std::string & to, V g, V a) {t.push_back({p, ParameterValue(g), to, g, a, "", ""});};
  auto str = [&](const std::string & p, const std::string & to, const std::string & g, const std::string & a) {
      t.push_back({p, ParameterValue(g), to, {}, {}, g, a});
    };
  double u = 0.31;   // every number given is different
  auto next = [&]() {u += 0.013; return u;};
  auto v3 = [&]() {double a = next(), b = next(), c = next(); return V{a, -b, c};};
  auto v6 = [&]() {V r; for (int k = 0; k < 6; ++k) {r.push_back(next());} return r;};
  auto quat = [&]() {double b = next(); Eigen::Quaterniond q(1.0, b, -0.3, 0.2); q.normalize(); return Flat(q);};
  integer("debug_log_level", "debug_log_level", 1, 0);
  num("data_log_rate", "ekf.data_log_rate", next(), 0);
  num("augmenting_delta_time", "ekf.augmenting_delta_time", next(), 0);
  num("augmenting_pos_error", "ekf.augmenting_pos_error", next(), 0);
  num("augmenting_ang_error", "ekf.augmenting_ang_error", next(), 0);
  for (const char * k : {"pos", "vel", "ang_pos"}) {num3(std::string("process_noise.") + k, std::string("ekf.process_noise.") + k, next(), 1e-2);}
  vec("pos_b_in_l", "ekf.pos_b_in_l", v3(), {0, 0, 0}); vec("ang_b_to_l", "ekf.ang_b_to_l", quat(), {1, 0, 0, 0});
  vec("pos_e_in_g", "ekf.pos_e_in_g", v3(), {0, 0, 0}); num("ang_l_to_e", "ekf.ang_l_to_e", next(), 0);
  integer("augmenting_type", "ekf.augmenting_type", 3, 0);
  integer("gps_init_type", "ekf.gps_init_type", 2, 0);
  num("gps_init_baseline_dist", "ekf.gps_init_baseline_dist", next(), 1); num("gps_init_pos_thresh", "ekf.gps_init_pos_thresh", next(), 1);
  num("gps_init_ang_thresh", "ekf.gps_init_ang_thresh", next(), 1);
  num("motion_detection_chi_squared", "ekf.motion_detection_chi_squared", next(), 1);
  num("imu_noise_scale_factor", "ekf.imu_noise_scale_factor", next(), 100);
  boolean("use_root_covariance", "ekf.use_root_covariance", false, true);
  boolean("use_first_estimate_jacobian", "ekf.use_first_estimate_jacobian", true, false);
  // sensors
  for (std::string s : {"imu.i1", "camera.c1", "gps.g1"}) {
    std::string n = s.substr(s.find('.') + 1);
    str(s + ".topic", n + ".topic", "/topic_" + n, "");
    num(s + ".rate", n + ".rate", next() * 100, 1); num(s + ".data_log_rate", n + ".data_log_rate", next(), 0);
  }
  boolean("imu.i1.is_extrinsic", "i1.is_extrinsic", true, false); boolean("imu.i1.is_intrinsic", "i1.is_intrinsic", true, false);
  V v12; for (int k = 0; k < 12; ++k) {v12.push_back(next());}
  vec("imu.i1.variance", "i1.variance", v12, V(12, 1.0));
  vec("imu.i1.pos_i_in_b", "i1.pos_i_in_b", v3(), {0, 0, 0}); vec("imu.i1.ang_i_to_b", "i1.ang_i_to_b", quat(), {1, 0, 0, 0});
  vec("imu.i1.acc_bias", "i1.acc_bias", v3(), {0, 0, 0}); vec("imu.i1.omg_bias", "i1.omg_bias", v3(), {0, 0, 0});
  for (const char * k : {"pos_stability", "ang_stability", "acc_bias_stability", "omg_bias_stability"}) {
    num(std::string("imu.i1.") + k, std::string("i1.") + k, next(), 1e-9);
  }
  boolean("gps.g1.is_extrinsic", "g1.is_extrinsic", true, false);
  vec("gps.g1.pos_a_in_b", "g1.pos_a_in_b", v3(), {0, 0, 0}); num("gps.g1.pos_stability", "g1.pos_stability", next(), 1e-9);
  vec("gps.g1.variance", "g1.variance", v3(), {1, 1, 1}); t.back().value = V{0.5, 0.6, 0.7}; t.back().given = V{0.5, 0.6, 0.7};
  vec("camera.c1.pos_c_in_b", "c1.pos_c_in_b", v3(), {0, 0, 0}); vec("camera.c1.ang_c_to_b", "c1.ang_c_to_b", quat(), {1, 0, 0, 0});
  vec("camera.c1.variance", "c1.variance", v6(), V(6, 1.0));
  num("camera.c1.pos_stability", "c1.pos_stability", next(), 1e-9); num("camera.c1.ang_stability", "c1.ang_stability", next(), 1e-9);
  boolean("camera.c1.is_extrinsic", "c1.is_extrinsic", true, false);
  for (auto k : std::vector<std::pair<const char *, double>>{{"f_x", 0.01}, {"f_y", 0.01}, {"k_1", 0}, {"k_2", 0}, {"p_1", 0}, {"p_2", 0}, {"pixel_size", 5e-6}}) {
    num(std::string("camera.c1.intrinsics.") + k.first, std::string("c1.") + k.first, next(), k.second);
  }
  num("camera.c1.intrinsics.width", "c1.width", 801, 640); num("camera.c1.intrinsics.height", "c1.height", 603, 480);
  std::string T = "tracker@" + std::to_string(cam_id), F = "fiducial@" + std::to_string(cam_id);
  integer("tracker.t1.feature_detector", T + ".detector", 2, 0); integer("tracker.t1.descriptor_extractor", T + ".descriptor", 1, 0);
  integer("tracker.t1.descriptor_matcher", T + ".matcher", 1, 0); integer("tracker.t1.detector_threshold", T + ".threshold", 13, 20);
  num("tracker.t1.pixel_error", T + ".px_error", next(), 1); num("tracker.t1.min_feature_distance", T + ".min_feat_dist", next(), 1);
  boolean("tracker.t1.down_sample", T + ".down_sample", true, false);
  integer("tracker.t1.down_sample_height", T + ".down_sample_height", 301, 480);
  integer("tracker.t1.down_sample_width", T + ".down_sample_width", 402, 640);
  integer("tracker.t1.min_track_length", T + ".min_track_length", 5, 2); integer("tracker.t1.max_track_length", T + ".max_track_length", 31, 20);
  integer("fiducial.f1.id", F + ".id", 7, 0); boolean("fiducial.f1.is_extrinsic", F + ".is_extrinsic", true, false);
  vec("fiducial.f1.pos_f_in_l", F + ".pos_f_in_l", v3(), {0, 0, 0}); vec("fiducial.f1.ang_f_to_l", F + ".ang_f_to_l", quat(), {1, 0, 0, 0});
  vec("fiducial.f1.variance", F + ".variance", v6(), V(6, 0.0));
  integer("fiducial.f1.min_track_length", F + ".min_track_length", 3, 2); integer("fiducial.f1.max_track_length", F + ".max_track_length", 27, 20);
  return t;
}
static std::map<std::string, ParameterValue> Minimal()
{
  std::map<std::string, ParameterValue> o;
  using S = std::vector<std::string>;
  o["imu_list"] = S{"i1"}; o["camera_list"] = S{"c1"}; o["tracker_list"] = S{"t1"}; o["fiducial_list"] = S{"f1"}; o["gps_list"] = S{"g1"};
  o["log_directory"] = std::string("dir/");
  o["camera.c1.tracker"] = std::string("t1"); o["camera.c1.fiducial"] = std::string("f1");
  o["fiducial.f1.fiducial_type"] = int64_t(1); o["fiducial.f1.squares_x"] = int64_t(5); o["fiducial.f1.squares_y"] = int64_t(7);
  o["fiducial.f1.square_length"] = 0.04; o["fiducial.f1.marker_length"] = 0.02;
  return o;
}
static std::unique_ptr<EkfCalNode> Start(const std::map<std::string, ParameterValue> & o)
{
  auto & g = rclcpp::stub::graph();
  g = rclcpp::stub::Graph(); g.overrides = o;
  auto n = std::make_unique<EkfCalNode>();
  n->Initialize(); n->DeclareSensors(); n->LoadSensors();
  return n;
}
static bool Same(const V & a, const V & b)
{
  if (a.size() != b.size()) {return false;}
  for (size_t k = 0; k < a.size(); ++k) {if (!(std::abs(a[k] - b[k]) <= 1e-12 * (1 + std::abs(b[k])))) {return false;}}
  return true;
}
static std::string Show(const V & v)
{
  std::ostringstream s; s << "["; for (double x : v) {s << x << " ";} s << "]"; return s.str();
}

// ---------------------------------------------------------------------------
// Twin: the same sensors built and fed directly.
struct Settings
{
  int imus, gpss, cams; std::vector<int> trk, fid;   // per camera: tracker / board index or -1
  bool root; int aug; int flags;
};
static Eigen::Vector3d P3(int k, double s) {return Eigen::Vector3d(0.1 * k + 0.05, -0.07 * k, 0.03 * (k + 1)) * s;}
static Eigen::Quaterniond Q3(int k) {Eigen::Quaterniond q(1, 0.02 * k, -0.03, 0.01 * (k + 1)); q.normalize(); return q;}
struct Twin
{
  std::shared_ptr<DebugLogger> log; std::shared_ptr<EKF> ekf;
  std::vector<std::shared_ptr<IMU>> imus; std::vector<std::shared_ptr<GPS>> gpss; std::vector<std::shared_ptr<Camera>> cams;
};
static Intrinsics Lens(int k)
{
  Intrinsics i; i.f_x = 0.001 + 0.0001 * k; i.f_y = 0.001 + 0.0001 * k; i.pixel_size = 1e-5; i.width = 160; i.height = 120;
  i.k_1 = 0.001 * k; return i;
}
static Twin MakeTwin(const Settings & s)
{
  Twin t;
  t.log = std::make_shared<DebugLogger>(0u, "dir/");
  EKF::Parameters p; p.debug_logger = t.log; p.log_directory = "dir/";
  p.augmenting_type = static_cast<AugmentationType>(s.aug);
  p.augmenting_delta_time = 0.0; p.augmenting_pos_error = 0.0; p.augmenting_ang_error = 0.0;
  p.process_noise = Eigen::VectorXd::Constant(18, 1e-2);
  p.pos_b_in_l = P3(1, 1); p.ang_b_to_l = Q3(2); p.ang_l_to_e = 0.3; p.pos_e_in_g = Eigen::Vector3d(30, 40, 5);
  p.use_root_covariance = s.root; p.motion_detection_chi_squared = 1.0; p.imu_noise_scale_factor = 100.0;
  p.gps_init_baseline_dist = 1.0; p.gps_init_pos_thresh = 1.0; p.gps_init_ang_thresh = 1.0;
  t.ekf = std::make_shared<EKF>(p);
  bool any = false; for (int k : s.trk) {any = any || k >= 0;}
  t.ekf->SetMaxTrackLength(6);
  for (int k = 0; k < s.imus; ++k) {
    IMU::Parameters q; q.name = "i" + std::to_string(k); q.rate = 100; q.ekf = t.ekf; q.logger = t.log; q.log_directory = "dir/";
    q.is_extrinsic = s.flags & 1; q.is_intrinsic = s.flags & 2; q.pos_i_in_b = P3(k, 1); q.ang_i_to_b = Q3(k);
    q.acc_bias = P3(k, 0.1); q.omg_bias = P3(k, 0.05); q.variance = Eigen::VectorXd::Constant(12, 0.01 * (k + 1));
    t.imus.push_back(std::make_shared<IMU>(q));
  }
  for (int k = 0; k < s.cams; ++k) {
    Camera::Parameters q; q.name = "c" + std::to_string(k); q.rate = 10; q.ekf = t.ekf; q.logger = t.log; q.log_directory = "dir/";
    q.is_extrinsic = s.flags & 4; q.pos_c_in_b = P3(k + 2, 1); q.ang_c_to_b = Q3(k + 3); q.variance = Eigen::VectorXd::Constant(6, 0.02 * (k + 1));
    q.intrinsics = Lens(k);
    auto c = std::make_shared<Camera>(q);
    if (s.trk[k] >= 0) {
      FeatureTracker::Parameters f; f.camera_id = c->GetId(); f.ekf = t.ekf; f.logger = t.log; f.log_directory = "dir/";
      f.detector = Detector::ORB; f.descriptor = Descriptor::ORB; f.matcher = Matcher::BRUTE_FORCE; f.threshold = 10; f.px_error = 1.0 + s.trk[k];
      f.min_track_length = 2; f.max_track_length = s.trk[k] ? 4 : 6; f.intrinsics = q.intrinsics; f.is_cam_extrinsic = q.is_extrinsic;
      c->AddTracker(std::make_shared<FeatureTracker>(f));
    }
    if (s.fid[k] >= 0) {
      FiducialTracker::Parameters f; f.camera_id = c->GetId(); f.ekf = t.ekf; f.logger = t.log; f.log_directory = "dir/";
      f.detector_type = FiducialType::CHARUCO_BOARD; f.squares_x = 3; f.squares_y = 3; f.square_length = 0.1; f.marker_length = 0.07;
      f.id = static_cast<unsigned>(s.fid[k]); f.pos_f_in_l = P3(s.fid[k], 4); f.ang_f_to_l = Q3(s.fid[k] + 1); f.is_extrinsic = s.flags & 8;
      f.variance = Eigen::VectorXd::Constant(6, 0.1); f.min_track_length = 0; f.max_track_length = 1;
      f.intrinsics = q.intrinsics; f.is_cam_extrinsic = q.is_extrinsic;
      c->AddFiducial(std::make_shared<FiducialTracker>(f));
    }
    t.cams.push_back(c);
  }
  for (int k = 0; k < s.gpss; ++k) {
    GPS::Parameters q; q.name = "g" + std::to_string(k); q.rate = 5; q.ekf = t.ekf; q.logger = t.log; q.log_directory = "dir/";
    q.is_extrinsic = s.flags & 16; q.pos_a_in_b = P3(k + 4, 1); q.variance = Eigen::Vector3d::Constant(0.3 * (k + 1));
    t.gpss.push_back(std::make_shared<GPS>(q));
  }
  (void)any;
  return t;
}
static std::map<std::string, ParameterValue> NodeParams(const Settings & s)
{
  std::map<std::string, ParameterValue> o;
  auto L = [](const char * p, int n) {std::vector<std::string> r; for (int k = 0; k < n; ++k) {r.push_back(p + std::to_string(k));} return r;};
  auto E = [](const Eigen::VectorXd & v) {return V(v.data(), v.data() + v.size());};
  o["imu_list"] = L("i", s.imus); o["gps_list"] = L("g", s.gpss); o["camera_list"] = L("c", s.cams);
  o["tracker_list"] = L("t", 2); o["fiducial_list"] = L("f", 2);
  o["log_directory"] = std::string("dir/"); o["augmenting_type"] = int64_t(s.aug); o["use_root_covariance"] = s.root;
  o["pos_b_in_l"] = E(P3(1, 1)); o["ang_b_to_l"] = Flat(Q3(2)); o["ang_l_to_e"] = 0.3; o["pos_e_in_g"] = V{30, 40, 5};
  for (int k = 0; k < s.imus; ++k) {
    std::string n = "imu.i" + std::to_string(k) + ".";
    o[n + "topic"] = "/imu" + std::to_string(k); o[n + "rate"] = 100.0; o[n + "is_extrinsic"] = bool(s.flags & 1); o[n + "is_intrinsic"] = bool(s.flags & 2);
    o[n + "pos_i_in_b"] = E(P3(k, 1)); o[n + "ang_i_to_b"] = Flat(Q3(k)); o[n + "acc_bias"] = E(P3(k, 0.1)); o[n + "omg_bias"] = E(P3(k, 0.05));
    o[n + "variance"] = V(12, 0.01 * (k + 1));
  }
  for (int k = 0; k < s.cams; ++k) {
    std::string n = "camera.c" + std::to_string(k) + "."; Intrinsics i = Lens(k);
    o[n + "topic"] = "/cam" + std::to_string(k); o[n + "rate"] = 10.0; o[n + "is_extrinsic"] = bool(s.flags & 4);
    o[n + "pos_c_in_b"] = E(P3(k + 2, 1)); o[n + "ang_c_to_b"] = Flat(Q3(k + 3)); o[n + "variance"] = V(6, 0.02 * (k + 1));
    o[n + "tracker"] = s.trk[k] < 0 ? std::string() : "t" + std::to_string(s.trk[k]);
    o[n + "fiducial"] = s.fid[k] < 0 ? std::string() : "f" + std::to_string(s.fid[k]);
    o[n + "intrinsics.f_x"] = i.f_x; o[n + "intrinsics.f_y"] = i.f_y; o[n + "intrinsics.k_1"] = i.k_1; o[n + "intrinsics.pixel_size"] = i.pixel_size;
    o[n + "intrinsics.width"] = 160.0; o[n + "intrinsics.height"] = 120.0;
  }
  for (int k = 0; k < 2; ++k) {
    std::string n = "tracker.t" + std::to_string(k) + ".";
    o[n + "feature_detector"] = int64_t(4); o[n + "detector_threshold"] = int64_t(10); o[n + "pixel_error"] = 1.0 + k;
    o[n + "min_track_length"] = int64_t(2); o[n + "max_track_length"] = int64_t(k ? 4 : 6);
    n = "fiducial.f" + std::to_string(k) + ".";
    o[n + "fiducial_type"] = int64_t(1); o[n + "squares_x"] = int64_t(3); o[n + "squares_y"] = int64_t(3); o[n + "square_length"] = 0.1;
    o[n + "marker_length"] = 0.07; o[n + "id"] = int64_t(k); o[n + "pos_f_in_l"] = E(P3(k, 4)); o[n + "ang_f_to_l"] = Flat(Q3(k + 1));
    o[n + "is_extrinsic"] = bool(s.flags & 8); o[n + "variance"] = V(6, 0.1); o[n + "min_track_length"] = int64_t(0); o[n + "max_track_length"] = int64_t(1);
  }
  for (int k = 0; k < s.gpss; ++k) {
    std::string n = "gps.g" + std::to_string(k) + ".";
    o[n + "topic"] = "/gps" + std::to_string(k); o[n + "rate"] = 5.0; o[n + "is_extrinsic"] = bool(s.flags & 16);
    o[n + "pos_a_in_b"] = E(P3(k + 4, 1)); o[n + "variance"] = V(3, 0.3 * (k + 1));
  }
  return o;
}
// textured images, shifted from frame to frame
static cv::Mat Picture(int k)
{
  cv::Mat m(120, 160, CV_8UC1, cv::Scalar(90));
  for (int j = 0; j < 40; ++j) {
    int x = (j * 37) % 130 + 10 + 2 * k, y = (j * 53) % 95 + 10 + k;
    cv::rectangle(m, cv::Point(x, y), cv::Point(x + 4 + j % 5, y + 3 + j % 7), cv::Scalar((j * 71) % 256), -1);
  }
  return m;
}

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C31");
  R.rule = "the node itself, compiled against stand-ins for the ROS packages: each parameter alone, each missing, pairs; 0 to 2 sensors of "
    "each kind with every assignment of trackers and boards; every word of messages on the sensors' topics up to the depth bound, in "
    "lockstep with the same sensors built and fed directly; debug messages of every level and threshold; the shipped configuration";
  R.assumptions = {"harness/ros_stub behaves as rclcpp, cv_bridge and the message packages do (typed parameters, topics, one callback at a time)",
    "images are 8-bit gray"};
  rclcpp::init(argc, argv);
  mkdir("dir", 0755);
  size_t np = Table(0).size();
  R.Bound("parameters", np);
  // 1. parameters
  std::vector<std::vector<size_t>> sets;   // parameters given
  {
    std::vector<size_t> all; for (size_t k = 0; k < np; ++k) {all.push_back(k);}
    sets.push_back({}); sets.push_back(all);
    for (size_t k = 0; k < np; ++k) {
      sets.push_back({k});
      auto m = all; m.erase(m.begin() + static_cast<long>(k)); sets.push_back(m);
    }
    auto tab = Table(0);
    for (size_t a = 0; a < np; ++a) {
      for (size_t b = a + 1; b < np; ++b) {
        if (R.thorough || tab[a].path.substr(0, tab[a].path.find('.')) == tab[b].path.substr(0, tab[b].path.find('.'))) {sets.push_back({a, b});}
      }
    }
  }
  R.Bound("parameter sets", sets.size());
  R.Parallel((sets.size() + 19) / 20, [&](size_t blk, mc::Ctx & c) {
      for (size_t i = 20 * blk; i < std::min(sets.size(), 20 * (blk + 1)); ++i) {
        std::string key = "parameters";
        auto names = Table(0);
        if (sets[i].size() > 3) {
          key += sets[i].size() == np ? " all" : " all but one";
          std::vector<bool> has(np); for (size_t k : sets[i]) {has[k] = true;}
          for (size_t k = 0; k < np; ++k) {if (!has[k]) {key += " " + names[k].path;}}
        } else {for (size_t k : sets[i]) {key += " " + names[k].path;}}
        if (!R.Selected(key)) {continue;}
        c.Key(key); c.Eval(); c.Transition();
        Record r; rec = &r;
        auto o = Minimal();
        for (size_t k : sets[i]) {o[names[k].path] = names[k].value;}
        std::unique_ptr<EkfCalNode> n;
        try {n = Start(o);} catch (const std::exception & e) {c.Fail(std::string("the node does not start: ") + e.what()); return;}
        auto tab = Table(r.id["c1"]);
        std::vector<bool> given(np); for (size_t k : sets[i]) {given[k] = true;}
        auto cmp = [&](const std::string & to, const V & want) {
            auto it = r.val.find(to);
            if (it == r.val.end() || !Same(it->second, want)) {
              c.Fail(to + " is " + (it == r.val.end() ? "missing" : Show(it->second)) + " instead of " + Show(want)); return false;
            }
            return true;
          };
        std::map<std::string, V> cam;
        int mt = 20, mf = 20;
        for (size_t k = 0; k < np; ++k) {
          const auto & p = tab[k];
          if (p.given.empty()) {
            if (r.str[p.to] != (given[k] ? p.sgiven : p.sabsent)) {c.Fail(p.to + " is " + r.str[p.to]); return;}
            continue;
          }
          V want = given[k] ? p.given : p.absent;
          if (!cmp(p.to, want)) {return;}
          if (p.path.find("camera.c1.") == 0) {cam[p.to.substr(3)] = want;}
          if (given[k] && p.path == "tracker.t1.max_track_length") {mt = 31;}
          if (given[k] && p.path == "fiducial.f1.max_track_length") {mf = 27;}
        }
        std::string id = std::to_string(r.id["c1"]);
        for (std::string t : {"tracker@" + id, "fiducial@" + id}) {
          for (const char * k : {"f_x", "f_y", "k_1", "k_2", "p_1", "p_2", "width", "height", "pixel_size", "data_log_rate"}) {
            if (!cmp(t + "." + k, cam[k])) {return;}
          }
          if (!cmp(t + ".is_cam_extrinsic", cam["is_extrinsic"])) {return;}
          if (!cmp(t + ".ekf", {1}) || !cmp(t + ".logger", {1})) {return;}
          if (r.str[t + ".dir"] != "dir/") {c.Fail(t + " logs elsewhere"); return;}
        }
        for (const char * k : {"i1", "c1", "g1"}) {
          if (!cmp(std::string(k) + ".ekf", {1}) || !cmp(std::string(k) + ".logger", {1})) {return;}
          if (r.str[std::string(k) + ".dir"] != "dir/") {c.Fail(std::string(k) + " logs elsewhere"); return;}
        }
        for (const char * k : {"acc", "ang_vel", "ang_acc"}) {if (!cmp(std::string("ekf.process_noise.") + k, {1e-2, 1e-2, 1e-2})) {return;}}
        if (!c.Check(r.str["ekf.dir"] == "dir/" && r.str["debug.dir"] == "dir/", "log directory")) {return;}
        if (!c.Check(n->m_ekf->m_max_track_length == static_cast<unsigned>(std::max(mt, mf)), "window length is not the longest track length")) {return;}
        if (!c.Check(r.str["c1.tracker"] == "tracker@" + id + ";" && r.str["c1.fiducial"] == "fiducial@" + id + ";", "camera lacks its tracker or board")) {return;}
        for (auto & m : r.made) {if (!c.Check(m.second == 1, m.first + " constructed twice")) {return;}}
        mc::Hash h; for (auto & kv : r.val) {if (kv.first.find('@') == std::string::npos) {h.s(kv.first); for (double x : kv.second) {h.d(x);}}}
        c.State(h.h); c.Trace(); if (i % 50 == 0) {c.Sample(key);}
        rec = nullptr;
      }
    });
  // which lists name something: trackers and boards nobody uses, cameras without them, no sensors at all
  R.Bound("sets of empty lists", 32);
  R.Parallel(128, [&](size_t i, mc::Ctx & c) {
      std::string key = "lists " + std::to_string(i);
      if (!R.Selected(key)) {return;}
      c.Key(key); c.Eval(); c.Transition();
      bool imu = i & 1, cam = i & 2, trk = i & 4, fid = i & 8, gps = i & 16, use_t = trk && (i & 32), use_f = fid && (i & 64);
      Record r; rec = &r;
      auto o = Minimal();
      using S = std::vector<std::string>;
      auto list = [&](bool on, const char * name) {return on ? S{name} : S{};};
      o["imu_list"] = list(imu, "i1"); o["camera_list"] = list(cam, "c1"); o["tracker_list"] = list(trk, "t1");
      o["fiducial_list"] = list(fid, "f1"); o["gps_list"] = list(gps, "g1");
      o["camera.c1.tracker"] = std::string(use_t ? "t1" : ""); o["camera.c1.fiducial"] = std::string(use_f ? "f1" : "");
      o["augmenting_type"] = int64_t(3); o["tracker.t1.max_track_length"] = int64_t(9); o["fiducial.f1.max_track_length"] = int64_t(i & 1 ? 14 : 4);
      std::unique_ptr<EkfCalNode> n;
      try {n = Start(o);} catch (const std::exception & e) {c.Fail(std::string("the node does not start: ") + e.what()); rec = nullptr; return;}
      auto made = [&](const std::string & what) {int k = 0; for (auto & m : r.made) {if (m.first.compare(0, what.size(), what) == 0) {k += m.second;}} return k;};
      c.Check(made("i1") == imu && made("c1") == cam && made("g1") == gps, "sensors built other than those listed");
      c.Check(made("tracker@") == (cam && use_t) && made("fiducial@") == (cam && use_f), "trackers or boards built other than those the cameras name");
      c.Check(r.val["ekf.augmenting_type"] == V{trk ? 3.0 : 0.0}, "frames are cloned without trackers, or not with them");
      unsigned want = std::max(trk ? 9u : 0u, fid ? (i & 1 ? 14u : 4u) : 0u);
      if (trk || fid) {c.Check(n->m_ekf->m_max_track_length == want, "window length is not the longest track length");}
      c.State(mc::Hash().u(i).u(77).h); c.Trace();
      rec = nullptr;
    });
  // 2. sensors and messages
  std::vector<Settings> cfg;
  for (int im = 0; im <= 2; ++im) {for (int g = 0; g <= 2; ++g) {cfg.push_back({im, g, 0, {}, {}, (im + g) % 2 == 0, 1, 31});}}
  for (int a = -1; a < 2; ++a) {for (int b = -1; b < 2; ++b) {
      cfg.push_back({1, 0, 1, {a}, {b}, b != 0, 1, 31});
      for (int a2 = -1; a2 < 2; ++a2) {for (int b2 = -1; b2 < 2; ++b2) {cfg.push_back({1, 1, 2, {a, a2}, {b, b2}, (a + b2) % 2 == 0, 1 + (a + a2 + 2) % 3, 31});}}
    }}
  cfg.push_back({1, 1, 1, {0}, {0}, true, 1, 0}); cfg.push_back({2, 1, 2, {0, 1}, {-1, -1}, false, 2, 5});
  size_t deep = cfg.size();   // the last ones are run deeper
  cfg.push_back({2, 2, 2, {0, 1}, {0, 1}, true, 1, 31}); cfg.push_back({1, 1, 1, {0}, {0}, false, 1, 21});
  size_t D = R.thorough ? 4 : 3, d = R.thorough ? 3 : 2;
  R.Bound("sensor sets", cfg.size()); R.Bound("depth", D); R.Bound("depth of the other sensor sets", d);
  struct Job {size_t cfg; std::vector<int> first;};
  auto letters = [&](const Settings & s) {return s.imus + s.gpss + 3 * s.cams + 2;};
  std::vector<Job> jobs;
  for (size_t k = 0; k < cfg.size(); ++k) {for (int a = 0; a < letters(cfg[k]); ++a) {jobs.push_back({k, {a}});}}
  R.Parallel(jobs.size(), [&](size_t i, mc::Ctx & c) {
      const Settings & s = cfg[jobs[i].cfg];
      size_t depth = jobs[i].cfg >= deep ? D : d;
      int n = letters(s);
      size_t words = 1; for (size_t k = 1; k < depth; ++k) {words *= static_cast<size_t>(n);}
      std::ostringstream ks; ks << "imu" << s.imus << " gps" << s.gpss << " cam" << s.cams << " trackers";
      for (int k : s.trk) {ks << k << ",";} ks << " boards"; for (int k : s.fid) {ks << k << ",";}
      ks << " root" << s.root << " aug" << s.aug << " flags" << s.flags << " word";
      for (size_t w = 0; w < words; ++w) {
        std::vector<int> word = jobs[i].first; size_t r0 = w;
        for (size_t k = 1; k < depth; ++k) {word.push_back(static_cast<int>(r0 % n)); r0 /= n;}
        std::string key = ks.str(); for (int a : word) {key += " " + std::to_string(a);}
        if (!R.Selected(key)) {continue;}
        c.Key(key); c.Eval();
        Record r; rec = &r;
        std::unique_ptr<EkfCalNode> node;
        try {node = Start(NodeParams(s));} catch (const std::exception & e) {c.Fail(std::string("the node does not start: ") + e.what()); return;}
        Twin t = MakeTwin(s);
        auto & g = rclcpp::stub::graph();
        if (!c.Check(g.subscriptions.size() == static_cast<size_t>(s.imus + s.gpss + s.cams), "number of subscriptions")) {return;}
        auto deliver = [&](const std::string & topic, const void * type, std::shared_ptr<void> m) {
            int hits = 0;
            for (auto & sub : g.subscriptions) {
              if (sub.topic == topic && sub.type == type) {
                ++hits; if (sub.alive.expired()) {c.Fail("subscription of " + topic + " is gone"); return false;}
                sub.call(m);
              }
            }
            return c.Check(hits == 1, topic + " subscribed " + std::to_string(hits) + " times");
          };
        auto equal = [&](const std::string & when) {
            Eigen::VectorXd a = node->m_ekf->m_state.ToVector(), b = t.ekf->m_state.ToVector();
            if (!c.Check(a.size() == b.size() && node->m_ekf->m_cov.rows() == t.ekf->m_cov.rows(), when + ": sizes differ")) {return false;}
            double da = a.size() ? (a - b).cwiseAbs().maxCoeff() : 0, dc = (node->m_ekf->m_cov - t.ekf->m_cov).cwiseAbs().maxCoeff();
            return c.Check(da <= 1e-9 * (1 + b.cwiseAbs().maxCoeff()), when + ": estimate differs by " + std::to_string(da)) &&
                   c.Check(dc <= 1e-9 * (1 + t.ekf->m_cov.cwiseAbs().maxCoeff()), when + ": covariance differs by " + std::to_string(dc)) &&
                   c.Check(std::abs(node->m_ekf->GetCurrentTime() - t.ekf->GetCurrentTime()) < (i % 2 ? 5e-7 : 1e-9), when + ": time differs");
          };
        if (!equal("start")) {return;}
        int step = 0; unsigned frames = 0;
        std::vector<size_t> published(static_cast<size_t>(s.cams), 0); size_t states = 0;
        auto find_pub = [&](const std::string & topic) {
            std::shared_ptr<rclcpp::stub::PublisherRecord> p; int hits = 0;
            for (auto & q : g.publishers) {if (q->topic == topic) {p = q; ++hits;}}
            if (hits != 1) {p.reset();}
            return p;
          };
        for (int a : word) {
          ++step; c.Transition();
          std_msgs::msg::Header h; h.stamp.sec = (i % 2 ? 1700000000 : 17) + step / 8;   // wall clock and simulated time
          h.stamp.nanosec = static_cast<uint32_t>((step % 8) * 125000000 + 1000 * a + (i % 2 ? 0 : 321 * step));
          double time = h.stamp.sec + 1e-9 * h.stamp.nanosec;
          std::string when = "step " + std::to_string(step);
          size_t used = r.used.size(); std::string who;
          int b = a;
          if (b < s.imus) {
            auto m = std::make_shared<sensor_msgs::msg::Imu>(); m->header = h;
            double f = 0.4 * step + b;
            m->linear_acceleration.x = 0.3 * f; m->linear_acceleration.y = -0.2 * f; m->linear_acceleration.z = 9.8 + 0.1 * f;
            m->angular_velocity.x = 0.05 * f; m->angular_velocity.y = 0.02; m->angular_velocity.z = -0.04 * f;
            m->linear_acceleration_covariance = {1e-2, 1e-3, 2e-3, 1e-3, 2e-2, 3e-3, 2e-3, 3e-3, 3e-2};
            m->angular_velocity_covariance = {4e-3, 1e-4, 2e-4, 1e-4, 5e-3, 3e-4, 2e-4, 3e-4, 6e-3};
            if (!deliver("/imu" + std::to_string(b), rclcpp::stub::Type<sensor_msgs::msg::Imu>(), m)) {return;}
            ImuMessage q; q.time = time; q.sensor_id = t.imus[b]->GetId(); q.sensor_type = SensorType::IMU;
            q.acceleration << 0.3 * f, -0.2 * f, 9.8 + 0.1 * f; q.angular_rate << 0.05 * f, 0.02, -0.04 * f;
            q.acceleration_covariance << 1e-2, 1e-3, 2e-3, 1e-3, 2e-2, 3e-3, 2e-3, 3e-3, 3e-2;
            q.angular_rate_covariance << 4e-3, 1e-4, 2e-4, 1e-4, 5e-3, 3e-4, 2e-4, 3e-4, 6e-3;
            t.imus[b]->Callback(q); who = "i" + std::to_string(b);
          } else if ((b -= s.imus) < s.gpss) {
            auto m = std::make_shared<sensor_msgs::msg::NavSatFix>(); m->header = h;
            m->latitude = 30.0001 + 1e-6 * step; m->longitude = 40.0002 - 1e-6 * step; m->altitude = 7 + 0.3 * step;
            m->position_covariance = {2.0, 0.1, 0.2, 0.1, 3.0, 0.3, 0.2, 0.3, 4.0}; m->position_covariance_type = 3;
            if (!deliver("/gps" + std::to_string(b), rclcpp::stub::Type<sensor_msgs::msg::NavSatFix>(), m)) {return;}
            GpsMessage q; q.time = time; q.sensor_id = t.gpss[b]->GetId(); q.sensor_type = SensorType::GPS;
            q.gps_lla << m->latitude, m->longitude, m->altitude; q.pos_covariance << 2.0, 0.1, 0.2, 0.1, 3.0, 0.3, 0.2, 0.3, 4.0;
            t.gpss[b]->Callback(q); who = "g" + std::to_string(b);
          } else if ((b -= s.gpss) < 3 * s.cams) {
            int cam = b / 3, kind = b % 3;
            cv::Mat img = kind == 2 ? cv::Mat() : Picture(kind == 0 ? step : 0);
            if (kind == 1) {img.setTo(cv::Scalar(80));}
            auto m = cv_bridge::CvImage(h, "mono8", img).toImageMsg();
            std::vector<uint8_t> data = m->data;
            if (!deliver("/cam" + std::to_string(cam), rclcpp::stub::Type<sensor_msgs::msg::Image>(), m)) {return;}
            if (!c.Check(m->data == data, when + ": the image was modified")) {return;}
            CameraMessage q(img); q.time = time; q.sensor_id = t.cams[cam]->GetId(); q.sensor_type = SensorType::Camera;
            t.cams[cam]->Callback(q); who = "c" + std::to_string(cam); ++frames;
            auto p = find_pub("~/c" + std::to_string(cam));
            if (!c.Check(p != nullptr && !p->alive.expired(), "no publisher for the images of c" + std::to_string(cam))) {return;}
            if (!c.Check(p->sent.size() == ++published[static_cast<size_t>(cam)], when + ": the camera's image was not published once")) {return;}
            auto out = std::static_pointer_cast<sensor_msgs::msg::Image>(p->sent.back());
            cv::Mat want = t.cams[cam]->m_out_img;
            auto wm = cv_bridge::CvImage(std_msgs::msg::Header(), "bgr8", want).toImageMsg();
            if (!c.Check(out->height == wm->height && out->width == wm->width && out->encoding == "bgr8" && out->step == wm->step && out->data == wm->data,
              when + ": published image differs")) {return;}
          } else if ((b -= 3 * s.cams) == 0) {
            // a message for no sensor changes nothing
            auto m1 = std::make_shared<sensor_msgs::msg::Imu>(); m1->header = h; node->ImuCallback(m1, 4000000000u);
            auto m2 = std::make_shared<sensor_msgs::msg::NavSatFix>(); m2->header = h; node->GpsCallback(m2, 4000000001u);
            auto m3 = cv_bridge::CvImage(h, "mono8", Picture(0)).toImageMsg(); node->CameraCallback(m3, 4000000002u);
          } else {
            if (!c.Check(g.timers.size() == 1 && g.timers[0].period == std::chrono::seconds(1), "state timer")) {return;}
            g.timers[0].call();
            auto p = find_pub("~/BodyState");
            if (!c.Check(p != nullptr && p->sent.size() == ++states, when + ": the state was not published once")) {return;}
            auto out = std::static_pointer_cast<std_msgs::msg::Float64MultiArray>(p->sent.back());
            Eigen::VectorXd want = t.ekf->m_state.body_state.ToVector();
            Eigen::VectorXd got = Eigen::Map<Eigen::VectorXd>(out->data.data(), static_cast<long>(out->data.size()));
            if (!c.Check(got.size() == want.size() && (got - want).norm() < 1e-9 * (1 + want.norm()), when + ": published state differs from the estimate")) {return;}
          }
          if (who.empty()) {
            if (!c.Check(r.used.size() == used, when + ": a sensor got a message")) {return;}
          } else if (!c.Check(r.used.size() == used + 1 && r.used.back() == who, when + ": the message went to " + (r.used.size() > used ? r.used.back() : "nobody"))) {return;}
          for (int k = 0; k < s.cams; ++k) {
            auto p = find_pub("~/c" + std::to_string(k));
            if (!c.Check(p && p->sent.size() == published[static_cast<size_t>(k)], when + ": another camera's image was published")) {return;}
          }
          if (!equal(when)) {return;}
          c.State(mc::Hash().m(t.ekf->m_state.ToVector()).m(t.ekf->m_cov).u(jobs[i].cfg).h);
        }
        c.Trace(); if (w == 0) {c.Sample(key);}
        rec = nullptr;
      }
    });
  // 3. debug messages through ROS
  R.Parallel(10, [&](size_t i, mc::Ctx & c) {
      std::string key = "debug " + std::to_string(i);
      if (!R.Selected(key)) {return;}
      c.Key(key);
      unsigned threshold = static_cast<unsigned>(i % 5); bool by_number = i >= 5;
      for (unsigned second = 0; second < 6; ++second) {
        for (const char * text : {"plain text", "", "100%", "%s%n %d %", "a b;c"}) {
          for (unsigned level = 0; level < 5; ++level) {
            c.Eval(); c.Transition();
            auto & g = rclcpp::stub::graph(); g = rclcpp::stub::Graph();
            RosDebugLogger l(threshold, "dir/");
            unsigned now = threshold;
            if (second < 5) {now = second; if (by_number) {l.SetLogLevel(second);} else {l.SetLogLevel(static_cast<RosLogLevel>(second));}}
            g.log.clear();
            l.Log(static_cast<RosLogLevel>(level), text);
            bool want = level <= now;
            if (!c.Check(g.log.size() == (want ? 1u : 0u), "message of level " + std::to_string(level) + " at threshold " + std::to_string(now))) {return;}
            if (want && !c.Check(g.log[0].first == static_cast<int>(level) && g.log[0].second == text,
              std::string("message '") + text + "' arrived as level " + std::to_string(g.log[0].first) + " '" + g.log[0].second + "'")) {return;}
            c.State(mc::Hash().u(now).u(level).s(text).h);
          }
        }
      }
      c.Trace();
    });
  // 4. the shipped configuration, read with the types ROS gives its values
  R.Parallel(1, [&](size_t, mc::Ctx & c) {
      std::string key = "config/example.yaml";
      if (!R.Selected(key)) {return;}
      c.Key(key); c.Eval(); c.Transition();
      std::map<std::string, ParameterValue> o; bool bad = false; std::string why;
      std::function<ParameterValue(const YAML::Node &)> scalar = [&](const YAML::Node & n) -> ParameterValue {
          std::string s = n.as<std::string>();
          if (n.Tag() == "!") {return s;}
          if (s == "true" || s == "false") {return s == "true";}
          char * e; long long z = strtoll(s.c_str(), &e, 10); if (!*e && !s.empty()) {return int64_t(z);}
          double x = strtod(s.c_str(), &e); if (!*e && !s.empty()) {return x;}
          return s;
        };
      std::function<void(const YAML::Node &, const std::string &)> walk = [&](const YAML::Node & n, const std::string & prefix) {
          for (auto kv : n) {
            std::string k = prefix + kv.first.as<std::string>(); const YAML::Node & v = kv.second;
            if (v.IsMap()) {walk(v, k + "."); continue;}
            if (v.IsSequence()) {
              std::vector<double> dv; std::vector<int64_t> iv; std::vector<std::string> sv; size_t m = 0;
              for (auto x : v) {
                if (x.IsSequence()) {bad = true; why = k + ": nested list"; return;}
                ParameterValue q = scalar(x); ++m;
                if (auto z = std::get_if<double>(&q)) {dv.push_back(*z);} else if (auto z2 = std::get_if<int64_t>(&q)) {iv.push_back(*z2);} else if (
                  auto z3 = std::get_if<std::string>(&q)) {sv.push_back(*z3);}
              }
              if (m == 0) {continue;}
              if (dv.size() == m) {o[k] = dv;} else if (iv.size() == m) {o[k] = iv;} else if (sv.size() == m) {o[k] = sv;} else {bad = true; why = k + ": mixed list"; return;}
              continue;
            }
            o[k] = scalar(v);
          }
        };
      walk(YAML::LoadFile(EKF_CAL_ROOT "/config/example.yaml")["/EkfCalNode"]["ros__parameters"], "");
      if (!c.Check(!bad, "not a ROS parameter file: " + why)) {return;}
      o["log_directory"] = std::string("dir/");
      Record r; rec = &r;
      try {
        auto n = Start(o);
        if (!c.Check(r.made["imu_1"] == 1 && r.made["cam_1"] == 1 && r.made["gps_1"] == 1, "sensors missing")) {return;}
        if (!c.Check(r.val["imu_1.rate"] == V{1000} && r.str["cam_1.topic"] == "/cam_1" && r.val["ekf.augmenting_type"] == V{1}, "values")) {return;}
      } catch (const std::exception & e) {c.Fail(std::string("the node does not start: ") + e.what());}
      c.State(1); c.Trace(); rec = nullptr;
    });
  return R.Finish();
}
