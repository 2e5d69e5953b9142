// A closed little world around the real updaters: an analytic body trajectory,
// sensors that measure it, and an operation alphabet of sensor messages.
#ifndef WORLD_HPP_
#define WORLD_HPP_

#include <set>
#include "ref_ekf.hpp"
#include "ekf/update/imu_updater.hpp"
#include "ekf/update/gps_updater.hpp"
#include "ekf/update/fiducial_updater.hpp"
#include "ekf/update/msckf_updater.hpp"
#include "utility/gps_helper.hpp"

namespace world
{
using namespace ref;

struct Truth
{
  static Vector3d Pos(double t) {return Vector3d(0.5 * std::sin(0.8 * t), 0.3 * std::sin(1.1 * t + 0.4), 0.2 * std::sin(0.6 * t));}
  static Vector3d Acc(double t)
  {
    return Vector3d(-0.5 * 0.64 * std::sin(0.8 * t), -0.3 * 1.21 * std::sin(1.1 * t + 0.4), -0.2 * 0.36 * std::sin(0.6 * t));
  }
  static Quaterniond Ang(double t) {return Exp(Vector3d(0.1 * std::sin(0.9 * t), 0.15 * std::sin(0.7 * t), 0.2 * std::sin(0.5 * t + 0.1)));}
  static Vector3d Omega(double t)
  {
    double h = 1e-5;
    return Log(Ang(t + h) * Ang(t - h).conjugate()) / (2 * h);
  }
};

struct Cfg
{
  std::string name;
  bool root{false}, fej{false};
  AugmentationType aug{AugmentationType::ALL};
  unsigned window{4};
  std::vector<std::pair<unsigned, int>> imus;  // id, bit0 extrinsic, bit1 intrinsic
  std::vector<std::pair<unsigned, bool>> gpss, cams, fids;
  double chi{1.0}, noise_scale{100.0};
  GpsInitType gps_init{GpsInitType::CONSTANT};
  double gps_baseline{3.0}, gps_pos_thresh{0.5}, gps_ang_thresh{0.5};
  double log_rate{0.0};
  std::string log_dir;
  double t0{0.0};          // time of the first message
  bool initialize{true};   // Initialize() as the simulation does
  bool start_gravity{false};
  double prior{1e-2};      // standard prior variance of calibration states
  std::set<std::pair<char, unsigned>> exact;   // flagged for calibration, but known exactly: at its true value, no prior variance, no drift
  double aug_err{0.02}, aug_ang{0.02};    // clones by error: thresholds of position and angle
};

struct WOp {std::string name; char k; unsigned id{0}; double dt{0}; int var{0};};

inline Vector3d RefLla() {return Vector3d(30.6, -96.3, 80.0);}

struct World
{
  Cfg cfg;
  std::shared_ptr<DebugLogger> log;
  std::shared_ptr<EKF> ekf;
  std::map<unsigned, std::shared_ptr<ImuUpdater>> imu;
  std::map<unsigned, std::shared_ptr<GpsUpdater>> gps;
  std::map<unsigned, std::shared_ptr<MsckfUpdater>> msckf;
  std::map<std::pair<unsigned, unsigned>, std::shared_ptr<FiducialUpdater>> fid;
  std::map<unsigned, CamState> cam_true;
  std::map<unsigned, std::vector<std::pair<unsigned, double>>> frames;  // per camera: frame id, local time
  double now{0};            // local time of the last fresh message
  unsigned frame{50};
  unsigned vision_updates{0};
  double shift{0};          // added to every message time

  static CamState Cam(unsigned id, bool ext)
  {
    CamState c; c.SetIsExtrinsic(ext);
    c.pos_c_in_b = Vector3d(0.1, 0.05 * id, 0.02);
    Matrix3d m; m << 0, 0, 1, -1, 0, 0, 0, -1, 0;
    c.ang_c_to_b = Quaterniond(m) * Exp(Vector3d(0.02 * id, -0.03, 0.01));
    c.ang_c_to_b.normalize();
    c.rate = 4.0;
    c.intrinsics.f_x = 0.01; c.intrinsics.f_y = 0.01; c.intrinsics.width = 640; c.intrinsics.height = 480;
    c.intrinsics.pixel_size = 1e-5;
    c.pos_stability = 1e-6; c.ang_stability = 1e-6;
    return c;
  }

  explicit World(const Cfg & c)
  : cfg(c)
  {
    log = std::make_shared<DebugLogger>(LogLevel::FATAL, "");
    EKF::Parameters p;
    p.debug_logger = log; p.use_root_covariance = c.root; p.use_first_estimate_jacobian = c.fej;
    p.augmenting_type = c.aug; p.augmenting_delta_time = 0.4; p.augmenting_pos_error = c.aug_err; p.augmenting_ang_error = c.aug_ang;
    p.motion_detection_chi_squared = c.chi; p.imu_noise_scale_factor = c.noise_scale;
    p.gps_init_type = c.gps_init; p.gps_init_baseline_dist = c.gps_baseline;
    p.gps_init_pos_thresh = c.gps_pos_thresh; p.gps_init_ang_thresh = c.gps_ang_thresh;
    p.pos_e_in_g = RefLla(); p.ang_l_to_e = 0.3;
    p.data_log_rate = c.log_rate; p.log_directory = c.log_dir;
    VectorXd q(18);
    for (unsigned i = 0; i < 18; ++i) {q[i] = 1e-3 + 2e-4 * i;}
    p.process_noise = q;
    ekf = std::make_shared<EKF>(p);
    BodyState b;
    b.pos_b_in_l = Truth::Pos(0); b.ang_b_to_l = Truth::Ang(0) * Exp(Vector3d(0.01, -0.02, 0.015));
    b.vel_b_in_l = Vector3d(0.3, -0.2, 0.1);
    if (c.initialize) {ekf->Initialize(0.0, b);} else {ekf->m_state.body_state = b;}
    ekf->SetMaxTrackLength(c.window);
    auto known = [&](char k, unsigned id) {return c.exact.count({k, id}) != 0;};
    auto prior = [&](char k, unsigned n, unsigned salt) {return MatrixXd(Prior(n, salt, true) * (known(k, salt) ? 0.0 : c.prior / 1e-2));};
    for (auto & x : c.imus) {
      ImuState s = Machine::ImuOf(x.first, x.second);
      s.pos_stability = s.ang_stability = s.acc_bias_stability = s.omg_bias_stability = 1e-7;
      MatrixXd P = prior('b', 12, x.first).topLeftCorner(s.size, s.size);
      if (known('i', x.first)) {   // the mount is known, the biases are not
        P = MatrixXd(prior('b', 12, x.first)); MatrixXd B = P.topLeftCorner(6, 6); P.setZero();
        P.bottomRightCorner(6, 6) = B; P = MatrixXd((x.second & 2) ? P : P.topLeftCorner(6, 6));
        s.pos_stability = s.ang_stability = 0;
      }
      ekf->RegisterIMU(x.first, s, P);
      imu[x.first] = std::make_shared<ImuUpdater>(x.first, x.second & 1, (x.second & 2) != 0, c.log_dir, c.log_rate, log);
    }
    for (auto & x : c.gpss) {
      GpsState s = Machine::GpsOf(x.first, x.second); s.pos_stability = known('g', x.first) ? 0 : 1e-7;
      ekf->RegisterGPS(x.first, s, prior('g', 3, x.first));
      gps[x.first] = std::make_shared<GpsUpdater>(x.first, x.second, c.log_dir, c.log_rate, log);
    }
    for (auto & x : c.cams) {
      CamState s = Cam(x.first, x.second);
      cam_true[x.first] = s;
      if (known('c', x.first)) {s.pos_stability = s.ang_stability = 0;} else if (x.second) {s.pos_c_in_b += Vector3d(0.02, -0.01, 0.015); s.ang_c_to_b = s.ang_c_to_b * Exp(Vector3d(0.01, 0.02, -0.01));}
      ekf->RegisterCamera(x.first, s, prior('c', 6, x.first));
      msckf[x.first] = std::make_shared<MsckfUpdater>(x.first, x.second, c.log_dir, c.log_rate, 0.5, log);
    }
    for (auto & x : c.fids) {
      FidState s = Fid(x.first, x.second);
      if (known('f', x.first)) {s.pos_stability = s.ang_stability = 0;} else if (x.second) {s.pos_f_in_l += Vector3d(0.03, 0.02, -0.02); s.ang_f_to_l = s.ang_f_to_l * Exp(Vector3d(-0.02, 0.01, 0.01));}
      ekf->RegisterFiducial(s, prior('f', 6, x.first));
      for (auto & k : c.cams) {
        fid[{x.first, k.first}] = std::make_shared<FiducialUpdater>(x.first, k.first, x.second, k.second, c.log_dir, c.log_rate, log);
      }
    }
    if (c.start_gravity) {ekf->InitializeGravity();}
  }
  static FidState Fid(unsigned id, bool ext)
  {
    FidState s; s.SetIsExtrinsic(ext); s.id = id;
    s.pos_f_in_l = Vector3d(4, 0.2 * id, 0.3); s.ang_f_to_l = Exp(Vector3d(0.3, -0.1 * id, 0.2));
    s.pos_stability = 1e-7; s.ang_stability = 1e-7;
    return s;
  }
  double MsgTime(double local) const {return local + cfg.t0 + shift;}
  double Advance(double dt) {double t = now + dt; if (t > now) {now = t;} return t;}

  // raw measurements
  void ImuMeas(unsigned id, double t, int var, Vector3d & acc, Vector3d & gyr) const
  {
    ImuState s = Machine::ImuOf(id, 0);
    if (var == 0) {     // at rest at the start pose
      acc = s.ang_i_to_b.inverse() * (Truth::Ang(0).inverse() * Vector3d(0, 0, 9.80665)) + s.acc_bias + Vector3d(0.01, -0.02, 0.015);
      gyr = s.omg_bias + Vector3d(0.001, 0.002, -0.001);
    } else {
      acc = s.ang_i_to_b.inverse() * (Truth::Ang(t).inverse() * (Truth::Acc(t) + Vector3d(0, 0, 9.80665))) + s.acc_bias;
      gyr = s.ang_i_to_b.inverse() * (Truth::Ang(t).inverse() * Truth::Omega(t)) + s.omg_bias;
      if (var == 2) {acc += Vector3d(4, -5, 3); gyr += Vector3d(0.5, 0.4, -0.6);}
    }
  }
  Vector3d GpsMeas(unsigned id, double t, int var) const
  {
    Vector3d a = Truth::Pos(t) + Truth::Ang(t) * Machine::GpsOf(id, false).pos_a_in_b;
    if (var == 1) {a += Vector3d(0.3, -0.2, 0.1);}
    return enu_to_lla(local_to_enu(a, 0.3), RefLla());
  }
  BoardDetection FidMeas(unsigned f, unsigned c, double t) const
  {
    const CamState & s = cam_true.at(c);
    FidState fs = Fid(f, false);
    Quaterniond qc = Truth::Ang(t) * s.ang_c_to_b;
    BoardDetection d;
    d.pos_f_in_c = qc.inverse() * (fs.pos_f_in_l - Truth::Pos(t) - Truth::Ang(t) * s.pos_c_in_b) + Vector3d(0.01, 0, -0.01);
    d.ang_f_to_c = qc.inverse() * fs.ang_f_to_l;
    d.pos_error = Vector3d(1e-3, 1e-3, 2e-3); d.ang_error = Vector3d(1e-3, 2e-3, 1e-3);
    return d;
  }
  static Vector3d Feature(unsigned j) {return Vector3d(5 + 0.7 * j, 0.8 * std::sin(2.0 * j + 1), 0.6 * std::cos(1.7 * j));}
  cv::KeyPoint Pixel(unsigned c, double t, unsigned j) const
  {
    const CamState & s = cam_true.at(c);
    Vector3d p = (Truth::Ang(t) * s.ang_c_to_b).inverse() * (Feature(j) - Truth::Pos(t) - Truth::Ang(t) * s.pos_c_in_b);
    cv::KeyPoint k;
    k.pt.x = static_cast<float>(p[0] / p[2] * s.intrinsics.f_x / s.intrinsics.pixel_size + s.intrinsics.width / 2);
    k.pt.y = static_cast<float>(p[1] / p[2] * s.intrinsics.f_y / s.intrinsics.pixel_size + s.intrinsics.height / 2);
    k.class_id = static_cast<int>(j);
    return k;
  }
  double Baseline(unsigned c) const
  {
    const auto & fr = frames.at(c);
    AugState a = ekf->GetAugState(c, fr.front().first, fr.front().second);
    AugState b = ekf->GetAugState(c, fr.back().first, fr.back().second);
    return (a.pos_b_in_l - b.pos_b_in_l).norm();
  }
  FeatureTracks Tracks(unsigned c, unsigned features, unsigned min_len = 2) const
  {
    FeatureTracks out;
    auto it = frames.find(c);
    if (it == frames.end() || it->second.size() < min_len) {return out;}
    // features seen without parallax cannot be triangulated
    if (HasClone(c) && Baseline(c) < 0.03) {return out;}
    for (unsigned j = 0; j < features; ++j) {
      FeatureTrack tr; tr.true_feature_position = Feature(j);
      for (auto & f : it->second) {tr.track.push_back(FeaturePoint{f.first, f.second, Pixel(c, f.second, j)});}
      out.push_back(tr);
    }
    return out;
  }
  bool HasClone(unsigned cam) const
  {
    unsigned key = 0;
    if (cfg.aug == AugmentationType::NONE) {return false;}
    if (cfg.aug == AugmentationType::ALL) {key = cam;}
    if (cfg.aug == AugmentationType::PRIMARY) {key = cfg.cams[0].first;}
    auto it = ekf->m_state.aug_states.find(key);
    return it != ekf->m_state.aug_states.end() && !it->second.empty();
  }

  void Apply(const WOp & o)
  {
    double t = Advance(o.dt);
    switch (o.k) {
      case 'i': {
          Vector3d a, g; ImuMeas(o.id, t, o.var, a, g);
          imu.at(o.id)->UpdateEKF(*ekf, MsgTime(t), a, Matrix3d::Identity() * 1e-2, g, Matrix3d::Identity() * 1e-4);
        }
        break;
      case 'g': {
          MatrixXd C(3, 3); C << 0.04, 0.01, 0, 0.01, 0.05, 0.005, 0, 0.005, 0.09;
          gps.at(o.id)->UpdateEKF(*ekf, MsgTime(t), GpsMeas(o.id, t, o.var), C);
        }
        break;
      case 'f':
        fid.at({o.id, static_cast<unsigned>(o.var)})->UpdateEKF(*ekf, MsgTime(t), FidMeas(o.id, static_cast<unsigned>(o.var), t));
        break;
      case 'v': {
          double lt = ekf->CalculateLocalTime(MsgTime(t));
          ekf->PredictModel(lt);
          ++frame;
          ekf->AugmentStateIfNeeded(o.id, frame);
          auto & fr = frames[o.id];
          // a stale frame is cloned at the filter's time
          fr.push_back({frame, ekf->GetCurrentTime()});
          while (fr.size() > cfg.window) {fr.erase(fr.begin());}
          if (o.var >= 0) {
            // without any clone the tracks must be ignored
            FeatureTracks tr = Tracks(o.id, o.var ? static_cast<unsigned>(o.var) : 3);
            if (!tr.empty() && HasClone(o.id)) {++vision_updates;}
            msckf.at(o.id)->UpdateEKF(*ekf, MsgTime(t), tr, 0.5);
          }
        }
        break;
      case 'p': ekf->PredictModel(ekf->CalculateLocalTime(MsgTime(t))); break;
      case 'z': ekf->SetZeroAcceleration(o.var); break;
      case 'y': ekf->InitializeGravity(); break;
    }
  }
};

inline uint64_t HashEkf(EKF & e)
{
  mc::Hash h;
  h.m(e.m_state.ToVector()).d(e.GetCurrentTime()).u(e.IsGravityInitialized()).u(e.IsLlaInitialized());
  h.d(FullCov(e).sum());
  return h.h;
}

// every flagged and unflagged numeric parameter of the state, by name
inline std::map<std::string, Eigen::VectorXd> Params(EKF & e)
{
  std::map<std::string, VectorXd> r;
  auto & s = e.m_state;
  auto q = [](const Quaterniond & a) {VectorXd v(4); v << a.w(), a.x(), a.y(), a.z(); if (v[0] < 0) {v = -v;} return v;};
  r["body.pos"] = s.body_state.pos_b_in_l; r["body.vel"] = s.body_state.vel_b_in_l; r["body.acc"] = s.body_state.acc_b_in_l;
  r["body.ang"] = q(s.body_state.ang_b_to_l); r["body.omg"] = s.body_state.ang_vel_b_in_l; r["body.alp"] = s.body_state.ang_acc_b_in_l;
  for (auto & x : s.imu_states) {
    std::string n = "imu" + std::to_string(x.first) + ".";
    r[n + "pos"] = x.second.pos_i_in_b; r[n + "ang"] = q(x.second.ang_i_to_b);
    r[n + "ab"] = x.second.acc_bias; r[n + "wb"] = x.second.omg_bias;
  }
  for (auto & x : s.gps_states) {r["gps" + std::to_string(x.first) + ".pos"] = x.second.pos_a_in_b;}
  for (auto & x : s.cam_states) {
    std::string n = "cam" + std::to_string(x.first) + ".";
    r[n + "pos"] = x.second.pos_c_in_b; r[n + "ang"] = q(x.second.ang_c_to_b);
    VectorXd in(9); auto & i = x.second.intrinsics;
    in << i.f_x, i.f_y, i.k_1, i.k_2, i.p_1, i.p_2, i.width, i.height, i.pixel_size;
    r[n + "intrinsics"] = in;
  }
  for (auto & x : s.fid_states) {
    std::string n = "fid" + std::to_string(x.first) + ".";
    r[n + "pos"] = x.second.pos_f_in_l; r[n + "ang"] = q(x.second.ang_f_to_l);
  }
  for (auto & kv : s.aug_states) {
    for (size_t i = 0; i < kv.second.size(); ++i) {
      std::string n = "aug" + std::to_string(kv.first) + "." + std::to_string(i) + ".";
      r[n + "pos"] = kv.second[i].pos_b_in_l; r[n + "ang"] = q(kv.second[i].ang_b_to_l);
    }
  }
  return r;
}

inline std::string DiffParams(const std::map<std::string, VectorXd> & a, const std::map<std::string, VectorXd> & b, double tol)
{
  for (auto & x : a) {
    auto it = b.find(x.first);
    if (it == b.end()) {return x.first + " missing";}
    for (int i = 0; i < x.second.size(); ++i) {
      if (!(std::abs(x.second[i] - it->second[i]) <= tol * (1 + std::abs(it->second[i])))) {
        std::ostringstream o; o.precision(12);
        o << x.first << "[" << i << "] " << x.second[i] << " vs " << it->second[i];
        return o.str();
      }
    }
  }
  for (auto & x : b) {if (!a.count(x.first)) {return x.first + " extra";}}
  return "";
}

// numerical health of the filter; empty when healthy
inline std::string Health(EKF & e)
{
  std::ostringstream o; o.precision(10);
  MatrixXd P = FullCov(e);
  if (P.rows() != P.cols() || P.rows() != static_cast<long>(e.GetStateSize())) {return "covariance dimension differs from the state size";}
  if (!P.allFinite()) {return "covariance is not finite";}
  for (auto & x : Params(e)) {if (!x.second.allFinite()) {return x.first + " is not finite";}}
  double sc = P.cwiseAbs().maxCoeff();
  double as = (P - P.transpose()).cwiseAbs().maxCoeff();
  if (as > 1e-9 * sc) {o << "covariance asymmetric by " << as; return o.str();}
  Eigen::SelfAdjointEigenSolver<MatrixXd> es(0.5 * (P + P.transpose()), Eigen::EigenvaluesOnly);
  if (es.eigenvalues().minCoeff() < -1e-9 * sc) {o << "negative covariance eigenvalue " << es.eigenvalues().minCoeff(); return o.str();}
  auto unit = [&](const Quaterniond & q) {return std::abs(q.norm() - 1) < 1e-9;};
  auto & s = e.m_state;
  if (!unit(s.body_state.ang_b_to_l)) {return "body quaternion is not unit";}
  for (auto & x : s.imu_states) {if (!unit(x.second.ang_i_to_b)) {return "IMU quaternion is not unit";}}
  for (auto & x : s.cam_states) {if (!unit(x.second.ang_c_to_b)) {return "camera quaternion is not unit";}}
  for (auto & x : s.fid_states) {if (!unit(x.second.ang_f_to_l)) {return "fiducial quaternion is not unit";}}
  for (auto & kv : s.aug_states) {for (auto & a : kv.second) {if (!unit(a.ang_b_to_l)) {return "clone quaternion is not unit";}}}
  return "";
}

// the standard configurations
inline std::vector<Cfg> StdConfigs()
{
  std::vector<Cfg> r;
  auto add = [&](Cfg c, const std::string & n) {c.name = n; r.push_back(c);};
  Cfg a; a.imus = {{4, 3}}; a.gpss = {{3, true}}; a.cams = {{8, true}}; a.fids = {{6, true}};
  add(a, "one-of-each");
  a.start_gravity = true;
  add(a, "one-of-each-moving");
  Cfg b; b.imus = {{4, 1}, {2, 2}}; b.gpss = {{3, false}}; b.cams = {{8, true}, {5, false}}; b.fids = {{6, false}};
  b.aug = AugmentationType::PRIMARY;
  b.start_gravity = true;
  add(b, "two-imus-primary");
  Cfg c; c.imus = {{4, 0}}; c.gpss = {{3, true}}; c.cams = {{8, false}}; c.fids = {{6, true}};
  c.aug = AugmentationType::TIME;
  c.start_gravity = true;
  add(c, "time");
  Cfg d; d.imus = {{4, 3}, {2, 0}}; d.gpss = {{3, true}}; d.cams = {{8, true}, {5, true}}; d.fids = {{6, true}};
  d.aug = AugmentationType::ERROR;
  d.start_gravity = true;
  add(d, "error");
  Cfg e; e.imus = {{4, 2}}; e.gpss = {{3, false}}; e.cams = {{8, false}}; e.fids = {{6, false}};
  e.aug = AugmentationType::NONE;
  add(e, "uncalibrated");
  return r;
}
inline std::vector<WOp> StdOps(const Cfg & c)
{
  std::vector<WOp> r;
  for (auto & x : c.imus) {
    std::string n = "i" + std::to_string(x.first);
    r.push_back({n + "rest", 'i', x.first, 0.125, 0});
    r.push_back({n + "move", 'i', x.first, 0.125, 1});
    if (x == c.imus[0]) {r.push_back({n + "jolt", 'i', x.first, 0.0625, 2});}
  }
  for (auto & x : c.gpss) {r.push_back({"gps", 'g', x.first, 0.25, 0});}
  for (auto & x : c.cams) {r.push_back({"cam" + std::to_string(x.first), 'v', x.first, 0.25, 0});}
  r.push_back({"fid", 'f', c.fids[0].first, 0.125, static_cast<int>(c.cams[0].first)});
  r.push_back({"gps-stale", 'g', c.gpss[0].first, -0.125, 1});
  return r;
}

}  // namespace world
#endif
