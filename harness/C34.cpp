// C34: nothing depends on where the local frame lies, when the clock started or how sensors are numbered.
#include "world.hpp"
using namespace world;

namespace
{
struct Change
{
  const char * n;
  double yaw; Vector3d shift; double t0; int ids; double heading; Vector3d lla; unsigned frame0;
  Quaterniond Rot() const {return Quaterniond(Eigen::AngleAxisd(yaw, Vector3d::UnitZ()));}
  unsigned Id(unsigned id) const {return ids == 0 ? id : ids == 1 ? 9 - std::min(id, 9u) : ids == 2 ? id + 1000000 : id * 7 % 10;}
};

// the same world, described by another observer
struct Other
{
  const World & w; const Change & ch;
  std::shared_ptr<EKF> ekf;
  std::map<unsigned, std::shared_ptr<ImuUpdater>> imu;
  std::map<unsigned, std::shared_ptr<GpsUpdater>> gps;
  std::map<unsigned, std::shared_ptr<MsckfUpdater>> msckf;
  std::map<std::pair<unsigned, unsigned>, std::shared_ptr<FiducialUpdater>> fid;
  Matrix3d R; Quaterniond q;

  Other(World & world, const Change & c)
  : w(world), ch(c), R(c.Rot().toRotationMatrix()), q(c.Rot())
  {
    const Cfg & cf = w.cfg;
    EKF::Parameters p;
    p.debug_logger = w.log; p.use_root_covariance = cf.root; p.use_first_estimate_jacobian = cf.fej;
    p.augmenting_type = cf.aug; p.augmenting_delta_time = 0.4; p.augmenting_pos_error = cf.aug_err; p.augmenting_ang_error = cf.aug_ang;
    p.motion_detection_chi_squared = cf.chi; p.imu_noise_scale_factor = cf.noise_scale;
    p.gps_init_type = cf.gps_init; p.gps_init_baseline_dist = cf.gps_baseline;
    p.gps_init_pos_thresh = cf.gps_pos_thresh; p.gps_init_ang_thresh = cf.gps_ang_thresh;
    p.pos_e_in_g = ch.lla; p.ang_l_to_e = ch.heading;
    p.process_noise = Noise();
    ekf = std::make_shared<EKF>(p);
    BodyState b = w.ekf->m_state.body_state;
    Body(b);
    ekf->Initialize(ch.t0, b);
    ekf->SetMaxTrackLength(cf.window);
    for (auto & x : cf.imus) {
      const ImuState & s = w.ekf->m_state.imu_states.at(x.first);
      ekf->RegisterIMU(ch.Id(x.first), s, MatrixXd(Prior(12, x.first, true) * (cf.prior / 1e-2)).topLeftCorner(s.size, s.size));
      imu[x.first] = std::make_shared<ImuUpdater>(ch.Id(x.first), x.second & 1, (x.second & 2) != 0, "", 0.0, w.log);
    }
    for (auto & x : cf.gpss) {
      ekf->RegisterGPS(ch.Id(x.first), w.ekf->m_state.gps_states.at(x.first), MatrixXd(Prior(3, x.first, true) * (cf.prior / 1e-2)));
      gps[x.first] = std::make_shared<GpsUpdater>(ch.Id(x.first), x.second, "", 0.0, w.log);
    }
    for (auto & x : cf.cams) {
      ekf->RegisterCamera(ch.Id(x.first), w.ekf->m_state.cam_states.at(x.first), MatrixXd(Prior(6, x.first, true) * (cf.prior / 1e-2)));
      msckf[x.first] = std::make_shared<MsckfUpdater>(ch.Id(x.first), x.second, "", 0.0, 0.5, w.log);
    }
    for (auto & x : cf.fids) {
      FidState s = w.ekf->m_state.fid_states.at(x.first);
      s.pos_f_in_l = R * s.pos_f_in_l + ch.shift; s.ang_f_to_l = q * s.ang_f_to_l; s.id = ch.Id(x.first);
      MatrixXd P = Prior(6, x.first, true) * (cf.prior / 1e-2);
      P.topLeftCorner(3, 3) = R * P.topLeftCorner(3, 3) * R.transpose();
      ekf->RegisterFiducial(s, P);
      for (auto & k : cf.cams) {fid[{x.first, k.first}] = std::make_shared<FiducialUpdater>(ch.Id(x.first), ch.Id(k.first), x.second, k.second, "", 0.0, w.log);}
    }
    if (cf.start_gravity) {ekf->InitializeGravity();}
  }
  static VectorXd Noise()
  {
    VectorXd n(18);
    for (int i = 0; i < 18; ++i) {n[i] = 1e-3 + 6e-4 * (i / 3) + (i % 3 == 2 && i != 11 ? 3e-4 : 0.0);}
    return n;
  }
  void Body(BodyState & b) const
  {
    b.pos_b_in_l = R * b.pos_b_in_l + ch.shift; b.vel_b_in_l = R * b.vel_b_in_l; b.acc_b_in_l = R * b.acc_b_in_l;
    b.ang_b_to_l = q * b.ang_b_to_l; b.ang_vel_b_in_l = R * b.ang_vel_b_in_l; b.ang_acc_b_in_l = R * b.ang_acc_b_in_l;
  }
  // the same message, as the other observer receives it (after w.Apply(o))
  void Apply(const WOp & o, double t, const FeatureTracks & tr0)
  {
    double mt = t + ch.t0;
    switch (o.k) {
      case 'i': {
          Vector3d a, g; w.ImuMeas(o.id, t, o.var, a, g);
          imu.at(o.id)->UpdateEKF(*ekf, mt, a, Matrix3d::Identity() * 1e-2, g, Matrix3d::Identity() * 1e-4);
        }
        break;
      case 'g': {
          Matrix3d C; C << 0.04, 0.01, 0, 0.01, 0.05, 0.005, 0, 0.005, 0.09;
          Vector3d a = R * enu_to_local(lla_to_enu(w.GpsMeas(o.id, t, o.var), RefLla()), 0.3) + ch.shift;
          gps.at(o.id)->UpdateEKF(*ekf, mt, enu_to_lla(local_to_enu(a, ch.heading), ch.lla), MatrixXd(R * C * R.transpose()));
        }
        break;
      case 'f':
        fid.at({o.id, static_cast<unsigned>(o.var)})->UpdateEKF(*ekf, mt, w.FidMeas(o.id, static_cast<unsigned>(o.var), t));
        break;
      case 'v': {
          ekf->PredictModel(ekf->CalculateLocalTime(mt));
          ekf->AugmentStateIfNeeded(ch.Id(o.id), w.frame + ch.frame0);
          FeatureTracks tr = tr0;
          for (auto & x : tr) {
            x.true_feature_position = R * x.true_feature_position + ch.shift;
            for (auto & f : x.track) {f.frame_id += ch.frame0; f.frame_time += ch.t0;}
          }
          msckf.at(o.id)->UpdateEKF(*ekf, mt, tr, 0.5);
        }
        break;
      case 'p': ekf->PredictModel(ekf->CalculateLocalTime(mt)); break;
    }
  }
  // estimate and covariance, told back in the first observer's terms
  std::string Compare(double tol) const
  {
    EKF & a = *w.ekf; EKF & b = *ekf;
    auto err = [&](const std::string & n, double d, double scale) {std::ostringstream o; if (!(d <= tol * (1 + scale))) {o << n << " differs by " << d;} return o.str();};
    auto P3 = [&](const Vector3d & x) {return Vector3d(R.transpose() * (x - ch.shift));};
    auto Q = [&](const Quaterniond & x) {return Quaterniond(q.conjugate() * x);};
    std::string r;
    auto put = [&](const std::string & s) {if (r.empty()) {r = s;}};
    double sc = ch.shift.norm();
    const BodyState & x = a.m_state.body_state; const BodyState & y = b.m_state.body_state;
    put(err("body position", (P3(y.pos_b_in_l) - x.pos_b_in_l).norm(), sc));
    put(err("body velocity", (R.transpose() * y.vel_b_in_l - x.vel_b_in_l).norm(), 0));
    put(err("body acceleration", (R.transpose() * y.acc_b_in_l - x.acc_b_in_l).norm(), 0));
    put(err("body attitude", AngDist(Q(y.ang_b_to_l), x.ang_b_to_l), 0));
    put(err("body rotation rate", (R.transpose() * y.ang_vel_b_in_l - x.ang_vel_b_in_l).norm(), 0));
    put(err("body angular acceleration", (R.transpose() * y.ang_acc_b_in_l - x.ang_acc_b_in_l).norm(), 0));
    if (a.GetStateSize() != b.GetStateSize()) {put("state sizes differ: " + std::to_string(a.GetStateSize()) + ", " + std::to_string(b.GetStateSize()));}
    if (!r.empty()) {return r;}
    std::vector<int> to(a.GetStateSize(), -1); std::vector<bool> rot(a.GetStateSize() + 3, false);
    auto map = [&](int i, int j, int n, bool turn) {for (int k = 0; k < n; ++k) {to[static_cast<size_t>(i + k)] = j + k;} if (turn) {rot[static_cast<size_t>(i)] = true;}};
    for (int k = 0; k < 6; ++k) {map(3 * k, 3 * k, 3, k != 3);}
    for (auto & m : a.m_state.imu_states) {
      auto it = b.m_state.imu_states.find(ch.Id(m.first));
      if (it == b.m_state.imu_states.end()) {return "IMU missing";}
      const ImuState & s = it->second; std::string n = "imu " + std::to_string(m.first) + " ";
      put(err(n + "position", (s.pos_i_in_b - m.second.pos_i_in_b).norm(), 0)); put(err(n + "rotation", AngDist(s.ang_i_to_b, m.second.ang_i_to_b), 0));
      put(err(n + "biases", (s.acc_bias - m.second.acc_bias).norm() + (s.omg_bias - m.second.omg_bias).norm(), 0));
      if (m.second.GetIsExtrinsic()) {map(static_cast<int>(m.second.index_extrinsic), static_cast<int>(s.index_extrinsic), 6, false);}
      if (m.second.GetIsIntrinsic()) {map(static_cast<int>(m.second.index_intrinsic), static_cast<int>(s.index_intrinsic), 6, false);}
    }
    for (auto & m : a.m_state.gps_states) {
      auto it = b.m_state.gps_states.find(ch.Id(m.first));
      if (it == b.m_state.gps_states.end()) {return "GPS missing";}
      put(err("antenna " + std::to_string(m.first), (it->second.pos_a_in_b - m.second.pos_a_in_b).norm(), 0));
      if (m.second.GetIsExtrinsic()) {map(static_cast<int>(m.second.index), static_cast<int>(it->second.index), 3, false);}
    }
    for (auto & m : a.m_state.cam_states) {
      auto it = b.m_state.cam_states.find(ch.Id(m.first));
      if (it == b.m_state.cam_states.end()) {return "camera missing";}
      put(err("camera " + std::to_string(m.first), (it->second.pos_c_in_b - m.second.pos_c_in_b).norm() + AngDist(it->second.ang_c_to_b, m.second.ang_c_to_b), 0));
      if (m.second.GetIsExtrinsic()) {map(static_cast<int>(m.second.index), static_cast<int>(it->second.index), 6, false);}
    }
    for (auto & m : a.m_state.fid_states) {
      auto it = b.m_state.fid_states.find(ch.Id(m.first));
      if (it == b.m_state.fid_states.end()) {return "board missing";}
      put(err("board " + std::to_string(m.first), (P3(it->second.pos_f_in_l) - m.second.pos_f_in_l).norm() + AngDist(Q(it->second.ang_f_to_l), m.second.ang_f_to_l), sc));
      if (m.second.GetIsExtrinsic()) {
        map(static_cast<int>(m.second.index), static_cast<int>(it->second.index), 3, true);
        map(static_cast<int>(m.second.index) + 3, static_cast<int>(it->second.index) + 3, 3, false);
      }
    }
    bool shared = w.cfg.aug == AugmentationType::TIME || w.cfg.aug == AugmentationType::ERROR;
    for (auto & m : a.m_state.aug_states) {
      if (m.second.empty()) {continue;}
      auto it = b.m_state.aug_states.find(shared ? m.first : ch.Id(m.first));
      if (it == b.m_state.aug_states.end() || it->second.size() != m.second.size()) {return "other clones are kept";}
      for (size_t k = 0; k < m.second.size(); ++k) {
        const AugState & u = m.second[k]; const AugState & v = it->second[k];
        put(err("clone time", std::abs(u.time + ch.t0 - v.time), 0));
        put(err("clone position", (P3(v.pos_b_in_l) - u.pos_b_in_l).norm(), sc)); put(err("clone attitude", AngDist(Q(v.ang_b_to_l), u.ang_b_to_l), 0));
        map(static_cast<int>(u.index), static_cast<int>(v.index), 3, true); map(static_cast<int>(u.index) + 3, static_cast<int>(v.index) + 3, 3, false);
      }
    }
    if (!r.empty()) {return r;}
    MatrixXd A = FullCov(a), B = FullCov(b);
    const int n = static_cast<int>(to.size());
    MatrixXd T = MatrixXd::Zero(n, n);
    for (int i = 0; i < n; ) {
      if (rot[static_cast<size_t>(i)]) {
        for (int k = 0; k < 3; ++k) {for (int l = 0; l < 3; ++l) {T(i + k, to[static_cast<size_t>(i + l)]) = R(l, k);}}
        i += 3;
      } else {if (to[static_cast<size_t>(i)] < 0) {return "state " + std::to_string(i) + " belongs to nothing";} T(i, to[static_cast<size_t>(i)]) = 1; ++i;}
    }
    B = MatrixXd(T * B * T.transpose());
    for (int i = 0; i < n; ++i) {
      for (int j = 0; j <= i; ++j) {
        double s = std::sqrt(A(i, i) * A(j, j)) + 1e-12;
        if (!(std::abs(A(i, j) - B(i, j)) <= 20 * tol * s)) {std::ostringstream o; o << "covariance (" << i << "," << j << ") " << B(i, j) << " instead of " << A(i, j); return o.str();}
      }
    }
    if (a.IsLlaInitialized() != b.IsLlaInitialized()) {return "GPS initialisation differs";}
    if (a.IsGravityInitialized() != b.IsGravityInitialized()) {return "gravity initialisation differs";}
    return "";
  }
};
}  // namespace

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C34");
  std::vector<Change> changes = {
    {"turned", M_PI / 4, {0, 0, 0}, 0, 0, 0.3, RefLla(), 0},
    {"reversed", M_PI, {0, 0, 0}, 0, 0, 0.3, RefLla(), 0},
    {"moved", 0, {40, -25, 7}, 0, 0, 0.3, RefLla(), 0},
    {"other clock", 0, {0, 0, 0}, 1048576.0, 0, 0.3, RefLla(), 0},
    {"renumbered backwards", 0, {0, 0, 0}, 0, 1, 0.3, RefLla(), 0},
    {"renumbered", 0, {0, 0, 0}, 0, 2, 0.3, RefLla(), 900000},
    {"elsewhere on earth", 0, {0, 0, 0}, 0, 0, -2.2, {-33.9, 179.99999, 30}, 0},
    {"all of it", -2.1, {-30, 12, -4}, -64.0, 3, 2.9, {64.1, -21.9, -20}, 77}};
  std::vector<Cfg> cfgs;
  auto add = [&](Cfg c, const std::string & n) {for (bool root : {false, true}) {c.root = root; c.name = n + (root ? "/root" : "/full"); cfgs.push_back(c);}};
  for (auto c : StdConfigs()) {add(c, c.name);}
  {
    auto c = StdConfigs()[1]; c.fej = true; c.gps_init = GpsInitType::BASELINE_DIST; c.gps_baseline = 0.3; add(c, "gps-baseline");
    c.fej = false; c.gpss = {{3, true}, {1, false}}; c.gps_init = GpsInitType::ERROR_THRESHOLD; add(c, "gps-error");
    c = StdConfigs()[2]; c.fids = {{6, true}, {9, true}}; c.fej = true; add(c, "two-boards");
  }
  unsigned depth = R.thorough ? 4 : 3;
  R.rule = "all words of length d over messages of IMUs, GPS, cameras and boards, and all short periodic schedules, each told to two "
    "filters whose observers use different local frames (turned about the vertical, moved), clocks, identifiers of sensors and frames, "
    "headings and places on earth; after every message the second belief, told back, is compared with the first";
  R.Bound("depth", depth); R.Bound("configurations", cfgs.size()); R.Bound("changes of observer", changes.size());
  R.assumptions = {"process noise and priors are told to the second filter in its own frame (equal in both horizontal directions)"};
  auto run = [&](const Cfg & cf, const Change & ch0, const std::vector<WOp> & ops, const std::vector<unsigned> & w, unsigned steps, mc::Ctx & c) {
      // found from readings, the reference plane touches the earth where the readings are: no shift, and rounding of earth-sized numbers
      Change ch = ch0;
      const bool found = cf.gps_init != GpsInitType::CONSTANT;
      if (found) {ch.shift.setZero();}
      std::string key = std::string(ch.n) + " " + cf.name + ":";
      for (auto x : w) {key += " " + ops[x].name;}
      if (steps != w.size()) {key += " *" + std::to_string(steps);}
      if (!R.Selected(key)) {return;}
      c.Key(key);
      World a(cf);
      a.ekf->SetBodyProcessNoise(Other::Noise());
      Other b(a, ch);
      for (unsigned k = 0; k < steps; ++k) {
        const WOp & o = ops[w[k % w.size()]];
        // a frame's tracks are formed between clone and correction
        FeatureTracks tr;
        double t = a.now + o.dt;
        if (o.k == 'v') {
          WOp clone = o; clone.var = -1; a.Apply(clone);
          tr = a.Tracks(o.id, 3);
          for (size_t j = 1; j < tr.size(); j += 2) {tr[j].true_feature_position = Vector3d::Constant(std::nan(""));}
          a.msckf.at(o.id)->UpdateEKF(*a.ekf, a.MsgTime(t), tr, 0.5);
        } else {a.Apply(o);}
        b.Apply(o, t, tr);
        c.Transition(); c.Eval(); c.State(HashEkf(*a.ekf));
        std::string d = b.Compare(found ? 1e-5 : 2e-7);
        if (!d.empty()) {c.Fail("after step " + std::to_string(k) + " " + o.name + ": " + d); break;}
      }
      c.Trace(); c.Sample(key);
    };
  for (auto & cf : cfgs) {
    auto ops = StdOps(cf);
    unsigned n = static_cast<unsigned>(ops.size());
    R.Parallel(Pow(n, depth) * changes.size(), [&](size_t i, mc::Ctx & c) {run(cf, changes[i % changes.size()], ops, Word(i / changes.size(), n, depth), depth, c);});
    unsigned per = R.thorough ? 3 : 2;
    R.Parallel(Pow(n, per) * changes.size(), [&](size_t i, mc::Ctx & c) {run(cf, changes[i % changes.size()], ops, Word(i / changes.size(), n, per), 12, c);});
  }
  // clones by error: the thresholds swept finely, so that every size of error meets one close by
  std::vector<Cfg> sweep;
  for (int k = 0; k < 24; ++k) {
    for (bool ang : {false, true}) {
      Cfg c = StdConfigs()[4]; double e = 0.002 * std::pow(1.3, k);
      c.aug_err = ang ? 100 : e; c.aug_ang = ang ? e : 100; c.root = k % 2;
      std::ostringstream n; n << "clones by " << (ang ? "angle " : "position ") << e; c.name = n.str(); sweep.push_back(c);
    }
  }
  R.Bound("clone thresholds", sweep.size());
  {
    auto ops = StdOps(sweep[0]); unsigned n = static_cast<unsigned>(ops.size());
    unsigned per = R.thorough ? 3 : 2; size_t words = Pow(n, per), m = R.thorough ? 3 : 2;
    const Change & last = changes.back();
    R.Parallel(words * sweep.size() * m, [&](size_t i, mc::Ctx & c) {
        size_t v = i % m; size_t k = i / m % sweep.size();
        run(sweep[k], v == 0 ? changes[0] : v == 1 ? last : changes[2], ops, Word(i / m / sweep.size(), n, per), 12, c);
      });
  }
  return R.Finish();
}
