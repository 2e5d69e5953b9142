// C35: a correct estimate fed with error-free readings stays correct.
#include "world.hpp"
using namespace world;

namespace
{
const Vector3d G(0, 0, 9.80665);
struct Motion
{
  const char * n; Vector3d p0, v, w; Quaterniond q0;
  Vector3d Pos(double t) const {return p0 + v * t;}
  Quaterniond Ang(double t) const {return Exp(w * t) * q0;}
};
struct Rig
{
  World wd; const Motion & m;
  std::map<unsigned, ImuState> imu; std::map<unsigned, GpsState> gps; std::map<unsigned, CamState> cam; std::map<unsigned, FidState> fid;
  std::map<unsigned, std::vector<std::pair<unsigned, double>>> frames;
  double now{0}; unsigned frame{100};
  Rig(const Cfg & cf, const Motion & mo)
  : wd(cf), m(mo)
  {
    State & s = wd.ekf->m_state;
    s.body_state.pos_b_in_l = m.p0; s.body_state.vel_b_in_l = m.v; s.body_state.acc_b_in_l = G;
    s.body_state.ang_b_to_l = m.q0; s.body_state.ang_vel_b_in_l = m.w; s.body_state.ang_acc_b_in_l.setZero();
    for (auto & x : s.imu_states) {
      // a single IMU is taken to sit at the body origin
      if (cf.imus.size() == 1) {x.second.pos_i_in_b.setZero();}
      imu[x.first] = x.second;
    }
    for (auto & x : s.gps_states) {gps[x.first] = x.second;}
    for (auto & x : s.cam_states) {x.second = World::Cam(x.first, x.second.GetIsExtrinsic()); x.second.size = wd.cam_true[x.first].size; cam[x.first] = x.second;}
    for (auto & x : s.fid_states) {
      FidState f = World::Fid(x.first, false);
      x.second.pos_f_in_l = f.pos_f_in_l; x.second.ang_f_to_l = f.ang_f_to_l; fid[x.first] = x.second;
    }
  }
  // turning looks like rest to an accelerometer at the origin: such bodies have been seen moving before
  void Wake()
  {
    if (m.w.isZero(0)) {return;}
    State s = wd.ekf->m_state;
    for (auto & x : imu) {wd.imu.at(x.first)->UpdateEKF(*wd.ekf, 0.0, Vector3d(3, -4, 15), Matrix3d::Identity() * 1e-2, Vector3d(0.5, 1, 2), Matrix3d::Identity() * 1e-4);}
    State & n = wd.ekf->m_state;
    n.body_state = s.body_state; n.imu_states = s.imu_states; n.gps_states = s.gps_states; n.cam_states = s.cam_states; n.fid_states = s.fid_states;
    for (auto & a : n.aug_states) {for (auto & x : a.second) {x.pos_b_in_l = m.Pos(x.time); x.ang_b_to_l = m.Ang(x.time);}}
  }
  void Apply(const WOp & o, mc::Ctx & c)
  {
    now += o.dt;
    const double t = now;
    EKF & e = *wd.ekf;
    Vector3d p = m.Pos(t); Quaterniond q = m.Ang(t);
    switch (o.k) {
      case 'i': {
          const ImuState & s = imu.at(o.id);
          // readings are used at the pose known so far: a turning body is brought up to the time of the reading first
          if (!m.w.isZero(0)) {e.PredictModel(e.CalculateLocalTime(t));}
          Quaterniond qi = q * s.ang_i_to_b;
          Vector3d acc = qi.conjugate() * (G + m.w.cross(m.w.cross(q * s.pos_i_in_b))) + s.acc_bias, gyr = qi.conjugate() * m.w + s.omg_bias;
          wd.imu.at(o.id)->UpdateEKF(e, t, acc, Matrix3d::Identity() * 1e-2, gyr, Matrix3d::Identity() * 1e-4);
        }
        break;
      case 'g': {
          Matrix3d C; C << 0.04, 0.01, 0, 0.01, 0.05, 0.005, 0, 0.005, 0.09;
          wd.gps.at(o.id)->UpdateEKF(e, t, enu_to_lla(local_to_enu(p + q * gps.at(o.id).pos_a_in_b, 0.3), RefLla()), MatrixXd(C * 0.01));
        }
        break;
      case 'f': {
          const CamState & s = cam.at(static_cast<unsigned>(o.var)); const FidState & f = fid.at(o.id);
          Quaterniond qc = q * s.ang_c_to_b;
          BoardDetection d;
          d.pos_f_in_c = qc.conjugate() * (f.pos_f_in_l - p - q * s.pos_c_in_b); d.ang_f_to_c = qc.conjugate() * f.ang_f_to_l;
          d.pos_error = Vector3d(1e-4, 1e-4, 2e-4); d.ang_error = Vector3d(1e-4, 2e-4, 1e-4);
          wd.fid.at({o.id, static_cast<unsigned>(o.var)})->UpdateEKF(e, t, d);
        }
        break;
      case 'v': {
          e.PredictModel(e.CalculateLocalTime(t));
          ++frame;
          e.AugmentStateIfNeeded(o.id, frame);
          auto & fr = frames[o.id];
          fr.push_back({frame, t});
          while (fr.size() > wd.cfg.window) {fr.erase(fr.begin());}
          FeatureTracks tr;
          // tracks need parallax
          bool par = fr.size() > 1 && (m.Pos(fr.front().second) - m.Pos(t)).norm() > 0.1;
          if (par && Has(o.id)) {
            for (unsigned j = 0; j < 3; ++j) {
              FeatureTrack k; k.true_feature_position = o.var ? World::Feature(j) : Vector3d(Vector3d::Constant(std::nan("")));
              bool good = true;
              for (auto & f : fr) {
                cv::KeyPoint kp; good = good && Pixel(cam.at(o.id), f.second, World::Feature(j), kp);
                k.track.push_back(FeaturePoint{f.first, f.second, kp});
              }
              if (good) {tr.push_back(k);}
            }
            if (!tr.empty()) {c.Count("feature corrections");}
          }
          wd.msckf.at(o.id)->UpdateEKF(e, t, tr, 0.5);
        }
        break;
      case 'p': e.PredictModel(e.CalculateLocalTime(t)); break;
    }
  }
  bool Has(unsigned id) const
  {
    auto & a = wd.ekf->m_state.aug_states;
    if (wd.cfg.aug == AugmentationType::NONE) {return false;}
    unsigned key = wd.cfg.aug == AugmentationType::ALL ? id : wd.cfg.aug == AugmentationType::PRIMARY ? wd.cfg.cams[0].first : 0;
    auto it = a.find(key);
    if (it == a.end() || it->second.empty()) {return false;}
    if (wd.cfg.aug == AugmentationType::ALL) {return true;}
    // every frame of the window must lie between clones, or after the last one
    return it->second.front().time <= frames.at(id).front().second + 1e-12;
  }
  bool Pixel(const CamState & s, double t, const Vector3d & f, cv::KeyPoint & k) const
  {
    Quaterniond q = m.Ang(t);
    Vector3d x = (q * s.ang_c_to_b).conjugate() * (f - m.Pos(t) - q * s.pos_c_in_b);
    k.pt.x = static_cast<float>(x[0] / x[2] * s.intrinsics.f_x / s.intrinsics.pixel_size + s.intrinsics.width / 2);
    k.pt.y = static_cast<float>(x[1] / x[2] * s.intrinsics.f_y / s.intrinsics.pixel_size + s.intrinsics.height / 2);
    return x[2] > 0.5 && std::abs(x[0] / x[2]) < 3 && std::abs(x[1] / x[2]) < 3;
  }
  std::string Check(double tol) const
  {
    EKF & e = *wd.ekf; const State & s = e.m_state; const BodyState & b = s.body_state;
    double t = e.GetCurrentTime();
    std::ostringstream o;
    auto put = [&](const std::string & n, double d) {if (!(d <= tol) && o.str().empty()) {o << n << " is off by " << d;}};
    if (t != now) {o << "time " << t << " instead of " << now;}
    put("body position", (b.pos_b_in_l - m.Pos(t)).norm()); put("body velocity", (b.vel_b_in_l - m.v).norm());
    put("body acceleration", (b.acc_b_in_l - G).norm()); put("body attitude", AngDist(b.ang_b_to_l, m.Ang(t)));
    put("body rotation rate", (b.ang_vel_b_in_l - m.w).norm()); put("body angular acceleration", b.ang_acc_b_in_l.norm());
    for (auto & x : imu) {
      const ImuState & y = s.imu_states.at(x.first); std::string n = "IMU " + std::to_string(x.first) + " ";
      put(n + "position", (y.pos_i_in_b - x.second.pos_i_in_b).norm()); put(n + "rotation", AngDist(y.ang_i_to_b, x.second.ang_i_to_b));
      put(n + "accelerometer bias", (y.acc_bias - x.second.acc_bias).norm()); put(n + "gyroscope bias", (y.omg_bias - x.second.omg_bias).norm());
    }
    for (auto & x : gps) {put("antenna " + std::to_string(x.first), (s.gps_states.at(x.first).pos_a_in_b - x.second.pos_a_in_b).norm());}
    for (auto & x : cam) {const CamState & y = s.cam_states.at(x.first); put("camera " + std::to_string(x.first), (y.pos_c_in_b - x.second.pos_c_in_b).norm() + AngDist(y.ang_c_to_b, x.second.ang_c_to_b));}
    for (auto & x : fid) {const FidState & y = s.fid_states.at(x.first); put("board " + std::to_string(x.first), (y.pos_f_in_l - x.second.pos_f_in_l).norm() + AngDist(y.ang_f_to_l, x.second.ang_f_to_l));}
    for (auto & a : s.aug_states) {for (auto & x : a.second) {put("clone of " + std::to_string(x.time), (x.pos_b_in_l - m.Pos(x.time)).norm() + AngDist(x.ang_b_to_l, m.Ang(x.time)));}}
    return o.str();
  }
};
}  // namespace

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C35");
  std::vector<Motion> motions = {
    {"rest", {0.3, -0.2, 0.1}, {0, 0, 0}, {0, 0, 0}, Exp(Vector3d(0.1, -0.15, 0.2))},
    {"drift", {-0.4, 0.3, 0}, {0.8, -0.5, 0.3}, {0, 0, 0}, Exp(Vector3d(-0.05, 0.2, -0.3))},
    {"turn", {0, 0, 0}, {0, 0, 0}, {0.15, -0.1, 0.35}, Exp(Vector3d(0.1, 0.05, -0.1))},
    {"drift and turn", {0.1, 0.2, -0.3}, {-0.4, 0.6, 0.2}, {-0.2, 0.15, 0.25}, Exp(Vector3d(-0.1, 0.1, 0.15))}};
  std::vector<Cfg> cfgs;
  for (bool root : {false, true}) {
    for (auto c : StdConfigs()) {
      c.root = root; c.start_gravity = true; c.name += root ? "/root" : "/full"; c.chi = 1e-6;
      if (c.gpss.size() == 1) {c.gpss.push_back({1, !c.gpss[0].second});}
      if (c.fids.size() == 1) {c.fids.push_back({9, !c.fids[0].second});}
      c.fej = c.imus.size() == 2;
      cfgs.push_back(c);
    }
  }
  auto opsOf = [](const Cfg & c) {
      std::vector<WOp> r;
      for (auto & x : c.imus) {r.push_back({"imu" + std::to_string(x.first), 'i', x.first, 0.125, 0});}
      for (auto & x : c.gpss) {r.push_back({"gps" + std::to_string(x.first), 'g', x.first, 0.25, 0});}
      for (auto & x : c.cams) {
        r.push_back({"cam" + std::to_string(x.first), 'v', x.first, 0.25, 0}); r.push_back({"cam" + std::to_string(x.first) + "-known", 'v', x.first, 0.25, 1});
        for (auto & f : c.fids) {r.push_back({"board" + std::to_string(f.first) + "@" + std::to_string(x.first), 'f', f.first, 0.125, static_cast<int>(x.first)});}
      }
      r.push_back({"predict", 'p', 0, 0.5, 0}); r.push_back({"again", 'p', 0, 0, 0});
      return r;
    };
  unsigned depth = R.thorough ? 5 : 4;
  R.rule = "all words of length d over error-free messages of IMUs, GPS receivers, boards and camera frames (features known and unknown) "
    "and predictions, and all short periodic schedules, for bodies at rest, drifting, turning and both; after every message estimate, "
    "calibration and clones are compared with the truth";
  R.Bound("depth", depth); R.Bound("configurations", cfgs.size()); R.Bound("motions", motions.size());
  R.assumptions = {"velocity and rotation rate of the body are constant, so that the filter's prediction is exact", "a single IMU sits at the body origin", "a turning body gets some other message at the time of each IMU reading (IMU readings are used at the pose known so far)", "no lens distortion"};
  auto run = [&](const Cfg & cf, const Motion & m, const std::vector<WOp> & ops, const std::vector<unsigned> & w, unsigned steps, mc::Ctx & c) {
      std::string key = cf.name + " " + m.n + ":";
      for (auto x : w) {key += " " + ops[x].name;}
      if (steps != w.size()) {key += " *" + std::to_string(steps);}
      if (!R.Selected(key)) {return;}
      c.Key(key);
      Rig r(cf, m); r.Wake();
      for (unsigned k = 0; k < steps; ++k) {
        const WOp & o = ops[w[k % w.size()]];
        r.Apply(o, c);
        c.Transition(); c.Eval(); c.State(HashEkf(*r.wd.ekf));
        std::string d = r.Check(2e-6);
        if (!d.empty()) {c.Fail("after step " + std::to_string(k) + " " + o.name + ": " + d); break;}
      }
      c.Trace(); c.Sample(key);
    };
  for (auto & cf : cfgs) {
    auto ops = opsOf(cf);
    unsigned n = static_cast<unsigned>(ops.size());
    unsigned d = n > 10 ? depth - 1 : depth;
    R.Parallel(Pow(n, d) * motions.size(), [&](size_t i, mc::Ctx & c) {run(cf, motions[i % motions.size()], ops, Word(i / motions.size(), n, d), d, c);});
    unsigned per = R.thorough ? 3 : 2;
    R.Parallel(Pow(n, per) * motions.size(), [&](size_t i, mc::Ctx & c) {run(cf, motions[i % motions.size()], ops, Word(i / motions.size(), n, per), 16, c);});
  }
  return R.Finish();
}
