// Lockstep of a real world with a twin whose corrections are the reference ones.
#ifndef LOCKSTEP_HPP_
#define LOCKSTEP_HPP_
#include "meas.hpp"
namespace meas
{
struct MOp {std::string name; char k; unsigned id{0}; double dt{0}; int var{0}; unsigned cam{0}; double px{0.5}; bool truth{true}; unsigned feats{3};};

struct Lockstep
{
  World a, b;
  bool fej;
  Frozen fz;
  int last_used{0};
  explicit Lockstep(const Cfg & c)
  : a(c), b(c), fej(c.fej)
  {
    // every IMU leaves its rest phase
    if (c.start_gravity) {
      for (auto & x : c.imus) {
        WOp o{"jolt", 'i', x.first, 0.0625, 2};
        a.Apply(o); b.Apply(o);
      }
      // and the belief starts near the truth again
      auto & s = a.ekf->m_state.body_state;
      double t = a.now, h = 1e-4;
      s.pos_b_in_l = Truth::Pos(t) + Vector3d(0.03, -0.02, 0.04);
      s.vel_b_in_l = (Truth::Pos(t + h) - Truth::Pos(t - h)) / (2 * h) + Vector3d(0.02, 0.03, -0.01);
      s.acc_b_in_l = Truth::Acc(t) + Vector3d(0, 0, 9.80665);
      s.ang_b_to_l = Truth::Ang(t) * Exp(Vector3d(0.02, -0.015, 0.03));
      s.ang_vel_b_in_l = Truth::Omega(t); s.ang_acc_b_in_l = Vector3d(0.05, -0.08, 0.04);
      Sync();
    }
  }
  void Sync() {b.ekf->m_state = a.ekf->m_state; b.ekf->m_cov = a.ekf->m_cov;}
  FeatureTracks Tracks(World & w, const MOp & o)
  {
    FeatureTracks t = w.Tracks(o.id, o.feats);
    for (size_t j = 0; j < t.size(); ++j) {
      if (!o.truth) {t[j].true_feature_position = Vector3d::Constant(std::nan(""));}
      // tracks of different lengths
      size_t drop = j % 3;
      while (drop-- > 0 && t[j].track.size() > 2) {t[j].track.erase(t[j].track.begin());}
    }
    return t;
  }
  // false: not decided
  bool Apply(const MOp & o)
  {
    double t = a.Advance(o.dt); b.Advance(o.dt);
    double mt = a.MsgTime(t);
    Frozen * z = fej ? &fz : nullptr;
    EKF & r = *b.ekf;
    last_used = 1;
    switch (o.k) {
      case 'p': a.ekf->PredictModel(a.ekf->CalculateLocalTime(mt)); r.PredictModel(r.CalculateLocalTime(mt)); break;
      case 'g': {
          MatrixXd C(3, 3); C << 0.04, 0.01, 0, 0.01, 0.05, 0.005, 0, 0.005, 0.09;
          Vector3d lla = a.GpsMeas(o.id, t, o.var);
          a.gps.at(o.id)->UpdateEKF(*a.ekf, mt, lla, C);
          r.PredictModel(r.CalculateLocalTime(mt));
          Gps(r, o.id, lla, C, z);
        }
        break;
      case 'f': {
          BoardDetection d = a.FidMeas(o.id, o.cam, t);
          if (o.var) {d.pos_error *= 20; d.ang_error *= 5; d.pos_f_in_c += Vector3d(0.05, -0.03, 0.06); d.ang_f_to_c = d.ang_f_to_c * Exp(Vector3d(-0.03, 0.02, 0.05));}
          a.fid.at({o.id, o.cam})->UpdateEKF(*a.ekf, mt, d);
          r.PredictModel(r.CalculateLocalTime(mt));
          Fid(r, o.id, o.cam, d, z);
        }
        break;
      case 'i': {
          Vector3d acc, gyr; a.ImuMeas(o.id, t, o.var, acc, gyr);
          Matrix3d ca, cw; ca << 0.02, 0.004, 0, 0.004, 0.03, 0.002, 0, 0.002, 0.01; cw = ca * 0.01;
          a.imu.at(o.id)->UpdateEKF(*a.ekf, mt, acc, ca, gyr, cw);
          double lt = r.CalculateLocalTime(mt);
          r.SetZeroAcceleration(false);
          if (a.cfg.imus.size() > 1) {
            VectorXd y(6); y << acc, gyr;
            MatrixXd Rn = MatrixXd::Zero(6, 6); Rn.topLeftCorner(3, 3) = ca; Rn.bottomRightCorner(3, 3) = cw;
            Imu(r, o.id, y, Rn);
          } else {
            auto & s = r.m_state; Quaterniond q = s.body_state.ang_b_to_l * s.imu_states[o.id].ang_i_to_b;
            s.body_state.acc_b_in_l = q * (acc - s.imu_states[o.id].acc_bias);
            s.body_state.ang_vel_b_in_l = q * (gyr - s.imu_states[o.id].omg_bias);
            s.body_state.ang_acc_b_in_l.setZero();
          }
          r.PredictModel(lt);
        }
        break;
      case 'v': {
          for (World * w : {&a, &b}) {
            w->ekf->PredictModel(w->ekf->CalculateLocalTime(mt));
            ++w->frame;
            w->ekf->AugmentStateIfNeeded(o.id, w->frame);
            auto & fr = w->frames[o.id];
            fr.push_back({w->frame, w->ekf->GetCurrentTime()});
            while (fr.size() > w->cfg.window) {fr.erase(fr.begin());}
          }
          FeatureTracks tr = Tracks(a, o);
          a.msckf.at(o.id)->UpdateEKF(*a.ekf, mt, tr, o.px);
          r.PredictModel(r.CalculateLocalTime(mt));
          last_used = Features(r, o.id, tr, o.px, 0.5, 100.0, z);
          if (last_used < 0) {return false;}
        }
        break;
    }
    return true;
  }
  std::string Compare(double tol)
  {
    std::string d = DiffParams(Params(*a.ekf), Params(*b.ekf), tol);
    if (!d.empty()) {return d + " (estimate vs optimal correction)";}
    MatrixXd P = FullCov(*a.ekf), Q = FullCov(*b.ekf);
    if (P.rows() != Q.rows()) {return "covariance size differs";}
    // relative to the standard deviations
    for (int i = 0; i < P.rows(); ++i) {
      for (int j = 0; j <= i; ++j) {
        double s = std::sqrt(Q(i, i) * Q(j, j)) + 1e-12;
        if (!(std::abs(P(i, j) - Q(i, j)) <= 20 * tol * s)) {
          std::ostringstream o; o << "covariance (" << i << "," << j << ") " << P(i, j) << " instead of " << Q(i, j); return o.str();
        }
      }
    }
    return "";
  }
};

inline std::vector<Cfg> MeasConfigs()
{
  std::vector<Cfg> r;
  auto add = [&](Cfg c, const std::string & n) {c.name = n; c.start_gravity = true; r.push_back(c);};
  Cfg a; a.imus = {{4, 3}}; a.gpss = {{3, true}}; a.cams = {{8, true}}; a.fids = {{6, true}};
  add(a, "all-calibrated");
  Cfg b; b.imus = {{4, 1}, {2, 2}}; b.gpss = {{3, false}, {1, true}}; b.cams = {{8, true}, {5, false}}; b.fids = {{6, false}, {9, true}};
  b.aug = AugmentationType::PRIMARY;
  add(b, "two-of-each-primary");
  Cfg c; c.imus = {{4, 3}, {2, 3}, {7, 0}}; c.gpss = {{3, true}}; c.cams = {{8, false}}; c.fids = {{6, true}};
  c.aug = AugmentationType::TIME;
  add(c, "three-imus-time");
  Cfg d; d.imus = {{4, 2}, {2, 1}}; d.gpss = {{3, true}}; d.cams = {{8, true}, {5, true}}; d.fids = {{6, true}, {9, false}};
  d.aug = AugmentationType::ERROR;
  add(d, "two-cams-error");
  Cfg e; e.imus = {{4, 0}}; e.gpss = {{3, false}}; e.cams = {{8, false}, {5, true}}; e.fids = {{6, false}};
  e.aug = AugmentationType::ALL; e.window = 6;
  add(e, "two-cams-all");
  Cfg f; f.imus = {{4, 3}, {2, 3}}; f.gpss = {{3, true}}; f.cams = {{8, true}}; f.fids = {{6, true}}; f.prior = 1.0; f.window = 10;
  add(f, "loose");
  return r;
}
inline std::vector<MOp> MeasOps(const Cfg & c)
{
  std::vector<MOp> r;
  for (auto & x : c.imus) {r.push_back({"i" + std::to_string(x.first), 'i', x.first, 0.125, 1});}
  for (auto & x : c.gpss) {r.push_back({"gps" + std::to_string(x.first), 'g', x.first, 0.25, 0});}
  r.push_back({"gps-stale", 'g', c.gpss[0].first, -0.125, 1});
  for (auto & x : c.fids) {
    for (auto & k : c.cams) {r.push_back({"fid" + std::to_string(x.first) + "@" + std::to_string(k.first), 'f', x.first, 0.125, static_cast<int>(k.first) % 2, k.first});}
  }
  for (auto & x : c.cams) {
    r.push_back({"cam" + std::to_string(x.first), 'v', x.first, 0.25, 0, 0, 0.5, true, 3});
    r.push_back({"cam" + std::to_string(x.first) + "-unknown", 'v', x.first, 0.1875, 0, 0, 2.0, false, x.first == 8 ? 1u : 4u});
  }
  r.push_back({"predict", 'p', 0, 0.5, 0});
  return r;
}
}  // namespace meas
#endif
