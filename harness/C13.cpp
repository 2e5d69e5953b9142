// C13: the stationary / moving behaviour of the IMU updaters.
#include "world.hpp"
using namespace world;

namespace
{
struct Level {const char * n; Vector3d da, dw;};
}

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C13");
  // deviations from the exact at-rest reading, from none to violent
  std::vector<Level> levels = {
    {"still", {0, 0, 0}, {0, 0, 0}}, {"hum", {0.03, -0.02, 0.04}, {0.002, 0.001, -0.003}},
    {"sway", {0.6, -0.4, 0.3}, {0.02, -0.03, 0.01}}, {"jolt", {5, -4, 3}, {0.4, 0.5, -0.3}},
    {"spin", {0.01, 0, 0}, {0.3, -0.8, 0.5}}};
  struct Op13 {std::string n; int imu; int level; double dt;};   // imu -1: GPS, -2: predict
  std::vector<Cfg> cfgs;
  for (int flags = 0; flags < 4; ++flags) {
    for (double chi : {0.02, 1.0, 40.0}) {
      for (double ns : {1.0, 100.0}) {
        for (int two = 0; two < 2; ++two) {
          Cfg c; c.imus = {{4, flags}}; if (two) {c.imus.push_back({2, 3 - flags});}
          c.gpss = {{3, true}}; c.chi = chi; c.noise_scale = ns; c.aug = AugmentationType::NONE;
          c.root = (flags + two) % 2; c.start_gravity = false;
          std::ostringstream o; o << "flags" << flags << (two ? " two" : " one") << " chi" << chi << " scale" << ns << (c.root ? " root" : "");
          c.name = o.str(); cfgs.push_back(c);
        }
      }
    }
  }
  R.rule = "all words of length d over IMU readings of five motion levels (one or two IMUs), GPS messages and predictions, for "
    "every calibration-flag combination, motion threshold and noise scale; in lockstep with the two-phase automaton whose "
    "transitions are the chi-square score of the reading under the current belief; stationary corrections, dead-reckoned "
    "acceleration and rates, gravity initialisation and zero-acceleration mode checked after every message";
  unsigned depth = R.thorough ? 5 : 4;
  R.Bound("configurations", cfgs.size()); R.Bound("depth", depth);
  for (auto & cf : cfgs) {
    std::vector<Op13> ops;
    for (size_t l = 0; l < levels.size(); ++l) {ops.push_back({std::string("i4") + levels[l].n, 4, static_cast<int>(l), 0.125});}
    if (cf.imus.size() > 1) {for (size_t l : {0u, 3u}) {ops.push_back({std::string("i2") + levels[l].n, 2, static_cast<int>(l), 0.0625});}}
    ops.push_back({"i4jolt-late", 4, 3, -0.1875});
    ops.push_back({"gps", -1, 0, 0.25}); ops.push_back({"predict", -2, 0, 0.5});
    unsigned n = static_cast<unsigned>(ops.size());
    R.Parallel(Pow(n, depth), [&](size_t i, mc::Ctx & c) {
        auto w = Word(i, n, depth);
        bool pre = (i / 7) % 2 == 0 || R.thorough;       // with / without predicting to the message time first
        std::string key = cf.name + ":" + (pre ? "" : " direct");
        for (auto x : w) {key += " " + ops[x].n;}
        if (!R.Selected(key)) {return;}
        c.Key(key);
        World a(cf);
        EKF & e = *a.ekf;
        std::map<unsigned, bool> moving;
        bool gravity = false, zero = false;
        const Vector3d g(0, 0, 9.80665);
        for (unsigned k = 0; k < depth; ++k) {
          const Op13 & o = ops[w[k]];
          std::string t = "after step " + std::to_string(k) + " " + o.n + ": ";
          double tm = a.Advance(o.dt), mt = a.MsgTime(tm);
          double t0 = e.GetCurrentTime();   // a late reading is applied at the filter's own time
          c.Transition();
          if (o.imu < 0) {
            Vector3d v0 = e.m_state.body_state.vel_b_in_l, ac = e.m_state.body_state.acc_b_in_l;
            double dt = tm - e.GetCurrentTime();
            if (o.imu == -1) {
              MatrixXd C = MatrixXd::Identity(3, 3) * 0.05;
              a.gps.at(3)->UpdateEKF(e, mt, a.GpsMeas(3, 0, 0), C);
            } else {
              e.PredictModel(tm);
              Vector3d want = gravity && !zero ? Vector3d(v0 + dt * (ac - g)) : v0;
              if (!((e.m_state.body_state.vel_b_in_l - want).norm() < 1e-9)) {c.Fail(t + "prediction does not follow the zero-acceleration mode"); break;}
            }
            if (e.IsGravityInitialized() != gravity) {c.Fail(t + "gravity initialisation changed without an IMU message"); break;}
            continue;
          }
          unsigned id = static_cast<unsigned>(o.imu);
          if (pre) {e.PredictModel(tm);}
          ImuState is = e.m_state.imu_states.at(id);
          BodyState bs = e.m_state.body_state;
          ImuState nominal = Machine::ImuOf(id, 0);
          const Level & lv = levels[static_cast<size_t>(o.level)];
          Vector3d acc = nominal.ang_i_to_b.inverse() * (Truth::Ang(0).inverse() * g) + nominal.acc_bias + lv.da;
          Vector3d gyr = nominal.omg_bias + lv.dw;
          Matrix3d Ra; Ra << 0.02, 0.002, 0, 0.002, 0.015, 0, 0, 0, 0.03;
          Matrix3d Rg = Matrix3d::Identity() * 1e-4;
          // reference score
          bool intr = is.GetIsIntrinsic(), extr = is.GetIsExtrinsic();
          long m = intr ? 6 : 3, N = e.GetStateSize();
          MatrixXd P = FullCov(e);
          MatrixXd H = MatrixXd::Zero(m, N), Rn = MatrixXd::Zero(m, m);
          Matrix3d Ri = is.ang_i_to_b.toRotationMatrix(), Rb = bs.ang_b_to_l.toRotationMatrix();
          H.block<3, 3>(0, 9) = Ri.transpose() * Skew(Rb.transpose() * g);
          if (extr) {H.block<3, 3>(0, is.index + 3) = Skew(Ri.transpose() * Rb.transpose() * g);}
          if (intr) {
            long ix = is.index + (extr ? 6 : 0);
            H.block<3, 3>(0, ix) = Matrix3d::Identity(); H.block<3, 3>(3, ix + 3) = Matrix3d::Identity();
          }
          Rn.topLeftCorner(3, 3) = Ra; if (intr) {Rn.bottomRightCorner(3, 3) = Rg;}
          VectorXd r(m);
          r.head(3) = acc - is.acc_bias - Ri.transpose() * Rb.transpose() * g;
          if (intr) {r.tail(3) = gyr - is.omg_bias;}
          MatrixXd S = H * P * H.transpose() + cf.noise_scale * Rn;
          double score = r.dot(S.ldlt().solve(r));
          if (std::abs(score - cf.chi) < 1e-6 * (1 + cf.chi)) {c.Count("undecided by rounding"); break;}
          bool stationary = !moving[id] && !(score > cf.chi && gravity);
          bool gravity_after = gravity || (!moving[id] && score < cf.chi);
          if (!stationary) {moving[id] = true;}
          c.Count(stationary ? "stationary messages" : "moving messages");
          State expect = e.m_state; MatrixXd Pe = P;
          bool precise = pre && gravity_after == gravity;    // otherwise a prediction happens inside
          if (pre) {precise = true;}
          if (stationary) {
            MatrixXd K = P * H.transpose() * (H * P * H.transpose() + Rn).inverse();
            VectorXd dx = K * r;
            expect += dx;
            MatrixXd IKH = MatrixXd::Identity(N, N) - K * H;
            Pe = IKH * P * IKH.transpose() + K * Rn * K.transpose();
            expect.body_state.acc_b_in_l = g;
            expect.body_state.ang_vel_b_in_l.setZero(); expect.body_state.ang_acc_b_in_l.setZero();
          } else if (e.m_state.imu_states.size() == 1) {
            expect.body_state.acc_b_in_l = Rb * Ri * (acc - is.acc_bias);
            expect.body_state.ang_vel_b_in_l = Rb * Ri * (gyr - is.omg_bias);
            expect.body_state.ang_acc_b_in_l.setZero();
          } else {
            precise = false;
          }
          a.imu.at(id)->UpdateEKF(e, mt, acc, Ra, gyr, Rg);
          c.State(mc::Hash().m(e.m_state.ToVector()).d(e.GetCurrentTime()).u(gravity_after).u(moving[id]).h);
          gravity = gravity_after; zero = stationary;
          if (e.IsGravityInitialized() != gravity) {
            std::ostringstream s; s << t << "gravity " << (gravity ? "not initialised" : "initialised") << " at score " << score; c.Fail(s.str()); break;
          }
          if (e.GetCurrentTime() != std::max(tm, t0)) {c.Fail(t + "filter time is not the message time"); break;}
          auto & b = e.m_state.body_state;
          if (stationary) {
            bool ok = (b.acc_b_in_l - g).norm() < 1e-12 && b.ang_vel_b_in_l.norm() == 0 && b.ang_acc_b_in_l.norm() == 0;
            if (!ok) {
              std::ostringstream s; s << t << "body not held at rest at score " << score; c.Fail(s.str()); break;
            }
          } else if (e.m_state.imu_states.size() == 1) {
            bool ok = (b.acc_b_in_l - expect.body_state.acc_b_in_l).norm() < 1e-9 && (b.ang_vel_b_in_l - expect.body_state.ang_vel_b_in_l).norm() < 1e-9;
            if (!ok) {std::ostringstream s; s << t << "reading not adopted as body motion at score " << score; c.Fail(s.str()); break;}
          }
          if (precise) {
            c.Eval();
            VectorXd d = e.m_state.ToVector() - expect.ToVector();
            // compare rotations by distance, everything else by value
            double rot = AngDist(b.ang_b_to_l, expect.body_state.ang_b_to_l);
            d.segment<3>(9).setZero();
            if (e.m_state.imu_states.at(id).GetIsExtrinsic()) {
              rot = std::max(rot, AngDist(e.m_state.imu_states.at(id).ang_i_to_b, expect.imu_states.at(id).ang_i_to_b));
              d.segment<3>(is.index + 3).setZero();
            }
            if (!(rot < 1e-6) || !(d.norm() < 1e-6)) {
              std::ostringstream s; s << t << (stationary ? "stationary correction" : "moving state") << " off by " << d.norm() << ", " << rot << " rad"; c.Fail(s.str()); break;
            }
            MatrixXd Q = FullCov(e);
            if (!((Q - Pe).cwiseAbs().maxCoeff() <= 1e-6 * Pe.cwiseAbs().maxCoeff())) {
              std::ostringstream s; s << t << "covariance off by " << (Q - Pe).cwiseAbs().maxCoeff(); c.Fail(s.str()); break;
            }
          }
        }
        c.Trace(); c.Sample(key);
      });
  }
  return R.Finish();
}
