#include <set>
// C25: the simulated truth is consistent, and the truth logs record it.
#include "mc.hpp"
#include <opencv2/opencv.hpp>
#include "infrastructure/sim/truth_engine_cyclic.hpp"
#include "infrastructure/sim/truth_engine_smoother.hpp"
#include "infrastructure/sim/truth_engine_spline.hpp"
#include "ekf/constants.hpp"
#include "utility/type_helper.hpp"

namespace
{
using V3 = Eigen::Vector3d; using Q = Eigen::Quaterniond; using Vs = std::vector<double>;
std::shared_ptr<DebugLogger> Log() {static auto l = std::make_shared<DebugLogger>(LogLevel::FATAL, ""); return l;}
std::string S(const V3 & v) {std::ostringstream o; o << v.transpose(); return o.str();}
// central differences of fourth order
template<class F> V3 Diff(F f, double t, double h) {return (8.0 * (f(t + h) - f(t - h)) - (f(t + 2 * h) - f(t - 2 * h))) / (12.0 * h);}
// body rate: rotation vector of q(t)^-1 q(t + s) as a function of s
template<class F> V3 Rate(F q, double t, double h)
{
  Q q0 = q(t).normalized();
  auto r = [&](double s) {
      Q d = q0.conjugate() * q(t + s).normalized();
      if (d.w() < 0) {d.coeffs() *= -1;}
      double n = d.vec().norm();
      return n < 1e-300 ? V3(V3::Zero()) : V3(d.vec() / n * 2 * std::atan2(n, d.w()));
    };
  return Diff(r, 0.0, h);
}
V3 Euler(const Q & q)   // ZYX angles, pitch within +-90 deg
{
  Eigen::Matrix3d r = q.normalized().toRotationMatrix();
  return {std::atan2(r(2, 1), r(2, 2)), std::asin(std::max(-1.0, std::min(1.0, -r(2, 0)))), std::atan2(r(1, 0), r(0, 0))};
}
bool Near(const V3 & a, const V3 & b, double tol) {return ((a - b).array().abs() <= tol * (1.0 + b.norm())).all();}
double Ang(const Q & a, const Q & b) {return a.normalized().angularDistance(b.normalized());}
std::vector<std::vector<std::string>> Csv(const std::string & f)
{
  std::vector<std::vector<std::string>> rows; std::ifstream i(f); std::string l;
  while (std::getline(i, l)) {std::vector<std::string> r; std::stringstream s(l); std::string c; while (std::getline(s, c, ',')) {r.push_back(c);} rows.push_back(r);}
  return rows;
}
}  // namespace

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C25");
  R.rule = "every truth engine over a grid of parameters, evaluated on a grid of times covering rest, start, motion and end: "
    "velocities, accelerations and body rates against differentiated positions and orientations; setter words; every subset "
    "of registered sensors written to the truth logs, which are parsed and compared with the engine";
  R.assumptions = {"derivatives are compared with fourth-order central differences (relative tolerance 1e-5)", "spline and smoother angles keep the pitch within 90 degrees"};
  // ---------------------------------------------------------------- cyclic
  struct Cyc {V3 pf, af, po, ao; double pa, aa, st; bool set;};
  std::vector<Cyc> cyc;
  {
    std::vector<V3> fr{{0, 0, 0}, {1, 0, 0}, {0, 0.5, 0}, {0, 0, 0.7}, {0.3, 0.6, 0.9}, {1.5, -0.4, 0.2}};
    if (R.thorough) {fr.push_back({0.1, 2.5, 1.1}); fr.push_back({0.8, 0.8, 0}); fr.push_back({0, 0.3, 1.7});}
    std::vector<std::pair<V3, V3>> of{{{0, 0, 0}, {0, 0, 0}}, {{1, -2, 0.5}, {0.3, -0.4, 2.0}}};
    if (R.thorough) {of.push_back({{-7, 30, 2}, {-2.5, 0.9, -3.0}}); of.push_back({{0, 0, 1}, {0, 1.2, 0}});}
    std::vector<std::pair<double, double>> am{{1.0, 0.1}, {2.0, 1.3}};
    if (R.thorough) {am.push_back({0.0, 0.7}); am.push_back({10.0, 3.0}); am.push_back({-1.0, -0.6});}
    std::vector<double> st{0.0, 1.5};
    if (R.thorough) {st.push_back(-1.0); st.push_back(4.25);}
    for (auto & a : fr) {for (auto & b : fr) {for (auto & o : of) {for (auto & m : am) {for (double s : st) {for (bool x : {false, true}) {
      cyc.push_back({a, b, o.first, o.second, m.first, m.second, s, x});
    }}}}}}
  }
  R.Bound("cyclic engines", cyc.size());
  R.Parallel(cyc.size(), [&](size_t i, mc::Ctx & c) {
      const Cyc & p = cyc[i];
      std::ostringstream k; k << "cyclic pos " << S(p.pf) << " ang " << S(p.af) << " offsets " << S(p.po) << ", " << S(p.ao) << " amplitudes " << p.pa << " " << p.aa << " rest " << p.st << (p.set ? " by setters" : "");
      if (!R.Selected(k.str())) {return;}
      c.Key(k.str());
      V3 other(0.11, 0.77, 1.3);
      TruthEngineCyclic e(p.set ? other : p.pf, p.set ? V3(-other) : p.af, p.po, p.ao, p.pa, p.aa, p.st, 6.0, Log());
      if (p.set) {e.GetBodyPosition(2.0); e.SetBodyPosCycleFrequency(p.pf); e.SetBodyAngCycleFrequency(p.af);}
      auto pos = [&](double t) {return e.GetBodyPosition(t);}; auto vel = [&](double t) {return e.GetBodyVelocity(t);};
      auto ori = [&](double t) {return e.GetBodyAngularPosition(t);}; auto omg = [&](double t) {return e.GetBodyAngularRate(t);};
      const double h = 1e-3;
      unsigned n = c.thorough ? 240 : 60;
      for (unsigned j = 0; j <= n; ++j) {
        double t = -2.0 + 9.0 * j / n + 0.0037;
        if (std::abs(t - p.st) < 3 * h) {continue;}
        std::string a = "t " + std::to_string(t) + ": ";
        c.Transition(); c.Eval(6); c.State(mc::Hash().u(i).u(j).h);
        V3 x = pos(t), v = vel(t), ac = e.GetBodyAcceleration(t), w = omg(t), al = e.GetBodyAngularAcceleration(t); Q q = ori(t);
        if (std::abs(q.norm() - 1) > 1e-9) {c.Fail(a + "orientation is not a unit quaternion"); return;}
        V3 rpy = e.GetBodyRollPitchYaw(t);
        if (Ang(q, Q(Eigen::AngleAxisd(rpy.z(), V3::UnitZ()) * Eigen::AngleAxisd(rpy.y(), V3::UnitY()) * Eigen::AngleAxisd(rpy.x(), V3::UnitX()))) > 1e-7) {c.Fail(a + "orientation is not that of the roll, pitch and yaw"); return;}
        if (t < p.st) {
          if (!v.isZero(0) || !ac.isZero(0) || !w.isZero(0) || !al.isZero(0)) {c.Fail(a + "moving before the stationary time"); return;}
          if (!Near(x, pos(p.st), 1e-12) || Ang(q, ori(p.st)) > 1e-9) {c.Fail(a + "rest pose is not the start of the motion"); return;}
          if (!Near(x, p.po, 1e-12)) {c.Fail(a + "rest position is not the offset"); return;}
          continue;
        }
        // one-axis cycles: between the offset and offset + amplitude, back at the offset after each period
        double s = t - p.st;
        for (int d = 0; d < 3; ++d) {
          double want = p.po[d] + p.pa / 2 * (1 - std::cos(2 * M_PI * p.pf[d] * s)), wa = p.ao[d] + p.aa / 2 * (1 - std::cos(2 * M_PI * p.af[d] * s));
          if (!(std::abs(x[d] - want) < 1e-9 * (1 + std::abs(want)))) {c.Fail(a + "position " + S(x) + " on axis " + std::to_string(d) + " instead of " + std::to_string(want)); return;}
          if (!(std::abs(rpy[d] - wa) < 1e-9)) {c.Fail(a + "angle on axis " + std::to_string(d)); return;}
        }
        if (!Near(v, Diff(pos, t, h), 1e-5)) {c.Fail(a + "velocity " + S(v) + " is not the derivative of the position " + S(Diff(pos, t, h))); return;}
        if (!Near(ac, Diff(vel, t, h), 1e-5)) {c.Fail(a + "acceleration " + S(ac) + " is not the derivative of the velocity " + S(Diff(vel, t, h))); return;}
        V3 wn = Rate(ori, t, h);
        if (!Near(w, wn, 1e-5)) {c.Fail(a + "angular rate " + S(w) + " is not that of the orientation " + S(wn)); return;}
        V3 an = Diff(omg, t, h);
        if (!Near(al, an, 1e-5)) {c.Fail(a + "angular acceleration " + S(al) + " is not the derivative of the rate " + S(an)); return;}
      }
      c.Trace(); if (i % 97 == 0) {c.Sample(k.str());}
    });
  // ---------------------------------------------------------------- spline
  struct Spl {Vs p, a; double st, mt;};
  std::vector<Spl> spl;
  {
    const std::vector<V3> pts{{0, 0, 0}, {1, 0.5, -0.3}, {-0.8, 1, 0.4}, {2, 2, 2}};
    const std::vector<V3> ang{{0, 0, 0}, {0.3, 0, 0}, {-0.2, 0.5, 0.4}, {0.1, -0.6, 1.2}};
    // all waypoint words of length 2..L over four points, repeats included
    unsigned L = R.thorough ? 5 : 4;
    std::vector<std::vector<unsigned>> words{{}};
    for (size_t b = 0; b < words.size(); ++b) {
      if (words[b].size() >= L) {break;}
      for (unsigned k = 0; k < 4; ++k) {auto w = words[b]; w.push_back(k); words.push_back(w);}
    }
    size_t n = 0;
    for (auto & w : words) {
      if (w.size() < 2) {continue;}
      Spl s;
      for (size_t j = 0; j < w.size(); ++j) {
        const V3 & p = pts[w[j]]; const V3 & a = ang[w[w.size() - 1 - j]];
        for (int d = 0; d < 3; ++d) {s.p.push_back(p[d] + 0.25); s.a.push_back(a[d] + 0.05);}
      }
      s.st = (n % 2) ? 1.0 : 0.0; s.mt = (n % 3) ? 5.0 : 3.0; ++n;
      if (n % 7 == 3) {s.p.resize(s.p.size() + 3, 9.0);}   // more positions than angles: the shorter list counts
      spl.push_back(s);
    }
  }
  R.Bound("spline waypoint words", spl.size());
  R.Parallel(spl.size(), [&](size_t i, mc::Ctx & c) {
      const Spl & p = spl[i];
      std::ostringstream k; k << "spline";
      for (size_t j = 0; j < p.p.size(); j += 3) {k << " (" << p.p[j] << " " << p.p[j + 1] << " " << p.p[j + 2] << ")";}
      k << " rest " << p.st << " end " << p.mt;
      if (!R.Selected(k.str())) {return;}
      c.Key(k.str());
      Vs z{0, 0, 0};
      TruthEngineSpline e(p.p, p.a, z, z, p.st, p.mt, Log());
      auto pos = [&](double t) {return e.GetBodyPosition(t);}; auto vel = [&](double t) {return e.GetBodyVelocity(t);};
      auto ori = [&](double t) {return e.GetBodyAngularPosition(t);};
      auto eul = [&](double t) {return Euler(e.GetBodyAngularPosition(t));};
      size_t n = p.a.size() / 3;
      auto wp = [&](const Vs & l, size_t j) {return V3(l[3 * j], l[3 * j + 1], l[3 * j + 2]);};
      auto wq = [&](size_t j) {V3 a = wp(p.a, j); return Q(Eigen::AngleAxisd(a.z(), V3::UnitZ()) * Eigen::AngleAxisd(a.y(), V3::UnitY()) * Eigen::AngleAxisd(a.x(), V3::UnitX()));};
      // rest, start and end
      for (double t : {-1.0, p.st - 0.5, p.st - 1e-3, p.st}) {
        if (!Near(pos(t), wp(p.p, 0), 1e-9) || Ang(ori(t), wq(0)) > 1e-7) {c.Fail("rest pose is not the first waypoint at " + std::to_string(t)); return;}
        if (t < p.st && (!vel(t).isZero(0) || !e.GetBodyAcceleration(t).isZero(0) || !e.GetBodyAngularRate(t).isZero(0) || !e.GetBodyAngularAcceleration(t).isZero(0))) {c.Fail("moving before the stationary time"); return;}
      }
      if (!vel(p.st).isZero(1e-9)) {c.Fail("motion does not start from rest"); return;}
      if (!Near(pos(p.mt), wp(p.p, n - 1), 1e-9) || Ang(ori(p.mt), wq(n - 1)) > 1e-7) {c.Fail("last waypoint is not reached at the maximum time: " + S(pos(p.mt))); return;}
      // all waypoints, in order
      unsigned m = 2000; double T = p.mt - p.st;
      auto order = [&](const std::function<double(double, size_t)> & dist) {
          double from = p.st;
          for (size_t j = 0; j < n; ++j) {
            bool found = false;
            double step = T / m;
            for (double t = from; t <= p.mt + 1e-12 && !found; t += step) {
              double lo = std::max(p.st, t - step), hi = std::min(p.mt, t + step);
              double d0 = dist(std::min(t, p.mt), j);
              if (d0 > 0.05) {continue;}
              for (int it = 0; it < 60; ++it) {double a = lo + (hi - lo) / 3, b = hi - (hi - lo) / 3; (dist(a, j) < dist(b, j) ? hi : lo) = dist(a, j) < dist(b, j) ? b : a;}
              double best = (lo + hi) / 2;
              if (dist(best, j) < 1e-6 || d0 < 1e-6) {found = true; from = std::max(from, best - 1e-9);}
            }
            if (!found) {return j;}
          }
          return n;
        };
      size_t r1 = order([&](double t, size_t j) {return (pos(t) - wp(p.p, j)).norm();});
      if (r1 < n) {c.Fail("position " + std::to_string(r1) + " is not passed in order"); return;}
      size_t r2 = order([&](double t, size_t j) {return (eul(t) - wp(p.a, j)).norm();});
      if (r2 < n) {c.Fail("orientation " + std::to_string(r2) + " is not passed in order"); return;}
      // derivatives; the spline is quadratic, so its second derivative jumps at knots:
      // only times where the two one-sided differences agree are compared
      const double h = 1e-4; bool euler_rates = false, euler_accs = false;
      unsigned nt = c.thorough ? 400 : 80;
      for (unsigned j = 0; j < nt; ++j) {
        double t = p.st + T * (j + 0.5) / nt + 1.7e-4;
        if (t + 3 * h > p.mt || t - 3 * h < p.st) {continue;}
        std::string a = "t " + std::to_string(t) + ": ";
        c.Transition(); c.Eval(6); c.State(mc::Hash().u(i).u(j).u(2).h);
        V3 v = vel(t), ac = e.GetBodyAcceleration(t);
        if (!Near(v, Diff(pos, t, h), 1e-4)) {c.Fail(a + "velocity " + S(v) + " is not the derivative of the position " + S(Diff(pos, t, h))); return;}
        V3 l = (vel(t) - vel(t - 2 * h)) / (2 * h), r = (vel(t + 2 * h) - vel(t)) / (2 * h);
        if (Near(l, r, 1e-3)) {
          c.Count("acceleration comparisons");
          if (!Near(ac, 0.5 * (l + r), 1e-3)) {c.Fail(a + "acceleration " + S(ac) + " is not the derivative of the velocity " + S(0.5 * (l + r))); return;}
        } else {c.Count("acceleration jumps");}
        V3 w = e.GetBodyAngularRate(t), al = e.GetBodyAngularAcceleration(t), wn = Rate(ori, t, h), de = Diff(eul, t, h);
        if (!Near(w, wn, 1e-4)) {
          if (!Near(w, de, 1e-4)) {c.Fail(a + "angular rate " + S(w) + " is neither that of the orientation " + S(wn) + " nor that of the angles " + S(de)); return;}
          euler_rates = true;
        }
        auto omg = [&](double x) {return e.GetBodyAngularRate(x);};
        l = (omg(t) - omg(t - 2 * h)) / (2 * h); r = (omg(t + 2 * h) - omg(t)) / (2 * h);
        if (Near(l, r, 1e-3) && !Near(al, 0.5 * (l + r), 1e-3)) {euler_accs = true; c.Fail(a + "angular acceleration " + S(al) + " is not the derivative of the rate " + S(0.5 * (l + r))); return;}
      }
      if (euler_rates) {
        c.Count("splines with Euler-angle rates");
        std::string keep = c.cur_key; c.Key("spline Euler rates"); c.Fail("angular rate is the derivative of the Euler angles, not the body rate (first at " + keep + ")"); c.Key(keep);
      }
      c.Trace(); if (i % 37 == 0) {c.Sample(k.str());}
    });
  // ---------------------------------------------------------------- spline/smoother errors: seeds
  {
    size_t n = R.thorough ? 60 : 12;
    R.Bound("seeds", n);
    R.Parallel(n, [&](size_t i, mc::Ctx & c) {
        std::string key = "seed " + std::to_string(i);
        if (!R.Selected(key)) {return;}
        c.Key(key);
        Vs p, a, t; for (int j = 0; j < 15; ++j) {p.push_back(std::sin(j * 1.3)); a.push_back(0.3 * std::cos(j * 0.7));} for (int j = 0; j < 5; ++j) {t.push_back(j);}
        auto run = [&](unsigned seed, const Vs & er) {
            SimRNG::SetSeed(seed);
            TruthEngineSpline s(p, a, er, er, 0.5, 4.0, Log());
            TruthEngineSmoother m(t, p, a, er, er, 0.0, 4.0, 10.0, Log());
            std::vector<double> o;
            for (double x = 0; x < 4; x += 0.25) {for (auto & v : {s.GetBodyPosition(x), V3(s.GetBodyAngularPosition(x).vec()), m.GetBodyPosition(x), V3(m.GetBodyAngularPosition(x).vec())}) {o.push_back(v[0]); o.push_back(v[1]); o.push_back(v[2]);}}
            return o;
          };
        unsigned sd = static_cast<unsigned>(i);
        auto a1 = run(sd, {0.1, 0.2, 0.3}), a2 = run(sd, {0.1, 0.2, 0.3}), b = run(sd + 1000, {0.1, 0.2, 0.3}), z1 = run(sd, {0, 0, 0}), z2 = run(sd + 1, {0, 0, 0});
        c.Transition(5); c.Eval(5); c.State(mc::Hash().u(i).u(3).d(a1[40]).h);
        if (a1 != a2) {c.Fail("the same seed gives another truth"); return;}
        if (a1 == b) {c.Fail("another seed gives the same truth"); return;}
        if (z1 != z2) {c.Fail("the seed matters without errors"); return;}
        for (int d = 0; d < 3; ++d) {if (std::abs(a1[d] - p[d]) > 1e-12) {c.Fail("the first waypoint is perturbed"); return;}}
        if (std::abs(a1[180] - z1[180]) < 1e-9) {c.Fail("errors do not perturb the waypoints"); return;}
        // each waypoint but the first is off by its own draw, on each axis by that axis's deviation
        const V3 pe(0.1, 0, 0.02), ae(0, 0.03, 0.01);
        auto vs = [](const V3 & v) {return Vs{v[0], v[1], v[2]};};
        auto wp = [&](const Vs & l, size_t j) {return V3(l[3 * j], l[3 * j + 1], l[3 * j + 2]);};
        std::set<double> draws; size_t nd = 0;
        auto off = [&](const std::string & n, const V3 & got, const V3 & want, const V3 & dev) {
            for (int d = 0; d < 3; ++d) {
              double e = got[d] - want[d];
              if (dev[d] == 0.0 ? std::abs(e) > 1e-7 : (std::abs(e) > 8 * dev[d] || std::abs(e) < 1e-7 * dev[d])) {
                c.Fail(n + " axis " + std::to_string(d) + " is off by " + std::to_string(e) + " with deviation " + std::to_string(dev[d])); return false;
              }
              if (dev[d] > 0) {draws.insert(std::round(e / dev[d] * 1e4)); ++nd;}
            }
            return true;
          };
        SimRNG::SetSeed(sd);
        TruthEngineSpline s(p, a, vs(pe), vs(ae), 0.5, 4.0, Log());
        if (!off("first waypoint of the spline", s.GetBodyPosition(0.2), wp(p, 0), V3::Zero()) || !off("first angles of the spline", Euler(s.GetBodyAngularPosition(0.2)), wp(a, 0), V3::Zero()) ||
          !off("last waypoint of the spline", s.GetBodyPosition(4.0), wp(p, 4), pe) || !off("last angles of the spline", Euler(s.GetBodyAngularPosition(4.0)), wp(a, 4), ae)) {return;}
        Vs ts{-0.5, 0.5, 1.5, 2.5, 3.5};
        TruthEngineSmoother m(ts, p, a, vs(pe), vs(ae), 0.0, 4.0, 10.0, Log());
        auto ang = [&](double x) {return Euler(m.GetBodyAngularPosition(x));};
        for (size_t j = 1; j < 4; ++j) {
          if (!off("waypoint " + std::to_string(j) + " of the smoother", m.GetBodyPosition(ts[j]), wp(p, j), pe) || !off("angles " + std::to_string(j) + " of the smoother", ang(ts[j]), wp(a, j), ae)) {return;}
        }
        if (!off("first waypoint of the smoother", 2 * m.GetBodyPosition(0.0) - m.GetBodyPosition(0.5), wp(p, 0), V3::Zero()) || !off("first angles of the smoother", 2 * ang(0.0) - ang(0.5), wp(a, 0), V3::Zero())) {return;}
        if (draws.size() < nd - 1) {c.Fail("waypoints share their errors"); return;}
        c.Trace();
      });
  }
  // ---------------------------------------------------------------- smoother
  struct Smo {Vs t, p, a; double rate, mt, st;};
  std::vector<Smo> smo;
  {
    std::vector<double> rates{10.0, 20.0, 3.0}; if (R.thorough) {rates.push_back(50.0); rates.push_back(7.5); rates.push_back(1.0);}
    for (double rate : rates) {
      for (double mt : R.thorough ? Vs{2.0, 3.0, 4.5, 6.0, 7.3, 12.0} : Vs{2.0, 6.0, 7.3}) {
        for (double st : R.thorough ? Vs{0.0, 1.0, 2.5} : Vs{0.0, 1.0}) {
          for (double gap : R.thorough ? Vs{0.5, 1.0, 1.3, 2.0} : Vs{1.0, 1.3}) {
            for (double t0 : {0.0, -1.0, 1.5}) {
              for (unsigned n : {2u, 4u, 7u}) {
                Smo s; s.rate = rate; s.mt = mt; s.st = st;
                for (unsigned j = 0; j < n; ++j) {
                  s.t.push_back(t0 + gap * j * (j % 2 ? 1.0 : 1.1));
                  for (int d = 0; d < 3; ++d) {s.p.push_back(std::sin(1.0 + j * 1.7 + d)); s.a.push_back(0.5 * std::cos(j * 0.9 + 2 * d));}
                }
                std::sort(s.t.begin(), s.t.end());
                smo.push_back(s);
              }
            }
          }
        }
      }
    }
  }
  R.Bound("smoothed trajectories", smo.size());
  R.Parallel(smo.size(), [&](size_t i, mc::Ctx & c) {
      const Smo & p = smo[i];
      std::ostringstream k; k << "smoother rate " << p.rate << " end " << p.mt << " rest " << p.st << " times"; for (double t : p.t) {k << " " << t;}
      if (!R.Selected(k.str())) {return;}
      c.Key(k.str());
      Vs z{0, 0, 0};
      TruthEngineSmoother e(p.t, p.p, p.a, z, z, p.st, p.mt, p.rate, Log());
      auto lin = [&](const Vs & l, double t) {   // piecewise linear through the waypoints
          size_t j = 0; while (j + 2 < p.t.size() && t > p.t[j + 1]) {++j;}
          double a = (t - p.t[j]) / (p.t[j + 1] - p.t[j]);
          return V3((1 - a) * V3(l[3 * j], l[3 * j + 1], l[3 * j + 2]) + a * V3(l[3 * j + 3], l[3 * j + 4], l[3 * j + 5]));
        };
      double dt = 1 / p.rate;
      unsigned nt = c.thorough ? 300 : 100;
      bool euler_rates = false;
      for (unsigned j = 0; j <= nt; ++j) {
        double t = -1.0 + (p.mt + p.st + 4.0) * j / nt;
        std::string a = "t " + std::to_string(t) + ": ";
        c.Transition(); c.Eval(6); c.State(mc::Hash().u(i).u(j).u(4).h);
        V3 x = e.GetBodyPosition(t), v = e.GetBodyVelocity(t), ac = e.GetBodyAcceleration(t), w = e.GetBodyAngularRate(t), al = e.GetBodyAngularAcceleration(t); Q q = e.GetBodyAngularPosition(t);
        if (!x.allFinite() || !v.allFinite() || !ac.allFinite() || !w.allFinite() || !al.allFinite() || std::abs(q.norm() - 1) > 1e-9) {c.Fail(a + "undefined truth"); return;}
        if (t < p.st && (!v.isZero(0) || !ac.isZero(0) || !w.isZero(0) || !al.isZero(0))) {c.Fail(a + "moving before the stationary time"); return;}
        // samples k, k+1 around t and all used for velocity strictly inside the waypoints and the horizon
        double k0 = std::floor(t * p.rate + 1e-9), lo = k0 * dt, hi = (k0 + 3) * dt;
        if (t < p.st || lo <= p.t.front() + 1e-9 || hi >= p.t.back() - 1e-9 || lo < 0 || hi >= p.mt - dt - 1e-9) {continue;}
        bool knot = false; for (double s : p.t) {knot = knot || (s > lo - 1e-9 && s < hi + 1e-9);}
        double tol = knot ? 2.0 : 1e-9;   // between samples around a waypoint the corner is cut
        if (!knot) {
          V3 sl = (lin(p.p, hi) - lin(p.p, lo)) / (hi - lo), sa = (lin(p.a, hi) - lin(p.a, lo)) / (hi - lo);
          c.Count("smoothed samples inside a segment");
          if (!Near(x, lin(p.p, t), tol)) {c.Fail(a + "position " + S(x) + " is not on the line between the waypoints " + S(lin(p.p, t))); return;}
          V3 l = lin(p.a, t);
          if (Ang(q, Q(Eigen::AngleAxisd(l.z(), V3::UnitZ()) * Eigen::AngleAxisd(l.y(), V3::UnitY()) * Eigen::AngleAxisd(l.x(), V3::UnitX()))) > 1e-7) {c.Fail(a + "orientation is not between the waypoints'"); return;}
          if (!Near(v, sl, 1e-7)) {c.Fail(a + "velocity " + S(v) + " is not that of the position " + S(sl)); return;}
          if (!Near(ac, V3::Zero(), 1e-5)) {c.Fail(a + "acceleration at constant velocity"); return;}
          double hh = std::min(dt / 200, std::min(t - k0 * dt, (k0 + 1) * dt - t) / 2);
          if (hh > 1e-6) {
            V3 dw = (e.GetBodyAngularRate(t + hh) - e.GetBodyAngularRate(t - hh)) / (2 * hh);
            if (!Near(al, dw, 1e-3)) {c.Fail(a + "angular acceleration " + S(al) + " is not the derivative of the rate " + S(dw)); return;}
          }
          auto ori = [&](double y) {return e.GetBodyAngularPosition(y);};
          V3 wn = Rate(ori, t, dt / 100);
          if (std::floor((t - dt / 40) * p.rate) == k0 && !Near(w, wn, 1e-4)) {
            if (!Near(w, sa, 1e-6)) {c.Fail(a + "angular rate " + S(w) + " is neither that of the orientation nor that of the angles"); return;}
            euler_rates = true;
          }
        }
        // at a sample that is a waypoint's time the waypoint is met
        for (size_t s = 0; s < p.t.size(); ++s) {
          double u = p.t[s]; if (std::abs(u * p.rate - std::round(u * p.rate)) < 1e-9 && s > 0 && s + 1 < p.t.size() && u > p.st && u > dt && u < p.mt - 2 * dt) {
            if (!Near(e.GetBodyPosition(u), V3(p.p[3 * s], p.p[3 * s + 1], p.p[3 * s + 2]), 1e-6)) {c.Fail("waypoint " + std::to_string(s) + " is missed"); return;}
          }
        }
      }
      // what the accelerations add up to across a waypoint is the change of the rates
      for (size_t s = 1; s + 1 < p.t.size(); ++s) {
        double lo = (std::floor(p.t[s] * p.rate + 1e-9) - 3) * dt, hi = (std::floor(p.t[s] * p.rate + 1e-9) + 4) * dt;
        if (lo < p.t[s - 1] + dt || hi > p.t[s + 1] - dt || lo < p.st + dt || hi > p.mt - 2 * dt) {continue;}
        V3 ac = V3::Zero(), al = V3::Zero();
        for (double t = lo; t < hi - dt / 2; t += dt) {ac += dt * e.GetBodyAcceleration(t); al += dt * e.GetBodyAngularAcceleration(t);}
        V3 dv = e.GetBodyVelocity(hi) - e.GetBodyVelocity(lo), dw = e.GetBodyAngularRate(hi) - e.GetBodyAngularRate(lo);
        c.Eval(2); c.Count("waypoints crossed");
        if (!Near(ac, dv, 1e-6)) {c.Fail("accelerations across waypoint " + std::to_string(s) + " add up to " + S(ac) + " while the velocity changes by " + S(dv)); return;}
        if (!Near(al, dw, 1e-6)) {c.Fail("angular accelerations across waypoint " + std::to_string(s) + " add up to " + S(al) + " while the rate changes by " + S(dw)); return;}
      }
      if (euler_rates) {
        c.Count("smoothed trajectories with Euler-angle rates");
        std::string keep = c.cur_key; c.Key("smoother Euler rates"); c.Fail("angular rate is the derivative of the Euler angles, not the body rate (first at " + keep + ")"); c.Key(keep);
      }
      c.Trace(); if (i % 41 == 0) {c.Sample(k.str());}
    });
  // ---------------------------------------------------------------- sensors and truth logs
  const std::vector<unsigned> imu{1, 4, 12}, cam{2, 5}, gps{3, 9}, brd{6, 7};
  const std::vector<std::pair<double, double>> spans = R.thorough ? std::vector<std::pair<double, double>>{{1.0, 10.0}, {2.25, 4.0}, {0.4, 2.5}, {3.0, 1.0}, {0.5, 50.0}} : std::vector<std::pair<double, double>>{{1.0, 10.0}, {2.25, 4.0}};
  size_t subsets = 8 * 4 * 4 * 4;
  R.Bound("sensor subsets", subsets); R.Bound("log spans", spans.size());
  R.Parallel(subsets * spans.size(), [&](size_t i, mc::Ctx & c) {
      size_t sub = i % subsets; auto span = spans[i / subsets];
      std::string key = "log subset " + std::to_string(sub) + " span " + std::to_string(i / subsets);
      if (!R.Selected(key)) {return;}
      c.Key(key);
      TruthEngineCyclic e({0.3, 0.6, 0.9}, {0.2, 0.5, 0.1}, {1, 2, 3}, {0.1, 0.2, 0.3}, 1.5, 0.4, 0.35, span.first, Log());
      auto vec = [](double s) {return V3(0.1 * s, -1.0 - s, 0.25 * s * s);};
      auto quat = [](double s) {return Q(1.0, 0.1 * s, -0.2 * s, 0.05 * s).normalized();};
      std::map<std::string, std::vector<double>> want;   // column prefix -> values
      auto v3 = [&](const std::string & n, const V3 & v) {want[n] = {v[0], v[1], v[2]};};
      auto q4 = [&](const std::string & n, const Q & q) {want[n] = {q.w(), q.x(), q.y(), q.z()};};
      for (size_t j = 0; j < imu.size(); ++j) {if (sub >> j & 1) {
          double s = imu[j]; std::string n = std::to_string(imu[j]);
          e.SetImuPosition(imu[j], vec(s)); e.SetImuAngularPosition(imu[j], quat(s)); e.SetImuAccelerometerBias(imu[j], vec(s + 0.3)); e.SetImuGyroscopeBias(imu[j], vec(s + 0.6));
          v3("imu_pos_" + n, vec(s)); q4("imu_ang_pos_" + n, quat(s)); v3("imu_acc_bias_" + n, vec(s + 0.3)); v3("imu_gyr_bias_" + n, vec(s + 0.6));
        }}
      for (size_t j = 0; j < cam.size(); ++j) {if (sub >> (3 + j) & 1) {
          double s = cam[j]; std::string n = std::to_string(cam[j]); Intrinsics k; k.f_x = s; k.width = 100 * s;
          e.SetCameraPosition(cam[j], vec(s)); e.SetCameraAngularPosition(cam[j], quat(s)); e.SetCameraIntrinsics(cam[j], k);
          v3("cam_pos_" + n, vec(s)); q4("cam_ang_pos_" + n, quat(s));
        }}
      bool g = false;
      for (size_t j = 0; j < gps.size(); ++j) {if (sub >> (5 + j) & 1) {double s = gps[j]; g = true; e.SetGpsPosition(gps[j], vec(s)); v3("gps_pos_" + std::to_string(gps[j]), vec(s));}}
      for (size_t j = 0; j < brd.size(); ++j) {if (sub >> (7 + j) & 1) {double s = brd[j]; e.SetBoardPosition(brd[j], vec(s)); e.SetBoardOrientation(brd[j], quat(s));}}
      e.SetLocalPosition({12.5, -31.25, 88}); e.SetLocalHeading(0.75);
      // getters: every sensor its own values
      for (size_t j = 0; j < imu.size(); ++j) {if (sub >> j & 1) {
          double s = imu[j];
          if (e.GetImuPosition(imu[j]) != vec(s) || e.GetImuAngularPosition(imu[j]).coeffs() != quat(s).coeffs() || e.GetImuAccelerometerBias(imu[j]) != vec(s + 0.3) || e.GetImuGyroscopeBias(imu[j]) != vec(s + 0.6)) {c.Fail("IMU truth of another sensor"); return;}
        }}
      for (size_t j = 0; j < cam.size(); ++j) {if (sub >> (3 + j) & 1) {double s = cam[j]; if (e.GetCameraPosition(cam[j]) != vec(s) || e.GetCameraAngularPosition(cam[j]).coeffs() != quat(s).coeffs() || e.GetCameraIntrinsics(cam[j]).f_x != s || e.GetCameraIntrinsics(cam[j]).width != 100 * s) {c.Fail("camera truth of another sensor"); return;}}}
      for (size_t j = 0; j < gps.size(); ++j) {if (sub >> (5 + j) & 1) {if (e.GetGpsPosition(gps[j]) != vec(gps[j])) {c.Fail("GPS truth of another sensor"); return;}}}
      for (size_t j = 0; j < brd.size(); ++j) {if (sub >> (7 + j) & 1) {if (e.GetBoardPosition(brd[j]) != vec(brd[j]) || e.GetBoardOrientation(brd[j]).coeffs() != quat(brd[j]).coeffs()) {c.Fail("board truth of another board"); return;}}}
      if (e.GetLocalPosition() != V3(12.5, -31.25, 88) || e.GetLocalHeading() != 0.75) {c.Fail("reference truth"); return;}
      std::string dir = c.scratch + "/log" + std::to_string(i) + "/"; mkdir(dir.c_str(), 0755);
      e.WriteTruthData(span.second, dir);
      auto rows = Csv(dir + "body_truth.csv"), boards = Csv(dir + "board_truth.csv"), feats = Csv(dir + "feature_points.csv");
      std::string rmdir_cmd = dir;
      for (auto f : {"body_truth.csv", "board_truth.csv", "feature_points.csv"}) {unlink((dir + f).c_str());}
      rmdir(dir.c_str());
      c.Transition(); c.Eval(); c.State(mc::Hash().u(i).u(5).h);
      if (rows.size() < 2) {c.Fail("no truth log"); return;}
      auto & hd = rows[0];
      if (hd[0] != "time") {c.Fail("first column is not time"); return;}
      if (std::set<std::string>(hd.begin(), hd.end()).size() != hd.size()) {c.Fail("column names repeat"); return;}
      auto num = [&](const std::string & s) {return std::strtod(s.c_str(), nullptr);};
      auto near = [](double a, double b) {return std::abs(a - b) <= 1e-5 * (1e-3 + std::abs(b));};
      size_t nr = rows.size() - 1;
      double last = 0;
      for (size_t r = 1; r <= nr; ++r) {
        auto & x = rows[r];
        if (x.size() != hd.size()) {c.Fail("row with " + std::to_string(x.size()) + " values under " + std::to_string(hd.size()) + " columns"); return;}
        double t = static_cast<double>(r - 1) / span.second;
        last = num(x[0]);
        if (!near(last, t)) {c.Fail("row " + std::to_string(r) + " has time " + x[0]); return;}
        auto w = want;
        auto add3 = [&](const std::string & n, const V3 & v) {w[n] = {v[0], v[1], v[2]};};
        add3("body_pos", e.GetBodyPosition(t)); add3("body_vel", e.GetBodyVelocity(t)); add3("body_acc", e.GetBodyAcceleration(t) + g_gravity);
        Q q = e.GetBodyAngularPosition(t); w["body_ang_pos"] = {q.w(), q.x(), q.y(), q.z()}; add3("body_ang_vel", e.GetBodyAngularRate(t)); add3("body_ang_acc", e.GetBodyAngularAcceleration(t));
        size_t cols = 1;
        for (auto & kv : w) {
          for (size_t d = 0; d < kv.second.size(); ++d, ++cols) {
            auto it = std::find(hd.begin(), hd.end(), kv.first + "_" + std::to_string(d));
            if (it == hd.end()) {c.Fail("no column " + kv.first + "_" + std::to_string(d)); return;}
            if (!near(num(x[static_cast<size_t>(it - hd.begin())]), kv.second[d])) {c.Fail("column " + *it + " at " + x[0] + " is " + x[static_cast<size_t>(it - hd.begin())] + " instead of " + std::to_string(kv.second[d])); return;}
          }
        }
        if (g) {
          std::vector<std::pair<std::string, double>> ref{{"ref_lat", 12.5}, {"ref_lon", -31.25}, {"ref_alt", 88}, {"ref_heading", 0.75}};
          for (auto & kv : ref) {auto it = std::find(hd.begin(), hd.end(), kv.first); ++cols; if (it == hd.end() || !near(num(x[static_cast<size_t>(it - hd.begin())]), kv.second)) {c.Fail("column " + kv.first); return;}}
        }
        if (cols != hd.size()) {c.Fail("columns of sensors that do not exist"); return;}
      }
      if (last < span.first - 1 / span.second) {c.Fail("truth log ends before the simulation"); return;}
      size_t nb = 0;
      for (size_t j = 0; j < brd.size(); ++j) {
        if (!(sub >> (7 + j) & 1)) {continue;}
        ++nb; bool ok = false; V3 v = vec(brd[j]); Q q = quat(brd[j]); std::vector<double> w{v[0], v[1], v[2], q.w(), q.x(), q.y(), q.z()};
        for (size_t r = 1; r < boards.size(); ++r) {
          if (boards[r][0] != std::to_string(brd[j])) {continue;}
          ok = boards[r].size() == 8; for (size_t d = 0; d < 7 && ok; ++d) {ok = near(num(boards[r][d + 1]), w[d]);}
        }
        if (!ok) {c.Fail("board " + std::to_string(brd[j]) + " is not in the board log"); return;}
      }
      if (boards.size() != nb + (boards.empty() ? 0 : 1) && !(nb == 0 && boards.size() <= 1)) {c.Fail("board log rows"); return;}
      auto fp = e.GetFeatures();
      if (feats.empty() || feats[0] != decltype(feats)::value_type{"Feature", "x", "y", "z"}) {c.Fail("columns of the feature log"); return;}
      if (feats.size() != fp.size() + 1) {c.Fail("feature log has " + std::to_string(feats.size()) + " rows"); return;}
      for (size_t r = 1; r < feats.size(); ++r) {
        auto & p = fp[r - 1];
        if (feats[r].size() != 4 || feats[r][0] != std::to_string(r - 1) || !near(num(feats[r][1]), p.x) || !near(num(feats[r][2]), p.y) || !near(num(feats[r][3]), p.z)) {c.Fail("feature log row " + std::to_string(r)); return;}
      }
      c.Trace(); if (i % 211 == 0) {c.Sample(key);}
    });
  // ---------------------------------------------------------------- features
  struct Cam {V3 p, a; double t; unsigned n; bool two;};
  std::vector<Cam> cams;
  for (auto & p : std::vector<V3>{{0, 0, 0}, {0.3, -0.2, 0.5}}) {for (auto & a : std::vector<V3>{{0, 0, 0}, {1.2, 0, 0}, {-1.57, 0.4, 2.0}, {3.0, -0.5, 1.0}}) {for (double t : {0.0, 0.6, 3.1}) {for (unsigned n : {1u, 7u, R.thorough ? 500u : 60u}) {for (bool b : {false, true}) {cams.push_back({p, a, t, n, b});}}}}}
  R.Bound("feature generation cases", cams.size());
  R.Parallel(cams.size(), [&](size_t i, mc::Ctx & c) {
      const Cam & m = cams[i];
      std::ostringstream k; k << "features " << S(m.p) << " | " << S(m.a) << " t " << m.t << " n " << m.n << (m.two ? " two cameras" : "");
      if (!R.Selected(k.str())) {return;}
      c.Key(k.str());
      SimRNG::SetSeed(static_cast<unsigned>(i));
      TruthEngineCyclic e({0.3, 0.6, 0.9}, {0.2, 0.5, 0.1}, {1, 0, -0.5}, {0.1, 0.2, 0.3}, 0.5, 0.4, 0.35, 5.0, Log());
      auto quat = [](const V3 & a) {return Q(Eigen::AngleAxisd(a.z(), V3::UnitZ()) * Eigen::AngleAxisd(a.y(), V3::UnitY()) * Eigen::AngleAxisd(a.x(), V3::UnitX()));};
      std::map<unsigned, Intrinsics> ki;
      for (unsigned id : {2u, 5u}) {
        Intrinsics n; n.width = id == 2 ? 640 : 320; n.height = id == 2 ? 480 : 200; n.f_x = id == 2 ? 0.01 : 0.004; n.f_y = id == 2 ? 0.012 : 0.005; n.pixel_size = 2e-5;
        ki[id] = n; e.SetCameraIntrinsics(id, n); e.SetCameraPosition(id, m.p * id); e.SetCameraAngularPosition(id, quat(m.a * (id == 2 ? 1 : -1)));
      }
      auto f0 = e.GetFeatures();
      for (auto & p : f0) {if (std::max({std::abs(p.x), std::abs(p.y), std::abs(p.z)}) != 2.0) {c.Fail("a feature is not on a wall of the room"); return;}}
      if (f0.size() < 6) {c.Fail("no features on the walls"); return;}
      // every wall carries the same pattern, and it reaches across the whole wall
      std::map<std::pair<int, int>, std::vector<std::pair<double, double>>> wall;
      for (auto & p : f0) {
        double q[3] = {p.x, p.y, p.z}; int a = 0;
        // the wall of an edge point is ambiguous: count it for the wall only where it lies inside
        int on = 0; for (int d = 0; d < 3; ++d) {if (std::abs(q[d]) == 2.0) {++on; a = d;}}
        if (on != 1) {continue;}
        wall[{a, q[a] > 0}].push_back({q[(a + 1) % 3], q[(a + 2) % 3]});
      }
      if (wall.size() != 6) {c.Fail("features on " + std::to_string(wall.size()) + " of six walls"); return;}
      size_t per = wall.begin()->second.size();
      for (auto & w : wall) {
        if (w.second.size() != per) {c.Fail("walls carry different numbers of features"); return;}
        for (int q = 0; q < 4; ++q) {
          size_t in = 0; for (auto & uv : w.second) {in += ((uv.first > 0) == (q & 1)) && ((uv.second > 0) == (q >> 1));}
          if (!in) {c.Fail("a quarter of a wall has no features"); return;}
        }
        std::set<std::pair<double, double>> u(w.second.begin(), w.second.end());
        if (u.size() != per) {c.Fail("two features of a wall coincide"); return;}
      }
      for (unsigned call = 0; call < (m.two ? 4u : 2u); ++call) {
        unsigned id = m.two && call % 2 ? 5 : 2;
        double t = m.t + 0.1 * call;
        auto f = e.GenerateVisibleFeatures(t, id, m.n);
        c.Transition(); c.Eval(m.n); c.State(mc::Hash().u(i).u(call).u(6).h);
        if (f.size() != f0.size() + m.n) {c.Fail(std::to_string(f.size() - f0.size()) + " features instead of " + std::to_string(m.n)); return;}
        for (size_t j = 0; j < f0.size(); ++j) {if (!(f[j] == f0[j])) {c.Fail("a feature moved"); return;}}
        Q qb = e.GetBodyAngularPosition(t); V3 pb = e.GetBodyPosition(t);
        for (size_t j = f0.size(); j < f.size(); ++j) {
          V3 l(f[j].x, f[j].y, f[j].z), q = e.GetCameraAngularPosition(id).conjugate() * (qb.conjugate() * (l - pb) - e.GetCameraPosition(id));
          double u = q.x() / q.z() * ki[id].f_x / ki[id].pixel_size + ki[id].width / 2, v = q.y() / q.z() * ki[id].f_y / ki[id].pixel_size + ki[id].height / 2;
          if (!(q.z() > 0) || !(u > -1e-3 && u < ki[id].width + 1e-3 && v > -1e-3 && v < ki[id].height + 1e-3)) {c.Fail("new feature " + std::to_string(j) + " is not in the camera's view"); return;}
        }
        for (size_t j = 0; j < f.size(); ++j) {if (!(e.GetFeature(static_cast<int>(j)) == f[j])) {c.Fail("feature " + std::to_string(j) + " has another position by identifier"); return;}}
        auto all = e.GetFeatures(); if (all.size() != f.size()) {c.Fail("feature list"); return;}
        f0 = f;
      }
      c.Trace(); if (i % 41 == 0) {c.Sample(k.str());}
    });
  return R.Finish();
}
