// C24: simulated sensors measure the simulated truth, with the errors asked for and no others.
#include "mc.hpp"
#include "geo.hpp"
#include <opencv2/opencv.hpp>
#include "ekf/ekf.hpp"
#include "ekf/constants.hpp"
#include "infrastructure/sim/truth_engine_cyclic.hpp"
#include "infrastructure/sim/truth_engine_spline.hpp"
#include "sensors/sim/sim_camera.hpp"
#include "sensors/sim/sim_camera_message.hpp"
#include "sensors/sim/sim_gps.hpp"
#include "sensors/sim/sim_gps_message.hpp"
#include "sensors/sim/sim_imu.hpp"
#include "sensors/sim/sim_imu_message.hpp"
#include "trackers/sim/sim_feature_tracker.hpp"
#include "trackers/sim/sim_fiducial_tracker.hpp"
#include "utility/sim/sim_rng.hpp"

namespace
{
using V3 = Eigen::Vector3d; using Q = Eigen::Quaterniond; using M3 = Eigen::Matrix3d;
std::shared_ptr<DebugLogger> Log() {static auto l = std::make_shared<DebugLogger>(LogLevel::FATAL, ""); return l;}
std::string S(const V3 & v) {std::ostringstream o; o << v.transpose(); return o.str();}
Q Exp(const V3 & v) {double n = v.norm(); return n < 1e-12 ? Q(1, v.x() / 2, v.y() / 2, v.z() / 2).normalized() : Q(Eigen::AngleAxisd(n, v / n));}
V3 LogQ(Q q)
{
  q.normalize(); if (q.w() < 0) {q.coeffs() *= -1;}
  double n = q.vec().norm();
  return n < 1e-300 ? V3(V3::Zero()) : V3(q.vec() / n * 2 * std::atan2(n, q.w()));
}
template<class F> V3 D1(F f, double t, double h) {return (8.0 * (f(t + h) - f(t - h)) - (f(t + 2 * h) - f(t - 2 * h))) / (12.0 * h);}
template<class F> V3 D2(F f, double t, double h) {return (-(f(t + 2 * h) + f(t - 2 * h)) + 16.0 * (f(t + h) + f(t - h)) - 30.0 * f(t)) / (12.0 * h * h);}
template<class F> V3 RateOf(F q, double t, double h) {Q a = q(t); return D1([&](double s) {return LogQ(a.conjugate() * q(t + s));}, 0.0, h);}
// closed-form motions given only by pose; derivatives are taken numerically
class Motion : public TruthEngine
{
public:
  int k;
  Motion(int kind, double max_time) : TruthEngine(max_time, Log()), k(kind) {}
  V3 P(double t) const
  {
    switch (k) {
      case 0: return {1, -2, 0.5};
      case 1: return {0.5 * t * t, -0.3 * t * t + t, 0.1 * t * t};
      case 2: return {2, 1, 0};
      default: return {std::sin(0.7 * t), 1.5 * std::cos(0.5 * t), 0.3 * std::sin(1.3 * t + 1)};
    }
  }
  Q A(double t) const
  {
    switch (k) {
      case 0: return Exp(V3(0.4, -0.9, 2.0));
      case 1: return Exp(V3(0, 0, 0.8));
      case 2: return Exp(V3(0.2, 0.5, -0.4)) * Exp(V3(0.3, -0.5, 0.9) * t);
      default: return Exp(V3(0.5 * std::sin(0.9 * t), 0.8 * std::cos(0.4 * t), 0.6 * t)) * Exp(V3(0.3 * t, 0, 0.2 * std::sin(t)));
    }
  }
  V3 GetBodyPosition(double t) override {return P(t);}
  V3 GetBodyVelocity(double t) override {return D1([&](double s) {return P(s);}, t, 1e-3);}
  V3 GetBodyAcceleration(double t) override {return D2([&](double s) {return P(s);}, t, 2e-3);}
  Q GetBodyAngularPosition(double t) override {return A(t);}
  V3 GetBodyAngularRate(double t) override {return RateOf([&](double s) {return A(s);}, t, 1e-3);}
  V3 GetBodyAngularAcceleration(double t) override {return D1([&](double s) {return RateOf([&](double u) {return A(u);}, s, 1e-3);}, t, 2e-3);}
};
struct Eng {std::string n; int k;};
std::shared_ptr<TruthEngine> Make(int k, double mt)
{
  if (k < 4) {return std::make_shared<Motion>(k, mt);}
  if (k == 4) {return std::make_shared<TruthEngineCyclic>(V3(0.3, 0.6, 0.9), V3(0.4, 0.3, 0.2), V3(1, 2, 3), V3(0.1, 0.2, 0.3), 1.0, 0.4, -100.0, mt, Log());}
  return std::make_shared<TruthEngineCyclic>(V3(0.3, 0.6, 0.9), V3(0.4, 0.3, 0.2), V3(1, 2, 3), V3(0.1, 0.2, 0.3), 1.0, 0.4, 1e6, mt, Log());
}
const std::vector<Eng> kEng{{"still", 0}, {"accelerating", 1}, {"spinning", 2}, {"free", 3}, {"cyclic", 4}, {"resting", 5}};
std::shared_ptr<EKF> Filter() {EKF::Parameters p; p.debug_logger = Log(); return std::make_shared<EKF>(p);}
// spread of normalised residuals per axis, over one enumerated run
struct Spread
{
  V3 s2{V3::Zero()}, s1{V3::Zero()}, mx{V3::Zero()}; double n{0};
  void Add(const V3 & r) {s1 += r; s2 += r.cwiseProduct(r); mx = mx.cwiseMax(r.cwiseAbs()); ++n;}
  // empty: all right
  std::string Bad(const V3 & sig, double floor) const
  {
    std::ostringstream o;
    for (int d = 0; d < 3; ++d) {
      double m = s1[d] / n, sd = std::sqrt(std::max(0.0, s2[d] / n - m * m));
      if (mx[d] > 8 * sig[d] + floor) {o << "axis " << d << ": off by " << mx[d] << " for standard deviation " << sig[d]; return o.str();}
      if (sig[d] > 100 * floor && n >= 100) {
        double f = 6 / std::sqrt(2 * n);
        if (sd < sig[d] * (1 - f) || sd > sig[d] * (1 + f)) {o << "axis " << d << ": spread " << sd << " over " << n << " instead of " << sig[d]; return o.str();}
        if (std::abs(m) > 6 * sig[d] / std::sqrt(n)) {o << "axis " << d << ": mean " << m << " over " << n << " for standard deviation " << sig[d]; return o.str();}
      }
    }
    return "";
  }
};
struct Err {std::string n; bool none; double terr; V3 a, b, off, ang, ba, bb;};
std::vector<Err> Errs()
{
  V3 z = V3::Zero();
  return {{"errors off", true, 0.01, {0.1, 0.2, 0.3}, {0.01, 0.02, 0.03}, {0.1, 0.1, 0.1}, {0.1, 0.1, 0.1}, {0.1, 0.1, 0.1}, {0.1, 0.1, 0.1}},
    {"zero errors", false, 0, z, z, z, z, z, z},
    {"parameter errors", false, 0, z, z, {0.05, 0.1, 0.2}, {0.02, 0.05, 0.1}, {0.1, 0.2, 0.4}, {0.01, 0.02, 0.04}},
    {"one-axis parameter errors", false, 0, z, z, {0, 0.1, 0}, {0, 0, 0.07}, {0.3, 0, 0}, {0, 0.03, 0}},
    {"noise", false, 0, {0.02, 0.1, 0.5}, {0.005, 0.03, 0.2}, z, z, z, z},
    {"one-axis noise", false, 0, {0, 0.1, 0}, {0, 0, 0.02}, z, z, z, z},
    {"time noise", false, 0.002, z, z, z, z, z, z},
    {"everything", false, 0.003, {0.02, 0.1, 0.5}, {0.005, 0.03, 0.2}, {0.05, 0.1, 0.2}, {0.02, 0.05, 0.1}, {0.1, 0.2, 0.4}, {0.01, 0.02, 0.04}}};
}
// measurement times; ts in the order generated
std::string Times(const std::vector<double> & ts, double rate, double mt, const Err & e)
{
  std::ostringstream o; o.precision(12);
  size_t want = static_cast<size_t>(std::floor(mt * rate));
  if (ts.size() != want) {o << ts.size() << " measurements instead of " << want; return o.str();}
  if (ts.empty()) {return "";}
  double sig = e.none ? 0 : e.terr, lo = 1e300, hi = -1e300, s1 = 0, s2 = 0;
  for (size_t i = 0; i < ts.size(); ++i) {
    double d = ts[i] - static_cast<double>(i) / rate;
    lo = std::min(lo, d); hi = std::max(hi, d); s1 += d; s2 += d * d;
    if (e.none && std::abs(d) > 1e-9) {o << "measurement " << i << " at " << ts[i]; return o.str();}
  }
  if (lo < -8 * sig - 1e-9 || hi > 1 / rate + 8 * sig + 1e-9) {o << "offset between " << lo << " and " << hi << " at rate " << rate; return o.str();}
  if (hi - lo > 16 * sig + 1e-9) {o << "spacing differs by " << hi - lo; return o.str();}
  double n = static_cast<double>(ts.size());
  if (sig > 0 && n >= 100) {
    double sd = std::sqrt(std::max(0.0, s2 / n - s1 * s1 / n / n)), f = 6 / std::sqrt(2 * n);
    if (sd < sig * (1 - f) || sd > sig * (1 + f)) {o << "time spread " << sd << " instead of " << sig; return o.str();}
  }
  return "";
}
// true value within 8 standard deviations, moved on each axis that has an error and only there
std::string Moved(const V3 & d, const V3 & sig, bool none)
{
  for (int i = 0; i < 3; ++i) {
    double s = none ? 0 : sig[i];
    if (std::abs(d[i]) > 8 * s + 1e-9) {return "axis " + std::to_string(i) + " off by " + std::to_string(d[i]);}
    if (s > 0 && std::abs(d[i]) < 1e-7 * s) {return "axis " + std::to_string(i) + " has no error";}
  }
  return "";
}
}  // namespace

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C24");
  R.rule = "every combination of motion, mounting, bias, error setting, rate and duration, for every simulated sensor and fiducial; "
    "each generated message is compared with measurements computed from the truth by numeric differentiation and geodesy";
  R.assumptions = {"random errors are checked to lie within eight standard deviations and to have the configured spread over the enumerated run (six standard deviations of the estimate)",
    "the WGS84 oracle is independent of the conversion under test"};
  const std::vector<V3> offs = R.thorough ? std::vector<V3>{{0, 0, 0}, {0.3, -0.2, 0.1}, {-2, 1, 3}, {0, 0, 0.5}} : std::vector<V3>{{0, 0, 0}, {0.3, -0.2, 0.1}};
  const std::vector<V3> angs = R.thorough ? std::vector<V3>{{0, 0, 0}, {0.4, -0.7, 1.1}, {3.0, 0.1, -0.2}, {0, 0, -M_PI / 2}} : std::vector<V3>{{0, 0, 0}, {0.4, -0.7, 1.1}};
  const std::vector<std::pair<V3, V3>> bias{{{0, 0, 0}, {0, 0, 0}}, {{0.1, -0.2, 0.3}, {0.01, 0.03, -0.02}}};
  const auto errs = Errs();
  struct Tm {double rate, mt;};
  std::vector<Tm> tm{{64, 2.0}, {250, 0.806}, {4, 0.2}};
  if (R.thorough) {tm = {{64, 2.0}, {100, 1.255}, {4, 0.2}, {1000, 0.5004}, {30, 4.05}, {0.5, 7.5}, {250, 8.0}, {16, 0.0}};}
  std::vector<unsigned> seeds = R.thorough ? std::vector<unsigned>{1, 2, 3, 4, 5, 6, 7, 8} : std::vector<unsigned>{1, 2};
  R.Bound("motions", kEng.size()); R.Bound("error settings", errs.size()); R.Bound("rate and duration pairs", tm.size()); R.Bound("seeds", seeds.size());
  // ------------------------------------------------------------------ IMU
  struct Ic {Eng e; V3 o, a; std::pair<V3, V3> b; Err r; Tm t; unsigned s;};
  std::vector<Ic> ics;
  for (auto & e : kEng) {for (auto & o : offs) {for (auto & a : angs) {for (auto & b : bias) {for (auto & r : errs) {for (auto & t : tm) {for (unsigned s : seeds) {
    if (r.none && s != seeds[0]) {continue;}
    ics.push_back({e, o, a, b, r, t, s});
  }}}}}}}
  R.Bound("IMU cases", ics.size());
  R.Parallel(ics.size(), [&](size_t i, mc::Ctx & c) {
      const Ic & k = ics[i];
      std::ostringstream key; key << "imu " << k.e.n << " at " << S(k.o) << " turned " << S(k.a) << " biases " << S(k.b.first) << ", " << S(k.b.second) << " " << k.r.n << " rate " << k.t.rate << " for " << k.t.mt << " seed " << k.s;
      if (!R.Selected(key.str())) {return;}
      c.Key(key.str());
      auto run = [&](unsigned seed, std::shared_ptr<TruthEngine> & tr, unsigned & id) {
          SimRNG::SetSeed(seed);
          tr = Make(k.e.k, k.t.mt);
          SimIMU::Parameters p;
          p.no_errors = k.r.none; p.time_error = k.r.terr; p.acc_error = k.r.a; p.omg_error = k.r.b; p.pos_error = k.r.off; p.ang_error = k.r.ang;
          p.acc_bias_error = k.r.ba; p.omg_bias_error = k.r.bb;
          p.imu_params.name = "I"; p.imu_params.rate = k.t.rate; p.imu_params.logger = Log(); p.imu_params.ekf = Filter();
          p.imu_params.pos_i_in_b = k.o; p.imu_params.ang_i_to_b = Exp(k.a); p.imu_params.acc_bias = k.b.first; p.imu_params.omg_bias = k.b.second;
          SimIMU m(p, tr); id = m.GetId();
          return m.GenerateMessages();
        };
      std::shared_ptr<TruthEngine> tr, tr2; unsigned id, id2;
      auto ms = run(k.s, tr, id);
      V3 p = tr->GetImuPosition(id); Q a = tr->GetImuAngularPosition(id); V3 ba = tr->GetImuAccelerometerBias(id), bg = tr->GetImuGyroscopeBias(id);
      auto bad = [&](const std::string & w, const std::string & s) {if (!s.empty()) {c.Fail(w + ": " + s); return true;} return false;};
      if (bad("true position", Moved(p - k.o, k.r.off, k.r.none))) {return;}
      if (bad("true orientation", Moved(LogQ(a * Exp(k.a).conjugate()), k.r.ang, k.r.none))) {return;}
      if (bad("true accelerometer bias", Moved(ba - k.b.first, k.r.ba, k.r.none))) {return;}
      if (bad("true gyroscope bias", Moved(bg - k.b.second, k.r.bb, k.r.none))) {return;}
      std::vector<double> ts; for (auto & m : ms) {ts.push_back(m->time);}
      if (bad("times", Times(ts, k.t.rate, k.t.mt, k.r))) {return;}
      V3 na = k.r.none ? V3(V3::Zero()) : k.r.a, ng = k.r.none ? V3(V3::Zero()) : k.r.b;
      Spread sa, sg;
      for (auto & m : ms) {
        c.Transition(); c.Eval(2); c.State(mc::Hash().m(m->acceleration).m(m->angular_rate).d(m->time).h);
        if (m->sensor_id != id || m->sensor_type != SensorType::IMU) {c.Fail("message of another sensor"); return;}
        if (!m->acceleration_covariance.isApprox(M3(k.r.a.cwiseAbs2().asDiagonal()), 1e-12) && !k.r.a.isZero(0)) {c.Fail("acceleration covariance"); return;}
        if (!m->angular_rate_covariance.isApprox(M3(k.r.b.cwiseAbs2().asDiagonal()), 1e-12) && !k.r.b.isZero(0)) {c.Fail("rate covariance"); return;}
        if (k.r.a.isZero(0) && !m->acceleration_covariance.isZero(0)) {c.Fail("acceleration covariance without noise"); return;}
        if (k.r.b.isZero(0) && !m->angular_rate_covariance.isZero(0)) {c.Fail("rate covariance without noise"); return;}
        auto pi = [&](double t) {return V3(tr->GetBodyPosition(t) + tr->GetBodyAngularPosition(t) * p);};
        auto qi = [&](double t) {return Q(tr->GetBodyAngularPosition(t) * a);};
        Q q = qi(m->time);
        V3 acc = q.conjugate() * V3(D2(pi, m->time, 2e-3) + V3(0, 0, 9.80665)) + ba;
        V3 omg = RateOf(qi, m->time, 1e-3) + bg;
        sa.Add(m->acceleration - acc); sg.Add(m->angular_rate - omg);
      }
      if (!ms.empty() && (bad("acceleration", sa.Bad(na, 2e-5)) || bad("angular rate", sg.Bad(ng, 2e-5)))) {return;}
      // the seed decides everything
      auto same = run(k.s, tr2, id2);
      if (same.size() != ms.size()) {c.Fail("another run of the same seed differs"); return;}
      for (size_t j = 0; j < ms.size(); ++j) {
        if (same[j]->time != ms[j]->time || same[j]->acceleration != ms[j]->acceleration || same[j]->angular_rate != ms[j]->angular_rate) {c.Fail("another run of the same seed differs"); return;}
      }
      c.Trace(); if (i % 211 == 0) {c.Sample(key.str());}
    });
  // ------------------------------------------------------------------ GPS
  struct Gc {Eng e; V3 o, ref; double h; Err r; Tm t; unsigned s;};
  std::vector<Gc> gcs;
  {
    std::vector<V3> refs{{0, 0, 0}, {30.6, -96.3, 80.0}, {-63.0, 179.99995, 500.0}};
    std::vector<double> hs{0.0, 0.3, -2.5};
    if (R.thorough) {refs.push_back({69.6, -179.9999, -40.0}); refs.push_back({-0.00001, 10, 3000.0}); refs.push_back({85.0, 45.0, 10.0}); hs.push_back(3.1); hs.push_back(1.5707963267948966);}
    for (auto & e : kEng) {for (auto & o : offs) {for (auto & f : refs) {for (double h : hs) {for (auto & r : errs) {for (auto & t : tm) {for (unsigned s : seeds) {
      if (r.none && s != seeds[0]) {continue;}
      gcs.push_back({e, o, f, h, r, t, s});
    }}}}}}}
  }
  R.Bound("GPS cases", gcs.size());
  R.Parallel(gcs.size(), [&](size_t i, mc::Ctx & c) {
      const Gc & k = gcs[i];
      std::ostringstream key; key << "gps " << k.e.n << " at " << S(k.o) << " reference " << S(k.ref) << " heading " << k.h << " " << k.r.n << " rate " << k.t.rate << " for " << k.t.mt << " seed " << k.s;
      if (!R.Selected(key.str())) {return;}
      c.Key(key.str());
      auto run = [&](unsigned seed, std::shared_ptr<TruthEngine> & tr, unsigned & id) {
          SimRNG::SetSeed(seed);
          tr = Make(k.e.k, k.t.mt);
          tr->SetLocalPosition(k.ref); tr->SetLocalHeading(k.h);
          SimGPS::Parameters p;
          p.no_errors = k.r.none; p.time_error = k.r.terr; p.lla_error = k.r.a; p.pos_a_in_b_err = k.r.off;
          p.gps_params.name = "G"; p.gps_params.rate = k.t.rate; p.gps_params.logger = Log(); p.gps_params.ekf = Filter(); p.gps_params.pos_a_in_b = k.o;
          SimGPS m(p, tr); id = m.GetId();
          return m.GenerateMessages();
        };
      std::shared_ptr<TruthEngine> tr, tr2; unsigned id, id2;
      auto ms = run(k.s, tr, id);
      V3 p = tr->GetGpsPosition(id);
      auto bad = [&](const std::string & w, const std::string & s) {if (!s.empty()) {c.Fail(w + ": " + s); return true;} return false;};
      if (bad("true antenna", Moved(p - k.o, k.r.off, k.r.none))) {return;}
      std::vector<double> ts; for (auto & m : ms) {ts.push_back(m->time);}
      if (bad("times", Times(ts, k.t.rate, k.t.mt, k.r))) {return;}
      Spread sp;
      for (auto & m : ms) {
        c.Transition(); c.Eval(); c.State(mc::Hash().m(m->gps_lla).d(m->time).h);
        if (m->sensor_id != id || m->sensor_type != SensorType::GPS) {c.Fail("message of another sensor"); return;}
        if (!(m->pos_covariance - M3(k.r.a.cwiseAbs2().asDiagonal())).isZero(1e-12)) {c.Fail("covariance"); return;}
        V3 want = tr->GetBodyPosition(m->time) + tr->GetBodyAngularPosition(m->time) * p;
        if (!m->gps_lla.allFinite() || std::abs(m->gps_lla[0]) > 90 || std::abs(m->gps_lla[1]) > 180.0000001) {c.Fail("coordinates " + S(m->gps_lla)); return;}
        sp.Add(geo::ToLocal(geo::Enu(m->gps_lla, k.ref), k.h) - want);
      }
      if (!ms.empty() && bad("position", sp.Bad(k.r.none ? V3(V3::Zero()) : k.r.a, 1e-6))) {return;}
      auto same = run(k.s, tr2, id2);
      for (size_t j = 0; j < ms.size(); ++j) {
        if (same.size() != ms.size() || same[j]->time != ms[j]->time || same[j]->gps_lla != ms[j]->gps_lla) {c.Fail("another run of the same seed differs"); return;}
      }
      c.Trace(); if (i % 211 == 0) {c.Sample(key.str());}
    });
  // ------------------------------------------------------ camera and fiducials
  struct Cc {Eng e; V3 o, a; unsigned nf, nt; Err r; Tm t; unsigned s; bool two;};
  std::vector<Cc> ccs;
  for (auto & e : kEng) {for (auto & o : offs) {for (auto & a : angs) {for (unsigned nf = 0; nf < 3; ++nf) {for (unsigned nt = 0; nt < (R.thorough ? 3u : 2u); ++nt) {for (auto & r : errs) {for (auto & t : tm) {for (unsigned s : seeds) {
    if (r.none && s != seeds[0]) {continue;}
    if (nt && t.mt * t.rate > 40) {continue;}
    if (!R.thorough && t.mt * t.rate > 100 && nf == 2) {continue;}
    ccs.push_back({e, o, a, nf, nt, r, t, s, nf == 2});
  }}}}}}}}
  R.Bound("camera cases", ccs.size());
  R.Parallel(ccs.size(), [&](size_t i, mc::Ctx & c) {
      const Cc & k = ccs[i];
      std::ostringstream key; key << "camera " << k.e.n << " at " << S(k.o) << " turned " << S(k.a) << " fiducials " << k.nf << " trackers " << k.nt << " " << k.r.n << " rate " << k.t.rate << " for " << k.t.mt << " seed " << k.s;
      if (!R.Selected(key.str())) {return;}
      c.Key(key.str());
      struct Rig {std::shared_ptr<TruthEngine> tr; std::vector<unsigned> cam, fid, trk; std::vector<std::vector<std::shared_ptr<SimCameraMessage>>> ms;};
      const V3 fp(4, 1, -0.5), fa(0.3, -1.2, 0.5), te(0.02, 0.05, 0.11), re(0.01, 0.02, 0.05);
      auto run = [&](unsigned seed) {
          Rig g; SimRNG::SetSeed(seed);
          g.tr = Make(k.e.k, k.t.mt);
          auto ekf = Filter();
          for (unsigned j = 0; j < (k.two ? 2u : 1u); ++j) {
            SimCamera::Parameters p;
            p.no_errors = k.r.none; p.time_error = k.r.terr; p.pos_error = k.r.off; p.ang_error = k.r.ang;
            p.cam_params.name = "C"; p.cam_params.rate = k.t.rate; p.cam_params.logger = Log(); p.cam_params.ekf = ekf;
            p.cam_params.pos_c_in_b = k.o + V3(0, j, 0); p.cam_params.ang_c_to_b = Exp(k.a) * Exp(V3(0.1 * j, 0, 0));
            p.cam_params.intrinsics.width = 640 + 100.0 * j; p.cam_params.intrinsics.f_x = 0.004 + 0.001 * j; p.cam_params.intrinsics.k_1 = 0.01 * j;
            SimCamera cam(p, g.tr); g.cam.push_back(cam.GetId());
            for (unsigned f = 0; f < k.nf; ++f) {
              SimFiducialTracker::Parameters q;
              q.no_errors = k.r.none; q.pos_error = k.r.off; q.ang_error = k.r.ang;
              q.t_vec_error = k.r.a.isZero(0) ? V3(V3::Zero()) : te; q.r_vec_error = k.r.b.isZero(0) ? V3(V3::Zero()) : re;
              auto & u = q.fiducial_params;
              u.camera_id = cam.GetId(); u.logger = Log(); u.ekf = ekf; u.id = 10 * j + f; u.detector_type = FiducialType::CHARUCO_BOARD;
              u.squares_x = 4; u.squares_y = 5; u.square_length = 0.04; u.marker_length = 0.03;
              u.pos_f_in_l = fp + V3(f, j, 0); u.ang_f_to_l = Exp(fa) * Exp(V3(0, 0.3 * f, 0.2 * j));
              auto t = std::make_shared<SimFiducialTracker>(q, g.tr); g.fid.push_back(t->GetID()); cam.AddFiducial(t);
            }
            for (unsigned f = 0; f < k.nt; ++f) {
              SimFeatureTracker::Parameters q; q.no_errors = k.r.none; q.feature_count = 0;
              q.tracker_params.camera_id = cam.GetId(); q.tracker_params.logger = Log(); q.tracker_params.ekf = ekf;
              auto t = std::make_shared<SimFeatureTracker>(q, g.tr); g.trk.push_back(t->GetID()); cam.AddTracker(t);
            }
            g.ms.push_back(cam.GenerateMessages());
          }
          return g;
        };
      Rig g = run(k.s);
      auto bad = [&](const std::string & w, const std::string & s) {if (!s.empty()) {c.Fail(w + ": " + s); return true;} return false;};
      std::set<unsigned> frames;
      for (size_t j = 0; j < g.cam.size(); ++j) {
        double dj = static_cast<double>(j);
        V3 p = g.tr->GetCameraPosition(g.cam[j]); Q a = g.tr->GetCameraAngularPosition(g.cam[j]);
        if (bad("true camera position", Moved(p - k.o - V3(0, dj, 0), k.r.off, k.r.none))) {return;}
        if (bad("true camera orientation", Moved(LogQ(a * (Exp(k.a) * Exp(V3(0.1 * dj, 0, 0))).conjugate()), k.r.ang, k.r.none))) {return;}
        Intrinsics in = g.tr->GetCameraIntrinsics(g.cam[j]);
        if (in.width != 640 + 100.0 * dj || in.f_x != 0.004 + 0.001 * dj || in.k_1 != 0.01 * dj) {c.Fail("true intrinsics"); return;}
        std::vector<double> ts; for (auto & m : g.ms[j]) {ts.push_back(m->time);}
        if (bad("times", Times(ts, k.t.rate, k.t.mt, k.r))) {return;}
        std::vector<Spread> sp(k.nf), sr(k.nf);
        long last = -1;
        for (auto & m : g.ms[j]) {
          c.Transition(); c.State(mc::Hash().d(m->time).u(m->frame_id).u(m->fiducial_track_messages.size()).h);
          if (m->sensor_id != g.cam[j] || m->sensor_type != SensorType::Camera) {c.Fail("message of another sensor"); return;}
          if (!frames.insert(m->frame_id).second || static_cast<long>(m->frame_id) <= last) {c.Fail("frame numbers do not increase or repeat"); return;}
          last = m->frame_id;
          if (m->feature_track_messages.size() != k.nt || m->fiducial_track_messages.size() != k.nf) {c.Fail("one message per tracker and fiducial is not there"); return;}
          std::set<unsigned> seen;
          for (auto & x : m->feature_track_messages) {
            c.Eval();
            if (x->sensor_id != g.cam[j] || x->time != m->time || !seen.insert(x->tracker_id).second ||
              std::find(g.trk.begin() + static_cast<long>(j * k.nt), g.trk.begin() + static_cast<long>((j + 1) * k.nt), x->tracker_id) == g.trk.begin() + static_cast<long>((j + 1) * k.nt)) {c.Fail("tracker message of another tracker, camera or time"); return;}
          }
          seen.clear();
          for (auto & x : m->fiducial_track_messages) {
            c.Eval(2);
            size_t f = 0; while (f < k.nf && g.fid[j * k.nf + f] != x->tracker_id) {++f;}
            if (f == k.nf || !seen.insert(x->tracker_id).second || x->sensor_id != g.cam[j] || x->time != m->time) {c.Fail("fiducial message of another fiducial, camera or time"); return;}
            double df = static_cast<double>(f);
            V3 b = g.tr->GetBoardPosition(x->tracker_id); Q ba = g.tr->GetBoardOrientation(x->tracker_id);
            if (bad("true board position", Moved(b - fp - V3(df, dj, 0), k.r.off, k.r.none))) {return;}
            if (bad("true board orientation", Moved(LogQ(ba * (Exp(fa) * Exp(V3(0, 0.3 * df, 0.2 * dj))).conjugate()), k.r.ang, k.r.none))) {return;}
            if (!x->is_board_visible) {continue;}
            auto & d = x->board_detection;
            if (d.frame_id != m->frame_id || d.frame_time != m->time) {c.Fail("detection of another frame"); return;}
            V3 wt = k.r.a.isZero(0) ? V3(V3::Zero()) : te, wr = k.r.b.isZero(0) ? V3(V3::Zero()) : re;
            if (!(d.pos_error - wt.cwiseAbs2()).isZero(1e-15) || !(d.ang_error - wr.cwiseAbs2()).isZero(1e-15)) {c.Fail("detection variances " + S(d.pos_error) + ", " + S(d.ang_error)); return;}
            Eigen::Affine3d B = Eigen::Translation3d(g.tr->GetBodyPosition(m->time)) * g.tr->GetBodyAngularPosition(m->time);
            Eigen::Affine3d C = Eigen::Translation3d(p) * a, F = Eigen::Translation3d(b) * ba;
            Eigen::Affine3d X = (B * C).inverse() * F;
            sp[f].Add(d.pos_f_in_c - X.translation());
            sr[f].Add(LogQ(d.ang_f_to_c * Q(X.rotation()).conjugate()));
          }
        }
        for (unsigned f = 0; f < k.nf; ++f) {
          V3 wt = k.r.none || k.r.a.isZero(0) ? V3(V3::Zero()) : te, wr = k.r.none || k.r.b.isZero(0) ? V3(V3::Zero()) : re;
          if (sp[f].n > 0 && (bad("board position", sp[f].Bad(wt, 1e-7)) || bad("board orientation", sr[f].Bad(wr, 1e-7)))) {return;}
        }
      }
      Rig h = run(k.s);
      for (size_t j = 0; j < g.ms.size(); ++j) {
        for (size_t n = 0; n < g.ms[j].size(); ++n) {
          auto & x = *g.ms[j][n], & y = *h.ms[j][n];
          bool ok = x.time == y.time;
          for (size_t f = 0; f < k.nf; ++f) {ok = ok && x.fiducial_track_messages[f]->board_detection.pos_f_in_c == y.fiducial_track_messages[f]->board_detection.pos_f_in_c;}
          if (!ok) {c.Fail("another run of the same seed differs"); return;}
        }
      }
      c.Trace(); if (i % 211 == 0) {c.Sample(key.str());}
    });
  // ------------------------------------ parameter errors over all seeds of a range
  {
    struct Sc {std::string n; int k;};
    std::vector<Sc> sc{{"IMU position", 0}, {"IMU orientation", 1}, {"accelerometer bias", 2}, {"gyroscope bias", 3}, {"antenna", 4}, {"camera position", 5}, {"camera orientation", 6}, {"board position", 7}, {"board orientation", 8}, {"start of the measurements", 9}};
    unsigned ns = R.thorough ? 20000 : 2000;
    R.Bound("seeds for parameter errors", ns);
    R.Parallel(sc.size(), [&](size_t i, mc::Ctx & c) {
        std::string key = "errors of all seeds: " + sc[i].n;
        if (!R.Selected(key)) {return;}
        c.Key(key);
        const V3 sig(0.02, 0.05, 0.1); Spread sp; double lo = 1e9, hi = -1e9, sum = 0;
        for (unsigned s = 0; s < ns; ++s) {
          SimRNG::SetSeed(s);
          c.Transition(); c.Eval();
          static auto ekf = Filter();
          auto tr = std::make_shared<Motion>(0, 1.0);
          V3 d;
          if (s % 200 == 0) {ekf = Filter();}   // keep the filter small
          if (sc[i].k < 4 || sc[i].k == 9) {
            SimIMU::Parameters p; p.imu_params.logger = Log(); p.imu_params.ekf = ekf; p.imu_params.rate = 8;
            if (sc[i].k == 0) {p.pos_error = sig;} else if (sc[i].k == 1) {p.ang_error = sig;} else if (sc[i].k == 2) {p.acc_bias_error = sig;} else if (sc[i].k == 3) {p.omg_bias_error = sig;}
            SimIMU m(p, tr);
            unsigned id = m.GetId();
            d = sc[i].k == 0 ? tr->GetImuPosition(id) : sc[i].k == 1 ? LogQ(tr->GetImuAngularPosition(id)) : sc[i].k == 2 ? tr->GetImuAccelerometerBias(id) : tr->GetImuGyroscopeBias(id);
            if (sc[i].k == 9) {double t = m.GenerateMessages().at(0)->time; lo = std::min(lo, t); hi = std::max(hi, t); sum += t; c.State(mc::Hash().d(t).h); continue;}
          } else if (sc[i].k == 4) {
            SimGPS::Parameters p; p.gps_params.logger = Log(); p.gps_params.ekf = ekf; p.pos_a_in_b_err = sig;
            SimGPS m(p, tr); d = tr->GetGpsPosition(m.GetId());
          } else {
            SimCamera::Parameters p; p.cam_params.logger = Log(); p.cam_params.ekf = ekf;
            if (sc[i].k == 5) {p.pos_error = sig;} else if (sc[i].k == 6) {p.ang_error = sig;}
            SimCamera m(p, tr); d = sc[i].k == 5 ? tr->GetCameraPosition(m.GetId()) : LogQ(tr->GetCameraAngularPosition(m.GetId()));
            if (sc[i].k > 6) {
              SimFiducialTracker::Parameters q; auto & u = q.fiducial_params;
              u.camera_id = m.GetId(); u.logger = Log(); u.ekf = ekf; u.id = s; u.detector_type = FiducialType::CHARUCO_BOARD; u.squares_x = 3; u.squares_y = 3; u.square_length = 0.04; u.marker_length = 0.03;
              u.pos_f_in_l = V3::Zero(); u.ang_f_to_l = Q::Identity();
              if (sc[i].k == 7) {q.pos_error = sig; q.ang_error = V3::Zero();} else {q.ang_error = sig; q.pos_error = V3::Zero();}
              SimFiducialTracker t(q, tr);
              d = sc[i].k == 7 ? tr->GetBoardPosition(t.GetID()) : LogQ(tr->GetBoardOrientation(t.GetID()));
            }
          }
          c.State(mc::Hash().m(d).h);
          sp.Add(d);
        }
        if (sc[i].k == 9) {
          if (!(lo >= 0 && lo < 0.01 && hi < 0.125 && hi > 0.115 && std::abs(sum / ns - 0.0625) < 0.005)) {c.Fail("first measurement between " + std::to_string(lo) + " and " + std::to_string(hi) + " at 8 Hz"); return;}
        } else {
          std::string b = sp.Bad(sig, 1e-9);
          if (!b.empty()) {c.Fail(b); return;}
        }
        c.Trace(); c.Sample(key);
      });
  }
  return R.Finish();
}
