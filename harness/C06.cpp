// C06: time. The first message defines local time zero, filter time never runs
// backwards, stale predictions are ignored, and only time differences matter.
#include "world.hpp"
using namespace world;

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C06");
  std::vector<Cfg> cfgs;
  for (auto c : StdConfigs()) {c.initialize = false; c.t0 = 3.5; cfgs.push_back(c);}
  {
    Cfg c = cfgs[1]; c.name = "gps-baseline"; c.gps_init = GpsInitType::BASELINE_DIST; c.gps_baseline = 1.0; cfgs.push_back(c);
    c = cfgs[1]; c.name = "root"; c.root = true; cfgs.push_back(c);
    c = cfgs[1]; c.name = "initialized"; c.initialize = true; c.t0 = 0; cfgs.push_back(c);
  }
  std::vector<double> shifts = {1024.0, 1073741824.0, -512.0};
  R.rule = "all words of length d over sensor messages, plain predictions and stale messages, each run with the clock of "
    "the messages shifted by several offsets (binary fractions, so differences are exact); filter time, parameters and "
    "covariance compared after every message";
  unsigned depth = R.thorough ? 5 : 4;
  R.Bound("depth", depth); R.Bound("configurations", cfgs.size()); R.Bound("clock offsets", shifts.size());
  for (auto & cf : cfgs) {
    auto ops = StdOps(cf);
    ops.push_back({"predict", 'p', 0, 0.375, 0});
    ops.push_back({"predict-same", 'p', 0, 0.0, 0});
    ops.push_back({"predict-stale", 'p', 0, -0.25, 0});
    if (cf.imus.size() > 1) {ops.erase(ops.begin() + 4);}
    unsigned n = static_cast<unsigned>(ops.size());
    R.Bound("alphabet " + cf.name, n);
    R.Parallel(Pow(n, depth), [&](size_t i, mc::Ctx & c) {
        auto w = Word(i, n, depth);
        std::string key = cf.name + ":";
        for (auto x : w) {key += " " + ops[x].name;}
        if (!R.Selected(key)) {return;}
        c.Key(key);
        World a(cf);
        std::vector<std::unique_ptr<World>> b;
        bool can_shift = !cf.initialize;
        if (can_shift) {
          // two offsets per word in turn, all of them in the thorough tier
          for (size_t s = 0; s < shifts.size(); ++s) {
            if (!R.thorough && s != i % shifts.size()) {continue;}
            b.emplace_back(new World(cf)); b.back()->shift = shifts[s];
          }
        }
        double first = 0, latest = 0; bool have = cf.initialize;
        for (unsigned k = 0; k < depth; ++k) {
          const WOp & o = ops[w[k]];
          std::string t = "after step " + std::to_string(k) + " " + o.name + ": ";
          double before_time = a.ekf->GetCurrentTime();
          auto before = Params(*a.ekf); MatrixXd Pb = a.ekf->m_cov;
          bool grav = a.ekf->IsGravityInitialized();
          double local = a.now + o.dt;             // World's clock of this message
          a.Apply(o);
          if (!have) {have = true; first = local; latest = 0;} else {latest = std::max(latest, local - first);}
          c.Transition(); c.State(HashEkf(*a.ekf));
          if (a.ekf->GetCurrentTime() != latest) {
            std::ostringstream s; s << t << "filter time " << a.ekf->GetCurrentTime() << " instead of " << latest; c.Fail(s.str()); break;
          }
          if (o.k == 'p') {
            bool stale = local - first < before_time;
            if (stale || !grav) {
              // clones may only appear when time moves
              std::string d = DiffParams(before, Params(*a.ekf), 0.0);
              if (stale && (!d.empty() || Params(*a.ekf).size() != before.size())) {c.Fail(t + "a stale prediction changed " + d); break;}
              if (!stale && cf.aug != AugmentationType::TIME && cf.aug != AugmentationType::ERROR && !d.empty()) {
                c.Fail(t + "a prediction before gravity initialisation changed " + d); break;
              }
              if (Pb.rows() == a.ekf->m_cov.rows() && Pb != a.ekf->m_cov) {c.Fail(t + "a prediction that must only move time changed the covariance"); break;}
            }
          }
          bool bad = false;
          for (auto & x : b) {
            x->Apply(o);
            std::string d = DiffParams(Params(*x->ekf), Params(*a.ekf), 1e-9);
            std::ostringstream s; s << t << "clock offset " << x->shift << ": ";
            if (!d.empty()) {c.Fail(s.str() + d); bad = true; break;}
            if (x->ekf->GetCurrentTime() != a.ekf->GetCurrentTime()) {c.Fail(s.str() + "filter time differs"); bad = true; break;}
            if (x->ekf->IsGravityInitialized() != a.ekf->IsGravityInitialized() || x->ekf->IsLlaInitialized() != a.ekf->IsLlaInitialized()) {
              c.Fail(s.str() + "initialisation differs"); bad = true; break;
            }
            MatrixXd P = FullCov(*a.ekf), Q = FullCov(*x->ekf);
            if (P.rows() != Q.rows() || !((P - Q).cwiseAbs().maxCoeff() <= 1e-9 * P.cwiseAbs().maxCoeff())) {
              c.Fail(s.str() + "covariance differs"); bad = true; break;
            }
          }
          if (bad) {break;}
        }
        c.Trace(); c.Sample(key);
      });
  }
  // CalculateLocalTime by itself: the reference is set once, by the first time asked for
  std::vector<double> ts = {0.0, -2.5, 7.25, 7.0, 4096.5, 1e-3};
  R.Parallel(Pow(ts.size(), 4) * 2, [&](size_t i, mc::Ctx & c) {
      auto w = Word(i / 2, static_cast<unsigned>(ts.size()), 4);
      bool init = i % 2;
      std::string key = std::string("clock") + (init ? "/init" : "") + ":";
      for (auto x : w) {key += " " + std::to_string(ts[x]);}
      if (!R.Selected(key)) {return;}
      c.Key(key);
      EKF e(BaseParams(false, AugmentationType::NONE));
      double ref = ts[w[0]];
      if (init) {e.Initialize(2.0, BodyState()); ref = 0;}
      for (auto x : w) {
        c.Transition(); c.Eval();
        double l = e.CalculateLocalTime(ts[x]);
        if (l != ts[x] - ref) {c.Fail("local time " + std::to_string(l) + " instead of " + std::to_string(ts[x] - ref)); break;}
        if (e.GetCurrentTime() != (init ? 2.0 : 0.0)) {c.Fail("asking for the local time moved the filter"); break;}
      }
      c.Trace();
    });
  return R.Finish();
}
