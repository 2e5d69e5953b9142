// C20: every correction is the optimal linear update for the true measurement model.
#include "lockstep.hpp"
using namespace meas;

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C20");
  std::vector<Cfg> cfgs;
  for (auto & c : MeasConfigs()) {
    cfgs.push_back(c);
    Cfg r = c; r.root = true; r.name += "/root"; cfgs.push_back(r);
  }
  R.rule = "all words of length d over messages of moving IMUs, GPS receivers, fiducial boards seen by cameras, camera frames with "
    "feature tracks of known or unknown position, stale messages and predictions; after every message the whole belief is "
    "compared with the textbook correction of a twin filter whose Jacobians are central differences of independently written "
    "measurement models along the filter's own correction; plus every periodic schedule of short period";
  unsigned depth = R.thorough ? 4 : 3;
  R.Bound("depth", depth); R.Bound("configurations", cfgs.size());
  R.assumptions = {"no lens distortion", "features are not within 0.1 mm of the accepted depth limits"};
  auto run = [&](const Cfg & cf, const std::vector<MOp> & ops, const std::vector<unsigned> & w, unsigned steps, const char * kind, mc::Ctx & c) {
      std::string key = cf.name + ":" + kind;
      for (auto x : w) {key += " " + ops[x].name;}
      if (!R.Selected(key)) {return;}
      c.Key(key);
      Lockstep L(cf);
      for (unsigned k = 0; k < steps; ++k) {
        const MOp & o = ops[w[k % w.size()]];
        if (!L.Apply(o)) {c.Count("undecided by rounding"); break;}
        c.Transition(); c.State(HashEkf(*L.a.ekf)); c.Eval();
        if (o.k == 'v' && L.last_used) {c.Count("feature corrections");}
        std::string d = L.Compare(1e-7);
        if (!d.empty()) {c.Fail("after step " + std::to_string(k) + " " + o.name + ": " + d); break;}
        L.Sync();
      }
      c.Trace(); c.Sample(key);
    };
  for (auto & cf : cfgs) {
    auto ops = MeasOps(cf);
    unsigned n = static_cast<unsigned>(ops.size());
    R.Bound("alphabet " + cf.name, n);
    R.Parallel(Pow(n, depth), [&](size_t i, mc::Ctx & c) {run(cf, ops, Word(i, n, depth), depth, "", c);});
    unsigned per = R.thorough ? 3 : 2;
    R.Parallel(Pow(n, per), [&](size_t i, mc::Ctx & c) {run(cf, ops, Word(i, n, per), 12, " periodic", c);});
  }
  return R.Finish();
}
