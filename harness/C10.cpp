// C10: the square-root filter is the same filter.
#include "world.hpp"
using namespace world;

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C10");
  auto cfgs = StdConfigs();
  R.rule = "all words of length d over the sensor messages (IMU at rest / moving / jolt, GPS, camera frame with feature "
    "tracks, fiducial, stale message) of every configuration, run in lockstep on a full and a square-root filter; all "
    "parameters and the joint covariance compared after every message; plus periodic schedules";
  unsigned depth = R.thorough ? 5 : 4;
  R.Bound("depth", depth); R.Bound("configurations", cfgs.size());
  auto run = [&](const Cfg & base, const std::vector<WOp> & ops, const std::vector<unsigned> & w, unsigned steps,
      const char * kind, mc::Ctx & c) {
      std::string key = base.name + ":" + kind;
      for (auto x : w) {key += " " + ops[x].name;}
      if (!R.Selected(key)) {return;}
      c.Key(key);
      Cfg f = base, r = base; f.root = false; r.root = true;
      World a(f), b(r);
      for (unsigned k = 0; k < steps; ++k) {
        const WOp & o = ops[w[k % w.size()]];
        a.Apply(o); b.Apply(o);
        c.Transition(); c.State(HashEkf(*a.ekf));
        std::string t = "after step " + std::to_string(k) + " " + o.name + ": ";
        std::string d = DiffParams(Params(*b.ekf), Params(*a.ekf), 1e-5);
        if (!d.empty()) {c.Fail(t + "square-root filter differs: " + d); break;}
        if (a.ekf->GetCurrentTime() != b.ekf->GetCurrentTime()) {c.Fail(t + "time differs"); break;}
        if (a.ekf->IsGravityInitialized() != b.ekf->IsGravityInitialized()) {c.Fail(t + "gravity initialisation differs"); break;}
        MatrixXd P = FullCov(*a.ekf), Q = FullCov(*b.ekf);
        if (P.rows() != Q.rows()) {c.Fail(t + "covariance size differs"); break;}
        double sc = P.cwiseAbs().maxCoeff(), df = (P - Q).cwiseAbs().maxCoeff();
        if (!(df <= 1e-5 * sc)) {std::ostringstream s; s << t << "covariance differs by " << df << " of " << sc; c.Fail(s.str()); break;}
      }
      c.Trace(); c.Sample(key); c.Count("vision updates", a.vision_updates);
    };
  for (auto & cf : cfgs) {
    auto ops = StdOps(cf);
    unsigned n = static_cast<unsigned>(ops.size());
    R.Bound("alphabet " + cf.name, n);
    R.Parallel(Pow(n, depth), [&](size_t i, mc::Ctx & c) {run(cf, ops, Word(i, n, depth), depth, "", c);});
    unsigned per = R.thorough ? 3 : 2;
    R.Parallel(Pow(n, per), [&](size_t i, mc::Ctx & c) {run(cf, ops, Word(i, n, per), 16, " periodic", c);});
  }
  return R.Finish();
}
