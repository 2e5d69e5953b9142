// C07: numerical health of the filter under every stream of valid messages.
#include "world.hpp"
using namespace world;

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C07");
  std::vector<Cfg> cfgs;
  for (auto & c : StdConfigs()) {
    cfgs.push_back(c);
    Cfg r = c; r.root = true; r.name += "/root"; cfgs.push_back(r);
  }
  {Cfg c = cfgs[2]; c.fej = true; c.name += "/fej"; cfgs.push_back(c);}
  {Cfg c = cfgs[2]; c.prior = 1.0; c.window = 2; c.name += "/loose"; cfgs.push_back(c);}
  {Cfg c = cfgs[3]; c.prior = 1e-4; c.window = 3; c.name += "/tight"; cfgs.push_back(c);}
  {Cfg c = cfgs[2]; c.gps_init = GpsInitType::BASELINE_DIST; c.gps_baseline = 1.0; c.name += "/gps-baseline"; cfgs.push_back(c);}
  R.rule = "all words of length d over sensor messages (rest, motion, jolt, GPS, camera frames with tracks, fiducials, stale "
    "messages) for every configuration in both covariance forms, plus every periodic schedule of short period over a long "
    "run; after every message: finite, unit quaternions, symmetric positive semi-definite covariance of the state's size; "
    "for every message that is a measurement at the current time: no eigenvalue of (before - after) is negative";
  unsigned depth = R.thorough ? 5 : 4;
  R.Bound("depth", depth); R.Bound("configurations", cfgs.size());
  auto run = [&](const Cfg & cf, const std::vector<WOp> & ops, const std::vector<unsigned> & w, unsigned steps, const char * kind, mc::Ctx & c) {
      std::string key = cf.name + ":" + kind;
      for (auto x : w) {key += " " + ops[x].name;}
      if (!R.Selected(key)) {return;}
      c.Key(key);
      World a(cf);
      for (unsigned k = 0; k < steps; ++k) {
        WOp o = ops[w[k % w.size()]];
        std::string t = "after step " + std::to_string(k) + " " + o.name + ": ";
        // bring the filter to the time of the message first
        double mt = a.MsgTime(std::max(a.now + o.dt, a.now));
        a.ekf->PredictModel(a.ekf->CalculateLocalTime(mt));
        std::string h = Health(*a.ekf);
        if (!h.empty()) {c.Fail(t + "(prediction) " + h); break;}
        FeatureTracks tr;
        if (o.k == 'v') {
          WOp f = o; f.var = -1; a.Apply(f);          // the frame itself: clone only
          tr = a.Tracks(o.id, 3);
          h = Health(*a.ekf);
          if (!h.empty()) {c.Fail(t + "(frame) " + h); break;}
        }
        MatrixXd before = FullCov(*a.ekf);
        if (o.k == 'v') {
          a.msckf.at(o.id)->UpdateEKF(*a.ekf, mt, tr, 0.5);
          if (!tr.empty()) {c.Count("vision updates");}
        } else {
          a.Apply(o);
        }
        c.Transition(); c.State(HashEkf(*a.ekf));
        h = Health(*a.ekf);
        if (!h.empty()) {c.Fail(t + h); break;}
        MatrixXd after = FullCov(*a.ekf);
        if (after.rows() == before.rows()) {
          MatrixXd D = before - after;
          Eigen::SelfAdjointEigenSolver<MatrixXd> es(0.5 * (D + D.transpose()), Eigen::EigenvaluesOnly);
          c.Eval();
          if (!(es.eigenvalues().minCoeff() >= -1e-8 * before.cwiseAbs().maxCoeff())) {
            std::ostringstream s; s << t << "uncertainty grew by " << -es.eigenvalues().minCoeff(); c.Fail(s.str()); break;
          }
        }
      }
      c.Trace(); c.Sample(key);
    };
  for (auto & cf : cfgs) {
    auto ops = StdOps(cf);
    unsigned n = static_cast<unsigned>(ops.size());
    R.Bound("alphabet " + cf.name, n);
    R.Parallel(Pow(n, depth), [&](size_t i, mc::Ctx & c) {run(cf, ops, Word(i, n, depth), depth, "", c);});
    unsigned per = R.thorough ? 3 : 2;
    R.Parallel(Pow(n, per), [&](size_t i, mc::Ctx & c) {run(cf, ops, Word(i, n, per), 30, " periodic", c);});
  }
  return R.Finish();
}
