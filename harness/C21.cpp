// C21: first-estimate Jacobians freeze the linearisation point of the sensor parameters, and nothing else.
#include "lockstep.hpp"
#include "geo.hpp"
using namespace meas;

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C21");
  std::vector<Cfg> cfgs;
  for (auto c : MeasConfigs()) {
    c.fej = true;
    cfgs.push_back(c);
    Cfg r = c; r.root = true; r.name += "/root"; cfgs.push_back(r);
  }
  R.rule = "all words of length d over messages of moving IMUs, GPS receivers, fiducial boards, camera frames with feature tracks "
    "and predictions, with first-estimate Jacobians on; after every message the belief is compared with the textbook "
    "correction whose residual uses the current estimate and whose Jacobian is the central difference of the measurement "
    "model with that updater's sensor parameters at the values of its first correction; plus periodic schedules, and a "
    "lockstep with a filter without first-estimate Jacobians until the first repeated correction";
  unsigned depth = R.thorough ? 4 : 3;
  R.Bound("depth", depth); R.Bound("configurations", cfgs.size());
  R.assumptions = {"no lens distortion"};
  auto run = [&](const Cfg & cf, const std::vector<MOp> & ops, const std::vector<unsigned> & w, unsigned steps, const char * kind, mc::Ctx & c) {
      std::string key = cf.name + ":" + kind;
      for (auto x : w) {key += " " + ops[x].name;}
      if (!R.Selected(key)) {return;}
      c.Key(key);
      Lockstep L(cf);
      Cfg pc = cf; pc.fej = false;
      Lockstep N(pc);
      std::set<std::string> used;
      bool fresh = true;
      for (unsigned k = 0; k < steps; ++k) {
        const MOp & o = ops[w[k % w.size()]];
        bool ok = L.Apply(o);
        if (!ok) {c.Count("undecided by rounding"); break;}
        c.Transition(); c.State(HashEkf(*L.a.ekf)); c.Eval();
        std::string t = "after step " + std::to_string(k) + " " + o.name + ": ";
        std::string d = L.Compare(1e-7);
        if (!d.empty()) {c.Fail(t + d); break;}
        L.Sync();
        // until some updater corrects twice there is nothing to freeze
        if (fresh) {
          std::string u = std::string(1, o.k) + std::to_string(o.id) + "/" + std::to_string(o.cam);
          bool corrects = (o.k == 'g' || o.k == 'f' || o.k == 'v') && L.last_used > 0;
          fresh = !corrects || used.insert(u).second;
        }
        if (!N.Apply(o)) {c.Count("undecided by rounding"); break;}
        d = N.Compare(1e-7);
        if (!d.empty()) {c.Fail(t + "without first-estimate Jacobians: " + d); break;}
        N.Sync();
        d = DiffParams(Params(*L.a.ekf), Params(*N.a.ekf), 1e-12);
        if (fresh && !d.empty()) {c.Fail(t + "first correction differs from the one without first-estimate Jacobians: " + d); break;}
        if (!d.empty()) {c.Count("states where freezing matters");}
      }
      c.Trace(); c.Sample(key);
    };
  for (auto & cf : cfgs) {
    auto ops = MeasOps(cf);
    unsigned n = static_cast<unsigned>(ops.size());
    R.Bound("alphabet " + cf.name, n);
    R.Parallel(Pow(n, depth), [&](size_t i, mc::Ctx & c) {run(cf, ops, Word(i, n, depth), depth, "", c);});
    unsigned per = R.thorough ? 3 : 2;
    R.Parallel(Pow(n, per), [&](size_t i, mc::Ctx & c) {run(cf, ops, Word(i, n, per), 12, " periodic", c);});
  }
  // the collected readings that initialise the GPS reference are a receiver's first correction too
  const unsigned len = R.thorough ? 9 : 7;
  struct G {const char * n; Vector3d move; unsigned gps;};
  std::vector<G> gops = {{"a3", {4, 0.5, 0}, 3}, {"a7", {0.2, 3, 0.5}, 7}, {"b3", {-2.5, -3, 0.1}, 3}};
  const unsigned gn = static_cast<unsigned>(gops.size());
  R.Bound("initialisation word length", len);
  R.Parallel(Pow(gn, len) * 4, [&](size_t i, mc::Ctx & c) {
      bool fej = i % 2 == 0, root = (i / 2) % 2;
      auto w = Word(i / 4, gn, len);
      std::string key = std::string("init ") + (fej ? "first-estimate" : "current") + (root ? " root:" : ":");
      for (auto x : w) {key += std::string(" ") + gops[x].n;}
      if (!R.Selected(key)) {return;}
      c.Key(key);
      Vector3d ref(-33.9, 151.2, 40); double ang = 0.7;
      auto log = std::make_shared<DebugLogger>(LogLevel::FATAL, "");
      EKF::Parameters p; p.debug_logger = log; p.use_root_covariance = root; p.gps_init_type = GpsInitType::BASELINE_DIST;
      p.gps_init_baseline_dist = 5.5; p.augmenting_type = AugmentationType::NONE; p.use_first_estimate_jacobian = fej;
      EKF e(p);
      std::map<unsigned, Vector3d> ant = {{3, {0.8, -0.5, 0.3}}, {7, {-0.4, 0.9, 1.1}}}, first;
      std::map<unsigned, std::shared_ptr<GpsUpdater>> up;
      for (auto & x : ant) {
        GpsState g; g.pos_a_in_b = x.second; g.SetIsExtrinsic(true); g.pos_stability = 1e-3;
        e.RegisterGPS(x.first, g, MatrixXd::Identity(3, 3) * 0.01);
        up[x.first] = std::make_shared<GpsUpdater>(x.first, true, "", 0.0, log);
      }
      Vector3d pos(3, -2, 1); Quaterniond att = Exp(Vector3d(0.1, -0.2, 0.4));
      for (unsigned s = 0; s < len; ++s) {
        const G & o = gops[w[s]];
        pos += o.move; att = Exp(Vector3d(0.02, 0.05, 0.3)) * att;
        Vector3d a = ant[o.gps];
        if (e.IsLlaInitialized()) {a += Vector3d(0.2, -0.3, 0.25) * (s + 1.0);}
        e.PredictModel(e.CalculateLocalTime(1.0 + 0.5 * s));
        e.m_state.body_state.pos_b_in_l = pos; e.m_state.body_state.ang_b_to_l = att;
        for (auto & x : ant) {e.m_state.gps_states[x.first].pos_a_in_b = x.second;}
        e.m_state.gps_states[o.gps].pos_a_in_b = a;
        Vector3d lla = geo::LlaNear(geo::FromLocal(pos + att * a, ang), ref);
        MatrixXd P = FullCov(e);
        bool was = e.IsLlaInitialized();
        up[o.gps]->UpdateEKF(e, 1.0 + 0.5 * s, lla, MatrixXd(Matrix3d::Identity() * 0.01));
        c.Transition();
        if (!e.IsLlaInitialized()) {continue;}
        first.insert({o.gps, a});
        c.State(mc::Hash().m(a).m(pos).h);
        if (!was) {c.Count("initialisations"); continue;}
        Vector3d l = fej ? first[o.gps] : a;
        MatrixXd H = MatrixXd::Zero(3, P.rows());
        Matrix3d rot = att.toRotationMatrix();
        Matrix3d sk; sk << 0, -l(2), l(1), l(2), 0, -l(0), -l(1), l(0), 0;
        H.block<3, 3>(0, 0) = Matrix3d::Identity(); H.block<3, 3>(0, 9) = -rot * sk;
        H.block<3, 3>(0, e.m_state.gps_states[o.gps].index) = rot;
        Matrix3d S3 = H * P * H.transpose() + Matrix3d(Matrix3d::Identity() * 0.01);
        MatrixXd want = P - P * H.transpose() * S3.inverse() * H * P;
        double dp = (FullCov(e) - want).cwiseAbs().maxCoeff();
        c.Eval(); c.Count("corrections after initialisation");
        if (!(dp < 1e-9 + 1e-7 * P.cwiseAbs().maxCoeff())) {
          std::ostringstream q; q << "message " << s << " " << o.n << ": the covariance differs by " << dp << " from the correction linearised at the antenna position of the receiver's first correction";
          if (!fej) {q << " (option off: the current position)";}
          c.Fail(q.str()); break;
        }
      }
      c.Trace(); c.Sample(key);
    });
  return R.Finish();
}
