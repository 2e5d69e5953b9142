// C14: initialisation of the GPS reference (local frame <-> earth).
#include "world.hpp"
#include "geo.hpp"
using namespace world;

namespace
{
struct Step {const char * n; Vector3d move; Vector3d err; unsigned gps;};
struct Conf {std::string n; Vector3d ref; double ang; GpsInitType type; double base, pt, at; bool root; Vector3d start; bool ext, late;};
}

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C14");
  std::vector<Step> ops = {
    {"stay", {0, 0, 0}, {0, 0, 0}, 3}, {"x4", {4, 0, 0}, {0, 0, 0}, 3}, {"y3", {0.2, 3, 0.5}, {0, 0, 0}, 7},
    {"back", {-2.5, -1, 0.1}, {0, 0, 0}, 3}, {"near", {0.3, 0.2, 0}, {0, 0, 0}, 7},
    {"noisy", {1, 2, 0}, {1.5, -0.8, 0.5}, 3}, {"bump", {-1, 2.5, 0}, {-0.05, 0.04, 0.02}, 3}};
  std::vector<Vector3d> refs = {{0.001, 0.001, 0}, {-33.9, 151.2, 40}, {64.1, -21.9, -20}, {10.0, 179.99998, 100}, {85.0, -179.99995, 5}};
  std::vector<double> angs = {0.0, 0.7, -0.7, 2.4, -2.4, M_PI - 0.01, -M_PI / 2};
  std::vector<Conf> cfgs;
  unsigned k = 0;
  for (size_t a = 0; a < angs.size(); ++a) {
    for (int t = 0; t < 4; ++t) {
      Conf c; c.ref = refs[k % refs.size()]; c.ang = angs[a]; c.root = (k / 2) % 2; c.ext = (k / 3) % 2 == 0; c.late = k % 5 < 2;
      c.type = t < 2 ? GpsInitType::BASELINE_DIST : GpsInitType::ERROR_THRESHOLD;
      c.base = t == 0 ? 1.1 : 5.5; c.pt = t == 2 ? 0.3 : 0.02; c.at = t == 2 ? 0.15 : 0.02;
      c.start = k % 3 == 0 ? Vector3d(0, 0, 0) : k % 3 == 1 ? Vector3d(12, -20, 3) : Vector3d(-15, 9, -4);
      std::ostringstream o; o << "heading" << c.ang << " ref" << k % refs.size() << (t < 2 ? " baseline" : " error") << (t % 2 ? " strict" : " loose") << (c.root ? " root" : "") << (c.ext ? " ext" : "") << (c.late ? " late" : "");
      c.n = o.str(); cfgs.push_back(c); ++k;
    }
  }
  unsigned depth = R.thorough ? 7 : 5;
  R.rule = "all words of length d over GPS messages of two receivers (standing, moving, turning, exact or disturbed) for "
    "headings over the whole circle, reference points including the date line and high latitude, both initialisation "
    "criteria, messages in and out of time order; in lockstep with the criterion and the closed-form least-squares planar alignment";
  R.Bound("alphabet", ops.size()); R.Bound("depth", depth); R.Bound("configurations", cfgs.size());
  R.assumptions = {"positions within 50 m of the local origin, so that earth curvature stays below the tolerance of 2 mm"};
  const unsigned n = static_cast<unsigned>(ops.size());
  const uint64_t words = Pow(n, depth);
  R.Parallel(words * cfgs.size(), [&](size_t i, mc::Ctx & c) {
      const Conf & cf = cfgs[i % cfgs.size()];
      auto w = Word(i / cfgs.size(), n, depth);
      std::string key = cf.n + ":";
      for (auto x : w) {key += std::string(" ") + ops[x].n;}
      if (!R.Selected(key)) {return;}
      c.Key(key);
      auto log = std::make_shared<DebugLogger>(LogLevel::FATAL, "");
      EKF::Parameters p; p.debug_logger = log; p.use_root_covariance = cf.root; p.gps_init_type = cf.type;
      p.gps_init_baseline_dist = cf.base; p.gps_init_pos_thresh = cf.pt; p.gps_init_ang_thresh = cf.at;
      p.augmenting_type = AugmentationType::NONE;
      EKF e(p);
      std::map<unsigned, Vector3d> ant = {{3, {0.8, -0.5, 0.3}}, {7, {-0.4, 0.9, 1.1}}};
      std::map<unsigned, std::shared_ptr<GpsUpdater>> up;
      for (auto & x : ant) {
        GpsState g; g.pos_a_in_b = x.second; g.SetIsExtrinsic(cf.ext); g.pos_stability = 1e-3;
        e.RegisterGPS(x.first, g, MatrixXd::Identity(3, 3) * 0.01);
        up[x.first] = std::make_shared<GpsUpdater>(x.first, cf.ext, "", 0.0, log);
      }
      Vector3d pos = cf.start; Quaterniond att = Exp(Vector3d(0.1, -0.2, 0.4));
      std::vector<Vector3d> loc, enu; std::set<unsigned> rcv;
      bool init = false; Vector3d ref0; double ang0 = 0;
      for (unsigned s = 0; s < depth; ++s) {
        const Step & o = ops[w[s]];
        std::string t = "message " + std::to_string(s) + " " + o.n + ": ";
        pos += o.move;
        if (o.move.norm() > 0) {att = Exp(Vector3d(0.02, 0.05, 0.3)) * att;}
        e.m_state.body_state.pos_b_in_l = pos; e.m_state.body_state.ang_b_to_l = att;
        for (auto & x : ant) {e.m_state.gps_states[x.first].pos_a_in_b = x.second;}
        Vector3d pa = pos + att * ant[o.gps];
        Vector3d en = geo::FromLocal(pa, cf.ang) + o.err;
        Vector3d lla = geo::LlaNear(en, cf.ref);
        VectorXd before = e.m_state.ToVector(); MatrixXd P = FullCov(e);
        up[o.gps]->UpdateEKF(e, 1.0 + 0.5 * (cf.late ? s ^ 1u : s), lla, MatrixXd(Matrix3d::Identity() * 0.01));
        c.Transition();
        if (init) {
          if (!e.IsLlaInitialized() || (Vector3d(e.GetReferenceLLA()) - ref0).norm() != 0 || e.GetReferenceAngle() != ang0) {c.Fail(t + "the reference changed after initialisation"); break;}
          continue;
        }
        loc.push_back(pa); enu.push_back(en); rcv.insert(o.gps);
        c.State(mc::Hash().m(pa).m(en).u(loc.size()).h);
        // model
        size_t m = loc.size();
        Vector3d cl = Vector3d::Zero(), ce = Vector3d::Zero();
        for (size_t j = 0; j < m; ++j) {cl += loc[j] / m; ce += enu[j] / m;}
        double S = 0, C = 0, base = 0, spread = 0;
        for (size_t j = 0; j < m; ++j) {
          Vector3d a = loc[j] - cl, b = enu[j] - ce;
          C += a(0) * b(0) + a(1) * b(1); S += a(1) * b(0) - a(0) * b(1);
          spread = std::max(spread, a.head<2>().norm());
          for (size_t q = 0; q < j; ++q) {base = std::max(base, (enu[j] - enu[q]).head<2>().norm());}
        }
        double th = std::atan2(S, C);
        Vector3d tr = cl - geo::ToLocal(ce, th);
        double sq = 0, sl = 0; unsigned cnt = 0; bool edge = false;
        for (size_t j = 0; j < m; ++j) {
          Vector3d er = loc[j] - geo::ToLocal(enu[j], th) - tr;
          sq += er.squaredNorm();
          double d = (loc[j] - cl).norm();
          edge = edge || (m >= 4 && spread > 0 && std::abs(d - er.norm()) < 1e-3);
          if (d > er.norm()) {sl += er.squaredNorm() / d / d; ++cnt;}
        }
        double ps = std::sqrt(sq) / m, as = cnt ? std::sqrt(sl) / cnt : 0;
        bool want = false;
        if (m >= 4 && cf.type == GpsInitType::BASELINE_DIST) {
          if (std::abs(base - cf.base) < 1e-3) {c.Count("undecided by rounding"); break;}
          want = base > cf.base;
        } else if (m >= 4) {
          bool still = spread < 1e-9;
          if (!still && (edge || std::abs(ps - cf.pt) < 1e-4 || std::abs(as - std::tan(cf.at)) < 1e-4)) {c.Count("undecided by rounding"); break;}
          want = !still && cnt > 0 && ps < cf.pt && as < std::tan(cf.at);
        }
        c.Eval();
        if (e.IsLlaInitialized() != want) {
          std::ostringstream q; q << t << (want ? "not initialised" : "initialised") << " with " << m << " messages, baseline " << base << ", position error " << ps << ", angle error " << as;
          c.Fail(q.str()); break;
        }
        VectorXd after = e.m_state.ToVector();
        if (!want) {
          if (after != before || (FullCov(e) - P).cwiseAbs().maxCoeff() != 0) {c.Fail(t + "a GPS message before initialisation changed the estimate"); break;}
          c.Count("messages before initialisation"); continue;
        }
        init = true; ref0 = e.GetReferenceLLA(); ang0 = e.GetReferenceAngle();
        c.Count("initialisations");
        double da = std::remainder(ang0 - th, 2 * M_PI);
        if (!(std::abs(da) < 1e-4)) {std::ostringstream q; q << t << "heading " << ang0 << " instead of " << th; c.Fail(q.str()); break;}
        bool bad = false;
        for (Vector3d q : {Vector3d(0, 0, 0), Vector3d(20, 0, 0), Vector3d(0, -20, 5), Vector3d(-15, 10, -5), Vector3d(ce)}) {
          Vector3d l = enu_to_local(lla_to_enu(geo::LlaNear(q, cf.ref), ref0), ang0);
          Vector3d x = geo::ToLocal(q, th) + tr;
          if (!((l - x).norm() < 2e-3)) {std::ostringstream m2; m2 << t << "GPS position converts to local " << l.transpose() << " instead of " << x.transpose(); c.Fail(m2.str()); bad = true; break;}
        }
        if (bad) {break;}
        if (!((after - before).cwiseAbs().maxCoeff() < 2e-3)) {std::ostringstream q; q << t << "initialisation moved the estimate by " << (after - before).cwiseAbs().maxCoeff(); c.Fail(q.str()); break;}
        // the collected readings count as one correction at the current estimate
        MatrixXd Pn = FullCov(e);
        if (rcv.size() == 1) {
          MatrixXd H = MatrixXd::Zero(3, P.rows());
          Matrix3d rot = att.toRotationMatrix(); Vector3d a = ant[o.gps];
          Matrix3d sk; sk << 0, -a(2), a(1), a(2), 0, -a(0), -a(1), a(0), 0;
          H.block<3, 3>(0, 0) = Matrix3d::Identity(); H.block<3, 3>(0, 9) = -rot * sk;
          if (cf.ext) {H.block<3, 3>(0, e.m_state.gps_states[o.gps].index) = rot;}
          Matrix3d S3 = H * P * H.transpose() + Matrix3d(Matrix3d::Identity() / static_cast<double>(m));
          MatrixXd want_p = P - P * H.transpose() * S3.inverse() * H * P;
          double dp = (Pn - want_p).cwiseAbs().maxCoeff();
          if (!(dp < 1e-9 + 1e-6 * P.cwiseAbs().maxCoeff())) {
            std::ostringstream q; q << t << "initialisation leaves a covariance that differs by " << dp << " from one correction by the " << m << " collected readings"; c.Fail(q.str()); break;
          }
          c.Count("corrections by collected readings compared");
        } else if (!(Pn.block<3, 3>(0, 0).trace() < P.block<3, 3>(0, 0).trace())) {
          c.Fail(t + "the collected readings do not reduce the position uncertainty"); break;
        }
      }
      c.Trace(); c.Sample(key);
    });
  // CONSTANT, and a reference set explicitly
  R.Parallel(refs.size() * angs.size() * 2, [&](size_t i, mc::Ctx & c) {
      Vector3d ref = refs[i % refs.size()]; double ang = angs[(i / refs.size()) % angs.size()];
      bool set = i / refs.size() / angs.size();
      std::string key = "constant " + std::to_string(i);
      if (!R.Selected(key)) {return;}
      c.Key(key);
      EKF::Parameters p; p.debug_logger = std::make_shared<DebugLogger>(LogLevel::FATAL, "");
      p.augmenting_type = AugmentationType::NONE;
      p.gps_init_type = set ? GpsInitType::BASELINE_DIST : GpsInitType::CONSTANT;
      if (!set) {p.pos_e_in_g = ref; p.ang_l_to_e = ang;}
      EKF e(p);
      c.Check(e.IsLlaInitialized() == !set, "initialised state at start");
      if (set) {e.SetGpsReference(ref, ang);}
      GpsState g; g.pos_a_in_b = Vector3d(0.5, 1, -0.3);
      e.RegisterGPS(2, g, MatrixXd::Identity(3, 3));
      GpsUpdater u(2, false, "", 0.0, p.debug_logger);
      for (int s = 0; s < 6; ++s) {
        c.Transition(); c.Eval();
        Vector3d pos(3.0 * s, -2.0 * s * s, 0.5 * s);
        Quaterniond att = Exp(Vector3d(0.1 * s, 0.2, -0.3));
        e.m_state.body_state.pos_b_in_l = pos; e.m_state.body_state.ang_b_to_l = att;
        Vector3d lla = geo::LlaNear(geo::FromLocal(pos + att * g.pos_a_in_b, ang), ref);
        VectorXd b = e.m_state.ToVector();
        u.UpdateEKF(e, 1.0 + s, lla, MatrixXd(Matrix3d::Identity() * 0.01));
        c.Check(e.IsLlaInitialized() && Vector3d(e.GetReferenceLLA()) == ref && e.GetReferenceAngle() == ang, "the reference is not the configured one");
        c.Check((e.m_state.ToVector() - b).norm() < 1e-5, "a GPS message at the estimated antenna position moves the estimate");
        c.State(mc::Hash().m(lla).h);
      }
      c.Trace();
    });
  return R.Finish();
}
