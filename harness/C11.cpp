// C11: only parameters flagged for calibration are estimated, and those are.
#include "world.hpp"
using namespace world;

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C11");
  std::vector<Cfg> cfgs;
  for (int a = 0; a < 4; ++a) {
    for (int b = -1; b < 4; ++b) {
      for (int g = 0; g < 2; ++g) {
        for (int k = 0; k < 4; ++k) {
          for (int f = 0; f < 2; ++f) {
            Cfg c; c.imus = {{4, a}}; if (b >= 0) {c.imus.push_back({2, b});}
            c.gpss = {{3, g != 0}}; c.cams = {{8, (k & 1) != 0}, {5, (k & 2) != 0}}; c.fids = {{6, f != 0}, {9, f == 0}};
            c.aug = (a + g + f) % 2 ? AugmentationType::PRIMARY : AugmentationType::ALL;
            c.root = (a + k) % 2; c.start_gravity = b != 0; c.window = 3;
            c.name = "imu" + std::to_string(a) + "." + std::to_string(b) + " gps" + std::to_string(g) + " cam" + std::to_string(k) + " fid" + std::to_string(f);
            cfgs.push_back(c);
          }
        }
      }
    }
  }
  R.rule = "every combination of calibration flags over two IMUs (none/extrinsic/intrinsic/both), a GPS, two cameras and two "
    "fiducials; all words of length d over their messages: parameters not flagged keep exactly their registered values; "
    "in a long schedule with excitation every flagged parameter group is corrected and its variance falls";
  unsigned depth = R.thorough ? 4 : 2;
  R.Bound("configurations", cfgs.size()); R.Bound("depth", depth);
  auto ops = [](const Cfg & c) {
      auto r = StdOps(c);
      r.push_back({"fid9", 'f', 9, 0.125, 5});
      return r;
    };
  auto frozen = [](const Cfg & c, const std::string & n) {
      for (auto & x : c.imus) {
        std::string p = "imu" + std::to_string(x.first) + ".";
        if (n == p + "pos" || n == p + "ang") {return !(x.second & 1);}
        if (n == p + "ab" || n == p + "wb") {return !(x.second & 2);}
      }
      for (auto & x : c.gpss) {if (n.rfind("gps" + std::to_string(x.first), 0) == 0) {return !x.second;}}
      for (auto & x : c.cams) {
        if (n.rfind("cam" + std::to_string(x.first), 0) == 0) {return !x.second || n.find("intrinsics") != std::string::npos;}
      }
      for (auto & x : c.fids) {if (n.rfind("fid" + std::to_string(x.first), 0) == 0) {return !x.second;}}
      return false;
    };
  auto run = [&](const Cfg & cf, const std::vector<WOp> & o, const std::vector<unsigned> & w, unsigned steps, const char * kind, mc::Ctx & c) {
      std::string key = cf.name + ":" + kind;
      for (auto x : w) {key += " " + o[x].name;}
      if (!R.Selected(key)) {return;}
      c.Key(key);
      World a(cf);
      auto start = Params(*a.ekf);
      for (unsigned k = 0; k < steps; ++k) {
        const WOp & q = o[w[k % w.size()]];
        a.Apply(q);
        c.Transition(); c.State(HashEkf(*a.ekf));
        auto now = Params(*a.ekf);
        for (auto & x : start) {
          if (!frozen(cf, x.first)) {continue;}
          c.Eval();
          auto it = now.find(x.first);
          if (it == now.end() || it->second != x.second) {
            c.Fail("after step " + std::to_string(k) + " " + q.name + ": " + x.first + " is not calibrated but changed"); k = steps; break;
          }
        }
        if (now.size() < start.size()) {c.Fail("a sensor disappeared"); break;}
      }
      c.Trace(); c.Sample(key);
    };
  for (auto & cf : cfgs) {
    auto o = ops(cf); unsigned n = static_cast<unsigned>(o.size());
    R.Parallel(Pow(n, depth), [&](size_t i, mc::Ctx & c) {run(cf, o, Word(i, n, depth), depth, "", c);});
    R.Parallel(n, [&](size_t i, mc::Ctx & c) {
        std::vector<unsigned> w = {static_cast<unsigned>(i), static_cast<unsigned>((i + 1) % n), static_cast<unsigned>((i + 3) % n)};
        run(cf, o, w, 15, " periodic", c);
      });
  }
  // a parameter that is not flagged is one that is known exactly: flagging it with no variance changes nothing
  std::vector<Cfg> twins;
  for (size_t i = 0; i < cfgs.size(); ++i) {if (R.thorough || i % 3 == 0) {twins.push_back(cfgs[i]);}}
  for (auto & cf : twins) {
    auto o = ops(cf); unsigned n = static_cast<unsigned>(o.size());
    unsigned dt = R.thorough ? 3 : 2;
    R.Parallel(Pow(n, dt), [&](size_t i, mc::Ctx & c) {
        auto w = Word(i, n, dt);
        std::string key = cf.name + ": exact";
        for (auto x : w) {key += " " + o[x].name;}
        if (!R.Selected(key)) {return;}
        c.Key(key);
        Cfg all = cf;
        for (auto & x : all.imus) {if (!(x.second & 1)) {x.second |= 1; all.exact.insert({'i', x.first});}}
        for (auto & x : all.gpss) {if (!x.second) {x.second = true; all.exact.insert({'g', x.first});}}
        for (auto & x : all.cams) {if (!x.second) {x.second = true; all.exact.insert({'c', x.first});}}
        for (auto & x : all.fids) {if (!x.second) {x.second = true; all.exact.insert({'f', x.first});}}
        World a(cf), b(all);
        for (unsigned k = 0; k < 2 * dt; ++k) {
          const WOp & q = o[w[k % dt]];
          a.Apply(q); b.Apply(q);
          c.Transition(); c.Eval(); c.State(HashEkf(*b.ekf));
          std::string d = DiffParams(Params(*b.ekf), Params(*a.ekf), 1e-6);
          if (d.empty()) {
            MatrixXd A = FullCov(*a.ekf), B = FullCov(*b.ekf);
            // the body's part of the covariance
            for (int x = 0; x < 18 && d.empty(); ++x) {
              for (int y = 0; y < 18; ++y) {
                if (!(std::abs(A(x, y) - B(x, y)) <= 1e-5 * (std::sqrt(A(x, x) * A(y, y)) + 1e-12))) {
                  std::ostringstream m; m << "covariance (" << x << "," << y << ") " << B(x, y) << " instead of " << A(x, y); d = m.str(); break;
                }
              }
            }
          }
          if (!d.empty()) {c.Fail("after step " + std::to_string(k) + " " + q.name + ": flagging exactly known parameters changes the estimate: " + d); break;}
        }
        c.Trace();
      });
  }
  // every flagged parameter responds
  R.Parallel(cfgs.size(), [&](size_t i, mc::Ctx & c) {
      Cfg cf = cfgs[i]; cf.start_gravity = false; cf.chi = 5.0;
      std::string key = cf.name + ": response";
      if (!R.Selected(key)) {return;}
      c.Key(key);
      World a(cf);
      auto start = Params(*a.ekf);
      VectorXd d0 = FullCov(*a.ekf).diagonal();
      unsigned n0 = a.ekf->GetStateSize();
      for (auto & x : cf.imus) {for (int k = 0; k < 3; ++k) {a.Apply({"rest", 'i', x.first, 0.125, 0});}}
      auto rest = Params(*a.ekf);
      for (auto & x : cf.gpss) {a.Apply({"gps", 'g', x.first, 0.125, 1});}
      for (int k = 0; k < 2; ++k) {
        for (auto & x : cf.fids) {for (auto & y : cf.cams) {a.Apply({"fid", 'f', x.first, 0.125, static_cast<int>(y.first)});}}
      }
      c.Transition(12);
      auto end = Params(*a.ekf);
      VectorXd d1 = FullCov(*a.ekf).diagonal();
      for (auto & x : end) {
        if (x.first.rfind("body", 0) == 0 || x.first.rfind("aug", 0) == 0 || frozen(cf, x.first)) {continue;}
        bool imu_pos = x.first.rfind("imu", 0) == 0 && x.first.find("pos") != std::string::npos;
        if (imu_pos) {continue;}       // not observable at rest
        c.Eval();
        c.Check((x.second - start[x.first]).norm() > 1e-12, x.first + " is flagged for calibration but never corrected");
      }
      c.Check(a.ekf->GetStateSize() == n0, "state size changed without a frame");
      // predictions add the stability terms only, so information must have reduced each calibrated variance on balance
      for (auto & x : cf.gpss) {
        if (x.second) {
          unsigned k = a.ekf->m_state.gps_states[x.first].index;
          c.Check(d1.segment(k, 3).sum() < d0.segment(k, 3).sum(), "GPS antenna variance did not fall");
        }
      }
      for (auto & x : cf.fids) {
        if (x.second) {
          unsigned k = a.ekf->m_state.fid_states[x.first].index;
          c.Check(d1.segment(k, 3).sum() < d0.segment(k, 3).sum() && d1.segment(k + 3, 3).sum() < d0.segment(k + 3, 3).sum(), "fiducial pose variance did not fall");
        }
      }
      for (auto & x : cf.cams) {
        if (x.second) {
          unsigned k = a.ekf->m_state.cam_states[x.first].index;
          c.Check(d1.segment(k, 3).sum() < d0.segment(k, 3).sum() && d1.segment(k + 3, 3).sum() < d0.segment(k + 3, 3).sum(), "camera pose variance did not fall");
        }
      }
      c.Trace();
    });
  return R.Finish();
}
