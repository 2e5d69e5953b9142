// C04: when clones are created and retired, for every augmentation type.
#include "ref_ekf.hpp"
using namespace ref;

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C04");
  // K* moves the body as a measurement correction would
  struct Act {std::string n; char k; unsigned id; double x;};
  std::vector<Act> A = {
    {"f8", 'F', 8, 0}, {"f3", 'F', 3, 0}, {"p.17", 'P', 0, 0.17}, {"p.43", 'P', 0, 0.43}, {"p1.3", 'P', 0, 1.3},
    {"kpos", 'K', 0, 0.13}, {"kang", 'K', 1, 0.27}, {"p-", 'P', 0, -0.1}};
  struct Cfg {std::string n; AugmentationType t; unsigned len; double dt, pe, ae; double rate8, rate3; bool swap;};
  std::vector<Cfg> cfgs;
  for (unsigned len : {1u, 2u, 4u}) {
    cfgs.push_back({"ALL", AugmentationType::ALL, len, 1, 1, 1, 2, 4, false});
    cfgs.push_back({"PRIMARY", AugmentationType::PRIMARY, len, 1, 1, 1, 2, 4, false});
    cfgs.push_back({"PRIMARYswap", AugmentationType::PRIMARY, len, 1, 1, 1, 2, 4, true});
    for (double dt : {0.3, 0.9}) {cfgs.push_back({"TIME" + std::to_string(dt), AugmentationType::TIME, len, dt, 1, 1, 2, 4, false});}
    cfgs.push_back({"ERRORpos", AugmentationType::ERROR, len, 1, 0.1, 9, 3, 5, false});
    cfgs.push_back({"ERRORang", AugmentationType::ERROR, len, 1, 9, 0.2, 3, 5, false});
    cfgs.push_back({"ERRORslow", AugmentationType::ERROR, len, 1, 0.1, 0.2, 0.7, 1.1, true});
  }
  cfgs.push_back({"NONE", AugmentationType::NONE, 2, 0.3, 0.1, 0.1, 2, 4, false});
  R.rule = "all words of length d over frames of two cameras, predictions (one stale), position and attitude "
    "corrections, for every augmentation type, window length, camera rate and camera registration order; the set of "
    "clones (key, frame id, time, pose) is compared with the policy model after every operation; plus periodic schedules";
  unsigned depth = R.thorough ? 6 : 5;
  R.Bound("alphabet", A.size()); R.Bound("depth", depth); R.Bound("configurations", cfgs.size());
  auto run = [&](mc::Ctx & c, const Cfg & cf, const std::vector<unsigned> & w, unsigned steps, const std::string & kind) {
      std::string key = cf.n + "/" + std::to_string(cf.len) + ": " + kind;
      for (auto x : w) {key += " " + A[x].n;}
      if (!R.Selected(key)) {return;}
      c.Key(key);
      EKF::Parameters p = BaseParams(false, cf.t);
      p.augmenting_delta_time = cf.dt; p.augmenting_pos_error = cf.pe; p.augmenting_ang_error = cf.ae;
      Machine m(p);
      m.Apply({"M", 'M', cf.len});
      m.Apply({"C", 'C', cf.swap ? 3u : 8u, 0, cf.swap ? cf.rate3 : cf.rate8});
      m.Apply({"C", 'C', cf.swap ? 8u : 3u, 0, cf.swap ? cf.rate8 : cf.rate3});
      m.Apply({"Y", 'Y'});
      for (unsigned k = 0; k < steps; ++k) {
        const Act & a = A[w[k % w.size()]];
        if (a.k == 'K') {
          if (a.id == 0) {
            m.impl->m_state.body_state.pos_b_in_l += Vector3d(a.x, 0, 0);
            m.model.body().add[0] += Vector3d(a.x, 0, 0);
          } else {
            Quaterniond q = Exp(Vector3d(0, a.x, 0));
            m.impl->m_state.body_state.ang_b_to_l = q * m.impl->m_state.body_state.ang_b_to_l;
            m.model.body().rot[3] = q * m.model.body().rot[3];
          }
        } else {
          m.Apply({a.n, a.k, a.id, 0, a.x});
        }
        c.Transition();
        c.State(m.model.HashState(false));
        std::string t = "step " + std::to_string(k) + " " + a.n;
        if (!CompareAugCounts(c, m.model, *m.impl, t)) {break;}
        if (!CompareState(c, m.model, *m.impl, 1e-8, t)) {break;}
      }
      c.Trace();
      c.Sample(key);
    };
  uint64_t words = Pow(A.size(), depth);
  R.Parallel(words * cfgs.size(), [&](size_t i, mc::Ctx & c) {
      auto w = Word(i / cfgs.size(), static_cast<unsigned>(A.size()), depth);
      run(c, cfgs[i % cfgs.size()], w, depth, "");
    });
  unsigned per = R.thorough ? 4 : 3;
  uint64_t pw = Pow(A.size(), per);
  R.Bound("periodic schedules", pw * cfgs.size());
  R.Parallel(pw * cfgs.size(), [&](size_t i, mc::Ctx & c) {
      auto w = Word(i / cfgs.size(), static_cast<unsigned>(A.size()), per);
      run(c, cfgs[i % cfgs.size()], w, 24, "periodic");
    });
  return R.Finish();
}
