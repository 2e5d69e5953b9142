// C03: an augmented state is an exact clone of the body pose (value and every
// correlation); the window bound holds; dropping a clone leaves the joint
// distribution of everything else unchanged.
#include "ref_ekf.hpp"
using namespace ref;

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C03");
  std::vector<Op> A = {
    {"f8", 'F', 8}, {"f3", 'F', 3}, {"p.3", 'P', 0, 0, 0.3}, {"p1.6", 'P', 0, 0, 1.6}, {"u", 'U', 1, 3},
    {"B2", 'B', 2, 1}, {"C5", 'C', 5, 1}};
  struct Cfg {const char * n; AugmentationType t; unsigned len;};
  std::vector<Cfg> cfgs;
  for (unsigned len : {1u, 2u, 3u}) {
    cfgs.push_back({"ALL", AugmentationType::ALL, len});
    cfgs.push_back({"PRIMARY", AugmentationType::PRIMARY, len});
    if (len < 3) {
      cfgs.push_back({"TIME", AugmentationType::TIME, len});
      cfgs.push_back({"ERROR", AugmentationType::ERROR, len});
    }
  }
  R.rule = "all words of length d over frames of two cameras, predictions, dense updates and late registrations, "
    "for every augmentation type, window length and covariance form; plus every periodic schedule of period <= 2 run "
    "for 28 steps; state and covariance compared with the labelled reference after every operation";
  unsigned depth = R.thorough ? 6 : 4;
  R.Bound("alphabet", A.size()); R.Bound("depth", depth); R.Bound("configurations", cfgs.size() * 2);
  auto run = [&](mc::Ctx & c, const Cfg & cf, bool root, const std::vector<Op> & seq, const std::string & tag, bool dedupe_last) {
      std::string key = std::string(cf.n) + "/" + std::to_string(cf.len) + (root ? "/root: " : "/full: ") + tag;
      if (!R.Selected(key)) {return;}
      c.Key(key);
      EKF::Parameters p = BaseParams(root, cf.t);
      p.augmenting_delta_time = 0.5; p.augmenting_pos_error = 0.05; p.augmenting_ang_error = 0.05;
      Machine m(p);
      m.Apply({"M", 'M', cf.len});
      m.Apply({"I", 'I', 4, 3}); m.Apply({"C8", 'C', 8, 1, 2.0}); m.Apply({"C3", 'C', 3, 0, 4.0});
      m.Apply({"G", 'G', 2, 1});
      m.Apply({"Y", 'Y'}); m.Apply({"Z", 'Z', 0, 0});
      (void)dedupe_last;
      for (auto & o : seq) {
        if (!m.Apply(o)) {c.Fail("layout broken before " + o.name); break;}
        c.Transition();
        c.State(m.model.HashState());
        std::string t = "after " + o.name;
        if (!CompareAugCounts(c, m.model, *m.impl, t)) {break;}
        if (!CompareState(c, m.model, *m.impl, root ? 1e-6 : 1e-8, t)) {break;}
        if (!CompareCov(c, m.model, *m.impl, root ? 1e-6 : 1e-8, t)) {break;}
        for (auto & kv : m.impl->m_state.aug_states) {
          if (cf.t == AugmentationType::ALL || cf.t == AugmentationType::PRIMARY) {
            c.Check(kv.second.size() <= cf.len, t + ": window longer than the maximum track length");
          }
        }
      }
      c.Trace();
      c.Sample(key);
    };
  uint64_t words = Pow(A.size(), depth);
  R.Parallel(words * cfgs.size() * 2, [&](size_t i, mc::Ctx & c) {
      const Cfg & cf = cfgs[(i / 2) % cfgs.size()];
      auto w = Word(i / 2 / cfgs.size(), static_cast<unsigned>(A.size()), depth);
      std::vector<Op> seq;
      for (auto x : w) {seq.push_back(A[x]);}
      run(c, cf, i % 2, seq, SeqName(seq), true);
    });
  // long periodic schedules, incl. the default window of 20
  cfgs.push_back({"ALL", AugmentationType::ALL, 20});
  cfgs.push_back({"TIME", AugmentationType::TIME, 20});
  unsigned per = R.thorough ? 3 : 2;
  uint64_t pw = Pow(5, per);
  R.Bound("periodic schedules", pw * cfgs.size() * 2);
  R.Parallel(pw * cfgs.size() * 2, [&](size_t i, mc::Ctx & c) {
      const Cfg & cf = cfgs[(i / 2) % cfgs.size()];
      auto w = Word(i / 2 / cfgs.size(), 5, per);
      std::vector<Op> seq;
      for (unsigned k = 0; k < 28; ++k) {seq.push_back(A[w[k % per]]);}
      std::string tag = "periodic";
      for (auto x : w) {tag += " " + A[x].name;}
      run(c, cf, i % 2, seq, tag, false);
    });
  return R.Finish();
}
