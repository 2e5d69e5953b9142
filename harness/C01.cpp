// C01: state layout, indices, sizes and covariance dimension agree after any
// sequence of registrations, frames, predictions and updates.
#include "ref_ekf.hpp"
using namespace ref;

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C01");
  std::vector<Op> A = {
    {"I5b", 'I', 5, 3}, {"I2e", 'I', 2, 1}, {"I3i", 'I', 3, 2}, {"I9n", 'I', 9, 0},
    {"G4", 'G', 4, 1}, {"G1", 'G', 1, 1}, {"G6n", 'G', 6, 0},
    {"C8", 'C', 8, 1}, {"C7n", 'C', 7, 0}, {"C3", 'C', 3, 1},
    {"B6", 'B', 6, 1}, {"B2", 'B', 2, 1}, {"B4n", 'B', 4, 0},
    {"f8", 'F', 8}, {"f3", 'F', 3}, {"p", 'P', 0, 0, 0.3}, {"u", 'U', 1, 2},
  };
  struct Cfg {const char * n; AugmentationType t; unsigned len;};
  std::vector<Cfg> cfgs = {
    {"ALL", AugmentationType::ALL, 2}, {"TIME", AugmentationType::TIME, 1},
    {"PRIMARY", AugmentationType::PRIMARY, 1}, {"NONE", AugmentationType::NONE, 3}};
  unsigned depth = R.thorough ? 5 : 4;
  R.rule = "all words of length d over registrations (ids out of order, duplicates, every calibration-flag "
    "combination), camera frames, predictions and dense updates; checked after every operation";
  R.Bound("alphabet", A.size()); R.Bound("depth", depth); R.Bound("configurations", cfgs.size());
  uint64_t words = Pow(A.size(), depth);
  R.Parallel(words * cfgs.size(), [&](size_t i, mc::Ctx & c) {
      const Cfg & cf = cfgs[i % cfgs.size()];
      if (cf.t != AugmentationType::ALL && !R.thorough && (i / cfgs.size()) % A.size() < 7) {return;}
      auto w = Word(i / cfgs.size(), static_cast<unsigned>(A.size()), depth);
      std::vector<Op> seq;
      for (auto x : w) {seq.push_back(A[x]);}
      std::string key = std::string(cf.n) + ": " + SeqName(seq);
      if (!R.Selected(key)) {return;}
      c.Key(key);
      EKF::Parameters p = BaseParams(false, cf.t);
      p.augmenting_delta_time = 0.2;
      Machine m(p);
      m.Apply({"M", 'M', cf.len});
      m.Apply({"Y", 'Y'});
      for (auto & o : seq) {
        if (!m.Apply(o)) {c.Fail("layout broken before " + o.name); break;}
        c.Transition();
        c.State(m.model.HashState(false));
        if (!CompareLayout(c, m.model, *m.impl, "after " + o.name)) {break;}
      }
      c.Trace();
      if (i < 3) {c.Sample(key);}
    });
  return R.Finish();
}
