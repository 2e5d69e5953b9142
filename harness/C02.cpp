// C02: the prior covariance and initial estimate given at registration stay
// attached to that sensor for every registration order, id assignment and timing;
// registering never disturbs what is already estimated; duplicates are ignored.
#include "ref_ekf.hpp"
using namespace ref;

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C02");
  std::vector<Op> A = {
    {"I5b", 'I', 5, 3}, {"I2e", 'I', 2, 1}, {"I3i", 'I', 3, 2}, {"I5e", 'I', 5, 1},
    {"G4", 'G', 4, 1}, {"G1", 'G', 1, 1}, {"G6n", 'G', 6, 0},
    {"C8", 'C', 8, 1}, {"C3", 'C', 3, 1}, {"C7n", 'C', 7, 0},
    {"B6", 'B', 6, 1}, {"B2", 'B', 2, 1}, {"B4n", 'B', 4, 0},
    {"f8", 'F', 8}, {"u", 'U', 1, 3}, {"p", 'P', 0, 0, 0.3},
  };
  unsigned depth = R.thorough ? 5 : 4;
  R.rule = "all words of length d over sensor registrations (three or more ids per section, every order, "
    "duplicates, uncalibrated sensors), camera frames, dense correlating updates and predictions, in full and "
    "square-root form; the complete state and covariance are compared with the labelled reference after every operation";
  R.Bound("alphabet", A.size()); R.Bound("depth", depth); R.Bound("covariance forms", 2);
  uint64_t words = Pow(A.size(), depth);
  R.Parallel(words * 2, [&](size_t i, mc::Ctx & c) {
      bool root = i % 2;
      auto w = Word(i / 2, static_cast<unsigned>(A.size()), depth);
      std::vector<Op> seq;
      for (auto x : w) {seq.push_back(A[x]);}
      std::string key = std::string(root ? "root: " : "full: ") + SeqName(seq);
      if (!R.Selected(key)) {return;}
      c.Key(key);
      Machine m(BaseParams(root, AugmentationType::ALL));
      m.Apply({"M", 'M', 2});
      m.Apply({"Y", 'Y'});
      for (auto & o : seq) {
        if (!m.Apply(o)) {c.Fail("layout broken before " + o.name); break;}
        c.Transition();
        c.State(m.model.HashState());
        if (!CompareAugCounts(c, m.model, *m.impl, "after " + o.name)) {break;}
        if (!CompareState(c, m.model, *m.impl, root ? 1e-7 : 1e-9, "after " + o.name)) {break;}
        if (!CompareCov(c, m.model, *m.impl, root ? 1e-7 : 1e-9, "after " + o.name)) {break;}
      }
      c.Trace();
      if (i < 3) {c.Sample(key);}
    });
  return R.Finish();
}
