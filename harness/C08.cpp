// C08: time propagation of the state and its covariance.
#include "ref_ekf.hpp"
using namespace ref;

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C08");
  std::vector<Op> A = {
    {"p0", 'P', 0, 0, 0.0}, {"p.01", 'P', 0, 0, 0.01}, {"p.4", 'P', 0, 0, 0.4}, {"p3", 'P', 0, 0, 3.0},
    {"p-", 'P', 0, 0, -0.2}, {"za1", 'Z', 0, 1}, {"za0", 'Z', 0, 0}, {"grav", 'Y'}, {"noise1", 'N', 1},
    {"noise2", 'N', 2}, {"f8", 'F', 8}, {"u2", 'U', 1, 2}};
  // body motion at the start: position rate, acceleration, angular rate
  struct Start {const char * n; Vector3d vel, acc, omg; bool grav, zero;};
  std::vector<Start> starts = {
    {"slow", {0.7, 0.4, -0.6}, {0.4, -0.3, 10.1}, {0.3, 0.5, -0.4}, true, false},
    {"fast", {-20, 35, 4}, {-12, 7, 31}, {2.5, -3.1, 4.7}, true, false},
    {"zerorate", {0, 0, 1}, {0, 0, 9.80665}, {0, 0, 0}, true, true},
    {"nograv", {1, 2, 3}, {1, 2, 3}, {0.2, 0.1, 0.3}, false, false}};
  // registered sensors
  std::vector<std::vector<Op>> regs = {
    {},
    {{"I", 'I', 4, 3}},
    {{"I", 'I', 4, 2}, {"I", 'I', 2, 1}, {"G", 'G', 3, 1}, {"C8", 'C', 8, 1, 4.0}, {"B", 'B', 5, 1}}};
  R.rule = "all words of length d over predictions (zero, short, long, stale), zero-acceleration mode, gravity "
    "initialisation, process-noise changes, frames and updates; for every start motion, sensor set and covariance "
    "form; state and joint covariance compared with the reference propagation after every operation";
  unsigned depth = R.thorough ? 5 : 3;
  size_t cfg = starts.size() * regs.size() * 2;
  R.Bound("alphabet", A.size()); R.Bound("depth", depth); R.Bound("configurations", cfg);
  auto run = [&](size_t k, const std::vector<unsigned> & w, unsigned steps, mc::Ctx & c, const char * kind) {
      const Start & s = starts[(k / 2) % starts.size()];
      size_t ri = (k / 2 / starts.size()) % regs.size();
      bool root = k % 2;
      std::string key = std::string(s.n) + "/sensors" + std::to_string(ri) + (root ? "/root: " : "/full: ") + kind;
      for (auto x : w) {key += " " + A[x].name;}
      if (!R.Selected(key)) {return;}
      c.Key(key);
      Machine m(BaseParams(root, AugmentationType::ALL));
      m.Apply({"M", 'M', 2});
      for (auto & o : regs[ri]) {m.Apply(o);}
      m.impl->m_state.body_state.vel_b_in_l = s.vel; m.model.body().add[1] = s.vel;
      m.impl->m_state.body_state.acc_b_in_l = s.acc; m.model.body().add[2] = s.acc;
      m.impl->m_state.body_state.ang_vel_b_in_l = s.omg; m.model.body().add[4] = s.omg;
      if (s.grav) {m.Apply({"Y", 'Y'});}
      m.Apply({"Z", 'Z', 0, s.zero});
      for (unsigned k2 = 0; k2 < steps; ++k2) {
        const Op & o = A[w[k2 % w.size()]];
        if (!m.Apply(o)) {c.Fail("layout broken before " + o.name); break;}
        c.Transition(); c.State(m.model.HashState());
        std::string t = "after step " + std::to_string(k2) + " " + o.name;
        double tol = root ? 1e-6 : 1e-8;
        if (!CompareAugCounts(c, m.model, *m.impl, t)) {break;}
        if (!CompareState(c, m.model, *m.impl, tol, t)) {break;}
        if (!CompareCov(c, m.model, *m.impl, tol, t)) {break;}
      }
      c.Trace(); c.Sample(key);
    };
  uint64_t words = Pow(A.size(), depth);
  R.Parallel(words * cfg, [&](size_t i, mc::Ctx & c) {
      run(i % cfg, Word(i / cfg, static_cast<unsigned>(A.size()), depth), depth, c, "");
    });
  uint64_t pw = Pow(A.size(), 2);
  R.Bound("periodic schedules of 20 steps", pw * cfg);
  R.Parallel(pw * cfg, [&](size_t i, mc::Ctx & c) {
      run(i % cfg, Word(i / cfg, static_cast<unsigned>(A.size()), 2), 20, c, "periodic");
    });
  return R.Finish();
}
