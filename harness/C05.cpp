// C05: the pose returned for a past camera frame.
#include "ref_ekf.hpp"
using namespace ref;

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C05");
  std::vector<Op> A = {
    {"f8", 'F', 8}, {"f3", 'F', 3}, {"p.25", 'P', 0, 0, 0.25}, {"p.6", 'P', 0, 0, 0.6}, {"u", 'U', 1, 2},
    {"p-", 'P', 0, 0, -0.1}, {"C5", 'C', 5, 1}};
  struct Cfg {const char * n; AugmentationType t; unsigned len;};
  std::vector<Cfg> cfgs = {
    {"ALL", AugmentationType::ALL, 2}, {"PRIMARY", AugmentationType::PRIMARY, 3}, {"TIME", AugmentationType::TIME, 4},
    {"ERROR", AugmentationType::ERROR, 4}};
  unsigned depth = R.thorough ? 7 : 6;
  R.rule = "all words of length d over frames of two cameras, predictions, corrections, late registrations; in every "
    "state reached every stored frame and a grid of frame times (before, on, between and after the clones) is looked up "
    "for both cameras and compared with the defining interpolation; state and window must not change";
  R.Bound("alphabet", A.size()); R.Bound("depth", depth); R.Bound("configurations", cfgs.size());
  R.assumptions = {"at least one clone is stored; the looked-up frame is in the window (ALL, primary camera); the frame time is not in the future"};
  auto query = [&](mc::Ctx & c, EKF & e, const Cfg & cf, unsigned cam, const std::string & t) {
      bool own = cf.t == AugmentationType::ALL || (cf.t == AugmentationType::PRIMARY && cam == 8);
      unsigned key = cf.t == AugmentationType::ALL ? cam : cf.t == AugmentationType::PRIMARY ? 8 : 0;
      auto it = e.m_state.aug_states.find(key);
      if (it == e.m_state.aug_states.end() || it->second.empty()) {return true;}
      std::vector<AugState> win = it->second;
      double now = e.GetCurrentTime();
      auto check = [&](const AugState & got, const Vector3d & pos, const Quaterniond & q, unsigned idx, double alpha, const std::string & what) {
          c.Eval(); c.Count("lookups");
          double dp = (got.pos_b_in_l - pos).norm(), da = AngDist(got.ang_b_to_l, q);
          if (!(dp < 1e-9) || !(da < 1e-7)) {
            std::ostringstream o; o << t << ": " << what << " pose off by " << dp << " m, " << da << " rad"; c.Fail(o.str()); return false;
          }
          if (!(std::abs(got.ang_b_to_l.norm() - 1) < 1e-9)) {c.Fail(t + ": " + what + " quaternion not unit"); return false;}
          if (got.index != idx) {c.Fail(t + ": " + what + " refers to state index " + std::to_string(got.index) + " instead of " + std::to_string(idx)); return false;}
          if (!(std::abs(got.alpha - alpha) < 1e-9)) {c.Fail(t + ": " + what + " interpolation weight " + std::to_string(got.alpha) + " instead of " + std::to_string(alpha)); return false;}
          return true;
        };
      if (own) {
        for (auto & a : win) {
          AugState g = e.GetAugState(cam, a.frame_id, a.time);
          std::string w = "camera " + std::to_string(cam) + " frame " + std::to_string(a.frame_id);
          if (g.frame_id != a.frame_id || g.time != a.time) {c.Fail(t + ": " + w + " returned another frame"); return false;}
          if (!check(g, a.pos_b_in_l, a.ang_b_to_l, a.index, 0.0, w)) {return false;}
        }
        return true;
      }
      std::vector<double> times = {win.front().time - 0.3, win.front().time - 1e-3};
      for (size_t i = 0; i < win.size(); ++i) {
        double a = win[i].time, b = i + 1 < win.size() ? win[i + 1].time : now;
        times.push_back(a);
        for (double f : {0.001, 0.25, 0.5, 0.8, 0.999}) {times.push_back(a + f * (b - a));}
      }
      times.push_back(now);
      for (double q : times) {
        if (q > now) {continue;}
        std::ostringstream w; w << "camera " << cam << " time " << q;
        AugState g = e.GetAugState(cam, 777, q);
        if (q < win.front().time) {
          if (!check(g, win.front().pos_b_in_l, win.front().ang_b_to_l, win.front().index, 0.0, w.str())) {return false;}
          continue;
        }
        // the last clone not after q
        size_t i = 0;
        for (size_t j = 0; j < win.size(); ++j) {if (win[j].time <= q) {i = j;}}
        bool last = i + 1 == win.size();
        double t0 = win[i].time, t1 = last ? now : win[i + 1].time;
        Vector3d p1 = last ? e.m_state.body_state.pos_b_in_l : win[i + 1].pos_b_in_l;
        Quaterniond q1 = last ? e.m_state.body_state.ang_b_to_l : win[i + 1].ang_b_to_l;
        double al = t1 > t0 ? (q - t0) / (t1 - t0) : 0.0;
        Vector3d pos = win[i].pos_b_in_l + al * (p1 - win[i].pos_b_in_l);
        Vector3d dr = Log(q1 * win[i].ang_b_to_l.conjugate());
        Quaterniond ang = Exp(al * dr) * win[i].ang_b_to_l;
        // an exact hit on a clone may be described as the end of one interval or the start of the next
        if (i > 0 && std::abs(q - t0) < 1e-12 && g.index == win[i - 1].index && std::abs(g.alpha - 1) < 1e-9) {
          if (!check(g, pos, ang, win[i - 1].index, 1.0, w.str())) {return false;}
        } else if (!check(g, pos, ang, win[i].index, al, w.str())) {
          return false;
        }
        if (!(std::abs(g.time - q) < 1e-12)) {c.Fail(t + ": returned time differs from the asked time"); return false;}
      }
      return true;
    };
  uint64_t words = Pow(A.size(), depth);
  // once more, one operation shorter, with a step of less than a millisecond: clones and corrections almost at the same time
  auto B = A; B[2] = {"p.0004", 'P', 0, 0, 0.0004};
  uint64_t fine = Pow(B.size(), depth - 1);
  R.Parallel((words + fine) * cfgs.size(), [&](size_t i, mc::Ctx & c) {
      const Cfg & cf = cfgs[i % cfgs.size()];
      uint64_t n = i / cfgs.size(); bool small = n >= words;
      auto w = small ? Word(n - words, static_cast<unsigned>(B.size()), depth - 1) : Word(n, static_cast<unsigned>(A.size()), depth);
      std::vector<Op> seq;
      for (auto x : w) {seq.push_back(small ? B[x] : A[x]);}
      std::string key = std::string(cf.n) + ": " + SeqName(seq);
      if (!R.Selected(key)) {return;}
      c.Key(key);
      EKF::Parameters p = BaseParams(false, cf.t);
      p.augmenting_delta_time = 0.2; p.augmenting_pos_error = 0.03; p.augmenting_ang_error = 0.03;
      Machine m(p);
      m.frame_step = i / cfgs.size() % 2 ? 128 : 1;   // frame numbers may lie far apart
      m.Apply({"M", 'M', cf.len});
      m.Apply({"I", 'I', 4, 3}); m.Apply({"C8", 'C', 8, 1, 4.0}); m.Apply({"C3", 'C', 3, 0, 4.0});
      m.Apply({"Y", 'Y'});
      for (size_t k = 0; k < seq.size(); ++k) {
        m.Apply(seq[k]);
        c.Transition(); c.State(mc::Hash().m(m.impl->m_state.ToVector()).d(m.impl->GetCurrentTime()).h);
        // every prefix is examined once: by the word that continues it with the first operation
        bool first = true;
        for (size_t j = k + 1; j < w.size(); ++j) {first = first && w[j] == 0;}
        if (!first) {continue;}
        VectorXd before = m.impl->m_state.ToVector(); MatrixXd P = m.impl->m_cov;
        std::string t = "after " + std::to_string(k + 1) + " operations";
        if (!query(c, *m.impl, cf, 8, t) || !query(c, *m.impl, cf, 3, t)) {break;}
        if (before != m.impl->m_state.ToVector() || P != m.impl->m_cov) {c.Fail(t + ": a lookup changed the filter"); break;}
      }
      c.Trace(); c.Sample(key);
    });
  return R.Finish();
}
