// C23: simulated feature tracks are the finished runs of visibility of true features.
// wrap: _ZN12MsckfUpdater9UpdateEKFER3EKFdRKSt6vectorI12FeatureTrackSaIS3_EEd
#include "mc.hpp"
#include <opencv2/opencv.hpp>
#include "ekf/ekf.hpp"
#include "ekf/update/msckf_updater.hpp"
#include "infrastructure/sim/truth_engine.hpp"
#include "sensors/sim/sim_camera.hpp"
#include "sensors/sim/sim_camera_message.hpp"
#include "trackers/sim/sim_feature_tracker.hpp"
#include "utility/sim/sim_rng.hpp"

struct Call {double time, px; FeatureTracks t;};
static std::vector<Call> g_calls;
extern "C" {
void __wrap__ZN12MsckfUpdater9UpdateEKFER3EKFdRKSt6vectorI12FeatureTrackSaIS3_EEd(MsckfUpdater *, EKF &, double t, const FeatureTracks & f, double px) {g_calls.push_back({t, px, f});}
}
namespace
{
using V3 = Eigen::Vector3d; using Q = Eigen::Quaterniond;
std::shared_ptr<DebugLogger> Log() {static auto l = std::make_shared<DebugLogger>(LogLevel::FATAL, ""); return l;}
Q Exp(const V3 & v) {double n = v.norm(); return n < 1e-12 ? Q::Identity() : Q(Eigen::AngleAxisd(n, v / n));}
struct Pose {std::string n; V3 p; Q q;};
// body poses; the camera looks along body x
const std::vector<Pose> kPose{{"A", {0, 0, 0}, Exp({0, 0, 0.02})}, {"A-left", {0.05, 0.1, -0.05}, Exp({0.02, 0.03, 0.3})}, {"back", {0.1, 0, 0.03}, Exp({0, 0, 3.0})},
  {"outside", {4.1, 0.3, 0.2}, Exp({0, 0.05, 0})}, {"up close", {1.7, 0.4, 0.1}, Exp({0.4, -0.2, 0.1})}, {"far", {-6, 0.2, 0.1}, Exp({0.1, 0, 0.03})}};
class Table : public TruthEngine
{
public:
  std::vector<unsigned> w;
  explicit Table(const std::vector<unsigned> & word) : TruthEngine(static_cast<double>(word.size()), Log()), w(word) {}
  const Pose & At(double t) const {long k = std::lround(t * 4); return kPose[w[static_cast<size_t>(std::max(0L, std::min<long>(k, static_cast<long>(w.size()) - 1)))]];}
  V3 GetBodyPosition(double t) override {return At(t).p;}
  Q GetBodyAngularPosition(double t) override {return At(t).q;}
  V3 GetBodyVelocity(double) override {return V3::Zero();}
  V3 GetBodyAcceleration(double) override {return V3::Zero();}
  V3 GetBodyAngularRate(double) override {return V3::Zero();}
  V3 GetBodyAngularAcceleration(double) override {return V3::Zero();}
};
struct Cfg {std::string n; unsigned mn, mx, count; bool none; double k1; unsigned cams; bool seq;};
struct View {bool in, unsure; double x, y;};
View Look(const Q & q, const V3 & p, const Intrinsics & in, const cv::Point3d & f, bool distort = true)
{
  V3 d = q.conjugate() * (V3(f.x, f.y, f.z) - p);
  View v{false, false, 0, 0};
  double x = d.x() / d.z(), y = d.y() / d.z();
  if (distort) {double r2 = x * x + y * y, g = 1 + in.k_1 * r2 + in.k_2 * r2 * r2; double xx = x * g + 2 * in.p_1 * x * y + in.p_2 * (r2 + 2 * x * x); y = y * g + in.p_1 * (r2 + 2 * y * y) + 2 * in.p_2 * x * y; x = xx;}
  v.x = x * in.f_x / in.pixel_size + in.width / 2; v.y = y * in.f_y / in.pixel_size + in.height / 2;
  const double e = 1e-6;
  bool loose = d.z() > -e && v.x > -e && v.x < in.width + e && v.y > -e && v.y < in.height + e;
  bool tight = d.z() > e && v.x > e && v.x < in.width - e && v.y > e && v.y < in.height - e;
  if (std::abs(d.z()) <= e) {loose = true; tight = false;}
  v.in = tight; v.unsure = loose && !tight;
  return v;
}
}  // namespace

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C23");
  R.rule = "every word of camera poses (same view, overlapping view, opposite view, nothing in view, close, far) up to the depth bound and "
    "short periodic words, for every configuration of track lengths, feature counts, error flag, distortion and number of cameras; each message "
    "is compared with a life-cycle model fed by an independent projection of every true feature";
  R.assumptions = {"features within 1e-6 pixels of the image border or 1e-6 m of the camera plane may count either way"};
  std::vector<Cfg> cf{{"default lengths", 2, 20, 0, true, 0, 1, false}, {"at most 2", 2, 2, 0, true, 0, 1, false}, {"3 to 4, errors", 3, 4, 0, false, 0, 1, false}, {"1 to 3, distortion", 1, 3, 0, true, -0.05, 1, false},
    {"at least 40 features", 2, 4, 40, true, 0, 1, false}, {"at least 200 features, errors", 2, 3, 200, false, 0, 1, false}, {"two cameras", 2, 3, 30, false, 0, 2, false}};
  if (R.thorough) {cf.push_back({"1 to 1", 1, 1, 10, true, 0, 1, false}); cf.push_back({"two cameras, distortion", 2, 3, 60, true, 0.03, 2, false}); cf.push_back({"3 to 3", 3, 3, 0, true, 0, 1, false});}
  unsigned depth = R.thorough ? 6 : 5;
  struct Case {size_t c; std::vector<unsigned> w; std::string k;};
  std::vector<Case> cases;
  for (size_t x = 0; x < cf.size(); ++x) {
    size_t n = 1; unsigned np = static_cast<unsigned>(kPose.size());
    unsigned d = R.thorough && cf[x].count > 100 ? depth - 1 : depth;
    for (unsigned i = 0; i < d; ++i) {n *= np;}
    for (size_t i = 0; i < n; ++i) {
      Case k; k.c = x; k.k = cf[x].n + ":"; size_t q = i;
      for (unsigned j = 0; j < d; ++j) {k.w.push_back(q % np); k.k += " " + kPose[q % np].n; q /= np;}
      cases.push_back(k);
    }
    // periodic words: every period of one to three poses, over 24 frames
    unsigned P = R.thorough ? 3 : 2;
    for (unsigned p = 1; p <= P; ++p) {
      size_t m = 1; for (unsigned i = 0; i < p; ++i) {m *= np;}
      for (size_t i = 0; i < m; ++i) {
        Case k; k.c = x; k.k = cf[x].n + ": 24 frames of"; size_t q = i; std::vector<unsigned> per;
        for (unsigned j = 0; j < p; ++j) {per.push_back(q % np); k.k += " " + kPose[q % np].n; q /= np;}
        for (unsigned j = 0; j < 24; ++j) {k.w.push_back(per[j % p]);}
        cases.push_back(k);
      }
    }
  }
  R.Bound("configurations", cf.size()); R.Bound("poses", kPose.size()); R.Bound("depth", depth); R.Bound("words", cases.size());
  R.Parallel(cases.size(), [&](size_t ci, mc::Ctx & c) {
      const Case & k = cases[ci]; const Cfg & g = cf[k.c];
      if (!R.Selected(k.k)) {return;}
      c.Key(k.k);
      SimRNG::SetSeed(7);
      auto tr = std::make_shared<Table>(k.w);
      EKF::Parameters ep; ep.debug_logger = Log(); auto ekf = std::make_shared<EKF>(ep);
      struct Cam {std::shared_ptr<SimCamera> cam; std::shared_ptr<SimFeatureTracker> t; V3 p; Q q; Intrinsics in; std::map<unsigned, std::vector<std::tuple<unsigned, double, double, double>>> live;};
      std::vector<Cam> cams;
      for (unsigned j = 0; j < g.cams; ++j) {
        Cam m; SimCamera::Parameters p; p.no_errors = true;
        Eigen::Matrix3d r; r << 0, 0, 1, -1, 0, 0, 0, -1, 0;
        m.p = V3(0.02, 0.03 * j, -0.04); m.q = Q(r) * Exp(V3(0.02, j * 0.2, 0.01));
        m.in.f_x = 0.008; m.in.f_y = 0.009; m.in.width = 640; m.in.height = 480; m.in.pixel_size = 1e-5; m.in.k_1 = g.k1; m.in.p_1 = g.k1 / 10; m.in.p_2 = -g.k1 / 20;
        p.cam_params.logger = Log(); p.cam_params.ekf = ekf; p.cam_params.pos_c_in_b = m.p; p.cam_params.ang_c_to_b = m.q; p.cam_params.intrinsics = m.in; p.cam_params.rate = 4;
        m.cam = std::make_shared<SimCamera>(p, tr);
        SimFeatureTracker::Parameters t; t.no_errors = g.none; t.feature_count = g.count;
        t.tracker_params.camera_id = m.cam->GetId(); t.tracker_params.logger = Log(); t.tracker_params.ekf = ekf;
        t.tracker_params.min_track_length = g.mn; t.tracker_params.max_track_length = g.mx; t.tracker_params.px_error = 0.7 + j;
        m.t = std::make_shared<SimFeatureTracker>(t, tr); m.cam->AddTracker(m.t);
        cams.push_back(m);
      }
      std::set<std::pair<unsigned, unsigned>> skip;   // camera, feature: undecidable visibility
      for (unsigned f = 0; f < k.w.size(); ++f) {
        for (unsigned j = 0; j < cams.size(); ++j) {
          Cam & m = cams[j];
          double time = 0.25 * f; unsigned frame = 100 + 3 * f + j;
          std::string at = "frame " + std::to_string(f) + (g.cams > 1 ? " camera " + std::to_string(j) : "") + ": ";
          auto before = tr->GetFeatures();
          const Pose & P = tr->At(time);
          Q q = P.q * m.q; V3 p = P.p + P.q * m.p;
          auto msg = m.t->GenerateMessage(time, frame);
          auto after = tr->GetFeatures();
          c.Transition(); c.Eval();
          // features: old ones stay, as many new ones as are missing, all in view
          unsigned vis = 0, uns = 0;
          for (unsigned i = 0; i < before.size(); ++i) {
            View v = Look(q, p, m.in, before[i]); vis += v.in; uns += v.unsure;
            if (!(before[i] == after[i])) {c.Fail(at + "a feature has moved"); return;}
          }
          size_t grown = after.size() - before.size();
          size_t want = g.count > vis ? g.count - vis : 0;
          if (grown > want || grown + uns < want) {c.Fail(at + std::to_string(grown) + " new features with " + std::to_string(vis) + " in view and " + std::to_string(g.count) + " wanted"); return;}
          for (size_t i = before.size(); i < after.size(); ++i) {
            View v = Look(q, p, m.in, after[i], false);
            if (!v.in && !v.unsure) {c.Fail(at + "a new feature is not in view"); return;}
          }
          // life cycle
          std::map<unsigned, std::vector<std::tuple<unsigned, double, double, double>>> done;
          for (unsigned i = 0; i < after.size(); ++i) {
            View v = Look(q, p, m.in, after[i]);
            if (v.unsure) {skip.insert({j, i}); c.Count("undecided visibilities");}
            auto it = m.live.find(i);
            if (v.in || v.unsure) {
              m.live[i].push_back({frame, time, v.x, v.y}); it = m.live.find(i);
              if (it->second.size() < g.mx) {continue;}
            } else if (it == m.live.end()) {continue;}
            if (it->second.size() >= g.mn) {done[i] = it->second;}
            m.live.erase(it);
          }
          if (msg->tracker_id != m.t->GetID() || msg->sensor_id != m.cam->GetId() || msg->time != time || msg->sensor_type != SensorType::Tracker) {c.Fail(at + "message of another tracker, camera or time"); return;}
          std::set<unsigned> got;
          mc::Hash h;
          for (auto & t : msg->feature_tracks) {
            c.Eval();
            if (t.track.empty()) {c.Fail(at + "empty track"); return;}
            unsigned i = static_cast<unsigned>(t.track[0].key_point.class_id);
            if (skip.count({j, i})) {continue;}
            std::string w = at + "feature " + std::to_string(i) + ": ";
            if (!got.insert(i).second) {c.Fail(w + "two tracks"); return;}
            auto it = done.find(i);
            if (it == done.end()) {c.Fail(w + "track of " + std::to_string(t.track.size()) + " observations that is not finished"); return;}
            if (it->second.size() != t.track.size()) {c.Fail(w + std::to_string(t.track.size()) + " observations instead of " + std::to_string(it->second.size())); return;}
            cv::Point3d P3 = after[i];
            if (t.true_feature_position != V3(P3.x, P3.y, P3.z)) {c.Fail(w + "true position"); return;}
            h.u(i).u(t.track.size());
            for (size_t n = 0; n < t.track.size(); ++n) {
              auto & o = t.track[n]; auto & e = it->second[n];
              if (o.frame_id != std::get<0>(e) || o.frame_time != std::get<1>(e) || static_cast<unsigned>(o.key_point.class_id) != i) {c.Fail(w + "observation of another frame"); return;}
              double x = std::get<2>(e), y = std::get<3>(e), tol = g.none ? 1e-3 : 0.5 + 1e-3;
              if (std::abs(o.key_point.pt.x - x) > tol || std::abs(o.key_point.pt.y - y) > tol) {c.Fail(w + "seen at " + std::to_string(o.key_point.pt.x) + ", " + std::to_string(o.key_point.pt.y) + " instead of " + std::to_string(x) + ", " + std::to_string(y)); return;}
              if (!g.none && (o.key_point.pt.x != std::round(o.key_point.pt.x) || o.key_point.pt.y != std::round(o.key_point.pt.y))) {c.Fail(w + "not a whole pixel"); return;}
            }
          }
          for (auto & d : done) {
            if (!got.count(d.first) && !skip.count({j, d.first})) {c.Fail(at + "finished track of feature " + std::to_string(d.first) + " with " + std::to_string(d.second.size()) + " observations is missing"); return;}
          }
          c.State(h.u(m.live.size()).u(k.c).h);
          // the tracks go to the filter as they are
          g_calls.clear();
          m.t->Callback(time, *msg);
          if (g_calls.size() != 1 || g_calls[0].time != time || g_calls[0].px != 0.7 + j || g_calls[0].t.size() != msg->feature_tracks.size()) {c.Fail(at + "tracks do not reach the filter once with their time and pixel error"); return;}
          for (size_t n = 0; n < g_calls[0].t.size(); ++n) {
            if (g_calls[0].t[n].track.size() != msg->feature_tracks[n].track.size() || g_calls[0].t[n].true_feature_position != msg->feature_tracks[n].true_feature_position) {c.Fail(at + "tracks are changed on the way to the filter"); return;}
          }
        }
      }
      c.Trace(); if (ci % 1999 == 0) {c.Sample(k.k);}
    });
  return R.Finish();
}
