// C22: the feature tracker's matching and track life cycle.
// wrap: _ZN12MsckfUpdater9UpdateEKFER3EKFdRKSt6vectorI12FeatureTrackSaIS3_EEd
#include "mc.hpp"
#include <opencv2/opencv.hpp>
#include "ekf/ekf.hpp"
#include "ekf/update/msckf_updater.hpp"
#include "sensors/camera.hpp"
#include "sensors/camera_message.hpp"
#include "trackers/feature_tracker.hpp"

struct Call {double time; FeatureTracks tracks; double px;};
static std::vector<Call> g_calls;
static bool g_pass = false;
extern "C" {
void __real__ZN12MsckfUpdater9UpdateEKFER3EKFdRKSt6vectorI12FeatureTrackSaIS3_EEd(MsckfUpdater *, EKF &, double, const FeatureTracks &, double);
void __wrap__ZN12MsckfUpdater9UpdateEKFER3EKFdRKSt6vectorI12FeatureTrackSaIS3_EEd(MsckfUpdater * u, EKF & e, double t, const FeatureTracks & f, double px)
{
  g_calls.push_back({t, f, px});
  if (g_pass) {__real__ZN12MsckfUpdater9UpdateEKFER3EKFdRKSt6vectorI12FeatureTrackSaIS3_EEd(u, e, t, f, px);}
}
}

namespace
{
const int kW = 200, kH = 160;
// a canvas of distinctive blobs
cv::Mat Canvas(unsigned salt)
{
  cv::Mat m(kH + 160, kW + 200, CV_8UC1, cv::Scalar(120));
  uint64_t s = 88172645463325252ull + salt * 7919;
  auto rnd = [&] {s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s >> 11;};
  for (int y = 12; y + 24 < m.rows; y += 22) {
    for (int x = 12; x + 24 < m.cols; x += 22) {
      int px = x + static_cast<int>(rnd() % 6), py = y + static_cast<int>(rnd() % 6);
      int side = 9 + static_cast<int>(rnd() % 5), up = (rnd() & 1) ? 1 : -1;
      cv::rectangle(m, cv::Rect(px, py, side, side), cv::Scalar(120.0 + up * (40.0 + static_cast<double>(rnd() % 80))), cv::FILLED);
      cv::rectangle(m, cv::Rect(px + 2 + static_cast<int>(rnd() % 3), py + 2 + static_cast<int>(rnd() % 3), 3 + static_cast<int>(rnd() % 3), 3 + static_cast<int>(rnd() % 3)),
        cv::Scalar(static_cast<double>(rnd() % 256)), cv::FILLED);
    }
  }
  cv::GaussianBlur(m, m, cv::Size(3, 3), 0.8);
  return m;
}
struct Frame {char scene; int x, y; bool half;};
cv::Mat Render(const Frame & f)
{
  static cv::Mat a = Canvas(1), b = Canvas(2);
  if (f.scene == '-') {return cv::Mat(kH, kW, CV_8UC1, cv::Scalar(90));}
  cv::Mat m = (f.scene == 'a' ? a : b)(cv::Rect(100 + f.x, 80 + f.y, kW, kH)).clone();
  if (f.half) {m(cv::Rect(kW / 2, 0, kW / 2, kH)).setTo(90);}
  return m;
}
struct P2 {unsigned frame; float x, y; bool operator<(const P2 & o) const {return std::tie(frame, x, y) < std::tie(o.frame, o.x, o.y);} bool operator==(const P2 & o) const {return frame == o.frame && x == o.x && y == o.y;}};
using TrackSet = std::set<std::vector<P2>>;

// reference front end: detection, grid, descriptors and the four match tests
struct Front
{
  cv::Ptr<cv::FeatureDetector> det; cv::Ptr<cv::DescriptorExtractor> ext; cv::Ptr<cv::DescriptorMatcher> mat;
  std::vector<cv::KeyPoint> prev; cv::Mat pd;
  unsigned max_len, min_len;
  std::vector<std::vector<P2>> live; std::vector<int> owner;   // owner of every previous key point: track or -1
  unsigned prev_frame{0};
  std::vector<std::vector<cv::Point2f>> seen_pts;   // key points of every frame
  // the key point a reported one stands for, up to rounding
  P2 Snap(unsigned frame, float x, float y) const
  {
    if (frame < seen_pts.size()) {for (auto & p : seen_pts[frame]) {if (std::abs(p.x - x) < 1e-3f && std::abs(p.y - y) < 1e-3f) {return {frame, p.x, p.y};}}}
    return {frame, x, y};
  }
  TrackSet Step(unsigned frame, const cv::Mat & img)
  {
    std::vector<cv::KeyPoint> all, kp;
    det->detect(img, all);
    std::set<std::pair<int, int>> cell;
    for (auto & k : all) {
      int cx = static_cast<int>(k.pt.x / 10.0), cy = static_cast<int>(k.pt.y / 10.0);
      if (k.pt.x < 0 || k.pt.y < 0 || cx >= img.cols / 10 || cy >= img.rows / 10) {continue;}
      if (cell.insert({cx, cy}).second) {kp.push_back(k);}
    }
    cv::Mat d; ext->compute(img, kp, d); d.convertTo(d, CV_32F);
    seen_pts.push_back({}); for (auto & k : kp) {seen_pts.back().push_back(k.pt);}
    std::vector<cv::DMatch> fin;
    if (pd.rows > 0 && d.rows > 0) {
      std::vector<std::vector<cv::DMatch>> f, b;
      mat->knnMatch(pd, d, f, 2); mat->knnMatch(d, pd, b, 2);
      auto good = [](const std::vector<cv::DMatch> & m) {return m.size() == 2 && !(static_cast<double>(m[0].distance / m[1].distance) > 0.7);};
      std::vector<cv::DMatch> sym, ran;
      for (auto & m : f) {
        if (!good(m)) {continue;}
        for (auto & q : b) {
          if (good(q) && q[0].queryIdx == m[0].trainIdx && q[0].trainIdx == m[0].queryIdx) {sym.push_back(m[0]); break;}
        }
      }
      if (sym.size() >= 10) {
        std::vector<cv::Point2f> p, q; std::vector<uint8_t> mask;
        for (auto & m : sym) {p.push_back(prev[m.queryIdx].pt); q.push_back(kp[m.trainIdx].pt);}
        cv::findFundamentalMat(p, q, cv::FM_RANSAC, 1.0, 0.99, mask);
        for (size_t i = 0; i < sym.size(); ++i) {if (mask[i] == 1) {ran.push_back(sym[i]);}}
      }
      double sum = 0;
      auto dist = [&](const cv::DMatch & m) {return std::hypot(double(kp[m.trainIdx].pt.x - prev[m.queryIdx].pt.x), double(kp[m.trainIdx].pt.y - prev[m.queryIdx].pt.y));};
      for (auto & m : ran) {sum += dist(m);}
      for (auto & m : ran) {if (dist(m) < 3 * sum / ran.size()) {fin.push_back(m);}}
    }
    // life cycle
    std::vector<int> own(kp.size(), -1);
    std::vector<bool> seen(live.size(), false);
    for (auto & m : fin) {
      int t = owner[m.queryIdx];
      if (t == -1) {
        t = static_cast<int>(live.size()); live.push_back({{prev_frame, prev[m.queryIdx].pt.x, prev[m.queryIdx].pt.y}}); seen.push_back(true);
      }
      if (t == -2) {t = static_cast<int>(live.size()); live.push_back({}); seen.push_back(true);}   // continues a full track
      live[t].push_back({frame, kp[m.trainIdx].pt.x, kp[m.trainIdx].pt.y});
      own[m.trainIdx] = t; seen[t] = true;
    }
    TrackSet out;
    std::vector<std::vector<P2>> keep; std::vector<int> renum(live.size());
    for (size_t t = 0; t < live.size(); ++t) {
      bool full = live[t].size() >= max_len;
      if (!seen[t] || full) {
        if (live[t].size() >= min_len) {out.insert(live[t]);}
        renum[t] = full ? -2 : -1;
      } else {
        renum[t] = static_cast<int>(keep.size()); keep.push_back(live[t]);
      }
    }
    for (auto & o : own) {if (o >= 0) {o = renum[o];}}
    live = keep; owner = own; prev = kp; pd = d; prev_frame = frame;
    return out;
  }
};
}

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C22");
  cv::setNumThreads(1);
  struct Op {std::string n; int dx, dy; char scene; bool half;};
  std::vector<Op> ops = {{"right", 3, 0, 'a', false}, {"diag", -4, 2, 'a', false}, {"blank", 0, 0, '-', false}, {"cut", 2, 1, 'b', false},
    {"half", 2, -2, 'a', true}, {"same", 0, 0, 'a', false}};
  struct Conf {std::string n; Detector d; Descriptor e; unsigned lo, hi; AugmentationType aug; bool down;};
  std::vector<Conf> cfgs = {
    {"FAST/ORB 2..3", Detector::FAST, Descriptor::ORB, 2, 3, AugmentationType::ALL, false},
    {"FAST/ORB 3..5", Detector::FAST, Descriptor::ORB, 3, 5, AugmentationType::ALL, false},
    {"FAST/ORB 2..20", Detector::FAST, Descriptor::ORB, 2, 20, AugmentationType::TIME, false},
    {"FAST/ORB 2..2", Detector::FAST, Descriptor::ORB, 2, 2, AugmentationType::PRIMARY, false},
    {"GFTT/SIFT 2..4", Detector::GFTT, Descriptor::SIFT, 2, 4, AugmentationType::ALL, false},
    {"FAST/ORB 2..4 down", Detector::FAST, Descriptor::ORB, 2, 4, AugmentationType::ALL, true}};
  // the other front ends, on shorter words
  std::vector<Conf> more = {
    {"BRISK/ORB 2..4", Detector::BRISK, Descriptor::ORB, 2, 4, AugmentationType::ALL, false},
    {"MSER/ORB 2..4", Detector::MSER, Descriptor::ORB, 2, 4, AugmentationType::ALL, false},
    {"ORB/ORB 2..4", Detector::ORB, Descriptor::ORB, 2, 4, AugmentationType::ALL, false},
    {"SIFT/SIFT 2..4", Detector::SIFT, Descriptor::SIFT, 2, 4, AugmentationType::ALL, false},
    {"FAST/SIFT 2..4", Detector::FAST, Descriptor::SIFT, 2, 4, AugmentationType::ALL, false}};
  unsigned depth = R.thorough ? 5 : 4;
  R.rule = "all words of length d over image frames (two motions, blank, change of scene, half covered, unchanged) fed to a real "
    "camera with a real tracker; the tracks handed to the feature update are observed at the call and compared with a "
    "reference front end and track life-cycle model after every frame; plus every periodic frame sequence of short period";
  R.Bound("alphabet", ops.size()); R.Bound("depth", depth); R.Bound("configurations", cfgs.size());
  R.assumptions = {"brute-force matcher (the FLANN matcher is randomised)", "OpenCV's detectors and RANSAC are deterministic"};
  auto run = [&](const Conf & cf, const std::vector<unsigned> & w, unsigned steps, const char * kind, mc::Ctx & c) {
      std::string key = cf.n + ":" + kind;
      for (auto x : w) {key += " " + ops[x].n;}
      if (!R.Selected(key)) {return;}
      c.Key(key);
      auto log = std::make_shared<DebugLogger>(LogLevel::FATAL, "");
      EKF::Parameters ep; ep.debug_logger = log; ep.augmenting_type = cf.aug; ep.augmenting_delta_time = 0.05;
      auto ekf = std::make_shared<EKF>(ep);
      ekf->SetMaxTrackLength(cf.hi);
      Camera::Parameters cp; cp.ekf = ekf; cp.logger = log; cp.rate = 10;
      Camera cam(cp);
      FeatureTracker::Parameters tp; tp.camera_id = cam.GetId(); tp.ekf = ekf; tp.logger = log; tp.px_error = 0.75;
      tp.detector = cf.d; tp.descriptor = cf.e; tp.matcher = Matcher::BRUTE_FORCE; tp.threshold = 20;
      tp.min_track_length = cf.lo; tp.max_track_length = cf.hi; tp.down_sample = cf.down;
      tp.down_sample_width = kW; tp.down_sample_height = kH;
      auto trk = std::make_shared<FeatureTracker>(tp);
      cam.AddTracker(trk);
      Front ref; ref.max_len = cf.hi; ref.min_len = cf.lo;
      switch (cf.d) {
        case Detector::FAST: ref.det = cv::FastFeatureDetector::create(20, true, cv::FastFeatureDetector::TYPE_9_16); break;
        case Detector::GFTT: ref.det = cv::GFTTDetector::create(); break;
        case Detector::BRISK: ref.det = cv::BRISK::create(20, 3, 1); break;
        case Detector::MSER: ref.det = cv::MSER::create(); break;
        case Detector::ORB: ref.det = cv::ORB::create(1000, 1.2f, 8, 31, 0, 2, cv::ORB::HARRIS_SCORE, 31, 20); break;
        case Detector::SIFT: ref.det = cv::SIFT::create(); break;
      }
      ref.ext = cf.e == Descriptor::ORB ? cv::Ptr<cv::DescriptorExtractor>(cv::ORB::create(500, 1.2f, 8, 31, 0, 2, cv::ORB::HARRIS_SCORE, 31, 20)) : cv::Ptr<cv::DescriptorExtractor>(cv::SIFT::create());
      ref.mat = cv::BFMatcher::create();
      std::map<unsigned, double> times; std::vector<unsigned> seq; std::vector<Frame> fs;
      std::map<unsigned, unsigned> pos;
      std::set<P2> used;
      int x = 0, y = 0;
      g_pass = false;
      for (unsigned k = 0; k < steps; ++k) {
        const Op & o = ops[w[k % w.size()]];
        x += o.dx; y += o.dy;
        Frame f{o.scene, x, y, o.half};
        cv::Mat img = Render(f), small = img;
        if (cf.down) {
          cv::resize(img, img, cv::Size(2 * kW, 3 * kH), 0, 0, cv::INTER_NEAREST);
          cv::resize(img, small, cv::Size(kW, kH));
        }
        g_calls.clear();
        CameraMessage msg(img); msg.time = 5.0 + 0.1 * k; msg.sensor_id = cam.GetId();
        cam.Callback(msg);
        c.Transition(); c.Eval();
        std::string t = "frame " + std::to_string(k) + " " + o.n + ": ";
        TrackSet want = ref.Step(k, small), got;
        if (g_calls.size() > 1) {c.Fail(t + "several feature updates for one frame"); break;}
        if (g_calls.empty() && !want.empty()) {c.Fail(t + "finished tracks are not used (" + std::to_string(want.size()) + " expected)"); break;}
        bool bad = false;
        uint64_t h = mc::Hash().u(k).h;
        if (!g_calls.empty()) {
          if (g_calls[0].px != 0.75 || g_calls[0].time != msg.time) {c.Fail(t + "wrong time or pixel error"); break;}
          // frame identifiers: the newest frame of a full track, or the order of appearance, fixes the numbering
          for (auto & tr : g_calls[0].tracks) {
            std::vector<P2> v;
            if (tr.true_feature_position.allFinite()) {c.Fail(t + "a tracked feature claims a known position"); bad = true; break;}
            for (auto & p : tr.track) {
              double lt = p.frame_time;
              int idx = static_cast<int>(std::lround(lt / 0.1));
              if (idx < 0 || idx > static_cast<int>(k) || std::abs(lt - 0.1 * idx) > 1e-9) {c.Fail(t + "a track point has a time that is not that of a frame"); bad = true; break;}
              // all points of one frame share its identifier
              auto it = pos.insert({p.frame_id, static_cast<unsigned>(idx)});
              if (it.first->second != static_cast<unsigned>(idx)) {c.Fail(t + "a frame identifier is paired with the wrong time"); bad = true; break;}
              v.push_back(ref.Snap(static_cast<unsigned>(idx), cf.down ? std::floor(p.key_point.pt.x / 2) : p.key_point.pt.x, cf.down ? std::floor(p.key_point.pt.y / 3) : p.key_point.pt.y));
            }
            if (bad) {break;}
            for (auto & p : v) {if (!used.insert(p).second) {c.Fail(t + "an observation is used twice"); bad = true; break;}}
            if (bad) {break;}
            if (v.size() < cf.lo || v.size() > cf.hi) {c.Fail(t + "track of length " + std::to_string(v.size())); bad = true; break;}
            for (size_t i = 1; i < v.size(); ++i) {
              if (v[i].frame != v[i - 1].frame + 1) {c.Fail(t + "a track skips a frame"); bad = true; break;}
              const Frame & a = fs[v[i - 1].frame]; const Frame & b = v[i].frame < fs.size() ? fs[v[i].frame] : f;
              if (a.scene == 'a' && b.scene == 'a') {c.Count(std::abs(v[i].x - v[i - 1].x + (b.x - a.x)) + std::abs(v[i].y - v[i - 1].y + (b.y - a.y)) < 2.5 ? "steps along the true motion" : "steps off the true motion");}
            }
            if (bad) {break;}
            // every frame of a track still has its clone
            if (cf.aug == AugmentationType::ALL) {
              auto & win = ekf->m_state.aug_states[cam.GetId()];
              for (auto & p : tr.track) {
                bool found = false;
                for (auto & a : win) {found = found || (a.frame_id == p.frame_id && std::abs(a.time - p.frame_time) < 1e-9);}
                if (!found) {c.Fail(t + "a track refers to a frame whose clone is gone"); bad = true; break;}
              }
            }
            if (bad) {break;}
            got.insert(v); for (auto & p : v) {h = mc::Hash().u(h).u(p.frame).d(p.x).d(p.y).h;}
          }
        }
        if (bad) {break;}
        c.State(h);
        if (got != want) {
          std::ostringstream q; q << t << got.size() << " tracks used, " << want.size() << " expected";
          for (auto & v : want) {if (!got.count(v)) {q << "; missing one of frames " << v.front().frame << ".." << v.back().frame; break;}}
          for (auto & v : got) {if (!want.count(v)) {q << "; unexpected one of frames " << v.front().frame << ".." << v.back().frame; break;}}
          c.Fail(q.str()); break;
        }
        c.Count("tracks used", got.size());
        fs.push_back(f);
      }
      c.Trace(); c.Sample(key);
    };
  const unsigned n = static_cast<unsigned>(ops.size());
  auto word = [](uint64_t code, unsigned a, unsigned len) {std::vector<unsigned> w(len); for (auto & x : w) {x = static_cast<unsigned>(code % a); code /= a;} return w;};
  auto pw = [](uint64_t a, unsigned e) {uint64_t r = 1; while (e--) {r *= a;} return r;};
  for (auto & cf : cfgs) {
    R.Parallel(pw(n, depth), [&](size_t i, mc::Ctx & c) {run(cf, word(i, n, depth), depth, "", c);});
    unsigned per = R.thorough ? 3 : 2;
    R.Parallel(pw(n, per), [&](size_t i, mc::Ctx & c) {run(cf, word(i, n, per), 12, " periodic", c);});
  }
  unsigned short_depth = R.thorough ? 4 : 3;
  R.Bound("depth of other front ends", short_depth); R.Bound("other front ends", more.size());
  for (auto & cf : more) {
    R.Parallel(pw(n, short_depth), [&](size_t i, mc::Ctx & c) {run(cf, word(i, n, short_depth), short_depth, "", c);});
    R.Parallel(n, [&](size_t i, mc::Ctx & c) {run(cf, word(i, n, 1), 8, " periodic", c);});
  }
  // the match tests and the grid on their own
  auto log = std::make_shared<DebugLogger>(LogLevel::FATAL, "");
  EKF::Parameters ep; ep.debug_logger = log;
  auto ekf = std::make_shared<EKF>(ep);
  FeatureTracker::Parameters tp; tp.ekf = ekf; tp.logger = log;
  FeatureTracker tracker(tp);
  std::vector<std::vector<cv::DMatch>> menu;
  menu.push_back({});
  for (int a = 0; a < 3; ++a) {
    menu.push_back({cv::DMatch(0, a, 1.0f)});
    for (float r : {1.2f, 1.45f, 3.0f}) {menu.push_back({cv::DMatch(0, a, 1.0f), cv::DMatch(0, (a + 1) % 3, r)});}
  }
  const uint64_t msize = menu.size();
  R.Bound("match lists", msize * msize * msize * msize);
  R.Parallel(msize * msize, [&](size_t i, mc::Ctx & c) {
      c.Key("match " + std::to_string(i));
      for (size_t j = 0; j < msize * msize; ++j) {
        std::vector<std::vector<cv::DMatch>> f = {menu[i % msize], menu[i / msize]}, b = {menu[j % msize], menu[j / msize]};
        for (size_t q = 0; q < 2; ++q) {for (auto & m : f[q]) {m.queryIdx = static_cast<int>(q);} for (auto & m : b[q]) {m.queryIdx = static_cast<int>(q);}}
        auto f0 = f, b0 = b;
        tracker.RatioTest(f); tracker.RatioTest(b);
        c.Transition(); c.Eval(); c.State(mc::Hash().u(i).u(j).h);
        auto good = [](const std::vector<cv::DMatch> & m) {return m.size() == 2 && m[0].distance / m[1].distance <= 0.7;};
        for (size_t q = 0; q < 2; ++q) {
          c.Check(f[q].size() == (good(f0[q]) ? 2 : 0) && b[q].size() == (good(b0[q]) ? 2 : 0), "ratio test keeps or drops the wrong match");
        }
        std::vector<cv::DMatch> out;
        FeatureTracker::SymmetryTest(f, b, out);
        std::set<std::pair<int, int>> want, got;
        for (auto & m : f) {for (auto & q : b) {if (m.size() == 2 && q.size() == 2 && m[0].trainIdx == q[0].queryIdx && q[0].trainIdx == m[0].queryIdx) {want.insert({m[0].queryIdx, m[0].trainIdx});}}}
        for (auto & m : out) {got.insert({m.queryIdx, m.trainIdx});}
        c.Check(got == want && got.size() == out.size(), "symmetry test keeps other than the mutual matches");
      }
      c.Trace();
    });
  std::vector<cv::Point2f> pts = {{0, 0}, {9.9f, 9.9f}, {10, 0}, {5, 15}, {-0.5f, 3}, {39.9f, 29.9f}, {40, 10}, {20, 30}, {25, 22}, {3, 4}, {33, 12}, {12, 3}};
  R.Parallel(pts.size(), [&](size_t i, mc::Ctx & c) {
      c.Key("grid " + std::to_string(i));
      for (size_t j = 0; j < pts.size(); ++j) {
        for (size_t k = 0; k < pts.size(); ++k) {
          for (auto sz : {std::pair<int, int>(30, 40), {35, 47}}) {
            std::vector<cv::KeyPoint> in = {cv::KeyPoint(pts[i], 1), cv::KeyPoint(pts[j], 2), cv::KeyPoint(pts[k], 3)};
            auto copy = in;
            auto out = FeatureTracker::GridFeatures(copy, sz.first, sz.second);
            std::vector<cv::Point2f> want; std::set<std::pair<int, int>> cell;
            for (auto & q : in) {
              if (q.pt.x <= -1 || q.pt.y <= -1) {continue;}
              int cx = static_cast<int>(q.pt.x / 10), cy = static_cast<int>(q.pt.y / 10);
              if (cx >= sz.second / 10 || cy >= sz.first / 10 || q.pt.x < -0.99) {continue;}
              if (cell.insert({cx, cy}).second) {want.push_back(q.pt);}
            }
            bool same = want.size() == out.size();
            for (size_t z = 0; same && z < want.size(); ++z) {same = want[z] == out[z].pt;}
            c.Transition(); c.Eval(); c.State(mc::Hash().u(i).u(j).u(k).u(sz.first).h);
            c.Check(same, "grid keeps other than the first feature of each 10-pixel cell");
          }
        }
      }
      c.Trace();
    });
  return R.Finish();
}
