// C27: fiducial boards in images become exactly one pose measurement each, or none.
// wrap: _ZN15FiducialUpdater9UpdateEKFER3EKFdRK14BoardDetection
#include "mc.hpp"
#include <opencv2/opencv.hpp>
#include <opencv2/aruco.hpp>
#include <opencv2/aruco/charuco.hpp>
#include "ekf/ekf.hpp"
#include "ekf/update/fiducial_updater.hpp"
#include "sensors/camera.hpp"
#include "sensors/camera_message.hpp"
#include "trackers/fiducial_tracker.hpp"

struct Call {const void * who; double time; BoardDetection b;};
static std::vector<Call> g_calls;
static bool g_pass = false;
extern "C" {
void __real__ZN15FiducialUpdater9UpdateEKFER3EKFdRK14BoardDetection(FiducialUpdater *, EKF &, double, const BoardDetection &);
void __wrap__ZN15FiducialUpdater9UpdateEKFER3EKFdRK14BoardDetection(FiducialUpdater * u, EKF & e, double t, const BoardDetection & b)
{
  g_calls.push_back({u, t, b});
  if (g_pass) {__real__ZN15FiducialUpdater9UpdateEKFER3EKFdRK14BoardDetection(u, e, t, b);}
}
}
namespace
{
const double kSq = 0.04, kMk = 0.03;
struct Board {bool charuco; unsigned dict, nx, ny;};
struct Pose {std::string n; Eigen::Vector3d p; Eigen::Matrix3d r;};
struct View {Board b; Pose p; unsigned x0, y0, x1, y1;};   // visible squares (markers)
double Width(const Board & b) {return b.charuco ? b.nx * kSq : b.nx * kSq + (b.nx - 1) * kMk;}
double Height(const Board & b) {return b.charuco ? b.ny * kSq : b.ny * kSq + (b.ny - 1) * kMk;}
const double kPx = 3000;   // texture pixels per metre
cv::Mat Texture(const Board & b)
{
  auto d = cv::aruco::getPredefinedDictionary(static_cast<cv::aruco::PREDEFINED_DICTIONARY_NAME>(b.dict));
  cv::Mat m;
  cv::Size s(static_cast<int>(std::lround(Width(b) * kPx)), static_cast<int>(std::lround(Height(b) * kPx)));
  if (b.charuco) {
    cv::aruco::CharucoBoard::create(static_cast<int>(b.nx), static_cast<int>(b.ny), static_cast<float>(kSq), static_cast<float>(kMk), d)->draw(s, m, 0, 1);
  } else {
    cv::aruco::GridBoard::create(static_cast<int>(b.nx), static_cast<int>(b.ny), static_cast<float>(kSq), static_cast<float>(kMk), d)->draw(s, m, 0, 1);
  }
  return m;
}
// image of a set of partly covered boards, by casting the ray of every pixel
cv::Mat Render(const Intrinsics & k, const std::vector<View> & views)
{
  static std::map<std::tuple<bool, unsigned, unsigned, unsigned>, cv::Mat> cache;
  int w = static_cast<int>(k.width), h = static_cast<int>(k.height);
  cv::Mat out(h, w, CV_8UC1, cv::Scalar(200));
  static std::map<double, std::vector<cv::Point2d>> rays;
  auto & ray = rays[k.k_1];
  if (ray.empty()) {
    std::vector<cv::Point2d> px;
    for (int y = 0; y < h; ++y) {for (int x = 0; x < w; ++x) {px.emplace_back(x, y);}}
    cv::Matx33d K(k.f_x / k.pixel_size, 0, w / 2.0, 0, k.f_y / k.pixel_size, h / 2.0, 0, 0, 1);
    cv::Vec4d D(k.k_1, k.k_2, k.p_1, k.p_2);
    cv::undistortPoints(px, ray, K, D);
  }
  for (auto & v : views) {
    auto & tex = cache[std::make_tuple(v.b.charuco, v.b.dict, v.b.nx, v.b.ny)];
    if (tex.empty()) {tex = Texture(v.b); cv::GaussianBlur(tex, tex, cv::Size(5, 5), 1.2);}
    double pitch = v.b.charuco ? kSq : kSq + kMk, W = Width(v.b), H = Height(v.b);
    double lx = v.x0 * pitch - 1e-9, ux = v.b.charuco ? v.x1 * pitch : v.x1 * pitch - kMk, ly = v.y0 * pitch - 1e-9, uy = v.b.charuco ? v.y1 * pitch : v.y1 * pitch - kMk;
    // board frame: x along the rows; y down the columns (z into the board)
    Eigen::Vector3d n = v.p.r.col(2);
    double off = n.dot(v.p.p), margin = 0.02;
    for (int y = 0; y < h; ++y) {
      for (int x = 0; x < w; ++x) {
        const auto & q = ray[static_cast<size_t>(y * w + x)];
        Eigen::Vector3d d(q.x, q.y, 1);
        double den = n.dot(d);
        if (std::abs(den) < 1e-9) {continue;}
        double s = off / den;
        if (s <= 0) {continue;}
        Eigen::Vector3d f = v.p.r.transpose() * (s * d - v.p.p);
        double bx = f.x(), by = f.y();
        if (bx < -margin || by < -margin || bx > W + margin || by > H + margin) {continue;}
        uint8_t val = 255;
        if (bx >= lx && by >= ly && bx < ux && by < uy) {
          double tx = bx * kPx - 0.5, ty = by * kPx - 0.5;
          int ix = static_cast<int>(std::floor(tx)), iy = static_cast<int>(std::floor(ty));
          double a = tx - ix, b = ty - iy;
          auto at = [&](int i, int j) {return static_cast<double>(tex.at<uint8_t>(std::min(std::max(j, 0), tex.rows - 1), std::min(std::max(i, 0), tex.cols - 1)));};
          val = static_cast<uint8_t>((1 - a) * (1 - b) * at(ix, iy) + a * (1 - b) * at(ix + 1, iy) + (1 - a) * b * at(ix, iy + 1) + a * b * at(ix + 1, iy + 1));
        }
        out.at<uint8_t>(y, x) = val;
      }
    }
  }
  cv::GaussianBlur(out, out, cv::Size(3, 3), 0.7);
  return out;
}
Eigen::Matrix3d Rot(double x, double y, double z)
{
  const double d = M_PI / 180;
  return (Eigen::AngleAxisd(x * d, Eigen::Vector3d::UnitX()) * Eigen::AngleAxisd(y * d, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(z * d, Eigen::Vector3d::UnitZ())).toRotationMatrix();
}
// pose of the board origin such that the board centre is at c
Pose At(const std::string & n, const Board & b, const Eigen::Vector3d & c, const Eigen::Matrix3d & r) {return {n, c - r * Eigen::Vector3d(Width(b) / 2, Height(b) / 2, 0), r};}
}  // namespace

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C27");
  R.rule = "rendered images of ArUco and ChArUco boards fed to a real camera with real trackers: a grid of board poses, every "
    "rectangle of visible squares, and all words of frames up to the depth bound with one and two boards; the pose "
    "measurements handed to the filter are observed at the call and compared with the rendered pose after every frame";
  R.assumptions = {"noise-free rendered images of 640 x 480 pixels"};
  cv::setNumThreads(1);
  auto intr = [](bool dist) {
      Intrinsics k; k.width = 640; k.height = 480; k.pixel_size = 5e-6; k.f_x = 620 * 5e-6; k.f_y = 600 * 5e-6;
      if (dist) {k.k_1 = -0.12; k.k_2 = 0.03; k.p_1 = 0.002; k.p_2 = -0.003;}
      return k;
    };
  struct Rig
  {
    std::shared_ptr<EKF> ekf; std::shared_ptr<Camera> cam; std::vector<std::shared_ptr<FiducialTracker>> trk; std::vector<unsigned> ids;
    std::vector<Eigen::VectorXd> vars;
  };
  auto rig = [&](const std::vector<Board> & bs, const Intrinsics & k, AugmentationType aug, double size = 1.0) {
      Rig r;
      auto log = std::make_shared<DebugLogger>(LogLevel::FATAL, "");
      EKF::Parameters ep; ep.debug_logger = log; ep.augmenting_type = aug; ep.augmenting_delta_time = 0.01;
      r.ekf = std::make_shared<EKF>(ep);
      r.ekf->SetMaxTrackLength(4);
      // another camera with other intrinsics, registered before
      Camera::Parameters op; op.ekf = r.ekf; op.logger = log; op.rate = 10; Camera other(op);
      Camera::Parameters cp; cp.ekf = r.ekf; cp.logger = log; cp.rate = 10; cp.intrinsics = k;
      r.cam = std::make_shared<Camera>(cp);
      for (size_t i = 0; i < bs.size(); ++i) {
        FiducialTracker::Parameters fp; fp.camera_id = r.cam->GetId(); fp.ekf = r.ekf; fp.logger = log;
        fp.detector_type = bs[i].charuco ? FiducialType::CHARUCO_BOARD : FiducialType::ARUCO_BOARD; fp.predefined_dict = bs[i].dict;
        fp.squares_x = bs[i].nx; fp.squares_y = bs[i].ny; fp.square_length = kSq * size; fp.marker_length = kMk * size; fp.id = 11 + 7 * static_cast<unsigned>(i);
        double q = 1.0 + static_cast<double>(i);
        Eigen::VectorXd v(6); v << 0.01 * q, 0.02 * q, 0.03 * q, 0.004 * q, 0.005 * q, 0.006 * q; fp.variance = v; r.vars.push_back(v);
        fp.pos_f_in_l = {0, 0, 1}; fp.ang_f_to_l = {1, 0, 0, 0}; fp.is_extrinsic = true;
        r.trk.push_back(std::make_shared<FiducialTracker>(fp)); r.ids.push_back(fp.id);
        r.cam->AddFiducial(r.trk.back());
      }
      return r;
    };
  // expected: does this view determine a pose, and how well
  auto due = [](const View & v) {unsigned a = v.x1 - v.x0, b = v.y1 - v.y0; return v.b.charuco ? (a >= 3 && b >= 3) : (a >= 1 && b >= 1);};
  auto check = [&](Rig & r, const std::vector<Board> & bs, const std::vector<View> & vs, double time, const std::string & t, mc::Ctx & c) -> bool {
      unsigned want = 0;
      for (auto & v : vs) {if (due(v)) {for (auto & b : bs) {if (b.dict == v.b.dict && b.charuco == v.b.charuco) {++want;}}}}
      if (g_calls.size() != want) {c.Fail(t + std::to_string(g_calls.size()) + " pose measurements instead of " + std::to_string(want)); return false;}
      std::set<const void *> who;
      for (auto & g : g_calls) {
        if (!who.insert(g.who).second) {c.Fail(t + "two measurements of one board"); return false;}
        if (g.time != time) {c.Fail(t + "measurement time is not the message time"); return false;}
        // which board: by its error
        int bi = -1;
        for (size_t i = 0; i < bs.size(); ++i) {if ((g.b.pos_error - r.vars[i].head(3)).norm() < 1e-12 && (g.b.ang_error - r.vars[i].tail(3)).norm() < 1e-12) {bi = static_cast<int>(i);}}
        if (bi < 0) {c.Fail(t + "measurement error is not the board's configured one"); return false;}
        if (!r.ekf->m_state.aug_states[r.cam->GetId()].empty() && r.ekf->m_state.aug_states[r.cam->GetId()].back().frame_id != g.b.frame_id) {c.Fail(t + "measurement of another frame"); return false;}
        const View * v = nullptr;
        for (auto & x : vs) {if (x.b.dict == bs[static_cast<size_t>(bi)].dict && x.b.charuco == bs[static_cast<size_t>(bi)].charuco) {v = &x;}}
        if (!v) {c.Fail(t + "measurement of a board that is not in view"); return false;}
        unsigned a = v->x1 - v->x0, b = v->y1 - v->y0;
        bool full = a == v->b.nx && b == v->b.ny, wide = v->b.charuco ? a >= 4 && b >= 4 : a >= 2 && b >= 2;
        double pe = (g.b.pos_f_in_c - v->p.p).norm(), dist = v->p.p.norm();
        double ae = Eigen::Quaterniond(v->p.r).angularDistance(g.b.ang_f_to_c) * 180 / M_PI;
        bool ch = v->b.charuco;
        double ptol = full ? (ch ? 0.01 : 0.03) : wide ? 0.05 : 0.15, atol = full ? (ch ? 1.5 : 5.0) : wide ? 12.0 : 180.0;
        c.Count(full ? "full views" : wide ? "wide views" : "narrow views");
        if (!(pe <= ptol * dist)) {std::ostringstream o; o << t << "board at " << v->p.p.transpose() << " measured at " << g.b.pos_f_in_c.transpose(); c.Fail(o.str()); return false;}
        if (!(ae <= atol)) {std::ostringstream o; o << t << "board orientation off by " << ae << " deg"; c.Fail(o.str()); return false;}
        if (std::abs(g.b.ang_f_to_c.norm() - 1) > 1e-9) {c.Fail(t + "orientation is not a unit quaternion"); return false;}
      }
      return true;
    };
  auto feed = [&](Rig & r, const cv::Mat & img, double time) {
      g_calls.clear();
      CameraMessage m(img); m.time = time; m.sensor_id = r.cam->GetId();
      r.cam->Callback(m);
    };
  {
    // frame numbers do not start small
    Rig r = rig({{true, 0, 5, 7}}, intr(false), AugmentationType::NONE);
    const unsigned before = R.thorough ? 70000 : 5000;
    cv::Mat img(8, 8, CV_8UC1, cv::Scalar(90));
    for (unsigned k = 0; k < before; ++k) {feed(r, img, 0.01 * k);}
    g_calls.clear();
    R.Bound("frames before the first case", before);
  }
  const std::vector<Board> kinds = {{true, 0, 5, 7}, {false, 0, 3, 4}, {true, 8, 6, 4}, {false, 5, 4, 2}};
  const std::vector<AugmentationType> augs = {AugmentationType::ALL, AugmentationType::PRIMARY, AugmentationType::TIME, AugmentationType::NONE};
  // 1. pose grid
  const std::vector<double> tilts = R.thorough ? std::vector<double>{-45, -30, -15, 0, 15, 30, 45} : std::vector<double>{-35, 0, 20};
  const std::vector<double> rolls = R.thorough ? std::vector<double>{-150, -90, -45, 0, 30, 60, 120, 180} : std::vector<double>{-90, 0, 30, 180};
  const std::vector<double> dists = R.thorough ? std::vector<double>{0.42, 0.52, 0.62} : std::vector<double>{0.45, 0.6};
  const std::vector<Eigen::Vector2d> offs = R.thorough ? std::vector<Eigen::Vector2d>{{0, 0}, {0.08, 0}, {-0.08, 0.05}, {0.02, -0.06}} : std::vector<Eigen::Vector2d>{{0, 0}, {-0.07, 0.04}};
  struct Case {size_t k; bool d; Pose p;};
  std::vector<Case> grid;
  for (size_t k = 0; k < kinds.size(); ++k) {
    for (bool d : {false, true}) {
      for (double x : tilts) {for (double y : tilts) {for (double z : rolls) {for (double s : dists) {for (auto & o : offs) {
              std::ostringstream n; n << "tilt " << x << "," << y << " roll " << z << " dist " << s << " off " << o.transpose();
              grid.push_back({k, d, At(n.str(), kinds[k], {o.x() * s / 0.5, o.y() * s / 0.5, s}, Rot(x, y, z))});
      }}}}}
    }
  }
  auto inside = [&](const View & v, const Intrinsics & k) {
      cv::Matx33d K(k.f_x / k.pixel_size, 0, k.width / 2, 0, k.f_y / k.pixel_size, k.height / 2, 0, 0, 1); cv::Vec4d D(k.k_1, k.k_2, k.p_1, k.p_2);
      for (double x : {-0.02, Width(v.b) + 0.02}) {for (double y : {-0.02, Height(v.b) + 0.02}) {
          Eigen::Vector3d q = v.p.p + v.p.r * Eigen::Vector3d(x, y, 0);
          std::vector<cv::Point3d> in{{q.x(), q.y(), q.z()}}; std::vector<cv::Point2d> o;
          cv::projectPoints(in, cv::Vec3d(0, 0, 0), cv::Vec3d(0, 0, 0), K, D, o);
          if (q.z() < 0.1 || o[0].x < 3 || o[0].y < 3 || o[0].x > k.width - 4 || o[0].y > k.height - 4) {return false;}
        }}
      return true;
    };
  R.Bound("poses", grid.size());
  R.Parallel(grid.size(), [&](size_t i, mc::Ctx & c) {
      const Case & g = grid[i];
      std::string key = "pose board " + std::to_string(g.k) + (g.d ? " distorted " : " ") + g.p.n;
      if (!R.Selected(key)) {return;}
      c.Key(key);
      Intrinsics k = intr(g.d);
      View v{kinds[g.k], g.p, 0, 0, kinds[g.k].nx, kinds[g.k].ny};
      if (!inside(v, k)) {c.Count("poses out of the image"); return;}
      if (g.p.r(2, 2) < 0.65) {c.Count("poses too oblique to detect"); return;}
      g_pass = false;
      Rig r = rig({kinds[g.k]}, k, AugmentationType::ALL);
      cv::Mat img = Render(k, {v}), copy = img.clone();
      feed(r, img, 3.25);
      c.Transition(); c.Eval(); c.State(mc::Hash().u(i).h);
      if (cv::norm(img, copy) != 0) {c.Fail("the input image was modified"); return;}
      if (!check(r, {kinds[g.k]}, {v}, 3.25, "", c)) {return;}
      // the same picture of a board of another size is that board at another distance
      std::vector<Call> one = g_calls;
      for (double size : {0.05, 40.0}) {
        Rig q = rig({kinds[g.k]}, k, AugmentationType::ALL, size);
        feed(q, img, 3.25);
        c.Transition(); c.Eval();
        std::ostringstream o; o << "board " << size << " times as large: ";
        if (g_calls.size() != one.size()) {c.Fail(o.str() + std::to_string(g_calls.size()) + " pose measurements instead of " + std::to_string(one.size())); return;}
        for (size_t n = 0; n < one.size(); ++n) {
          o << "measured at " << g_calls[n].b.pos_f_in_c.transpose() << " instead of " << size * one[n].b.pos_f_in_c.transpose();
          if (!((g_calls[n].b.pos_f_in_c - size * one[n].b.pos_f_in_c).norm() < 0.02 * size * one[n].b.pos_f_in_c.norm())) {c.Fail(o.str()); return;}
          if (!(g_calls[n].b.ang_f_to_c.angularDistance(one[n].b.ang_f_to_c) < 0.05)) {c.Fail(o.str() + ", turned"); return;}
        }
      }
      c.Trace(); c.Sample(key);
    });
  // 2. every rectangle of visible squares
  struct Sub {size_t k; unsigned x0, y0, x1, y1; bool d; bool tilt;};
  std::vector<Sub> subs;
  for (size_t k = 0; k < kinds.size(); ++k) {
    for (unsigned x0 = 0; x0 < kinds[k].nx; ++x0) {for (unsigned x1 = x0 + 1; x1 <= kinds[k].nx; ++x1) {
        for (unsigned y0 = 0; y0 < kinds[k].ny; ++y0) {for (unsigned y1 = y0 + 1; y1 <= kinds[k].ny; ++y1) {
            for (bool tilt : {false, true}) {
              if (!R.thorough && tilt && (x0 + y0) % 2) {continue;}
              subs.push_back({k, x0, y0, x1, y1, false, tilt});
              if (R.thorough) {subs.push_back({k, x0, y0, x1, y1, true, tilt});}
            }
          }}}}
  }
  R.Bound("visible rectangles", subs.size());
  R.Parallel(subs.size(), [&](size_t i, mc::Ctx & c) {
      const Sub & s = subs[i];
      std::string key = "part board " + std::to_string(s.k) + (s.d ? " distorted" : "") + (s.tilt ? " tilted" : "") + " x " + std::to_string(s.x0) + ".." + std::to_string(s.x1) + " y " + std::to_string(s.y0) + ".." + std::to_string(s.y1);
      if (!R.Selected(key)) {return;}
      c.Key(key);
      Intrinsics k = intr(s.d);
      View v{kinds[s.k], At("", kinds[s.k], {0.01, -0.01, 0.5}, s.tilt ? Rot(25, -20, 15) : Rot(8, 12, 0)), s.x0, s.y0, s.x1, s.y1};
      g_pass = false;
      Rig r = rig({kinds[s.k]}, k, AugmentationType::ALL);
      feed(r, Render(k, {v}), 1.5);
      c.Transition(); c.Eval(); c.State(mc::Hash().u(i).u(1).h);
      if (check(r, {kinds[s.k]}, {v}, 1.5, "", c)) {c.Trace(); c.Sample(key);}
    });
  // 3. words of frames, two boards
  const std::vector<Board> two = {kinds[0], kinds[3]};
  struct F {std::string n; std::vector<View> v; bool empty;};
  std::vector<F> fr;
  {
    Pose a = At("", two[0], {-0.13, 0, 0.62}, Rot(15, -12, 5)), b = At("", two[1], {0.13, 0.02, 0.6}, Rot(-14, 10, -8)), a2 = At("", two[0], {0.02, 0.01, 0.5}, Rot(-20, 15, 40));
    View A{two[0], a, 0, 0, 5, 7}, B{two[1], b, 0, 0, 4, 2}, A2{two[0], a2, 0, 0, 5, 7}, Thin{two[0], a, 0, 0, 5, 2}, Few{two[0], a, 1, 2, 3, 4};
    Board other{true, 13, 5, 7}; View O{other, a, 0, 0, 5, 7};
    fr = {{"both", {A, B}, false}, {"first", {A2}, false}, {"second", {B}, false}, {"blank", {}, false}, {"thin+second", {Thin, B}, false}, {"few", {Few}, false}, {"unknown", {O}, false}, {"empty", {}, true}};
  }
  const unsigned depth = R.thorough ? 4 : 3, n = static_cast<unsigned>(fr.size());
  R.Bound("frame alphabet", n); R.Bound("depth", depth);
  uint64_t total = 1;
  for (unsigned k = 0; k < depth; ++k) {total *= n;}
  std::vector<cv::Mat> imgs;
  for (auto & f : fr) {imgs.push_back(f.empty ? cv::Mat() : Render(intr(true), f.v));}
  for (auto aug : augs) {
    R.Parallel(total, [&](size_t code, mc::Ctx & c) {
        std::vector<unsigned> w(depth); size_t q = code; std::string key = "frames " + std::to_string(static_cast<int>(aug)) + ":";
        for (auto & x : w) {x = static_cast<unsigned>(q % n); q /= n; key += " " + fr[x].n;}
        if (!R.Selected(key)) {return;}
        c.Key(key);
        g_pass = true;
        Rig r = rig(two, intr(true), aug);
        double time = 100;
        for (unsigned k = 0; k < depth; ++k) {
          time += 0.25;
          auto tr = [&](size_t b) {auto & f = r.ekf->m_state.fid_states.at(r.ids[b]); return r.ekf->m_cov.diagonal().segment(f.index, 3).sum();};
          double v0 = tr(0), v1 = tr(1), t0 = r.ekf->GetCurrentTime();
          feed(r, imgs[w[k]], time);
          c.Transition(); c.Eval();
          c.State(mc::Hash().m(r.ekf->m_cov).h);
          std::string t = "frame " + std::to_string(k) + " " + fr[w[k]].n + ": ";
          if (fr[w[k]].empty) {
            if (!g_calls.empty() || r.ekf->GetCurrentTime() != t0) {c.Fail(t + "an empty image has an effect"); return;}
            continue;
          }
          if (!check(r, two, fr[w[k]].v, time, t, c)) {return;}
          // each measurement lowers the uncertainty of its own board
          bool s0 = false, s1 = false;
          for (auto & g : g_calls) {((g.b.pos_error[0] < 0.015) ? s0 : s1) = true;}
          if ((s0 && !(tr(0) < v0)) || (s1 && !(tr(1) < v1))) {c.Fail(t + "a measurement does not correct its own board"); return;}
          if (g_calls.empty() && (tr(0) < v0 - 1e-12 || tr(1) < v1 - 1e-12)) {c.Fail(t + "a frame without measurement changes the boards"); return;}
        }
        c.Trace(); c.Sample(key);
      });
  }
  return R.Finish();
}
