// C29: sensors put their configuration into the filter and hand every message to it unchanged.
#include "world.hpp"
#include "sensors/camera.hpp"
#include "sensors/gps.hpp"
#include "sensors/gps_message.hpp"
#include "sensors/imu.hpp"
#include "sensors/imu_message.hpp"
#include "sensors/sim/sim_camera.hpp"
#include "sensors/sim/sim_camera_message.hpp"
#include "infrastructure/sim/truth_engine_cyclic.hpp"
#include "trackers/sim/sim_feature_tracker.hpp"
#include "trackers/sim/sim_fiducial_tracker.hpp"

namespace
{
using namespace world;
struct Flags {std::string n; int imu; bool gps, cam, fid, root, tiny, fej;};
const unsigned kTracksMax = 3;
ImuState ImuP(unsigned j, int f) {ImuState s = Machine::ImuOf(j + 2, f); s.pos_stability *= 1e-5; s.ang_stability *= 1e-5; s.acc_bias_stability *= 1e-5; s.omg_bias_stability *= 1e-5; return s;}
VectorXd Var(unsigned n, unsigned salt, bool tiny)
{
  VectorXd v(n);
  for (unsigned i = 0; i < n; ++i) {v[i] = 1e-3 * (1 + 0.37 * ((i * 7 + salt * 3) % 11));}
  if (tiny) {for (unsigned i = salt % 2; i < n; i += 2) {v[i] = i % 4 == 1 ? 0.0 : 3e-8;}}
  return v;
}
VectorXd Floor(VectorXd v) {return v.cwiseMax(1e-6);}

struct Rig
{
  World a, b, gen;      // sensors; direct calls; measurements
  std::shared_ptr<TruthEngine> truth;
  std::vector<std::shared_ptr<IMU>> imu; std::vector<std::shared_ptr<GPS>> gps; std::vector<std::shared_ptr<SimCamera>> cam;
  std::vector<std::shared_ptr<SimFiducialTracker>> fid; std::vector<std::shared_ptr<SimFeatureTracker>> trk, trx;   // trx: a second tracker on each camera
  std::vector<std::shared_ptr<ImuUpdater>> bi; std::vector<std::shared_ptr<GpsUpdater>> bg; std::vector<std::shared_ptr<FiducialUpdater>> bf; std::vector<std::shared_ptr<MsckfUpdater>> bm, bx;
  std::vector<std::vector<std::pair<unsigned, double>>> frames{2};
  std::string bad;
  unsigned frame{200}, last{0};
  static Cfg Base(const Flags & f) {Cfg c; c.root = f.root; c.fej = f.fej; c.chi = 1.0; return c;}
  static Cfg Gen() {Cfg c; c.imus = {{2, 0}, {3, 0}}; c.gpss = {{2, false}, {3, false}}; c.cams = {{2, false}, {3, false}}; c.fids = {{2, false}, {3, false}}; return c;}
  // imu flags, camera flags etc. of sensor j; the second has the complement
  static int I(const Flags & f, unsigned j) {return j ? 3 - f.imu : f.imu;}
  void Id(unsigned id, const std::string & name, const std::string & want)
  {
    if (id <= last) {bad = "sensor identifiers do not increase";}
    last = id;
    if (name != want) {bad = "name";}
  }
  explicit Rig(const Flags & f)
  : a(Base(f)), b(Base(f)), gen(Gen())
  {
    truth = std::make_shared<TruthEngineCyclic>(V3(), V3(), V3(), V3(), 0, 0, 0, 1.0, a.log);
    for (unsigned j = 0; j < 2; ++j) {
      int fl = I(f, j);
      ImuState s = ImuP(j, fl);
      IMU::Parameters p; p.name = "imu" + std::to_string(j); p.rate = 100; p.logger = a.log; p.ekf = a.ekf;
      p.is_extrinsic = fl & 1; p.is_intrinsic = (fl & 2) != 0; p.pos_i_in_b = s.pos_i_in_b; p.ang_i_to_b = s.ang_i_to_b; p.acc_bias = s.acc_bias; p.omg_bias = s.omg_bias;
      p.pos_stability = s.pos_stability; p.ang_stability = s.ang_stability; p.acc_bias_stability = s.acc_bias_stability; p.omg_bias_stability = s.omg_bias_stability;
      p.variance = Var(12, j, f.tiny);
      imu.push_back(std::make_shared<IMU>(p));
      unsigned id = imu[j]->GetId(); Id(id, imu[j]->GetName(), p.name);
      VectorXd v = Floor(Var(12, j, f.tiny));
      VectorXd w = fl == 3 ? v : fl == 1 ? VectorXd(v.head(6)) : fl == 2 ? VectorXd(v.tail(6)) : VectorXd(0);
      b.ekf->RegisterIMU(id, s, w.asDiagonal());
      bi.push_back(std::make_shared<ImuUpdater>(id, fl & 1, (fl & 2) != 0, "", 0.0, b.log));
    }
    for (unsigned j = 0; j < 2; ++j) {
      bool e = f.gps != (j == 1);
      GpsState s = Machine::GpsOf(j + 2, e); s.pos_stability *= 1e-5;
      GPS::Parameters p; p.name = "gps" + std::to_string(j); p.rate = 5; p.logger = a.log; p.ekf = a.ekf; p.is_extrinsic = e; p.pos_a_in_b = s.pos_a_in_b; p.pos_stability = s.pos_stability; p.variance = Var(3, j + 4, false);
      gps.push_back(std::make_shared<GPS>(p));
      unsigned id = gps[j]->GetId(); Id(id, gps[j]->GetName(), p.name);
      b.ekf->RegisterGPS(id, s, Matrix3d(Vector3d(Var(3, j + 4, false)).asDiagonal()));
      bg.push_back(std::make_shared<GpsUpdater>(id, e, "", 0.0, b.log));
    }
    for (unsigned j = 0; j < 2; ++j) {
      bool e = f.cam != (j == 1), x = f.fid != (j == 1);
      CamState s = World::Cam(j + 2, e); s.rate = 4 + j; s.pos_stability = 1e-6 * (j + 1); s.ang_stability = 3e-6 * (j + 1); s.intrinsics.k_1 = 0.01 * j; s.intrinsics.p_2 = 0.001 * j; s.intrinsics.f_y = 0.0101;
      SimCamera::Parameters p; p.no_errors = true; p.cam_params.name = "cam" + std::to_string(j); p.cam_params.rate = s.rate; p.cam_params.logger = a.log; p.cam_params.ekf = a.ekf;
      p.cam_params.is_extrinsic = e; p.cam_params.pos_c_in_b = s.pos_c_in_b; p.cam_params.ang_c_to_b = s.ang_c_to_b; p.cam_params.pos_stability = s.pos_stability; p.cam_params.ang_stability = s.ang_stability;
      p.cam_params.intrinsics = s.intrinsics; p.cam_params.variance = Var(6, j + 6, f.tiny);
      cam.push_back(std::make_shared<SimCamera>(p, truth));
      unsigned id = cam[j]->GetId(); Id(id, cam[j]->GetName(), p.cam_params.name);
      b.ekf->RegisterCamera(id, s, Floor(Var(6, j + 6, f.tiny)).asDiagonal());
      bm.push_back(std::make_shared<MsckfUpdater>(id, e, "", 0.0, 0.4 + 0.1 * j, b.log));
      SimFeatureTracker::Parameters t; t.no_errors = true; auto & tp = t.tracker_params; tp.camera_id = id; tp.logger = a.log; tp.ekf = a.ekf; tp.px_error = 0.5 + 0.2 * j; tp.min_feat_dist = 0.4 + 0.1 * j; tp.is_cam_extrinsic = e;
      trk.push_back(std::make_shared<SimFeatureTracker>(t, truth)); cam[j]->AddTracker(trk[j]);
      tp.px_error = 0.9 + 0.2 * j; tp.min_feat_dist = 0.45 + 0.1 * j;
      trx.push_back(std::make_shared<SimFeatureTracker>(t, truth)); cam[j]->AddTracker(trx[j]);
      bx.push_back(std::make_shared<MsckfUpdater>(id, e, "", 0.0, 0.45 + 0.1 * j, b.log));
      FidState fs = World::Fid(j + 2, x); fs.id = 40 + j; fs.pos_stability = FidState().pos_stability; fs.ang_stability = FidState().ang_stability;
      SimFiducialTracker::Parameters q; q.no_errors = true; auto & u = q.fiducial_params; u.camera_id = id; u.logger = a.log; u.ekf = a.ekf; u.id = fs.id; u.is_extrinsic = x; u.is_cam_extrinsic = e;
      u.detector_type = FiducialType::CHARUCO_BOARD; u.squares_x = 3; u.squares_y = 3; u.square_length = 0.04; u.marker_length = 0.03; u.pos_f_in_l = fs.pos_f_in_l; u.ang_f_to_l = fs.ang_f_to_l; u.variance = Var(6, j + 8, false);
      fid.push_back(std::make_shared<SimFiducialTracker>(q, truth)); cam[j]->AddFiducial(fid[j]);
      b.ekf->RegisterFiducial(fs, Var(6, j + 8, false).asDiagonal());
      bf.push_back(std::make_shared<FiducialUpdater>(fs.id, id, x, e, "", 0.0, b.log));
    }
    for (unsigned j = 0; j < 2; ++j) {
      if (j && (trk[1]->GetID() <= trk[0]->GetID() || fid[1]->GetID() <= fid[0]->GetID())) {bad = "tracker identifiers do not increase";}
      if (trk[j]->GetID() == fid[0]->GetID() || trk[j]->GetID() == fid[1]->GetID()) {bad = "tracker identifiers repeat";}
    }
    a.ekf->InitializeGravity(); b.ekf->InitializeGravity();
  }
  using V3 = Vector3d;
  // what is not in the numeric state
  static VectorXd Extra(EKF & e)
  {
    std::vector<double> v; auto & s = e.m_state;
    auto put = [&](std::initializer_list<double> x) {v.insert(v.end(), x);};
    for (auto & x : s.imu_states) {put({double(x.first), x.second.pos_stability, x.second.ang_stability, x.second.acc_bias_stability, x.second.omg_bias_stability, double(x.second.GetIsExtrinsic()), double(x.second.GetIsIntrinsic()), double(x.second.index), double(x.second.size)});}
    for (auto & x : s.gps_states) {put({double(x.first), x.second.pos_stability, double(x.second.GetIsExtrinsic()), double(x.second.index), double(x.second.size)});}
    for (auto & x : s.cam_states) {put({double(x.first), x.second.pos_stability, x.second.ang_stability, x.second.rate, double(x.second.GetIsExtrinsic()), double(x.second.index), double(x.second.size)});}
    for (auto & x : s.fid_states) {put({double(x.first), double(x.second.id), x.second.pos_stability, x.second.ang_stability, double(x.second.GetIsExtrinsic()), double(x.second.index), double(x.second.size)});}
    for (auto & k : s.aug_states) {for (auto & x : k.second) {put({double(k.first), double(x.frame_id), x.time, double(x.index)});}}
    put({e.GetCurrentTime(), double(e.GetStateSize())});
    return Eigen::Map<VectorXd>(v.data(), static_cast<long>(v.size()));
  }
  std::string Compare()
  {
    if (!bad.empty()) {return bad;}
    std::string d = DiffParams(Params(*a.ekf), Params(*b.ekf), 1e-12);
    if (!d.empty()) {return d;}
    VectorXd x = Extra(*a.ekf), y = Extra(*b.ekf);
    if (x.size() != y.size()) {return "different sets of sensors or clones";}
    for (long i = 0; i < x.size(); ++i) {if (!(std::abs(x[i] - y[i]) <= 1e-12 * (1 + std::abs(y[i])))) {return "parameter " + std::to_string(i) + ": " + std::to_string(x[i]) + " instead of " + std::to_string(y[i]);}}
    if (a.ekf->m_cov.rows() != b.ekf->m_cov.rows()) {return "covariance size";}
    if (!a.ekf->m_cov.isApprox(b.ekf->m_cov, 1e-11) || !(a.ekf->m_cov - b.ekf->m_cov).isZero(1e-10)) {return "covariance";}
    for (long i = 0; i < a.ekf->m_cov.rows(); ++i) {double p = a.ekf->m_cov(i, i), q = b.ekf->m_cov(i, i); if (std::abs(p - q) > 1e-8 * std::abs(q) + 1e-16) {return "covariance of state " + std::to_string(i);}}
    return "";
  }
};
struct MsgOp {std::string n; char k; unsigned j; double dt;};
}  // namespace

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C29");
  R.rule = "every combination of calibration flags, covariance form and prior (also below the minimum), two sensors of each kind; every word of "
    "messages up to the depth bound handed to the sensor objects, in lockstep with a filter that is registered and corrected directly";
  R.assumptions = {"registration and corrections of the filter itself are decided by the properties on the filter"};
  std::vector<Flags> fl;
  for (int i = 0; i < 4; ++i) {for (int m = 0; m < 16; ++m) {for (int t = 0; t < 2; ++t) {
    Flags f{"", i, (m & 1) != 0, (m & 2) != 0, (m & 4) != 0, (m & 8) != 0, t == 1, false};
    f.n = std::string("imu ") + std::to_string(i) + (f.gps ? " gps" : "") + (f.cam ? " cam" : "") + (f.fid ? " board" : "") + (f.root ? " root" : "") + (f.tiny ? " small priors" : "");
    fl.push_back(f);
    if (t == 0 && (m == 15 || m == 7)) {f.fej = true; f.n += " first estimates"; fl.push_back(f);}
  }}}
  std::vector<MsgOp> ops{{"imu0", 'i', 0, 0.125}, {"imu1", 'i', 1, 0.0625}, {"gps0", 'g', 0, 0.25}, {"gps1", 'g', 1, 0.125}, {"tracks0", 't', 0, 0.25}, {"tracks1", 't', 1, 0.25}, {"board0", 'f', 0, 0.125}, {"hidden board1", 'h', 1, 0.125}, {"board1 and tracks1", 'b', 1, 0.25}, {"tracks0 of two trackers", '2', 0, 0.25}};
  unsigned depth = R.thorough ? 4 : 2;
  size_t nw = 1; for (unsigned i = 0; i < depth; ++i) {nw *= ops.size();}
  // and long periodic words of two to three messages over twelve messages
  std::vector<std::vector<unsigned>> words;
  for (size_t i = 0; i < nw; ++i) {std::vector<unsigned> w; size_t q = i; for (unsigned k = 0; k < depth; ++k) {w.push_back(static_cast<unsigned>(q % ops.size())); q /= ops.size();} words.push_back(w);}
  for (size_t i = 0; i < ops.size() * ops.size(); ++i) {std::vector<unsigned> w; for (unsigned k = 0; k < (R.thorough ? 14u : 8u); ++k) {w.push_back(static_cast<unsigned>(k % 2 ? i / ops.size() : i % ops.size()));} words.push_back(w);}
  R.Bound("flag settings", fl.size()); R.Bound("message alphabet", ops.size()); R.Bound("depth", depth); R.Bound("words per setting", words.size());
  R.Parallel(fl.size() * words.size(), [&](size_t i, mc::Ctx & c) {
      const Flags & f = fl[i / words.size()]; const auto & w = words[i % words.size()];
      std::string key = f.n + ":"; for (unsigned x : w) {key += " " + ops[x].n;}
      if (!R.Selected(key)) {return;}
      c.Key(key);
      Rig r(f);
      std::string d = r.Compare();
      c.Eval();
      if (!d.empty()) {c.Fail("after construction: " + d); return;}
      unsigned n = 0;
      for (unsigned x : w) {
        const MsgOp & o = ops[x]; unsigned j = o.j; unsigned sid = j + 2;
        double t = r.gen.Advance(o.dt); ++n;
        std::string at = "message " + std::to_string(n) + " " + o.n + ": ";
        EKF & B = *r.b.ekf;
        if (o.k == 'i') {
          ImuMessage m; m.sensor_id = r.imu[j]->GetId(); m.sensor_type = SensorType::IMU; m.time = t;
          r.gen.ImuMeas(sid, t, 2, m.acceleration, m.angular_rate);
          m.acceleration_covariance = Vector3d(0.01, 0.02, 0.03).asDiagonal(); m.angular_rate_covariance = Vector3d(1e-4, 3e-4, 2e-4).asDiagonal();
          m.acceleration_covariance(0, 1) = m.acceleration_covariance(1, 0) = 0.003;
          r.imu[j]->Callback(m);
          r.bi[j]->UpdateEKF(B, t, m.acceleration, m.acceleration_covariance, m.angular_rate, m.angular_rate_covariance);
        } else if (o.k == 'g') {
          GpsMessage m; m.sensor_id = r.gps[j]->GetId(); m.sensor_type = SensorType::GPS; m.time = t; m.gps_lla = r.gen.GpsMeas(sid, t, 1);
          m.pos_covariance = Vector3d(0.04, 0.05, 0.09).asDiagonal(); m.pos_covariance(0, 2) = m.pos_covariance(2, 0) = 0.01;
          r.gps[j]->Callback(m);
          r.bg[j]->UpdateEKF(B, t, m.gps_lla, m.pos_covariance);
        } else {
          ++r.frame;
          cv::Mat none; SimCameraMessage m(none); m.sensor_id = r.cam[j]->GetId(); m.sensor_type = SensorType::Camera; m.time = t; m.frame_id = r.frame;
          double lt = B.CalculateLocalTime(t);
          B.PredictModel(lt); B.AugmentStateIfNeeded(r.cam[j]->GetId(), r.frame);
          auto tm = std::make_shared<SimFeatureTrackerMessage>(); tm->tracker_id = r.trk[j]->GetID(); tm->time = t; tm->sensor_id = m.sensor_id; tm->sensor_type = SensorType::Tracker;
          auto & fr = r.frames[j]; fr.push_back({r.frame, B.GetCurrentTime()});
          while (fr.size() > 4) {fr.erase(fr.begin());}
          double base = (Truth::Pos(fr.front().second) - Truth::Pos(fr.back().second)).norm();
          if (o.k != 'f' && o.k != 'h' && fr.size() >= 2 && base > 0.03) {
            for (unsigned q = 0; q < kTracksMax; ++q) {
              FeatureTrack ft; ft.true_feature_position = World::Feature(q);
              for (auto & e : fr) {ft.track.push_back(FeaturePoint{e.first, e.second, r.gen.Pixel(sid, e.second, q)});}
              tm->feature_tracks.push_back(ft);
            }
            c.Count("feature updates");
          }
          m.feature_track_messages.push_back(tm);
          auto t2 = std::make_shared<SimFeatureTrackerMessage>(*tm);
          if (o.k == '2') {
            t2->tracker_id = r.trx[j]->GetID();
            if (tm->feature_tracks.size() > 1) {t2->feature_tracks.resize(1); tm->feature_tracks.erase(tm->feature_tracks.begin());}
            m.feature_track_messages.push_back(t2);
          }
          if (!tm->feature_tracks.empty()) {r.bm[j]->UpdateEKF(B, t, tm->feature_tracks, 0.5 + 0.2 * j);}
          if (o.k == '2' && !t2->feature_tracks.empty()) {r.bx[j]->UpdateEKF(B, t, t2->feature_tracks, 0.9 + 0.2 * j); c.Count("frames of two trackers");}
          if (o.k == 'f' || o.k == 'h' || o.k == 'b') {
            auto fm = std::make_shared<SimFiducialTrackerMessage>(); fm->tracker_id = r.fid[j]->GetID(); fm->time = t; fm->sensor_id = m.sensor_id; fm->sensor_type = SensorType::Tracker;
            fm->board_detection = r.gen.FidMeas(sid, sid, t); fm->board_detection.frame_id = r.frame; fm->board_detection.frame_time = t;
            fm->is_board_visible = o.k != 'h';
            m.fiducial_track_messages.push_back(fm);
            if (o.k != 'h') {r.bf[j]->UpdateEKF(B, t, fm->board_detection); c.Count("board updates");}
          }
          r.cam[j]->Callback(m);
        }
        c.Transition(); c.Eval(); c.State(HashEkf(*r.a.ekf));
        d = r.Compare();
        if (!d.empty()) {c.Fail(at + d); return;}
      }
      c.Trace(); if (i % 2999 == 0) {c.Sample(key);}
    });
  return R.Finish();
}
