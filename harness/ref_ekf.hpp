// Reference model of the calibration filter.
//
// The model keeps every estimated quantity in its own labelled block, appended
// in the order it was created, and a dense full covariance over those blocks.
// It knows nothing about the implementation's memory layout; a comparison looks
// the implementation's block up by the public index fields of its state.
#ifndef REF_EKF_HPP_
#define REF_EKF_HPP_

#include <cmath>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include <eigen3/Eigen/Eigen>

#include "ekf/ekf.hpp"
#include "ekf/types.hpp"
#include "ekf/update/updater.hpp"
#include "infrastructure/debug_logger.hpp"
#include "mc.hpp"

namespace ref
{

using Eigen::MatrixXd;
using Eigen::VectorXd;
using Eigen::Vector3d;
using Eigen::Matrix3d;
using Eigen::Quaterniond;

inline Quaterniond Exp(const Vector3d & v)
{
  double a = v.norm();
  if (a < 1e-12) {return Quaterniond(1, 0.5 * v[0], 0.5 * v[1], 0.5 * v[2]).normalized();}
  Vector3d u = v / a * std::sin(a / 2);
  return Quaterniond(std::cos(a / 2), u[0], u[1], u[2]);
}

inline Vector3d Log(Quaterniond q)
{
  if (q.w() < 0) {q.coeffs() *= -1;}
  double n = q.vec().norm();
  if (n < 1e-12) {return 2 * q.vec();}
  return q.vec() / n * 2 * std::atan2(n, q.w());
}

inline double AngDist(const Quaterniond & a, const Quaterniond & b)
{
  Quaterniond d = a * b.conjugate();
  return 2 * std::atan2(d.vec().norm(), std::abs(d.w()));
}

inline Matrix3d Skew(const Vector3d & v)
{
  Matrix3d m;
  m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
  return m;
}

enum Kind {BODY, IMU_EXT, IMU_INT, GPSB, CAM, FID, AUG};

struct Block
{
  Kind kind; unsigned id{0}; unsigned serial{0}; unsigned size{0};
  // additive and rotational components in order; rot[i] true for a rotation triple
  std::vector<Vector3d> add;   // one entry per triple (unused for rotations)
  std::vector<Quaterniond> rot;
  std::vector<bool> is_rot;
  VectorXd q;                  // process noise
  unsigned frame{0}; double time{0};
};

inline Block MakeBlock(Kind k, unsigned id)
{
  Block b; b.kind = k; b.id = id;
  return b;
}

inline void AddVec(Block & b, const Vector3d & v)
{
  b.add.push_back(v); b.rot.push_back(Quaterniond::Identity()); b.is_rot.push_back(false); b.size += 3;
}
inline void AddRot(Block & b, const Quaterniond & r)
{
  b.add.push_back(Vector3d::Zero()); b.rot.push_back(r); b.is_rot.push_back(true); b.size += 3;
}

struct RefEkf
{
  std::vector<Block> blocks;   // blocks[0] is the body
  MatrixXd P;
  double time{0};
  bool time_init{false};
  double ref_time{0};
  bool gravity{false};
  bool zero_acc{true};
  unsigned serial{0};
  unsigned max_track{20};
  double max_frame_period{0}, max_track_duration{0}, min_aug_period{1.0};
  unsigned primary{0};
  AugmentationType type{AugmentationType::ALL};
  double aug_dt{1.0}, aug_pos{0.1}, aug_ang{0.1}, prev_aug_time{0};
  bool frame_since_aug{true};
  // uncalibrated sensors: registered, but without a block
  std::map<unsigned, bool> imus, gpss, cams, fids;

  explicit RefEkf(const EKF::Parameters & p)
  {
    Block b = MakeBlock(BODY, 0);
    AddVec(b, Vector3d::Zero()); AddVec(b, Vector3d::Zero()); AddVec(b, Vector3d(0, 0, 9.80665));
    AddRot(b, Quaterniond::Identity()); AddVec(b, Vector3d::Zero()); AddVec(b, Vector3d::Zero());
    b.q = p.process_noise;
    blocks.push_back(b);
    P = MatrixXd::Identity(18, 18) * 1e-2;
    type = p.augmenting_type; aug_dt = p.augmenting_delta_time;
    aug_pos = p.augmenting_pos_error; aug_ang = p.augmenting_ang_error;
  }
  Block & body() {return blocks[0];}
  const Block & body() const {return blocks[0];}
  unsigned Offset(size_t i) const
  {
    unsigned o = 0;
    for (size_t k = 0; k < i; ++k) {o += blocks[k].size;}
    return o;
  }
  unsigned Size() const {return Offset(blocks.size());}
  void Append(const Block & b, const MatrixXd & cov)
  {
    unsigned n = Size();
    blocks.push_back(b);
    MatrixXd N = MatrixXd::Zero(n + b.size, n + b.size);
    N.topLeftCorner(n, n) = P;
    N.block(n, n, b.size, b.size) = cov.topLeftCorner(b.size, b.size);
    P = N;
  }
  void Erase(size_t i)
  {
    unsigned o = Offset(i), s = blocks[i].size, n = Size();
    std::vector<unsigned> keep;
    for (unsigned k = 0; k < n; ++k) {if (k < o || k >= o + s) {keep.push_back(k);}}
    MatrixXd N(keep.size(), keep.size());
    for (size_t a = 0; a < keep.size(); ++a) {
      for (size_t b = 0; b < keep.size(); ++b) {N(a, b) = P(keep[a], keep[b]);}
    }
    P = N;
    blocks.erase(blocks.begin() + static_cast<long>(i));
  }
  void RegImu(unsigned id, const ImuState & s, const MatrixXd & cov)
  {
    if (imus.count(id)) {return;}
    imus[id] = true;
    unsigned o = 0;
    bool e = s.GetIsExtrinsic(), in = s.GetIsIntrinsic();
    // one joint prior covariance over [extrinsic, intrinsic]
    unsigned n0 = Size();
    if (e) {
      Block b = MakeBlock(IMU_EXT, id);
      AddVec(b, s.pos_i_in_b); AddRot(b, s.ang_i_to_b);
      b.q = VectorXd::Zero(6);
      b.q.head(3).setConstant(s.pos_stability); b.q.tail(3).setConstant(s.ang_stability);
      Append(b, cov.block(o, o, 6, 6)); o += 6;
    }
    if (in) {
      Block b = MakeBlock(IMU_INT, id);
      AddVec(b, s.acc_bias); AddVec(b, s.omg_bias);
      b.q = VectorXd::Zero(6);
      b.q.head(3).setConstant(s.acc_bias_stability); b.q.tail(3).setConstant(s.omg_bias_stability);
      Append(b, cov.block(o, o, 6, 6)); o += 6;
    }
    if (o) {P.block(n0, n0, o, o) = cov.topLeftCorner(o, o);}
  }
  void RegGps(unsigned id, const GpsState & s, const MatrixXd & cov)
  {
    if (gpss.count(id)) {return;}
    gpss[id] = true;
    if (s.GetIsExtrinsic()) {
      Block b = MakeBlock(GPSB, id);
      AddVec(b, s.pos_a_in_b);
      b.q = VectorXd::Constant(3, s.pos_stability);
      Append(b, cov);
    }
  }
  void RegCam(unsigned id, const CamState & s, const MatrixXd & cov)
  {
    if (cams.count(id)) {return;}
    cams[id] = true;
    max_frame_period = std::max(max_frame_period, 1 / s.rate);
    max_track_duration = max_frame_period * (max_track + 1);
    min_aug_period = std::min(min_aug_period, 1 / s.rate);
    if (primary == 0) {primary = id;}
    if (s.GetIsExtrinsic()) {
      Block b = MakeBlock(CAM, id);
      AddVec(b, s.pos_c_in_b); AddRot(b, s.ang_c_to_b);
      b.q = VectorXd::Zero(6);
      b.q.head(3).setConstant(s.pos_stability); b.q.tail(3).setConstant(s.ang_stability);
      Append(b, cov);
    }
  }
  void RegFid(const FidState & s, const MatrixXd & cov)
  {
    if (fids.count(s.id)) {return;}
    fids[s.id] = true;
    if (s.GetIsExtrinsic()) {
      Block b = MakeBlock(FID, s.id);
      AddVec(b, s.pos_f_in_l); AddRot(b, s.ang_f_to_l);
      b.q = VectorXd::Zero(6);
      b.q.head(3).setConstant(s.pos_stability); b.q.tail(3).setConstant(s.ang_stability);
      Append(b, cov);
    }
  }
  std::vector<size_t> Augs(unsigned key) const
  {
    std::vector<size_t> r;
    for (size_t i = 0; i < blocks.size(); ++i) {
      if (blocks[i].kind == AUG && blocks[i].id == key) {r.push_back(i);}
    }
    return r;
  }
  // clone of the current body pose: state and all correlations
  void Clone(unsigned key, unsigned frame)
  {
    Block b = MakeBlock(AUG, key);
    AddVec(b, body().add[0]); AddRot(b, body().rot[3]);
    b.q = VectorXd::Zero(6);
    b.frame = frame; b.time = time; b.serial = ++serial;
    unsigned n = Size();
    MatrixXd J = MatrixXd::Zero(n + 6, n);
    J.topLeftCorner(n, n).setIdentity();
    for (unsigned k = 0; k < 3; ++k) {J(n + k, k) = 1; J(n + 3 + k, 9 + k) = 1;}
    blocks.push_back(b);
    P = (J * P * J.transpose()).eval();
  }
  void Frame(unsigned cam, unsigned frame)
  {
    frame_since_aug = true;
    if (type == AugmentationType::ALL ||
      (type == AugmentationType::PRIMARY && cam == primary))
    {
      Clone(cam, frame);
      auto a = Augs(cam);
      if (a.size() > max_track) {Erase(a[0]);}
    }
  }
  void TimedAug()
  {
    if (type != AugmentationType::TIME && type != AugmentationType::ERROR) {return;}
    auto a = Augs(0);
    bool need = false;
    if (a.empty()) {
      need = true;
    } else if (type == AugmentationType::TIME) {
      need = std::abs(time - prev_aug_time) > aug_dt;
    } else {
      const Block & last = blocks[a.back()];
      double dt = time - last.time;
      if (dt > max_track_duration) {
        need = true;
      } else if (dt > min_aug_period) {
        Vector3d dp = body().add[0] - dt * body().add[1] - last.add[0];
        Quaterniond dq = Exp(body().add[4] * dt).conjugate() * body().rot[3] * last.rot[1].conjugate();
        need = dp.norm() > aug_pos || AngDist(dq, Quaterniond::Identity()) > aug_ang;
      }
    }
    for (int i = static_cast<int>(a.size()) - 2; i >= 0; --i) {
      if (time - blocks[a[static_cast<size_t>(i) + 1]].time > max_track_duration) {
        // the older neighbour can no longer bracket a tracked frame
        for (int k = i; k >= 0; --k) {Erase(a[static_cast<size_t>(k)]);}
        break;
      }
    }
    if (need && frame_since_aug) {
      prev_aug_time = time;
      Clone(0, 0);
      frame_since_aug = false;
    }
  }
  void Predict(double t)
  {
    if (t < time) {return;}
    if (gravity) {
      double dt = t - time;
      Block & b = body();
      Vector3d acc = zero_acc ? Vector3d(0, 0, 0) : Vector3d(b.add[2] - Vector3d(0, 0, 9.80665));
      b.add[1] += dt * acc;
      b.add[0] += dt * b.add[1];
      b.rot[3] = Exp(b.add[4] * dt) * b.rot[3];
      MatrixXd F = MatrixXd::Identity(Size(), Size());
      for (unsigned k = 0; k < 3; ++k) {F(k, 3 + k) = dt;}
      MatrixXd Q = MatrixXd::Zero(Size(), Size());
      for (size_t i = 0; i < blocks.size(); ++i) {
        unsigned o = Offset(i);
        for (unsigned k = 0; k < blocks[i].size; ++k) {Q(o + k, o + k) = blocks[i].q[k] * dt;}
      }
      P = (F * (P + Q) * F.transpose()).eval();
    }
    time = t;
    TimedAug();
  }
  void Inject(const VectorXd & dx)
  {
    for (size_t i = 0; i < blocks.size(); ++i) {
      unsigned o = Offset(i);
      for (size_t t = 0; t < blocks[i].is_rot.size(); ++t) {
        Vector3d d = dx.segment<3>(o + 3 * static_cast<unsigned>(t));
        if (blocks[i].is_rot[t]) {blocks[i].rot[t] = blocks[i].rot[t] * Exp(d);}
        else {blocks[i].add[t] += d;}
      }
    }
  }
  // H over the model's own ordering
  void Update(const MatrixXd & H, const VectorXd & r, const MatrixXd & R)
  {
    MatrixXd S = H * P * H.transpose() + R;
    MatrixXd K = (S.ldlt().solve(H * P)).transpose();
    Inject(K * r);
    MatrixXd N = P - K * S * K.transpose();
    P = 0.5 * (N + N.transpose());
  }
  uint64_t HashState(bool with_cov = true) const
  {
    mc::Hash h;
    for (auto & b : blocks) {
      h.u(b.kind).u(b.id).u(b.frame).d(b.time);
      for (size_t t = 0; t < b.add.size(); ++t) {
        if (b.is_rot[t]) {h.m(b.rot[t].coeffs());} else {h.m(b.add[t]);}
      }
    }
    h.d(time).u(gravity).u(zero_acc).u(frame_since_aug).u(primary);
    for (auto & m : {imus, gpss, cams, fids}) {
      for (auto & x : m) {h.u(x.first);} h.u(999);
    }
    if (with_cov) {h.d(P.sum()).d(P.trace());}
    return h.h;
  }
};

// ---------------------------------------------------------------------------
// binding to the implementation

// index of block i of the model in the implementation's state vector; -1 if absent
inline int ImplIndex(const RefEkf & m, size_t i, EKF & e)
{
  const Block & b = m.blocks[i];
  switch (b.kind) {
    case BODY: return static_cast<int>(e.m_state.body_state.index);
    case IMU_EXT: return e.m_state.imu_states.count(b.id) ?
             static_cast<int>(e.m_state.imu_states.at(b.id).index_extrinsic) : -1;
    case IMU_INT: return e.m_state.imu_states.count(b.id) ?
             static_cast<int>(e.m_state.imu_states.at(b.id).index_intrinsic) : -1;
    case GPSB: return e.m_state.gps_states.count(b.id) ?
             static_cast<int>(e.m_state.gps_states.at(b.id).index) : -1;
    case CAM: return e.m_state.cam_states.count(b.id) ?
             static_cast<int>(e.m_state.cam_states.at(b.id).index) : -1;
    case FID: return e.m_state.fid_states.count(b.id) ?
             static_cast<int>(e.m_state.fid_states.at(b.id).index) : -1;
    case AUG: {
        auto it = e.m_state.aug_states.find(b.id);
        if (it == e.m_state.aug_states.end()) {return -1;}
        unsigned pos = 0;
        for (size_t k = 0; k < i; ++k) {
          if (m.blocks[k].kind == AUG && m.blocks[k].id == b.id) {++pos;}
        }
        if (pos >= it->second.size()) {return -1;}
        return static_cast<int>(it->second[pos].index);
      }
  }
  return -1;
}

inline MatrixXd FullCov(EKF & e)
{
  if (e.GetUseRootCovariance()) {return e.m_cov.transpose() * e.m_cov;}
  return e.m_cov;
}

// map: model scalar -> implementation scalar
inline bool ScalarMap(const RefEkf & m, EKF & e, std::vector<int> & map, std::string & why)
{
  map.clear();
  std::vector<int> used(static_cast<size_t>(e.GetStateSize()), 0);
  for (size_t i = 0; i < m.blocks.size(); ++i) {
    int idx = ImplIndex(m, i, e);
    if (idx < 0) {why = "a block of the model is missing from the implementation state"; return false;}
    for (unsigned k = 0; k < m.blocks[i].size; ++k) {
      int s = idx + static_cast<int>(k);
      if (s >= static_cast<int>(used.size())) {why = "index beyond the state vector"; return false;}
      if (used[static_cast<size_t>(s)]++) {why = "two quantities share a state index"; return false;}
      map.push_back(s);
    }
  }
  if (map.size() != used.size()) {why = "state vector contains entries that belong to nothing"; return false;}
  return true;
}

inline bool CompareCov(mc::Ctx & c, const RefEkf & m, EKF & e, double tol, const std::string & tag)
{
  std::vector<int> map; std::string why;
  if (!ScalarMap(m, e, map, why)) {c.Fail(tag + ": " + why); return false;}
  MatrixXd F = FullCov(e);
  if (F.rows() != F.cols() || F.rows() != static_cast<long>(map.size())) {
    std::ostringstream o;
    o << tag << ": covariance is " << F.rows() << "x" << F.cols() << ", state has " << map.size();
    c.Fail(o.str());
    return false;
  }
  double scale = 1e-12 + m.P.cwiseAbs().maxCoeff();
  for (size_t a = 0; a < map.size(); ++a) {
    for (size_t b = 0; b < map.size(); ++b) {
      double got = F(map[a], map[b]), want = m.P(static_cast<long>(a), static_cast<long>(b));
      if (!(std::abs(got - want) <= tol * (scale + std::abs(want)))) {
        std::ostringstream o; o.precision(10);
        o << tag << ": covariance entry (" << a << "," << b << ") [impl " << map[a] << "," << map[b] <<
          "] is " << got << ", reference " << want;
        c.Fail(o.str());
        return false;
      }
    }
  }
  return true;
}

inline bool CompareState(mc::Ctx & c, const RefEkf & m, EKF & e, double tol, const std::string & tag)
{
  auto vec = [&](const Vector3d & g, const Vector3d & w, const char * n) {
      return c.NearM(g, w, tol, tag + ": " + n);
    };
  auto rot = [&](const Quaterniond & g, const Quaterniond & w, const char * n) {
      if (!(std::abs(g.norm() - 1) < 1e-6)) {c.Fail(tag + ": " + n + " is not a unit quaternion"); return false;}
      if (!(AngDist(g, w) <= 10 * tol + 1e-7)) {
        std::ostringstream o;
        o << tag << ": " << n << " rotated by " << AngDist(g, w) << " from reference";
        c.Fail(o.str());
        return false;
      }
      return true;
    };
  bool ok = true;
  for (size_t i = 0; i < m.blocks.size() && ok; ++i) {
    const Block & b = m.blocks[i];
    State & s = e.m_state;
    if (ImplIndex(m, i, e) < 0) {c.Fail(tag + ": missing block"); return false;}
    switch (b.kind) {
      case BODY:
        ok = vec(s.body_state.pos_b_in_l, b.add[0], "body position") &&
          vec(s.body_state.vel_b_in_l, b.add[1], "body velocity") &&
          vec(s.body_state.acc_b_in_l, b.add[2], "body acceleration") &&
          rot(s.body_state.ang_b_to_l, b.rot[3], "body orientation") &&
          vec(s.body_state.ang_vel_b_in_l, b.add[4], "body angular rate") &&
          vec(s.body_state.ang_acc_b_in_l, b.add[5], "body angular acceleration");
        break;
      case IMU_EXT:
        ok = vec(s.imu_states.at(b.id).pos_i_in_b, b.add[0], "IMU position") &&
          rot(s.imu_states.at(b.id).ang_i_to_b, b.rot[1], "IMU orientation");
        break;
      case IMU_INT:
        ok = vec(s.imu_states.at(b.id).acc_bias, b.add[0], "IMU acc bias") &&
          vec(s.imu_states.at(b.id).omg_bias, b.add[1], "IMU gyro bias");
        break;
      case GPSB: ok = vec(s.gps_states.at(b.id).pos_a_in_b, b.add[0], "GPS antenna"); break;
      case CAM:
        ok = vec(s.cam_states.at(b.id).pos_c_in_b, b.add[0], "camera position") &&
          rot(s.cam_states.at(b.id).ang_c_to_b, b.rot[1], "camera orientation");
        break;
      case FID:
        ok = vec(s.fid_states.at(b.id).pos_f_in_l, b.add[0], "fiducial position") &&
          rot(s.fid_states.at(b.id).ang_f_to_l, b.rot[1], "fiducial orientation");
        break;
      case AUG: {
          unsigned pos = 0;
          for (size_t k = 0; k < i; ++k) {
            if (m.blocks[k].kind == AUG && m.blocks[k].id == b.id) {++pos;}
          }
          const AugState & a = s.aug_states.at(b.id)[pos];
          ok = vec(a.pos_b_in_l, b.add[0], "clone position") && rot(a.ang_b_to_l, b.rot[1], "clone orientation");
          if (ok && a.frame_id != b.frame) {c.Fail(tag + ": clone frame id"); ok = false;}
          if (ok && std::abs(a.time - b.time) > 1e-9) {c.Fail(tag + ": clone time"); ok = false;}
        }
        break;
    }
  }
  if (ok && std::abs(e.GetCurrentTime() - m.time) > 1e-9) {c.Fail(tag + ": filter time"); ok = false;}
  return ok;
}

// number of implementation clones per key must equal the model's
inline bool CompareAugCounts(mc::Ctx & c, const RefEkf & m, EKF & e, const std::string & tag)
{
  for (auto & kv : e.m_state.aug_states) {
    if (kv.second.size() != m.Augs(kv.first).size()) {
      std::ostringstream o;
      o << tag << ": " << kv.second.size() << " clones for key " << kv.first << ", reference " <<
        m.Augs(kv.first).size();
      c.Fail(o.str());
      return false;
    }
  }
  for (auto & b : m.blocks) {
    if (b.kind == AUG && !e.m_state.aug_states.count(b.id)) {c.Fail(tag + ": missing clone"); return false;}
  }
  return true;
}

// expected layout: sections in order body, IMU, GPS, camera, fiducial, augmented;
// by ascending id within a section, augmented states oldest first
inline bool CompareLayout(mc::Ctx & c, const RefEkf & m, EKF & e, const std::string & tag)
{
  if (!CompareAugCounts(c, m, e, tag)) {return false;}
  std::string why; std::vector<int> map;
  if (!ScalarMap(m, e, map, why)) {c.Fail(tag + ": " + why); return false;}
  unsigned idx = 18;
  auto fail = [&](const std::string & w) {c.Fail(tag + ": " + w); return false;};
  if (e.m_state.body_state.index != 0) {return fail("body index");}
  if (e.GetImuStateStart() != idx) {return fail("IMU section start");}
  unsigned imu0 = idx;
  if (e.m_state.imu_states.size() != m.imus.size() || e.GetImuCount() != m.imus.size()) {return fail("IMU count");}
  auto has = [&](Kind k, unsigned id) {
      for (auto & b : m.blocks) {if (b.kind == k && b.id == id) {return true;}}
      return false;
    };
  for (auto & x : m.imus) {
    if (!e.m_state.imu_states.count(x.first)) {return fail("IMU missing");}
    const ImuState & s = e.m_state.imu_states.at(x.first);
    if (s.GetIsExtrinsic() != has(IMU_EXT, x.first) || s.GetIsIntrinsic() != has(IMU_INT, x.first)) {
      return fail("IMU calibration flags");
    }
    if (s.size != (s.GetIsExtrinsic() ? 6u : 0u) + (s.GetIsIntrinsic() ? 6u : 0u)) {return fail("IMU size");}
    if (s.size && s.index != idx) {return fail("IMU index");}
    if (s.GetIsExtrinsic()) {if (s.index_extrinsic != idx) {return fail("IMU extrinsic index");} idx += 6;}
    if (s.GetIsIntrinsic()) {if (s.index_intrinsic != idx) {return fail("IMU intrinsic index");} idx += 6;}
  }
  if (e.GetImuStateSize() != idx - imu0) {return fail("IMU section size");}
  if (e.GetGpsStateStart() != idx) {return fail("GPS section start");}
  unsigned g0 = idx;
  if (e.m_state.gps_states.size() != m.gpss.size() || e.GetGpsCount() != m.gpss.size()) {return fail("GPS count");}
  for (auto & x : m.gpss) {
    if (!e.m_state.gps_states.count(x.first)) {return fail("GPS missing");}
    const GpsState & s = e.m_state.gps_states.at(x.first);
    if (s.GetIsExtrinsic() != has(GPSB, x.first)) {return fail("GPS flag");}
    if (s.GetIsExtrinsic()) {if (s.index != idx) {return fail("GPS index");} idx += 3;}
  }
  if (e.GetGpsStateSize() != idx - g0) {return fail("GPS section size");}
  if (e.GetCamStateStart() != idx) {return fail("camera section start");}
  unsigned c0 = idx;
  if (e.m_state.cam_states.size() != m.cams.size() || e.GetCamCount() != m.cams.size()) {return fail("camera count");}
  for (auto & x : m.cams) {
    if (!e.m_state.cam_states.count(x.first)) {return fail("camera missing");}
    const CamState & s = e.m_state.cam_states.at(x.first);
    if (s.GetIsExtrinsic() != has(CAM, x.first)) {return fail("camera flag");}
    if (s.GetIsExtrinsic()) {if (s.index != idx) {return fail("camera index");} idx += 6;}
  }
  if (e.GetCamStateSize() != idx - c0) {return fail("camera section size");}
  if (e.GetFidStateStart() != idx) {return fail("fiducial section start");}
  if (e.m_state.fid_states.size() != m.fids.size()) {return fail("fiducial count");}
  for (auto & x : m.fids) {
    if (!e.m_state.fid_states.count(x.first)) {return fail("fiducial missing");}
    const FidState & s = e.m_state.fid_states.at(x.first);
    if (s.GetIsExtrinsic() != has(FID, x.first)) {return fail("fiducial flag");}
    if (s.GetIsExtrinsic()) {if (s.index != idx) {return fail("fiducial index");} idx += 6;}
  }
  if (e.GetAugStateStart() != idx) {return fail("augmented section start");}
  unsigned a0 = idx;
  for (auto & kv : e.m_state.aug_states) {
    for (auto & a : kv.second) {if (a.index != idx) {return fail("augmented index");} idx += 6;}
  }
  if (e.GetAugStateSize() != idx - a0) {return fail("augmented section size");}
  if (e.GetStateSize() != idx) {return fail("state size");}
  if (e.m_cov.rows() != static_cast<long>(idx) || e.m_cov.cols() != static_cast<long>(idx)) {
    return fail("covariance dimension differs from the state size");
  }
  if (e.m_state.GetStateSize() != idx) {return fail("State::GetStateSize differs from the filter's state size");}
  if (e.m_state.ToVector().size() != static_cast<long>(idx)) {return fail("State::ToVector length");}
  return true;
}

// ---------------------------------------------------------------------------
// operation alphabet shared by the sequence-exploring harnesses

struct Op {std::string name; char k; unsigned id{0}; int flag{0}; double x{0};};

inline std::string SeqName(const std::vector<Op> & s)
{
  std::string r;
  for (auto & o : s) {r += (r.empty() ? "" : " ") + o.name;}
  return r;
}

// deterministic, distinct, positive definite prior for a sensor
inline MatrixXd Prior(unsigned n, unsigned salt, bool diagonal)
{
  MatrixXd A(n, n);
  for (unsigned i = 0; i < n; ++i) {
    for (unsigned j = 0; j < n; ++j) {
      A(i, j) = 0.05 * std::sin(1.0 + 3.1 * i + 1.7 * j + 0.9 * salt);
    }
  }
  MatrixXd D = MatrixXd::Zero(n, n);
  for (unsigned i = 0; i < n; ++i) {D(i, i) = 0.02 + 0.006 * ((i * 5 + 2) % 7) + 0.011 * salt;}
  if (diagonal) {return D;}
  return A * A.transpose() + D;
}

inline double W(unsigned a, unsigned b) {return std::sin(0.7 + 1.3 * a + 2.9 * b);}

struct Machine
{
  std::shared_ptr<EKF> impl;
  RefEkf model;
  unsigned frame{100}, frame_step{1};
  unsigned step{0};
  bool diag_prior;

  explicit Machine(const EKF::Parameters & p, bool diag = false, bool correlated_body = true)
  : impl(std::make_shared<EKF>(p)), model(p), diag_prior(diag)
  {
    if (correlated_body) {
      MatrixXd P0 = Prior(18, 1, false) * 0.5;
      model.P = P0;
      if (p.use_root_covariance) {
        impl->m_cov = P0.llt().matrixU();
      } else {
        impl->m_cov = P0;
      }
    }
    BodyState b;
    b.pos_b_in_l = Vector3d(0.3, -0.2, 0.5);
    b.vel_b_in_l = Vector3d(0.7, 0.4, -0.6);
    b.ang_b_to_l = Exp(Vector3d(0.2, -0.4, 0.3));
    b.ang_vel_b_in_l = Vector3d(0.3, 0.5, -0.4);
    b.acc_b_in_l = Vector3d(0.4, -0.3, 10.1);
    b.ang_acc_b_in_l = Vector3d(0.05, 0.02, -0.03);
    impl->Initialize(0.0, b);
    model.time = 0; model.time_init = true;
    Block & m = model.body();
    m.add[0] = b.pos_b_in_l; m.add[1] = b.vel_b_in_l; m.add[2] = b.acc_b_in_l;
    m.rot[3] = b.ang_b_to_l; m.add[4] = b.ang_vel_b_in_l; m.add[5] = b.ang_acc_b_in_l;
  }

  static ImuState ImuOf(unsigned id, int flag)
  {
    ImuState s;
    s.SetIsExtrinsic(flag & 1); s.SetIsIntrinsic(flag & 2);
    s.pos_i_in_b = Vector3d(0.1 * id, -0.05 * id, 0.02);
    s.ang_i_to_b = Exp(Vector3d(0.1 * id, 0.2, -0.1));
    s.acc_bias = Vector3d(0.01, 0.02 * id, 0.03); s.omg_bias = Vector3d(-0.01, 0.005, 0.001 * id);
    s.pos_stability = 1e-3 * id; s.ang_stability = 2e-3 * id;
    s.acc_bias_stability = 3e-3 * id; s.omg_bias_stability = 4e-3 * id;
    return s;
  }
  static GpsState GpsOf(unsigned id, bool ext)
  {
    GpsState s; s.SetIsExtrinsic(ext); s.pos_a_in_b = Vector3d(0.2, 0.1 * id, -0.1); s.pos_stability = 5e-3 * id;
    return s;
  }
  static CamState CamOf(unsigned id, bool ext, double rate)
  {
    CamState s; s.SetIsExtrinsic(ext); s.rate = rate;
    s.pos_c_in_b = Vector3d(0.05 * id, 0.2, -0.1); s.ang_c_to_b = Exp(Vector3d(-0.2, 0.1 * id, 0.3));
    s.pos_stability = 6e-3 * id; s.ang_stability = 7e-3 * id;
    return s;
  }
  static FidState FidOf(unsigned id, bool ext)
  {
    FidState s; s.SetIsExtrinsic(ext); s.id = id;
    s.pos_f_in_l = Vector3d(3, 0.4 * id, 1); s.ang_f_to_l = Exp(Vector3d(0.3, -0.1 * id, 0.2));
    s.pos_stability = 8e-3 * id; s.ang_stability = 9e-3 * id;
    return s;
  }

  // Random-looking but deterministic measurement over every state (or one block)
  void MakeMeas(unsigned rows, unsigned salt, int only_block, MatrixXd & H, VectorXd & r, MatrixXd & R) const
  {
    unsigned n = model.Size();
    H = MatrixXd::Zero(rows, n);
    unsigned o0 = 0, o1 = n;
    if (only_block >= 0) {
      o0 = model.Offset(static_cast<size_t>(only_block));
      o1 = o0 + model.blocks[static_cast<size_t>(only_block)].size;
    }
    for (unsigned i = 0; i < rows; ++i) {for (unsigned j = o0; j < o1; ++j) {H(i, j) = W(i + 5 * salt, j);}}
    r = VectorXd(rows);
    R = MatrixXd::Zero(rows, rows);
    for (unsigned i = 0; i < rows; ++i) {r[i] = 0.2 * W(i, salt + 3); R(i, i) = 0.05 + 0.01 * i;}
  }

  // apply to both; false when the implementation's layout is too broken to continue
  bool Apply(const Op & o)
  {
    ++step;
    switch (o.k) {
      case 'I': {
          ImuState s = ImuOf(o.id, o.flag);
          MatrixXd c = Prior(12, o.id, diag_prior).topLeftCorner(s.size, s.size);
          impl->RegisterIMU(o.id, s, c); model.RegImu(o.id, s, c);
        }
        break;
      case 'G': {
          GpsState s = GpsOf(o.id, o.flag);
          MatrixXd c = Prior(3, o.id + 20, diag_prior);
          impl->RegisterGPS(o.id, s, c); model.RegGps(o.id, s, c);
        }
        break;
      case 'C': {
          CamState s = CamOf(o.id, o.flag, o.x == 0 ? 2.0 : o.x);
          MatrixXd c = Prior(6, o.id + 40, diag_prior);
          impl->RegisterCamera(o.id, s, c); model.RegCam(o.id, s, c);
        }
        break;
      case 'B': {
          FidState s = FidOf(o.id, o.flag);
          MatrixXd c = Prior(6, o.id + 60, diag_prior);
          impl->RegisterFiducial(s, c); model.RegFid(s, c);
        }
        break;
      case 'F': frame += frame_step; impl->AugmentStateIfNeeded(o.id, frame); model.Frame(o.id, frame); break;
      case 'P': impl->PredictModel(impl->GetCurrentTime() + o.x); model.Predict(model.time + o.x); break;
      case 'Z': impl->SetZeroAcceleration(o.flag); model.zero_acc = o.flag; break;
      case 'Y': impl->InitializeGravity(); model.gravity = true; break;
      case 'U': {
          MatrixXd H, R; VectorXd r;
          MakeMeas(static_cast<unsigned>(o.flag), o.id, -1, H, r, R);
          std::vector<int> map; std::string why;
          if (!ScalarMap(model, *impl, map, why)) {return false;}
          if (impl->m_cov.rows() != static_cast<long>(map.size())) {return false;}
          MatrixXd Hi = MatrixXd::Zero(H.rows(), H.cols());
          for (size_t j = 0; j < map.size(); ++j) {Hi.col(map[j]) = H.col(static_cast<long>(j));}
          Updater::KalmanUpdate(*impl, Hi, r, R);
          model.Update(H, r, R);
        }
        break;
      case 'N': {
          VectorXd q(18);
          for (unsigned i = 0; i < 18; ++i) {q[i] = 0.003 * (1 + o.id) + 0.001 * ((i * (o.id + 3)) % 7);}
          impl->SetBodyProcessNoise(q); model.body().q = q;
        }
        break;
      case 'M': impl->SetMaxTrackLength(o.id); model.max_track = o.id; break;
    }
    return true;
  }
};

inline EKF::Parameters BaseParams(bool root = false, AugmentationType t = AugmentationType::ALL)
{
  EKF::Parameters p;
  p.debug_logger = std::make_shared<DebugLogger>(LogLevel::FATAL, "");
  p.augmenting_type = t;
  p.use_root_covariance = root;
  VectorXd q(18);
  for (unsigned i = 0; i < 18; ++i) {q[i] = 0.01 + 0.002 * i;}
  p.process_noise = q;
  return p;
}

// enumerate all words of length exactly n over an alphabet of size a
inline std::vector<unsigned> Word(uint64_t code, unsigned a, unsigned n)
{
  std::vector<unsigned> w(n);
  for (unsigned i = 0; i < n; ++i) {w[i] = static_cast<unsigned>(code % a); code /= a;}
  return w;
}
inline uint64_t Pow(uint64_t a, unsigned n) {uint64_t r = 1; while (n--) {r *= a;} return r;}

}  // namespace ref

#endif
