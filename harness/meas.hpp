// Reference measurement updates: textbook EKF corrections whose Jacobians are
// central differences of independently written measurement models.
#ifndef MEAS_HPP_
#define MEAS_HPP_
#include "world.hpp"
#include "geo.hpp"

namespace meas
{
using namespace world;
using Eigen::Vector2d;

// values a sensor's parameters are linearised at (first-estimate Jacobians)
struct Frozen
{
  std::map<unsigned, Vector3d> gps;
  std::map<unsigned, CamState> cam;                                      // per camera (feature updater)
  std::map<std::pair<unsigned, unsigned>, std::pair<CamState, FidState>> fid;  // per fiducial updater
};

// d h(State) / d correction, along State::operator+=
template<class F> MatrixXd Diff(const State & s, unsigned n, F h)
{
  MatrixXd J;
  const double d = 3e-4;
  auto at = [&](unsigned j, double e) {
      VectorXd v = VectorXd::Zero(n); v[j] = e;
      State a = s; a += v;
      return VectorXd(h(a));
    };
  for (unsigned j = 0; j < n; ++j) {
    VectorXd x = (8 * (at(j, d) - at(j, -d)) - (at(j, 2 * d) - at(j, -2 * d))) / (12 * d);   // fourth order
    if (j == 0) {J = MatrixXd::Zero(x.size(), n);}
    J.col(j) = x;
  }
  return J;
}

// textbook update of a filter's public belief
inline void Correct(EKF & e, const MatrixXd & H, const VectorXd & r, const MatrixXd & Rn)
{
  MatrixXd P = FullCov(e);
  MatrixXd S = H * P * H.transpose() + Rn;
  MatrixXd K = S.ldlt().solve(H * P).transpose();
  VectorXd dx = K * r;
  MatrixXd I = MatrixXd::Identity(P.rows(), P.cols());
  MatrixXd N = (I - K * H) * P * (I - K * H).transpose() + K * Rn * K.transpose();
  N = (0.5 * (N + N.transpose())).eval();
  e.m_state += dx;
  if (e.GetUseRootCovariance()) {
    Eigen::SelfAdjointEigenSolver<MatrixXd> es(N);
    MatrixXd M = es.eigenvalues().cwiseMax(0).cwiseSqrt().asDiagonal() * es.eigenvectors().transpose();
    Eigen::HouseholderQR<MatrixXd> qr(M);
    e.m_cov = MatrixXd(qr.matrixQR().triangularView<Eigen::Upper>());
  } else {
    e.m_cov = N;
  }
}

inline Vector3d GpsModel(const State & s, unsigned id)
{
  return s.body_state.pos_b_in_l + s.body_state.ang_b_to_l * s.gps_states.at(id).pos_a_in_b;
}
inline void Gps(EKF & e, unsigned id, const Vector3d & lla, const MatrixXd & Rn, Frozen * fz)
{
  Vector3d ref = e.GetReferenceLLA();
  Vector3d z = geo::ToLocal(geo::Enu(lla, ref), e.GetReferenceAngle());
  State lin = e.m_state;
  if (fz) {
    fz->gps.insert({id, lin.gps_states[id].pos_a_in_b});
    lin.gps_states[id].pos_a_in_b = fz->gps[id];
  }
  MatrixXd H = Diff(lin, e.GetStateSize(), [&](State & s) {return VectorXd(GpsModel(s, id));});
  Correct(e, H, z - GpsModel(e.m_state, id), Rn);
}

inline VectorXd ImuModel(const State & s, unsigned id)
{
  const auto & b = s.body_state; const ImuState & i = s.imu_states.at(id);
  Vector3d lever = b.ang_b_to_l * i.pos_i_in_b;            // in the local frame
  Vector3d acc = b.acc_b_in_l + b.ang_acc_b_in_l.cross(lever) + b.ang_vel_b_in_l.cross(b.ang_vel_b_in_l.cross(lever));
  Quaterniond q = (b.ang_b_to_l * i.ang_i_to_b).conjugate();
  VectorXd h(6);
  h << q * acc + i.acc_bias, q * b.ang_vel_b_in_l + i.omg_bias;
  return h;
}
inline void Imu(EKF & e, unsigned id, const VectorXd & z, const MatrixXd & Rn)
{
  MatrixXd H = Diff(e.m_state, e.GetStateSize(), [&](State & s) {return ImuModel(s, id);});
  H.middleCols<3>(9).setZero();   // the readings correct the body motion, not the attitude
  Correct(e, H, z - ImuModel(e.m_state, id), Rn);
}

inline void FidModel(const State & s, unsigned f, unsigned c, Vector3d & p, Quaterniond & q)
{
  const auto & b = s.body_state; const CamState & k = s.cam_states.at(c); const FidState & m = s.fid_states.at(f);
  Quaterniond qc = (b.ang_b_to_l * k.ang_c_to_b).conjugate();
  p = qc * (m.pos_f_in_l - b.pos_b_in_l - b.ang_b_to_l * k.pos_c_in_b);
  q = qc * m.ang_f_to_l;
}
inline void Fid(EKF & e, unsigned f, unsigned c, const BoardDetection & z, Frozen * fz)
{
  State lin = e.m_state;
  if (fz) {
    fz->fid.insert({{f, c}, {lin.cam_states[c], lin.fid_states[f]}});
    auto & v = fz->fid[{f, c}];
    lin.cam_states[c].pos_c_in_b = v.first.pos_c_in_b; lin.cam_states[c].ang_c_to_b = v.first.ang_c_to_b;
    lin.fid_states[f].pos_f_in_l = v.second.pos_f_in_l; lin.fid_states[f].ang_f_to_l = v.second.ang_f_to_l;
  }
  Vector3d p0; Quaterniond q0; FidModel(lin, f, c, p0, q0);
  MatrixXd H = Diff(lin, e.GetStateSize(), [&](State & s) {
        Vector3d p; Quaterniond q; FidModel(s, f, c, p, q);
        VectorXd h(6); h << p, Log(q * q0.conjugate()); return h;
      });
  Vector3d p; Quaterniond q; FidModel(e.m_state, f, c, p, q);
  VectorXd r(6); r << z.pos_f_in_c - p, Log(z.ang_f_to_c * q.conjugate());
  MatrixXd Rn = MatrixXd::Zero(6, 6);
  Rn.diagonal() << z.pos_error, z.ang_error;
  Correct(e, H, r, Rn);
}

struct Pose {Vector3d p; Quaterniond q;};
inline Vector2d Pix(const Pose & b, const Vector3d & pc, const Quaterniond & qc, const Vector3d & f)
{
  Vector3d x = qc.conjugate() * (b.q.conjugate() * (f - b.p) - pc);
  return Vector2d(x(0) / x(2), x(1) / x(2));
}
inline Vector2d Bearing(const CamState & c, const cv::KeyPoint & k)
{
  const auto & i = c.intrinsics;
  return Vector2d((k.pt.x - i.width / 2) / (i.f_x / i.pixel_size), (k.pt.y - i.height / 2) / (i.f_y / i.pixel_size));
}
// linear least-squares intersection of the bearing rays; false if out of the accepted depth range
inline bool Triangulate(EKF & e, unsigned cam, const FeatureTrack & t, double lo, double hi, Vector3d & f, double * depth = nullptr)
{
  const CamState & c = e.m_state.cam_states[cam];
  Matrix3d A = Matrix3d::Zero(); Vector3d b = Vector3d::Zero();
  Pose first;
  for (size_t i = 0; i < t.track.size(); ++i) {
    AugState a = e.GetAugState(cam, t.track[i].frame_id, t.track[i].frame_time);
    if (i == 0) {first = Pose{a.pos_b_in_l, a.ang_b_to_l};}
    Vector3d o = a.pos_b_in_l + a.ang_b_to_l * c.pos_c_in_b;
    Vector3d d; d << Bearing(c, t.track[i].key_point), 1;
    d = (a.ang_b_to_l * c.ang_c_to_b * d).normalized();
    Matrix3d M = Matrix3d::Identity() - d * d.transpose();
    A += M; b += M * o;
  }
  f = A.colPivHouseholderQr().solve(b);
  double z = (c.ang_c_to_b.conjugate() * (first.q.conjugate() * (f - first.p) - c.pos_c_in_b))(2);
  if (depth) {*depth = z;}
  return z >= lo && z <= hi;
}
// returns the number of tracks used, -1 if the decision is too close to call
inline int Features(EKF & e, unsigned cam, const FeatureTracks & tracks, double px, double lo, double hi, Frozen * fz)
{
  unsigned n = e.GetStateSize();
  CamState now = e.m_state.cam_states[cam], lin = now;
  bool any = false;
  for (auto & kv : e.m_state.aug_states) {any = any || !kv.second.empty();}
  if (tracks.empty() || !any) {return 0;}
  if (fz) {
    fz->cam.insert({cam, now});
    lin = fz->cam[cam];
  }
  MatrixXd H(0, n); VectorXd r(0);
  int used = 0;
  for (auto & t : tracks) {
    Vector3d f; double z;
    bool ok = Triangulate(e, cam, t, lo, hi, f, &z);
    if (t.true_feature_position.allFinite()) {
      f = t.true_feature_position; ok = true;
    } else if (std::abs(z - lo) < 1e-4 || std::abs(z - hi) < 1e-2) {
      return -1;
    }
    if (!ok) {continue;}
    ++used;
    size_t m = t.track.size();
    MatrixXd Hx = MatrixXd::Zero(2 * m, n), Hf(2 * m, 3); VectorXd rf(2 * m);
    for (size_t i = 0; i < m; ++i) {
      AugState a = e.GetAugState(cam, t.track[i].frame_id, t.track[i].frame_time);
      Pose b{a.pos_b_in_l, a.ang_b_to_l};
      rf.segment<2>(2 * i) = Bearing(now, t.track[i].key_point) - Pix(b, now.pos_c_in_b, now.ang_c_to_b, f);
      // too close to the image plane for finite differences
      if (std::abs((lin.ang_c_to_b.conjugate() * (b.q.conjugate() * (f - b.p) - lin.pos_c_in_b))(2)) < 0.3) {return -1;}
      const double d = 3e-4;
      Eigen::Matrix<double, 2, 6> Jb, Jc; Eigen::Matrix<double, 2, 3> Jf;
      const Vector3d & pc = lin.pos_c_in_b; const Quaterniond & qc = lin.ang_c_to_b;
      auto diff = [&](auto g) {return Vector2d((8 * (g(d) - g(-d)) - (g(2 * d) - g(-2 * d))) / (12 * d));};
      for (int k = 0; k < 3; ++k) {
        Vector3d u = Vector3d::Unit(k);
        Jb.col(k) = diff([&](double x) {return Vector2d(Pix({b.p + x * u, b.q}, pc, qc, f));});
        Jb.col(3 + k) = diff([&](double x) {return Vector2d(Pix({b.p, b.q * Exp(x * u)}, pc, qc, f));});
        Jc.col(k) = diff([&](double x) {return Vector2d(Pix(b, pc + x * u, qc, f));});
        Jc.col(3 + k) = diff([&](double x) {return Vector2d(Pix(b, pc, qc * Exp(x * u), f));});
        Jf.col(k) = diff([&](double x) {return Vector2d(Pix(b, pc, qc, f + x * u));});
      }
      Hf.block<2, 3>(2 * i, 0) = Jf;
      if (now.GetIsExtrinsic()) {Hx.block<2, 6>(2 * i, now.index) = Jc;}
      // the looked-up pose is clone (1 - alpha) + successor alpha
      Hx.block<2, 6>(2 * i, a.index) += (1 - a.alpha) * Jb;
      if (a.alpha != 0.0) {
        int next = -1;
        for (auto & kv : e.m_state.aug_states) {for (size_t q = 0; q + 1 < kv.second.size(); ++q) {if (kv.second[q].index == a.index) {next = static_cast<int>(kv.second[q + 1].index);}}}
        if (next >= 0) {
          Hx.block<2, 6>(2 * i, next) += a.alpha * Jb;
        } else {
          Hx.block<2, 3>(2 * i, 0) += a.alpha * Jb.leftCols<3>();
          Hx.block<2, 3>(2 * i, 9) += a.alpha * Jb.rightCols<3>();
        }
      }
    }
    // marginalise the position of an estimated feature: orthonormal complement of Hf
    MatrixXd N = MatrixXd::Identity(2 * m, 2 * m);
    if (!t.true_feature_position.allFinite()) {
      Eigen::JacobiSVD<MatrixXd> svd(Hf, Eigen::ComputeFullU);
      N = svd.matrixU().rightCols(2 * m - 3).transpose().eval();
    }
    MatrixXd G(H.rows() + N.rows(), n); VectorXd g(r.size() + N.rows());
    G << H, N * Hx; g << r, N * rf;
    H = G; r = g;
  }
  if (used) {
    double v = std::max(px, 0.5); v *= v;
    Correct(e, H, r, MatrixXd(MatrixXd::Identity(r.size(), r.size()) * v));
  }
  return used;
}
}  // namespace meas
#endif
