// C30: rotations, averages and fits.
#include "mc.hpp"
#include "utility/math_helper.hpp"
#include "utility/type_helper.hpp"
#include <opencv2/opencv.hpp>

using Eigen::MatrixXd;
using Eigen::Vector3d;
using Eigen::Matrix3d;
using Eigen::Quaterniond;

static Matrix3d Cross(const Vector3d & a) {Matrix3d m; m << 0, -a(2), a(1), a(2), 0, -a(0), -a(1), a(0), 0; return m;}
// Rodrigues' formula, written with half-angle terms that are exact for small angles
static Matrix3d Rot(const Vector3d & v)
{
  double t = v.norm(), h = t / 2;
  double a = t < 1e-5 ? 1 - t * t / 6 : std::sin(t) / t;
  double b = h < 1e-5 ? 0.5 * (1 - h * h / 3) : 0.5 * std::pow(std::sin(h) / h, 2);
  return Matrix3d::Identity() + a * Cross(v) + b * Cross(v) * Cross(v);
}
static Matrix3d Axis(int k, double a) {return Rot(Vector3d::Unit(k) * a);}

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C30");
  R.rule = "rotations: a grid of axes times angles (zero, tiny, small, large, near and beyond half and full turns), both signs of every "
    "quaternion, grids of Euler angles including gimbal lock, every pair of a rotation and a perturbation; planar fits and extents: every "
    "set of up to five points of a small grid and every rigid motion out of a menu";
  std::vector<Vector3d> axes;
  for (int x = -2; x <= 2; ++x) {for (int y = -2; y <= 2; ++y) {for (int z = -2; z <= 2; ++z) {
        if ((x || y || z) && (R.thorough || (std::abs(x) != 2 || y == 1))) {axes.push_back(Vector3d(x, y, z).normalized());}
      }}}
  std::vector<double> angles = {0, 1e-12, 1e-10, 1e-9, 2e-9, 1e-8, 1e-6, 1e-4, 1e-3, 0.01, 0.1, 0.5, 1, M_PI / 2, 2, 3, 3.1, M_PI - 1e-3, M_PI - 1e-6, M_PI, M_PI + 1e-3, 4, 6, 2 * M_PI - 1e-3, 2 * M_PI, 7};
  R.Bound("axes", axes.size()); R.Bound("angles", angles.size());
  R.Parallel(axes.size(), [&](size_t q, mc::Ctx & c) {
      std::string key = "rotation " + std::to_string(q);
      if (!R.Selected(key)) {return;}
      c.Key(key);
      for (double ang : angles) {
        std::ostringstream t; t << "angle " << ang << ": ";
        Vector3d v = axes[q] * ang;
        Matrix3d want = Rot(v);
        Quaterniond u = RotVecToQuat(v);
        c.Transition(); c.Eval(); c.State(mc::Hash().m(v).h);
        if (!c.Check(std::abs(u.norm() - 1) < 1e-12, t.str() + "not a unit quaternion")) {return;}
        if (!c.Check((u.toRotationMatrix() - want).cwiseAbs().maxCoeff() < 3e-9, t.str() + "quaternion is not the rotation of the vector")) {return;}
        for (int s = 0; s < 2; ++s) {
          Quaterniond w = s ? Quaterniond(-u.w(), -u.x(), -u.y(), -u.z()) : u;
          Vector3d b = QuatToRotVec(w);
          c.Transition();
          if (!c.Check(b.allFinite() && b.norm() <= M_PI + 1e-9, t.str() + "rotation vector is longer than half a turn")) {return;}
          if (!c.Check((Rot(b) - want).cwiseAbs().maxCoeff() < 1e-8, t.str() + "rotation vector is another rotation")) {return;}
          if (ang < M_PI - 1e-4 && !c.Check((b - v).norm() < 2e-9, t.str() + "rotation vector does not come back")) {return;}
          // right Jacobian: Exp(v + e) = Exp(v) Exp(J e)
          Matrix3d J = QuaternionJacobian(w);
          for (int k = 0; k < 3; ++k) {
            const double h = 1e-4; Vector3d e = Vector3d::Unit(k) * h;
            auto at = [&](double x) {
                Quaterniond d(Matrix3d(Rot(b).transpose() * Rot(b + x * e))); Vector3d p = d.vec() * (d.w() < 0 ? -1 : 1);
                double n = p.norm(); return Vector3d(n < 1e-14 ? p : Vector3d(p / n * 2 * std::asin(std::min(1.0, n))));
              };
            Vector3d df = (8 * (at(1) - at(-1)) - (at(2) - at(-2))) / (12 * h);
            c.Transition(); c.Eval();
            if (!c.Check((J.col(k) - df).norm() < 1e-6, t.str() + "Jacobian is not the derivative of the rotation")) {return;}
          }
          cv::Vec3d rod = QuatToRodrigues(w);
          if (!c.Check((Rot(Vector3d(rod[0], rod[1], rod[2])) - want).cwiseAbs().maxCoeff() < 3e-5, t.str() + "Rodrigues vector is another rotation")) {return;}
          Quaterniond back = RodriguesToQuat(rod);
          if (!c.Check(std::abs(back.norm() - 1) < 1e-9 && (back.toRotationMatrix() - want).cwiseAbs().maxCoeff() < 3e-5, t.str() + "Rodrigues vector does not come back")) {return;}
          if (!c.Check(CvVectorToEigen(rod) == Vector3d(rod[0], rod[1], rod[2]), "vector conversion")) {return;}
          cv::Mat m(3, 3, cv::DataType<double>::type); Matrix3d r3; EigenMatrixToCv(want, m); CvMatrixToEigen(m, r3);
          if (!c.Check(r3 == want && m.at<double>(0, 2) == want(0, 2) && m.at<double>(1, 0) == want(1, 0), "matrix conversion")) {return;}
          for (double s2 : {1.0, 0.01, 50.0}) {
            Quaterniond n = StdToEigQuat({w.w() * s2, w.x() * s2, w.y() * s2, w.z() * s2});
            if (!c.Check((n.coeffs() - w.coeffs()).norm() < 1e-12, t.str() + "configured quaternion is not normalised")) {return;}
          }
        }
      }
      c.Trace();
    });
  std::vector<double> eul = {-M_PI, -2, -M_PI / 2, -0.3, 0, 1e-7, 0.7, M_PI / 2, 3, 4};
  R.Parallel(eul.size(), [&](size_t q, mc::Ctx & c) {
      std::string key = "Euler " + std::to_string(q);
      if (!R.Selected(key)) {return;}
      c.Key(key);
      for (double y : eul) {
        for (double z : eul) {
          Quaterniond u = EigVecToQuat(Vector3d(eul[q], y, z));
          c.Transition(); c.Eval(); c.State(mc::Hash().d(eul[q]).d(y).d(z).h);
          if (!c.Check((u.toRotationMatrix() - Axis(2, z) * Axis(1, y) * Axis(0, eul[q])).cwiseAbs().maxCoeff() < 1e-12, "Euler angles are not roll, pitch, yaw")) {return;}
        }
      }
      for (size_t n = 0; n < 8; ++n) {
        if (n == 4) {continue;}
        Quaterniond u = StdToEigQuat(std::vector<double>(n, eul[q]));
        if (!c.Check(u.w() == 1 && u.vec().norm() == 0, "a quaternion of another length than four is not the identity")) {return;}
      }
      c.Trace();
    });
  // --- planar points
  const int G = R.thorough ? 4 : 3;   // grid width
  const int P = G * G;
  auto point = [&](int k) {return Vector3d((k % G) * 1.5 - 1, (k / G) * 2.0 + 3, (k * 7) % 5 - 2.0);};
  std::vector<std::vector<int>> sets = {{}};
  for (size_t k = 0; k < sets.size(); ++k) {
    if (sets[k].size() == 5) {continue;}
    for (int j = sets[k].empty() ? 0 : sets[k].back(); j < P; ++j) {auto s = sets[k]; s.push_back(j); sets.push_back(s);}
  }
  R.Bound("point sets", sets.size());
  R.Parallel(64, [&](size_t q, mc::Ctx & c) {
      std::string key = "points " + std::to_string(q);
      if (!R.Selected(key)) {return;}
      c.Key(key);
      for (size_t k = q; k < sets.size(); k += 64) {
        std::vector<Vector3d> src; for (int j : sets[k]) {src.push_back(point(j));}
        std::ostringstream t; t << "points"; for (int j : sets[k]) {t << " " << j;} t << ": ";
        c.State(mc::Hash().u(k).h);
        double want = 0; Vector3d sum(0, 0, 0), wsum(0, 0, 0); double ws = 0; std::vector<double> wt; bool wide = false;
        for (size_t a = 0; a < src.size(); ++a) {
          sum += src[a]; wt.push_back(0.5 + a); wsum += src[a] * wt.back(); ws += wt.back();
          for (const auto & b : src) {want = std::max(want, (src[a] - b).head<2>().norm());}
          wide = wide || (src[a] - src[0]).head<2>().norm() > 0;
        }
        if (!src.empty()) {
          c.Transition(); c.Eval();
          if (!c.Near(maximum_distance(src), want, 1e-5, t.str() + "largest distance")) {return;}
          if (!c.Check((average_vectors(src) - sum / src.size()).norm() < 1e-12, t.str() + "average")) {return;}
          if (!c.Check((average_vectors(src, wt) - wsum / ws).norm() < 1e-12, t.str() + "weighted average")) {return;}
          auto shifted = src - Vector3d(1, -2, 3);
          for (size_t a = 0; a < src.size(); ++a) {if (!c.Check(shifted[a] == src[a] - Vector3d(1, -2, 3), t.str() + "shift")) {return;}}
        }
        // the angular spread of a point at the centroid is rounding
        bool centre = false; for (const auto & p : src) {centre = centre || (p - sum / src.size()).norm() < 1e-6;}
        for (double ang : {0.0, 1e-3, 1.0, M_PI / 2, 3.0, M_PI, -2.0, -0.4}) {
          for (const Vector3d & d : {Vector3d(0, 0, 0), Vector3d(100, -3, 7)}) {
            std::vector<Vector3d> tgt; for (const auto & p : src) {tgt.push_back(Axis(2, ang) * p + d);}
            Eigen::Affine3d f = Eigen::Affine3d(Eigen::Translation3d(9, 9, 9)); double ps = -1, as = -1;
            bool ok = kabsch_2d(tgt, src, f, ps, as);
            c.Transition(); c.Eval();
            if (!c.Check(ok == (src.size() >= 4), t.str() + "fit of fewer than four points, or none of four")) {return;}
            auto fewer = src; if (!fewer.empty()) {fewer.pop_back(); if (!c.Check(!kabsch_2d(tgt, fewer, f, ps, as), t.str() + "fit of different numbers of points")) {return;} kabsch_2d(tgt, src, f, ps, as);}
            if (!ok || !wide) {continue;}
            if (!c.Check(std::abs(std::remainder(affine_angle(f) - ang, 2 * M_PI)) < 1e-9 && (f.linear() - Axis(2, ang)).norm() < 1e-9, t.str() + "angle of the fit")) {return;}
            bool all = true; for (size_t a = 0; a < src.size(); ++a) {all = all && (f * src[a] - tgt[a]).norm() < 1e-8;}
            if (!c.Check(all, t.str() + "fit of an exact motion leaves errors")) {return;}
            if (!c.Check(std::abs(ps) < 1e-8 && (centre || std::abs(as) < 1e-8), t.str() + "spread of an exact fit")) {return;}
            // disturbed: no other rotation about the centroid fits better
            for (int w = 0; w < 3; ++w) {
              auto dis = tgt; for (size_t a = 0; a < dis.size(); ++a) {dis[a].x() += 0.2 * ((a + w) % 3) - 0.2; dis[a].y() += 0.15 * ((a * (w + 1)) % 4) - 0.2;}
              if (!kabsch_2d(dis, src, f, ps, as)) {c.Fail(t.str() + "no fit of disturbed points"); return;}
              c.Transition(); c.Eval();
              auto cost = [&](double x, const Vector3d & y) {double s = 0; for (size_t a = 0; a < dis.size(); ++a) {s += (Axis(2, x) * src[a] + y - dis[a]).head<2>().squaredNorm();} return s;};
              double x = affine_angle(f); Vector3d y = f.translation();
              if (!c.Check((f.linear() - Axis(2, x)).norm() < 1e-9, t.str() + "fit is not a rotation about the vertical")) {return;}
              double base = cost(x, y);
              Vector3d mid = average_vectors(dis), ms = average_vectors(src);
              for (double e = -3.1; e < 3.15; e += 0.1) {if (!c.Check(base <= cost(x + e, mid - Axis(2, x + e) * ms) + 1e-9, t.str() + "another angle fits better")) {return;}}
              for (int k2 = 0; k2 < 2; ++k2) {for (double e : {-0.01, 0.01}) {if (!c.Check(base <= cost(x, y + e * Vector3d::Unit(k2)) + 1e-9, t.str() + "another shift fits better")) {return;}}}
            }
          }
        }
      }
      c.Trace();
    });
  return R.Finish();
}
