// Independent WGS84 conversions used as oracle.
#ifndef GEO_HPP_
#define GEO_HPP_
#include <cmath>
#include <eigen3/Eigen/Eigen>
namespace geo
{
using Eigen::Vector3d;
using Eigen::Matrix3d;
constexpr double kA = 6378137.0, kF = 1.0 / 298.257223563, kD = M_PI / 180.0;
inline Vector3d Ecef(const Vector3d & lla)
{
  const double e2 = kF * (2 - kF), la = lla(0) * kD, lo = lla(1) * kD;
  const double n = kA / std::sqrt(1 - e2 * std::sin(la) * std::sin(la));
  return {(n + lla(2)) * std::cos(la) * std::cos(lo), (n + lla(2)) * std::cos(la) * std::sin(lo),
    (n * (1 - e2) + lla(2)) * std::sin(la)};
}
// rows: east, north, up
inline Matrix3d Axes(const Vector3d & lla)
{
  const double la = lla(0) * kD, lo = lla(1) * kD;
  Vector3d e(-std::sin(lo), std::cos(lo), 0), u(std::cos(la) * std::cos(lo), std::cos(la) * std::sin(lo), std::sin(la));
  Matrix3d m;
  m.row(0) = e.transpose(); m.row(1) = u.cross(e).transpose(); m.row(2) = u.transpose();
  return m;
}
inline Vector3d Enu(const Vector3d & lla, const Vector3d & ref) {return Axes(ref) * (Ecef(lla) - Ecef(ref));}
// Newton iteration on the east-north-up error; start must not be at a pole
inline Vector3d LlaNear(const Vector3d & enu, const Vector3d & ref)
{
  Vector3d target = Ecef(ref) + Axes(ref).transpose() * enu, x = ref;
  const double e2 = kF * (2 - kF);
  for (int k = 0; k < 30; ++k) {
    Vector3d d = Axes(x) * (target - Ecef(x));
    double s = std::sin(x(0) * kD), w = std::sqrt(1 - e2 * s * s);
    double m = kA * (1 - e2) / (w * w * w), n = kA / w;
    x(0) += d(1) / (m + x(2)) / kD;
    x(1) += d(0) / ((n + x(2)) * std::cos(x(0) * kD)) / kD;
    x(2) += d(2);
  }
  if (x(1) > 180) {x(1) -= 360;}
  if (x(1) < -180) {x(1) += 360;}
  return x;
}
inline Vector3d ToLocal(const Vector3d & enu, double a)
{
  return {std::cos(a) * enu(0) - std::sin(a) * enu(1), std::sin(a) * enu(0) + std::cos(a) * enu(1), enu(2)};
}
inline Vector3d FromLocal(const Vector3d & l, double a) {return ToLocal(l, -a);}
}  // namespace geo
#endif
