// C15: geodetic conversions.
#include "mc.hpp"
#include "geo.hpp"
#include "utility/gps_helper.hpp"
using Eigen::Vector3d;

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C15");
  std::vector<double> lats, lons, alts = {-4000, -100, -1e-3, 0, 1e-3, 10, 250, 8848, 40000};
  double dl = R.thorough ? 0.25 : 1.0, dm = R.thorough ? 0.5 : 5.0;
  for (double x = -90; x <= 90; x += dl) {lats.push_back(x);}
  for (double x : {-89.9999, -89.0, -45.0001, -1e-6, 1e-6, 0.0101, 33.3333, 44.9999, 89.5, 89.9999}) {lats.push_back(x);}
  for (double x = -180; x <= 180; x += dm) {lons.push_back(x);}
  for (double x : {-179.99999, -90.0001, -1e-6, 1e-6, 89.9999, 179.99999}) {lons.push_back(x);}
  std::vector<Vector3d> offs;
  for (double e : {-3000.0, -1.0, 0.0, 200.0}) {for (double n : {-500.0, 0.0, 0.5, 4000.0}) {for (double u : {-50.0, 0.0, 120.0}) {offs.push_back({e, n, u});}}}
  std::vector<double> angs;
  for (int k = -12; k <= 12; ++k) {angs.push_back(k * M_PI / 12 + 1e-3 * (k % 3));}
  R.rule = "a grid of latitudes, longitudes (poles, equator, date line and neighbourhoods) and altitudes; at every grid point all "
    "conversions are compared with an independent WGS84 implementation and with their inverses, for a grid of east-north-up "
    "offsets; the local rotation for a grid of headings";
  R.Bound("latitudes", lats.size()); R.Bound("longitudes", lons.size()); R.Bound("altitudes", alts.size()); R.Bound("offsets", offs.size());
  R.assumptions = {"latitude within [-90, 90], longitude within [-180, 180] degrees, altitude between -4 and 40 km"};
  R.Parallel(lats.size() * lons.size(), [&](size_t i, mc::Ctx & c) {
      double lat = lats[i % lats.size()], lon = lons[i / lats.size()];
      std::ostringstream k; k << "lat " << lat << " lon " << lon;
      if (!R.Selected(k.str())) {return;}
      c.Key(k.str());
      for (double alt : alts) {
        Vector3d lla(lat, lon, alt);
        std::ostringstream t0; t0 << "alt " << alt << ": "; std::string t = t0.str();
        Vector3d ecef = lla_to_ecef(lla), want = geo::Ecef(lla);
        c.Transition(); c.State(mc::Hash().m(lla).h); c.Eval();
        if (!((ecef - want).norm() < 1e-5)) {c.Fail(t + "ECEF off by " + std::to_string((ecef - want).norm()) + " m"); break;}
        Vector3d back = ecef_to_lla(ecef);
        bool pole = std::abs(std::abs(lat) - 90) < 1e-9;
        double dlat = (back(0) - lat) * geo::kD * geo::kA;
        double dlon = std::remainder(back(1) - lon, 360.0) * geo::kD * geo::kA * std::cos(lat * geo::kD);
        if (pole) {dlon = 0;}
        if (!(std::abs(dlat) < 1e-4) || !(std::abs(dlon) < 1e-4) || !(std::abs(back(2) - alt) < 1e-4)) {
          std::ostringstream o; o << t << "ECEF round trip off by " << dlat << " m north, " << dlon << " m east, " << back(2) - alt << " m up"; c.Fail(o.str()); break;
        }
        if (!(back(0) >= -90 && back(0) <= 90 && back(1) >= -180 && back(1) <= 180)) {
          std::ostringstream o; o.precision(17); o << t << "converted position out of range " << back.transpose(); c.Fail(o.str()); break;
        }
        bool bad = false;
        for (auto & o : offs) {
          c.Transition(); c.Eval();
          std::ostringstream q; q << t << "offset " << o.transpose() << ": ";
          Vector3d x = enu_to_ecef(o, lla), xw = want + geo::Axes(lla).transpose() * o;
          if (!((x - xw).norm() < 1e-5)) {c.Fail(q.str() + "ENU to ECEF off by " + std::to_string((x - xw).norm()) + " m"); bad = true; break;}
          Vector3d b = ecef_to_enu(xw, lla);
          if (!((b - o).norm() < 1e-5)) {c.Fail(q.str() + "ECEF to ENU off by " + std::to_string((b - o).norm()) + " m"); bad = true; break;}
          Vector3d l = enu_to_lla(o, lla);
          Vector3d r = geo::Ecef(l);
          if (!((r - xw).norm() < 1e-3)) {c.Fail(q.str() + "ENU to LLA off by " + std::to_string((r - xw).norm()) + " m"); bad = true; break;}
          Vector3d e = lla_to_enu(l, lla), ew = geo::Enu(l, lla);
          if (!((e - ew).norm() < 1e-5)) {c.Fail(q.str() + "LLA to ENU off by " + std::to_string((e - ew).norm()) + " m"); bad = true; break;}
          if (!((e - o).norm() < 1e-3)) {c.Fail(q.str() + "ENU round trip off by " + std::to_string((e - o).norm()) + " m"); bad = true; break;}
        }
        if (bad) {break;}
      }
      c.Trace(); c.Sample(k.str());
    });
  R.Parallel(angs.size(), [&](size_t i, mc::Ctx & c) {
      double a = angs[i];
      std::string key = "heading " + std::to_string(a);
      if (!R.Selected(key)) {return;}
      c.Key(key);
      for (auto & o : offs) {
        c.Transition(); c.Eval(); c.State(mc::Hash().m(o).d(a).h);
        Vector3d l = enu_to_local(o, a), b = local_to_enu(o, a);
        c.Check((l - Eigen::AngleAxisd(a, Vector3d::UnitZ()) * o).norm() < 1e-9, "ENU to local is not the rotation by the heading");
        c.Check((local_to_enu(l, a) - o).norm() < 1e-9 && (enu_to_local(b, a) - o).norm() < 1e-9, "local and ENU rotations are not inverse");
      }
      c.Check(std::abs(wgs84_m_to_deg(1000.0 * (1 + std::abs(a))) * geo::kD * geo::kA - 1000 * (1 + std::abs(a))) < 1e-6, "metres to degrees");
      c.Trace();
    });
  return R.Finish();
}
