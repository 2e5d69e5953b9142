// C17: the CSV logs of filter and updaters describe the filter.
#include "mc.hpp"
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
#include "world.hpp"
#include "utility/gps_helper.hpp"
using namespace world;

struct Csv
{
  std::vector<std::string> head; std::vector<std::vector<std::string>> rows; bool ok{false}; std::string err;
  static std::vector<std::string> Split(const std::string & l)
  {
    std::vector<std::string> r; std::string x; std::stringstream s(l);
    while (std::getline(s, x, ',')) {r.push_back(x);}
    if (!l.empty() && l.back() == ',') {r.push_back("");}
    return r;
  }
  explicit Csv(const std::string & f)
  {
    std::ifstream i(f); std::string l;
    if (!i || !std::getline(i, l)) {return;}
    ok = true; head = Split(l);
    while (std::getline(i, l)) {
      rows.push_back(Split(l));
      if (rows.back().size() != head.size()) {err = "row " + std::to_string(rows.size()) + " has " + std::to_string(rows.back().size()) + " columns, the header " + std::to_string(head.size());}
      for (auto & v : rows.back()) {char * e; std::strtod(v.c_str(), &e); if (v.empty() || *e || v.find('\0') != std::string::npos) {err = "row " + std::to_string(rows.size()) + " has an entry that is not a number";}}
    }
  }
  int Col(const std::string & n) const {for (size_t k = 0; k < head.size(); ++k) {if (head[k] == n) {return static_cast<int>(k);}} return -1;}
};
static VectorXd QV(const Quaterniond & q) {VectorXd v(4); v << q.w(), q.x(), q.y(), q.z(); return v;}
struct Want {std::string name; VectorXd v; double tol{2e-5};};
static VectorXd S1(double x) {VectorXd v(1); v << x; return v;}
static std::string Match(const Csv & c, const std::vector<Want> & want, bool quat_sign = true)
{
  (void)quat_sign;
  size_t named = 0;
  const auto & row = c.rows.back();
  for (auto & w : want) {
    for (int k = 0; k < w.v.size(); ++k) {
      std::string n = w.v.size() == 1 ? w.name : w.name + "_" + std::to_string(k);
      int col = c.Col(n);
      if (col < 0) {return "no column " + n;}
      ++named;
      double x = std::atof(row[static_cast<size_t>(col)].c_str());
      if (!(std::abs(x - w.v[k]) <= w.tol * std::abs(w.v[k]) + 1e-9)) {std::ostringstream o; o << n << " is " << row[static_cast<size_t>(col)] << " instead of " << w.v[k]; return o.str();}
    }
  }
  return "";
}
static std::vector<Want> Cols(std::initializer_list<std::pair<const char *, double>> l) {std::vector<Want> r; for (auto & x : l) {r.push_back({x.first, S1(x.second)});} return r;}

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C17");
  const unsigned depth = 3;
  R.rule = "all words of length d over sensor messages and predictions for seven sensor configurations in both covariance forms, with "
    "logging on; after every message every log file is parsed and its newest row compared, column by column, with the filter; the "
    "same words with a low log rate; all files of a filter with logging off";
  R.Bound("depth", depth);
  R.assumptions = {"values are written with six significant digits (positions on earth: twelve)"};
  std::vector<Cfg> cfgs;
  auto add = [&](Cfg c, const std::string & n) {for (bool root : {false, true}) {c.root = root; c.name = n + (root ? "/root" : "/full"); cfgs.push_back(c);}};
  {
    Cfg a; a.imus = {{4, 3}}; a.gpss = {{3, true}}; a.cams = {{8, true}}; a.fids = {{6, true}}; add(a, "calibrated");
    a.start_gravity = true; a.chi = 1e-9; add(a, "moving");
    Cfg b; b.imus = {{4, 0}}; b.gpss = {{3, false}}; b.cams = {{8, false}}; b.fids = {{6, false}}; b.aug = AugmentationType::TIME; add(b, "uncalibrated");
    Cfg d; d.imus = {{4, 1}, {2, 2}}; d.gpss = {{3, false}, {1, true}}; d.cams = {{8, true}, {5, false}}; d.fids = {{6, true}}; d.start_gravity = true; d.chi = 1e-9; d.aug = AugmentationType::PRIMARY; add(d, "two");
    Cfg e = a; e.imus = {{4, 2}}; e.cams = {{8, false}}; e.fids = {{6, true}}; e.aug = AugmentationType::ERROR; e.start_gravity = true; e.chi = 1e3; add(e, "mixed");
    Cfg g = a; g.imus = {{4, 1}}; g.cams = {{8, true}}; g.fids = {{6, false}}; g.gps_init = GpsInitType::BASELINE_DIST; g.gps_baseline = 0.4; g.chi = 1; add(g, "gps-init");
  }
  const std::string base = R.scratch;
  auto clean = [&](const std::string & dir) {
      ::mkdir(dir.c_str(), 0700);
      if (DIR * d = ::opendir(dir.c_str())) {while (dirent * e = ::readdir(d)) {std::string n = e->d_name; if (n != "." && n != "..") {::unlink((dir + n).c_str());}} ::closedir(d);}
    };
  auto list = [&](const std::string & dir) {
      std::set<std::string> r;
      if (DIR * d = ::opendir(dir.c_str())) {while (dirent * e = ::readdir(d)) {std::string n = e->d_name; if (n != "." && n != "..") {r.insert(n);}} ::closedir(d);}
      return r;
    };
  auto diag = [](EKF & e, unsigned i, unsigned n) {MatrixXd P = e.GetUseRootCovariance() ? MatrixXd(e.m_cov.transpose() * e.m_cov) : e.m_cov; return VectorXd(P.diagonal().segment(i, n));};
  auto opsOf = [&](const Cfg & c) {
      std::vector<WOp> r;
      for (auto & x : c.imus) {r.push_back({"i" + std::to_string(x.first), 'i', x.first, 0.125, 0}); r.push_back({"I" + std::to_string(x.first), 'i', x.first, 0.25, 2});}
      for (auto & x : c.gpss) {r.push_back({"g" + std::to_string(x.first), 'g', x.first, 0.25, 0});}
      for (auto & x : c.fids) {for (auto & k : c.cams) {r.push_back({"f" + std::to_string(x.first) + "@" + std::to_string(k.first), 'f', x.first, 0.125, static_cast<int>(k.first)});}}
      for (auto & x : c.cams) {r.push_back({"v" + std::to_string(x.first), 'v', x.first, 0.25, 0});}
      r.push_back({"p", 'p', 0, 0.5, 0}); r.push_back({"p0", 'p', 0, 0, 0});
      return r;
    };
  auto run = [&](Cfg cf, double rate, const std::vector<WOp> & ops, const std::vector<unsigned> & w, unsigned steps, mc::Ctx & c) {
      std::string key = cf.name + " rate " + std::to_string(static_cast<int>(std::min(rate, 1e6))) + ":";
      for (auto x : w) {key += " " + ops[x].name;}
      if (steps != w.size()) {key += " *" + std::to_string(steps);}
      if (!R.Selected(key)) {return;}
      c.Key(key);
      const std::string dir = base + "/w" + std::to_string(::getpid()) + "/";
      clean(dir);
      cf.log_rate = rate; cf.log_dir = dir;
      World wd(cf);
      EKF & e = *wd.ekf;
      // the same filter without logs, one message behind: where the residuals come from
      Cfg ct = cf; ct.log_rate = 0; ct.log_dir = "";
      World tw(ct);
      std::map<std::string, size_t> rows;
      std::map<std::string, std::pair<double, size_t>> due;
      for (unsigned k = 0; k < steps; ++k) {
        const WOp & o = ops[w[k % w.size()]];
        size_t clones = 0;
        for (auto & a : e.m_state.aug_states) {clones += a.second.size();}
        unsigned vision = wd.vision_updates;
        wd.Apply(o);
        c.Transition(); c.Eval(); c.State(HashEkf(e));
        std::string t = "after step " + std::to_string(k) + " " + o.name + ": ";
        double now = e.GetCurrentTime();
        BodyState pre = tw.ekf->m_state.body_state;
        State prior = tw.ekf->m_state;
        if (rate >= 1e6) {
          if (o.k == 'g' || o.k == 'f') {tw.ekf->PredictModel(now);}
          prior = tw.ekf->m_state;
          tw.Apply(o);
        }
        std::string own;
        if (o.k == 'i') {own = "imu_" + std::to_string(o.id) + ".csv";}
        if (o.k == 'g') {own = "gps_" + std::to_string(o.id) + ".csv";}
        if (o.k == 'f') {own = "fiducial_" + std::to_string(o.var) + ".csv";}
        if (o.k == 'v' && wd.vision_updates > vision) {own = "msckf_" + std::to_string(o.id) + ".csv";}
        if (rate == 0) {
          if (!list(dir).empty()) {c.Fail(t + "log file " + *list(dir).begin() + " written with logging off"); return;}
          continue;
        }
        std::map<std::string, Csv> csv;
        for (auto & f : list(dir)) {
          csv.emplace(f, Csv(dir + f));
          Csv & v = csv.at(f);
          if (!v.ok || !v.err.empty()) {c.Fail(t + f + ": " + (v.ok ? v.err : "empty")); return;}
          std::set<std::string> names(v.head.begin(), v.head.end());
          if (names.size() != v.head.size()) {c.Fail(t + f + ": repeated column names"); return;}
          if (v.head[0] != "time") {c.Fail(t + f + ": no time column"); return;}
        }
        if (rate < 1e6) {
          // low rate: no file grows faster, and none is missing
          if ((o.k == 'p' || o.k == 'i') && !csv.count("body_state.csv")) {c.Fail(t + "no body log"); return;}
          if (!own.empty() && o.k != 'v' && !csv.count(own)) {c.Fail(t + "no log " + own); return;}
          for (auto & x : csv) {
            if (x.first == "aug_state.csv" || x.second.rows.empty()) {continue;}
            double first = std::atof(x.second.rows.front()[0].c_str());
            if (x.first == own && o.k != 'v') {
              // exactly the rows that are due
              if (!due.count(own)) {due[own] = {now, 1};} else {
                double room = rate * (now - due[own].first) - static_cast<double>(due[own].second);
                if (std::abs(room) < 1e-9) {due[own].second = x.second.rows.size();} else if (room > 0) {++due[own].second;}
              }
              if (x.second.rows.size() != due[own].second) {c.Fail(t + x.first + " has " + std::to_string(x.second.rows.size()) + " rows instead of " + std::to_string(due[own].second) + " at rate " + std::to_string(rate)); return;}
            }
            if (x.second.rows.size() > 1 + rate * (now - first) + 1e-6 + 0.01 * rate * now) {c.Fail(t + x.first + " has " + std::to_string(x.second.rows.size()) + " rows after " + std::to_string(now - first) + " s at rate " + std::to_string(rate)); return;}
          }
          continue;
        }
        // exactly the sensor's own log grows, by one row
        for (auto & x : csv) {
          bool shared = x.first == "body_state.csv" || x.first == "aug_state.csv" || x.first.compare(0, 5, "trian") == 0;
          size_t grow = x.second.rows.size() - rows[x.first];
          if (!shared && grow != (x.first == own ? 1u : 0u)) {
            if (!(o.k == 'v' && x.first == own)) {c.Fail(t + x.first + " grew by " + std::to_string(grow) + " rows"); return;}
          }
          rows[x.first] = x.second.rows.size();
        }
        if (!own.empty() && !csv.count(own) && o.k != 'v') {c.Fail(t + "no log " + own); return;}
        std::vector<Want> want = Cols({{"time", now}});
        std::string d;
        auto & s = e.m_state;
        if (o.k == 'i') {
          auto & m = s.imu_states.at(o.id);
          Vector3d acc, gyr; wd.ImuMeas(o.id, wd.now, o.var, acc, gyr);
          want.push_back({"imu_pos", m.pos_i_in_b}); want.push_back({"imu_ang_pos", QV(m.ang_i_to_b)}); want.push_back({"imu_acc_bias", m.acc_bias}); want.push_back({"imu_gyr_bias", m.omg_bias});
          want.push_back({"acc", acc}); want.push_back({"omg", gyr});
          // a standing update leaves gravity and no rotation in the body state
          bool rest = s.body_state.acc_b_in_l == g_gravity && s.body_state.ang_vel_b_in_l.isZero(0) && s.body_state.ang_acc_b_in_l.isZero(0);
          want.push_back({"stationary", S1(rest)});
          if (rest) {
            VectorXd r = VectorXd::Zero(6);
            auto & q = prior.imu_states.at(o.id);
            r.head<3>() = -(acc - q.acc_bias - q.ang_i_to_b.inverse() * (pre.ang_b_to_l.inverse() * g_gravity));
            if (m.GetIsIntrinsic()) {r.tail<3>() = -(gyr - q.omg_bias);}
            want.push_back({"residual", r, 1e-4}); c.Count("standing rows");
          } else {c.Count("moving rows");}
          if (m.GetIsExtrinsic()) {want.push_back({"imu_ext_cov", diag(e, m.index_extrinsic, 6)});}
          if (m.GetIsIntrinsic()) {want.push_back({"imu_int_cov", diag(e, m.index_intrinsic, 6)});}
        } else if (o.k == 'g') {
          auto & m = s.gps_states.at(o.id);
          Vector3d lla = wd.GpsMeas(o.id, wd.now, o.var);
          for (auto x : {std::make_pair("lat", lla[0]), std::make_pair("lon", lla[1]), std::make_pair("alt", lla[2])}) {want.push_back({x.first, S1(x.second), 1e-10});}
          want.push_back({"is_initialized", S1(e.IsLlaInitialized())});
          if (cf.gps_init == GpsInitType::CONSTANT) {
            Vector3d ref = e.GetReferenceLLA(), p = enu_to_local(lla_to_enu(lla, ref), e.GetReferenceAngle());
            want.push_back({"ref_lat", S1(ref[0]), 1e-10}); want.push_back({"ref_lon", S1(ref[1]), 1e-10}); want.push_back({"ref_alt", S1(ref[2]), 1e-8}); want.push_back({"ref_heading", S1(e.GetReferenceAngle())});
            want.push_back({"residual", Vector3d(p - prior.body_state.pos_b_in_l - prior.body_state.ang_b_to_l * prior.gps_states.at(o.id).pos_a_in_b), 1e-4});
            want.push_back({"x", S1(p[0]), 1e-5}); want.push_back({"y", S1(p[1]), 1e-5}); want.push_back({"z", S1(p[2]), 1e-5});
          }
          if (m.GetIsExtrinsic()) {want.push_back({"ant_pos", m.pos_a_in_b}); want.push_back({"gps_cov", diag(e, m.index, 3)});}
        } else if (o.k == 'f') {
          auto & m = s.fid_states.at(o.id); auto & q = s.cam_states.at(static_cast<unsigned>(o.var));
          BoardDetection b = wd.FidMeas(o.id, static_cast<unsigned>(o.var), wd.now);
          want.push_back({"board", S1(o.id)}); want.push_back({"board_meas_pos", b.pos_f_in_c}); want.push_back({"board_meas_ang", QV(b.ang_f_to_c)});
          want.push_back({"cam_pos", q.pos_c_in_b}); want.push_back({"cam_ang_pos", QV(q.ang_c_to_b)});
          auto & pc = prior.cam_states.at(static_cast<unsigned>(o.var)); auto & pf = prior.fid_states.at(o.id);
          Quaterniond lc = pc.ang_c_to_b.inverse() * prior.body_state.ang_b_to_l.inverse();
          VectorXd r(6);
          r.head<3>() = b.pos_f_in_c - (lc * (pf.pos_f_in_l - prior.body_state.pos_b_in_l) - pc.ang_c_to_b.inverse() * pc.pos_c_in_b);
          r.tail<3>() = Log(b.ang_f_to_c * (lc * pf.ang_f_to_l).inverse());
          want.push_back({"residual", r, 1e-4});
          if (m.GetIsExtrinsic()) {want.push_back({"fid_pos", m.pos_f_in_l}); want.push_back({"fid_ang", QV(m.ang_f_to_l)}); want.push_back({"fid_cov", diag(e, m.index, 6)});}
          if (q.GetIsExtrinsic()) {want.push_back({"cam_cov", diag(e, q.index, 6)});}
        } else if (o.k == 'v' && !own.empty() && csv.count(own)) {
          auto & q = s.cam_states.at(o.id);
          want.push_back({"cam_pos", q.pos_c_in_b}); want.push_back({"cam_ang_pos", QV(q.ang_c_to_b)}); want.push_back({"FeatureTracks", S1(3)});
          if (q.GetIsExtrinsic()) {want.push_back({"cam_cov", diag(e, q.index, 6)});}
        }
        if (!own.empty() && csv.count(own)) {
          d = Match(csv.at(own), want);
          if (!d.empty()) {c.Fail(t + own + ": " + d); return;}
          c.Count("sensor rows checked");
        }
        if (o.k == 'p' || o.k == 'i') {
          if (!csv.count("body_state.csv")) {c.Fail(t + "no body log"); return;}
          auto & b = s.body_state;
          // within the first instant only the first row is due
          if (now > std::atof(csv.at("body_state.csv").rows.front()[0].c_str()) + 1e-6) {d = Match(csv.at("body_state.csv"), {{"time", S1(now)}, {"body_pos", b.pos_b_in_l}, {"body_vel", b.vel_b_in_l}, {"body_acc", b.acc_b_in_l}, {"body_ang_pos", QV(b.ang_b_to_l)},
              {"body_ang_vel", b.ang_vel_b_in_l}, {"body_ang_acc", b.ang_acc_b_in_l}, {"body_cov", diag(e, 0, 18)}, {"state_size", S1(e.GetStateSize())}});}
          if (!d.empty()) {c.Fail(t + "body log: " + d); return;}
          c.Count("body rows checked");
        }
        // a clone made by this message is in the clone log
        const AugState * fresh = nullptr;
        for (auto & a : s.aug_states) {for (auto & q : a.second) {if (q.time == now) {fresh = &q;}}}
        size_t after = 0;
        for (auto & a : s.aug_states) {after += a.second.size();}
        if (after > clones && fresh) {
          if (!csv.count("aug_state.csv")) {c.Fail(t + "no clone log"); return;}
          const Csv & q = csv.at("aug_state.csv");
          if (std::abs(std::atof(q.rows.back()[0].c_str()) - now) > 1e-5 * now + 1e-9) {c.Fail(t + "a clone is missing in the clone log"); return;}
          if (o.k == 'v' && own.empty()) {d = Match(q, {{"aug_pos", fresh->pos_b_in_l}, {"aug_ang", QV(fresh->ang_b_to_l)}});}
          if (!d.empty()) {c.Fail(t + "clone log: " + d); return;}
        }
      }
      c.Trace(); c.Sample(key);
    };
  auto word = [](uint64_t code, unsigned a, unsigned len) {std::vector<unsigned> w(len); for (auto & x : w) {x = static_cast<unsigned>(code % a); code /= a;} return w;};
  auto pw = [](uint64_t a, unsigned e) {uint64_t r = 1; while (e--) {r *= a;} return r;};
  for (auto & cf : cfgs) {
    auto ops = opsOf(cf);
    unsigned n = static_cast<unsigned>(ops.size());
    unsigned d = R.thorough ? depth + 1 : depth;
    R.Parallel(pw(n, d), [&](size_t i, mc::Ctx & c) {run(cf, 1e9, ops, word(i, n, d), d, c);});
    R.Parallel(pw(n, 2), [&](size_t i, mc::Ctx & c) {run(cf, 1e9, ops, word(i, n, 2), 14, c); run(cf, 2, ops, word(i, n, 2), 20, c); run(cf, 1, ops, word(i, n, 2), 20, c); run(cf, 0, ops, word(i, n, 2), 4, c);});
  }
  // two boards seen by one camera
  R.Parallel(4, [&](size_t i, mc::Ctx & c) {
      std::string key = "two boards one camera, order " + std::to_string(i);
      if (!R.Selected(key)) {return;}
      c.Key(key);
      const std::string dir = base + "/w" + std::to_string(::getpid()) + "/";
      clean(dir);
      Cfg cf; cf.imus = {{4, 3}}; cf.cams = {{8, true}}; cf.fids = {{6, true}, {9, true}}; cf.log_rate = 1e9; cf.log_dir = dir;
      World wd(cf);
      for (unsigned k = 0; k < 4; ++k) {
        bool second = i == 0 ? k % 2 : i == 1 ? k >= 2 : i == 2 ? k < 2 : k != 1;
        wd.Apply({"f", 'f', second ? 9u : 6u, 0.125, 8});
        c.Transition();
      }
      c.Eval(); c.State(HashEkf(*wd.ekf));
      size_t rows = 0; std::string err;
      for (auto & f : list(dir)) {if (f.compare(0, 8, "fiducial") == 0) {Csv v(dir + f); rows += v.rows.size(); if (!v.err.empty()) {err = f + ": " + v.err;}}}
      c.Check(err.empty() && rows == 4, "four board detections give " + std::to_string(rows) + " log rows " + err);
      c.Trace();
    });
  return R.Finish();
}
