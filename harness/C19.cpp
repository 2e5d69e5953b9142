// C19: camera geometry: triangulation, projection, distortion and feature marginalisation.
#include "lockstep.hpp"
#include "utility/math_helper.hpp"
using namespace meas;

namespace
{
MatrixXd Fill(int r, int c, unsigned salt)
{
  MatrixXd m(r, c);
  for (int i = 0; i < r; ++i) {for (int j = 0; j < c; ++j) {m(i, j) = std::sin(1.0 + 1.7 * i + 2.3 * j + 0.61 * salt + 0.37 * i * j);}}
  return m;
}
}

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C19");
  R.rule = "triangulation: every camera pose out of a menu, augmentation type, track length and frame subset, feature out of a "
    "grid of bearings and depths (in range, too near, too far, behind), exact or disturbed belief; lens model: grids of points "
    "times coefficient combinations against the defining polynomial and its derivative; marginalisation and compression: every "
    "shape up to the bound times rank patterns";
  // --- lens model
  std::vector<double> ks = {-0.3, 0.0, 0.15}, ps = {-0.02, 0.0, 0.01}, xs;
  for (double x = -1.2; x <= 1.21; x += R.thorough ? 0.1 : 0.2) {xs.push_back(x);}
  xs.push_back(0.0);
  R.Bound("lens grid", xs.size() * xs.size() * 81);
  R.Parallel(81, [&](size_t i, mc::Ctx & c) {
      Intrinsics in; in.k_1 = ks[i % 3]; in.k_2 = ks[i / 3 % 3]; in.p_1 = ps[i / 9 % 3]; in.p_2 = ps[i / 27];
      std::string key = "lens " + std::to_string(i);
      if (!R.Selected(key)) {return;}
      c.Key(key);
      auto model = [&](double x, double y) {
          double r2 = x * x + y * y, g = 1 + in.k_1 * r2 + in.k_2 * r2 * r2;
          return Vector2d(x * g + 2 * in.p_1 * x * y + in.p_2 * (r2 + 2 * x * x), y * g + in.p_1 * (r2 + 2 * y * y) + 2 * in.p_2 * x * y);
        };
      // the same lens handed to OpenCV: pinhole matrix in pixels and coefficients in OpenCV's order
      for (unsigned q = 0; q < 24; ++q) {
        Intrinsics h = in;
        h.f_x = q % 2 ? 0.012 : 0.0037; h.f_y = q / 2 % 2 ? 0.008 : 0.0041; h.pixel_size = q / 4 % 2 ? 1e-5 : 4.4e-6;
        h.width = q / 8 == 0 ? 640 : q / 8 == 1 ? 1280 : 100; h.height = q / 8 == 0 ? 480 : q / 8 == 1 ? 960 : 200;
        cv::Mat K = h.ToCameraMatrix(), D = h.ToDistortionVector();
        Matrix3d W; W << h.f_x / h.pixel_size, 0, h.width / 2, 0, h.f_y / h.pixel_size, h.height / 2, 0, 0, 1;
        double dk = 0;
        c.Check(K.rows == 3 && K.cols == 3 && K.type() == CV_64F && D.total() == 4 && D.type() == CV_64F, "shape of the camera matrix or distortion vector");
        for (int r = 0; r < 3; ++r) {for (int l = 0; l < 3; ++l) {dk = std::max(dk, std::abs(K.at<double>(r, l) - W(r, l)));}}
        c.Check(dk < 1e-9, "camera matrix is not the pinhole matrix of the intrinsics");
        c.Check(D.at<double>(0) == h.k_1 && D.at<double>(1) == h.k_2 && D.at<double>(2) == h.p_1 && D.at<double>(3) == h.p_2, "distortion vector is not (k1, k2, p1, p2)");
      }
      for (double x : xs) {
        for (double y : xs) {
          c.Transition(); c.Eval(); c.State(mc::Hash().d(x).d(y).u(i).h);
          std::ostringstream t; t << "(" << x << "," << y << ") ";
          Vector2d p(x, y), want = model(x, y), got = MsckfUpdater::Distort(p, in);
          c.Check((got - want).norm() < 1e-12, t.str() + "distorted point is not the lens model's");
          MatrixXd J(2, 2); MsckfUpdater::DistortionJacobian(p, in, J);
          const double d = 3e-4;
          auto df = [&](int k) {
              auto at = [&](double e) {return k ? model(x, y + e) : model(x + e, y);};
              return Vector2d((8 * (at(d) - at(-d)) - (at(2 * d) - at(-2 * d))) / (12 * d));
            };
          c.Check(J.rows() == 2 && J.cols() == 2 && (J.col(0) - df(0)).norm() < 1e-8 && (J.col(1) - df(1)).norm() < 1e-8, t.str() + "distortion Jacobian is not the derivative of the distortion");
          for (double z : {0.4, 1.0, 7.0, -2.0}) {
            Vector3d q(x * 2, y * 3, z);
            Vector2d pr = MsckfUpdater::Project(q);
            c.Check((pr - Vector2d(q(0) / z, q(1) / z)).norm() < 1e-12, t.str() + "projection");
            MatrixXd P(2, 3); MsckfUpdater::ProjectionJacobian(q, P);
            Eigen::Matrix<double, 2, 3> W; W << 1 / z, 0, -q(0) / z / z, 0, 1 / z, -q(1) / z / z;
            c.Check((P - W).norm() < 1e-9, t.str() + "projection Jacobian is not the derivative of the projection");
          }
        }
      }
      c.Trace();
    });
  // --- marginalisation and compression
  unsigned maxm = R.thorough ? 24 : 14;
  R.Bound("track length", maxm);
  R.Parallel(maxm * 12 * 2, [&](size_t i, mc::Ctx & c) {
      int m = 2 * static_cast<int>(2 + i % maxm), n = 1 + 5 * static_cast<int>(i / maxm % 12), kind = static_cast<int>(i / maxm / 12);
      std::ostringstream k; k << "nullspace " << m << "x" << n << (kind ? " scaled" : "");
      if (!R.Selected(k.str())) {return;}
      c.Key(k.str());
      MatrixXd Hf = Fill(m, 3, n), Hx = Fill(m, n, 7), Hx0; VectorXd r = Fill(m, 1, 3), r0;
      if (kind) {Hf.col(2) *= 1e-3; Hf.col(0) *= 40;}
      Hx0 = Hx; r0 = r;
      ApplyLeftNullspace(Hf, Hx, r);
      c.Transition(); c.Eval(); c.State(mc::Hash().m(Hf).m(Hx0).h); c.Trace();
      c.Check(Hx.rows() == m - 3 && r.size() == m - 3 && Hx.cols() == n, "wrong number of rows remains");
      if (Hx.rows() != m - 3) {return;}
      // any orthonormal complement gives the same information
      Eigen::JacobiSVD<MatrixXd> svd(Hf, Eigen::ComputeFullU);
      MatrixXd N = svd.matrixU().rightCols(m - 3);
      MatrixXd A0 = Hx0.transpose() * N * N.transpose() * Hx0, A = Hx.transpose() * Hx;
      VectorXd b0 = Hx0.transpose() * N * N.transpose() * r0, b = Hx.transpose() * r;
      c.Check((A - A0).cwiseAbs().maxCoeff() < 1e-9 * (1 + A0.cwiseAbs().maxCoeff()), "information about the state changed by feature elimination");
      c.Check((b - b0).cwiseAbs().maxCoeff() < 1e-9 * (1 + b0.cwiseAbs().maxCoeff()), "information vector changed by feature elimination");
      c.Check(std::abs(r.squaredNorm() - (N.transpose() * r0).squaredNorm()) < 1e-9 * (1 + r0.squaredNorm()), "residual norm changed");
      // a pure feature error leaves no residual
      MatrixXd Hz = Hx0; VectorXd rz = Hf * Vector3d(0.3, -0.7, 0.2);
      ApplyLeftNullspace(Hf, Hz, rz);
      c.Check(rz.norm() < 1e-9 * (1 + Hf.norm()), "a feature position error leaks into the residual");
    });
  int maxr = R.thorough ? 40 : 26, maxc = R.thorough ? 16 : 11;
  R.Bound("compressed rows", maxr); R.Bound("compressed columns", maxc);
  R.Parallel(maxr * maxc * 4, [&](size_t i, mc::Ctx & c) {
      int m = 1 + static_cast<int>(i % maxr), n = 1 + static_cast<int>(i / maxr % maxc), kind = static_cast<int>(i / maxr / maxc);
      const char * kn[] = {"full rank", "zero columns", "repeated rows", "zero rows"};
      std::ostringstream k; k << "compress " << m << "x" << n << " " << kn[kind];
      if (!R.Selected(k.str())) {return;}
      c.Key(k.str());
      MatrixXd H = Fill(m, n, kind); VectorXd r = Fill(m, 1, 5 + kind);
      if (kind == 1) {for (int j = 0; j < n; j += 2) {H.col(j).setZero();}}
      if (kind == 2) {for (int q = 0; q < m; ++q) {H.row(q) = H.row(q % 2).eval();}}
      if (kind == 3) {for (int q = m / 2; q < m; ++q) {H.row(q).setZero(); r(q) = 0;}}
      MatrixXd A0 = H.transpose() * H; VectorXd b0 = H.transpose() * r; double s0 = r.squaredNorm();
      CompressMeasurements(H, r);
      c.Transition(); c.Eval(); c.State(mc::Hash().m(A0).m(b0).u(i).h); c.Trace();
      c.Check(H.rows() == r.size() && H.cols() == n && H.rows() <= m, "inconsistent size after compression");
      if (H.rows() != r.size() || H.cols() != n) {return;}
      if (m >= n) {c.Check(H.rows() <= n, "more rows than states remain after compression");}
      MatrixXd A = H.transpose() * H; VectorXd b = H.transpose() * r;
      c.Check((A - A0).cwiseAbs().maxCoeff() < 1e-9 * (1 + A0.cwiseAbs().maxCoeff()), "information changed by compression");
      c.Check((b - b0).cwiseAbs().maxCoeff() < 1e-9 * (1 + b0.cwiseAbs().maxCoeff()), "information vector changed by compression");
      c.Check(r.squaredNorm() <= s0 + 1e-9, "residual grew by compression");
    });
  // every small matrix over a few entries: all patterns of dependent, zero and repeated rows and columns
  {
    std::vector<std::pair<int, int>> sizes = {{1, 1}, {2, 1}, {3, 1}, {2, 2}, {3, 2}, {4, 2}, {3, 3}};
    if (R.thorough) {sizes.push_back({5, 2}); sizes.push_back({4, 3});}
    R.Bound("small compressed matrices, largest", sizes.back().first * 10 + sizes.back().second);
    for (auto & sz : sizes) {
      const int m = sz.first, n = sz.second, cells = m * n;
      const double val[3] = {0, 1, -2};
      size_t total = 1; for (int q = 0; q < cells; ++q) {total *= 3;}
      size_t chunks = std::min<size_t>(total, 243);
      R.Parallel(chunks, [&, m, n, total, chunks](size_t ch, mc::Ctx & c) {
          for (size_t i = ch; i < total; i += chunks) {
            std::ostringstream k; k << "small " << m << "x" << n << " " << i;
            if (!R.Selected(k.str())) {continue;}
            c.Key(k.str());
            MatrixXd H(m, n); size_t q = i;
            for (int y = 0; y < m; ++y) {for (int x = 0; x < n; ++x) {H(y, x) = val[q % 3]; q /= 3;}}
            VectorXd r(m); for (int y = 0; y < m; ++y) {r(y) = 0.5 + y * y - 1.7 * y;}
            MatrixXd A0 = H.transpose() * H; VectorXd b0 = H.transpose() * r; double s0 = r.squaredNorm();
            CompressMeasurements(H, r);
            c.Transition(); c.Eval(); c.State(mc::Hash().u(m).u(n).u(i).h);
            c.Check(H.rows() == r.size() && H.cols() == n && H.rows() <= std::min(m, n), "inconsistent size after compression");
            if (H.rows() != r.size() || H.cols() != n) {return;}
            c.Check(((H.transpose() * H) - A0).cwiseAbs().maxCoeff() < 1e-8 * (1 + A0.cwiseAbs().maxCoeff()), "information changed by compression");
            c.Check(((H.transpose() * r) - b0).cwiseAbs().maxCoeff() < 1e-8 * (1 + b0.cwiseAbs().maxCoeff()), "information vector changed by compression");
            c.Check(r.squaredNorm() <= s0 + 1e-9, "residual grew by compression");
          }
          c.Trace();
        });
    }
  }
  // --- triangulation on the real filter
  struct Case {std::string n; Vector3d bearing; double depth; int ok;};   // ok 1: accepted, 0: rejected
  std::vector<Case> feats;
  for (double u : {-0.5, 0.0, 0.35}) {
    for (double v : {-0.4, 0.05, 0.3}) {
      for (double z : {0.1, 0.35, 0.7, 2.0, 6.0, 30.0, 90.0, 130.0, -4.0}) {
        std::ostringstream o; o << "bearing " << u << "," << v << " depth " << z;
        feats.push_back({o.str(), Vector3d(u, v, 1), z, z >= 0.5 && z <= 100});
      }
    }
  }
  std::vector<Vector3d> cam_rot = {{0, 0, 0}, {0.5, -0.8, 1.1}, {-2.0, 0.4, 0.9}};
  std::vector<std::pair<AugmentationType, std::string>> augs = {{AugmentationType::ALL, "ALL"}, {AugmentationType::PRIMARY, "PRIMARY"}, {AugmentationType::TIME, "TIME"}, {AugmentationType::ERROR, "ERROR"}};
  unsigned maxlen = R.thorough ? 9 : 7;
  R.Bound("features", feats.size()); R.Bound("frames", maxlen);
  // subset of frames with at least two members
  std::vector<unsigned> subs;
  for (unsigned s = 0; s < (1u << maxlen); ++s) {if (__builtin_popcount(s) >= 2) {subs.push_back(s);}}
  R.Parallel(augs.size() * cam_rot.size() * 2 * 2, [&](size_t i, mc::Ctx & c) {
      auto & ag = augs[i % 4]; Vector3d rot = cam_rot[i / 4 % 3]; bool second = i / 12 % 2, square = i / 24;
      for (size_t fi = 0; fi < feats.size(); ++fi) {
        std::string base = ag.second + " rot" + std::to_string(i / 4 % 3) + (second ? " second" : " first") + (square ? " square" : " wide") + " " + feats[fi].n;
        EKF::Parameters p; p.debug_logger = std::make_shared<DebugLogger>(LogLevel::FATAL, "");
        p.augmenting_type = ag.first; p.augmenting_delta_time = 0.3; p.augmenting_pos_error = 1e-6; p.augmenting_ang_error = 1e-6;
        p.process_noise = VectorXd::Constant(18, 1e-3);
        EKF e(p);
        e.SetMaxTrackLength(20);
        CamState cs = World::Cam(8, true);
        cs.ang_c_to_b = Exp(rot); cs.pos_c_in_b = Vector3d(0.2, -0.1, 0.3);
        cs.intrinsics.width = 640; cs.intrinsics.height = square ? 640 : 480; cs.intrinsics.f_y = square ? 0.01 : 0.012;
        CamState other = World::Cam(2, false);
        // the first registered camera is the primary one
        if (second) {e.RegisterCamera(2, other, MatrixXd::Identity(6, 6) * 1e-3);}
        e.RegisterCamera(8, cs, MatrixXd::Identity(6, 6) * 1e-3);
        if (!second) {e.RegisterCamera(2, other, MatrixXd::Identity(6, 6) * 1e-3);}
        MsckfUpdater up(8, true, "", 0.0, 0.5, p.debug_logger);
        // the body moves with constant velocity and rate, so interpolated poses are exact as well
        BodyState b; b.pos_b_in_l = Vector3d(1, 2, 3); b.ang_b_to_l = Exp(Vector3d(0.3, 0.2, -0.4));
        const Vector3d vel = (b.ang_b_to_l * cs.ang_c_to_b) * Vector3d(0.8, 0.5, 0.05), om(0.02, -0.03, 0.04);
        e.Initialize(0.0, b);
        auto pose = [&](double t) {return Pose{b.pos_b_in_l + vel * t, Exp(om * t) * b.ang_b_to_l};};
        std::vector<std::pair<unsigned, double>> fr;
        unsigned id = 10;
        for (unsigned k = 0; k < maxlen; ++k) {
          double t = 0.25 * (k + 1);
          for (double u : {t - 0.125, t}) {
            e.PredictModel(u);
            Pose q = pose(u);
            e.m_state.body_state.pos_b_in_l = q.p; e.m_state.body_state.ang_b_to_l = q.q;
            e.m_state.body_state.vel_b_in_l = vel; e.m_state.body_state.ang_vel_b_in_l = om;
            e.m_state.body_state.acc_b_in_l.setZero(); e.m_state.body_state.ang_acc_b_in_l.setZero();
            if (u == t) {e.AugmentStateIfNeeded(8, ++id); fr.push_back({id, t}); e.PredictModel(u);} else {e.AugmentStateIfNeeded(2, ++id); e.PredictModel(u);}
          }
        }
        bool stop = false;
        for (unsigned s : subs) {
          std::string key = base + " frames " + std::to_string(s);
          if (!R.Selected(key)) {continue;}
          c.Key(key);
          FeatureTrack tr;
          bool have = false, front = true;
          Vector3d f;
          for (unsigned k = 0; k < maxlen; ++k) {
            if (!(s >> k & 1)) {continue;}
            Pose q = pose(fr[k].second);
            if (ag.first != AugmentationType::ALL || second) {
              // poses the filter stores or interpolates (verified by C05)
              AugState a = e.GetAugState(8, fr[k].first, fr[k].second); q = Pose{a.pos_b_in_l, a.ang_b_to_l};
            }
            if (!have) {have = true; f = q.p + q.q * (cs.pos_c_in_b + cs.ang_c_to_b * (feats[fi].bearing * feats[fi].depth));}
            Vector3d x = cs.ang_c_to_b.conjugate() * (q.q.conjugate() * (f - q.p) - cs.pos_c_in_b);
            front = front && x(2) * feats[fi].depth > 0.02;
            cv::KeyPoint kp; kp.class_id = 5;
            const auto & in = cs.intrinsics;
            kp.pt.x = static_cast<float>(x(0) / x(2) * in.f_x / in.pixel_size + in.width / 2);
            kp.pt.y = static_cast<float>(x(1) / x(2) * in.f_y / in.pixel_size + in.height / 2);
            tr.track.push_back({fr[k].first, fr[k].second, kp});
          }
          if (!front) {c.Count("skipped: feature crosses the image plane"); continue;}
          Vector3d got(7, 7, 7);
          State before = e.m_state; MatrixXd P = e.m_cov;
          bool ok = up.TriangulateFeature(1.0, e, tr, got);
          c.Transition(); c.Eval(); c.State(mc::Hash().m(f).u(s).u(i).h);
          if (ok != (feats[fi].ok == 1)) {c.Fail(ok ? "a feature outside the accepted depth range is used" : "a feature inside the accepted depth range is rejected"); stop = true; break;}
          // pixels are stored in single precision: the error grows with the square of the depth over the baseline
          double z = std::abs(feats[fi].depth);
          double tol = 1e-6 + 2e-6 * z * z / 0.2;
          if (ok && !((got - f).norm() < tol)) {std::ostringstream o; o << "triangulated " << got.transpose() << " instead of " << f.transpose(); c.Fail(o.str()); stop = true; break;}
          if (ok) {c.Count("triangulated");} else {c.Count("rejected");}
          if ((e.m_cov - P).norm() != 0 || (e.m_state.ToVector() - before.ToVector()).norm() != 0) {c.Fail("triangulation changed the filter"); stop = true; break;}
          // a known position is taken as is
          tr.true_feature_position = Vector3d(3, -2, 1);
          ok = up.TriangulateFeature(1.0, e, tr, got);
          if (!ok || got != tr.true_feature_position) {c.Fail("a known feature position is not used"); stop = true; break;}
          c.Trace();
        }
        if (stop) {return;}
      }
      c.Sample(ag.second);
    });
  return R.Finish();
}
