// C12: the packed state vector: packing, unpacking and corrections.
#include "world.hpp"
#include "ekf/types.hpp"
using namespace ref;

namespace
{
struct Item {char kind; unsigned id; int part; int comp;};   // where a vector entry lives

Vector3d V(unsigned salt) {return Vector3d(W(salt, 1) * 2, W(salt, 4) * 3, W(salt, 9));}
Quaterniond Q(unsigned salt, int mode)
{
  Vector3d a = Vector3d(W(salt, 2), W(salt, 5), W(salt, 7));
  if (mode == 0) {return Quaterniond::Identity();}
  if (mode == 1) {return Exp(0.4 * a);}
  if (mode == 2) {return Exp(3.0 * a.normalized());}        // large rotation
  return Exp(1e-7 * a);
}
}  // namespace

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C12");
  R.rule = "every state made of up to two IMUs (absent, or any calibration flags), two GPS, two cameras, two fiducials (absent, "
    "fixed, calibrated) and three clone arrangements, with identity, moderate, near-half-turn and tiny rotations: pack, unpack, "
    "pack again; corrections of every single component, of all components, and sequences of two";
  std::vector<int> imuopt = {-1, 0, 1, 2, 3}, opt = {-1, 0, 1};
  size_t n = 5 * 5 * 3 * 3 * 3 * 3 * 3 * 3 * 3;
  R.Bound("structures", n); R.Bound("rotation patterns", 4);
  R.Parallel(n, [&](size_t i, mc::Ctx & c) {
      size_t r = i;
      auto pick = [&](size_t m) {size_t v = r % m; r /= m; return static_cast<int>(v);};
      int i1 = imuopt[pick(5)], i2 = imuopt[pick(5)];
      int g1 = opt[pick(3)], g2 = opt[pick(3)], c1 = opt[pick(3)], c2 = opt[pick(3)], f1 = opt[pick(3)], f2 = opt[pick(3)], ag = pick(3);
      std::ostringstream ks;
      ks << "imu" << i1 << "," << i2 << " gps" << g1 << "," << g2 << " cam" << c1 << "," << c2 << " fid" << f1 << "," << f2 << " aug" << ag;
      std::string key = ks.str();
      if (!R.Selected(key)) {return;}
      c.Key(key);
      unsigned modes = 4;
      for (unsigned mm = 0; mm < modes; ++mm) {
        int mode = static_cast<int>(mm);
        State s;
        std::vector<Eigen::Vector3d *> P; std::vector<Eigen::Quaterniond *> A;   // in the order of the vector
        std::vector<std::pair<char, size_t>> order;                              // p: P index, a: A index
        std::vector<Eigen::Vector3d *> UP; std::vector<Eigen::Quaterniond *> UA; // not calibrated
        auto addp = [&](Vector3d & v, bool cal) {if (cal) {order.push_back({'p', P.size()}); P.push_back(&v);} else {UP.push_back(&v);}};
        auto adda = [&](Quaterniond & q, bool cal) {if (cal) {order.push_back({'a', A.size()}); A.push_back(&q);} else {UA.push_back(&q);}};
        auto & b = s.body_state;
        addp(b.pos_b_in_l, true); addp(b.vel_b_in_l, true); addp(b.acc_b_in_l, true); adda(b.ang_b_to_l, true);
        addp(b.ang_vel_b_in_l, true); addp(b.ang_acc_b_in_l, true);
        for (auto x : {std::make_pair(7u, i1), std::make_pair(3u, i2)}) {
          if (x.second >= 0) {s.imu_states[x.first].SetIsExtrinsic(x.second & 1); s.imu_states[x.first].SetIsIntrinsic(x.second & 2);}
        }
        for (auto x : {std::make_pair(9u, g1), std::make_pair(2u, g2)}) {if (x.second >= 0) {s.gps_states[x.first].SetIsExtrinsic(x.second);}}
        for (auto x : {std::make_pair(8u, c1), std::make_pair(5u, c2)}) {if (x.second >= 0) {s.cam_states[x.first].SetIsExtrinsic(x.second);}}
        for (auto x : {std::make_pair(6u, f1), std::make_pair(1u, f2)}) {
          if (x.second >= 0) {s.fid_states[x.first].SetIsExtrinsic(x.second); s.fid_states[x.first].id = x.first;}
        }
        if (ag == 1) {s.aug_states[0].resize(1);}
        if (ag == 2) {s.aug_states[8].resize(2); s.aug_states[5].resize(3); s.aug_states[6].resize(0);}
        for (auto & x : s.imu_states) {
          addp(x.second.pos_i_in_b, x.second.GetIsExtrinsic()); adda(x.second.ang_i_to_b, x.second.GetIsExtrinsic());
          addp(x.second.acc_bias, x.second.GetIsIntrinsic()); addp(x.second.omg_bias, x.second.GetIsIntrinsic());
        }
        for (auto & x : s.gps_states) {addp(x.second.pos_a_in_b, x.second.GetIsExtrinsic());}
        for (auto & x : s.cam_states) {addp(x.second.pos_c_in_b, x.second.GetIsExtrinsic()); adda(x.second.ang_c_to_b, x.second.GetIsExtrinsic());}
        for (auto & x : s.fid_states) {addp(x.second.pos_f_in_l, x.second.GetIsExtrinsic()); adda(x.second.ang_f_to_l, x.second.GetIsExtrinsic());}
        for (auto & kv : s.aug_states) {for (auto & a : kv.second) {addp(a.pos_b_in_l, true); adda(a.ang_b_to_l, true);}}
        unsigned salt = 1;
        for (auto * v : P) {*v = V(salt++);}
        for (auto * q : A) {*q = Q(salt++, mode);}
        for (auto * v : UP) {*v = V(salt++);}
        for (auto * q : UA) {*q = Q(salt++, mode);}
        unsigned size = static_cast<unsigned>(3 * order.size());
        c.Eval(); c.Transition();
        // sizes of the parts
        for (auto & x : s.imu_states) {
          unsigned want = 6u * (x.second.GetIsExtrinsic() + x.second.GetIsIntrinsic());
          if (x.second.size != want || x.second.ToVector().size() != static_cast<long>(want)) {c.Fail("IMU size"); return;}
        }
        for (auto & x : s.gps_states) {if (x.second.size != (x.second.GetIsExtrinsic() ? 3u : 0u)) {c.Fail("GPS size"); return;}}
        for (auto & x : s.cam_states) {if (x.second.size != (x.second.GetIsExtrinsic() ? 6u : 0u)) {c.Fail("camera size"); return;}}
        for (auto & x : s.fid_states) {if (x.second.size != (x.second.GetIsExtrinsic() ? 6u : 0u)) {c.Fail("fiducial size"); return;}}
        if (s.GetStateSize() != size) {c.Fail("state size " + std::to_string(s.GetStateSize()) + " instead of " + std::to_string(size)); return;}
        VectorXd v = s.ToVector();
        if (v.size() != size) {c.Fail("vector size"); return;}
        c.State(mc::Hash().m(v).u(i).h);
        auto seg = [&](const VectorXd & u, size_t k) {return Vector3d(u.segment<3>(static_cast<long>(3 * k)));};
        for (size_t k = 0; k < order.size(); ++k) {
          Vector3d want = order[k].first == 'p' ? *P[order[k].second] : Log(*A[order[k].second]);
          Vector3d got = seg(v, k);
          bool ok = order[k].first == 'p' ? got == want : AngDist(Exp(got), *A[order[k].second]) < 1e-7 && (got - want).norm() < 1e-6;
          if (!ok) {c.Fail("packed entry " + std::to_string(3 * k) + " does not hold its parameter"); return;}
        }
        // unpack a different vector, pack it again
        VectorXd u(size);
        for (unsigned k = 0; k < size; ++k) {u[k] = 0.7 * W(k + 3, 11);}
        std::vector<Vector3d> up; std::vector<Quaterniond> ua;
        for (auto * x : UP) {up.push_back(*x);}
        for (auto * x : UA) {ua.push_back(*x);}
        auto untouched = [&](const char * what) {
            for (size_t k = 0; k < UP.size(); ++k) {if (*UP[k] != up[k]) {c.Fail(std::string(what) + " changed a parameter that is not calibrated"); return false;}}
            for (size_t k = 0; k < UA.size(); ++k) {if (UA[k]->coeffs() != ua[k].coeffs()) {c.Fail(std::string(what) + " changed a rotation that is not calibrated"); return false;}}
            return true;
          };
        State keep = s;
        s.SetState(u);
        if (!untouched("unpacking")) {return;}
        for (size_t k = 0; k < order.size(); ++k) {
          bool ok = order[k].first == 'p' ? *P[order[k].second] == seg(u, k) : AngDist(*A[order[k].second], Exp(seg(u, k))) < 1e-7;
          if (!ok) {c.Fail("unpacked entry " + std::to_string(3 * k) + " went elsewhere"); return;}
        }
        if ((s.ToVector() - u).norm() > 1e-8) {c.Fail("packing after unpacking differs"); return;}
        s.SetState(v);
        if ((s.ToVector() - v).norm() > 1e-7) {c.Fail("unpacking the packed vector is not the identity"); return;}
        // corrections
        auto reset = [&]() {
            unsigned sl = 1;
            for (auto * x : P) {*x = V(sl++);}
            for (auto * q : A) {*q = Q(sl++, mode);}
          };
        auto correct = [&](const VectorXd & d, const char * what) {
            std::vector<Vector3d> p0; std::vector<Quaterniond> a0;
            for (auto * x : P) {p0.push_back(*x);}
            for (auto * x : A) {a0.push_back(*x);}
            s += d;
            c.Eval();
            if (!untouched(what)) {return false;}
            for (size_t k = 0; k < order.size(); ++k) {
              size_t z = order[k].second;
              if (order[k].first == 'p') {
                if (!((*P[z] - p0[z] - seg(d, k)).norm() < 1e-12)) {c.Fail(std::string(what) + ": entry " + std::to_string(3 * k) + " not added to its parameter"); return false;}
              } else if (!(AngDist(*A[z], a0[z] * Exp(seg(d, k))) < 1e-7) || !(std::abs(A[z]->norm() - 1) < 1e-9)) {
                c.Fail(std::string(what) + ": entry " + std::to_string(3 * k) + " not composed onto its rotation"); return false;
              }
            }
            return true;
          };
        reset();
        for (size_t k = 0; k < order.size(); ++k) {
          VectorXd d = VectorXd::Zero(size); d.segment<3>(static_cast<long>(3 * k)) = Vector3d(0.03, -0.02, 0.05);
          if (!correct(d, "single correction")) {return;}
        }
        // small ones are not lost
        reset();
        for (double size_of : {1e-8, 3e-7, 2e-5}) {
          VectorXd d(size);
          for (unsigned k = 0; k < size; ++k) {d[k] = size_of * (1 + 0.5 * W(k + 5, 13));}
          std::vector<Vector3d> p0; std::vector<Quaterniond> a0;
          for (auto * x : P) {p0.push_back(*x);}
          for (auto * x : A) {a0.push_back(*x);}
          s += d;
          for (size_t k = 0; k < order.size(); ++k) {
            size_t z = order[k].second;
            Vector3d moved = order[k].first == 'p' ? Vector3d(*P[z] - p0[z]) : Vector3d(2 * (a0[z].conjugate() * *A[z]).vec());
            if (order[k].first == 'a' && (a0[z].conjugate() * *A[z]).w() < 0) {moved = -moved;}
            if (!((moved - seg(d, k)).norm() < 1.5e-9)) {c.Fail("small correction: entry " + std::to_string(3 * k) + " is lost"); return;}
          }
        }
        reset();
        if (!correct(u, "full correction") || !correct(VectorXd(-0.3 * u), "second correction") || !correct(VectorXd::Zero(size), "zero correction")) {return;}
        // the per-section corrections agree with the whole
        reset();
        State whole = s; whole += u;
        State parts = s;
        long o = 18;
        parts.body_state += VectorXd(u.segment(0, 18));
        long ni = 0, nc = 0, ng = 0, nf = 0;
        for (auto & x : s.imu_states) {ni += x.second.size;}
        for (auto & x : s.gps_states) {ng += x.second.size;}
        for (auto & x : s.cam_states) {nc += x.second.size;}
        for (auto & x : s.fid_states) {nf += x.second.size;}
        long oi = o;
        for (auto & x : parts.imu_states) {ImuState one = x.second; one += VectorXd(u.segment(oi, x.second.size)); oi += x.second.size;
          VectorXd e1 = one.ToVector(), e2 = whole.imu_states[x.first].ToVector();
          if (e1.size() && (e1 - e2).norm() > 1e-9) {c.Fail("single IMU correction differs from the state correction"); return;}
        }
        parts.imu_states += VectorXd(u.segment(o, ni));
        parts.cam_states += VectorXd(u.segment(o + ni + ng, nc));
        long oa = o + ni + ng + nc + nf;
        for (auto & kv : parts.aug_states) {
          long na = 6 * static_cast<long>(kv.second.size());
          kv.second += VectorXd(u.segment(oa, na)); oa += na;
        }
        for (auto & x : parts.gps_states) {x.second = whole.gps_states[x.first];}
        for (auto & x : parts.fid_states) {x.second = whole.fid_states[x.first];}
        if ((parts.ToVector() - whole.ToVector()).norm() > 1e-9) {c.Fail("per-section corrections differ from the state correction"); return;}
        // adding two states
        reset();
        State other = keep; other.SetState(u);
        std::vector<Vector3d> p0; std::vector<Quaterniond> a0;
        for (auto * x : P) {p0.push_back(*x);}
        for (auto * x : A) {a0.push_back(*x);}
        s += other;
        for (size_t k = 0; k < order.size(); ++k) {
          size_t z = order[k].second;
          bool ok = order[k].first == 'p' ? (*P[z] - p0[z] - seg(u, k)).norm() < 1e-12 : AngDist(*A[z], Exp(seg(u, k)) * a0[z]) < 1e-7;
          if (!ok) {c.Fail("adding two states: entry " + std::to_string(3 * k) + " not added or composed"); return;}
        }
        if ((other.ToVector() - u).norm() > 1e-8) {c.Fail("adding two states changed the added one"); return;}
        c.Transition(6);
      }
      c.Trace(); c.Sample(key);
    });
  return R.Finish();
}
