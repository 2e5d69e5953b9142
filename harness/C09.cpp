// C09: the measurement update, in both covariance forms.
#include "ref_ekf.hpp"
using namespace ref;

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C09");
  std::vector<std::vector<Op>> regs = {
    {},
    {{"I", 'I', 4, 3}},
    {{"I", 'I', 4, 2}, {"I", 'I', 2, 1}, {"G", 'G', 3, 1}, {"C8", 'C', 8, 1, 4.0}, {"B", 'B', 5, 1}, {"f8", 'F', 8},
      {"p", 'P', 0, 0, 0.2}, {"f8", 'F', 8}},
    {{"C8", 'C', 8, 0, 4.0}, {"f8", 'F', 8}, {"p", 'P', 0, 0, 0.2}, {"f8", 'F', 8}}};
  // one measurement: rows, which part of the state it sees, noise form, residual size
  struct Meas {unsigned rows; int part; int noise; double res; bool rank1;};
  std::vector<Meas> M;
  for (unsigned rows : {1u, 2u, 3u, 6u}) {
    for (int part : {0, 1, 2}) {
      for (int noise : {0, 1, 2}) {
        for (double res : {0.0, 0.05, 1.5}) {M.push_back({rows, part, noise, res, false});}
      }
    }
  }
  M.push_back({4, 1, 0, 0.3, true});    // linearly dependent rows
  M.push_back({30, 1, 1, 0.1, false});  // more rows than states
  M.push_back({3, 3, 0, 0.2, false});   // a measurement that sees nothing
  R.rule = "every measurement shape (rows 1..6 and 30; whole state, body only, one sensor block, nothing; diagonal, "
    "correlated and tiny noise; zero, small and large residual; rank deficient), alone and in all ordered pairs, on "
    "every sensor set and both covariance forms; state, joint covariance and 'never grows' checked after every update";
  R.Bound("measurement shapes", M.size()); R.Bound("sensor sets", regs.size()); R.Bound("updates per history", "1..2 (3 thorough)");
  auto apply = [&](Machine & m, const Meas & q, unsigned salt, mc::Ctx & c, const std::string & t) {
      unsigned n = m.model.Size();
      MatrixXd H = MatrixXd::Zero(q.rows, n), Rn(q.rows, q.rows); VectorXd r(q.rows);
      unsigned o0 = 0, o1 = n;
      if (q.part == 1) {o1 = 18;}
      if (q.part == 2) {
        size_t b = m.model.blocks.size() - 1;
        o0 = m.model.Offset(b); o1 = o0 + m.model.blocks[b].size;
      }
      if (q.part == 3) {o1 = 0;}
      for (unsigned i = 0; i < q.rows; ++i) {
        for (unsigned j = o0; j < o1; ++j) {H(i, j) = q.rank1 ? W(salt, j) * (1 + i) : W(i + 7 * salt, j);}
        r[i] = q.res * W(i + 3, salt);
      }
      MatrixXd B(q.rows, q.rows);
      for (unsigned i = 0; i < q.rows; ++i) {for (unsigned j = 0; j < q.rows; ++j) {B(i, j) = 0.2 * W(i, j + 2);}}
      Rn = MatrixXd::Identity(q.rows, q.rows) * 0.05;
      if (q.noise == 1) {Rn += B * B.transpose();}
      if (q.noise == 2) {Rn *= 1e-4;}
      std::vector<int> map; std::string why;
      if (!ScalarMap(m.model, *m.impl, map, why)) {c.Fail(t + ": " + why); return false;}
      MatrixXd Hi = MatrixXd::Zero(H.rows(), H.cols());
      for (size_t j = 0; j < map.size(); ++j) {Hi.col(map[j]) = H.col(static_cast<long>(j));}
      MatrixXd before = FullCov(*m.impl);
      Updater::KalmanUpdate(*m.impl, Hi, r, Rn);
      m.model.Update(H, r, Rn);
      c.Transition(); c.State(m.model.HashState());
      bool root = m.impl->GetUseRootCovariance();
      double tol = root ? 1e-6 : 1e-7;
      if (!CompareState(c, m.model, *m.impl, tol, t)) {return false;}
      if (!CompareCov(c, m.model, *m.impl, tol, t)) {return false;}
      MatrixXd after = FullCov(*m.impl);
      double sc = before.cwiseAbs().maxCoeff();
      if (!((after - after.transpose()).cwiseAbs().maxCoeff() <= 1e-9 * sc)) {c.Fail(t + ": covariance not symmetric"); return false;}
      Eigen::SelfAdjointEigenSolver<MatrixXd> es(0.5 * (after + after.transpose()));
      if (!(es.eigenvalues().minCoeff() >= -1e-9 * sc)) {c.Fail(t + ": covariance not positive semi-definite"); return false;}
      MatrixXd D = before - after;
      Eigen::SelfAdjointEigenSolver<MatrixXd> ed(0.5 * (D + D.transpose()));
      if (!(ed.eigenvalues().minCoeff() >= -1e-8 * sc)) {c.Fail(t + ": covariance grew in an update"); return false;}
      return true;
    };
  size_t nm = M.size();
  auto name = [&](size_t q) {
      std::ostringstream o;
      o << "rows" << M[q].rows << ".part" << M[q].part << ".noise" << M[q].noise << ".res" << M[q].res;
      return o.str();
    };
  auto hist = [&](size_t ri, bool root, const std::vector<size_t> & q, mc::Ctx & c) {
      std::string key = "sensors" + std::to_string(ri) + (root ? "/root:" : "/full:");
      for (auto x : q) {key += " " + name(x);}
      if (!R.Selected(key)) {return;}
      c.Key(key);
      Machine m(BaseParams(root, AugmentationType::ALL));
      m.Apply({"M", 'M', 3}); m.Apply({"Y", 'Y'});
      for (auto & o : regs[ri]) {m.Apply(o);}
      for (size_t k = 0; k < q.size(); ++k) {
        if (!apply(m, M[q[k]], static_cast<unsigned>(k + q[k]), c, "update " + std::to_string(k))) {break;}
      }
      c.Trace(); c.Sample(key);
    };
  R.Parallel(nm * regs.size() * 2, [&](size_t i, mc::Ctx & c) {hist(i / 2 % regs.size(), i % 2, {i / 2 / regs.size()}, c);});
  R.Parallel(nm * nm * 2, [&](size_t i, mc::Ctx & c) {
      size_t j = i / 2; hist(j % 2 ? 2 : 3, i % 2, {j % nm, j / nm}, c);
    });
  if (R.thorough) {
    size_t st = 5, n3 = (nm + st - 1) / st;
    R.Parallel(n3 * n3 * n3 * 4, [&](size_t i, mc::Ctx & c) {
        size_t j = i / 4;
        hist(i % 4 / 2 ? 2 : 1, i % 2, {j % n3 * st, j / n3 % n3 * st, j / n3 / n3 * st}, c);
      });
  }
  return R.Finish();
}
