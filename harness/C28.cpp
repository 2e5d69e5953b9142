// C28: matrix helpers the filter is built on: insertion, removal, square roots and stacking.
#include "mc.hpp"
#include "utility/math_helper.hpp"
#include "utility/string_helper.hpp"
#include "utility/type_helper.hpp"

using Eigen::MatrixXd;
using Eigen::VectorXd;
using Eigen::Vector3d;

static MatrixXd Label(int r, int c, double s)
{
  MatrixXd m(r, c);
  for (int i = 0; i < r; ++i) {for (int j = 0; j < c; ++j) {m(i, j) = s + 100 * i + j;}}
  return m;
}
static bool Upper(const MatrixXd & m)
{
  for (int i = 0; i < m.rows(); ++i) {for (int j = 0; j < i && j < m.cols(); ++j) {if (m(i, j) != 0.0) {return false;}}}
  return m.rows() == m.cols();
}
static double Scale(const MatrixXd & m) {return m.size() ? m.cwiseAbs().maxCoeff() : 0.0;}

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C28");
  R.rule = "insertion and removal: every matrix shape, block shape and position up to the bound, entries labelled; square roots and "
    "stacking: every integer root matrix with entries -1, 0, 1 (all ranks, also zero), every pair of such blocks, scaled from 1e-8 to "
    "1e8, every removal from them; every word of insertions and removals on a covariance and on its root in lockstep with a model that "
    "marginalises; lower bounds, skew matrices and comma-separated text over grids of values";
  const int N = R.thorough ? 10 : 8;
  R.Bound("matrix size", N);
  // --- insertion and removal, entry by entry
  R.Parallel((N + 1) * (N + 1), [&](size_t q, mc::Ctx & c) {
      const int r = static_cast<int>(q % (N + 1)), k = static_cast<int>(q / (N + 1));
      std::string key = "blocks " + std::to_string(r) + "x" + std::to_string(k);
      if (!R.Selected(key)) {return;}
      c.Key(key);
      const MatrixXd in = Label(r, k, 1);
      for (int sr = 0; sr <= 4; ++sr) {
        for (int sc = 0; sc <= 4; ++sc) {
          const MatrixXd sub = Label(sr, sc, -5000);
          for (int row = 0; row <= r; ++row) {
            for (int col = 0; col <= k; ++col) {
              std::ostringstream t; t << "insert " << sr << "x" << sc << " at " << row << "," << col << ": ";
              MatrixXd o = InsertInMatrix(sub, in, row, col);
              c.Transition(); c.Eval(); c.State(mc::Hash().u(r).u(k).u(sr).u(sc).u(row).u(col).h);
              if (!c.Check(o.rows() == r + sr && o.cols() == k + sc, t.str() + "wrong size")) {return;}
              for (int i = 0; i < o.rows(); ++i) {
                for (int j = 0; j < o.cols(); ++j) {
                  bool ri = i >= row && i < row + sr, cj = j >= col && j < col + sc;
                  double want = ri && cj ? sub(i - row, j - col) : ri || cj ? 0.0 : in(i < row ? i : i - sr, j < col ? j : j - sc);
                  if (!c.Check(o(i, j) == want, t.str() + "wrong entry")) {return;}
                }
              }
            }
          }
        }
      }
      for (int row = 0; row <= r; ++row) {
        for (int col = 0; col <= k; ++col) {
          for (int size = 0; row + size <= r && col + size <= k; ++size) {
            std::ostringstream t; t << "remove " << size << " at " << row << "," << col << ": ";
            MatrixXd o = RemoveFromMatrix(in, row, col, size);
            c.Transition(); c.Eval(); c.State(mc::Hash().u(r).u(k).u(size).u(row).u(col).u(99).h);
            if (!c.Check(o.rows() == r - size && o.cols() == k - size, t.str() + "wrong size")) {return;}
            for (int i = 0; i < o.rows(); ++i) {
              for (int j = 0; j < o.cols(); ++j) {
                if (!c.Check(o(i, j) == in(i < row ? i : i + size, j < col ? j : j + size), t.str() + "wrong entry")) {return;}
              }
            }
          }
        }
      }
      c.Trace();
    });
  // --- square roots: every covariance with an integer root
  const int n3 = 19683;   // 3^9
  const double scales[] = {1.0, 1e-8, 1e8};
  R.Bound("integer roots", n3 + 6561);
  auto Digits = [](int code, int rows, int cols) {
      MatrixXd m(rows, cols);
      for (int i = 0; i < rows; ++i) {for (int j = 0; j < cols; ++j) {m(i, j) = code % 3 - 1; code /= 3;}}
      return m;
    };
  auto Root = [&](mc::Ctx & c, const MatrixXd & m, int code) {
      for (double s : scales) {
        for (int mix = 0; mix < 2; ++mix) {
          // mixed: the last variable in other units
          MatrixXd a = m * s; if (mix) {a.col(a.cols() - 1) *= 1e-5;}
          MatrixXd p = a.transpose() * a;
          MatrixXd u = CovarianceSquareRoot(p);
          c.Transition(); c.Eval();
          std::ostringstream t; t << "root of case " << code << " scale " << s << (mix ? " mixed" : "") << ": ";
          if (!c.Check(u.rows() == p.rows() && Upper(u), t.str() + "not upper triangular")) {return;}
          MatrixXd d = u.transpose() * u - p;
          for (int i = 0; i < d.rows(); ++i) {
            for (int j = 0; j < d.cols(); ++j) {
              if (!c.Check(std::abs(d(i, j)) <= 1e-9 * std::sqrt(p(i, i) * p(j, j)) + 1e-14 * Scale(p), t.str() + "not the root of the covariance")) {return;}
            }
          }
          // removal of each block from the root is removal from the covariance
          for (int col = 0; col < a.cols(); ++col) {
            for (int size = 0; col + size < a.cols(); ++size) {
              MatrixXd v = RemoveFromRootMatrix(a, col, size), w = RemoveFromMatrix(p, col, col, size);
              c.Transition();
              if (!c.Check(v.rows() == a.cols() - size && Upper(v), t.str() + "root after removal is not upper triangular")) {return;}
              if (!c.Check(Scale(v.transpose() * v - w) <= 1e-9 * Scale(p), t.str() + "removal from the root is not removal from the covariance")) {return;}
            }
          }
          c.State(mc::Hash().m(p).h);
        }
      }
    };
  R.Parallel(81, [&](size_t q, mc::Ctx & c) {
      std::string key = "roots " + std::to_string(q);
      if (!R.Selected(key)) {return;}
      c.Key(key);
      for (int k = static_cast<int>(q); k < n3; k += 81) {Root(c, Digits(k, 3, 3), k);}
      // 4x2: a root with more rows than columns
      for (int k = static_cast<int>(q); k < 6561; k += 81) {Root(c, Digits(k, 4, 2), n3 + k);}
      c.Trace();
    });
  // --- stacking two blocks
  const int pairs = R.thorough ? 19683 : 6561;
  R.Parallel(81, [&](size_t q, mc::Ctx & c) {
      std::string key = "stack " + std::to_string(q);
      if (!R.Selected(key)) {return;}
      c.Key(key);
      for (int k = static_cast<int>(q); k < pairs; k += 81) {
        for (int rows = 0; rows <= 4; ++rows) {
          if (rows < 2) {continue;}
          const int cols = 2;
          for (int extra = 0; extra <= 2; ++extra) {
            MatrixXd all = Digits(k, 4, 2).topRows(rows), b = Digits(k / 27 + 7 * k, extra, cols);
            for (double s : {1.0, 1e-9, 1e6}) {
              MatrixXd u = QR_r(all, b * s);
              c.Transition(); c.Eval();
              MatrixXd want = all.transpose() * all + s * s * b.transpose() * b;
              if (!c.Check(u.rows() == cols && Upper(u) && Scale(u.transpose() * u - want) <= 1e-9 * Scale(want), "stacked root of case " + std::to_string(k) + " is not the root of the sum")) {return;}
            }
          }
        }
        c.State(mc::Hash().u(k).u(77).h);
      }
      c.Trace();
    });
  // --- words of insertions and removals, covariance and root in lockstep
  struct Op {int kind, size, pos;};   // kind 0: append at position, 1: remove
  std::vector<Op> ops;
  for (int size = 1; size <= 2; ++size) {for (int pos = 0; pos < 4; ++pos) {ops.push_back({0, size, pos}); ops.push_back({1, size, pos});}}
  const unsigned depth = R.thorough ? 6 : 5;
  R.Bound("word depth", depth);
  R.Parallel(ops.size() * ops.size(), [&](size_t q, mc::Ctx & c) {
      std::string key = "words " + std::to_string(q);
      if (!R.Selected(key)) {return;}
      c.Key(key);
      struct S {MatrixXd p, u; std::vector<int> names; int next;};
      std::function<void(const S &, unsigned, std::string)> go = [&](const S & s, unsigned d, std::string w) {
          c.State(mc::Hash().m(s.p).h);
          if (d == depth) {c.Trace(); return;}
          for (size_t o = 0; o < ops.size(); ++o) {
            if (d == 0 && o != q % ops.size()) {continue;}
            if (d == 1 && o != q / ops.size()) {continue;}
            const Op & op = ops[o]; const int n = static_cast<int>(s.p.rows());
            S t = s;
            if (op.kind == 0) {
              if (op.pos > n) {continue;}
              MatrixXd prior = MatrixXd::Identity(op.size, op.size) * (1 + s.next);
              t.p = InsertInMatrix(prior, s.p, op.pos, op.pos);
              t.u = QR_r(InsertInMatrix(CovarianceSquareRoot(prior), s.u, op.pos, op.pos), MatrixXd::Zero(0, n + op.size));
              for (int k = 0; k < op.size; ++k) {t.names.insert(t.names.begin() + op.pos + k, t.next);}
              t.next++;
              // correlate everything, as a correction does
              MatrixXd m = MatrixXd::Identity(n + op.size, n + op.size); m.row(0).setConstant(0.5); m(0, 0) = 1;
              t.p = m * t.p * m.transpose(); t.u = QR_r(t.u * m.transpose(), MatrixXd::Zero(0, n + op.size));
            } else {
              if (op.pos + op.size > n || n - op.size < 1) {continue;}
              t.p = RemoveFromMatrix(s.p, op.pos, op.pos, op.size);
              t.u = RemoveFromRootMatrix(s.u, op.pos, op.size);
              t.names.erase(t.names.begin() + op.pos, t.names.begin() + op.pos + op.size);
              MatrixXd want(t.names.size(), t.names.size());
              for (int i = 0; i < want.rows(); ++i) {
                for (int j = 0; j < want.cols(); ++j) {want(i, j) = s.p(i < op.pos ? i : i + op.size, j < op.pos ? j : j + op.size);}
              }
              if (!c.Check(t.p == want, w + " removal changed the remaining covariance")) {return;}
            }
            c.Transition(); c.Eval();
            if (!c.Check(Upper(t.u) && t.u.rows() == t.p.rows() && Scale(t.u.transpose() * t.u - t.p) <= 1e-9 * (1 + Scale(t.p)),
              w + " root and covariance part after operation " + std::to_string(o))) {return;}
            go(t, d + 1, w + " " + std::to_string(o));
          }
        };
      S s; s.p = MatrixXd::Identity(3, 3) * 2; s.p(0, 1) = s.p(1, 0) = 0.5; s.u = CovarianceSquareRoot(s.p); s.names = {0, 0, 0}; s.next = 1;
      go(s, 0, "word");
    });
  // --- lower bounds
  const double inf = std::numeric_limits<double>::infinity();
  const std::vector<double> vals = {-inf, -1.0, -1e-12, 0.0, 1e-6, 0.999999999, 1.0, 1.000000001, 5.0, inf};
  R.Parallel(vals.size(), [&](size_t q, mc::Ctx & c) {
      std::string key = "bound " + std::to_string(q);
      if (!R.Selected(key)) {return;}
      c.Key(key);
      for (unsigned len = 0; len <= 4; ++len) {
        unsigned words = 1; for (unsigned k = 0; k < len; ++k) {words *= vals.size();}
        for (unsigned w = 0; w < words; ++w) {
          VectorXd v(len); unsigned x = w;
          for (unsigned k = 0; k < len; ++k) {v(k) = vals[x % vals.size()]; x /= vals.size();}
          VectorXd o = v; MinBoundVector(o, vals[q]);
          c.Transition(); c.Eval(); c.State(mc::Hash().u(q).u(len).u(w).h);
          bool ok = o.size() == v.size();
          for (unsigned k = 0; ok && k < len; ++k) {ok = o(k) == std::max(v(k), vals[q]);}
          if (!c.Check(ok, "lower bound of a vector")) {return;}
        }
      }
      c.Trace();
    });
  // --- skew matrices and text
  R.Parallel(125, [&](size_t q, mc::Ctx & c) {
      std::string key = "vectors " + std::to_string(q);
      if (!R.Selected(key)) {return;}
      c.Key(key);
      const double v[] = {-3.25, -1e-7, 0.0, 2.0, 1234567.891};
      Vector3d a(v[q % 5], v[q / 5 % 5], v[q / 25]);
      Eigen::Matrix3d s = SkewSymmetric(a);
      c.Check(s == -s.transpose(), "skew matrix is not antisymmetric");
      for (double x : v) {
        for (double y : v) {
          for (double z : v) {
            Vector3d b(x, y, z);
            c.Transition(); c.Eval(); c.State(mc::Hash().m(a).m(b).h);
            if (!c.Check((s * b - a.cross(b)).norm() <= 1e-12 * (1 + a.norm() * b.norm()), "skew matrix times a vector is not the cross product")) {return;}
          }
        }
      }
      for (unsigned len = 0; len <= 3; ++len) {
        for (int digits : {0, 3, 6, 12, 17}) {
          VectorXd w = a.head(len);
          std::string t = digits ? VectorToCommaString(w, digits) : VectorToCommaString(w);
          c.Transition(); c.Eval();
          // one comma before every number
          std::stringstream in(t); std::string cell; std::vector<std::string> cells;
          while (std::getline(in, cell, ',')) {cells.push_back(cell);}
          if (!c.Check(len ? cells.size() == len + 1 && cells[0].empty() : t.empty(), "text of a vector has " + std::to_string(cells.size()) + " cells")) {return;}
          const int p = digits ? digits : 6;
          for (unsigned k = 0; k < len; ++k) {
            if (!c.Check(std::abs(std::stod(cells[k + 1]) - w(k)) <= std::pow(10.0, 1 - p) * std::abs(w(k)), "text of a vector has another value")) {return;}
          }
        }
        std::string h = EnumerateHeader("n" + std::to_string(q), len), want;
        for (unsigned k = 0; k < len; ++k) {want += ",n" + std::to_string(q) + "_" + std::to_string(k);}
        c.Check(h == want, "header is " + h);
      }
      Eigen::Quaterniond quat(0.1, a(0), a(1), a(2));
      Eigen::Vector4d wxyz(quat.w(), quat.x(), quat.y(), quat.z());
      c.Check(QuaternionToCommaString(quat) == VectorToCommaString(wxyz), "text of a quaternion is not w, x, y, z");
      std::vector<double> sv;
      for (unsigned len = 0; len <= 14; ++len) {
        VectorXd e = StdToEigVec(sv);
        bool ok = e.size() == len; for (unsigned k = 0; ok && k < len; ++k) {ok = e(k) == sv[k];}
        if (!c.Check(ok, "conversion of a list of " + std::to_string(len))) {return;}
        sv.push_back(a(len % 3) + len);
      }
      c.Trace();
    });
  return R.Finish();
}
