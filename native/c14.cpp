#include "mk.hpp"
#include <set>
using namespace Aux;
struct Op { int r, c; double v; };
static std::string text(std::vector<Op> const &o) { std::ostringstream s; for (auto &x : o) s << "(" << x.r << "," << x.c << ")+=" << x.v << " "; return s.str(); }
static std::vector<Op> ops(int R, int C, int n, std::vector<Op> const *pattern) {
  std::vector<Op> o;
  for (int i = 0; i < n; ++i) {
    int r = ri(0, R - 1), c = ri(0, C - 1);
    if (pattern && !pattern->empty() && ri(0, 3)) { auto &p = (*pattern)[ri(0, pattern->size() - 1)]; r = p.r; c = p.c; }
    o.push_back({r, c, (double)ri(-8, 8)});
  }
  return o;
}
template <int T> void run(int R, int C) {
  Eigen::SparseMatrix<double> M(T ? C : R, T ? R : C);
  std::string hist = str(T ? "transposed" : "plain", R, "x", C, "");
  auto want = [&](std::vector<Op> const &o) { MatrixXd D = MatrixXd::Zero(R, C); for (auto &x : o) D(x.r, x.c) += x.v; return D; };
  auto have = [&] { MatrixXd D(M); return MatrixXd(T ? MatrixXd(D.transpose()) : D); };
  std::vector<Op> first = ops(R, C, ri(0, 8), nullptr);
  {
    Triplethandler<T> h(M);
    Matrixhandler &b = h;
    for (auto &x : first) b.add_to_coefficient(x.r, x.c, x.v);
    b.set_matrix();
    hist += "triplets " + text(first);
    check(have() == want(first), "matrix built from triplets", hist);
    std::set<std::pair<int, int>> places;
    for (auto &x : first) places.insert({x.r, x.c});
    check(M.nonZeros() == (Index)places.size(), "every position contributed to has its place in the structure", hist);
    if (ri(0, 3) == 0) {     // the handler forgets what it was given
      M.setZero();
      std::vector<Op> again = ops(R, C, ri(0, 4), nullptr);
      for (auto &x : again) b.add_to_coefficient(x.r, x.c, x.v);
      b.set_matrix();
      hist += "again " + text(again);
      check(have() == want(again), "second build with the same handler", hist);
      first = again;
    }
  }
  for (int round = 0; round < 3; ++round) {
    Coeffrefhandler<T> h(M);
    Matrixhandler &b = h;
    check(have().isZero(0), "a new in-place handler starts from zero", hist);
    std::vector<Op> o = ops(R, C, ri(0, 8), &first);
    for (auto &x : o) b.add_to_coefficient(x.r, x.c, x.v);
    if (ri(0, 1)) b.set_matrix();
    hist += "; in place " + text(o);
    check(have() == want(o), "matrix updated in place", hist);
  }
  int bad[4][2] = {{-1, 0}, {0, -1}, {R, 0}, {0, C}};
  if (ri(0, 60) == 0)
    for (auto &x : bad) {
      check(outcome([&] { Eigen::SparseMatrix<double> Z(T ? C : R, T ? R : C); Triplethandler<T> h(Z); h.add_to_coefficient(x[0], x[1], 1.0); }) != 0, "a position outside the matrix is refused", hist + str("triplet", x[0], x[1]));
      check(outcome([&] { Eigen::SparseMatrix<double> Z(T ? C : R, T ? R : C); Coeffrefhandler<T> h(Z); h.add_to_coefficient(x[0], x[1], 1.0); }) != 0, "a position outside the matrix is refused", hist + str("in place", x[0], x[1]));
    }
}
int main(int argc, char **argv) {
  MAIN(argc, argv)
  for (long c = 0; c < N * 20; ++c) { run<0>(ri(1, 4), ri(1, 4)); run<1>(ri(1, 4), ri(1, 4)); }
  return finish();
}
