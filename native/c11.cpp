#include "h.hpp"
#include "ConstraintJacobian.hpp"
#include <memory>
using Eigen::Index;
using Eigen::VectorXd;
using namespace Optimization;
static VectorXd times(int n) {
  VectorXd t(n);
  int x = ri(-2, 3);
  for (int i = 0; i < n; ++i) { t[i] = x * 0.5; x += ri(0, 3) ? ri(1, 3) : 0; }
  return t;
}
int main(int argc, char **argv) {
  MAIN(argc, argv)
  for (long c = 0; c < N * 10; ++c) {
    int m = ri(0, 6), n = ri(1, 6), bh = ri(0, 3), bw = ri(0, 3);
    VectorXd ct = times(m), ut = times(n);
    std::ostringstream o;
    o << "constraint times " << ct.transpose() << " control times " << ut.transpose() << " block " << bh << "x" << bw << " ";
    std::string in = o.str();
    ConstraintJacobian J(bh, bw, ct, ut);
    // reference: (row, column) pairs in storage order
    std::vector<std::pair<int, int>> ref;
    std::vector<std::vector<int>> rows(n);
    for (int j = 0; j < n; ++j)
      for (int k = 0; k < m; ++k)
        if (j == 0 || ct[k] > ut[j - 1]) {
          rows[j].push_back(k);
          for (int a = 0; a < bh; ++a) for (int b = 0; b < bw; ++b) ref.emplace_back(k * bh + a, j * bw + b);
        }
    if (!check(J.nonZeros() == (Index)ref.size(), "number of entries", in + str("got", J.nonZeros(), "expected", ref.size()))) continue;
    if (outcome([&] {
          Eigen::VectorX<Ipopt::Index> R(J.nonZeros()), C(J.nonZeros());
          J.supply_indices(R, C);
        }) != 0) { check(false, "supply_indices succeeds", in); continue; }
    Eigen::VectorX<Ipopt::Index> R(J.nonZeros()), C(J.nonZeros());
    R.setConstant(-7); C.setConstant(-7);
    J.supply_indices(R, C);
    bool ok = true;
    for (Index i = 0; i < J.nonZeros(); ++i) ok = ok && R[i] == ref[i].first && C[i] == ref[i].second;
    check(ok, "rows and columns of the values", in);
    check(J.get_inner_height() == m * bh && J.get_inner_width() == n * bw && J.get_outer_height() == m && J.get_outer_width() == n && J.get_block_height() == bh && J.get_block_width() == bw && J.get_block_size() == bh * bw, "dimensions", in);
    VectorXd store = VectorXd::Zero(J.nonZeros() + 1), store2 = VectorXd::Zero(J.nonZeros() + 1);
    MappedConstraintJacobian K(store.data(), J.nonZeros(), bh, bw, ct, ut);
    J.setZero();
    Eigen::MatrixXd D = Eigen::MatrixXd::Zero(m * bh, n * bw);
    Index p = 0;
    for (int j = 0; j < n; ++j) {
      auto B = J.get_column_block(j);
      int h = rows[j].size();
      int r0 = h ? rows[j][0] : m;
      if (!check(B.rows() == h * bh && B.cols() == bw, "shape of a block", in + str("column", j))) continue;
      check(J.get_outer_col_height(j) == h && J.get_inner_col_height(j) == h * bh && J.get_outer_rowstart(j) == r0 && J.get_inner_rowstart(j) == r0 * bh && J.get_outer_colstart(j) == j && J.get_inner_colstart(j) == j * bw
              && J.column_values_start(j) == p && J.column_values_end(j) == p + h * bh * bw && J.get_inner_column_offset(j) == p && J.get_outer_column_offset(j) * bh * bw == p, "dimensions of a block", in + str("column", j));
      for (int a = 0; a < h * bh; ++a)
        for (int b = 0; b < bw; ++b) {
          double x = 1 + p;
          VectorXd before = J.get_allvalues();
          B(a, b) = x;
          VectorXd after = J.get_allvalues();
          before[p] = x;
          check(before == after, "writing an entry of a block changes its value only", in + str("column", j, "entry", a, b));
          D(r0 * bh + a, j * bw + b) = x;
          ++p;
        }
    }
    check(J.whole_matrix() == D, "dense matrix", in);
    ConstraintJacobian const &CJ = J;
    for (int j = 0; j < n; ++j) check(CJ.get_column_block(j) == J.get_column_block(j), "const access", in);
    K = J;
    check(K == J && K.whole_matrix() == D && store.head(J.nonZeros()) == J.get_allvalues(), "assignment to a mapped Jacobian", in);
    ConstraintJacobian J2(bh, bw, ct, ut), J3(K);
    J2 = K;
    check(J2 == J && J3 == J && !(J2 != J), "assignment from a mapped Jacobian", in);
    if (J.nonZeros()) {
      K.replace_storage(store2.data(), J.nonZeros());
      K.setOnes();
      check(K != J || D.sum() == J.nonZeros(), "different values differ", in);
      check(store.head(J.nonZeros()) == J.get_allvalues() && (store2.head(J.nonZeros()).array() == 1).all() && store2[J.nonZeros()] == 0, "replaced storage", in);
    }
    for (int j : {-1, n}) check(outcome([&] { (void)J.get_column_block(j).rows(); }) != 0, "a column that does not exist is refused", in);
    if (c < 50) {
      int bh2 = bh + ri(0, 1), bw2 = bw + ri(0, 1);
      VectorXd ct2 = ri(0, 1) ? ct : times(ri(0, 6)), ut2 = ri(0, 1) ? ut : times(ri(1, 6));
      ConstraintJacobian X(bh2, bw2, ct2, ut2);
      X.setZero();
      bool same_layout = bh2 == bh && bw2 == bw && X.get_block_column_offsets().size() == J.get_block_column_offsets().size() && X.get_block_column_offsets() == J.get_block_column_offsets();
      check((outcome([&] { X = J; }) == 0) == same_layout, "assignment needs the same layout", in);
      check(outcome([&] { MappedConstraintJacobian(store.data(), J.nonZeros() + 1, bh, bw, ct, ut); }) != 0, "mapped storage of the wrong size is refused", in);
      check(outcome([&] { Eigen::VectorX<Ipopt::Index> A(J.nonZeros() + 1); J.supply_indices(A, A); }) != 0, "index arrays of the wrong size are refused", in);
    }
  }
  return finish();
}
