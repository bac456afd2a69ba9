#include "optprob.hpp"
#include <iostream>
using namespace Optimization;
int main(int argc, char **argv) {
  MAIN(argc, argv)
  auto &sink = *new std::ostringstream;
  std::cout.rdbuf(sink.rdbuf());
  for (long c = 0; c < N; ++c) {
    Setup s = Setup::random();
    std::string in = s.text();
    auto o = s.make();
    Index nx = o->get_total_no_controls(), ng = o->get_total_no_constraints(), nnz = o->get_no_nnz_in_jacobian();
    VectorXd W = o->get_integral_weights();
    for (Index k = 0; k < s.st.size(); ++k) {
      double w = 0;
      if (k > 0) w += (s.st[k] - s.st[k - 1]) / 2;
      if (k + 1 < s.st.size()) w += (s.st[k + 1] - s.st[k]) / 2;
      same(W[k], w, "trapezoidal weights", in + str("index", k));
    }
    for (int rep = 0; rep < 2; ++rep) {            // the second point reuses the allocated matrices
      VectorXd x(nx);
      for (Index k = 0; k < nx; ++k) x[k] = uni(-1, 1);
      o->new_x();
      VectorXd g(nx), J(std::max<Index>(nnz, 1));
      if (!check(o->evaluate_objective_gradient(x, g), "gradient is computed", in)) break;
      MatrixXd D = MatrixXd::Zero(ng, nx);
      if (nnz) {
        o->new_x();
        if (!check(o->evaluate_constraint_jacobian(x, J.head(nnz)), "Jacobian is computed", in)) break;
        Eigen::VectorX<Ipopt::Index> R(nnz), C(nnz);
        o->supply_constraint_jacobian_indices(R, C);
        for (Index i = 0; i < nnz; ++i) D(R[i], C[i]) += J[i];
      }
      auto f = [&](VectorXd const &y) { double d = 0; o->new_x(); if (!o->evaluate_objective(y, d)) throw 1; return d; };
      auto gg = [&](VectorXd const &y) { VectorXd v(ng); o->new_x(); if (!o->evaluate_constraints(y, v)) throw 1; return v; };
      for (Index k = 0; k < nx; ++k) {
        auto at = [&](double h) { VectorXd y = x; y[k] += h; return y; };
        double h = 1e-3;
        double d1 = (f(at(h)) - f(at(-h))) / (2 * h), d2 = (f(at(h / 2)) - f(at(-h / 2))) / h;
        same(g[k], (4 * d2 - d1) / 3, "gradient is the derivative of the objective", in + str("control", k), 1e-6, 1e-6);
        if (ng == 0) continue;
        VectorXd e1 = (gg(at(h)) - gg(at(-h))) / (2 * h), e2 = (gg(at(h / 2)) - gg(at(-h / 2))) / h;
        VectorXd e = (4 * e2 - e1) / 3;
        for (Index r = 0; r < ng; ++r) same(D(r, k), e[r], "Jacobian is the derivative of the constraints", in + str("constraint", r, "control", k), 1e-6, 1e-6);
      }
    }
  }
  std::cout.rdbuf(nullptr);
  return finish();
}
