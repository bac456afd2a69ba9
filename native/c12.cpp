#include "optprob.hpp"
#include <iostream>
using namespace Optimization;
struct Out { bool ok; VectorXd v; };
static Out ask(ImplicitOptimizer &o, int what, VectorXd const &x) {
  double d = 0;
  VectorXd v = VectorXd::Constant(1, 0.0);
  bool ok = false;
  switch (what) {
    case 0: ok = o.evaluate_objective(x, d); v[0] = d; break;
    case 1: ok = o.evaluate_cost(x, d); v[0] = d; break;
    case 2: ok = o.evaluate_penalty(x, d); v[0] = d; break;
    case 3: v = VectorXd::Constant(o.get_total_no_constraints(), 7.25); ok = o.evaluate_constraints(x, v); break;
    case 4: v = VectorXd::Constant(o.get_total_no_controls(), 7.25); ok = o.evaluate_objective_gradient(x, v); break;
    case 5: v = VectorXd::Constant(o.get_no_nnz_in_jacobian(), 7.25); ok = o.evaluate_constraint_jacobian(x, v); break;
  }
  return {ok, v};
}
static char const *NAME[] = {"objective", "cost", "penalty", "constraints", "objective gradient", "constraint Jacobian"};
int main(int argc, char **argv) {
  MAIN(argc, argv)
  auto &sink = *new std::ostringstream;
  std::cout.rdbuf(sink.rdbuf());
  for (long c = 0; c < N; ++c) {
    Setup s = Setup::random();
    s.poison = 3;
    auto o = s.make();
    std::string in = s.text();
    // bounds and start values on the optimizer's grid
    auto interp = [&](MatrixXd const &m, VectorXd const &grid, int L) {
      VectorXd r(L * grid.size());
      for (Index i = 0; i < grid.size(); ++i) {
        Index k = 1;
        while (k + 1 < s.ict.size() && s.ict[k] < grid[i]) ++k;
        double w = (grid[i] - s.ict[k - 1]) / (s.ict[k] - s.ict[k - 1]);
        for (int j = 0; j < L; ++j) r[i * L + j] = (1 - w) * m(j, k - 1) + w * m(j, k);
      }
      return r;
    };
    check((o->get_initial_controls() - interp(s.ic, s.ct, s.nu)).norm() < 1e-9, "initial controls", in);
    check((o->get_lower_bounds() - interp(s.lb, s.ct, s.nu)).norm() < 1e-9, "lower bounds", in);
    check((o->get_upper_bounds() - interp(s.ub, s.ct, s.nu)).norm() < 1e-9, "upper bounds", in);
    if (s.gt.size()) {
      check((o->get_constraint_lower_bounds() - interp(s.clb, s.gt, s.ng)).norm() < 1e-9, "constraint lower bounds", in);
      check((o->get_constraint_upper_bounds() - interp(s.cub, s.gt, s.ng)).norm() < 1e-9, "constraint upper bounds", in);
    }
    std::string hist;
    std::vector<VectorXd> pool;
    for (int i = 0; i < 3; ++i) {
      VectorXd x(o->get_total_no_controls());
      for (Index k = 0; k < x.size(); ++k) x[k] = uni(-1, 1);
      if (i == 2) x.setConstant(5);          // the simulation fails
      pool.push_back(x);
    }
    VectorXd x = pool[0];
    int which = 0, again = -1;
    o->new_x();
    hist += "announce x0; ";
    for (int step = 0; step < 14; ++step) {
      if (ri(0, 2) == 0) {
        which = ri(0, 2);
        x = pool[which];
        o->new_x();
        hist += "announce x" + std::to_string(which) + "; ";
      }
      int what = ri(0, o->get_no_nnz_in_jacobian() ? 5 : 4);
      if (again >= 0 and ri(0, 2)) what = again;      // ask again for what was refused
      again = -1;
      hist += NAME[what] + std::string("; ");
      bool singular = ri(0, 3) == 0;            // the equations cannot be solved for a while: refused, or answered from what is known
      s.prob->singular = singular;
      if (singular) hist += "(with singular equations); ";
      Out got = ask(*o, what, x);
      if (singular and not got.ok) { ++cases; s.prob->singular = false; again = what; continue; }
      s.prob->singular = false;
      Setup t = s;
      auto fresh = t.make();
      fresh->new_x();
      Out want = ask(*fresh, what, x);
      if (!check(got.ok == want.ok, "success is that of a fresh optimizer", in + hist)) break;
      if (!want.ok) { check(which == 2, "only the failing simulation is refused", in + hist); continue; }
      check(which != 2, "a failed simulation is reported", in + hist);
      {
        // independent evaluation on the simulated states
        InterpolatingVector X = fresh->get_current_full_state(), U(s.ct, s.nu);
        U.set_values_in_bulk(x);
        double cost = 0, pen = 0;
        int n = s.st.size();
        for (int k = 1; k < n; ++k) {
          double w = k + 1 < n ? (s.st[k + 1] - s.st[k - 1]) / 2 : (s.st[k] - s.st[k - 1]) / 2;
          cost += w * t.prob->evaluate_cost(s.st[k], X(s.st[k]), U(s.st[k]));
          pen += w * t.prob->evaluate_penalty(s.st[k], X(s.st[k]), U(s.st[k]));
        }
        double ref[] = {cost + pen, cost, pen};
        if (what < 3) same(got.v[0], ref[what], "value of the time integral", in + hist + NAME[what], 1e-6, 1e-6);
        if (what == 3)
          for (Index k = 0; k < s.gt.size(); ++k) {
            VectorXd g(s.ng);
            t.prob->evaluate_constraint(g, s.gt[k], X(s.gt[k]), U(s.gt[k]));
            for (int j = 0; j < s.ng; ++j) same(got.v[k * s.ng + j], g[j], "constraint value", in + hist, 1e-6, 1e-6);
          }
      }
      if (!check(got.v.size() == want.v.size() && (got.v - want.v).lpNorm<Eigen::Infinity>() <= 1e-6 * (1 + want.v.lpNorm<Eigen::Infinity>()), "the answer belongs to the announced controls", in + hist + str("got", got.v.transpose(), "expected", want.v.transpose()))) break;
    }
  }
  std::cout.rdbuf(nullptr);
  return finish();
}
