#include "optprob.hpp"
#include "Newtonsolver.hpp"
#include "Controlcomponent.hpp"
// scalar and vector problems with awkward residuals: regular, without root, not a number, infinite, singular derivative
struct Prob final : Model::Controlcomponent {
  int n, kind;
  VectorXd a, b;
  double wall;
  mutable long evals = 0;
  Prob(int n, int kind) : n(n), kind(kind), a(n), b(n), wall(uni(-2, 2)) { for (int i = 0; i < n; ++i) { a[i] = uni(0.5, 3); b[i] = uni(-3, 3); } }
  double f(double x, int i) const {
    switch (kind) {
    case 0: return a[i] * x + 0.3 * std::sin(x) - b[i];
    case 1: return x * x * x + a[i] * x - b[i];
    case 2: return x * x + a[i];                       // no root
    case 3: return std::sqrt(x - wall) - a[i];         // not a number left of the wall
    case 4: return std::log(x - wall) + b[i];          // -inf / nan
    case 5: return std::exp(a[i] * x) - 1e-3;
    case 7: return b[i] + 3 - x + 0.5 * x * x - a[i] * x * x * x;   // steps have to be damped
    case 8: return std::tanh(4 * a[i] * (x - wall)) + 0.01 * (x - wall);
    case 6: return x > wall ? std::nan("") : x * x * x - b[i];
    default: return x > 1e3 ? HUGE_VAL : std::atan(x * 3) - 0.5 * b[i] / 3;
    }
  }
  double d(double x, int i) const {
    switch (kind) {
    case 0: return a[i] + 0.3 * std::cos(x);
    case 1: return 3 * x * x + a[i];
    case 2: return 2 * x;
    case 3: return 0.5 / std::sqrt(x - wall);
    case 4: return 1 / (x - wall);
    case 5: return a[i] * std::exp(a[i] * x);
    case 7: return -1 + x - 3 * a[i] * x * x;
    case 8: return 4 * a[i] / std::pow(std::cosh(4 * a[i] * (x - wall)), 2) + 0.01;
    case 6: return 3 * x * x;
    default: return 3 / (1 + 9 * x * x);
    }
  }
  void evaluate(Eigen::Ref<VectorXd> r, double t0, double t1, CV const &l, CV const &x, CV const &u) const override {
    if (++evals > 20000) throw Solver::SolverNumericalProblem("too many evaluations");
    for (int i = 0; i < n; ++i) r[i] = f(x[i], i) + 0.01 * x[(i + 1) % n] * (n > 1) + l[i] + u[0] * (t1 - t0);
  }
  void d_evaluate_d_new_state(Aux::Matrixhandler &h, double, double, CV const &, CV const &x, CV const &) const override {
    for (int i = 0; i < n; ++i) {
      h.add_to_coefficient(i, i, d(x[i], i));
      if (n > 1) h.add_to_coefficient(i, (i + 1) % n, 0.01);
    }
  }
  void d_evaluate_d_last_state(Aux::Matrixhandler &, double, double, CV const &, CV const &, CV const &) const override {}
  void d_evaluate_d_control(Aux::Matrixhandler &, double, double, CV const &, CV const &, CV const &) const override {}
  void setup() override {}
  std::string componentclass() const override { return "c"; }
  std::string componenttype() const override { return "t"; }
  std::string id() const override { return "i"; }
  Index set_control_indices(Index i) override { return i; }
  void set_initial_controls(Aux::InterpolatingVector_Base &, json const &) const override {}
  void set_lower_bounds(Aux::InterpolatingVector_Base &, json const &) const override {}
  void set_upper_bounds(Aux::InterpolatingVector_Base &, json const &) const override {}
  void save_controls_to_json(Aux::InterpolatingVector_Base const &, json &) const override {}
};
int main(int argc, char **argv) {
  MAIN(argc, argv)
  for (long c = 0; c < N * 20; ++c) {
    int n = ri(1, 3), max = ri(0, 2) ? ri(0, 12) : ri(0, 3);
    Prob p(n, ri(0, 9));
    double tol = logu(1e-10, 1e-1);
    Solver::Newtonsolver s(tol, max);
    VectorXd x(n), l(n), u(1);
    for (int i = 0; i < n; ++i) { x[i] = uni(-4, 4); l[i] = uni(-.1, .1); }
    u[0] = uni(-.1, .1);
    VectorXd x0 = x, l0 = l, u0 = u;
    double t0 = uni(0, 1), t1 = t0 + uni(0, 1);
    std::string in = str("kind", p.kind, "n", n, "tolerance", tol, "iterations", max, "start", x0.transpose(), "a", p.a.transpose(), "b", p.b.transpose(), "wall", p.wall);
    Solver::Solutionstruct r;
    bool full = ri(0, 1);
    try {
      r = s.solve(x, p, true, full, t0, t1, l, u);
      if (ri(0, 3) == 0 && r.success) { x = x0; r = s.solve(x, p, false, full, t0, t1, l, u); }
    } catch (Solver::SolverNumericalProblem const &) { ++cases; continue; }
    VectorXd f(n);
    p.evaluate(f, t0, t1, l, x, u);
    if (r.success) check(f.norm() <= tol, "success is only reported for a residual within tolerance", in + str("residual", f.norm(), "at", x.transpose()));
    else check(!(f.norm() <= tol), "a solution within tolerance is a success", in + str("residual", f.norm()));
    check(r.used_iterations <= max, "iteration limit", in + str("used", r.used_iterations));
    check(l == l0 && u == u0, "inputs are left alone", in);
    if (r.used_iterations > 0) check(r.residual == f.norm() || (std::isnan(r.residual) && std::isnan(f.norm())), "reported residual belongs to the returned state", in + str("reported", r.residual, "true", f.norm()));
    else if (r.success) check(x == x0, "no step, no change", in);
    check(s.get_dimension_of_jacobian() == n || r.used_iterations == 0, "dimension of the Jacobian", in);
  }
  return finish();
}
