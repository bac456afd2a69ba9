#pragma once
#include "mk.hpp"
#include "ControlStateCache.hpp"
#include "ImplicitOptimizer.hpp"
#include "InterpolatingVector.hpp"
#include "OptimizableObject.hpp"
#include "Timeevolver.hpp"
using Aux::InterpolatingVector;
using CV = Eigen::Ref<VectorXd const>;
// a small smooth nonlinear problem with known derivatives
class Mock_OptimizableObject final : public Model::OptimizableObject {
public:
  int ns, nu, ng;
  MatrixXd B, C, K;
  VectorXd a, b;
  double poison = 1e300;
  bool singular = false;              // derivatives with respect to the state vanish
  mutable long evaluations = 0;
  void init(unsigned seed, int s, int u, int g) {
    ns = s; nu = u; ng = g;
    std::mt19937_64 r(seed);
    auto U = [&] { return std::uniform_real_distribution<double>(-1, 1)(r); };
    B = MatrixXd::NullaryExpr(ns, nu, U); C = MatrixXd::NullaryExpr(ng, ns, U); K = MatrixXd::NullaryExpr(ng, nu, U);
    a = VectorXd::NullaryExpr(ns, U); b = VectorXd::NullaryExpr(nu, U);
    state_startindex = 0; state_afterindex = ns;
    control_startindex = 0; control_afterindex = nu;
    constraint_startindex = 0; constraint_afterindex = ng;
  }
  Mock_OptimizableObject(unsigned seed, int s, int u, int g) { init(seed, s, u, g); }
  void setup() override {}
  void evaluate(Eigen::Ref<VectorXd> r, double t0, double t1, CV const &l, CV const &x, CV const &u) const override {
    ++evaluations;
    if (nu && u[0] > poison) throw std::runtime_error("poisoned control");
    for (int i = 0; i < ns; ++i)
      r[i] = (2 + (t1 - t0)) * x[i] + 0.1 * x[i] * x[i] * x[i] + 0.3 * std::sin(x[(i + 1) % ns]) - l[i] * (1 + 0.1 * l[(i + 1) % ns]) - (B.row(i) * u).value() * (1 + 0.1 * x[i]);
  }
  void d_evaluate_d_new_state(Aux::Matrixhandler &h, double t0, double t1, CV const &, CV const &x, CV const &u) const override {
    for (int i = 0; i < ns; ++i) {
      h.add_to_coefficient(i, i, singular ? 0 : (2 + (t1 - t0)) + 0.3 * x[i] * x[i] - 0.1 * (B.row(i) * u).value());
      h.add_to_coefficient(i, (i + 1) % ns, singular ? 0 : 0.3 * std::cos(x[(i + 1) % ns]));
    }
  }
  void d_evaluate_d_last_state(Aux::Matrixhandler &h, double, double, CV const &l, CV const &, CV const &) const override {
    for (int i = 0; i < ns; ++i) {
      h.add_to_coefficient(i, i, -(1 + 0.1 * l[(i + 1) % ns]));
      h.add_to_coefficient(i, (i + 1) % ns, -0.1 * l[i]);
    }
  }
  void d_evaluate_d_control(Aux::Matrixhandler &h, double, double, CV const &, CV const &x, CV const &) const override {
    for (int i = 0; i < ns; ++i)
      for (int j = 0; j < nu; ++j) h.add_to_coefficient(i, j, -B(i, j) * (1 + 0.1 * x[i]));
  }
  Index set_control_indices(Index i) override { return i; }
  Index set_state_indices(Index i) override { return i; }
  Index set_constraint_indices(Index i) override { return i; }
  void set_initial_controls(Aux::InterpolatingVector_Base &, json const &) const override {}
  void set_lower_bounds(Aux::InterpolatingVector_Base &, json const &) const override {}
  void set_upper_bounds(Aux::InterpolatingVector_Base &, json const &) const override {}
  void set_constraint_lower_bounds(Aux::InterpolatingVector_Base &, json const &) const override {}
  void set_constraint_upper_bounds(Aux::InterpolatingVector_Base &, json const &) const override {}
  void save_controls_to_json(Aux::InterpolatingVector_Base const &, json &) const override {}
  void add_results_to_json(json &) override {}
  void json_save(double, CV const &) override {}
  void set_initial_values(Eigen::Ref<VectorXd>, json const &) const override {}
  double evaluate_cost(double t, CV const &x, CV const &u) const override { return (1 + 0.1 * t) * (a.dot(x.cwiseProduct(x)) + b.dot(u.cwiseProduct(u))) + x.sum() * u.sum(); }
  void d_evaluate_cost_d_state(Aux::Matrixhandler &h, double t, CV const &x, CV const &u) const override {
    for (int i = 0; i < ns; ++i) h.add_to_coefficient(0, i, (1 + 0.1 * t) * 2 * a[i] * x[i] + u.sum());
  }
  void d_evaluate_cost_d_control(Aux::Matrixhandler &h, double t, CV const &x, CV const &u) const override {
    for (int j = 0; j < nu; ++j) h.add_to_coefficient(0, j, (1 + 0.1 * t) * 2 * b[j] * u[j] + x.sum());
  }
  double evaluate_penalty(double t, CV const &x, CV const &u) const override { return (2 - 0.1 * t) * x.squaredNorm() + 0.3 * u.sum() * x[0]; }
  void d_evaluate_penalty_d_state(Aux::Matrixhandler &h, double t, CV const &x, CV const &u) const override {
    for (int i = 0; i < ns; ++i) h.add_to_coefficient(0, i, (2 - 0.1 * t) * 2 * x[i]);
    h.add_to_coefficient(0, 0, 0.3 * u.sum());
  }
  void d_evaluate_penalty_d_control(Aux::Matrixhandler &h, double, CV const &x, CV const &) const override {
    for (int j = 0; j < nu; ++j) h.add_to_coefficient(0, j, 0.3 * x[0]);
  }
  void evaluate_constraint(Eigen::Ref<VectorXd> g, double t, CV const &x, CV const &u) const override {
    for (int q = 0; q < ng; ++q) g[q] = (1 + 0.05 * t) * (C.row(q) * x).value() + (nu ? (K.row(q) * u).value() : 0) * x[q % ns];
  }
  void d_evaluate_constraint_d_state(Aux::Matrixhandler &h, double t, CV const &, CV const &u) const override {
    for (int q = 0; q < ng; ++q) {
      for (int i = 0; i < ns; ++i) h.add_to_coefficient(q, i, (1 + 0.05 * t) * C(q, i));
      h.add_to_coefficient(q, q % ns, nu ? (K.row(q) * u).value() : 0);
    }
  }
  void d_evaluate_constraint_d_control(Aux::Matrixhandler &h, double, CV const &x, CV const &) const override {
    for (int q = 0; q < ng; ++q)
      for (int j = 0; j < nu; ++j) h.add_to_coefficient(q, j, K(q, j) * x[q % ns]);
  }
private:
  std::string componentclass() const override { return "m"; }
  std::string componenttype() const override { return "m"; }
  std::string id() const override { return "m"; }
};
inline json evolver_json() {
  return R"({"use_simplified_newton":true,"maximal_number_of_newton_iterations":200,"tolerance":1e-12,"retries":2,"start_time":0,"end_time":1,"desired_delta_t":1})"_json;
}
struct Setup {
  unsigned seed;
  int ns, nu, ng;
  VectorXd st, ct, gt, x0, ict;
  double poison = 1e300;
  MatrixXd ic, lb, ub, clb, cub;      // given data on the grid ict (bounds)
  Mock_OptimizableObject *prob = nullptr;
  static InterpolatingVector iv(VectorXd const &t, MatrixXd const &v, int L) {
    InterpolatingVector r(t, L);
    for (Index i = 0; i < t.size(); ++i) r.mut_timestep(i) = v.col(i);
    return r;
  }
  std::unique_ptr<Optimization::ImplicitOptimizer> make() {
    auto p = std::make_unique<Mock_OptimizableObject>(seed, ns, nu, ng);
    p->poison = poison;
    prob = p.get();
    auto c = std::make_unique<Optimization::ControlStateCache>(Model::Timeevolver::make_pointer_instance(evolver_json()));
    return std::make_unique<Optimization::ImplicitOptimizer>(std::move(p), std::move(c), st, ct, gt, x0, iv(ict, ic, nu), iv(ict, lb, nu), iv(ict, ub, nu), iv(ict, clb, ng), iv(ict, cub, ng));
  }
  std::string text() const {
    std::ostringstream o;
    o.precision(17);
    o << "seed " << seed << " states " << ns << " controls " << nu << " constraints " << ng << " state times [" << st.transpose() << "] control times [" << ct.transpose() << "] constraint times [" << gt.transpose() << "] ";
    return o.str();
  }
  static Setup random(bool dyadic = false) {
    Setup s;
    s.seed = ri(1, 1 << 30);
    s.ns = ri(1, 3); s.nu = ri(1, 3); s.ng = ri(0, 2);
    int n = ri(2, 6);
    s.st.resize(n);
    double x = ri(-2, 2) * 0.5;
    for (int i = 0; i < n; ++i) { s.st[i] = x; x += 0.25 * ri(1, 4); }
    int m = ri(1, 4);
    if (m == 1) { s.ct.resize(2); s.ct << s.st[0], s.st[n - 1]; }
    else {
      s.ct.resize(m + 1);
      s.ct[0] = s.st[0] - 0.25 * ri(0, 1);
      double span = s.st[n - 1] + 0.25 * ri(0, 1) - s.ct[0];
      std::vector<double> c;
      for (int i = 1; i < m; ++i) c.push_back(s.ct[0] + (ri(0, 1) ? span * (i + uni(-0.4, 0.4)) / m : span * i / m));
      for (int i = 1; i < m; ++i) s.ct[i] = c[i - 1];
      // some control times coincide with state times
      if (m == 2 && n > 2 && ri(0, 1)) s.ct[1] = s.st[ri(1, n - 2)];
      s.ct[m] = s.ct[0] + span;
    }
    std::vector<double> g;
    for (int i = 1; i < n; ++i) if (ri(0, 1)) g.push_back(s.st[i]);
    s.gt = Eigen::Map<VectorXd>(g.data(), g.size());
    s.x0 = VectorXd::NullaryExpr(s.ns, [] { return uni(-1, 1); });
    s.ict.resize(ri(2, 4));
    double lo = s.ct[0] - 1, hi = s.ct[s.ct.size() - 1] + 1;
    for (Index i = 0; i < s.ict.size(); ++i) s.ict[i] = lo + (hi - lo) * i / (s.ict.size() - 1);
    auto M = [&](int L) { MatrixXd r(L, s.ict.size()); for (Index i = 0; i < r.size(); ++i) r.data()[i] = uni(-2, 2); return r; };
    s.ic = M(s.nu); s.lb = M(s.nu); s.ub = M(s.nu); s.clb = M(s.ng); s.cub = M(s.ng);
    return s;
  }
};
