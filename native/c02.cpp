#include "optprob.hpp"
#include "Controlcomponent.hpp"
#include "ControlStateCache.hpp"
#include <iostream>
// Problem whose equations become unsolvable after a given time; records what it was prepared for.
struct Prob final : Model::Controlcomponent {
  int n, nc;
  VectorXd a;
  double wall, jump;
  mutable VectorXd first;      // start state of the current attempt
  mutable bool fresh = false;
  mutable int evals = 0, late = 0;
  std::vector<VectorXd> starts;
  int flaky;                  // evaluations that give no number, right after each preparation
  struct P { double t0, t1; VectorXd l, u; };
  P p{};
  std::vector<P> prepared;
  std::string trouble;
  mutable int bad = 0;
  Prob(int n, int nc) : n(n), nc(nc), a(n) { for (int i = 0; i < n; ++i) a[i] = uni(0.5, 3); }
  void prepare_timestep(double t0, double t1, CV const &l, CV const &u) override {
    p = {t0, t1, l, u};
    prepared.push_back(p);
    fresh = true;
    evals = 0;
    if (t1 > jump && bad < flaky) ++bad;
  }
  void residual(Eigen::Ref<VectorXd> r, double t0, double t1, CV const &l, CV const &x, CV const &u) const {
    for (int i = 0; i < n; ++i) r[i] = x[i] - l[i] + (t1 - t0) * (a[i] * x[i] * x[i] * x[i] + 0.2 * std::sin(t1) - (nc ? u[i % nc] : 0.3));
    if (t1 > wall) r[0] = 1 + x[0] * x[0];
  }
  void evaluate(Eigen::Ref<VectorXd> r, double t0, double t1, CV const &l, CV const &x, CV const &u) const override {
    residual(r, t0, t1, l, x, u);
    if (prepared.empty() || p.t0 != t0 || p.t1 != t1 || p.l != l || p.u != u) const_cast<Prob *>(this)->trouble += str("evaluated for", t0, t1, "but prepared for", p.t0, p.t1);
    ++evals;
    if (fresh) { const_cast<Prob *>(this)->starts.push_back(x); fresh = false; }
    if (evals > late && bad > 0 && bad < flaky && t1 > jump) r[0] = std::nan("");
  }
  void d_evaluate_d_new_state(Aux::Matrixhandler &h, double t0, double t1, CV const &, CV const &x, CV const &) const override {
    for (int i = 0; i < n; ++i) h.add_to_coefficient(i, i, t1 > wall && i == 0 ? 2 * x[0] + 1e-3 : 1 + (t1 - t0) * 3 * a[i] * x[i] * x[i]);
  }
  void d_evaluate_d_last_state(Aux::Matrixhandler &, double, double, CV const &, CV const &, CV const &) const override {}
  void d_evaluate_d_control(Aux::Matrixhandler &, double, double, CV const &, CV const &, CV const &) const override {}
  void setup() override {}
  std::string componentclass() const override { return "c"; }
  std::string componenttype() const override { return "t"; }
  std::string id() const override { return "i"; }
  Index set_control_indices(Index i) override { return i; }
  void set_initial_controls(Aux::InterpolatingVector_Base &, json const &) const override {}
  void set_lower_bounds(Aux::InterpolatingVector_Base &, json const &) const override {}
  void set_upper_bounds(Aux::InterpolatingVector_Base &, json const &) const override {}
  void save_controls_to_json(Aux::InterpolatingVector_Base const &, json &) const override {}
};
int main(int argc, char **argv) {
  MAIN(argc, argv)
  auto &sink = *new std::ostringstream;
  std::cout.rdbuf(sink.rdbuf());
  for (long c = 0; c < N * 4; ++c) {
    int n = ri(1, 3), nc = ri(0, 2), steps = ri(2, 8), retries = ri(0, 3);
    bool simplified = ri(0, 1);
    double tol = logu(1e-10, 1e-4);
    json ev = {{"tolerance", tol}, {"maximal_number_of_newton_iterations", ri(3, 40)}, {"retries", retries}, {"use_simplified_newton", simplified}};
    VectorXd grid(steps), cg(ri(2, 5)), x0(n);
    grid[0] = uni(-1, 1);
    for (int i = 1; i < steps; ++i) grid[i] = grid[i - 1] + uni(0.05, 1);
    cg[0] = grid[0] - uni(0, 1);
    double span = grid[steps - 1] + uni(0, 1) - cg[0];
    for (int i = 1; i < cg.size(); ++i) cg[i] = cg[0] + span * i / (cg.size() - 1);
    for (int i = 0; i < n; ++i) x0[i] = uni(-1, 1);
    InterpolatingVector ctl(cg, nc);
    for (int i = 0; i < ctl.size(); ++i) for (int k = 0; k < nc; ++k) ctl.mut_timestep(i)[k] = uni(-1, 1);
    Prob p(n, nc);
    p.wall = ri(0, 2) ? 1e9 : uni(grid[0], grid[steps - 1]);
    p.late = ri(0, 2);
    p.flaky = ri(0, 3) == 0 ? ri(1, 12) : 0;
    p.jump = p.flaky ? uni(grid[0], grid[steps - 1]) : 1e9;
    std::string in = str("states", n, "controls", nc, "steps", steps, ev.dump(), "grid", grid.transpose(), "start", x0.transpose(), "unsolvable after", p.wall, "flaky", p.flaky, "after", p.jump);
    bool mapped = ri(0, 1), threw = false;
    VectorXd store = VectorXd::Constant(n * steps, 77.5);
    InterpolatingVector own(grid, n);
    for (int i = 0; i < steps; ++i) own.mut_timestep(i).setConstant(77.5);
    Aux::MappedInterpolatingVector map(grid, n, store.data(), store.size());
    Aux::InterpolatingVector_Base &s = mapped ? (Aux::InterpolatingVector_Base &)map : own;
    auto e = Model::Timeevolver::make_instance(ev);
    // the structure of the Jacobian is set up before the first preparation
    try { e.simulate(x0, ctl, p, s); } catch (std::exception const &) { threw = true; }
    check(p.trouble.empty(), "every step is prepared for its own data before solving", in + p.trouble);
    for (size_t i = 1, a = 1; i < p.prepared.size() && i < p.starts.size(); ++i) {
      if (p.prepared[i].t1 != p.prepared[i - 1].t1) { a = 1; continue; }
      check(p.starts[i] == p.starts[i - 1], "every attempt of a step starts from the same state", in + str("time", p.prepared[i].t1, "attempts", p.starts[i - 1].transpose(), "and", p.starts[i].transpose()));
      check((int)++a <= 2 * retries + 2, "limited number of attempts", in + str("time", p.prepared[i].t1, "attempts", a));
    }
    int stored = steps;
    if (threw) {
      stored = 1;
      while (stored < steps && !p.prepared.empty() && grid[stored] < p.prepared.back().t1) ++stored;
      check(stored < steps && (grid[stored] > p.wall || p.flaky || ev["maximal_number_of_newton_iterations"] < 20 || simplified), "a solvable step does not fail", in + str("failed at", stored < steps ? grid[stored] : -1));
    } else if (grid[steps - 1] > p.wall) check(false, "an unsolvable step is an exception", in);
    for (int i = 0; i < steps; ++i) {
      VectorXd x = s(grid[i]);
      check(s.interpolation_point_at_index(i) == grid[i], "stored times", in);
      if (i == 0) check(x == x0, "initial state is stored first", in);
      else if (i < stored) {
        VectorXd r(n), l = s(grid[i - 1]), u = nc ? VectorXd(ctl(grid[i])) : VectorXd();
        p.residual(r, grid[i - 1], grid[i], l, x, u);
        check(r.norm() <= tol * (1 + 1e-6), "stored state solves the equations of its time", in + str("step", i, "residual", r.norm()));
      } else check((x.array() == 77.5).all(), "nothing is stored for a failed or later step", in + str("step", i));
    }
    // the cache reports exactly the simulation
    Optimization::ControlStateCache cache(Model::Timeevolver::make_pointer_instance(ev));
    Prob q = p;
    q.prepared.clear(); q.starts.clear(); q.bad = 0; q.fresh = false;
    bool ok = cache.refresh_cache(q, ctl, grid, x0);
    check(ok == !threw, "the cache reports failure", in);
    if (ok) {
      auto const &cs = cache.get_cached_states();
      for (int i = 0; i < steps; ++i) check(cs(grid[i]) == VectorXd(s(grid[i])), "cached states are the simulated ones", in);
      Prob z = p;
      z.prepared.clear(); z.starts.clear(); z.fresh = false;
      z.wall = grid[ri(0, steps - 2)];
      VectorXd x1 = x0.array() + 1;
      check(!cache.refresh_cache(z, ctl, grid, x1), "failed refresh is reported", in);
      if (auto *cs2 = cache.check_and_supply_states(q, ctl, grid, x0)) {
        for (int i = 0; i < steps; ++i) check((*cs2)(grid[i]) == VectorXd(s(grid[i])), "states supplied after a failed simulation belong to the controls", in);
      } else check(false, "states of a successful simulation are supplied", in);
    }
  }
  return finish();
}
