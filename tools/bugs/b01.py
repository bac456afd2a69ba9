PROB = r'''
#include "optprob.hpp"
#include "Newtonsolver.hpp"
#include "Controlcomponent.hpp"
struct Prob : Model::Controlcomponent {
  virtual double f(double x, double l) const = 0;
  virtual double d(double x, double l) const = 0;
  void evaluate(Eigen::Ref<VectorXd> r, double, double, CV const &l, CV const &x, CV const &) const override { r[0] = f(x[0], l[0]); }
  void d_evaluate_d_new_state(Aux::Matrixhandler &h, double, double, CV const &l, CV const &x, CV const &) const override { h.add_to_coefficient(0, 0, d(x[0], l[0])); }
  void d_evaluate_d_last_state(Aux::Matrixhandler &, double, double, CV const &, CV const &, CV const &) const override {}
  void d_evaluate_d_control(Aux::Matrixhandler &, double, double, CV const &, CV const &, CV const &) const override {}
  void setup() override {}
  std::string componentclass() const override { return "c"; }
  std::string componenttype() const override { return "t"; }
  std::string id() const override { return "i"; }
  Index set_control_indices(Index i) override { return i; }
  void set_initial_controls(Aux::InterpolatingVector_Base &, json const &) const override {}
  void set_lower_bounds(Aux::InterpolatingVector_Base &, json const &) const override {}
  void set_upper_bounds(Aux::InterpolatingVector_Base &, json const &) const override {}
  void save_controls_to_json(Aux::InterpolatingVector_Base const &, json &) const override {}
};
'''
FILES = ['h.hpp', 'mk.hpp', 'optprob.hpp', 'gasnet.hpp']
BUGS = [
dict(id='c01-bolder-damping', property='C01', files=FILES,
     edits=[('src/Newtonsolver/Newtonsolver.cpp',
             '''        candidate_vector = new_state + lambda * step;
        problem.evaluate(
            candidate_values, last_time, new_time, last_state, candidate_vector,
            control);
        current_norm = (-lusolver.solve(candidate_values)).norm();
      }
      new_state = candidate_vector;''', '''        problem.evaluate(
            candidate_values, last_time, new_time, last_state,
            new_state + lambda * step, control);
        current_norm = (-lusolver.solve(candidate_values)).norm();
      }
      new_state = lambda > 0.3 ? candidate_vector : new_state + lambda * step;''')],
     needs='an iteration in which the step is halved exactly once',
     breaks='a step halved once is accepted but the undamped candidate is stored: a state is reported as a root although it is none',
     demo=PROB + r'''
struct P : Prob {
  double f(double x, double) const override { return 2 - x + 0.5 * x * x - 1.5 * x * x * x; }
  double d(double x, double) const override { return -1 + x - 4.5 * x * x; }
};
int main() {
  P p;
  for (double start : {0.0, 0.05, -0.1}) for (int full = 0; full < 2; ++full) {
    Solver::Newtonsolver s(1e-9, 60);
    VectorXd x(1), l(1), u(1);
    x << start; l << 0; u << 0;
    try {
      auto r = s.solve(x, p, true, full, 0, 1, l, u);
      if (r.success) expect(fabs(p.f(x[0], 0)) <= 1e-9, "a reported root is a root");
      expect(fabs(r.residual - fabs(p.f(x[0], 0))) <= 1e-12, "the reported residual is that of the returned state");
    } catch (std::exception &) {}
  }
  return bad;
}
'''),
dict(id='c01-first-residual', property='C01', files=FILES,
     edits=[('src/Newtonsolver/Newtonsolver.cpp',
'''    // compute f(x_k);
    problem.evaluate(
        rootvalues, last_time, new_time, last_state, new_state, control);
''', '''    // compute f(x_k);
    problem.evaluate(
        rootvalues, last_time, new_time, last_state, last_state, control);
''')],
     needs='a start state which differs from the last state, and a last state that solves the equations',
     breaks='the start state is reported as a root because the last state is one',
     demo=PROB + r'''
struct P : Prob {
  double f(double x, double) const override { return x - 3; }
  double d(double, double) const override { return 1; }
};
int main() {
  P p;
  Solver::Newtonsolver s(1e-9, 60);
  VectorXd x(1), l(1), u(1);
  x << 5; l << 3; u << 0;
  auto r = s.solve(x, p, true, false, 0, 1, l, u);
  expect(!r.success || x[0] == 3, "a reported root is a root");
  return bad;
}
'''),
dict(id='c01-refresh-linearised-elsewhere', property='C01', files=FILES,
     edits=[('src/Newtonsolver/Newtonsolver.cpp',
'''    Aux::Coeffrefhandler handler(jacobian);
    problem.d_evaluate_d_new_state(
        handler, last_time, new_time, last_state, new_state, control);
''', '''    Aux::Coeffrefhandler handler(jacobian);
    problem.d_evaluate_d_new_state(
        handler, last_time, new_time, new_state, new_state, control);
''')],
     needs='equations whose derivative with respect to the new state depends on the last state, with an in-place Jacobian update',
     breaks='the in-place update evaluates the Jacobian at the wrong last state',
     demo=PROB + r'''
struct P : Prob {
  mutable double seen = -1;
  double f(double x, double l) const override { return (1 + l * l) * x - 3; }
  double d(double, double l) const override { seen = l; return 1 + l * l; }
};
int main() {
  P p;
  Solver::Newtonsolver s(1e-12, 3);
  VectorXd x(1), l(1), u(1);
  x << 0.1; l << 2; u << 0;
  s.evaluate_state_derivative_triplets(p, 0, 1, l, x, u);
  s.evaluate_state_derivative_coeffref(p, 0, 1, l, x, u);
  expect(p.seen == 2, "the derivative is evaluated at the last state");
  auto r = s.solve(x, p, false, false, 0, 1, l, u);
  expect(r.success && r.used_iterations <= 1, "a linear equation is solved in one step");
  return bad;
}
'''),
dict(id='c02-retry-start', property='C02', files=FILES,
     edits=[('src/Model/Problemlayer/Timeevolver.cpp',
'''    Eigen::VectorXd new_state_backup = new_state;
    while (not solstruct.success) {
      new_state = new_state_backup;
      problem''', '''    while (not solstruct.success) {
      problem''')],
     needs='a time step whose first attempt fails and a retry',
     breaks='a retried step starts from wherever the failed attempt ended (possibly not a number) instead of the start state',
     demo=PROB + r'''
struct P : Prob {
  mutable int evals = 0, prep = 0;
  mutable std::vector<double> starts;
  mutable bool first = false;
  void prepare_timestep(double, double, CV const &, CV const &) override { ++prep; first = true; }
  double f(double x, double l) const override { if (first) { starts.push_back(x); first = false; } else if (prep == 2) return std::nan(""); return x - l - 1 + 0.1 * x * x; }
  double d(double x, double) const override { return 1 + 0.2 * x; }
};
int main() {
  std::cout.setstate(std::ios::failbit);
  for (bool simp : {false, true}) {
    P p;
    json e = evolver_json();
    e["use_simplified_newton"] = simp;
    e["tolerance"] = 1e-9;
    auto ev = Model::Timeevolver::make_pointer_instance(e);
    VectorXd t(4), x0(1);
    t << 0, 1, 2, 3; x0 << 0.5;
    InterpolatingVector u(t, 0), s(t, 1);
    bool threw = false;
    try { ev->simulate(x0, u, p, s); } catch (std::exception &) { threw = true; }
    expect(!threw, "the retried step succeeds");
    expect(p.starts.size() == 4 && p.starts[1] == p.starts[2], "every attempt of a step starts from the same state");
    if (!threw) for (int i = 1; i < 4; ++i) expect(fabs(p.f(s.vector_at_index(i)[0], s.vector_at_index(i - 1)[0])) < 1e-8, "stored states solve the equations");
  }
  return bad;
}
'''),
dict(id='c02-cache-in-place', property='C02', files=FILES,
     edits=[('src/Optimization_helpers/ControlStateCache.cpp',
'''    Aux::InterpolatingVector states(state_timepoints, initial_state.size());
    try {
      evolver->simulate(initial_state, controls, problem, states);
    } catch (...) {
      failed = Cacheentry{controls, state_timepoints, initial_state};
      return false;
    }
    cache = std::make_pair(
        Cacheentry{controls, state_timepoints, initial_state},
        std::move(states));
    return true;
''', '''    // simulate directly into the cached states, saves an allocation
    if (cache.second.get_inner_length() != initial_state.size()
        or cache.second.size() != state_timepoints.size()
        or cache.second.get_interpolation_points() != state_timepoints) {
      cache.second = Aux::InterpolatingVector(
          state_timepoints, initial_state.size());
    }
    try {
      evolver->simulate(initial_state, controls, problem, cache.second);
    } catch (...) {
      failed = Cacheentry{controls, state_timepoints, initial_state};
      return false;
    }
    cache.first = Cacheentry{controls, state_timepoints, initial_state};
    return true;
''')],
     needs='a successful simulation, then one which fails in a later time step, then a request for the first controls',
     breaks='the failed simulation has overwritten the cached states which still carry the label of the earlier controls',
     demo=PROB + r'''
struct P : Prob {
  void evaluate(Eigen::Ref<VectorXd> r, double, double t, CV const &l, CV const &x, CV const &u) const override { r[0] = (u[0] > 5 && t > 2.5) ? 1 + x[0] * x[0] : x[0] - l[0] - u[0]; }
  double f(double, double) const override { return 0; }
  double d(double, double) const override { return 1; }
};
int main() {
  std::cout.setstate(std::ios::failbit);
  P p;
  Optimization::ControlStateCache c(Model::Timeevolver::make_pointer_instance(evolver_json()));
  VectorXd t(4), x0(1);
  t << 0, 1, 2, 3; x0 << 0.5;
  InterpolatingVector u(t, 1), v(t, 1);
  u.setZero(); v.setZero();
  for (int i = 0; i < 4; ++i) { u.mut_timestep(i)[0] = 1; v.mut_timestep(i)[0] = 10; }
  expect(c.refresh_cache(p, u, t, x0), "first simulation");
  expect(!c.refresh_cache(p, v, t, x0), "second simulation fails");
  auto *s = c.check_and_supply_states(p, u, t, x0);
  expect(s != nullptr, "states of the first controls");
  if (s) for (int i = 0; i < 4; ++i) expect(close_(s->vector_at_index(i)[0], 0.5 + i), "states belong to the controls");
  return bad;
}
'''),
]
