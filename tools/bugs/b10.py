FILES = ['h.hpp', 'mk.hpp', 'optprob.hpp', 'gasnet.hpp']
IV = 'src/Auxillary/InterpolatingVector/InterpolatingVector.cpp'
CJ = 'src/IpoptWrapper/ConstraintJacobian.cpp'
IO = 'src/IpoptWrapper/ImplicitOptimizer.cpp'
WR = 'src/IpoptWrapper/Wrapper.cpp'
OPT = r'''
#include "optprob.hpp"
#include <iostream>
using namespace Optimization;
'''
FAKE = r'''
#include "Wrapper.hpp"
#include "Optimizer.hpp"
using namespace Eigen;
struct Fake : Optimization::Optimizer {
  Index n = 2, m = 1, z = 2;
  long announced = 0;
  bool supply_constraint_jacobian_indices(Ref<VectorX<Ipopt::Index>> r, Ref<VectorX<Ipopt::Index>> c) const override { r.setZero(); c.setZero(); return true; }
  Index get_total_no_controls() const override { return n; }
  Index get_total_no_constraints() const override { return m; }
  Index get_no_nnz_in_jacobian() const override { return z; }
  void new_x() override { ++announced; }
  bool evaluate_objective(Ref<VectorXd const> const &, double &o) override { o = 1; return true; }
  bool evaluate_cost(Ref<VectorXd const> const &, double &o) override { o = 2; return true; }
  bool evaluate_penalty(Ref<VectorXd const> const &, double &o) override { o = 3; return true; }
  bool evaluate_constraints(Ref<VectorXd const> const &, Ref<VectorXd> o) override { o.setOnes(); return true; }
  bool evaluate_objective_gradient(Ref<VectorXd const> const &, Ref<VectorXd> o) override { o.setOnes(); return true; }
  bool evaluate_constraint_jacobian(Ref<VectorXd const> const &, Ref<VectorXd> o) override { o.setOnes(); return true; }
  VectorXd get_initial_controls() override { return VectorXd::Zero(n); }
  VectorXd get_lower_bounds() override { return VectorXd::Zero(n); }
  VectorXd get_upper_bounds() override { return VectorXd::Zero(n); }
  VectorXd get_constraint_lower_bounds() override { return VectorXd::Zero(m); }
  VectorXd get_constraint_upper_bounds() override { return VectorXd::Zero(m); }
};
'''
BUGS = [
dict(id='c10-copy-when-same-size', property='C10', files=FILES,
     edits=[(IV, '''    for (Eigen::Index index = 0; index != size(); ++index) {
      mut_timestep(index) = values(interpolation_point_at_index(index));
    }''', '''    bool const same_grid
        = size() == values.size()
          and interpolation_point_at_index(0)
                  == values.interpolation_point_at_index(0)
          and interpolation_point_at_index(size() - 1)
                  == values.interpolation_point_at_index(size() - 1);
    for (Eigen::Index index = 0; index != size(); ++index) {
      if (same_grid) {
        mut_timestep(index) = values.vector_at_index(index);
      } else {
        mut_timestep(index) = values(interpolation_point_at_index(index));
      }
    }''')],
     needs='a source and a target with the same number of interpolation points and the same ends, but different points in between',
     breaks='re-interpolation copies the values to the wrong times',
     demo=r'''
#include "InterpolatingVector.hpp"
int main() {
  Aux::InterpolatingVector a(std::vector<double>{0, 1, 4}, 1), b(std::vector<double>{0, 2, 4}, 1);
  for (int i = 0; i < 3; ++i) a.mut_timestep(i) = Eigen::VectorXd::Constant(1, a.interpolation_point_at_index(i));
  b.interpolate_from(a);
  expect(close_(b(2.0)[0], 2), "value at 2");
  return bad;
}
'''),
dict(id='c10-structure-by-ends', property='C10', files=FILES,
     edits=[(IV, '''    if (vec1.get_interpolation_points() != vec2.get_interpolation_points()) {
      return false;
    }
    return true;
  }''', '''    auto const points1 = vec1.get_interpolation_points();
    auto const points2 = vec2.get_interpolation_points();
    auto const last = points1.size() - 1;
    // the points are sorted, comparing the ends settles it.
    if (last >= 0
        and (points1[0] != points2[0] or points1[last] != points2[last])) {
      return false;
    }
    return true;
  }''')],
     needs='two vectors of equal size and equal time span that differ in a point in between',
     breaks='vectors over different times compare equal and can be assigned to each other',
     demo=r'''
#include "InterpolatingVector.hpp"
int main() {
  Aux::InterpolatingVector a(std::vector<double>{0, 1, 4}, 1), b(std::vector<double>{0, 2, 4}, 1);
  a.setZero(); b.setZero();
  expect(not (a == b), "vectors over different times are different");
  return bad;
}
'''),
dict(id='c11-first-buffer-stays', property='C11', files=FILES,
     edits=[(CJ, '    values = new_values;\n', '    if (values == nullptr) {\n      values = new_values;\n    }\n')],
     needs='two requests that bring different buffers',
     breaks='the values of the second request are written into the buffer of the first',
     demo=r'''
#include "ConstraintJacobian.hpp"
int main() {
  Eigen::VectorXd g(2), c(2);
  g << 1, 2; c << 0, 2;
  Optimization::MappedConstraintJacobian m(nullptr, 4, 1, 1, g, c);
  double a[4] = {}, b[4] = {};
  m.replace_storage(a, 4);
  m.setOnes();
  m.replace_storage(b, 4);
  a[0] = 5;
  m.setOnes();
  expect(b[0] == 1 and b[3] == 1 and a[0] == 5, "the second buffer is filled, the first left alone");
  return bad;
}
'''),
dict(id='c12-flag-before-derivatives', property='C12', files=FILES,
     edits=[(IO, '''    // Here we go backwards through the timesteps:
    {
      objective_gradient.setZero();''', '''    derivatives_up_to_date = true;
    // Here we go backwards through the timesteps:
    {
      objective_gradient.setZero();''')],
     needs='a derivative computation that fails because the equations are singular, then a second request for the same controls',
     breaks='the second request hands out a half-computed gradient as if it were right',
     demo=OPT + r'''
int main() {
  std::cout.setstate(std::ios::failbit);
  rng.seed(3);
  for (int k = 0; k < 40; ++k) {
    Setup s = Setup::random();
    auto o = s.make();
    VectorXd x = VectorXd::NullaryExpr(o->get_total_no_controls(), [] { return uni(-1, 1); });
    double f;
    if (not o->evaluate_objective(x, f)) continue;
    s.prob->singular = true;
    VectorXd g(x.size()), h(x.size());
    bool a = o->evaluate_objective_gradient(x, g), b = o->evaluate_objective_gradient(x, h);
    expect(not a and not b, "a failed derivative stays failed");
  }
  return bad;
}
'''),
dict(id='c12-bounds-of-start', property='C12', files=FILES,
     edits=[(IO, '''        = Aux::InterpolatingVector::construct_and_interpolate_from(
            constraint_timepoints, constraints_per_step(),
            init->constraint_upper_bounds);''', '''        = Aux::InterpolatingVector::construct_and_interpolate_from(
            constraint_timepoints, constraints_per_step(),
            init->constraint_lower_bounds);
    for (Eigen::Index index = 0; index != constraint_upper_bounds.size();
         ++index) {
      // the values in between are averages, read the given ones directly
      auto time = constraint_upper_bounds.interpolation_point_at_index(index);
      constraint_upper_bounds.mut_timestep(index)
          = init->constraint_upper_bounds.vector_at_index(std::min(
              compute_index_lambda(
                  init->constraint_upper_bounds.get_interpolation_points(),
                  time)
                  .first,
              init->constraint_upper_bounds.size() - 1));
    }''')],
     needs='constraint bounds that are given at other times than those the constraints are imposed at',
     breaks='the upper constraint bounds are those of a later time',
     demo=OPT + r'''
int main() {
  std::cout.setstate(std::ios::failbit);
  rng.seed(3);
  for (int k = 0; k < 40; ++k) {
    Setup s = Setup::random();
    if (not s.gt.size()) continue;
    auto o = s.make();
    auto b = o->get_constraint_upper_bounds();
    auto given = Setup::iv(s.ict, s.cub, s.ng);
    for (Index i = 0; i < s.gt.size(); ++i)
      for (int j = 0; j < s.ng; ++j) expect(close_(b[i * s.ng + j], given(s.gt[i])[j]), "upper bound of a constraint");
  }
  return bad;
}
'''),
dict(id='c13-uneven-weights', property='C13', files=FILES,
     edits=[(IO, '''          = 0.5 * (timepoints[index + 1] - timepoints[index - 1]);''', '''          = timepoints[index + 1] - timepoints[index];''')],
     needs='state times that are not equidistant',
     breaks='the objective is not the integral of cost and penalty over time',
     demo=OPT + r'''
int main() {
  std::cout.setstate(std::ios::failbit);
  rng.seed(3);
  for (int k = 0; k < 40; ++k) {
    Setup s = Setup::random();
    auto o = s.make();
    VectorXd w = o->get_integral_weights();
    for (Index i = 1; i + 1 < w.size(); ++i) expect(close_(w[i], 0.5 * (s.st[i + 1] - s.st[i - 1])), "weights of the trapezoidal rule");
  }
  return bad;
}
'''),
dict(id='c13-penalty-forgotten-once', property='C13', files=FILES,
     edits=[(IO, '''    problem->d_evaluate_penalty_d_control(
        fcontrol_handler, time, states(time), controls(time));
  }''', '''    if (state_index != 1 or state_steps() == 2) {
      problem->d_evaluate_penalty_d_control(
          fcontrol_handler, time, states(time), controls(time));
    }
  }''')],
     needs='at least three state times and a penalty that depends on the controls',
     breaks='the gradient misses the penalty of the first step',
     demo=OPT + r'''
int main() {
  std::cout.setstate(std::ios::failbit);
  rng.seed(3);
  for (int k = 0; k < 60; ++k) {
    Setup s = Setup::random();
    auto o = s.make();
    VectorXd x = VectorXd::NullaryExpr(o->get_total_no_controls(), [] { return uni(-0.5, 0.5); });
    VectorXd g(x.size());
    if (not o->evaluate_objective_gradient(x, g)) continue;
    for (Index i = 0; i < x.size(); ++i) {
      double h = 1e-5, a, b;
      VectorXd y = x;
      y[i] += h; o->new_x(); if (not o->evaluate_objective(y, a)) continue;
      y[i] -= 2 * h; o->new_x(); if (not o->evaluate_objective(y, b)) continue;
      expect(fabs((a - b) / (2 * h) - g[i]) < 1e-4 * (1 + fabs(g[i])), "gradient");
    }
  }
  return bad;
}
'''),
dict(id='c14-larger-value-wins', property='C14', files=FILES,
     edits=[('src/Auxillary/Matrixhandler/Matrixhandler.cpp', '''    matrix.setFromTriplets(tripletlist.begin(), tripletlist.end());
    tripletlist.clear();''', '''    matrix.setFromTriplets(tripletlist.begin(), tripletlist.end());
    matrix.prune(0.0);
    tripletlist.clear();''')],
     needs='a contribution that is zero when the structure is set up and not zero later, or that cancels another one',
     breaks='the place vanishes from the structure of the matrix',
     demo=r'''
#include "Matrixhandler.hpp"
int main() {
  Eigen::SparseMatrix<double> m(2, 2);
  Aux::Triplethandler<> h(m);
  h.add_to_coefficient(0, 0, 0.0);
  h.add_to_coefficient(1, 1, 2.0);
  h.set_matrix();
  expect(m.nonZeros() == 2, "every place that was contributed to is part of the structure");
  return bad;
}
'''),
dict(id='c14-set-matrix-keeps', property='C14', files=FILES,
     edits=[('src/Auxillary/Matrixhandler/Matrixhandler.cpp', '    tripletlist.clear();\n', '    tripletlist.reserve(tripletlist.size());\n')],
     needs='a second set_matrix on the same handler',
     breaks='the contributions of the first matrix are added to the second one',
     demo=r'''
#include "Matrixhandler.hpp"
int main() {
  Eigen::SparseMatrix<double> m(2, 2);
  Aux::Triplethandler<Aux::Transposed> h(m);
  h.add_to_coefficient(0, 1, 3.0);
  h.set_matrix();
  h.add_to_coefficient(1, 0, 4.0);
  h.set_matrix();
  expect(m.coeff(1, 0) == 0 and m.coeff(0, 1) == 4, "the second matrix holds the second contributions");
  return bad;
}
'''),
dict(id='c15-prefix-of-the-offset', property='C15', files=FILES,
     edits=[('src/Auxillary/unit_conversion/unit_conversion.cpp', '''    return conv(measurement["value"].get<double>() * parse_prefix_si(prefix));''',
             '''    return conv(measurement["value"].get<double>()) * parse_prefix_si(prefix);''')],
     needs='a temperature in Celsius or Fahrenheit with a prefix or a number before the unit',
     breaks='the prefix is applied to the offset, too',
     demo=r'''
#include "unit_conversion.hpp"
int main() {
  json j; j["value"] = 20000.0; j["unit"] = "mC";
  expect(close_(Aux::unit::temperature.parse_to_si(j), 293.15, 1e-9), "20000 mC are 293.15 K");
  return bad;
}
'''),
dict(id='c15-first-match-anywhere', property='C15', files=FILES,
     edits=[('src/Auxillary/unit_conversion/unit_conversion.cpp', '''      if (unit_size >= symb_size
          and unit.compare(unit_size - symb_size, symb_size, str_unit)
                  == 0) { // match
        return std::tuple<std::string, Conversion>(
            unit.substr(0, unit.size() - symb_size), val);''', '''      auto position = unit.rfind(str_unit);
      if (unit_size >= symb_size and position != std::string::npos) { // match
        return std::tuple<std::string, Conversion>(
            unit.substr(0, position), val);''')],
     needs='a unit whose name contains that of another one, or text behind a unit',
     breaks='the unit is read as a different one or with trailing text',
     demo=r'''
#include "unit_conversion.hpp"
int main() {
  json j; j["value"] = 1.0; j["unit"] = "km/s";
  bool threw = false;
  try { Aux::unit::length.parse_to_si(j); } catch (std::exception &) { threw = true; }
  expect(threw, "km/s is not a length");
  return bad;
}
'''),
dict(id='c16-asked-for-step', property='C16', files=FILES,
     edits=[('src/Auxillary/Stochastics/include/Stochastic.hpp', '''    number_of_stochastic_steps = compute_stable_number_of_oup_steps(
        stability_parameter, theta, delta_t, number_of_stochastic_steps);
    double stochastic_stepsize = delta_t / number_of_stochastic_steps;''', '''    int const stable_number_of_steps = compute_stable_number_of_oup_steps(
        stability_parameter, theta, delta_t, number_of_stochastic_steps);
    double stochastic_stepsize = delta_t / stable_number_of_steps;''')],
     needs='a requested number of steps that is too small to be stable',
     breaks='the process is stopped before the end of the time step',
     demo=r'''
#include "Stochastic.hpp"
struct D { int n = 0; double get_sample(double) { ++n; return 0; } };
int main() {
  D d;
  Aux::euler_maruyama_oup(0.5, 0.4, 1.0, 3.0, 1.0, 1.0, 0.1, d, 2);
  expect(d.n == 7, "all steps are taken");
  return bad;
}
'''),
dict(id='c16-band-of-negative-mean', property='C16', files=FILES,
     edits=[('src/Auxillary/Stochastics/include/Stochastic.hpp', '''      } else if (
          sgn(mu) * current_value > (1.0 + cut_off_factor) * sgn(mu) * mu) {''', '''      } else if (current_value > (1.0 + cut_off_factor) * sgn(mu) * mu) {''')],
     needs='a negative mean (production instead of demand)',
     breaks='values below the band of a negative mean are kept',
     demo=r'''
#include "Stochastic.hpp"
struct D { double get_sample(double) { return -5; } };
int main() {
  D d;
  double v = Aux::euler_maruyama_oup(0.5, 0.4, -1.0, 1.0, -1.0, 1.0, 1.0, d, 10);
  expect(v >= -1.4 - 1e-9 and v <= -0.6 + 1e-9, "value in the band");
  return bad;
}
'''),
dict(id='c16-reactive-from-active', property='C16', files=FILES,
     edits=[('src/Model/Networkproblem/Power/StochasticPQnode.cpp', '''        last_Q, stochasticdata->theta_Q, boundaryvalue(new_time)[1],''', '''        last_Q, stochasticdata->theta_Q, boundaryvalue(last_time)[1],''')],
     needs='a reactive demand that changes with time',
     breaks='the reactive demand is steered towards the value of the last time step',
     demo=r'''
#include "StochasticPQnode.hpp"
#include "Transmissionline.hpp"
int main() {
  json t = R"({"id":"n","G":1,"B":-1,"stability_parameter":0.5,"cut_off_factor":0.1,"sigma_P":0,"theta_P":3,"sigma_Q":0,"theta_Q":3,"number_of_stochastic_steps":100,"boundary_values":{"id":"n","data":[{"time":0,"values":[1,1]},{"time":1,"values":[2,5]}],"seed":[1,2,3,4,5,6,7,8]}})"_json;
  try {
    Model::Power::StochasticPQnode n(t);
    n.set_state_indices(0);
    n.setup();
    Eigen::VectorXd x(2);
    x << 1, 0;
    n.prepare_timestep(0, 1, x);
    expect(n.get_current_Q() > 4.4, "the reactive demand is in the band of the new time");
  } catch (std::exception &e) { printf("%s\n", e.what()); return 2; }
  return bad;
}
'''),
dict(id='c17-existing-result', property='C17', files=FILES,
     edits=[('src/Auxillary/Input_Output/Input_output.cpp', '''      auto filepath = output_directory / fs::path(filename);
      auto fp = std::fopen(filepath.string().c_str(), "wx");''', '''      auto filepath = output_directory / fs::path(filename);
      auto fp = std::fopen(filepath.string().c_str(), "w");''')],
     needs='a file that is already in the output directory',
     breaks='the existing file is emptied',
     demo=r'''
#include "Input_output.hpp"
#include <filesystem>
#include <fstream>
int main() {
  namespace fs = std::filesystem;
  fs::create_directories("out"); fs::create_directories("prob");
  std::ofstream("out/results.json") << "precious";
  std::ofstream("prob/a.json") << "{}";
  try { io::prepare_output_directory("out", "prob", {"results.json"}); } catch (std::exception &) {}
  std::string s;
  std::ifstream("out/results.json") >> s;
  expect(s == "precious", "an existing file is kept");
  return bad;
}
'''),
dict(id='c17-sibling-is-inside', property='C17', files=FILES,
     edits=[('src/Auxillary/Input_Output/Input_output.cpp', '''    auto [root_end_iterator, ignored_value] = std::mismatch(
        problem_root_path.begin(), problem_root_path.end(),
        absolute_path.begin(), absolute_path.end());

    if (root_end_iterator != problem_root_path.end()) {''', '''    auto root = problem_root_path.string();
    auto path = absolute_path.string();
    auto [root_end_iterator, ignored_value]
        = std::mismatch(root.begin(), root.end(), path.begin(), path.end());

    if (root_end_iterator != root.end()) {''')],
     needs='a directory beside the problem whose name starts with the name of the problem',
     breaks='a file outside the problem directory counts as inside',
     demo=r'''
#include "Input_output.hpp"
int main() {
  expect(not io::absolute_file_path_in_root("/a/b", "../bc/x.json"), "/a/bc/x.json is not inside /a/b");
  return bad;
}
'''),
dict(id='c17-backup-removed-first', property='C17', files=FILES,
     edits=[('src/Auxillary/Input_Output/Input_output.cpp', '''      if (std::filesystem::create_directory(absolute_unique_directory_path)) {
        return absolute_unique_directory_path;
      }''', '''      std::filesystem::create_directory(absolute_unique_directory_path);
      if (counter > 0
          or std::filesystem::is_empty(absolute_unique_directory_path)) {
        return absolute_unique_directory_path;
      }''')],
     needs='two runs that produce the same directory name',
     breaks='a directory that is already used is returned as a new one',
     demo=r'''
#include "Input_output.hpp"
#include <filesystem>
#include <fstream>
int main() {
  std::filesystem::create_directories("o");
  int k = 0;
  static int *kp = &k;
  auto gen = []() -> std::string { ++*kp; return *kp <= 4 ? "same" : "other" + std::to_string(*kp); };
  auto a = io::unique_output_directory("o", gen);
  auto b = io::unique_output_directory("o", gen);
  expect(a != b, "two runs get two directories");
  return bad;
}
'''),
dict(id='c18-first-missing', property='C18', files=FILES,
     edits=[('src/Model/Networkproblem/Networkproblem.cpp', '''        for (auto additional_id_index = id_index;
             additional_id_index < ids.size(); ++additional_id_index) {''', '''        for (auto additional_id_index = id_index + 1;
             additional_id_index < ids.size(); ++additional_id_index) {''')],
     needs='an initial json that misses exactly the component with the greatest id',
     breaks='the missing component is not reported and keeps whatever was in the state',
     demo=r'''
#include "gasnet.hpp"
#include "Net.hpp"
#include "Networkproblem.hpp"
int main() {
  std::cout.setstate(std::ios::failbit);
  std::vector<std::unique_ptr<Network::Node>> n;
  std::vector<std::unique_ptr<Network::Edge>> e;
  for (int i = 0; i < 2; ++i) { json j; j["id"] = "n" + std::to_string(i); n.push_back(std::make_unique<Innode>(j)); }
  for (auto id : {"p0", "p1"}) { json j; j["id"] = id; j["from"] = "n0"; j["to"] = "n1"; e.push_back(std::make_unique<Shortpipe>(j, n)); }
  Model::Networkproblem p(std::make_unique<Network::Net>(std::move(n), std::move(e)));
  Index k = p.set_state_indices(0);
  VectorXd x = VectorXd::Zero(k);
  json init = R"({"connections":{"Shortpipe":[{"id":"p0","data":[{"x":0,"values":[60,1]},{"x":1,"values":[60,1]}]}]}})"_json;
  bool threw = false;
  try { p.set_initial_values(x, init); } catch (std::exception &) { threw = true; }
  expect(threw, "the missing entry of p1 is reported");
  return bad;
}
'''),
dict(id='c18-duplicate-across-types', property='C18', files=FILES,
     edits=[('src/Auxillary/ComponentJsonHelpers/ComponentJsonHelpers.cpp', '''    auto first_eq_id
        = std::adjacent_find(component_vector.begin(), component_vector.end());
    if (first_eq_id != component_vector.end()) {''', '''    auto first_eq_id = component_vector.end();
    for (size_t i = 0; i + 1 < component_vector.size(); i += 2) {
      if (component_vector[i] == component_vector[i + 1]) {
        first_eq_id = component_vector.begin() + static_cast<long>(i);
        break;
      }
    }
    if (first_eq_id != component_vector.end()) {''')],
     needs='a duplicated id with an odd number of smaller ids',
     breaks='the duplicate is accepted',
     demo=r'''
#include "ComponentJsonHelpers.hpp"
int main() {
  json j = R"({"nodes":{"A":[{"id":"a"},{"id":"b"}],"B":[{"id":"b"}]}})"_json;
  bool threw = false;
  try { Aux::check_for_duplicates(j, "topology"); } catch (std::exception &) { threw = true; }
  expect(threw, "the id b appears twice");
  return bad;
}
'''),
dict(id='c18-boundary-order', property='C18', files=FILES,
     edits=[('src/Model/Netfactory/Netfactory.cpp', '''    Aux::sort_json_vectors_by_id(boundary, boundary_key);
''', '''    Aux::check_for_duplicates(boundary, boundary_key);
''')],
     needs='boundary values that are not listed in the order of their ids',
     breaks='the entries of components are not found',
     demo=r'''
#include "Netfactory.hpp"
int main() {
  std::vector<std::string> keep;
  json j = R"({"topology_json":{"nodes":{"A":[{"id":"a"},{"id":"b"}]}},"boundary_json":{"nodes":{"A":[{"id":"b","v":2},{"id":"a","v":1}]}}})"_json;
  try {
    json t = Model::build_full_networkproblem_json(j);
    for (auto &c : t["nodes"]["A"]) expect(c["boundary_values"]["id"] == c["id"], "boundary values of the component");
  } catch (std::exception &) { expect(false, "complete boundary values are accepted"); }
  return bad;
}
'''),
dict(id='c19-attach-before-check', property='C19', files=FILES,
     edits=[('src/Model/Network/Edge.cpp', '''    if (starting_node == ending_node) {
      gthrow({"cannot create an edge from a node to itself!"});
    }
    starting_node->attach_starting_edge(this);
''', '''    starting_node->attach_starting_edge(this);
    if (starting_node == ending_node) {
      gthrow({"cannot create an edge from a node to itself!"});
    }
''')],
     needs='the refusal of an edge from a node to itself, then use of the node',
     breaks='the node keeps a pointer to an edge that does not exist',
     demo=r'''
#include "Edge.hpp"
#include "Node.hpp"
struct N : Network::Node { using Network::Node::Node; };
struct E : Network::Edge { using Network::Edge::Edge; };
int main() {
  std::vector<std::unique_ptr<Network::Node>> n;
  n.push_back(std::make_unique<N>(R"({"id":"a"})"_json));
  bool threw = false;
  try { E e(R"({"id":"e","from":"a","to":"a"})"_json, n); } catch (std::exception &) { threw = true; }
  expect(threw, "refused");
  expect(n[0]->get_starting_edges().empty(), "no edge is left at the node");
  return bad;
}
'''),
dict(id='c19-last-of-parallel', property='C19', files=FILES,
     edits=[('src/Model/Network/Node.cpp', '''      if ((*it) == to_remove) {
        attached_edges->ending_edges.erase(it);
        return true;
      }''', '''      if ((*it)->get_starting_node() == to_remove->get_starting_node()
          and (*it)->get_ending_node() == to_remove->get_ending_node()) {
        attached_edges->ending_edges.erase(it);
        return true;
      }''')],
     needs='parallel edges between two nodes, the later of which is removed',
     breaks='another edge than the given one is removed',
     demo=r'''
#include "Edge.hpp"
#include "Node.hpp"
struct N : Network::Node { using Network::Node::Node; };
struct E : Network::Edge { using Network::Edge::Edge; };
int main() {
  std::vector<std::unique_ptr<Network::Node>> n;
  n.push_back(std::make_unique<N>(R"({"id":"a"})"_json));
  n.push_back(std::make_unique<N>(R"({"id":"b"})"_json));
  E e(R"({"id":"e","from":"a","to":"b"})"_json, n), f(R"({"id":"f","from":"a","to":"b"})"_json, n);
  expect(n[1]->remove_edge(&f), "removed");
  expect(n[1]->get_ending_edges() == std::vector<Network::Edge *>{&e}, "the other edge stays");
  return bad;
}
'''),
dict(id='c20-nothing-to-evaluate', property='C20', files=FILES,
     edits=[(WR, '''      Ipopt::Index number_of_constraints, Ipopt::Number *g) {
    if (new_x) {''', '''      Ipopt::Index number_of_constraints, Ipopt::Number *g) {
    if (number_of_constraints == 0) {
      // nothing to evaluate
      return true;
    }
    if (new_x) {''')],
     needs='a problem without constraints whose solver asks for the constraints first at a new point',
     breaks='the optimizer never learns of the new point and answers with the results of the old one',
     demo=FAKE + r'''
int main() {
  auto own = std::make_unique<Fake>();
  Fake &f = *own;
  f.m = 0; f.z = 0;
  Optimization::IpoptWrapper w(std::move(own));
  double x[2] = {1, 2}, g[1];
  w.eval_g(2, x, true, 0, g);
  expect(f.announced == 1, "the new point is announced");
  return bad;
}
'''),
dict(id='c20-wraps-around', property='C20', files=FILES,
     edits=[(WR, '''    if (number_of_nonzeros_in_jacobian
        > std::numeric_limits<Ipopt::Index>::max()) {''', '''    if (static_cast<Ipopt::Index>(number_of_nonzeros_in_jacobian) < 0) {''')],
     needs='a Jacobian with more than 4294967295 entries',
     breaks='the number of entries wraps around and a wrong one is handed to Ipopt',
     demo=FAKE + r'''
int main() {
  auto own = std::make_unique<Fake>();
  own->z = 4294967296L + 3;
  Optimization::IpoptWrapper w(std::move(own));
  Ipopt::Index n, m, z, h;
  Ipopt::TNLP::IndexStyleEnum s;
  expect(not w.get_nlp_info(n, m, z, h, s), "a problem that is too large is refused");
  return bad;
}
'''),
]
