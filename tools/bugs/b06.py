FILES = ['h.hpp', 'mk.hpp', 'optprob.hpp', 'gasnet.hpp']
LOOP = r'''
#include "gasnet.hpp"
#include "Net.hpp"
#include "Networkproblem.hpp"
'''
BUGS = [
dict(id='c06-middle-direction', property='C06', files=FILES,
     edits=[('src/Model/Networkproblem/Gas/Gasnode.cpp',
             '      Eigen::RowVector2d dF_last_dpq_now(0.0, direction);', '      Eigen::RowVector2d dF_last_dpq_now(0.0, dir0);')],
     needs='a node with at least three attached gas edges, a middle one directed unlike the first',
     breaks='the derivative of the flow balance with respect to the flow of a middle edge has the wrong sign',
     demo=LOOP + r'''
int main() {
  rng.seed(5);
  for (int k = 0; k < 200; ++k) {
    Gasnet g;
    VectorXd x = g.randomstate();
    for (size_t i = 0; i < g.nodes.size(); ++i) {
      if (g.ntype[i] == 5) continue;
      auto *e = dynamic_cast<Model::Equationcomponent *>(g.nodes[i].get());
      Rec J(g.n, g.n);
      e->d_evaluate_d_new_state(J, 0, 1, x, x);
      for (Index c = 0; c < g.n; ++c) {
        double h = 1e-2;
        VectorXd a = x, b = x, ra = VectorXd::Zero(g.n), rb = ra;
        a[c] += h; b[c] -= h;
        e->evaluate(ra, 0, 1, x, a);
        e->evaluate(rb, 0, 1, x, b);
        VectorXd d = (ra - rb) / (2 * h);
        for (Index r = 0; r < g.n; ++r) expect(fabs(d[r] - J.M(r, c)) < 1e-3 * (1 + fabs(d[r])), "node Jacobian");
      }
    }
  }
  return bad;
}
'''),
dict(id='c06-skips-behind-foreign-edge', property='C06', files=FILES,
     edits=[('src/Model/Networkproblem/Gas/Gasnode.cpp',
'''                  << startedge->get_id() << " is attached at node " << get_id()
                  << std::endl;
        std::cout << "node id: " << get_id() << std::endl;
        continue;''',
'''                  << startedge->get_id() << " is attached at node " << get_id()
                  << std::endl;
        std::cout << "node id: " << get_id() << std::endl;
        break;''')],
     needs='a gas node from which an edge of another kind starts before a gas edge starts',
     breaks='the gas edges behind the foreign edge are not part of the node: their boundary equations are never written',
     demo=LOOP + r'''
int main() {
  std::cout.setstate(std::ios::failbit);
  std::vector<std::unique_ptr<Network::Node>> n;
  for (int i = 0; i < 3; ++i) { json j; j["id"] = "n" + std::to_string(i); n.push_back(std::make_unique<Innode>(j)); }
  auto mk = [&](char const *id, char const *a, char const *b) { json j; j["id"] = id; j["from"] = a; j["to"] = b; j["G"] = 1.0; j["B"] = 1.0; return j; };
  Shortpipe p0(mk("p0", "n0", "n1"), n);
  Model::Power::Transmissionline t(mk("t", "n0", "n2"), n);
  Shortpipe p1(mk("p1", "n0", "n2"), n);
  Index k = p0.set_state_indices(0);
  k = p1.set_state_indices(k);
  dynamic_cast<Innode *>(n[0].get())->setup();
  VectorXd x(8), r = VectorXd::Constant(8, 1e9);
  x << 3, 10, 4, 11, 5, 20, 6, 21;
  dynamic_cast<Innode *>(n[0].get())->evaluate(r, 0, 1, x, x);
  expect(close_(r[0], 2), "equal pressure of the two pipes");
  expect(close_(r[4], 30), "flow balance");
  return bad;
}
'''),
dict(id='c07-sink-derivative-end', property='C07', files=FILES,
     edits=[('src/Model/Networkproblem/Gas/ConstraintSink.cpp',
'''    auto first_direction = directed_attached_gas_edges[0].first;
    auto *sample_gas_edge = directed_attached_gas_edges[0].second;
    auto index''', '''    auto first_direction = directed_attached_gas_edges.back().first;
    auto *sample_gas_edge = directed_attached_gas_edges[0].second;
    auto index''')],
     needs='a constrained sink with a starting and an ending edge',
     breaks='the constraint derivative refers to the wrong end of the first edge',
     demo=LOOP + r'''
int main() {
  std::cout.setstate(std::ios::failbit);
  std::vector<std::unique_ptr<Network::Node>> n;
  for (int i = 0; i < 3; ++i) {
    json j, e0, e1; j["id"] = "n" + std::to_string(i);
    e0["time"] = 0.0; e0["values"] = {1.0}; e1["time"] = 10.0; e1["values"] = {1.0};
    j["boundary_values"]["data"] = json::array({e0, e1}); j["boundary_values"]["id"] = j["id"];
    n.push_back(std::make_unique<ConstraintSink>(j));
  }
  auto mk = [&](char const *id, char const *a, char const *b) { json j; j["id"] = id; j["from"] = a; j["to"] = b; return j; };
  Shortpipe p0(mk("p0", "n0", "n1"), n), p1(mk("p1", "n1", "n2"), n);
  Index k = p0.set_state_indices(0);
  k = p1.set_state_indices(k);
  k = 0;
  for (auto &q : n) { auto *c = dynamic_cast<ConstraintSink *>(q.get()); k = c->set_constraint_indices(k); c->setup(); }
  VectorXd x = VectorXd::LinSpaced(8, 1, 8), u(0), g(3), h(3);
  Rec J(3, 8);
  for (auto &q : n) { auto *c = dynamic_cast<ConstraintSink *>(q.get()); c->evaluate_constraint(g, 1, x, u); c->d_evaluate_constraint_d_state(J, 1, x, u); }
  for (int i = 0; i < 8; ++i) {
    VectorXd y = x; y[i] += 1;
    for (auto &q : n) dynamic_cast<ConstraintSink *>(q.get())->evaluate_constraint(h, 1, y, u);
    expect((h - g - J.M.col(i)).norm() < 1e-9, "constraint derivative");
  }
  return bad;
}
'''),
dict(id='c07-cost-of-negative-control', property='C07', files=FILES,
     edits=[('src/Model/Networkproblem/Gas/Compressorstation.cpp',
             '    return get_cost_weight() * current_control * current_control;', '    return current_control < 0 ? 0.0 : get_cost_weight() * current_control * current_control;')],
     needs='a negative control value',
     breaks='a compressor lowering the pressure has no cost but its cost derivative is not zero',
     demo=LOOP + r'''
int main() {
  std::cout.setstate(std::ios::failbit);
  std::vector<std::unique_ptr<Network::Node>> n;
  for (int i = 0; i < 2; ++i) { json j; j["id"] = "n" + std::to_string(i); n.push_back(std::make_unique<Innode>(j)); }
  json j; j["id"] = "c"; j["from"] = "n0"; j["to"] = "n1";
  Compressorstation c(j, n);
  c.set_state_indices(0); c.set_control_indices(1);
  VectorXd x = VectorXd::Ones(4), u(2);
  for (double v : {-3.0, -0.5, 0.0, 2.0}) {
    u << 7, v;
    expect(close_(c.evaluate_cost(1, x, u), c.get_cost_weight() * v * v), "cost");
  }
  return bad;
}
'''),
dict(id='c08-swapped-smoothing', property='C08', files=FILES,
     edits=[('src/Model/Networkproblem/Gaspowerconnection/Gaspowerconnection.cpp',
'''              - 0.75 * (power2gas_q_coefficient - gas2power_q_coefficient) * rel
              + 0.25 * (power2gas_q_coefficient - gas2power_q_coefficient) * rel
                    * rel * rel);''',
'''              - 0.75 * (power2gas_q_coefficient - gas2power_q_coefficient) * rel
              + 0.25 * (power2gas_q_coefficient - gas2power_q_coefficient)
                    * std::abs(rel) * rel * rel);''')],
     needs='different coefficients and a flow between -60 and 0',
     breaks='the power in the transition is no longer the polynomial whose derivative is reported',
     demo=LOOP + r'''
int main() {
  std::cout.setstate(std::ios::failbit);
  std::vector<std::unique_ptr<Network::Node>> n;
  for (int i = 0; i < 2; ++i) { json j; j["id"] = "n" + std::to_string(i); n.push_back(std::make_unique<Innode>(j)); }
  json j; j["id"] = "c"; j["from"] = "n0"; j["to"] = "n1"; j["gas2power_q_coeff"] = 0.5; j["power2gas_q_coeff"] = 2.0;
  GPC c(j, n);
  for (double q = -90; q <= 90; q += 0.37) {
    double h = 1e-4, d = (c.generated_power(q + h) - c.generated_power(q - h)) / (2 * h);
    expect(fabs(d - c.dgenerated_power_dq(q)) < 1e-4, "derivative of the power");
    expect(fabs(c.generated_power(q + h) - c.generated_power(q - h)) < 1e-2, "continuity");
  }
  return bad;
}
'''),
dict(id='c09-control-or-cost', property='C09', files=FILES,
     edits=[('src/Model/Networkproblem/Networkproblem.cpp',
'''      if (auto costcomponent = dynamic_cast<Costcomponent *>(edge)) {''',
'''      else if (auto costcomponent = dynamic_cast<Costcomponent *>(edge)) {''')],
     needs='an edge that has both a control and a cost (a compressor)',
     breaks='the cost of compressors never reaches the problem',
     demo=LOOP + r'''
int main() {
  rng.seed(3);
  for (int k = 0; k < 60; ++k) {
    Gasnet g;
    std::vector<Model::Costcomponent *> co;
    for (auto &e : g.edges) if (auto *c = dynamic_cast<Model::Costcomponent *>(e.get())) co.push_back(c);
    Model::Networkproblem p(std::make_unique<Network::Net>(std::move(g.nodes), std::move(g.edges)));
    p.init(0, 0, 0);
    VectorXd x = VectorXd::Constant(p.get_number_of_states(), 50), u = VectorXd::LinSpaced(p.get_number_of_controls_per_timepoint(), 1, 9);
    double want = 0;
    for (auto *c : co) want += c->evaluate_cost(1, x, u);
    expect(close_(p.evaluate_cost(1, x, u), p.get_cost_weight() * want), "cost of the problem is the sum over its components");
  }
  return bad;
}
'''),
dict(id='c09-prepare-time', property='C09', files=FILES,
     edits=[('src/Model/Networkproblem/Networkproblem.cpp',
'''      controlcomponent->d_evaluate_d_last_state(
          jacobianhandler, last_time, new_time, last_state, new_state, control);''',
'''      controlcomponent->d_evaluate_d_last_state(
          jacobianhandler, last_time, new_time, new_state, new_state, control);''')],
     needs='a controlled component whose derivative with respect to the last state depends on the last state',
     breaks='controlled components are asked for their derivative at the wrong last state',
     demo=LOOP + r'''
#include "SimpleControlcomponent.hpp"
struct E : Network::Edge, Model::Controlcomponent {
  E(json const &j, std::vector<std::unique_ptr<Network::Node>> &n) : Network::Edge(j, n) {}
  void evaluate(Eigen::Ref<VectorXd>, double, double, Eigen::Ref<VectorXd const> const &, Eigen::Ref<VectorXd const> const &, Eigen::Ref<VectorXd const> const &) const override {}
  void d_evaluate_d_new_state(Aux::Matrixhandler &, double, double, Eigen::Ref<VectorXd const> const &, Eigen::Ref<VectorXd const> const &, Eigen::Ref<VectorXd const> const &) const override {}
  void d_evaluate_d_last_state(Aux::Matrixhandler &h, double, double, Eigen::Ref<VectorXd const> const &l, Eigen::Ref<VectorXd const> const &x, Eigen::Ref<VectorXd const> const &) const override { h.add_to_coefficient(0, 0, 2 * l[0] + x[0]); }
  void d_evaluate_d_control(Aux::Matrixhandler &, double, double, Eigen::Ref<VectorXd const> const &, Eigen::Ref<VectorXd const> const &, Eigen::Ref<VectorXd const> const &) const override {}
  void setup() override {}
  std::string componentclass() const override { return "c"; }
  std::string componenttype() const override { return "t"; }
  std::string id() const override { return "i"; }
  Index set_control_indices(Index i) override { return i; }
  void set_initial_controls(Aux::InterpolatingVector_Base &, json const &) const override {}
  void set_lower_bounds(Aux::InterpolatingVector_Base &, json const &) const override {}
  void set_upper_bounds(Aux::InterpolatingVector_Base &, json const &) const override {}
  void save_controls_to_json(Aux::InterpolatingVector_Base const &, json &) const override {}
};
int main() {
  std::cout.setstate(std::ios::failbit);
  std::vector<std::unique_ptr<Network::Node>> n;
  std::vector<std::unique_ptr<Network::Edge>> e;
  for (int i = 0; i < 2; ++i) { json j; j["id"] = "n" + std::to_string(i); n.push_back(std::make_unique<Innode>(j)); }
  json j; j["id"] = "c"; j["from"] = "n0"; j["to"] = "n1";
  e.push_back(std::make_unique<E>(j, n));
  Model::Networkproblem p(std::make_unique<Network::Net>(std::move(n), std::move(e)));
  VectorXd l(1), x(1), u(0);
  l << 3; x << 10;
  Rec J(1, 1);
  p.d_evaluate_d_last_state(J, 0, 1, l, x, u);
  expect(J.M(0, 0) == 16, "derivative at the given states");
  return bad;
}
'''),
]
