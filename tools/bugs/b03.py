PIPE = '''
#include "Pipe.hpp"
#include "Innode.hpp"
#include "Matrixhandler.hpp"
#include "Isothermaleulerequation.hpp"
#include "Implicitboxscheme.hpp"
using namespace Model;
'''
BL = '''
#include "Isothermaleulerequation.hpp"
using namespace Model::Balancelaw;
static json topo() { json j; j["diameter"] = {{"value", 0.5}, {"unit", "m"}}; j["roughness"] = {{"value", 0.0001}, {"unit", "m"}}; return j; }
'''
POWER = '''
#include "PQnode.hpp"
#include "Transmissionline.hpp"
using namespace Model::Power;
static json nodej(string id) { json j; j["id"] = id; j["G"] = 0.7; j["B"] = -1.3; json e; e["time"] = 0.0; e["values"] = {0.0, 0.0}; json f = e; f["time"] = 10.0;
  j["boundary_values"]["data"] = json::array({e, f}); j["boundary_values"]["id"] = id; return j; }
static json linej(string id, string a, string b) { json j; j["id"] = id; j["from"] = a; j["to"] = b; j["G"] = 0.4; j["B"] = -2.0; return j; }
'''
BUGS = [
dict(id='c03-friction-derivative-sign', property='C03',
     edits=[('src/Model/Balancelaw/Isothermaleulerequation.cpp',
             '''               + lambda_non_laminar(Re, diameter, roughness) * Aux::dabs_dx(q)
                     * q
               + lambda_non_laminar(Re, diameter, roughness) * std::abs(q));''',
             '''               + 2 * lambda_non_laminar(Re, diameter, roughness) * q);''')],
     needs='a pipe state with backward (negative) flow outside the laminar regime',
     breaks='dsource_dstate is no longer the derivative of source for negative turbulent flow',
     demo=BL + '''
int main() {
  Isothermaleulerequation bl(topo());
  for (double q : {50.0, -50.0, 0.5, -0.5}) {
    Eigen::Vector2d s(45.0, q), a = s, b = s;
    double h = 1e-6 * fabs(q);
    a[1] += h; b[1] -= h;
    double d = (bl.source(a)[1] - bl.source(b)[1]) / (2 * h);
    expect(close_(d, bl.dsource_dstate(s)(1, 1), 1e-5), "friction derivative with respect to flow");
  }
  return bad;
}
'''),
dict(id='c03-transition-border', property='C03',
     edits=[('src/Model/Balancelaw/Isothermaleulerequation.cpp',
             '''    if (Re > turbulent_border) {
      return dSwamee_Jain_dRe(Re, diameter, roughness);''',
             '''    if (Re > laminar_border + turbulent_border) {
      return dSwamee_Jain_dRe(Re, diameter, roughness);''')],
     needs='a Reynolds number between 4000 and 6000',
     breaks='between Re 4000 and 6000 the derivative of the friction factor is that of the transition polynomial while the value is Swamee-Jain',
     demo=BL + '''
int main() {
  for (double Re : {2500.0, 3500.0, 4500.0, 5500.0, 7000.0, 1e5}) {
    double h = 1e-3 * Re;
    auto f = [](double r) { return Isothermaleulerequation::lambda_non_laminar(r, 0.5, 0.0001); };
    double d1 = (f(Re + h) - f(Re - h)) / (2 * h), d2 = (f(Re + h / 2) - f(Re - h / 2)) / h, d = (4 * d2 - d1) / 3;
    double g = Isothermaleulerequation::dlambda_non_laminar_dRe(Re, 0.5, 0.0001);
    expect(fabs(d - g) <= 1e-3 * fabs(d), "derivative of the friction factor");
  }
  return bad;
}
'''),
dict(id='c04-boxscheme-right-source', property='C04',
     edits=[('src/Model/Scheme/include/Implicitboxscheme.hpp',
             '''            - 0.5 * Delta_t * bl.dsource_dstate(new_right);''',
             '''            - 0.5 * Delta_t * bl.dsource_dstate(0.5 * (new_right + last_right));'''),
            ('src/Model/Scheme/include/Implicitboxscheme.hpp',
             '''        Eigen::Ref<Eigen::Vector<double, Dimension> const> /*last_right*/,
        Eigen::Ref<Eigen::Vector<double, Dimension> const> /*new_left*/,
        Eigen::Ref<Eigen::Vector<double, Dimension> const> new_right,''',
             '''        Eigen::Ref<Eigen::Vector<double, Dimension> const> last_right,
        Eigen::Ref<Eigen::Vector<double, Dimension> const> /*new_left*/,
        Eigen::Ref<Eigen::Vector<double, Dimension> const> new_right,''')],
     needs='old and new state of a grid point differ (any transient)',
     breaks='the Jacobian block of the right grid point uses a half-old state for the friction derivative',
     demo=PIPE + '''
int main() {
  json j; j["diameter"] = {{"value", 0.5}, {"unit", "m"}}; j["roughness"] = {{"value", 0.0001}, {"unit", "m"}};
  Balancelaw::Isothermaleulerequation bl(j);
  Scheme::Implicitboxscheme<2> s;
  Eigen::Vector2d ll(45, 30), lr(44, 31), nl(46, 33), nr(43, 60);
  for (int which = 0; which < 2; ++which) {
    auto f = [&](Eigen::Vector2d l, Eigen::Vector2d r) { Eigen::Vector2d out; s.evaluate_point(out, 0, 100, 500, ll, lr, l, r, bl); return out; };
    Eigen::Matrix2d J = which ? s.devaluate_point_d_new_right(0, 100, 500, ll, lr, nl, nr, bl) : s.devaluate_point_d_new_left(0, 100, 500, ll, lr, nl, nr, bl);
    for (int c = 0; c < 2; ++c) {
      Eigen::Vector2d a = which ? nr : nl, b = a;
      double h = 1e-5 * a[c];
      a[c] += h; b[c] -= h;
      Eigen::Vector2d d = which ? (f(nl, a) - f(nl, b)) / (2 * h) : (f(a, nr) - f(b, nr)) / (2 * h);
      for (int r = 0; r < 2; ++r) expect(close_(d[r], J(r, c), 1e-5), "scheme derivative");
    }
  }
  return bad;
}
'''),
dict(id='c04-last-cell', property='C04',
     edits=[('src/Model/Networkproblem/Gas/Pipe.cpp',
             '''    for (auto i = get_equation_start_index(); i != get_equation_after_index();
         i += 2) {
      // maybe use Eigen::Ref here to avoid copies.
      auto last_left = last_state.segment<2>(i - 1);
      auto last_right = last_state.segment<2>(i + 1);
      auto new_left = new_state.segment<2>(i - 1);
      auto new_right = new_state.segment<2>(i + 1);

      Eigen::Matrix2d current_derivative_left
          = scheme->devaluate_point_d_last_left(''',
             '''    for (auto i = get_equation_start_index();
         i < get_equation_after_index() - 2 || i == get_equation_start_index();
         i += 2) {
      // maybe use Eigen::Ref here to avoid copies.
      auto last_left = last_state.segment<2>(i - 1);
      auto last_right = last_state.segment<2>(i + 1);
      auto new_left = new_state.segment<2>(i - 1);
      auto new_right = new_state.segment<2>(i + 1);

      Eigen::Matrix2d current_derivative_left
          = scheme->devaluate_point_d_last_left(''')],
     needs='a pipe with more than two grid points; only the old-state Jacobian (adjoint gradients) is affected',
     breaks='the last cell of a pipe is missing in the Jacobian with respect to the old state',
     demo=PIPE + '''
int main() {
  for (int cells : {1, 2, 5}) {
    json n; n["id"] = "a"; json n2; n2["id"] = "b";
    json bd; bd["id"] = "a"; json e; e["time"] = 0.0; e["values"] = {0.0}; bd["data"] = json::array({e});
    n["boundary_values"] = bd; n2["boundary_values"] = bd;
    vector<unique_ptr<Network::Node>> nodes;
    nodes.push_back(make_unique<Network::Node>(n)); nodes.push_back(make_unique<Network::Node>(n2));
    json p; p["id"] = "p"; p["from"] = "a"; p["to"] = "b"; p["length"] = {{"value", 1000.0 * cells}, {"unit", "m"}};
    p["diameter"] = {{"value", 0.5}, {"unit", "m"}}; p["roughness"] = {{"value", 0.0001}, {"unit", "m"}};
    p["desired_delta_x"] = 1000.0; p["balancelaw"] = "Isothermaleulerequation"; p["scheme"] = "Implicitboxscheme";
    Gas::Pipe pipe(p, nodes);
    Eigen::Index N = pipe.set_state_indices(0);
    Eigen::VectorXd x0(N), x1(N);
    for (int i = 0; i < N; ++i) x0[i] = i % 2 ? 30 + i : 45 - 0.3 * i, x1[i] = x0[i] * 1.01;
    Eigen::SparseMatrix<double> M(N, N);
    Aux::Triplethandler<> h(M);
    pipe.d_evaluate_d_last_state(h, 0, 10, x0, x1);
    h.set_matrix();
    Eigen::MatrixXd D = M;
    for (int c = 0; c < N; ++c) {
      Eigen::VectorXd a = x0, b = x0, ra = Eigen::VectorXd::Zero(N), rb = ra;
      a[c] += 1e-4; b[c] -= 1e-4;
      pipe.evaluate(ra, 0, 10, a, x1); pipe.evaluate(rb, 0, 10, b, x1);
      Eigen::VectorXd d = (ra - rb) / 2e-4;
      for (int r = 0; r < N; ++r) expect(fabs(d[r] - D(r, c)) < 1e-6, "old-state Jacobian of a pipe");
    }
  }
  return bad;
}
'''),
dict(id='c05-setup-twice', property='C05',
     edits=[('src/Model/Networkproblem/Power/Powernode.cpp', '''    attached_component_data.clear();
''', '''    attached_component_data.reserve(
        get_starting_edges().size() + get_ending_edges().size());
''')],
     needs='setup being called a second time on the same network (two simulations with one problem object)',
     breaks='every attached line is counted twice in the power sums after a second setup',
     demo=POWER + '''
int main() {
  vector<unique_ptr<Network::Node>> nodes;
  nodes.push_back(make_unique<PQnode>(nodej("a"))); nodes.push_back(make_unique<PQnode>(nodej("b")));
  Transmissionline l(linej("l", "a", "b"), nodes);
  auto *a = dynamic_cast<PQnode *>(nodes[0].get()), *b = dynamic_cast<PQnode *>(nodes[1].get());
  a->set_state_indices(0); b->set_state_indices(2);
  Eigen::VectorXd x(4); x << 1.0, 0.1, 0.9, -0.2;
  a->setup(); b->setup();
  double p = a->P(x), q = b->Q(x);
  a->setup(); b->setup();
  expect(close_(p, a->P(x)) && close_(q, b->Q(x)), "power after a second setup");
  expect(close_(p, 0.7 + 0.9 * (0.4 * cos(0.3) - 2.0 * sin(0.3))), "power sum");
  return bad;
}
'''),
dict(id='c05-q-derivative-phi', property='C05',
     edits=[('src/Model/Networkproblem/Power/Powernode.cpp',
             '''      jacobianhandler.add_to_coefficient(
          equationindex, phi_index_k,
          V_i * V_k * (-G_ik * cos(phi_ik) - B_ik * sin(phi_ik)));''',
             '''      jacobianhandler.add_to_coefficient(
          equationindex, phi_index_k,
          -V_i * V_i * (G_ik * cos(phi_ik) + B_ik * sin(phi_ik)));''')],
     needs='two connected nodes with different voltages',
     breaks='the derivative of the reactive power with respect to the neighbour angle uses the wrong voltage',
     demo=POWER + '''
#include "Matrixhandler.hpp"
int main() {
  vector<unique_ptr<Network::Node>> nodes;
  nodes.push_back(make_unique<PQnode>(nodej("a"))); nodes.push_back(make_unique<PQnode>(nodej("b")));
  Transmissionline l(linej("l", "a", "b"), nodes);
  auto *a = dynamic_cast<PQnode *>(nodes[0].get()), *b = dynamic_cast<PQnode *>(nodes[1].get());
  a->set_state_indices(0); b->set_state_indices(2);
  a->setup(); b->setup();
  for (double V2 : {1.0, 0.8}) {
    Eigen::VectorXd x(4); x << 1.0, 0.1, V2, -0.2;
    Eigen::SparseMatrix<double> M(4, 4);
    Aux::Triplethandler<> h(M);
    a->d_evaluate_d_new_state(h, 0, 1, x, x); b->d_evaluate_d_new_state(h, 0, 1, x, x);
    h.set_matrix();
    Eigen::MatrixXd D = M;
    for (int c = 0; c < 4; ++c) {
      Eigen::VectorXd u = x, v = x, ru = Eigen::VectorXd::Zero(4), rv = ru;
      u[c] += 1e-5; v[c] -= 1e-5;
      a->evaluate(ru, 0, 1, x, u); b->evaluate(ru, 0, 1, x, u);
      a->evaluate(rv, 0, 1, x, v); b->evaluate(rv, 0, 1, x, v);
      for (int r = 0; r < 4; ++r) expect(fabs((ru[r] - rv[r]) / 2e-5 - D(r, c)) < 1e-6, "power Jacobian");
    }
  }
  return bad;
}
'''),
]
