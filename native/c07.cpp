#include "gasnet.hpp"
int main(int argc, char **argv) {
  MAIN(argc, argv)
  for (long t = 0; t < N; ++t) {
    Gasnet g;
    VectorXd x = g.randomstate(), xl = g.randomstate(), u(g.nc);
    for (Index i = 0; i < g.nc; ++i) u[i] = uni(-20, 20);
    double t1 = uni(0, 10);
    for (size_t e = 0; e < g.edges.size(); ++e) {
      int ty = g.etype[e];
      if (ty < 1 || ty > 3) continue;
      Index s = g.start[e], cs = g.ctrl[e];
      std::string in = str("case", t, "edge", e, "type", ty);
      VectorXd r0 = VectorXd::Random(g.n);
      auto ref = [&](VectorXd const &v, VectorXd const &w) {
        VectorXd r = r0;
        for (int k = 0; k < 2; ++k) r[s + 1 + k] = v[s + 2 + k] - v[s + k];
        if (ty == 1) { r[s + 1] *= -1; r[s + 2] *= -1; }
        if (ty == 2) r[s + 1] += w[cs];
        if (ty == 3) r[s + 1] -= w[cs];
        return r;
      };
      VectorXd r = r0;
      Rec J(g.n, g.n), Jl(g.n, g.n), Ju(g.n, g.nc);
      auto *ec = dynamic_cast<Model::Equationcomponent *>(g.edges[e].get());
      auto *cc = dynamic_cast<Model::Controlcomponent *>(g.edges[e].get());
      if (ty == 1) {
        ec->evaluate(r, t1 - 1, t1, xl, x);
        ec->d_evaluate_d_new_state(J, t1 - 1, t1, xl, x);
        ec->d_evaluate_d_last_state(Jl, t1 - 1, t1, xl, x);
      } else {
        cc->evaluate(r, t1 - 1, t1, xl, x, u);
        cc->d_evaluate_d_new_state(J, t1 - 1, t1, xl, x, u);
        cc->d_evaluate_d_last_state(Jl, t1 - 1, t1, xl, x, u);
        cc->d_evaluate_d_control(Ju, t1 - 1, t1, xl, x, u);
        jaccheck("control Jacobian", in, u, g.n, Ju.M, [&](VectorXd const &w) { return ref(x, w); }, [](Index) { return 1e-2; }, 1e-6, 1e-7);
        check(cc->get_number_of_controls_per_timepoint() == 1, "one control", in);
      }
      VectorXd w = ref(x, u);
      for (Index a = 0; a < g.n; ++a) same(r[a], w[a], "edge equation", in + str("row", a));
      check(!J.out && !Jl.out && !Ju.out && Jl.M.isZero(0), "old-state derivative", in);
      jaccheck("state Jacobian", in, x, g.n, J.M, [&](VectorXd const &v) { return ref(v, u); }, [](Index) { return 1e-2; }, 1e-6, 1e-7);
      if (ty == 3) {
        auto *co = dynamic_cast<Model::Costcomponent *>(g.edges[e].get());
        double cw = co->get_cost_weight();
        same(co->evaluate_cost(t1, x, u), cw * u[cs] * u[cs], "cost", in);
        same(co->evaluate_penalty(t1, x, u), 0, "penalty", in);
        Rec a(1, g.n), b(1, g.nc), c(1, g.n), d(1, g.nc);
        co->d_evaluate_cost_d_state(a, t1, x, u);
        co->d_evaluate_cost_d_control(b, t1, x, u);
        co->d_evaluate_penalty_d_state(c, t1, x, u);
        co->d_evaluate_penalty_d_control(d, t1, x, u);
        MatrixXd want = MatrixXd::Zero(1, g.nc);
        want(0, cs) = 2 * cw * u[cs];
        check(!a.out && !b.out && !c.out && !d.out && a.M.isZero(0) && c.M.isZero(0) && d.M.isZero(0) && (b.M - want).norm() < 1e-9, "cost derivatives", in);
      }
    }
    for (size_t i = 0; i < g.nodes.size(); ++i) {
      if (g.ntype[i] != 3) continue;
      int first = -1, dir = 0;
      for (size_t e = 0; e < g.edges.size() && first < 0; ++e) if (g.from[e] == (int)i && g.etype[e] < 5) first = e, dir = 1;
      for (size_t e = 0; e < g.edges.size() && first < 0; ++e) if (g.to[e] == (int)i && g.etype[e] < 4) first = e, dir = -1;
      if (first < 0) continue;
      auto *co = dynamic_cast<Model::Constraintcomponent *>(g.nodes[i].get());
      Index st = ri(0, 3);
      check(co->set_constraint_indices(st) == st + 1, "one constraint", str("case", t, "node", i));
      Index k = dir > 0 ? g.start[first] : g.row(first, -1) - 1;
      VectorXd c0 = VectorXd::Random(6), c1 = c0;
      co->evaluate_constraint(c1, t1, x, u);
      c0[st] = x[k];
      check(c1 == c0, "constraint", str("case", t, "node", i));
      Rec a(6, g.n), b(6, g.nc);
      co->d_evaluate_constraint_d_state(a, t1, x, u);
      co->d_evaluate_constraint_d_control(b, t1, x, u);
      MatrixXd want = MatrixXd::Zero(6, g.n);
      want(st, k) = 1;
      check(!a.out && !b.out && b.M.isZero(0) && (a.M - want).norm() == 0, "constraint derivatives", str("case", t, "node", i));
    }
  }
  return finish();
}
