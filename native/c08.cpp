#include "gasnet.hpp"
#include "Mathfunctions.hpp"
int main(int argc, char **argv) {
  MAIN(argc, argv)
  for (long t = 0; t < N; ++t) {
    Gasnet g;
    double t1 = uni(0, 10);
    for (size_t e = 0; e < g.edges.size(); ++e) {
      if (g.etype[e] != 4) continue;
      auto *c = static_cast<GPC *>(g.edges[e].get());
      auto *plant = static_cast<ExternalPowerplant *>(g.nodes[g.to[e]].get());
      Index s = g.start[e];
      std::string in = str("case", t, "edge", e);
      check(c->get_state_afterindex() == s + 2, "two states", in);
      auto gen = [&](double q) {   // the power the connection generates, seen through its equation
        VectorXd x = VectorXd::Zero(g.n), r = VectorXd::Zero(g.n);
        x[s + 1] = q;
        c->evaluate(r, t1, t1, x, x);
        return plant->P(x) - r[s + 1];
      };
      auto dgen = [&](double q) {
        VectorXd x = VectorXd::Zero(g.n);
        x[s + 1] = q;
        Rec J(g.n, g.n);
        c->d_evaluate_d_new_state(J, t1, t1, x, x);
        return -J.M(s + 1, s + 1);
      };
      for (int k = 0; k < 6; ++k) {
        double q = (k % 2 ? -1 : 1) * uni(60.001, 500);
        double w = q > 0 ? g.g2p[e] : g.p2g[e];
        same(gen(q), w * q, "generated power", in + str("q", q), 1e-12);
        same(dgen(q), w, "generated power derivative", in + str("q", q), 1e-12);
        q = k < 2 ? 0 : uni(-59.9, 59.9);
        same(dgen(q), fd(gen, q, 1e-2), "derivative inside the transition", in + str("q", q), 1e-7, 1e-7);
      }
      for (double b : {-60.0, 60.0}) {
        double w = b > 0 ? g.g2p[e] : g.p2g[e];
        for (double d : {-1e-9, 0.0, 1e-9}) {
          same(gen(b + d), w * b, "generated power at a border", in + str("q", b + d), 1e-7, 1e-7);
          same(dgen(b + d), w, "derivative at a border", in + str("q", b + d), 1e-7, 1e-7);
        }
      }
      VectorXd x = g.randomstate(), xl = g.randomstate(), r0 = VectorXd::Random(g.n), r = r0;
      x[s + 1] = uni(-150, 150);
      auto f = [&](VectorXd const &v) {
        VectorXd w = r0;
        w[s + 1] = plant->P(v) - gen(v[s + 1]);
        return w;
      };
      c->evaluate(r, t1, t1, xl, x);
      VectorXd w = f(x);
      for (Index a = 0; a < g.n; ++a) same(r[a], w[a], "connection equation", in + str("row", a));
      Rec J(g.n, g.n), Jl(g.n, g.n);
      c->d_evaluate_d_new_state(J, t1, t1, xl, x);
      c->d_evaluate_d_last_state(Jl, t1, t1, xl, x);
      check(!J.out && !Jl.out && Jl.M.isZero(0), "old-state derivative", in);
      if (std::abs(std::abs(x[s + 1]) - 60) > 0.1) jaccheck("connection Jacobian", in, x, g.n, J.M, f, [](Index) { return 1e-3; }, 1e-5, 1e-6);
    }
    double eps = 1e-4;
    for (int k = 0; k < 5; ++k) {
      double y = (k % 2 ? -1 : 1) * eps * uni(1.0, 10);
      same(Aux::smooth_abs(y), std::abs(y), "smooth_abs", str(y, eps), 1e-12);
      same(Aux::dsmooth_abs_dx(y), y > 0 ? 1 : -1, "dsmooth_abs_dx", str(y, eps), 1e-12);
      y = eps * uni(-0.9, 0.9);
      same(Aux::dsmooth_abs_dx(y), fd(Aux::smooth_abs, y, eps * 1e-3), "dsmooth_abs_dx inside", str(y, eps), 1e-6, 1e-6);
      for (double sg : {-1.0, 1.0}) {
        same(Aux::smooth_abs(sg * eps * (1 - 1e-9)), eps, "smooth_abs at a border", str(eps), 1e-7);
        same(Aux::dsmooth_abs_dx(sg * eps * (1 - 1e-9)), sg, "dsmooth_abs_dx at a border", str(eps), 1e-7);
      }
    }
  }
  return finish();
}
