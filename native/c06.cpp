#include "gasnet.hpp"
int main(int argc, char **argv) {
  MAIN(argc, argv)
  for (long t = 0; t < N; ++t) {
    Gasnet g;
    std::string in = str("case", t, ": ");
    for (int rep = 0; rep < 2; ++rep) {
      if (rep) for (auto &x : g.nodes) if (auto *e = dynamic_cast<Model::Equationcomponent *>(x.get())) e->setup();
      VectorXd x = g.randomstate(), xl = g.randomstate();
      double t1 = uni(0, 10);
      for (size_t i = 0; i < g.nodes.size(); ++i) {
        if (g.ntype[i] == 5) continue;
        auto *e = dynamic_cast<Model::Equationcomponent *>(g.nodes[i].get());
        VectorXd r0 = VectorXd::Random(g.n), r = r0;
        e->evaluate(r, t1 - 0.5, t1, xl, x);
        auto ref = [&](VectorXd const &v) { return g.noderef(i, t1, v, r0); };
        VectorXd w = ref(x);
        std::string nn = in + str("node", i, "type", g.ntype[i]);
        for (Index a = 0; a < g.n; ++a) same(r[a], w[a], "node equation", nn + str("row", a));
        Rec J(g.n, g.n), Jl(g.n, g.n);
        e->d_evaluate_d_new_state(J, t1 - 0.5, t1, xl, x);
        e->d_evaluate_d_last_state(Jl, t1 - 0.5, t1, xl, x);
        check(!J.out && !Jl.out && Jl.M.isZero(0), "old-state derivative", nn);
        jaccheck("node Jacobian", nn, x, g.n, J.M, ref, [](Index) { return 1e-2; }, 1e-6, 1e-7);
      }
    }
  }
  return finish();
}
