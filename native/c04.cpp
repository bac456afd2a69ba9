#include "mk.hpp"
#include "Innode.hpp"
#include "Isothermaleulerequation.hpp"
#include "Pipe.hpp"
using Eigen::Vector2d;
int main(int argc, char **argv) {
  MAIN(argc, argv)
  for (long t = 0; t < N; ++t) {
    std::vector<std::unique_ptr<Network::Node>> nodes;
    for (auto id : {"a", "b"}) {
      json j;
      j["id"] = id;
      nodes.push_back(std::make_unique<Model::Gas::Innode>(j));
    }
    double L = logu(100, 30000), D = logu(0.1, 1.5), k = logu(1e-6, 1e-3), des = L * uni(0.12, 1.4);
    json j;
    j["id"] = "p"; j["from"] = "a"; j["to"] = "b";
    j["length"] = length_json(L); j["diameter"] = length_json(D); j["roughness"] = length_json(k);
    j["desired_delta_x"] = des; j["balancelaw"] = "Isothermaleulerequation"; j["scheme"] = "Implicitboxscheme";
    Model::Gas::Pipe p(j, nodes);
    Model::Balancelaw::Isothermaleulerequation bl(j);
    int s = ri(0, 5);
    Index after = p.set_state_indices(s);
    int np = p.get_number_of_points();
    double dx = p.get_Delta_x();
    std::string in = str("L", L, "D", D, "k", k, "desired", des, "start", s, ": ");
    check(np >= 2 && after == s + 2 * np, "number of states", in + str(np, after));
    same(dx * (np - 1), L, "spacing times cells is length", in);
    check(dx <= des * (1 + 1e-12), "spacing not above the desired one", in);
    Index n = after + ri(0, 4);
    VectorXd last(n), now(n), root0(n);
    double A = M_PI * D * D / 4, qs = 2000 * A * 1e-5 / (D * 0.785);
    auto fill = [&](VectorXd &v) {
      for (Index i = 0; i < n; ++i) v[i] = ((i - s) % 2 == 0) ? uni(10, 70) : (ri(0, 1) ? 1 : -1) * qs * logu(0.05, 3000);
    };
    fill(last);
    fill(now);
    for (Index i = 0; i < n; ++i) root0[i] = uni(-5, 5);
    double t0 = uni(0, 1000), t1 = t0 + logu(0.1, 1800), dt = t1 - t0;
    VectorXd root = root0;
    p.evaluate(root, t0, t1, last, now);
    VectorXd want = root0;
    for (int i = 0; i < np - 1; ++i) {
      Vector2d ll = last.segment<2>(s + 2 * i), lr = last.segment<2>(s + 2 * i + 2), nl = now.segment<2>(s + 2 * i), nr = now.segment<2>(s + 2 * i + 2);
      want.segment<2>(s + 2 * i + 1) = 0.5 * (nl + nr) - 0.5 * (ll + lr) + dt / dx * (bl.flux(nr) - bl.flux(nl)) - 0.5 * dt * (bl.source(nl) + bl.source(nr));
    }
    for (Index i = 0; i < n; ++i) same(root[i], want[i], "box scheme residual", in + str("row", i), 1e-8, 1e-8 * std::abs(dt / dx) * 1e6);
    Rec Jn(n, n), Jl(n, n);
    p.d_evaluate_d_new_state(Jn, t0, t1, last, now);
    p.d_evaluate_d_last_state(Jl, t0, t1, last, now);
    check(!Jn.out && !Jl.out, "matrix entries inside", in);
    MatrixXd wn = MatrixXd::Zero(n, n), wl = wn;
    for (int i = 0; i < np - 1; ++i) {
      Index a = s + 2 * i;
      Vector2d nl = now.segment<2>(a), nr = now.segment<2>(a + 2);
      Eigen::Matrix2d id = Eigen::Matrix2d::Identity();
      wl.block<2, 2>(a + 1, a) += -0.5 * id;
      wl.block<2, 2>(a + 1, a + 2) += -0.5 * id;
      wn.block<2, 2>(a + 1, a) += 0.5 * id - dt / dx * bl.dflux_dstate(nl) - 0.5 * dt * bl.dsource_dstate(nl);
      wn.block<2, 2>(a + 1, a + 2) += 0.5 * id + dt / dx * bl.dflux_dstate(nr) - 0.5 * dt * bl.dsource_dstate(nr);
    }
    for (Index r = 0; r < n; ++r)
      for (Index c = 0; c < n; ++c) {
        same(Jn.M(r, c), wn(r, c), "new-state Jacobian", in + str(r, c), 1e-8, 1e-10);
        same(Jl.M(r, c), wl(r, c), "old-state Jacobian", in + str(r, c), 1e-8, 1e-10);
      }
  }
  return finish();
}
