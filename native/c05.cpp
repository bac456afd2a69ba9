#include "mk.hpp"
#include "ExternalPowerplant.hpp"
#include "PQnode.hpp"
#include "PVnode.hpp"
#include "StochasticPQnode.hpp"
#include "Transmissionline.hpp"
#include "Vphinode.hpp"
using namespace Model::Power;
int main(int argc, char **argv) {
  MAIN(argc, argv)
  for (long t = 0; t < N; ++t) {
    int nn = ri(2, 6);
    std::vector<std::unique_ptr<Network::Node>> nodes;
    std::vector<int> type;
    std::vector<double> G, B, b00, b01, b10, b11;
    std::string in = str("case", t, ": ");
    for (int i = 0; i < nn; ++i) {
      json j;
      j["id"] = "n" + std::to_string(i);
      G.push_back(uni(-3, 3));
      B.push_back(uni(-3, 3));
      j["G"] = G[i];
      j["B"] = B[i];
      b00.push_back(uni(-2, 2)); b01.push_back(uni(-2, 2)); b10.push_back(uni(-2, 2)); b11.push_back(uni(-2, 2));
      json e0, e1;
      e0["time"] = 0.0; e0["values"] = {b00[i], b01[i]};
      e1["time"] = 10.0; e1["values"] = {b10[i], b11[i]};
      j["boundary_values"]["data"] = json::array({e0, e1});
      j["boundary_values"]["id"] = j["id"];
      type.push_back(ri(0, 4));
      switch (type[i]) {
      case 0: nodes.push_back(std::make_unique<PQnode>(j)); break;
      case 1: nodes.push_back(std::make_unique<PVnode>(j)); break;
      case 2: nodes.push_back(std::make_unique<Vphinode>(j)); break;
      case 3:
        j["stability_parameter"] = 0.5; j["cut_off_factor"] = 0.3; j["sigma_P"] = 0.4; j["theta_P"] = 3.0;
        j["sigma_Q"] = 0.4; j["theta_Q"] = 3.0; j["number_of_stochastic_steps"] = 20;
        nodes.push_back(std::make_unique<StochasticPQnode>(j)); break;
      case 4: nodes.push_back(std::make_unique<Model::Gaspowerconnection::ExternalPowerplant>(j)); break;
      }
    }
    struct L { int a, b; double G, B; };
    std::vector<L> ls;
    std::vector<std::unique_ptr<Transmissionline>> lines;
    int nl = ri(1, 9);
    for (int i = 0; i < nl; ++i) {
      int a = ri(0, nn - 1), b = ri(0, nn - 2);
      if (b >= a) ++b;
      ls.push_back({a, b, uni(-3, 3), uni(-3, 3)});
      json j;
      j["id"] = "l" + std::to_string(i);
      j["from"] = "n" + std::to_string(a); j["to"] = "n" + std::to_string(b);
      j["G"] = ls[i].G; j["B"] = ls[i].B;
      lines.push_back(std::make_unique<Transmissionline>(j, nodes));
    }
    Index next = ri(0, 3);
    std::vector<Index> st(nn);
    std::vector<Powernode *> pn;
    for (int i = 0; i < nn; ++i) {
      pn.push_back(dynamic_cast<Powernode *>(nodes[i].get()));
      st[i] = next;
      next = pn[i]->set_state_indices(next);
      check(next == st[i] + 2, "two states", in);
      if (ri(0, 2) == 0) ++next;
      try {
        pn[i]->setup();
        if (ri(0, 1)) pn[i]->setup();
      } catch (std::exception &) {
        check(type[i] == 4, "setup throws", in);   // power plants need a gas connection, the lines are collected before
      }
    }
    Index n = next + 1;
    VectorXd x(n), xl(n);
    for (Index i = 0; i < n; ++i) x[i] = uni(-2, 2), xl[i] = uni(-2, 2);
    double t1 = uni(0, 10), t0 = t1 * 0.9;
    auto Pr = [&](int i, VectorXd const &v, bool reac) {
      double V = v[st[i]], ph = v[st[i] + 1], r = reac ? -B[i] * V * V : G[i] * V * V;
      for (auto &l : ls) {
        if (l.a != i && l.b != i) continue;
        int k = l.a == i ? l.b : l.a;
        double W = v[st[k]], d = ph - v[st[k] + 1];
        r += reac ? V * W * (l.G * std::sin(d) - l.B * std::cos(d)) : V * W * (l.G * std::cos(d) + l.B * std::sin(d));
      }
      return r;
    };
    for (int i = 0; i < nn; ++i) {
      double b0 = b00[i] + (b10[i] - b00[i]) * t1 / 10, b1 = b01[i] + (b11[i] - b01[i]) * t1 / 10;
      if (type[i] == 3) {
        pn[i]->prepare_timestep(t0, t0 + 0.01, xl);
        b0 = static_cast<StochasticPQnode *>(pn[i])->get_current_P();
        b1 = static_cast<StochasticPQnode *>(pn[i])->get_current_Q();
      }
      VectorXd r0 = VectorXd::Random(n), r = r0;
      pn[i]->evaluate(r, t0, t1, xl, x);
      auto ref = [&](VectorXd const &v) {
        VectorXd w = r0;
        Index s = st[i];
        w[s] = (type[i] == 2 || type[i] == 4) ? v[s] - b0 : Pr(i, v, false) - b0;
        w[s + 1] = (type[i] == 0 || type[i] == 3) ? Pr(i, v, true) - b1 : type[i] == 1 ? v[s] - b1 : v[s + 1] - b1;
        return w;
      };
      VectorXd w = ref(x);
      for (Index a = 0; a < n; ++a) same(r[a], w[a], "residual", in + str("node", i, "type", type[i], "row", a - st[i]));
      same(pn[i]->P(x), Pr(i, x, false), "P", in);
      same(pn[i]->Q(x), Pr(i, x, true), "Q", in);
      Rec J(n, n), Jl(n, n);
      pn[i]->d_evaluate_d_new_state(J, t0, t1, xl, x);
      pn[i]->d_evaluate_d_last_state(Jl, t0, t1, xl, x);
      check(!J.out && Jl.M.isZero(0), "old-state Jacobian is zero", in);
      jaccheck("Jacobian", in + str("node", i, "type", type[i]), x, n, J.M, ref, [](Index) { return 1e-3; }, 1e-6, 1e-7);
    }
  }
  return finish();
}
