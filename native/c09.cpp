#include "gasnet.hpp"
#include "SimpleConstraintcomponent.hpp"
#include "Net.hpp"
#include "Networkproblem.hpp"
template <class T> std::vector<T *> pick(std::vector<Network::Node *> const &n, std::vector<Network::Edge *> const &e) {
  std::vector<T *> r;
  for (auto *x : n) if (auto *p = dynamic_cast<T *>(x)) r.push_back(p);
  for (auto *x : e) if (auto *p = dynamic_cast<T *>(x)) r.push_back(p);
  return r;
}
int main(int argc, char **argv) {
  MAIN(argc, argv)
  for (long t = 0; t < N; ++t) {
    Gasnet g;
    std::string in = str("case", t);
    std::vector<Network::Node *> nodes;
    std::vector<Network::Edge *> edges;
    for (auto &x : g.nodes) nodes.push_back(x.get());
    for (auto &x : g.edges) edges.push_back(x.get());
    Model::Networkproblem p(std::make_unique<Network::Net>(std::move(g.nodes), std::move(g.edges)));
    Index a = ri(0, 4), b = ri(0, 4), c = ri(0, 4);
    p.init(a, b, c);
    auto st = pick<Model::Statecomponent>(nodes, edges);
    auto ct = pick<Model::Controlcomponent>(nodes, edges);
    auto cn = pick<Model::Constraintcomponent>(nodes, edges);
    auto eq = pick<Model::Equationcomponent>(nodes, edges);
    auto co = pick<Model::Costcomponent>(nodes, edges);
    auto cover = [&](auto const &v, Index from, Index to, auto s, auto e, auto need, char const *what) {
      std::vector<int> used(to, 0);
      for (auto *x : v) {
        check(s(x) >= from && e(x) <= to && e(x) - s(x) == need(x), what, in + str("range", s(x), e(x), "asked", need(x), "of", from, to));
        for (Index i = s(x); i < e(x); ++i) if (i >= 0 && i < to) ++used[i];
      }
      for (Index i = from; i < to; ++i) check(used[i] == 1, what, in + str("index", i, "owned", used[i], "times"));
    };
    auto need = [](Model::Statecomponent *x) -> Index {
      if (auto *q = dynamic_cast<Pipe *>(x)) return 2 * q->get_number_of_points();
      if (dynamic_cast<Shortcomponent *>(x)) return 4;
      return 2;
    };
    cover(st, a, p.get_state_afterindex(), [](auto *x) { return x->get_state_startindex(); }, [](auto *x) { return x->get_state_afterindex(); },
          need, "state ranges");
    cover(ct, b, p.get_control_afterindex(), [](auto *x) { return x->get_control_startindex(); }, [](auto *x) { return x->get_control_afterindex(); },
          [](auto *) { return Index(1); }, "control ranges");
    cover(cn, c, p.get_constraint_afterindex(), [](auto *x) { return x->get_constraint_startindex(); }, [](auto *x) { return x->get_constraint_afterindex(); },
          [](auto *) { return Index(1); }, "constraint ranges");
    check(p.get_state_startindex() == a && p.get_control_startindex() == b && p.get_constraint_startindex() == c, "start indices", in);
    check(p.get_number_of_states() == p.get_state_afterindex() - a && p.get_number_of_controls_per_timepoint() == p.get_control_afterindex() - b
          && p.get_number_of_constraints_per_timepoint() == p.get_constraint_afterindex() - c, "sizes", in);
    Index n = p.get_state_afterindex(), nc = p.get_control_afterindex(), ncn = p.get_constraint_afterindex();
    VectorXd x = VectorXd::Random(n) * 20 + VectorXd::Constant(n, 40), xl = x + VectorXd::Random(n), u = VectorXd::Random(nc);
    double t1 = uni(1, 10), t0 = t1 - 1;
    bool ok = true;
    for (auto *s : cn) {   // constrained sinks without an edge have no constraint to evaluate
      auto *nd = dynamic_cast<Network::Node *>(s);
      int k = 0;
      for (auto *e : nd->get_starting_edges()) k += dynamic_cast<Gasedge *>(e) != nullptr;
      for (auto *e : nd->get_ending_edges()) k += dynamic_cast<Gasedge *>(e) != nullptr;
      if (!k) ok = false;
    }
    VectorXd r = VectorXd::Constant(n, 7), w = VectorXd::Constant(n, 7);
    p.evaluate(r, t0, t1, xl, x, u);
    for (auto *e : eq) e->evaluate(w, t0, t1, xl, x);
    for (auto *e : ct) e->evaluate(w, t0, t1, xl, x, u);
    check(r == w, "evaluate", in);
    auto mat = [&](char const *what, Index rows, Index cols, auto f, auto h) {
      Rec A(rows, cols), B(rows, cols);
      f(A);
      h(B);
      check(!A.out && A.M == B.M, what, in);
    };
    mat("d_evaluate_d_new_state", n, n, [&](Rec &A) { p.d_evaluate_d_new_state(A, t0, t1, xl, x, u); },
        [&](Rec &B) { for (auto *e : eq) e->d_evaluate_d_new_state(B, t0, t1, xl, x); for (auto *e : ct) e->d_evaluate_d_new_state(B, t0, t1, xl, x, u); });
    mat("d_evaluate_d_last_state", n, n, [&](Rec &A) { p.d_evaluate_d_last_state(A, t0, t1, xl, x, u); },
        [&](Rec &B) { for (auto *e : eq) e->d_evaluate_d_last_state(B, t0, t1, xl, x); for (auto *e : ct) e->d_evaluate_d_last_state(B, t0, t1, xl, x, u); });
    mat("d_evaluate_d_control", n, nc, [&](Rec &A) { p.d_evaluate_d_control(A, t0, t1, xl, x, u); }, [&](Rec &B) { for (auto *e : ct) e->d_evaluate_d_control(B, t0, t1, xl, x, u); });
    double cost = 0, pen = 0;
    for (auto *e : co) cost += e->evaluate_cost(t1, x, u), pen += e->evaluate_penalty(t1, x, u);
    same(p.evaluate_cost(t1, x, u), cost, "cost", in);
    same(p.evaluate_penalty(t1, x, u), pen, "penalty", in);
    mat("cost gradient", 1, n, [&](Rec &A) { p.d_evaluate_cost_d_state(A, t1, x, u); }, [&](Rec &B) { for (auto *e : co) e->d_evaluate_cost_d_state(B, t1, x, u); });
    mat("cost control gradient", 1, nc, [&](Rec &A) { p.d_evaluate_cost_d_control(A, t1, x, u); }, [&](Rec &B) { for (auto *e : co) e->d_evaluate_cost_d_control(B, t1, x, u); });
    mat("penalty gradient", 1, n, [&](Rec &A) { p.d_evaluate_penalty_d_state(A, t1, x, u); }, [&](Rec &B) { for (auto *e : co) e->d_evaluate_penalty_d_state(B, t1, x, u); });
    mat("penalty control gradient", 1, nc, [&](Rec &A) { p.d_evaluate_penalty_d_control(A, t1, x, u); }, [&](Rec &B) { for (auto *e : co) e->d_evaluate_penalty_d_control(B, t1, x, u); });
    if (ok) {
      VectorXd cv = VectorXd::Constant(ncn, 3), cw = cv;
      p.evaluate_constraint(cv, t1, x, u);
      for (auto *e : cn) e->evaluate_constraint(cw, t1, x, u);
      check(cv == cw, "constraints", in);
      mat("constraint state derivative", ncn, n, [&](Rec &A) { p.d_evaluate_constraint_d_state(A, t1, x, u); }, [&](Rec &B) { for (auto *e : cn) e->d_evaluate_constraint_d_state(B, t1, x, u); });
      mat("constraint control derivative", ncn, nc, [&](Rec &A) { p.d_evaluate_constraint_d_control(A, t1, x, u); }, [&](Rec &B) { for (auto *e : cn) e->d_evaluate_constraint_d_control(B, t1, x, u); });
    }
  }
  return finish();
}
