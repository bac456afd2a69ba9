#include "h.hpp"
#include "Wrapper.hpp"
#include "Optimizer.hpp"
#include <iostream>
#include <memory>
using namespace Eigen;
typedef long L;
// an optimizer whose answers identify the point they were computed for; knows only what was announced
struct Fake : Optimization::Optimizer {
  L n, m, z;
  VectorXd x0, lb, ub, clb, cub;
  VectorXd known;            // the point the current model state was computed for
  bool fresh = true;         // announced and not yet evaluated
  bool fails = false;
  std::string log;
  void at(Ref<VectorXd const> const &x) {
    if (fresh) { known = x; fresh = false; }
  }
  double val(double w) const { double s = 0; for (L i = 0; i < known.size(); ++i) s += std::cos(w * (i + 1)) * known[i]; return s; }
  bool supply_constraint_jacobian_indices(Ref<VectorX<Ipopt::Index>> r, Ref<VectorX<Ipopt::Index>> c) const override {
    for (L i = 0; i < z; ++i) { r[i] = (int)(3 * i + 1); c[i] = (int)(5 * i + 2); }
    return r.size() == z and c.size() == z;
  }
  Index get_total_no_controls() const override { return n; }
  Index get_total_no_constraints() const override { return m; }
  Index get_no_nnz_in_jacobian() const override { return z; }
  void new_x() override { fresh = true; }
  bool num(Ref<VectorXd const> const &x, double &o, double w) { at(x); if (fails) return false; o = val(w); return true; }
  bool vec(Ref<VectorXd const> const &x, Ref<VectorXd> o, double w, L want) {
    at(x);
    if (fails or o.size() != want) return false;
    for (L i = 0; i < want; ++i) o[i] = val(w + 0.01 * i) + i;
    return true;
  }
  bool evaluate_objective(Ref<VectorXd const> const &x, double &o) override { return num(x, o, 1); }
  bool evaluate_cost(Ref<VectorXd const> const &x, double &o) override { return num(x, o, 2); }
  bool evaluate_penalty(Ref<VectorXd const> const &x, double &o) override { return num(x, o, 3); }
  bool evaluate_constraints(Ref<VectorXd const> const &x, Ref<VectorXd> o) override { return vec(x, o, 4, m); }
  bool evaluate_objective_gradient(Ref<VectorXd const> const &x, Ref<VectorXd> o) override { return vec(x, o, 5, n); }
  bool evaluate_constraint_jacobian(Ref<VectorXd const> const &x, Ref<VectorXd> o) override { return vec(x, o, 6, z); }
  VectorXd get_initial_controls() override { return x0; }
  VectorXd get_lower_bounds() override { return lb; }
  VectorXd get_upper_bounds() override { return ub; }
  VectorXd get_constraint_lower_bounds() override { return clb; }
  VectorXd get_constraint_upper_bounds() override { return cub; }
};
static VectorXd rnd(L n) { VectorXd v(n); for (L i = 0; i < n; ++i) v[i] = uni(-3, 3); return v; }
static bool eq(double const *p, VectorXd const &v) { for (L i = 0; i < v.size(); ++i) if (!(p[i] == v[i])) return false; return true; }
int main(int argc, char **argv) {
  MAIN(argc, argv)
  auto &sink = *new std::ostringstream;
  std::cout.rdbuf(sink.rdbuf());
  for (long c = 0; c < N; ++c) {
    auto own = std::make_unique<Fake>();
    Fake &f = *own;
    f.n = ri(0, 6); f.m = ri(0, 6); f.z = ri(1, 9);
    f.x0 = rnd(f.n); f.lb = rnd(f.n); f.ub = rnd(f.n); f.clb = rnd(f.m); f.cub = rnd(f.m);
    Optimization::IpoptWrapper w(std::move(own));
    std::string in = str("controls", f.n, "constraints", f.m, "Jacobian entries", f.z);
    int n = -1, m = -1, z = -1, h = -1;
    Ipopt::TNLP::IndexStyleEnum st = Ipopt::TNLP::FORTRAN_STYLE;
    check(w.get_nlp_info(n, m, z, h, st) and n == f.n and m == f.m and z == f.z and h == 0 and st == Ipopt::TNLP::C_STYLE, "problem description", in);
    for (int big = 0; big < 3; ++big) {
      L &v = big == 0 ? f.n : big == 1 ? f.m : f.z, keep = v;
      for (L huge : {2147483647L, 2147483648L, 4294967296L + 3}) {
        v = huge;
        bool ok = w.get_nlp_info(n, m, z, h, st), fits = huge <= 2147483647L;
        check(ok == fits and (not ok or (n == f.n and m == f.m and z == f.z)), "a problem too large for Ipopt is refused", in + str("size", huge, "of", big));
      }
      v = keep;
    }
    std::vector<double> xl(f.n + 2, 77), xu(f.n + 2, 77), gl(f.m + 2, 77), gu(f.m + 2, 77), x(f.n + 2, 77);
    check(w.get_bounds_info(f.n, xl.data(), xu.data(), f.m, gl.data(), gu.data()) and eq(xl.data(), f.lb) and eq(xu.data(), f.ub) and eq(gl.data(), f.clb) and eq(gu.data(), f.cub)
          and xl[f.n] == 77 and xu[f.n] == 77 and gl[f.m] == 77 and gu[f.m] == 77, "bounds", in);
    check(w.get_starting_point(f.n, true, x.data(), false, nullptr, nullptr, f.m, false, nullptr) and eq(x.data(), f.x0) and x[f.n] == 77, "start values", in);
    std::vector<int> r(f.z, -1), cc(f.z, -1);
    bool ok = w.eval_jac_g(f.n, nullptr, ri(0, 1), f.m, f.z, r.data(), cc.data(), nullptr);
    for (L i = 0; i < f.z; ++i) ok = ok and r[i] == 3 * i + 1 and cc[i] == 5 * i + 2;
    check(ok, "structure of the Jacobian", in);
    // a history of evaluations: new_x is true exactly when the point has changed
    VectorXd cur = rnd(f.n);
    bool changed = true;
    std::string hist;
    for (int s = 0; s < 12; ++s) {
      if (ri(0, 2) == 0) { cur = rnd(f.n); changed = true; hist += "new point; "; }
      f.fails = ri(0, 5) == 0;
      int what = ri(0, 3);
      Fake want = f;
      want.known = cur; want.fresh = false;
      hist += str("evaluate", what, f.fails ? "(fails);" : ";");
      bool o1, o2 = not f.fails;
      VectorXd a, b;
      if (what == 0) {
        double v = 77, u = 77;
        o1 = w.eval_f(f.n, cur.data(), changed, v); want.evaluate_objective(cur, u);
        a = VectorXd::Constant(1, v); b = VectorXd::Constant(1, u);
      } else {
        L k = what == 1 ? f.n : what == 2 ? f.m : f.z;
        a = b = VectorXd::Constant(k, 77);
        if (what == 1) { o1 = w.eval_grad_f(f.n, cur.data(), changed, a.data()); want.evaluate_objective_gradient(cur, b); }
        if (what == 2) { o1 = w.eval_g(f.n, cur.data(), changed, f.m, a.data()); want.evaluate_constraints(cur, b); }
        if (what == 3) { o1 = w.eval_jac_g(f.n, cur.data(), changed, f.m, f.z, nullptr, nullptr, a.data()); want.evaluate_constraint_jacobian(cur, b); }
      }
      if (not check(o1 == o2 and (not o1 or a == b), "an evaluation delivers the model's result for the current point", in + hist)) break;
      changed = false;
    }
    f.fails = ri(0, 9) == 0;
    VectorXd fin = ri(0, 1) ? cur : rnd(f.n), g = rnd(f.m);
    int status = ri(0, 3);
    w.finalize_solution((Ipopt::SolverReturn)status, f.n, fin.data(), nullptr, nullptr, f.m, g.data(), nullptr, 4.25, nullptr, nullptr);
    Fake want = f;
    want.known = fin; want.fresh = false;
    double co = 0, pe = 0;
    want.evaluate_cost(fin, co); want.evaluate_penalty(fin, pe);
    check(w.get_best_solution() == fin and w.get_best_constraints() == g and w.get_best_objective_value() == 4.25, "final point, constraints and objective", in);
    check(f.fails or (w.get_best_cost_value() == co and w.get_best_penalty_value() == pe), "final cost and penalty belong to the final point", in + hist);
  }
  return finish();
}
