#include "h.hpp"
#include "Isothermaleulerequation.hpp"
using Eq = Model::Balancelaw::Isothermaleulerequation;
using Eigen::Vector2d;
static const double PI = 3.141592653589793, rho0 = 0.785, eta = 1e-5, T = 283.15, pc = 46.4512e5, Tc = 192.033;
static const double al = 0.257 / pc - 0.533 * Tc / (pc * T), c2 = 1.01325e5 * T / (1.005 * 273.15 * rho0);
static double P(double r) { return c2 * r / (1 - al * c2 * r); }
static double SJ(double Re, double D, double k) { double a = std::log10(k / (3.7 * D) + 5.74 / std::pow(Re, 0.9)); return 0.25 / a / a; }
static double dSJ(double Re, double D, double k) { return fd([&](double x) { return SJ(x, D, k); }, Re, Re * 1e-3); }
static double lam(double Re, double D, double k) {
  if (Re < 2000) return 64 / Re;
  if (Re > 4000) return SJ(Re, D, k);
  double x = (Re - 2000) / 2000, f0 = 64. / 2000, d0 = -64. / 4e6 * 2000, f1 = SJ(4000, D, k), d1 = dSJ(4000, D, k) * 2000;
  return f0 * (2 * x * x * x - 3 * x * x + 1) + d0 * (x * x * x - 2 * x * x + x) + f1 * (-2 * x * x * x + 3 * x * x) + d1 * (x * x * x - x * x);
}
int main(int argc, char **argv) {
  MAIN(argc, argv)
  for (long n = 0; n < N; ++n) {
    double D = logu(0.02, 3), k = logu(1e-6, 1e-2);
    nlohmann::json j;
    j["diameter"]["value"] = D; j["diameter"]["unit"] = "m";
    j["roughness"]["value"] = k * 1e3; j["roughness"]["unit"] = "mm";
    Eq e(j);
    double A = PI * D * D / 4;
    double rho = logu(0.1, 120), qs = 2000 * A * eta / (D * rho0);
    double q = (ri(0, 1) ? 1 : -1) * qs * logu(0.01, 1e4);
    if (ri(0, 3) == 0) q = (ri(0, 1) ? 1 : -1) * qs * uni(0.9, 2.2);
    std::string in = str("D", D, "k", k, "rho", rho, "q", q, ": ");
    Vector2d s(rho, q);
    double Re = D * rho0 / (A * eta) * std::abs(q);
    same(e.p(rho), P(rho), "p", in);
    same(e.rho(P(rho)), rho, "rho(p)", in);
    same(e.dp_drho(rho), fd(P, rho, rho * 1e-4), "dp_drho", in, 1e-6);
    same(e.p_pascal_from_p_bar(rho), rho * 1e5, "p_pascal_from_p_bar", in);
    same(e.p_bar_from_p_pascal(rho), rho / 1e5, "p_bar_from_p_pascal", in);
    same(Eq::Reynolds(q, D), Re, "Reynolds", in);
    Vector2d fl = e.flux(s), so = e.source(s);
    double L = lam(Re, D, k);
    same(fl[0], rho0 / A * q, "flux0", in);
    same(fl[1], A / rho0 * P(rho) + rho0 / A * q * q / rho, "flux1", in);
    same(so[0], 0, "source0", in);
    same(so[1], -rho0 / (2 * A * D) * L * std::abs(q) * q / rho, "source1", in, 1e-6);
    auto df = e.dflux_dstate(s), ds = e.dsource_dstate(s), pq = e.dp_qvol_dstate(s);
    for (int c = 0; c < 2; ++c) {
      double h = 1e-4 * std::abs(s[c]);
      for (int r = 0; r < 2; ++r) {
        auto g = [&](auto fun) { return fd([&](double x) { Vector2d t = s; t[c] = x; return (double)fun(t)[r]; }, s[c], h); };
        double sc = std::abs(e.flux(s)[r] / s[c]) + 1e-30;
        same(df(r, c), g([&](Vector2d const &t) { return e.flux(t); }), "dflux", in + str("entry", r, c), 1e-5, 1e-6 * sc);
        if (std::abs(Re - 2000) > 10 && std::abs(Re - 4000) > 10)
          same(ds(r, c), g([&](Vector2d const &t) { return e.source(t); }), "dsource", in + str("entry", r, c), 1e-4, 1e-7 * std::abs(so[r] / s[c]) + 1e-14);
        same(pq(r, c), g([&](Vector2d const &t) { return e.p_qvol(t); }), "dp_qvol", in + str("entry", r, c), 1e-5, 1e-9);
      }
    }
    double ReL = uni(2000, 4000), ReT = logu(4000, 1e8);
    same(Eq::lambda_non_laminar(ReL, D, k), lam(ReL, D, k), "lambda transition", in + str("Re", ReL), 1e-6);
    same(Eq::lambda_non_laminar(ReT, D, k), lam(ReT, D, k), "lambda turbulent", in + str("Re", ReT), 1e-8);
    same(Eq::dlambda_non_laminar_dRe(ReT, D, k), dSJ(ReT, D, k), "dlambda turbulent", in + str("Re", ReT), 1e-5, 1e-16);
    same(Eq::dlambda_non_laminar_dRe(4000, D, k), dSJ(4000, D, k), "dlambda at 4000", in, 1e-5, 1e-12);
    same(Eq::lambda_non_laminar(2000, D, k), 0.032, "lambda(2000)", in, 1e-7);
    same(Eq::dlambda_non_laminar_dRe(2000, D, k), -1.6e-5, "dlambda(2000)", in, 1e-6);
    Vector2d pb(rho / 2, q);
    same(e.p_qvol_from_p_qvol_bar(pb)[0], pb[0] * 1e5, "p_qvol_from_p_qvol_bar", in);
    same(e.p_qvol_bar_from_p_qvol(pb)[0], pb[0] / 1e5, "p_qvol_bar_from_p_qvol", in);
    same(e.state(e.p_qvol(s))[0], rho, "state(p_qvol)", in);
    same(e.state(e.p_qvol(s))[1], q, "state(p_qvol)[1]", in);
    auto db = e.dp_qvol_bar_from_p_qvold_p_qvol(pb);
    check(db(0, 0) == 1e-5 && db(0, 1) == 0 && db(1, 0) == 0 && db(1, 1) == 1, "dp_qvol_bar", in);
  }
  return finish();
}
