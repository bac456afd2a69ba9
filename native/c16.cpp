#include "h.hpp"
#include "Normaldistribution.hpp"
#include "Stochastic.hpp"
#include "StochasticPQnode.hpp"
#include "Matrixhandler.hpp"
#include <nlohmann/json.hpp>
#include <iostream>
using json = nlohmann::json;
struct Script {                      // records what is asked for, answers from a list
  std::vector<double> s; size_t i = 0; std::vector<double> sd;
  double get_sample(double d) { sd.push_back(d); return s[i++ % s.size()]; }
};
int main(int argc, char **argv) {
  MAIN(argc, argv)
  auto &sink = *new std::ostringstream;
  std::cout.rdbuf(sink.rdbuf());
  for (long c = 0; c < N; ++c) {
    // number of steps
    double a = ri(0, 9) ? uni(0.01, 1.99) : uni(-1, 3), th = ri(0, 4) ? logu(0.01, 50) : (ri(0, 3) ? 0.0 : -0.5), dt = logu(0.01, 100);
    int n = ri(0, 3) ? ri(0, 40) : (ri(0, 5) ? 0 : -3);
    std::string in = str("a", a, "theta", th, "dt", dt, "N", n);
    bool valid = a > 0 and a < 2 and th >= 0 and n >= 0;
    int k = -1;
    bool threw = false;
    try { k = Aux::compute_stable_number_of_oup_steps(a, th, dt, n); } catch (std::exception &) { threw = true; }
    check(threw == not valid, "parameters are accepted exactly if valid", in);
    if (not threw and valid) {
      check(k >= 1, "at least one step", in + str("got", k));
      check(th * dt < a * k, "stability bound", in + str("got", k));
      check(k >= n and (th * dt >= a * n * (1 - 1e-12) or k == n), "a stable request is honoured", in + str("got", k));
      // process against a plain reimplementation
      double mu = ri(0, 8) ? uni(-5, 5) : 0, cut = ri(0, 5) ? uni(0, 0.6) : 0, sig = uni(0, 2), x0 = uni(-6, 6);
      Script d;
      for (int i = 0; i < 7; ++i) d.s.push_back(uni(-2, 2));
      double v = Aux::euler_maruyama_oup(a, cut, x0, th, mu, dt, sig, d, n);
      double h = dt / k, y = x0;
      for (int i = 0; i < k; ++i) {
        y += th * (mu - y) * h + sig * d.s[i % 7];
        double lo = std::min((1 - cut) * mu, (1 + cut) * mu), hi = std::max((1 - cut) * mu, (1 + cut) * mu);
        if (mu != 0) y = std::min(std::max(y, lo), hi);
      }
      in += str("mu", mu, "cut", cut, "sigma", sig, "x0", x0);
      same(v, y, "Ornstein-Uhlenbeck process", in, 1e-9, 1e-9);
      check(d.sd.size() == (size_t)k, "one sample per step", in);
      for (double s : d.sd) if (!close(s * s, h, 1e-9)) { check(false, "variance of the samples", in + str("got", s)); break; }
      if (mu != 0) check(std::abs(v - mu) <= cut * std::abs(mu) * (1 + 1e-12) + 1e-12, "band around the mean", in + str("got", v));
    }
    // samples
    std::array<uint32_t, Aux::pcg_seed_count> seed, used, used2;
    for (auto &s : seed) s = (uint32_t)rng();
    Aux::Truncatednormaldist t(used, seed);
    Aux::Normaldistribution n1(used2, seed), n2(used2, seed);
    check(used == seed and used2 == seed, "the seed in use is reported", "");
    for (int i = 0; i < 20; ++i) {
      double m = uni(-3, 3), sd = logu(0.01, 5), lo = m - uni(0, 2) * sd, hi = m + uni(0.1, 2) * sd;
      double s = t.get_sample(m, sd, lo, hi);
      check(s >= lo and s <= hi, "bounds of a truncated sample", str(m, sd, lo, hi, s));
      s = t.get_sample(m, sd);
      check(std::abs(s - m) <= 2 * sd, "two standard deviations", str(m, sd, s));
      s = t.get_sample(sd);
      check(std::abs(s) <= 2 * sd, "two standard deviations around zero", str(sd, s));
      s = t.get_sample(sd, -sd, 0.5 * sd);
      check(s >= -sd and s <= 0.5 * sd, "bounds around mean zero", str(sd, s));
      double p = n1.get_sample(m, sd), q = n2.get_sample(m, sd);
      check(p == q, "equal seeds give equal samples", str(p, q));
    }
    if (c % 20 == 0) {
      double m = 0, v = 0;
      int K = 4000;
      for (int i = 0; i < K; ++i) { double s = n1.get_sample(3, 2) - 3; m += s / K; v += s * s / K; }
      check(std::abs(m) < 0.25 and std::abs(v - 4) < 0.8, "mean and variance of samples", str(m, v));
    }
    // the node: no noise, one attached shunt; P and Q follow their own process
    json j;
    double thP = logu(0.05, 2), thQ = logu(0.05, 2), cut = uni(0.05, 0.5), G = uni(0.1, 2), B = uni(-2, -0.1);
    double P1 = uni(1, 4), Q1 = uni(-4, -1), V = uni(0.5, 2), dt2 = uni(0.1, 3), aa = uni(0.2, 1.8);
    int ns = ri(1, 20);
    j["id"] = "n"; j["G"] = G; j["B"] = B; j["stability_parameter"] = aa; j["cut_off_factor"] = cut; j["sigma_P"] = 0.0; j["sigma_Q"] = 0.0; j["theta_P"] = thP; j["theta_Q"] = thQ; j["number_of_stochastic_steps"] = ns;
    json e; e["time"] = 0.0; e["values"] = {0.0, 0.0};
    json f; f["time"] = dt2; f["values"] = {P1, Q1};
    j["boundary_values"]["id"] = "n"; j["boundary_values"]["data"] = json::array({e, f}); j["boundary_values"]["seed"] = seed;
    Model::Power::StochasticPQnode node(j);
    node.setup();
    node.set_state_indices(0);
    Eigen::Vector2d x(V, 0.3);
    node.prepare_timestep(0.0, dt2, x);
    auto em = [&](double y, double th, double mu) {
      int k = Aux::compute_stable_number_of_oup_steps(aa, th, dt2, ns);
      for (int i = 0; i < k; ++i) {
        y += th * (mu - y) * dt2 / k;
        y = std::min(std::max(y, std::min((1 - cut) * mu, (1 + cut) * mu)), std::max((1 - cut) * mu, (1 + cut) * mu));
      }
      return y;
    };
    std::string ni = str("thetas", thP, thQ, "cut", cut, "G", G, "B", B, "means", P1, Q1, "V", V, "dt", dt2, "steps", ns);
    same(node.get_current_P(), em(G * V * V, thP, P1), "active power of the step", ni, 1e-9);
    same(node.get_current_Q(), em(-B * V * V, thQ, Q1), "reactive power of the step", ni, 1e-9);
  }
  return finish();
}
