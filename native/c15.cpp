#include "h.hpp"
#include "unit_conversion.hpp"
#include <nlohmann/json.hpp>
#include <map>
using namespace Aux::unit;
using nlohmann::json;
struct U { double f, o; };
struct M { Measure const *m; std::map<std::string, U> u; char const *name; };
int main(int argc, char **argv) {
  MAIN(argc, argv)
  std::vector<M> ms = {
    {&length, {{"m", {1, 0}}, {"in", {.0254, 0}}, {"ft", {.3048, 0}}, {"yd", {.9144, 0}}, {"mi", {1609.344, 0}}}, "length"},
    {&area, {{"m^2", {1, 0}}, {"ac", {4046.8564224, 0}}, {"acre", {4046.8564224, 0}}}, "area"},
    {&volume, {{"m^3", {1, 0}}, {"L", {1e-3, 0}}, {"l", {1e-3, 0}}}, "volume"},
    {&pressure, {{"Pa", {1, 0}}, {"bar", {1e5, 0}}, {"atm", {101325, 0}}, {"psi", {6894.757293168, 0}}}, "pressure"},
    {&frequency, {{"Hz", {1, 0}}, {"per_min", {1 / 60., 0}}, {"per_minute", {1 / 60., 0}}}, "frequency"},
    {&force, {{"N", {1, 0}}}, "force"},
    {&power, {{"W", {1, 0}}, {"PS", {735.49875, 0}}}, "power"},
    {&mass, {{"g", {1e-3, 0}}, {"t", {1000, 0}}, {"oz", {.028349523125, 0}}, {"lb", {.45359237, 0}}}, "mass"},
    {&volume_flux, {{"m_cube_per_s", {1, 0}}, {"1000m_cube_per_hour", {1000 / 3600., 0}}}, "volume_flux"},
    {&temperature, {{"K", {1, 0}}, {"C", {1, 273.15}}, {"Celsius", {1, 273.15}}, {"F", {5 / 9., 459.67 * 5 / 9}}}, "temperature"}};
  std::map<std::string, int> pre = {{"Y", 24}, {"Z", 21}, {"E", 18}, {"P", 15}, {"T", 12}, {"G", 9}, {"M", 6}, {"k", 3}, {"h", 2}, {"da", 1}, {"", 0}, {"d", -1}, {"c", -2}, {"m", -3}, {"mu", -6}, {"n", -9}, {"p", -12}, {"f", -15}, {"a", -18}, {"z", -21}, {"y", -24}};
  for (auto const &m : ms) for (auto const &[u, c] : m.u) for (auto const &[p, e] : pre) for (int k = 0; k < 3 + N / 100; ++k) {
    double v = k == 0 ? 0 : uni(-1e3, 1e3);
    std::string num;
    double f = 1;
    if (k % 3 == 2) { char b[40]; std::snprintf(b, sizeof b, ri(0, 1) ? "%.3fe%d" : "%.6f", uni(0.1, 99), ri(-6, 9)); num = b; f = std::strtod(b, nullptr); num += " "; }
    json q = {{"value", v}, {"unit", num + p + u}};
    std::string in = std::string(m.name) + " " + q.dump() + " ";
    double want = c.f * (v * f * std::pow(10., e)) + c.o;
    try { same(m.m->parse_to_si(q), want, "SI value", in, 2e-5, 1e-300); }
    catch (std::exception const &x) { check(false, "a supported unit is converted", in + x.what()); }
    // integers are numbers, too
    if (k == 1) { int iv = ri(-50, 50); q["value"] = iv; same(m.m->parse_to_si(q), c.f * (iv * f * std::pow(10., e)) + c.o, "SI value of an integer", q.dump(), 2e-5, 1e-300); }
    if (k == 2) for (std::string bad : {num + " " + p + u, p + u + "x", p + u + "?", "q" + p + u, num + "q" + p + u, "abc " + p + u, p + u + " ", std::string("")}) {
      if (bad.empty() && m.u.count("")) continue;
      json b = {{"value", v}, {"unit", bad}};
      bool known = false;
      for (auto const &[u2, c2] : m.u) for (auto const &[p2, e2] : pre) known |= bad == p2 + u2 || bad == num + p2 + u2;
      if (known) continue;
      bool threw = false;
      double r = 0;
      try { r = m.m->parse_to_si(b); } catch (std::exception const &) { threw = true; }
      check(threw, "a malformed or unknown unit is refused", std::string(m.name) + " " + b.dump() + str(" gave", r));
    }
  }
  return finish();
}
