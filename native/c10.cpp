#include "h.hpp"
#include "InterpolatingVector.hpp"
#include "Optimization_helpers.hpp"
#include <memory>
using Eigen::VectorXd;
using Eigen::Index;
using namespace Aux;
static std::vector<double> points(int n) {
  std::vector<double> p;
  double t = ri(0, 2) ? uni(-5, 5) : 0.0;
  for (int i = 0; i < n; ++i) { p.push_back(t); t += logu(1e-3, 30); }
  return p;
}
static double ref(std::vector<double> const &p, VectorXd const &v, Index L, Index j, double t) {
  int n = p.size();
  if (t <= p[0]) return v[j];
  if (t >= p[n - 1]) return v[(n - 1) * L + j];
  int i = 0;
  while (!(p[i] <= t && t <= p[i + 1])) ++i;
  return ((p[i + 1] - t) * v[i * L + j] + (t - p[i]) * v[(i + 1) * L + j]) / (p[i + 1] - p[i]);
}
int main(int argc, char **argv) {
  MAIN(argc, argv)
  for (long c = 0; c < N; ++c) {
    int n = ri(1, 7), L = ri(0, 3);
    auto p = points(n);
    VectorXd pe = Eigen::Map<VectorXd>(p.data(), n), v = VectorXd::Random(n * L) * 100, store = v;
    std::string in = str("case", c, "points", n, "inner length", L);
    std::vector<std::unique_ptr<InterpolatingVector_Base>> all;
    auto iv = std::make_unique<InterpolatingVector>(p, L);
    iv->set_values_in_bulk(v);
    auto iw = std::make_unique<InterpolatingVector>(pe, L);
    for (int i = 0; i < n; ++i) iw->mut_timestep(i) = v.segment(i * L, L);
    InterpolatingVector copy(*iv), assigned;
    assigned = *static_cast<InterpolatingVector_Base *>(iw.get());
    check(copy == *iw && assigned == *iv && have_same_structure(copy, assigned), "copies are equal", in);
    if (n * L) { assigned.mut_timestep(n - 1)[L - 1] += 1; check(assigned != *iv && have_same_structure(assigned, *iv), "different values", in); }
    if (n > 1) {      // the same values over other times
      int k = n > 2 && ri(0, 3) ? ri(1, n - 2) : ri(0, 1) * (n - 1);
      auto q = p;
      q[k] = k + 1 < n ? (p[k] + p[k + 1]) / 2 : p[k] + 0.5;
      InterpolatingVector other(q, L);
      other.set_values_in_bulk(v);
      check(not have_same_structure(other, *iv) && other != *iv, "vectors over different times differ", in + str("point", k, "moved"));
      VectorXd place = VectorXd::Zero(n * L);
      MappedInterpolatingVector m(p, L, place.data(), n * L);
      check(outcome([&] { m = *static_cast<InterpolatingVector_Base *>(&other); }) != 0, "assignment of another structure is refused", in + str("point", k, "moved"));
    }
    all.push_back(std::move(iv));
    all.push_back(std::move(iw));
    all.push_back(std::make_unique<MappedInterpolatingVector>(p, L, store.data(), n * L));
    all.push_back(std::make_unique<ConstMappedInterpolatingVector>(pe, L, store.data(), n * L));
    std::vector<double> ts = p;
    for (int k = 0; k < 6; ++k) ts.push_back(uni(p[0], p[n - 1]));
    for (int i = 0; i < n; ++i) for (double f : {0.25, 0.9}) if (i) ts.push_back(p[i - 1] + f * (p[i] - p[i - 1]));
    ts.push_back(p[n - 1] + 5e-11);
    ts.push_back(p[0] - 5e-11);
    for (size_t k = 0; k < all.size(); ++k) {
      auto &x = *all[k];
      std::string ik = in + str("kind", k);
      check(x.size() == n && x.get_inner_length() == L && x.get_total_number_of_values() == n * L, "sizes", ik);
      for (double t : ts) {
        VectorXd r = x(t);
        check(r.size() == L, "length of the result", ik);
        for (int j = 0; j < L; ++j) same(r[j], ref(p, v, L, j, t), "piecewise linear", ik + str("t", t), 1e-9, 1e-9);
      }
      for (int i = 0; i < n; ++i) check(x.vector_at_index(i) == v.segment(i * L, L) && x.interpolation_point_at_index(i) == p[i], "stored values", ik);
      for (double t : {p[0] - 1e-6, p[n - 1] + 1e-6, p[0] - 3, p[n - 1] + 100}) {
        bool threw = false;
        try { x(t); } catch (std::exception &) { threw = true; }
        check(threw, "time outside is refused", ik + str("t", t));
      }
      for (int i : {-1, n, n + 5}) if (L) {
        bool threw = false;
        try { x.vector_at_index(i); } catch (std::exception &) { threw = true; }
        check(threw, "index outside is refused", ik + str("index", i));
      }
      VectorXd wrong(n * L + 1);
      bool threw = false;
      try { if (k < 3) x.set_values_in_bulk(wrong); else threw = true; } catch (std::exception &) { threw = true; }
      check(threw, "wrong number of values is refused", ik);
      try { if (k == 3) x.setZero(), check(false, "a constant map is not written", ik); } catch (std::exception &) {}
    }
    if (n > 1 && L) {   // interpolation from another vector
      std::vector<double> q;
      int m = ri(1, 5);
      for (int i = 0; i < m; ++i) q.push_back(uni(p[0], p[n - 1]));
      std::sort(q.begin(), q.end());
      q.erase(std::unique(q.begin(), q.end()), q.end());
      VectorXd qe = Eigen::Map<VectorXd>(q.data(), q.size());
      auto z = InterpolatingVector::construct_and_interpolate_from(qe, L, *all[0]);
      for (size_t i = 0; i < q.size(); ++i) for (int j = 0; j < L; ++j) same(z.vector_at_index(i)[j], ref(p, v, L, j, q[i]), "interpolate_from", in, 1e-9, 1e-9);
      nlohmann::json js, data = nlohmann::json::array();
      js["id"] = "x";
      for (int i = 0; i < n; ++i) {
        nlohmann::json e;
        e[c % 2 ? "time" : "x"] = p[i];
        e["values"] = nlohmann::json::array();
        for (int j = 0; j < L; ++j) e["values"].push_back(v[i * L + j]);
        data.push_back(e);
      }
      js["data"] = data;
      check(InterpolatingVector::construct_from_json(js, nlohmann::json()) == *all[0], "construct_from_json", in);
    }
    if (n > 1) {   // unsorted points and storage of the wrong size
      auto u = p;
      std::swap(u[0], u[ri(1, n - 1)]);
      VectorXd ue = Eigen::Map<VectorXd>(u.data(), n);
      check(outcome([&] { InterpolatingVector x(u, L); }) != 0, "unsorted points are refused", in + "vector");
      check(outcome([&] { MappedInterpolatingVector x(u, L, store.data(), n * L); }) != 0, "unsorted points are refused", in + "mapped vector");
      if (c % 10 == 0) check(outcome([&] { InterpolatingVector x(ue, L); }) != 0, "unsorted points are refused", in + "Eigen vector");
    }
    try { MappedInterpolatingVector x(p, L, store.data(), n * L + 1); check(false, "wrong storage is refused", in); } catch (std::exception &) { ++cases; }
    try { ConstMappedInterpolatingVector x(pe, L, store.data(), n * L + 1); check(false, "wrong storage is refused", in); } catch (std::exception &) { ++cases; }
    // index and weight
    for (double t : ts) {
      if (t < p[0]) continue;
      auto [i, l] = Optimization::compute_index_lambda(pe, t);
      std::string ii = in + str("t", t, "index", i, "weight", l);
      check(i >= 0 && i < n && l >= 0 && l <= 1, "index and weight in range", ii);
      if (i >= 0 && i < n) {
        if (i == 0) check(std::abs(t - p[0]) <= 1e-10 && l == 1, "first point", ii);
        else same(l * p[i] + (1 - l) * p[i - 1], std::min(t, p[n - 1]), "index and weight reproduce the time", ii, 1e-9, 1e-9);
        if (i > 0) check(p[i - 1] < t, "lower neighbour", ii);
      }
    }
    // equidistant grids
    double a = uni(-10, 10), d = logu(1e-3, 10), b = a + logu(1e-2, 1e3);
    int m = ri(1, 2000);
    auto grid = [&](Interpolation_data g, char const *what) {
      InterpolatingVector x(g, 1);
      bool ok = x.size() == (Index)g.number_of_entries;
      for (Index i = 0; ok && i < x.size(); ++i) ok = close(x.interpolation_point_at_index(i), g.first_point + i * g.delta, 1e-12, 1e-12);
      check(ok, what, in + str(g.first_point, g.delta, g.number_of_entries));
      return x.interpolation_point_at_index(x.size() - 1);
    };
    auto g1 = make_from_start_delta_number(a, d, m);
    grid(g1, "equidistant points");
    check((int)g1.number_of_entries == m && g1.delta == d, "requested grid", in);
    auto g2 = make_from_start_delta_end(a, d, b);
    same(grid(g2, "equidistant points"), b, "grid ends at the last point", in, 1e-12, 1e-12);
    check(g2.delta <= d * (1 + 1e-12), "step is not larger than desired", in);
    if (m > 1) {
      auto g3 = make_from_start_number_end(a, b, m);
      same(grid(g3, "equidistant points"), b, "grid ends at the last point", in, 1e-12, 1e-12);
      check((int)g3.number_of_entries == m, "requested grid", in);
    }
    if (c == 0) {
      for (int k : {0, -1, 1}) check(outcome([&] { make_from_start_number_end(0, 1, k); }) == 1, "impossible grid is refused", str(k));
      check(outcome([&] { make_from_start_delta_number(0, 0, 3); }) == 1 && outcome([&] { make_from_start_delta_end(0, -1, 3); }) == 1
            && outcome([&] { make_from_start_delta_end(3, 1, 3); }) == 1, "impossible grid is refused", "");
      VectorXd z(2); z << -1, 0;
      check(outcome([&] { auto [i, l] = Optimization::compute_index_lambda(z, 1e-10); if (i != 1 || l != 1) abort(); }) == 0, "time exactly EPSILON past the end", "");
      check(outcome([&] { InterpolatingVector x(make_from_start_delta_end(0, 1.0 / 3, 86400), 1); x.setZero(); x(86400.0); }) == 0, "long equidistant grid", "one day in thirds of a second");
    }
  }
  return finish();
}
