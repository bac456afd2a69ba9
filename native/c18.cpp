#include "gasnet.hpp"
#include "ComponentJsonHelpers.hpp"
#include "InterpolatingVector.hpp"
#include "Net.hpp"
#include "Netfactory.hpp"
#include "Networkproblem.hpp"
#include <algorithm>
#include <map>
#include <set>
using Model::Networkproblem;
template <class T> std::vector<T *> pick(std::vector<Network::Node *> const &n, std::vector<Network::Edge *> const &e) {
  std::vector<T *> r;
  for (auto *x : n) if (auto *p = dynamic_cast<T *>(x)) r.push_back(p);
  for (auto *x : e) if (auto *p = dynamic_cast<T *>(x)) r.push_back(p);
  return r;
}
template <class F> bool throws(F f) { try { f(); } catch (std::exception &) { return true; } return false; }
static std::string name(int k) {
  static char const *odd[] = {"a", "aa", "aB", "B", "b", "n1", "n10", "n2", "", "\xc3\xa4", "z", "Z"};
  return k < 12 ? odd[k] : "c" + std::to_string(k);
}
static void merge() {
  std::vector<int> ids(20);
  for (int i = 0; i < 20; ++i) ids[i] = i;
  std::shuffle(ids.begin(), ids.end(), rng);
  int n = ri(0, 9), extra = ri(0, 3) ? 0 : ri(1, 3), missing = ri(0, 2) ? 0 : ri(1, 2), dup = ri(0, 4) ? 0 : 1, side = ri(0, 1);
  std::vector<std::pair<std::string, std::string>> places{{"nodes", "Source"}, {"nodes", "Sink"}, {"connections", "Pipe"}, {"connections", "A"}};
  std::map<std::string, json> want;
  json top = json::object(), bound = json::object();
  std::vector<std::tuple<std::string, std::string, json>> ts, bs;
  bool reported = false, noclass[2] = {ri(0, 5) == 0, ri(0, 5) == 0};
  std::set<std::pair<std::string, std::string>> listed;
  for (int i = 0; i < n + extra; ++i) {
    auto [c, t] = places[ri(0, 3)];
    json e{{"id", name(ids[i])}, {"own", i}}, b{{"id", name(ids[i])}, {"data", uni(0, 1)}};
    if (i < n) ts.push_back({c, t, e});
    if (i >= missing or i >= n) {
      if (not noclass[c == "nodes"]) { bs.push_back({c, t, b}); listed.insert({c, t}); if (i < n) want[name(ids[i])] = b; }
    }
  }
  if (dup and not ts.empty() and side == 0) {
    auto x = ts[ri(0, (int)ts.size() - 1)];
    if (ri(0, 1)) { auto [c, t] = places[ri(0, 3)]; std::get<0>(x) = c; std::get<1>(x) = t; }
    ts.push_back(x);
  } else if (dup and not bs.empty()) {
    auto x = bs[ri(0, (int)bs.size() - 1)];
    if (ri(0, 1)) { auto [c, t] = places[ri(0, 3)]; if (not noclass[c == "nodes"]) { std::get<0>(x) = c; std::get<1>(x) = t; } }
    bs.push_back(x);
  } else dup = 0;
  // a topology entry whose type occurs in the boundary file needs an entry there
  for (auto &[c, t, e] : ts) if (listed.count({c, t}) and not want.count(e["id"])) reported = true;
  reported = reported or dup;
  std::shuffle(ts.begin(), ts.end(), rng);
  std::shuffle(bs.begin(), bs.end(), rng);
  for (auto c : {"nodes", "connections"}) if (ri(0, 3)) { top[c] = json::object(); if (not noclass[std::string(c) == "nodes"]) bound[c] = json::object(); }
  for (auto &[c, t, e] : ts) top[c][t].push_back(e);
  for (auto &[c, t, e] : bs) bound[c][t].push_back(e);
  json both{{"topology_json", top}, {"boundary_json", bound}}, got;
  std::string in = "topology " + top.dump() + " boundary " + bound.dump();
  bool threw = throws([&] { got = Model::build_full_networkproblem_json(both); });
  check(threw == reported, "reported exactly if an id occurs twice or an entry is missing", in);
  if (threw or reported) return;
  size_t count = 0;
  for (auto c : {"nodes", "connections"})
    if (got.contains(c))
      for (auto &[t, v] : got[c].items())
        for (auto &e : v) {
          ++count;
          bool found = false;
          for (auto &[c2, t2, e2] : ts)
            if (c2 == c and t2 == t and e2["id"] == e["id"]) {
              found = true;
              json x = e2;
              if (want.count(e["id"])) x["boundary_values"] = want[e["id"]];
              check(x == e, "every component gets exactly the entry with its id", in + " got " + e.dump());
            }
          check(found, "components stay in their class and type", in + " got " + e.dump());
        }
  check(count == ts.size(), "no component is lost", in);
}
static json data(char const *key, double end, int inner, int points) {
  json d = json::array();
  for (int i = 0; i < points; ++i) {
    json v = json::array();
    for (int k = 0; k < inner; ++k) v.push_back(uni(20, 60));
    d.push_back({{key, points == 1 ? 0.0 : end * i / (points - 1)}, {"values", v}});
  }
  return d;
}
// collects entries, perhaps with faults, in random order and types; returns whether the problem is to be refused
static bool spread(json &out, std::map<std::string, json> const &own, std::vector<std::string> const &ids, std::string &in) {
  int fault = ri(0, 4);
  std::vector<json> es;
  bool bad = false;
  for (auto &id : ids) es.push_back(own.at(id));
  std::shuffle(es.begin(), es.end(), rng);
  if (fault == 1 and not es.empty()) { bad = true; es.pop_back(); }
  if (fault == 2) { json x{{"id", ri(0, 1) ? "zzz" : "0"}, {"data", data("time", 1, 1, 1)}}; es.push_back(x); }
  if (fault == 3 and not es.empty()) { bad = true; json x = es[0]; x["data"] = json(es[0]["data"]); es.push_back(x); in += " duplicate " + es[0]["id"].get<std::string>(); }
  std::shuffle(es.begin(), es.end(), rng);
  out = json::object();
  for (auto &e : es) {
    auto c = ri(0, 1) ? "nodes" : "connections";
    out[c][ri(0, 1) ? "A" : "B"].push_back(e);
  }
  if (ri(0, 3) == 0 and not out.contains("nodes")) out["nodes"] = json::object();
  in += " entries " + out.dump();
  return bad;
}
template <class T> std::string idof(T *x) { return dynamic_cast<Network::Idobject *>(x)->get_id_copy(); }
static void dispatch() {
  Gasnet g;
  std::vector<Network::Node *> nodes;
  std::vector<Network::Edge *> edges;
  for (auto &x : g.nodes) nodes.push_back(x.get());
  for (auto &x : g.edges) edges.push_back(x.get());
  Networkproblem p(std::make_unique<Network::Net>(std::move(g.nodes), std::move(g.edges)));
  p.init(0, 0, 0);
  auto st = pick<Model::Statecomponent>(nodes, edges);
  auto ct = pick<Model::Controlcomponent>(nodes, edges);
  auto cn = pick<Model::Constraintcomponent>(nodes, edges);
  std::vector<std::string> ids;
  std::map<std::string, json> own;
  json file;
  for (auto *s : st) {
    auto id = idof(s);
    ids.push_back(id);
    json d = dynamic_cast<Pipe *>(s) ? data("x", 1e6, 2, 2) : dynamic_cast<Shortcomponent *>(s) ? data("x", 1, 2, 2) : data("x", 0, 2, 1);
    own[id] = {{"id", id}, {"data", d}};
  }
  std::string in = "initial values:";
  bool bad = spread(file, own, ids, in);
  Eigen::Index n = p.get_state_afterindex();
  VectorXd x = VectorXd::Constant(n, -7), y = x;
  bool threw = throws([&] { p.set_initial_values(x, file); });
  check(threw == bad, "initial values are refused exactly if an id is missing or occurs twice", in);
  if (not threw and not bad) {
    for (auto *s : st) s->set_initial_values(y, own[idof(s)]);
    check(x == y, "every component gets its own initial values", in);
  }
  auto series = [&](std::string const &what, auto const &comps, Index len, auto set, auto direct) {
    own.clear(); ids.clear();
    for (auto *c : comps) { auto id = idof(c); ids.push_back(id); own[id] = {{"id", id}, {"data", data("time", 10, 1, ri(2, 4))}}; }
    std::string in = what + ":";
    bool bad = spread(file, own, ids, in);
    VectorXd grid(3);
    grid << 0, uni(1, 5), 10;
    Aux::InterpolatingVector a(grid, len), b(grid, len);
    a.set_values_in_bulk(VectorXd::Constant(3 * len, -7)); b.set_values_in_bulk(VectorXd::Constant(3 * len, -7));
    bool threw = throws([&] { set(a, file); });
    check(threw == bad, what + " are refused exactly if an id is missing or occurs twice", in);
    if (threw or bad) return;
    for (auto *c : comps) direct(c, b, own[idof(c)]);
    check(a.get_allvalues() == b.get_allvalues(), "every component gets its own " + what, in);
  };
  using IV = Aux::InterpolatingVector_Base;
  Index nc = p.get_control_afterindex(), ncn = p.get_constraint_afterindex();
  series("controls", ct, nc, [&](IV &v, json const &j) { p.set_initial_controls(v, j); }, [](auto *c, IV &v, json const &j) { c->set_initial_controls(v, j); });
  series("lower bounds", ct, nc, [&](IV &v, json const &j) { p.set_lower_bounds(v, j); }, [](auto *c, IV &v, json const &j) { c->set_lower_bounds(v, j); });
  series("upper bounds", ct, nc, [&](IV &v, json const &j) { p.set_upper_bounds(v, j); }, [](auto *c, IV &v, json const &j) { c->set_upper_bounds(v, j); });
  series("constraint lower bounds", cn, ncn, [&](IV &v, json const &j) { p.set_constraint_lower_bounds(v, j); }, [](auto *c, IV &v, json const &j) { c->set_constraint_lower_bounds(v, j); });
  series("constraint upper bounds", cn, ncn, [&](IV &v, json const &j) { p.set_constraint_upper_bounds(v, j); }, [](auto *c, IV &v, json const &j) { c->set_constraint_upper_bounds(v, j); });
}
int main(int argc, char **argv) {
  MAIN(argc, argv)
  auto &sink = *new std::ostringstream;
  std::cout.rdbuf(sink.rdbuf());
  for (long t = 0; t < N; ++t) {
    for (int k = 0; k < 20; ++k) merge();
    dispatch();
    sink.str("");
  }
  return finish();
}
