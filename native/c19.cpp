#include "h.hpp"
#include "Edge.hpp"
#include "Net.hpp"
#include "Node.hpp"
#include <algorithm>
#include <nlohmann/json.hpp>
#include <iostream>
#include <memory>
using json = nlohmann::json;
using namespace Network;
static long occurrences(std::vector<Edge *> const &v, Edge *e) { return std::count(v.begin(), v.end(), e); }
int main(int argc, char **argv) {
  MAIN(argc, argv)
  for (long c = 0; c < N; ++c) {
    int n = ri(1, 7), m = ri(0, 9);
    std::vector<std::string> pool{"a", "aa", "b", "ab", "", "n1", "n10", "node", "Node"};
    std::shuffle(pool.begin(), pool.end(), rng);
    std::vector<std::unique_ptr<Node>> nodes;
    std::vector<Node *> raw;
    for (int i = 0; i < n; ++i) { nodes.push_back(std::make_unique<Node>(json{{"id", pool[i]}})); raw.push_back(nodes.back().get()); }
    std::vector<std::unique_ptr<Edge>> edges;
    std::vector<Edge *> eraw;
    std::vector<std::pair<int, int>> ends;
    std::string in = str("nodes", n) + ":";
    for (int i = 0; i < n; ++i) in += " '" + pool[i] + "'";
    for (int k = 0; k < m; ++k) {
      int a = ri(0, (int)pool.size() - 1), b = ri(0, (int)pool.size() - 1);
      if (ri(0, 3)) { a %= n; b %= n; }
      std::string id = "e" + std::to_string(k), what = in + " edge '" + pool[a] + "' -> '" + pool[b] + "'";
      size_t before = 0, after = 0;
      for (auto *p : raw) before += p->get_starting_edges().size() + p->get_ending_edges().size();
      bool threw = false;
      try { edges.push_back(std::make_unique<Edge>(json{{"id", id}, {"from", pool[a]}, {"to", pool[b]}}, nodes)); } catch (std::exception &) { threw = true; }
      for (auto *p : raw) after += p->get_starting_edges().size() + p->get_ending_edges().size();
      check(threw == (a >= n or b >= n or a == b), "an edge is refused exactly if an end is unknown or it is a loop", what);
      check(after - before == (threw ? 0u : 2u), "a new edge is attached exactly twice, a refused one nowhere", what);
      if (threw) continue;
      Edge *e = edges.back().get();
      if (a == b or a >= n or b >= n) { edges.pop_back(); continue; }
      eraw.push_back(e); ends.push_back({a, b});
      check(e->get_starting_node() == raw[a] and e->get_ending_node() == raw[b], "ends of an edge", what);
      check(e->get_id() == id and e->get_id_copy() == id, "id of an edge", what);
    }
    auto incidence = [&](std::string const &when) {
      for (int i = 0; i < n; ++i)
        for (size_t k = 0; k < eraw.size(); ++k) {
          check(occurrences(raw[i]->get_starting_edges(), eraw[k]) == (ends[k].first == i), "listed once at its start" + when, in);
          check(occurrences(raw[i]->get_ending_edges(), eraw[k]) == (ends[k].second == i), "listed once at its end" + when, in);
        }
    };
    incidence("");
    // attaching at a node it does not belong to changes nothing
    if (not eraw.empty()) {
      int k = ri(0, (int)eraw.size() - 1), i = ri(0, n - 1);
      if (ends[k].first != i) check(not raw[i]->attach_starting_edge(eraw[k]), "foreign start refused", in);
      if (ends[k].second != i) check(not raw[i]->attach_ending_edge(eraw[k]), "foreign end refused", in);
      incidence(" after a refused attachment");
    }
    // inconsistent nets
    int fault = eraw.empty() ? 0 : ri(0, 3), at = eraw.empty() ? 0 : ri(0, (int)eraw.size() - 1);
    bool bad = false;
    std::unique_ptr<Node> aside;
    if (fault == 1) { bad = true; check(raw[ends[at].first]->remove_edge(eraw[at]), "removal of a listed edge", in); }
    if (fault == 2) { bad = true; check(raw[ends[at].second]->remove_edge(eraw[at]), "removal of a listed edge", in); }
    if (fault == 3) {
      int i = ri(0, n - 1);
      for (auto &e : ends) bad = bad or e.first == i or e.second == i;
      aside = std::move(nodes[i]); nodes.erase(nodes.begin() + i); raw.erase(raw.begin() + i); pool.erase(pool.begin() + i); pool.push_back("??"); --n;
    }
    if (fault == 1 or fault == 2) {
      auto *p = fault == 1 ? raw[ends[at].first] : raw[ends[at].second];
      check(not p->remove_edge(eraw[at]), "removal of an unlisted edge", in);
      for (size_t k = 0; k < eraw.size(); ++k)
        for (int i = 0; i < n; ++i) {
          check(occurrences(raw[i]->get_starting_edges(), eraw[k]) == (ends[k].first == i and not(fault == 1 and (int)k == at)), "only the removed edge disappears", in);
          check(occurrences(raw[i]->get_ending_edges(), eraw[k]) == (ends[k].second == i and not(fault == 2 and (int)k == at)), "only the removed edge disappears", in);
        }
    }
    std::unique_ptr<Net> net;
    bool threw = false;
    try { net = std::make_unique<Net>(std::move(nodes), std::move(edges)); } catch (std::exception &) { threw = true; }
    check(threw == bad, "a net is refused exactly if it is inconsistent", in + str("fault", fault, "edge", at));
    if (threw or bad) continue;
    check(net->get_nodes() == raw, "nodes of the net", in);
    check(net->get_edges() == eraw, "edges of the net", in);
    auto ids = net->get_valid_node_ids();
    check(ids == std::vector<std::string>(pool.begin(), pool.begin() + n), "ids of the nodes", in);
    for (size_t i = 0; i < pool.size(); ++i) {
      check(net->get_node_by_id(pool[i]) == ((int)i < n ? raw[i] : nullptr), "node by id", in + str(" asked", pool[i]));
      if (fault != 3)
        for (size_t j = 0; j < pool.size(); ++j) {
          Edge *first = nullptr;
          bool any = false;
          for (size_t k = 0; k < eraw.size(); ++k) {
            if (not first and ends[k] == std::make_pair((int)i, (int)j)) first = eraw[k];
            any = any or ends[k] == std::make_pair((int)i, (int)j) or ends[k] == std::make_pair((int)j, (int)i);
          }
          check(net->get_edge_by_node_ids(pool[i], pool[j]) == first, "edge by node ids", in + str(" asked", pool[i], pool[j]));
          check(net->exists_edge_between(pool[i], pool[j]) == any, "existence of an edge", in + str(" asked", pool[i], pool[j]));
        }
    }
    for (auto *e : eraw) check(net->get_edge_by_id(e->get_id_copy()) == e, "edge by id", in);
    check(net->get_edge_by_id("none") == nullptr, "unknown edge", in);
    for (auto *p : raw) check(net->exists_node(p) == p, "known node", in);
    if (aside) check(net->exists_node(aside.get()) == nullptr, "foreign node", in);
  }
  finish();
}
