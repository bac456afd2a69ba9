#pragma once
#include "mk.hpp"
#include "Compressorstation.hpp"
#include "ConstraintSink.hpp"
#include "Controlvalve.hpp"
#include "ExternalPowerplant.hpp"
#include "Gaspowerconnection.hpp"
#include "Innode.hpp"
#include "Isothermaleulerequation.hpp"
#include "Pipe.hpp"
#include "Pressureboundarynode.hpp"
#include "Shortpipe.hpp"
#include "Sink.hpp"
#include "Source.hpp"
#include "Transmissionline.hpp"
#include <iostream>
using namespace Model::Gas;
using Model::Gaspowerconnection::ExternalPowerplant;
using GPC = Model::Gaspowerconnection::Gaspowerconnection;
// a random gas network; every prescribed value is linear between time 0 and 10
struct Gasnet {
  std::vector<std::unique_ptr<Network::Node>> nodes;
  std::vector<std::unique_ptr<Network::Edge>> edges;
  std::vector<int> ntype, etype, from, to;   // ntype: 0 Innode 1 Source 2 Sink 3 ConstraintSink 4 Pressure 5 plant ; etype 0 pipe 1 shortpipe 2 valve 3 compressor 4 connection 5 line
  std::vector<double> b0, b1, weight, g2p, p2g;
  std::vector<Index> start, ctrl;
  Index n = 0, nc = 0;
  Gasnet() {
    std::cout.setstate(std::ios::failbit);
    int ng = ri(2, 6), np = ri(0, 2);
    for (int i = 0; i < ng + np; ++i) {
      json j;
      j["id"] = "n" + std::to_string(i);
      int ty = i < ng ? ri(0, 4) : 5;
      ntype.push_back(ty);
      b0.push_back(uni(-80, 80)); b1.push_back(uni(-80, 80));
      json e0, e1;
      e0["time"] = 0.0; e1["time"] = 10.0;
      if (ty == 5) { e0["values"] = {1.0, 0.0}; e1["values"] = {1.0, 0.0}; j["G"] = uni(-1, 1); j["B"] = uni(-1, 1); }
      else { e0["values"] = {b0[i]}; e1["values"] = {b1[i]}; }
      if (ty != 0) { j["boundary_values"]["data"] = json::array({e0, e1}); j["boundary_values"]["id"] = j["id"]; }
      switch (ty) {
      case 0: nodes.push_back(std::make_unique<Innode>(j)); break;
      case 1: nodes.push_back(std::make_unique<Source>(j)); break;
      case 2: nodes.push_back(std::make_unique<Sink>(j)); break;
      case 3: nodes.push_back(std::make_unique<ConstraintSink>(j)); break;
      case 4: nodes.push_back(std::make_unique<Pressureboundarynode>(j)); break;
      case 5: nodes.push_back(std::make_unique<ExternalPowerplant>(j)); break;
      }
    }
    int ne = ri(1, 10);
    for (int i = 0; i < ne + np + (np == 2 ? 1 : 0); ++i) {
      json j;
      j["id"] = "e" + std::to_string(i);
      int a = ri(0, ng - 1), b = ri(0, ng - 2), ty = ri(0, 3);
      if (b >= a) ++b;
      if (i >= ne) { ty = 4; b = ng + i - ne; }
      if (i >= ne + np) { ty = 5; a = ng; b = ng + 1; j["G"] = uni(-1, 1); j["B"] = uni(-1, 1); }
      from.push_back(a); to.push_back(b); etype.push_back(ty);
      j["from"] = "n" + std::to_string(a); j["to"] = "n" + std::to_string(b);
      g2p.push_back(uni(0.1, 3)); p2g.push_back(uni(0.1, 3));
      weight.push_back(uni(0.1, 3));
      if (ty == 0) {
        double L = logu(100, 30000);
        j["length"] = length_json(L); j["diameter"] = length_json(logu(0.1, 1.5)); j["roughness"] = length_json(logu(1e-6, 1e-3));
        j["desired_delta_x"] = L * uni(0.3, 1.4); j["balancelaw"] = "Isothermaleulerequation"; j["scheme"] = "Implicitboxscheme";
        edges.push_back(std::make_unique<Pipe>(j, nodes));
      } else if (ty == 1) edges.push_back(std::make_unique<Shortpipe>(j, nodes));
      else if (ty == 2) edges.push_back(std::make_unique<Controlvalve>(j, nodes));
      else if (ty == 3) edges.push_back(std::make_unique<Compressorstation>(j, nodes));
      else if (ty == 4) {
        j["gas2power_q_coeff"] = g2p[i]; j["power2gas_q_coeff"] = p2g[i];
        edges.push_back(std::make_unique<GPC>(j, nodes));
      } else edges.push_back(std::make_unique<Model::Power::Transmissionline>(j, nodes));
    }
    n = ri(0, 3);
    nc = ri(0, 2);
    for (size_t i = 0; i < edges.size(); ++i) {
      start.push_back(n);
      ctrl.push_back(nc);
      if (auto *s = dynamic_cast<Model::Statecomponent *>(edges[i].get())) n = s->set_state_indices(n);
      if (auto *c = dynamic_cast<Model::Controlcomponent *>(edges[i].get())) nc = c->set_control_indices(nc);
      if (ri(0, 3) == 0) ++n;
      if (ri(0, 3) == 0) ++nc;
    }
    for (size_t i = 0; i < nodes.size(); ++i) {
      start.push_back(n);
      if (auto *s = dynamic_cast<Model::Statecomponent *>(nodes[i].get())) n = s->set_state_indices(n);
    }
    n += ri(0, 2);
    nc += ri(0, 2);
    for (auto &x : nodes) if (auto *e = dynamic_cast<Model::Equationcomponent *>(x.get())) e->setup();
    for (auto &x : edges) if (auto *e = dynamic_cast<Model::Equationcomponent *>(x.get())) e->setup();
    else if (auto *e2 = dynamic_cast<Model::Controlcomponent *>(x.get())) (void)e2;
  }
  VectorXd randomstate() const {
    VectorXd x(n);
    for (Index i = 0; i < n; ++i) x[i] = uni(-60, 60);
    for (size_t e = 0; e < edges.size(); ++e)
      if (etype[e] == 0) {
        auto *p = static_cast<Pipe *>(edges[e].get());
        for (int i = 0; i < p->get_number_of_points(); ++i) x[start[e] + 2 * i] = uni(5, 80);
      }
    return x;
  }
  // pressure in bar and flow at an edge end
  std::pair<double, double> pq(int e, int dir, VectorXd const &x) const {
    Index s = start[e];
    if (etype[e] == 0) {
      auto *p = static_cast<Pipe *>(edges[e].get());
      if (dir < 0) s += 2 * (p->get_number_of_points() - 1);
      double c2 = 101325 * 283.15 / (1.005 * 273.15 * 0.785), al = 0.257 / 4645120 - 0.533 * 192.033 / (4645120 * 283.15);
      return {c2 * x[s] / (1 - al * c2 * x[s]) / 1e5, x[s + 1]};
    }
    if (dir < 0) s += 2;
    return {x[s], x[s + 1]};
  }
  Index row(int e, int dir) const {
    if (dir > 0) return start[e];
    if (etype[e] == 0) return start[e] + 2 * static_cast<Pipe *>(edges[e].get())->get_number_of_points() - 1;
    return start[e] + 3;
  }
  double val(int i, double t) const { return b0[i] + (b1[i] - b0[i]) * t / 10; }
  // the equations node i has to write (order of the edges: outgoing, then incoming)
  VectorXd noderef(int i, double t, VectorXd const &x, VectorXd w) const {
    std::vector<std::pair<int, int>> at;
    for (size_t e = 0; e < edges.size(); ++e) if (from[e] == i && etype[e] < 5) at.push_back({(int)e, 1});
    for (size_t e = 0; e < edges.size(); ++e) if (to[e] == i && etype[e] < 4) at.push_back({(int)e, -1});
    if (at.empty()) return w;
    if (ntype[i] == 4) {
      for (auto [e, d] : at) w[row(e, d)] = pq(e, d, x).first - val(i, t);
      return w;
    }
    double f = ntype[i] == 0 ? 0 : ntype[i] == 1 ? -val(i, t) : val(i, t);
    for (size_t k = 0; k < at.size(); ++k) {
      auto [e, d] = at[k];
      f += d * pq(e, d, x).second;
      if (k + 1 < at.size()) w[row(e, d)] = pq(at[k + 1].first, at[k + 1].second, x).first - pq(e, d, x).first;
    }
    w[row(at.back().first, at.back().second)] = f;
    return w;
  }
};
