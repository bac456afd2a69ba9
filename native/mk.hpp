#pragma once
#include "h.hpp"
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <map>
#include <memory>
#include <nlohmann/json.hpp>
#include "Matrixhandler.hpp"
#include "Node.hpp"
#include "Edge.hpp"
using json = nlohmann::json;
using Eigen::Index;
using Eigen::MatrixXd;
using Eigen::VectorXd;
// a handler that only records what it is given (dense)
struct Rec : Aux::Matrixhandler {
  static Eigen::SparseMatrix<double> &dummy() {
    static Eigen::SparseMatrix<double> d(1, 1);
    return d;
  }
  MatrixXd M;
  bool out = false;
  Rec(Index r, Index c) : Aux::Matrixhandler(dummy()), M(MatrixXd::Zero(r, c)) {}
  void add_to_coefficient(Index r, Index c, double v) override {
    if (r < 0 || c < 0 || r >= M.rows() || c >= M.cols()) {
      out = true;
      return;
    }
    M(r, c) += v;
  }
  void set_matrix() override {}
};
inline json length_json(double v) {
  json j;
  j["value"] = v;
  j["unit"] = "m";
  return j;
}
// compares a Jacobian with finite differences of a residual function
template <class F, class H>
void jaccheck(std::string const &what, std::string const &in, VectorXd const &x, Index rows, MatrixXd const &J, F f, H step, double rel, double abs_) {
  for (Index c = 0; c < x.size(); ++c) {
    double h = step(c);
    VectorXd a = x, b = x, a2 = x, b2 = x;
    a[c] += h; b[c] -= h; a2[c] += h / 2; b2[c] -= h / 2;
    VectorXd d1 = (f(a) - f(b)) / (2 * h), d2 = (f(a2) - f(b2)) / h;
    VectorXd d = (4 * d2 - d1) / 3;
    for (Index r = 0; r < rows; ++r) same(J(r, c), d[r], what, in + str("row", r, "col", c), rel, abs_ * (1 + std::abs(d[r])));
  }
}
