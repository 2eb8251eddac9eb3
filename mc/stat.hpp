// Exact m-th derivative of f(E) = 1/(sigma exp(beta E) + 1), in 110-digit arithmetic.
// df/dx = f^2 - f (x = beta E, either sign of sigma), so f^(m) is a polynomial in f; evaluated on the side
// Re x >= 0, where f is small, with f(x) + f(-x) = 1.
#pragma once
#include "num.hpp"
namespace stat_ {
using namespace num;
typedef Cx<Big> Z;
inline const std::vector<std::vector<Big>> &polys() { // P_m as coefficients of f^k
  static std::vector<std::vector<Big>> P;
  if (P.empty()) {
    P.push_back({Big(0), Big(1)});
    for (int m = 1; m <= 24; m++) {
      const auto &q = P.back();
      std::vector<Big> r(q.size() + 1, Big(0));
      for (size_t k = 1; k < q.size(); k++) { r[k + 1] += q[k] * Big((int)k); r[k] -= q[k] * Big((int)k); }
      P.push_back(r);
    }
  }
  return P;
}
// value and the sum of the absolute values of the polynomial's terms
inline Z deriv(int m, int sigma, double beta, std::complex<double> E, double *size = nullptr, double shift = 0) {
  Z x = Z(Big(E.real()) + Big(shift), Big(E.imag())) * Big(beta);
  bool neg = x.r < 0;
  if (neg) x = -x;
  Z f;
  if (x.r > Big(100000)) f = Z();
  else f = (cexpo(x) * Big(sigma) + Z(Big(1))).inv();
  const auto &p = polys()[m];
  Z s, y(Big(1));
  Big a = 0;
  for (size_t k = 1; k < p.size(); k++) {
    y *= f;
    s += y * p[k];
    a += absv(y) * abs(p[k]);
  }
  if (neg) {
    if (m == 0) { s = Z(Big(1)) - s; }
    else if (m % 2 == 0) s = -s;
  }
  Big b = pow(Big(beta), m);
  if (size) *size = static_cast<double>((m == 0 && neg ? a + 1 : a) * b);
  return s * b;
}
} // namespace stat_
