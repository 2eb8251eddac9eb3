// Validation of the reference model against the definition of the Matsubara sum (no libami evaluation here):
// the outermost sum is carried out by brute force over the frequencies (tail by Richardson extrapolation in
// the number of frequencies: the terms sit at half-integers, so only odd powers of 1/M remain), the inner ones
// by the reference; by induction over the number of sums the reference is the nested sum.
#include "lib.hpp"
#include "stat.hpp"
static C brute(const Diagram &d, const In &x, bool deg) {
  // sums variable 0 of d last, the others by the reference
  VI rest;
  for (int i = 1; i < d.N; i++) rest.push_back(i);
  auto sum = [&](int M) {
    C s = 0;
    for (int n = -M; n < M; n++) {
      auto f = x.f;
      f[0] = C(0, (2 * n + 1) * M_PI / x.beta);
      if (rest.empty()) {
        C p = 1;
        auto le = line_energies(d, x.E);
        for (size_t l = 0; l < d.ls.size(); l++) { C q = le[l]; for (size_t j = 0; j < f.size(); j++) q += double(d.ls[l].a[j]) * f[j]; p /= q; }
        s += p;
      } else s += ref::matsubara(rows(d), line_energies(d, x.E), f, rest, ropt(x), deg, (int)d.ls.size()).v;
    }
    return s / x.beta;
  };
  int M = rest.empty() ? 2048 : deg ? 128 : 512;
  C a = sum(M), b = sum(2 * M), c = sum(4 * M);
  C a1 = 2.0 * b - a, b1 = 2.0 * c - b; // removes 1/M
  return (8.0 * b1 - a1) / 7.0;         // removes 1/M^3
}
static void one(Ctx &cx, const Diagram &d, const Pt &pt, double half) {
  cx.visit([&] { return show(d); }, [&] {
    Domain D = domain(d);
    if (!D.valid || D.matsubara_pole) return;
    int n0 = 0;
    for (auto &l : d.ls) n0 += l.a[0] != 0;
    if (n0 < (half != 0 ? 1 : 2)) return;
    In x = at(d, pt);
    auto r = exact(x, D.multipole);
    if (!r.ok) return;
    C b = brute(d, x, D.multipole) + half;
    double tol = (d.N > 1 ? 2e-5 : 1e-7) * (std::abs(b) + 1e-2);
    cx.cnt["comparisons"]++;
    cx.mx["deviation"] = std::max(cx.mx["deviation"], std::abs(r.v - b) / (std::abs(b) + 1e-2));
    REQUIRE_(std::abs(r.v - b) <= tol, "reference " << r.v << " definition " << b);
  });
}
void explore(Ctx &cx) {
  cx.limit_s = 200;
  Pt p1{0, 1.7, C(0, M_PI / 1.7), 0}, p2{1, 2.3, C(0, -3 * M_PI / 2.3), 0.11}; // fermionic frequencies
  // one line: the symmetric sum differs from the contour convention by half the residue at infinity
  one(cx, mk(1, {{1, 0}}, {0}), p1, 0.5);
  one(cx, mk(1, {{1, 0}}, {0}), p2, 0.5);
  one(cx, mk(1, {{-1, 1}}, {0}), p1, -0.5);
  const auto &A = alphas(2);
  for (auto &b : A) for (auto &c : A) {
    for (auto &p : {p1, p2}) {
      one(cx, mk(1, {b, c}, {0, 1}), p, 0);
      one(cx, mk(1, {b, {1, 0}, c}, {0, 1, 2}), p, 0);
      one(cx, mk(1, {b, {1, 0}, c}, {0, 1, 0}), p, 0);
      one(cx, mk(1, {b, b, c, {1, 0}}, {0, 0, 1, 1}), p, 0);
    }
  }
  for (auto &b : alphas(3)) {
    one(cx, mk(2, {{1, 0, 0}, {0, 1, 0}, b}, {0, 1, 2}), p1, 0);
    one(cx, mk(2, {{1, 0, 0}, {0, 1, 0}, b, {1, 1, 0}}, {0, 1, 2, 3}), p2, 0);
    one(cx, mk(2, {{1, 0, 0}, {0, 1, 0}, b, {1, 0, 0}}, {0, 1, 2, 0}), p1, 0);
  }
  for (auto &b : alphas(4)) one(cx, mk(3, {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, b}, {0, 1, 2, 3}), p1, 0);
  // derivatives of the statistical functions, by Taylor-exact central differences in 110 digits
  for (int m = 0; m < 12; m++)
    for (int sg : {1, -1})
      for (double E : {-3.1, -0.2, 0.01, 0.7, 9.0})
        cx.visit([&] { return "derivative " + std::to_string(m); }, [&] {
          using num::Big;
          double h = 1e-30, beta = 1.9;
          stat_::Z a = stat_::deriv(m, sg, beta, C(E, 0.3), nullptr, h), b = stat_::deriv(m, sg, beta, C(E, 0.3), nullptr, -h);
          C dq = num::todbl((a - b) * (Big(1) / (Big(2) * Big(h)))), w = num::todbl(stat_::deriv(m + 1, sg, beta, C(E, 0.3)));
          cx.cnt["comparisons"]++;
          REQUIRE_(std::abs(dq - w) <= 1e-10 * std::abs(w), "derivative " << dq << " " << w);
        });
}
