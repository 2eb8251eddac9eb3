// C14: derivative_opt against exact derivatives (110-digit differences of the reference sum).
#include "fams.hpp"
using num::Big;
typedef num::Cx<Big> Z;
// the reference sum as a function of the external frequency, all in 110 digits
static Z sum_at(const In &x, bool degenerate, const Big &dx, int sign, bool &ok) {
  ref::Sum<Big> s;
  s.opt = ropt(x);
  s.order = iota(x.d.N);
  for (auto z : x.f) s.freq.push_back(Z(z));
  if (x.d.F() > x.d.N) s.freq.back().r += dx;
  auto a = rows(x.d);
  auto e = line_energies(x.d, x.E);
  std::vector<ref::Line<Big>> ls(a.size());
  Big del = pow(Big(10), -12) * Big(sign);
  for (size_t i = 0; i < a.size(); i++) {
    ls[i].a = a[i];
    ls[i].e = Z(e[i]);
    ls[i].e0 = e[i];
    if (degenerate) ls[i].e.r += del * sqrt(Big(2 + 3 * i + i * i)) * Big((i & 1) ? 1 : -1);
  }
  Z v = s(ls);
  if (s.singular) ok = false;
  return v;
}
static Z mean_at(const In &x, bool deg, const Big &dx, bool &ok) {
  if (!deg) return sum_at(x, false, dx, 0, ok);
  return (sum_at(x, true, dx, 1, ok) + sum_at(x, true, dx, -1, ok)) * (Big(1) / Big(2));
}
static C derivative(const In &x, int k, bool deg, bool &ok) {
  if (x.d.F() == x.d.N && k > 0) return 0;
  Big h = pow(Big(10), -(deg ? 8 : 14)); // error h^2, cancellation h^-k
  Z s;
  Big binom = 1;
  for (int j = 0; j <= k; j++) {
    Z v = mean_at(x, deg, h * (Big(k) / Big(2) - Big(j)), ok);
    s += v * (j % 2 ? -binom : binom);
    binom = binom * Big(k - j) / Big(j + 1);
  }
  Big hk = 1;
  for (int j = 0; j < k; j++) hk *= h;
  return num::todbl(s * (Big(1) / hk)) * x.pf;
}
static double dscale(AmiBase &a, AmiBase::ami_parms &p, AmiBase::terms &t, AmiBase::ami_vars &v, int k) {
  // every derivative multiplies a term by at most (number of propagators + k) times the largest propagator
  double s = 0;
  for (auto &y : t) {
    double w = std::abs(a.evaluate_term(p, y, v)), g = 0;
    for (auto &q : y.g_list) {
      if (q.alpha_.back() == 0) continue;
      C d = 0;
      for (size_t i = 0; i < q.eps_.size(); i++) d += double(q.eps_[i]) * v.energy_[i];
      for (size_t i = 0; i < q.alpha_.size(); i++) d += double(q.alpha_[i]) * v.frequency_[i];
      g = std::max(g, 1 / std::abs(d));
    }
    for (int j = 0; j < k; j++) w *= g * (y.g_list.size() + j);
    if (std::isfinite(w)) s += w;
  }
  return s;
}
static void one(Ctx &cx, const Diagram &d, int kmax, AmiBase::graph_type type = AmiBase::Sigma) {
  cx.visit([&] { return show(d) + " type=" + std::to_string((int)type); }, [&] {
    Domain D = domain(d);
    if (!D.valid) { cx.cnt["outside_domain"]++; return; }
    AmiBase a;
    AmiBase::ami_parms p(d.N, 0, type);
    Spr s;
    AmiBase::terms t;
    Fac fs, ft;
    a.construct(p, gprod(d), s.R, s.P, s.S);
    a.construct(p, gprod(d), t);
    a.factorize_Rn(s.R.back(), fs.u, fs.rr, fs.el);
    a.factorize_terms(t, ft.u, ft.rr, ft.el);
    cx.cnt["states"] += count_states(s);
    if (d.ls.size() > 5 || d.N > 3) kmax = std::min(kmax, 2);
    for (int k = 0; k <= kmax; k++) {
      if (k) {
        a.derivative_opt(fs.u, fs.rr, fs.el);
        a.derivative_opt(ft.u, ft.rr, ft.el);
        cx.cnt["transitions"] += fs.rr.size();
      }
      for (int q : {0, 3, 4}) {
        if (q != 0 && (D.multipole || d.N > 2) && q != 4) continue;
        In x = at(d, points()[q]);
        x.type = type;
        x.pf = q == 3 ? -1.5 : 1;
        auto v = x.vars();
        bool ok = true;
        C want = derivative(x, k, D.multipole, ok);
        if (!ok) continue;
        double sc = std::max(1e-13, std::max(std::abs(want), std::min(dscale(a, p, t, v, k), 1e10 * (1 + std::abs(want)))));
        std::string n = "derivative_" + std::to_string(k);
        agree(cx, ("spr_" + n).c_str(), a.evaluate(p, s.R, s.P, s.S, v, fs.u, fs.rr, fs.el), want, sc, 1e-8);
        agree(cx, ("terms_" + n).c_str(), a.evaluate(p, t, v, ft.u, ft.rr, ft.el), want, sc, 1e-8);
        if (k && want == C(0)) cx.cnt["independent_of_external"]++;
      }
    }
    cx.outcomes.insert(std::to_string(fs.rr.size()));
  });
}
void explore(Ctx &cx) {
  bool T = cx.thorough;
  for (int F = 1; F <= 2; F++) // nothing depends on an external frequency; empty products
    for (auto &b : alphas(F))
      for (auto &c : alphas(F)) { one(cx, mk(F, {unit(F, 0), unit(F, F - 1), b, c}, {0, 1, 2, 3}), 2); one(cx, mk(1, {b}, {0}), 3); one(cx, mk(1, {b, c}, {0, 1}), 3); }
  for (auto &b : alphas(2)) for (auto &c : alphas(2)) { one(cx, mk(0, {b, c}, {0, 1}), 4); one(cx, mk(0, {b, c, b}, {0, 1, 0}), 4); }
  // the external frequency more than once in a propagator
  for (int x = -3; x <= 3; x++)
    for (int y = -3; y <= 3; y++) {
      one(cx, mk(0, {{x}, {y}}, {0, 1}), 4);
      one(cx, mk(0, {{x}, {y}, {x}}, {0, 1, 0}), 3);
      for (int sg : {1, -1}) {
        one(cx, mk(1, {{1, x}, {sg, y}}, {0, 1}), 3);
        one(cx, mk(1, {{1, x}, {0, y}, {sg, 1}}, {0, 1, 2}), 2);
        one(cx, mk(1, {{1, x}, {1, x}, {sg, y}}, {0, 0, 1}), 2);
        one(cx, mk(2, {{1, 0, x}, {0, 1, y}, {1, sg, 1}}, {0, 1, 2}), 2);
      }
    }
  long n = 0;
  fam_mixed(T, [&](const Diagram &d) { if (T || d.N != 1 || n++ % 2 == 0) one(cx, d, T ? 4 : 3); });
  for (auto &b : alphas(3)) one(cx, mk(2, {{1, 0, 0}, {0, 1, 0}, b}, {0, 1, 2}), 4, AmiBase::Pi_phuu);
}
