// The five forms of evaluation of one integrand, and the specification of the overflow indicator.
#pragma once
#include "fams.hpp"
#include "stat.hpp"
static const int NF = 5;
static const char *NAME[NF] = {"spr", "spr_factorized", "terms", "terms_factorized", "otf"};
struct All { Diagram d; Spr s; AmiBase::terms t; Fac fs, ft; };
static void build(AmiBase &a, const Diagram &d, All &o) {
  AmiBase::ami_parms p(d.N, 0);
  o.d = d;
  a.construct(p, gprod(d), o.s.R, o.s.P, o.s.S);
  a.construct(p, gprod(d), o.t);
  a.factorize_Rn(o.s.R.back(), o.fs.u, o.fs.rr, o.fs.el);
  a.factorize_terms(o.t, o.ft.u, o.ft.rr, o.ft.el);
}
static C ev(AmiBase &a, All &o, AmiBase::ami_vars v, int f) {
  AmiBase::ami_parms p(o.d.N, 0);
  switch (f) {
  case 0: return a.evaluate(p, o.s.R, o.s.P, o.s.S, v);
  case 1: return a.evaluate(p, o.s.R, o.s.P, o.s.S, v, o.fs.u, o.fs.rr, o.fs.el);
  case 2: return a.evaluate(p, o.t, v);
  case 3: return a.evaluate(p, o.t, v, o.ft.u, o.ft.rr, o.ft.el);
  default: return a.evaluate_otf(p, o.s.R, o.s.P, o.s.S, v);
  }
}
// own evaluation of the pieces, in double precision (only sizes matter)
static C statf(const AmiBase::pole_struct &q, const AmiBase::ami_vars &v) {
  C e = 0;
  for (size_t i = 0; i < q.eps_.size(); i++) e += double(q.eps_[i]) * v.energy_[i];
  int n = 0;
  for (int c : q.alpha_) n += c != 0;
  C x = e * v.BETA_;
  bool neg = x.real() < 0;
  if (neg) x = -x;
  C f = x.real() > 700 ? C(0) : 1.0 / ((n % 2 ? -1.0 : 1.0) * std::exp(x) + 1.0);
  static std::vector<std::vector<double>> P;
  if (P.empty()) for (auto &r : stat_::polys()) { P.emplace_back(); for (auto &c : r) P.back().push_back(static_cast<double>(c)); }
  C s = 0, y = 1;
  for (size_t k = 1; k < P[q.der_].size(); k++) { y *= f; s += P[q.der_][k] * y; }
  if (neg) s = q.der_ == 0 ? 1.0 - s : q.der_ % 2 ? s : -s;
  return s * std::pow(v.BETA_, q.der_);
}
static C gval(const AmiBase::g_struct &g, const AmiBase::ami_vars &v) {
  C d = 0;
  for (size_t i = 0; i < g.eps_.size(); i++) d += double(g.eps_[i]) * v.energy_[i];
  for (size_t i = 0; i < g.alpha_.size(); i++) d += double(g.alpha_[i]) * v.frequency_[i];
  return 1.0 / d;
}
static C gp(const AmiBase::g_prod_t &g, const AmiBase::ami_vars &v) { C r = 1; for (auto &x : g) r *= gval(x, v); return r; }
static double big(C z) { return finite(z) ? std::max(std::abs(z.real()), std::abs(z.imag())) : INFINITY; }
struct Size {
  double must = 0;  // largest single contribution: a term, or a derivative of a statistical function
  double any = 0;   // largest number that occurs anywhere
  bool integer = false;
};
static void seeg(Size &z, C g) {
  z.any = std::max(z.any, big(g));
  double r = std::abs(g.real());
  if (std::abs(r - std::round(r)) <= 1e-9 * (1 + r) || r > 1e6) z.integer = true;
}
static Size sizes(const All &o, const AmiBase::ami_vars &v, int f) {
  Size z;
  std::vector<C> K; // statistical factor of each final product
  std::vector<const AmiBase::g_prod_t *> G;
  bool spr = f != 2 && f != 3;
  if (spr) {
    std::vector<C> cur{C(1)};
    for (int st = 0; st < o.d.N; st++) {
      std::vector<C> nx;
      for (size_t j = 0; j < cur.size(); j++)
        for (size_t m = 0; m < o.s.P[st][j].size(); m++) {
          C w = statf(o.s.P[st][j][m], v);
          z.any = std::max(z.any, big(w));
          if (o.s.P[st][j][m].der_ > 0 && finite(w)) z.must = std::max(z.must, big(w));
          nx.push_back(cur[j] * o.s.S[st][j][m] * w);
        }
      cur = nx;
    }
    K = cur;
    for (auto &g : o.s.R.back()) G.push_back(&g);
  } else
    for (auto &t : o.t) {
      C w = t.sign;
      for (auto &q : t.p_list) { C y = statf(q, v); z.any = std::max(z.any, big(y)); if (q.der_ > 0 && finite(y)) z.must = std::max(z.must, big(y)); w *= y; }
      K.push_back(w);
      G.push_back(&t.g_list);
    }
  std::vector<C> term;
  for (size_t i = 0; i < K.size(); i++) {
    for (auto &g : *G[i]) seeg(z, gval(g, v));
    C g = gp(*G[i], v);
    seeg(z, g);
    seeg(z, g * v.prefactor);
    z.any = std::max(z.any, big(K[i]));
    term.push_back(K[i] * g * v.prefactor);
    z.any = std::max(z.any, big(term.back()));
  }
  if (f == 1 || f == 3) { // contributions are the groups
    const Fac &F = f == 1 ? o.fs : o.ft;
    for (auto &e : F.el) {
      C s = 0;
      bool bad = false;
      for (auto &r : e) { s += term[r.first]; if (!finite(term[r.first])) bad = true; }
      z.must = std::max(z.must, bad ? 0.0 : big(s));
    }
  } else
    for (auto t : term) z.must = std::max(z.must, big(t));
  return z;
}
static bool judge(Ctx &cx, AmiBase &a, All &o, const AmiBase::ami_vars &v, int f, C r) {
  double cut = a.precision_cutoff;
  Size z = sizes(o, v, f);
  bool fl = a.overflow_detected;
  cx.cnt["comparisons"]++;
  if (!finite(r)) {
    REQUIRE_(fl, NAME[f] << ": the value " << r << " is not finite and the indicator is clear (cutoff " << cut << ")");
    cx.outcomes.insert(std::string(NAME[f]) + " set: not finite");
  } else if (f != 4 && std::isfinite(z.must) && z.must > 1.5 * cut) {
    REQUIRE_(fl, NAME[f] << ": a contribution of " << z.must << " exceeds the cutoff " << cut << " and the indicator is clear; value " << r);
    cx.outcomes.insert(std::string(NAME[f]) + " set: cutoff");
  } else if (z.any < 0.5 * cut && !z.integer) {
    REQUIRE_(!fl, NAME[f] << ": the indicator is set although nothing exceeds " << z.any << " (cutoff " << cut << "); value " << r);
    cx.outcomes.insert(std::string(NAME[f]) + " clear");
  } else cx.cnt["not_specified"]++;
  return fl;
}
