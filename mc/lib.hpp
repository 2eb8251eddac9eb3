// Instances (diagram + parameters + numbers), drivers for the public API, and comparison with the reference.
#pragma once
#include <cmath>
#include "diag.hpp"
#include "harness.hpp"

struct In {
  Diagram d;
  AmiBase::graph_type type = AmiBase::Sigma;
  double ereg = 0, beta = 1.7, pf = 1;
  AmiBase::energy_t E;
  AmiBase::frequency_t f;
  bool bose_flag = false; // the bosonic_external switch of the evaluating object
  AmiBase::ami_parms parms() const { return AmiBase::ami_parms(d.N, ereg, type); }
  AmiBase::ami_vars vars() const { return AmiBase::ami_vars(E, f, beta, pf); }
};
inline std::string show(const In &x) {
  std::ostringstream o;
  o.precision(17);
  o << show(x.d) << " type=" << (int)x.type << " beta=" << x.beta << " prefactor=" << x.pf << " E_REG=" << x.ereg
    << " bosonic_external=" << x.bose_flag << " E=[";
  for (auto e : x.E) o << " " << e;
  o << " ] freq=[";
  for (auto e : x.f) o << " " << e;
  o << " ]";
  return o.str();
}
// numerical points: energies, temperature, external frequency
struct Pt { int pat; double beta; C ext; double im; };
inline const std::vector<Pt> &points() {
  static const std::vector<Pt> p = {
      {0, 1.7, C(0.3, 1.1), 0},          {1, 0.6, C(0, M_PI / 0.6), 0},     {2, 5.0, C(-0.4, 0.01), 0},
      {3, 25.0, C(0, 3 * M_PI / 25), 0}, {0, 2.0, C(0.7, 0), 0.11},         {1, 300.0, C(0.2, -0.6), 0},
      {2, 0.05, C(0, -M_PI / 0.05), 0},  {3, 1000.0, C(0, 5.25 * M_PI), 0}, {3, 3.0, C(1.9, 2.3), 0.07}};
  return p;
}
inline In at(const Diagram &d, const Pt &p) {
  In x;
  x.d = d;
  x.beta = p.beta;
  x.E = energies(d.E(), p.pat);
  if (p.im != 0) for (size_t i = 0; i < x.E.size(); i++) x.E[i] += C(0, p.im * (1 + 0.37 * (double)i) * ((i & 1) ? -1 : 1));
  x.f = freqs(d.F(), d.N, p.ext);
  return x;
}
inline ref::Opt ropt(const In &x) {
  ref::Opt o;
  o.beta = x.beta;
  o.ereg = x.ereg;
  o.bosonic.assign(x.d.F(), 0);
  if (bosonic_type(x.type)) o.bosonic.back() = 1;
  return o;
}
inline std::vector<VI> syms(const Diagram &d) {
  std::vector<VI> s;
  for (auto &l : d.ls) s.push_back(l.e);
  return s;
}
// number of repeated lines (up to overall sign)
inline int repeats(const Diagram &d) {
  std::set<std::pair<VI, VI>> s;
  for (auto l : d.ls) {
    VI n = l.a, m = l.e;
    for (auto &x : n) x = -x;
    for (auto &x : m) x = -x;
    s.insert(std::min(std::make_pair(l.a, l.e), std::make_pair(n, m)));
  }
  return (int)d.ls.size() - (int)s.size();
}
inline ref::Result exact(const In &x, bool degenerate, VI order = VI(), const ref::Opt *o = nullptr) {
  if (order.empty()) order = iota(x.d.N);
  ref::Opt op = o ? *o : ropt(x);
  auto sy = syms(x.d);
  auto r = ref::matsubara(rows(x.d), line_energies(x.d, x.E), x.f, order, op, degenerate, (int)x.d.ls.size(), &sy);
  r.v *= x.pf;
  r.scale *= std::abs(x.pf);
  r.err *= std::abs(x.pf);
  return r;
}
struct Spr { AmiBase::R_t R; AmiBase::P_t P; AmiBase::S_t S; };
struct Fac { AmiBase::g_prod_t u; AmiBase::R_ref_t rr; AmiBase::ref_eval_t el; };
inline bool finite(C z) { return std::isfinite(z.real()) && std::isfinite(z.imag()); }
inline long count_states(const Spr &s) { long n = 0; for (auto &r : s.R) n += (long)r.size(); return n; }
inline long count_trans(const Spr &s) { long n = 0; for (auto &p : s.P) for (auto &q : p) n += (long)q.size(); return n; }
// sum of the absolute values of the terms: the natural scale of rounding errors of the value
inline double term_scale(AmiBase &a, AmiBase::ami_parms &p, AmiBase::terms &t, AmiBase::ami_vars &v) {
  double s = 0;
  for (auto &x : t) { double y = std::abs(a.evaluate_term(p, x, v)); if (std::isfinite(y)) s += y; }
  return s;
}
// scale for integrands with multiple poles, where the reference has no scale of its own: the size of the
// terms, capped relative to the exact value so that a solution with absurd terms cannot widen it.  The floor
// covers values far below the resolution of the 110-digit reference (exp(-beta E) of cold points).
inline double deg_scale(AmiBase &a, AmiBase::ami_parms &p, AmiBase::terms &t, AmiBase::ami_vars &v, const ref::Result &r) {
  double m = std::abs(r.v);
  return std::max(1e-22, std::max(m, std::min(term_scale(a, p, t, v), 1e10 * (1 + m))));
}
// compare an implementation value with the model
inline void agree(Ctx &cx, const char *what, C v, C want, double scale, double rel = 1e-9) {
  cx.cnt["comparisons"]++;
  double s = std::max(scale, 1e-290);
  double e = std::abs(v - want) / s;
  REQUIRE_(finite(v), what << ": value is not finite: " << v << ", expected " << want);
  cx.mx[std::string("max_rel_error_") + what] = std::max(cx.mx[std::string("max_rel_error_") + what], e);
  REQUIRE_(e <= rel, what << ": got " << v << ", expected " << want << " (relative deviation " << e << " of scale " << scale << ")");
}
