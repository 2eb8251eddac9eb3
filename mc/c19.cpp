// C19: prefactor, conjugation, scaling, spectator propagators -- in every evaluation form.
#include "fams.hpp"
struct All { Spr s; AmiBase::terms t; Fac fs, ft; };
static const int NF = 5;
static const char *NAME[NF] = {"spr", "spr_factorized", "terms", "terms_factorized", "otf"};
static void build(AmiBase &a, const Diagram &d, All &o) {
  AmiBase::ami_parms p(d.N, 0);
  a.construct(p, gprod(d), o.s.R, o.s.P, o.s.S);
  a.construct(p, gprod(d), o.t);
  a.factorize_Rn(o.s.R.back(), o.fs.u, o.fs.rr, o.fs.el);
  a.factorize_terms(o.t, o.ft.u, o.ft.rr, o.ft.el);
}
static C ev(AmiBase &a, All &o, AmiBase::ami_parms &p, AmiBase::ami_vars v, int f) {
  switch (f) {
  case 0: return a.evaluate(p, o.s.R, o.s.P, o.s.S, v);
  case 1: return a.evaluate(p, o.s.R, o.s.P, o.s.S, v, o.fs.u, o.fs.rr, o.fs.el);
  case 2: return a.evaluate(p, o.t, v);
  case 3: return a.evaluate(p, o.t, v, o.ft.u, o.ft.rr, o.ft.el);
  default: return a.evaluate_otf(p, o.s.R, o.s.P, o.s.S, v);
  }
}
// beta**(multiplicity of the poles) and the products of propagators stay far from the ends of the double range
static bool far_ok(const Diagram &d, int e2) { return std::abs(e2) * (double)d.ls.size() < 700; }
// on-the-fly evaluation with coinciding energies obeys the same laws
static void coincide(Ctx &cx, const Diagram &d, AmiBase &a, All &o) {
  int E = d.E();
  if (E < 2 || d.ls.size() > 6) return;
  for (int how = 0; how < 3; how++) {
    VI k(E);
    for (int i = 0; i < E; i++) k[i] = how == 0 ? 2 : how == 1 ? (i % 2 ? -2 : 2) : (i % 3 == 2 ? 3 : 1);
    Diagram m = d; // the integrand with its numerical energies
    for (auto &l : m.ls) {
      int s = 0;
      for (int i = 0; i < E; i++) s += l.e[i] * k[i];
      l.e = VI{s};
    }
    if (!domain(m).valid) { cx.cnt["coincidence_outside_domain"]++; continue; }
    In x;
    x.d = d;
    x.beta = 1.3;
    for (int v : k) x.E.push_back(0.375 * v);
    x.f = freqs(d.F(), d.N, C(0.3, 1.1));
    In y = x;
    y.d = m;
    y.E = {0.375};
    AmiBase::terms t;
    AmiBase b;
    auto py = y.parms();
    b.construct(py, gprod(m), t);
    auto vy = y.vars();
    double sc = std::max(1e-250, term_scale(b, py, t, vy));
    AmiBase::ami_parms p = x.parms();
    auto v1 = x.vars();
    C r = ev(a, o, p, v1, 4);
    REQUIRE_(finite(r), "otf: not finite at energies " << vs(k));
    for (double pf : {2.0, -0.375, 1e6, 0.0, -1e-20, 1e40}) {
      auto v = v1;
      v.prefactor = pf;
      agree(cx, "otf coincident prefactor", ev(a, o, p, v, 4), pf * r, std::max(sc * std::abs(pf), 1e-250), 1e-11);
    }
    auto vc = v1;
    for (auto &e : vc.energy_) e = std::conj(e);
    for (auto &e : vc.frequency_) e = std::conj(e);
    agree(cx, "otf coincident conjugate", ev(a, o, p, vc, 4), std::conj(r), sc, 1e-9);
    for (double s : {2.0, 0.25, std::ldexp(1.0, -56)}) {
      if (s < 1e-9 && (!far_ok(d, -56) || sc <= 1e-200)) continue;
      auto vs_ = v1;
      for (auto &e : vs_.energy_) e *= s;
      for (auto &e : vs_.frequency_) e *= s;
      vs_.BETA_ /= s;
      double q = std::pow(s, d.N - (int)d.ls.size());
      agree(cx, "otf coincident scaling", ev(a, o, p, vs_, 4), q * r, q * sc, 1e-9);
    }
    cx.cnt["coincidences"]++;
  }
}
// far from the Fermi energy: small statistical factors, compared at their own size
static void tails(Ctx &cx, const Diagram &d, AmiBase &a, All &o) {
  int E = d.E();
  if (d.ls.size() > 4 || E > 3) return;
  for (double beta : {0.7, 25.0})
    for (double t : {9.0, 17.5, 18.5, 25.0, 36.5, 60.0})
      for (int sg = 0; sg < (1 << E); sg++)
        for (double y : {0.0, -1.1, 0.4}) {
          In x = at(d, points()[4]);
          x.beta = beta;
          x.ereg = 0;
          for (int i = 0; i < E; i++) x.E[i] = C((sg >> i & 1 ? -1 : 1) * (t + 1.3 * i * i), y * (1 + 0.3 * i)) / beta;
          if (d.F() > d.N) x.f.back() = C(0.31, y == 0 ? 1.7 : y) / beta;
          AmiBase::ami_parms p = x.parms();
          auto v = x.vars();
          double sc = term_scale(a, p, o.t, v);
          if (!(sc > 1e-250) || !std::isfinite(sc)) continue;
          auto vc = v, v2 = v;
          for (auto &e : vc.energy_) e = std::conj(e);
          for (auto &e : vc.frequency_) e = std::conj(e);
          for (auto &e : v2.energy_) e *= 1.7;
          for (auto &e : v2.frequency_) e *= 1.7;
          v2.BETA_ /= 1.7;
          double q = std::pow(1.7, d.N - (int)d.ls.size());
          for (int f = 0; f < NF; f++) {
            C r = ev(a, o, p, v, f);
            agree(cx, "tail conjugate", ev(a, o, p, vc, f), std::conj(r), sc, 1e-9);
            agree(cx, "tail scaling", ev(a, o, p, v2, f), q * r, q * sc, 1e-9);
          }
          cx.cnt["tails"]++;
        }
}
static void one(Ctx &cx, const Diagram &d) {
  cx.visit([&] { return show(d); }, [&] {
    if (!domain(d).valid) { cx.cnt["outside_domain"]++; return; }
    AmiBase a;
    All o;
    build(a, d, o);
    cx.cnt["states"] += count_states(o.s);
    // the same with a propagator that contains no summed frequency, in front, inside and at the end
    struct Spect { Diagram d; All o; int nu; };
    std::vector<Spect> sp;
    if (d.ls.size() <= 5)
      for (int w = 0; w < 3; w++) {
        Spect s;
        s.d = d;
        for (auto &l : s.d.ls) l.e.push_back(0);
        VI al(d.F(), 0);
        if (d.F() > d.N) al.back() = w == 0 ? 1 : w == 1 ? -1 : 0;
        s.nu = d.F() > d.N ? al.back() : 0;
        size_t at = w == 0 ? 0 : w == 1 ? d.ls.size() : d.ls.size() / 2;
        s.d.ls.insert(s.d.ls.begin() + at, {al, unit(d.E() + 1, d.E())});
        if (!domain(s.d).valid) continue;
        build(a, s.d, s.o);
        sp.push_back(s);
      }
    for (int k : {0, 3, 4, 8}) {
      In x = at(d, points()[k]);
      AmiBase::ami_parms p = x.parms();
      auto v1 = x.vars();
      double sc = std::max(1e-250, term_scale(a, p, o.t, v1));
      for (int f = 0; f < NF; f++) {
        C r = ev(a, o, p, v1, f);
        REQUIRE_(finite(r), NAME[f] << ": not finite");
        for (double pf : {2.0, -1.0, 0.375, -1e-3, 1e6, 0.0, 1e-20, -1e-150, 3e40}) {
          auto v = v1;
          v.prefactor = pf;
          agree(cx, "prefactor", ev(a, o, p, v, f), pf * r, std::max(sc * std::abs(pf), 1e-250), 1e-11);
        }
        // conjugation
        auto vc = v1;
        for (auto &e : vc.energy_) e = std::conj(e);
        for (auto &e : vc.frequency_) e = std::conj(e);
        agree(cx, "conjugate", ev(a, o, p, vc, f), std::conj(r), sc, 1e-9);
        // scaling
        for (double s : {2.0, 0.25, 3.7, 41.0}) {
          auto vs_ = v1;
          for (auto &e : vs_.energy_) e *= s;
          for (auto &e : vs_.frequency_) e *= s;
          vs_.BETA_ /= s;
          double q = std::pow(s, d.N - (int)d.ls.size());
          agree(cx, "scaling", ev(a, o, p, vs_, f), q * r, q * sc, 1e-9);
        }
        // powers of two scale exactly, however far: there is no absolute scale
        if (k == 0 || k == 4)
          for (int e2 : {-56, 40}) {
            double s = std::ldexp(1.0, e2);
            double q = std::pow(s, d.N - (int)d.ls.size());
            if (std::abs(std::log2(sc) + e2 * (d.N - (double)d.ls.size())) > 900 || sc <= 1e-240) continue;
            if (far_ok(d, e2)) {
              auto vs_ = v1;
              for (auto &e : vs_.energy_) e *= s;
              for (auto &e : vs_.frequency_) e *= s;
              vs_.BETA_ /= s;
              agree(cx, "scaling far", ev(a, o, p, vs_, f), q * r, q * sc, 1e-9);
            }
          }
        // energies and frequencies that occur in no propagator are without effect, bit by bit
        for (auto &s : sp) {
          auto vx = v1;
          C e0(0.618 + 0.1 * k, k == 4 ? 0.2 : 0);
          vx.energy_.push_back(e0);
          C g = 1.0 / (double(s.nu) * (d.F() > d.N ? v1.frequency_.back() : C(0)) + e0);
          agree(cx, "spectator", ev(a, s.o, p, vx, f), g * r, std::abs(g) * sc, 1e-9);
          cx.cnt["transitions"]++;
        }
        auto vu = v1;
        vu.energy_.push_back(C(1e300, -1e300));
        REQUIRE_(ev(a, o, p, vu, f) == r, NAME[f] << ": an energy that no propagator uses changes the value");
      }
      cx.outcomes.insert(std::to_string(o.t.size()));
    }
    coincide(cx, d, a, o);
    tails(cx, d, a, o);
  });
}
void explore(Ctx &cx) {
  fam_mixed(cx.thorough, [&](const Diagram &d) { one(cx, d); });
}
