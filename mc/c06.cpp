// C06: kinds of external lines.
#include "fams.hpp"
static const AmiBase::graph_type TYPES[] = {AmiBase::Sigma, AmiBase::Pi_phuu, AmiBase::Pi_phud, AmiBase::Hartree, AmiBase::Bare, AmiBase::Greens, AmiBase::density,
                                            AmiBase::doubleocc, AmiBase::Pi_ppuu, AmiBase::Pi_ppud, AmiBase::DOS, AmiBase::ENERGY, AmiBase::FORCE};
static void forms(Ctx &cx, const In &x, C want, double scale, const char *tag) {
  AmiBase a;
  a.bosonic_external = x.bose_flag;
  auto p = x.parms();
  auto v = x.vars();
  Spr s;
  AmiBase::terms t;
  a.construct(p, gprod(x.d), s.R, s.P, s.S);
  a.construct(p, gprod(x.d), t);
  Fac f, g;
  a.factorize_Rn(s.R.back(), f.u, f.rr, f.el);
  a.factorize_terms(t, g.u, g.rr, g.el);
  cx.cnt["states"] += count_states(s);
  cx.cnt["transitions"] += count_trans(s);
  std::string b = tag;
  agree(cx, (b + "_spr").c_str(), a.evaluate(p, s.R, s.P, s.S, v), want, scale);
  agree(cx, (b + "_terms").c_str(), a.evaluate(p, t, v), want, scale);
  agree(cx, (b + "_spr_factorized").c_str(), a.evaluate(p, s.R, s.P, s.S, v, f.u, f.rr, f.el), want, scale);
  agree(cx, (b + "_terms_factorized").c_str(), a.evaluate(p, t, v, g.u, g.rr, g.el), want, scale);
  C o = a.evaluate_otf(p, s.R, s.P, s.S, v);
  agree(cx, (b + "_otf").c_str(), o, want, scale);
  REQUIRE_(a.bosonic_external == x.bose_flag && p.TYPE_ == x.type, "evaluation changed the declared kind");
}
// poles of zero symbolic energy sit on a Matsubara frequency according to the kind of the external line:
// the domain excludes all of them (any number of frequencies) except where noted
static bool zero_pole(const Diagram &d) {
  bool z = false;
  std::function<void(size_t, std::vector<LineS>)> rec = [&](size_t k, std::vector<LineS> ls) {
    if (z || k == (size_t)d.N) return;
    for (size_t p = 0; p < ls.size(); p++) {
      int c = ls[p].a[k];
      if (!c) continue;
      bool zero = true;
      for (int x : ls[p].e) if (x) zero = false;
      if (zero) { z = true; return; }
      std::vector<LineS> n;
      for (size_t q = 0; q < ls.size(); q++) {
        if (q == p) continue;
        LineS l = ls[q];
        int cc = l.a[k] * c;
        for (size_t j = 0; j < l.a.size(); j++) l.a[j] -= cc * ls[p].a[j];
        for (size_t j = 0; j < l.e.size(); j++) l.e[j] -= cc * ls[p].e[j];
        bool all0 = true;
        for (int y : l.a) if (y) all0 = false;
        for (int y : l.e) if (y) all0 = false;
        if (!all0) n.push_back(l);
      }
      rec(k + 1, n);
    }
  };
  rec(0, d.ls);
  return z;
}
static double scale_of(const In &x) {
  AmiBase a;
  a.bosonic_external = x.bose_flag;
  auto p = x.parms();
  auto v = x.vars();
  AmiBase::terms t;
  a.construct(p, gprod(x.d), t);
  return std::max(1e-22, std::min(1e10, term_scale(a, p, t, v)));
}
// on-the-fly evaluation with energies that coincide numerically (integers times a unit), every kind;
// `closed`: the last frequency is summed
static void otf_coincident(Ctx &cx, const Diagram &d, bool closed) {
  int E = d.E();
  if (E < 2 || d.ls.size() > 6) return;
  AmiBase a;
  Spr s;
  bool made = false;
  for (int how = 0; how < 3; how++) {
    VI k(E);
    for (int i = 0; i < E; i++) k[i] = how == 0 ? 2 : how == 1 ? (i % 2 ? -2 : 2) : (i % 3 == 2 ? 3 : 1);
    Diagram m = d;
    for (auto &l : m.ls) {
      int q = 0;
      for (int i = 0; i < E; i++) q += l.e[i] * k[i];
      l.e = VI{q};
    }
    Domain D = domain(m);
    if (!D.valid || zero_pole(m) || zero_pole(d)) { cx.cnt["coincidence_outside_domain"]++; continue; }
    for (int b = 0; b < 2; b++) {
      In x;
      x.d = d;
      x.beta = 1.3;
      x.pf = b ? -1.25 : 1;
      for (int v : k) x.E.push_back(0.375 * v);
      x.f = freqs(d.F(), d.N, C(0.3, 1.1));
      x.type = b ? (closed ? AmiBase::doubleocc : AmiBase::Pi_phuu) : AmiBase::Sigma;
      In y = x;
      y.d = m;
      y.E = {0.375};
      auto e = closed ? [&] { ref::Opt o = ropt(y); o.bosonic.assign(d.F(), 0); o.bosonic.back() = b; return exact(y, D.multipole, VI(), &o); }() : exact(y, D.multipole);
      if (!e.ok) { cx.cnt["reference_singular"]++; continue; }
      C want = closed && b ? -e.v : e.v; // the prefactor is part of the reference
      auto p0 = y.parms();
      auto vy = y.vars();
      AmiBase c;
      AmiBase::terms t;
      c.construct(p0, gprod(m), t);
      for (auto ty : TYPES)
        if (bosonic_type(ty) == (b == 1) || (closed && b == 1 && ty == AmiBase::doubleocc)) {
          if (closed && ty != AmiBase::Sigma && ty != AmiBase::ENERGY && ty != AmiBase::doubleocc && ty != AmiBase::Pi_ppud) continue;
          x.type = y.type = ty;
          x.bose_flag = closed && b && ty != AmiBase::doubleocc;
          a.bosonic_external = x.bose_flag;
          auto p = x.parms();
          auto v = x.vars();
          if (!made) { a.construct(p, gprod(d), s.R, s.P, s.S); made = true; }
          double sc = D.multipole ? deg_scale(c, p0, t, vy, e) : std::max(e.scale, 1e-250);
          agree(cx, closed ? "closed_otf_coincident" : "open_otf_coincident", a.evaluate_otf(p, s.R, s.P, s.S, v), want, sc, 1e-9);
          cx.cnt["coincidences"]++;
        }
    }
  }
}
// external frequency present, not summed
static void open_line(Ctx &cx, const Diagram &d) {
  cx.visit([&] { return show(d); }, [&] {
    Domain D = domain(d);
    if (!D.valid) { cx.cnt["outside_domain"]++; return; }
    for (int k : {0, 4, 6}) {
      C val[2];
      for (int b = 0; b < 2; b++) {
        if (b && zero_pole(d)) { cx.cnt["outside_domain_bosonic"]++; continue; }
        In x = at(d, points()[k]);
        x.type = b ? AmiBase::Pi_phuu : AmiBase::Sigma;
        if (k == 6) for (int j = d.N; j < d.F(); j++) x.f[j] = C(0, 2 * M_PI / x.beta); // a bosonic Matsubara point
        auto r = exact(x, D.multipole);
        val[b] = r.v;
        if (!r.ok) { cx.cnt["reference_singular"]++; continue; }
        for (auto t : TYPES)
          if (bosonic_type(t) == (b == 1)) {
            x.type = t;
            double sc = D.multipole ? std::max(std::abs(r.v), scale_of(x)) : r.scale;
            for (bool flag : {false, true}) {
              if (flag && k && t != AmiBase::Pi_phuu && t != AmiBase::Sigma && t != AmiBase::doubleocc) continue;
              x.bose_flag = flag;
              x.pf = flag ? 1 : -2;
              forms(cx, x, r.v * x.pf, sc * std::abs(x.pf), b ? "bosonic" : "fermionic");
            }
          }
      }
      cx.outcomes.insert(std::abs(val[0] - val[1]) < 1e-12 ? "kinds agree" : "kinds differ");
    }
    otf_coincident(cx, d, false);
  });
}
// the last frequency is summed as well, as a bosonic one
static void closed_line(Ctx &cx, const Diagram &d) {
  cx.visit([&] { return "closed " + show(d); }, [&] {
    Domain D = domain(d);
    bool ok = true;
    if (!D.valid || zero_pole(d)) ok = false;
    if (!ok) { cx.cnt["outside_domain"]++; return; }
    for (int k : {0, 1, 4}) {
      In x = at(d, points()[k]);
      ref::Opt o = ropt(x);
      o.bosonic.assign(d.F(), 0);
      o.bosonic.back() = 1;
      auto r = exact(x, D.multipole, VI(), &o);
      if (!r.ok) { cx.cnt["reference_singular"]++; continue; }
      struct { AmiBase::graph_type t; bool flag; } cfg[] = {{AmiBase::doubleocc, false}, {AmiBase::doubleocc, true}, {AmiBase::Pi_phuu, true}, {AmiBase::Pi_phud, true}, {AmiBase::Pi_ppuu, true}, {AmiBase::Pi_ppud, true}, {AmiBase::FORCE, true}};
      for (auto &c : cfg) {
        x.type = c.t;
        x.bose_flag = c.flag;
        x.pf = c.flag ? 1 : 1.5;
        double sc = D.multipole ? std::max(std::abs(r.v), scale_of(x)) : r.scale;
        forms(cx, x, -r.v * x.pf, sc * std::abs(x.pf), "closed");
      }
      x.bose_flag = false; // fermionic kinds: the last sum is an ordinary one
      o.bosonic.back() = 0;
      auto rf = exact(x, D.multipole, VI(), &o);
      if (!rf.ok) continue;
      for (auto t : {AmiBase::Sigma, AmiBase::ENERGY, AmiBase::density}) {
        x.type = t;
        x.pf = 1;
        double sc = D.multipole ? std::max(std::abs(rf.v), scale_of(x)) : rf.scale;
        forms(cx, x, rf.v, sc, "closed_fermionic");
      }
    }
    otf_coincident(cx, d, true);
  });
}
void explore(Ctx &cx) {
  fam_mixed(cx.thorough, [&](const Diagram &d) { open_line(cx, d); });
  auto closed = [&](const Diagram &d) { closed_line(cx, d); };
  for (auto &b : alphas(1)) for (auto &c : alphas(1)) for (auto &e : alphas(1)) partitions(3, [&](const VI &q) { closed(mk(1, {b, c, e}, q)); });
  for (auto &b : alphas(2))
    for (auto &c : alphas(2))
      for (auto &e : alphas(2)) {
        closed(mk(2, {b, c, e}, {0, 1, 2}));
        for (auto &q : std::vector<VI>{{0, 1, 2, 3}, {0, 1, 2, 0}, {0, 0, 1, 2}}) if (cx.thorough || q[3] == 3 || (b == VI{1, 0})) closed(mk(2, {{1, 1}, b, c, e}, q));
      }
  for (auto &b : alphas(3))
    for (auto &c : alphas(3)) {
      closed(mk(3, {{1, 0, 0}, {0, 1, 0}, b, c}, {0, 1, 2, 3}));
      closed(mk(3, {{1, 0, 0}, {1, 0, 1}, {0, 1, 0}, b, c}, {0, 1, 2, 3, 4}));
    }
  // the same energies again in the last sum
  for (auto &b : alphas(2))
    for (auto &c : alphas(2))
      for (auto &q : std::vector<VI>{{0, 1, 0}, {0, 1, 1}, {0, 0, 1}, {0, 0, 0}}) { closed(mk(2, {{1, 0}, b, c}, q)); closed(mk(2, {{1, 0}, {0, 1}, b, c}, {0, 0, q[1], 1 + q[2]})); }
  for (auto &b : alphas(3))
    for (auto &q : std::vector<VI>{{0, 0, 0}, {0, 1, 0}, {0, 0, 1}, {0, 1, 1}}) { VI r = q; r.push_back(2); closed(mk(3, {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, b}, r)); closed(mk(3, {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, b}, VI{q[0], q[1], q[2], q[1]})); }
  // ring diagrams: particle-hole bubbles coupled by the bosonic line
  closed(mk(3, {{1, 0, 0}, {1, 0, 1}, {0, 1, 0}, {0, 1, 1}}, {0, 1, 2, 3}));
  closed(mk(3, {{1, 0, 0}, {1, 0, 1}, {0, 1, 0}, {0, 1, -1}}, {0, 1, 0, 1}));
  closed(mk(4, {{1, 0, 0, 0}, {1, 0, 0, 1}, {0, 1, 0, 0}, {0, 1, 0, 1}, {0, 0, 1, 0}, {0, 0, 1, 1}}, {0, 1, 2, 3, 4, 5}));
}
