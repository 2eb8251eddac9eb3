// C04: factorized evaluation == unfactorized evaluation (and the exact sum).
#include "fams.hpp"
typedef AmiBase::terms Terms;
static const double PFS[] = {1, 2, -1, 0.5, -3.7, 1e-3, 0, 1e4};
// outside the domain of the exact sum the forms still describe the same number, as long as that is finite
static void outside(Ctx &cx, const Diagram &d) {
  AmiBase a;
  AmiBase::ami_parms p(d.N, 0);
  Spr s;
  Terms t;
  a.construct(p, gprod(d), s.R, s.P, s.S);
  a.construct(p, gprod(d), t);
  Fac f, g;
  a.factorize_Rn(s.R.back(), f.u, f.rr, f.el);
  a.factorize_terms(t, g.u, g.rr, g.el);
  for (int k : {0, 3}) {
    In x = at(d, points()[k]);
    x.pf = k ? 1 : -2.5;
    auto v = x.vars();
    double scale = 0;
    for (auto &y : t) scale += std::abs(a.evaluate_term(p, y, v));
    if (!(scale < 1e12)) { cx.cnt["singular"]++; continue; }
    C want = a.evaluate(p, t, v);
    agree(cx, "outside_spr_factorized", a.evaluate(p, s.R, s.P, s.S, v, f.u, f.rr, f.el), want, std::max(scale, 1e-250));
    agree(cx, "outside_terms_factorized", a.evaluate(p, t, v, g.u, g.rr, g.el), want, std::max(scale, 1e-250));
  }
}
static void one(Ctx &cx, const Diagram &d) {
  cx.visit([&] { return show(d); }, [&] {
    Domain D = domain(d);
    if (!D.valid) { cx.cnt["outside_domain"]++; outside(cx, d); return; }
    AmiBase a;
    AmiBase::ami_parms p(d.N, 0);
    Spr s;
    Terms t;
    a.construct(p, gprod(d), s.R, s.P, s.S);
    a.construct(p, gprod(d), t);
    Fac f, g, empty;
    a.factorize_Rn(s.R.back(), f.u, f.rr, f.el);
    a.factorize_terms(t, g.u, g.rr, g.el);
    cx.cnt["states"] += (long)(f.u.size() + f.rr.size() + g.u.size() + g.rr.size());
    cx.cnt["transitions"] += (long)(s.R.back().size() + t.size());
    cx.outcomes.insert(std::to_string(f.u.size()) + "/" + std::to_string(f.rr.size()) + "/" + std::to_string(s.R.back().size()));
    for (int k : {0, 3, 4, 1}) {
      In x = at(d, points()[k]);
      auto v1 = x.vars();
      double scale = std::max(term_scale(a, p, t, v1), 1e-250);
      C base = a.evaluate(p, s.R, s.P, s.S, v1);
      if (k == 0) {
        auto r = exact(x, D.multipole);
        if (r.ok) agree(cx, "exact", base, r.v, D.multipole ? deg_scale(a, p, t, v1, r) : r.scale);
      }
      for (double pf : PFS) {
        if (k != 0 && pf == 1e4) continue;
        auto v = v1;
        v.prefactor = pf;
        double sc = std::max(scale * std::abs(pf), 1e-250);
        C want = base * pf;
        agree(cx, "spr", a.evaluate(p, s.R, s.P, s.S, v), want, sc);
        agree(cx, "terms", a.evaluate(p, t, v), want, sc);
        agree(cx, "spr_factorized", a.evaluate(p, s.R, s.P, s.S, v, f.u, f.rr, f.el), want, sc);
        agree(cx, "terms_factorized", a.evaluate(p, t, v, g.u, g.rr, g.el), want, sc);
        agree(cx, "spr_empty_factorization", a.evaluate(p, s.R, s.P, s.S, v, empty.u, empty.rr, empty.el), want, sc);
        agree(cx, "terms_empty_factorization", a.evaluate(p, t, v, empty.u, empty.rr, empty.el), want, sc);
        REQUIRE_(v.prefactor == pf && v.BETA_ == x.beta && v.energy_ == x.E && v.frequency_ == x.f, "evaluation changed the external variables");
      }
    }
  });
}
// lists of terms merged from several solutions (same sizes of the coefficient vectors), in any order
static Terms terms_of(AmiBase &a, const Diagram &d) { Terms t; a.construct(d.N, gprod(d), t); return t; }
static Diagram pad(Diagram d, int nE) { for (auto &l : d.ls) l.e.resize(nE, 0); return d; }
static void merged(Ctx &cx, const std::vector<Diagram> &ds, int perm) {
  cx.visit([&] { std::string s = "merged list, arrangement " + std::to_string(perm) + ":"; for (auto &d : ds) s += " + " + show(d); return s; }, [&] {
    AmiBase a;
    Terms all;
    In x = at(ds[0], points()[0]);
    C want = 0;
    double scale = 0;
    x.E = energies(6, 0);
    for (auto &d0 : ds) {
      Diagram d = pad(d0, 6);
      if (!domain(d).valid) { cx.cnt["outside_domain"]++; return; }
      Terms t = terms_of(a, d);
      AmiBase::ami_parms p(d.N, 0);
      auto v = x.vars();
      want += a.evaluate(p, t, v);
      scale += term_scale(a, p, t, v);
      all.insert(all.end(), t.begin(), t.end());
    }
    if (perm == 1) std::reverse(all.begin(), all.end());
    if (perm == 2) { Terms q; for (size_t i = 0; i < all.size(); i += 2) q.push_back(all[i]); for (size_t i = 1; i < all.size(); i += 2) q.push_back(all[i]); all = q; }
    Fac f;
    a.factorize_terms(all, f.u, f.rr, f.el);
    cx.cnt["states"] += (long)f.rr.size();
    cx.cnt["transitions"] += (long)all.size();
    AmiBase::ami_parms p(ds[0].N, 0);
    for (double pf : {1.0, -2.5}) {
      auto v = x.vars();
      v.prefactor = pf;
      agree(cx, "merged_terms", a.evaluate(p, all, v), want * pf, std::max(scale, 1e-250));
      agree(cx, "merged_terms_factorized", a.evaluate(p, all, v, f.u, f.rr, f.el), want * pf, std::max(scale, 1e-250));
    }
  });
}
// long lists with many different propagators: sizes around the limits of small integers
static void wide(Ctx &cx, int n, int groups) {
  cx.visit([&] { return std::to_string(n) + " products, " + std::to_string(groups) + " different propagators"; }, [&] {
    AmiBase a;
    Spr s;
    s.R.resize(2); s.P.resize(1); s.S.resize(1);
    s.R[0].push_back({});
    s.P[0].resize(1); s.S[0].resize(1);
    Terms t;
    AmiBase::ami_vars v({}, {C(0), C(0.3, 1)}, 1.7, -2);
    for (int i = 0; i < groups; i++) v.energy_.push_back(0.5 + 0.003 * i);
    C want = 0;
    double scale = 0;
    for (int i = 0; i < n; i++) {
      AmiBase::epsilon_t e(groups, 0);
      int j = i % groups, sg = i % 3 ? 1 : -1;
      e[j] = sg;
      bool none = i % 11 == 5; // a product without propagators among the others
      AmiBase::g_prod_t g{AmiBase::g_struct(e, {0, sg})};
      if (none) g.clear();
      else if (i % 2) { e[j] = 0; e[(j + 1) % groups] = 1; g.push_back(AmiBase::g_struct(e, {0, 1})); }
      AmiBase::epsilon_t pe(groups, 0);
      pe[(i * 7) % groups] = 1;
      double w = 1 + i % 5;
      AmiBase::pole_struct q(pe, {0, 0});
      s.R[1].push_back(g);
      s.P[0][0].push_back(q);
      s.S[0][0].push_back(w);
      t.push_back(AmiBase::term(w, {q}, g));
      C y = w / (std::exp(1.7 * v.energy_[(i * 7) % groups]) + 1.0) * v.prefactor;
      if (!none) y /= double(sg) * (v.energy_[j] + C(0.3, 1));
      if (!none && i % 2) y /= v.energy_[(j + 1) % groups] + C(0.3, 1);
      want += y;
      scale += std::abs(y);
    }
    AmiBase::ami_parms p(1, 0);
    Fac f, g;
    a.factorize_Rn(s.R.back(), f.u, f.rr, f.el);
    a.factorize_terms(t, g.u, g.rr, g.el);
    agree(cx, "wide_spr", a.evaluate(p, s.R, s.P, s.S, v), want, scale);
    agree(cx, "wide_terms", a.evaluate(p, t, v), want, scale);
    agree(cx, "wide_spr_factorized", a.evaluate(p, s.R, s.P, s.S, v, f.u, f.rr, f.el), want, scale);
    agree(cx, "wide_terms_factorized", a.evaluate(p, t, v, g.u, g.rr, g.el), want, scale);
    cx.cnt["states"] += (long)(f.u.size() + f.rr.size());
  });
}
void explore(Ctx &cx) {
  for (int g : {2, 15, 17, 31, 33, 63, 65, 127, 129, 255, 257, 300})
    for (int n : {1, 2, 3}) wide(cx, n * g, g);
  wide(cx, 1200, 2);
  if (cx.thorough) wide(cx, 70000, 5);
  fam_mixed(cx.thorough, [&](const Diagram &d) { one(cx, d); });
  std::vector<Diagram> pool;
  pool.push_back(mk(1, {{1, 0}}, {0}));                       // leaves an empty product
  pool.push_back(mk(1, {{-1, 1}}, {1}));                      // likewise
  pool.push_back(mk(1, {{1, 0}, {1, 1}}, {0, 1}));
  pool.push_back(mk(1, {{1, 1}, {1, 0}}, {1, 0}));
  pool.push_back(mk(1, {{-1, 0}, {1, -1}}, {2, 1}));
  pool.push_back(mk(1, {{1, 0}, {0, 1}}, {0, 3}));
  pool.push_back(mk(1, {{1, 0}, {1, 0}, {1, 1}}, {0, 0, 1}));
  pool.push_back(mk(1, {{1, 0}, {1, 0}}, {2, 2}));            // derivative times empty product
  pool.push_back(mk(1, {{0, 1}, {0, 1}, {1, 0}, {0, -1}}, {0, 0, 1, 0}));
  for (auto &b : pool)
    for (int perm = 0; perm < 3; perm++) {
      merged(cx, {b}, perm);
      for (auto &c : pool) {
        merged(cx, {b, c}, perm);
        for (auto &e : pool) merged(cx, {b, c, e}, perm);
      }
    }
  for (int e : {6}) one(cx, example(e));
}
