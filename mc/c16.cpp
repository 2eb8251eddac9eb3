// C16: the library compiled with BOOST_MP, in all evaluation forms, against the exact sum; accuracy of the
// products of propagators beyond double precision; overflow indicator.
#include "forms.hpp"
#ifndef BOOST_MP
#error "this check is compiled with -DBOOST_MP"
#endif
static void one(Ctx &cx, const Diagram &d, bool many) {
  cx.visit([&] { return show(d); }, [&] {
    Domain D = domain(d);
    if (!D.valid) { cx.cnt["outside_domain"]++; return; }
    AmiBase a;
    All o;
    build(a, d, o);
    cx.cnt["states"] += count_states(o.s);
    cx.cnt["transitions"] += count_trans(o.s);
    for (int k : many ? std::vector<int>{0, 3, 4, 5, 8} : std::vector<int>{0, 4}) {
      In x = at(d, points()[k]);
      x.pf = k == 0 ? -1.1 : k == 3 ? 0.1 : k == 4 ? 8.3e7 : 1 / 3.0;
      auto v = x.vars();
      AmiBase::ami_parms p = x.parms();
      auto r = exact(x, D.multipole);
      if (!r.ok) continue;
      double sc = std::max(1e-250, D.multipole ? deg_scale(a, p, o.t, v, r) : r.scale);
      for (int f = 0; f < NF; f++) {
        C got = ev(a, o, v, f);
        agree(cx, NAME[f], got, r.v, sc, 1e-9);
        judge(cx, a, o, v, f, got);
      }
      C each = 0;
      for (auto &t : o.t) each += a.evaluate_term(p, t, v);
      agree(cx, "sum of evaluate_term", each, r.v, sc, 1e-9);
      if (cx.outcomes.size() < 40) { std::ostringstream q; q.precision(3); q << r.v; cx.outcomes.insert(q.str()); }
      // options reach the statistical functions of this build too
      AmiBase b;
      In y = x;
      y.ereg = 0.125;
      y.type = AmiBase::Pi_phuu;
      auto op = ropt(y);
      auto r2 = exact(y, D.multipole, VI(), &op);
      if (!r2.ok || d.F() == d.N) continue;
      auto py = y.parms();
      auto vy = y.vars();
      double s2 = std::max(1e-250, D.multipole ? deg_scale(b, py, o.t, vy, r2) : r2.scale);
      agree(cx, "options spr", b.evaluate(py, o.s.R, o.s.P, o.s.S, vy), r2.v, s2, 1e-9);
      agree(cx, "options terms", b.evaluate(py, o.t, vy), r2.v, s2, 1e-9);
      agree(cx, "options spr_factorized", b.evaluate(py, o.s.R, o.s.P, o.s.S, vy, o.fs.u, o.fs.rr, o.fs.el), r2.v, s2, 1e-9);
      agree(cx, "options terms_factorized", b.evaluate(py, o.t, vy, o.ft.u, o.ft.rr, o.ft.el), r2.v, s2, 1e-9);
    }
  });
}
// numbers that a double cannot separate: only the statistical functions are limited to double precision, so the
// error stays at rounding of the terms although the denominators suffer cancellation
static void precise(Ctx &cx, const Diagram &d) {
  for (double del : {1e-2, 1e-4, 1e-6, 1e-8})
    cx.visit([&] { return show(d) + " energies closer than " + std::to_string(del); }, [&] {
      Domain D = domain(d);
      if (!D.valid || D.multipole || d.N > 1) { cx.cnt["outside_domain"]++; return; }
      AmiBase a;
      All o;
      build(a, d, o);
      for (int k : {0, 3, 8}) {
        In x = at(d, points()[k]);
        double e0 = k == 8 ? 0.123456789 : -0.7320508075688772;
        for (size_t i = 0; i < x.E.size(); i++) x.E[i] = C(e0, 0) + del * (0.37 + 0.61803398874989 * (double)(i * i));
        x.beta = 1.3;
        auto v = x.vars();
        auto r = exact(x, false);
        if (!r.ok) continue;
        // exp(beta E), the shift by beta E, and the final conversion, each of double precision
        double tol = d.N == 0 ? 4e-16 : 1.5e-14;
        double sc = d.N == 0 ? std::abs(r.v) : r.scale;
        for (int f = 0; f < 4; f++) {
          double lost = d.N == 0 || std::abs(r.v) > 1e-14 * r.scale ? 1 : 0;
          agree(cx, "precision", ev(a, o, v, f), r.v, sc, tol);
          cx.cnt["sharp_comparisons"] += (long)lost;
        }
      }
    });
}
// energies that are combinations with cancellation: exact in quadruple precision, lost in double (the plain SPR
// form uses double precision products in this build too: excluded here)
static void combined(Ctx &cx, const Diagram &d) {
  for (double del : {1e-3, 1e-6, 1e-9})
    cx.visit([&] { return show(d) + " combinations cancelling to " + std::to_string(del); }, [&] {
      Domain D = domain(d);
      if (!D.valid || D.multipole) { cx.cnt["outside_domain"]++; return; }
      for (auto &l : d.ls) if (d.N && l.a[0] && l.a[1]) return; // a Bose function next to its pole: limited by its argument
      using num::Quad;
      AmiBase a;
      All o;
      build(a, d, o);
      for (int k = 0; k < 3; k++) {
        In x;
        x.d = d;
        x.beta = 1.3;
        x.pf = k == 1 ? -3.3 : 1;
        double big = k == 0 ? 1.1 : k == 1 ? 13.7 : 0.3;
        x.E = {big / 3, big / 7 + 0.1, big / 3 + big / 7 + 0.1 - del, 0.77 + del};
        x.E.resize(std::max(4, d.E()));
        x.f = freqs(d.F(), d.N, k == 2 ? C(0.1, 1.1) : C(0, 0)); // no help from the frequency
        if (k != 2 && d.F() > d.N) x.f.back() = C(0.7, 0);
        ref::Sum<Quad> s;
        s.opt = ropt(x);
        s.order = iota(d.N);
        for (auto z : x.f) s.freq.push_back(num::Cx<Quad>(z));
        std::vector<ref::Line<Quad>> ls(d.ls.size());
        for (size_t i = 0; i < ls.size(); i++) {
          ls[i].a = d.ls[i].a;
          for (size_t j = 0; j < d.ls[i].e.size(); j++) ls[i].e += num::Cx<Quad>(x.E[j]) * Quad(d.ls[i].e[j]);
          ls[i].e0 = num::todbl(ls[i].e);
        }
        C want = num::todbl(s(ls)) * x.pf;
        if (s.singular || !finite(want)) continue;
        double sc = static_cast<double>(s.abs_sum) * std::abs(x.pf);
        auto v = x.vars();
        for (int f = 1; f < 4; f++) {
          agree(cx, (std::string("combinations ") + NAME[f]).c_str(), ev(a, o, v, f), want, sc, d.N == 0 ? 1e-15 : 5e-14);
          cx.cnt["sharp_comparisons"]++;
        }
      }
    });
}
// contributions that cancel in the total: big, small and minus big in every order and place, hand-written; all have the
// same statistical factor, so that only the propagators and their addition matter
static void cancelling(Ctx &cx) {
  for (int n = 0; n <= 2; n++)              // statistical factors per contribution
    for (int pos = 0; pos < 6; pos++)       // order
      for (int ex : {4, 12, 20, 27})        // size of the big ones: 2^(2 ex)
        for (int more = 0; more < 3; more++) // further small contributions in between
          cx.visit([&] { return "cancelling contributions " + std::to_string(n) + " " + std::to_string(pos) + " " + std::to_string(ex) + " " + std::to_string(more); }, [&] {
            using G = AmiBase::g_struct;
            AmiBase::ami_vars v({std::ldexp(1.0, -ex), 3.0, 0.7, -7.0}, {0, 0, 0}, 1.3, more == 1 ? -2.5 : 1.0);
            AmiBase::alpha_t z(3, 0);
            G big({1, 0, 0, 0}, z), sm({0, 1, 0, 0}, z), mo({0, 0, 0, 1}, z), gib({-1, 0, 0, 0}, z);
            AmiBase::pole_array_t po(n, AmiBase::pole_struct({0, 0, 1, 0}, z));
            for (int i = 0; i < n; i++) po[i].index_ = i;
            std::vector<AmiBase::term> c = {{1, po, {big, big}}, {1, po, {sm}}, {1, po, {big, gib}}};
            static const int ord[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
            AmiBase::terms t;
            for (int i : ord[pos]) { t.push_back(c[i]); for (int j = 0; j < more; j++) t.push_back({1, po, {mo}}); }
            AmiBase a;
            AmiBase::ami_parms p(n, 0);
            C f = 1;
            for (auto &q : po) f *= a.fermi_pole(p, q, v);
            C want = v.prefactor * f * (1.0 / 3 - 3.0 * more / 7);
            double sc = std::abs(want);
            agree(cx, "cancelling terms", a.evaluate(p, t, v), want, sc, 1e-14);
            for (int sep = 0; sep < 2; sep++) {
              Fac h;
              a.factorize_terms(t, h.u, h.rr, h.el);
              if (sep) { // every product in a group of its own
                h.rr.clear(); h.el.clear();
                for (size_t i = 0; i < t.size(); i++) {
                  AmiBase::ref_v_t r;
                  int sg = 1;
                  for (auto &g : t[i].g_list)
                    for (size_t k = 0; k < h.u.size(); k++)
                      if (h.u[k].eps_ == g.eps_) r.push_back({(int)k, 1});
                      else if (VI neg = g.eps_; [&] { for (auto &x : neg) x = -x; return h.u[k].eps_ == neg; }()) { r.push_back({(int)k, 1}); sg = -sg; }
                  h.rr.push_back(r);
                  h.el.push_back({{(int)i, sg}});
                }
              }
              agree(cx, "cancelling groups of terms", a.evaluate(p, t, v, h.u, h.rr, h.el), want, sc, 1e-14);
              if (n == 1) {
                AmiBase::R_t R(2);
                AmiBase::P_t P{{{}}};
                AmiBase::S_t S{{{}}};
                for (auto &w : t) { R[1].push_back(w.g_list); P[0][0].push_back(w.p_list[0]); S[0][0].push_back(w.sign); }
                agree(cx, "cancelling groups of S,P,R", a.evaluate(p, R, P, S, v, h.u, h.rr, h.el), want, sc, 1e-14);
              }
            }
            cx.cnt["sharp_comparisons"]++;
          });
}
// two propagators that differ in the last places, with big opposite factors: what they differ in is lost if a value
// is rounded to double anywhere between a propagator and the total
static void close_pair(Ctx &cx) {
  for (int n = 0; n <= 2; n++)
    for (int nu = 0; nu < 3; nu++)     // frequencies in the propagators
      for (int co = 0; co < 3; co++)   // common propagators
        for (double del : {1e-3, 1e-6, 1e-9, 1e-12})
          cx.visit([&] { return "two close propagators " + std::to_string(n) + " " + std::to_string(nu) + " " + std::to_string(co) + " " + std::to_string(std::log10(del)); }, [&] {
            using G = AmiBase::g_struct;
            AmiBase::ami_vars v({3.0, del, 0.7, -7.0}, {0, 0, C(0.5, nu == 2 ? 1.25 : 0)}, 1.3, co == 1 ? -2.5 : 1.0);
            AmiBase::alpha_t z(3, 0), y{0, 0, nu ? 1 : 0};
            AmiBase::pole_array_t po(n, AmiBase::pole_struct({0, 0, 1, 0}, z));
            for (int i = 0; i < n; i++) po[i].index_ = i;
            double big = std::ldexp(1.0, 60);
            AmiBase::g_prod_t g{G({1, 0, 0, 0}, y)}, h{G({1, 1, 0, 0}, y)};
            for (int i = 0; i < co; i++) { g.push_back(G({0, 0, 0, 1}, z)); h.insert(h.begin(), G({0, 0, 0, 1}, z)); }
            AmiBase::terms t{{big, po, g}, {-big, po, h}};
            AmiBase a;
            a.precision_cutoff = 1e30;
            AmiBase::ami_parms p(n, 0);
            C f = 1;
            for (auto &q : po) f *= a.fermi_pole(p, q, v);
            C w = 3.0 + (nu ? v.frequency_[2] : C(0));
            C want = v.prefactor * f * big * del / (w * (w + del)) * std::pow(-1 / 7.0, co);
            double sc = std::abs(want);
            agree(cx, "close terms", a.evaluate(p, t, v), want, sc, 1e-13);
            Fac k;
            a.factorize_terms(t, k.u, k.rr, k.el);
            agree(cx, "close groups of terms", a.evaluate(p, t, v, k.u, k.rr, k.el), want, sc, 1e-13);
            if (n == 1) {
              AmiBase::R_t R(2);
              AmiBase::P_t P{{{}}};
              AmiBase::S_t S{{{}}};
              for (auto &x : t) { R[1].push_back(x.g_list); P[0][0].push_back(x.p_list[0]); S[0][0].push_back(x.sign); }
              agree(cx, "close groups of S,P,R", a.evaluate(p, R, P, S, v, k.u, k.rr, k.el), want, sc, 1e-13);
            }
            cx.cnt["sharp_comparisons"] += 3;
          });
}
static void hist(Ctx &cx) {
  std::vector<Diagram> ds = {mk(1, {{1, 0}, {1, 1}}, {0, 1}), mk(2, {{1, 0, 0}, {0, 1, 0}, {-1, 1, 1}}, {0, 1, 2}), mk(1, {{1, 0}, {1, 0}, {-1, 1}}, {0, 0, 1})};
  std::vector<All> so(ds.size());
  AmiBase m;
  for (size_t i = 0; i < ds.size(); i++) build(m, ds[i], so[i]);
  int n = (int)ds.size() * NF * 2;
  auto run = [&](AmiBase &a, int c) {
    All &o = so[c % 3];
    auto v = at(o.d, points()[0]).vars();
    if (c / 3 % 2) { for (auto &e : v.energy_) e = 0; for (auto &f : v.frequency_) f = 0; }
    return ev(a, o, v, c / 6);
  };
  for (int i = 0; i < n; i++)
    cx.visit([&] { return "histories of the indicator, first operation " + std::to_string(i); }, [&] {
      for (int j = 0; j < n; j++)
        for (int k = 0; k < n; k++) {
          AmiBase a, b;
          run(a, i); run(a, j);
          C x = run(a, k), y = run(b, k);
          cx.cnt["comparisons"]++;
          cx.cnt["histories"]++;
          REQUIRE_(a.overflow_detected == b.overflow_detected, "operations " << i << " " << j << " " << k << ": indicator " << a.overflow_detected << ", on a fresh object " << b.overflow_detected);
          REQUIRE_(memcmp(&x, &y, sizeof x) == 0 || !finite(x), "operations " << i << " " << j << " " << k << ": value " << x << ", on a fresh object " << y);
          REQUIRE_(finite(x) || a.overflow_detected, "not finite and the indicator is clear");
        }
    });
}
void explore(Ctx &cx) {
  fam_mixed(cx.thorough, [&](const Diagram &d) { one(cx, d, d.ls.size() <= 4); });
  const auto &A1 = alphas(1), &A2 = alphas(2);
  for (auto &b : A1) for (auto &c : A1) precise(cx, mk(0, {b, c}, {0, 1}));
  for (auto &b : A2) {
    for (auto &c : A2) {
      precise(cx, mk(0, {b, c, {0, 1}}, {0, 1, 2}));
      precise(cx, mk(1, {b, c}, {0, 1}));
      for (auto &d : A2) precise(cx, mk(1, {b, c, d}, {0, 1, 2}));
    }
    // an energy that is a difference of two numbers close to each other
    Diagram q = mk(0, {b, {0, 1}}, {0, 1});
    q.ls[0].e = {1, -1};
    precise(cx, q);
    q = mk(1, {{1, 0}, b}, {0, 1});
    q.ls[1].e = {0, 1};
    precise(cx, q);
  }
  { // energies as combinations
    std::vector<VI> e = {{1, 1, -1, 0}, {0, 0, 0, 1}, {-1, -1, 1, 1}, {1, 1, -1, 1}};
    for (auto &b : A1) for (auto &c : A1) for (auto &p : e) for (auto &q : e) { Diagram d = mk(0, {b, c}, {0, 1}); d.ls[0].e = p; d.ls[1].e = q; combined(cx, d); }
    for (auto &b : A2) for (auto &c : A2) for (auto &p : e) for (auto &q : e) {
      Diagram d = mk(1, {b, c}, {0, 1});
      d.ls[0].e = p; d.ls[1].e = q;
      combined(cx, d);
      d.ls.push_back({{1, 0}, {0, 1, 0, 0}});
      combined(cx, d);
    }
  }
  cancelling(cx);
  close_pair(cx);
  hist(cx);
  // indicator at singular and nearly singular points
  long n = 0;
  fam_mixed(false, [&](const Diagram &d) {
    if (!cx.thorough && n++ % 3) return;
    cx.visit([&] { return "indicator " + show(d); }, [&] {
      if (!domain(d).valid) return;
      AmiBase a;
      All o;
      build(a, d, o);
      In x = at(d, points()[0]);
      for (int j = 0; j < d.E(); j++)
        for (double del : {0.0, 1e-9, 1e-14})
          for (int how = 0; how < 3; how++) {
            auto v = x.vars();
            int q = (j + 1) % d.E();
            if (how && q == j) continue;
            v.energy_[j] = how == 0 ? C(del, 0) : how == 1 ? v.energy_[q] + del : -v.energy_[q] + del;
            for (double cut : {1e15, 1e6, 20.0}) {
              a.precision_cutoff = cut;
              for (int f = 0; f < NF; f++) judge(cx, a, o, v, f, ev(a, o, v, f));
            }
          }
    });
  });
}
