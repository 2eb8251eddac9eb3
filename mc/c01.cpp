// C01: SPR construction + evaluation equals the exact Matsubara sum (simple poles).
#include "fams.hpp"
static const double PF[] = {1, -2.5, 0.125, 1, 3, -1, 1e-3, 1, 7};
static void one(Ctx &cx, const Diagram &d, int npts) {
  cx.visit([&] { return show(d); }, [&] {
    Domain D = domain(d);
    if (!D.valid || D.multipole) { cx.cnt["outside_domain"]++; return; }
    AmiBase a;
    AmiBase::ami_parms p(d.N, 0);
    Spr s;
    a.construct(p, gprod(d), s.R, s.P, s.S);
    cx.cnt["states"] += count_states(s);
    cx.cnt["transitions"] += count_trans(s);
    cx.cnt["integrands"]++;
    for (int k = 0; k < npts; k++) {
      In x = at(d, points()[k]);
      x.pf = PF[k];
      auto r = exact(x, false);
      if (!r.ok) { cx.cnt["reference_singular"]++; continue; }
      auto v = x.vars();
      agree(cx, "spr", a.evaluate(p, s.R, s.P, s.S, v), r.v, r.scale);
      if (cx.outcomes.size() < 64) {
        std::ostringstream o;
        o.precision(3);
        o << r.v;
        cx.outcomes.insert(o.str());
      }
    }
  });
}
// energies of the lines as linear combinations of the external list
static void combos(Ctx &cx, int N, const std::vector<VI> &a) {
  int L = (int)a.size();
  static const std::vector<std::vector<VI>> mats = {
      {{1, 0, 0}, {1, 1, 0}, {0, -1, 0}, {0, 0, 1}, {1, 0, -1}},
      {{-1, 0}, {0, -1}, {-1, -1}, {1, 2}, {3, -1}},
      {{0, 0, 0, 1}, {0, 0, 1, 0}, {0, 1, 0, 0}, {1, 0, 0, 0}, {1, 1, 1, 1}},
      {{2, 0, 0}, {0, -3, 0}, {0, 0, 1}, {1, 1, 1}, {-2, 1, 4}},
      {{0, 1, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 1, 0}, {0, 0, 0, 1, 0, 0, 0}, {1, 0, 0, 0, 0, 0, -1}, {0, 0, 1, 0, 1, 0, 0}}};
  for (auto &m : mats) {
    Diagram d;
    d.N = N;
    for (int i = 0; i < L; i++) d.ls.push_back({a[i], m[i]});
    one(cx, d, 4);
  }
}
// unusual numbers: one energy, all energies or the external frequency tiny, huge, or with a tiny or large real or imaginary part,
// at several temperatures
static void numbers(Ctx &cx, const Diagram &d) {
  std::vector<double> z;
  for (int k = 1; k <= 13; k++) { z.push_back(std::pow(10.0, -k)); z.push_back(-3.7 * std::pow(10.0, -k)); }
  for (int k = 1; k <= 6; k += 1) z.push_back((k % 2 ? 2.3 : -2.3) * std::pow(10.0, k));
  int E = d.E();
  cx.visit([&] { return show(d) + " unusual numbers"; }, [&] {
    Domain D = domain(d);
    if (!D.valid || D.multipole) { cx.cnt["outside_domain"]++; return; }
    AmiBase a;
    AmiBase::ami_parms p(d.N, 0);
    Spr s;
    a.construct(p, gprod(d), s.R, s.P, s.S);
    cx.cnt["states"] += count_states(s);
    cx.cnt["transitions"] += count_trans(s);
    for (int k : {0, 4, 5})
      for (int who = -1; who <= E; who++)
        for (int how = 0; how < 3; how++) // imaginary part, real part, both
          for (double y : z) {
            In x = at(d, points()[k]);
            if (k == 5) x.beta = 0.01;
            auto put = [&](C &c, double w) { c = how == 0 ? C(c.real(), w) : how == 1 ? C(w, c.imag()) : C(w, -w); };
            if (who == E) { if (d.F() == d.N) continue; put(x.f.back(), y); }
            else for (int i = 0; i < E; i++) if (who < 0 || who == i) put(x.E[i], who < 0 && how ? y * (1 + 0.31 * i) : y);
            auto r = exact(x, false);
            if (!r.ok || !(r.scale < 1e250)) { cx.cnt["reference_singular"]++; continue; }
            auto v = x.vars();
            // exp(x) - 1 keeps fewer digits of a small x (C07)
            double small = 1;
            VI e(E, -1);
            for (;;) {
              C q = 0;
              for (int i = 0; i < E; i++) q += (double)e[i] * x.E[i];
              if (std::abs(q) > 0) small = std::min(small, std::abs(q) * x.beta);
              int i = 0;
              while (i < E && ++e[i] == 2) e[i++] = -1;
              if (i == E) break;
            }
            agree(cx, "spr (unusual numbers)", a.evaluate(p, s.R, s.P, s.S, v), r.v, r.scale, 1e-9 + 1e-15 / small);
          }
  });
}
void explore(Ctx &cx) {
  fam_wide([&](const Diagram &d) { one(cx, d, 4); }, 129);
  bool T = cx.thorough;
  auto f9 = [&](const Diagram &d) { one(cx, d, 9); };
  auto f4 = [&](const Diagram &d) { one(cx, d, 4); };
  auto f2 = [&](const Diagram &d) { one(cx, d, 2); };
  // nothing to sum
  for (int F = 1; F <= 3; F++)
    for (int L = 1; L <= 2; L++) {
      const auto &A = alphas(F);
      for (auto &b : A)
        for (auto &c : A) {
          if (L == 1 && &c != &A[0]) continue;
          one(cx, L == 1 ? mk(0, {b}, {0}) : mk(0, {b, c}, {0, 1}), 9);
        }
    }
  for (int L = 1; L <= 4; L++) fam_all(1, L, true, f9);
  fam_all(1, 5, false, f4);
  for (int L = 2; L <= 3; L++) fam_all(2, L, true, f9);
  fam_all(2, 4, false, f4);
  fam_std(3, 1, true, f9);
  fam_std(3, 2, true, f4);
  fam_std(4, 1, true, f4);
  fam_std(5, 1, true, f2);
  if (T) {
    fam_all(1, 6, false, f4);
    fam_all(2, 4, true, f2);
    fam_all(2, 5, false, f2);
    fam_std(3, 3, false, f4);
    fam_std(4, 2, false, f4);
    fam_std(6, 1, true, f2);
  } else {
    fam_std(4, 2, false, f2);
    fam_std(6, 1, false, f2);
  }
  // everything summed (no external frequency), and several frequencies that are not summed
  for (int N = 1; N <= 3; N++)
    for (int F : {N, N + 2}) {
      const auto &A = alphas(F);
      std::vector<VI> base;
      for (int i = 0; i < N; i++) base.push_back(unit(F, i));
      for (auto &b : A) {
        auto r = base;
        r.push_back(b);
        one(cx, mk(N, r, iota(N + 1)), 4);
        if (N <= 2 || F == N)
          for (auto &c : A) {
            auto q = r;
            q.push_back(c);
            one(cx, mk(N, q, iota(N + 2)), 4);
          }
      }
    }
  // energies given as combinations, more energies than lines
  for (auto &b : alphas(2))
    for (auto &c : alphas(2)) combos(cx, 1, {b, c}), combos(cx, 1, {{1, 0}, b, c}), combos(cx, 1, {{1, 0}, {1, -1}, b, c});
  for (auto &b : alphas(3)) {
    combos(cx, 2, {{1, 0, 0}, {0, 1, 0}, b});
    for (auto &c : alphas(3)) combos(cx, 2, {{1, 0, 0}, b, {0, 1, 0}, c});
  }
  for (auto &b : alphas(4)) combos(cx, 3, {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, b, {1, 0, 0, -1}});
  // published integrands, long lists of energies
  for (int e : {2, 3, 5, 6}) one(cx, example(e), e == 6 ? 3 : 9);
  for (int n : {8, 16, 17, 32, 33, 40}) {
    Diagram d = example(3);
    for (size_t i = 0; i < d.ls.size(); i++) d.ls[i].e = unit(n, (int)((i * 7 + n - 1) % n));
    one(cx, d, 4);
    Diagram g = example(2);
    for (size_t i = 0; i < g.ls.size(); i++) g.ls[i].e = unit(n, n - 1 - (int)i);
    one(cx, g, 9);
  }
  for (int L : {6, 8, 12, 20, 40}) { // long products
    std::vector<VI> a;
    for (int i = 0; i < L; i++) a.push_back(i % 3 == 0 ? VI{1, 0} : i % 3 == 1 ? VI{-1, 1} : VI{1, 1});
    one(cx, mk(1, a, iota(L)), 4);
  }
  for (int F : {6, 9, 12}) { // long frequency vectors
    std::vector<VI> a = {unit(F, 0), unit(F, 1), VI(F, 1)};
    one(cx, mk(2, a, iota(3)), 4);
    a[2] = VI(F, -1);
    a.push_back(unit(F, F - 1));
    one(cx, mk(2, a, iota(4)), 4);
  }
  for (auto &b : alphas(2)) {
    numbers(cx, mk(0, {b}, {0}));
    numbers(cx, mk(1, {{1, 0}, b}, {0, 1}));
    for (auto &c : alphas(2)) if (T || b <= c) numbers(cx, mk(1, {{-1, 0}, b, c}, {0, 1, 2}));
  }
  for (auto &b : alphas(3)) numbers(cx, mk(2, {{1, 0, 0}, {0, 1, 0}, b}, {0, 1, 2}));
  if (T) numbers(cx, example(2)), numbers(cx, example(3));
  if (T) one(cx, example(9), 1);
}
