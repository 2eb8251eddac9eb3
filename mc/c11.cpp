// C11: on-the-fly evaluation for energies that coincide numerically.
#include "fams.hpp"
static bool same(const Spr &a, const Spr &b) {
  if (a.S != b.S || a.P.size() != b.P.size() || a.R.size() != b.R.size()) return false;
  for (size_t i = 0; i < a.R.size(); i++) {
    if (a.R[i].size() != b.R[i].size()) return false;
    for (size_t j = 0; j < a.R[i].size(); j++) {
      if (a.R[i][j].size() != b.R[i][j].size()) return false;
      for (size_t k = 0; k < a.R[i][j].size(); k++)
        if (a.R[i][j][k].eps_ != b.R[i][j][k].eps_ || a.R[i][j][k].alpha_ != b.R[i][j][k].alpha_) return false;
    }
  }
  for (size_t i = 0; i < a.P.size(); i++) {
    if (a.P[i].size() != b.P[i].size()) return false;
    for (size_t j = 0; j < a.P[i].size(); j++) {
      if (a.P[i][j].size() != b.P[i][j].size()) return false;
      for (size_t k = 0; k < a.P[i][j].size(); k++)
        if (a.P[i][j][k].eps_ != b.P[i][j][k].eps_ || a.P[i][j][k].alpha_ != b.P[i][j][k].alpha_ ||
            a.P[i][j][k].der_ != b.P[i][j][k].der_)
          return false;
    }
  }
  return true;
}
// energies are small integers times `unit`, so that all their combinations are exact
static const int ALPH[] = {2, -2, 1, 0, 4, 3, -1};
static void one(Ctx &cx, const Diagram &d, int nalph, AmiBase::graph_type type = AmiBase::Sigma, bool full = true) {
  Domain D0 = domain(d);
  if (!D0.valid) { cx.cnt["outside_domain"]++; return; }
  int E = d.E();
  long n = 1;
  for (int i = 0; i < E; i++) n *= nalph;
  // built once per integrand and worker, used for all assignments; every use checks that it is unchanged
  struct Built { AmiBase a; Spr s, orig; bool made = false; };
  auto B = std::make_shared<Built>();
  for (long c = 0; c < n; c++) {
    VI k(E);
    long y = c;
    for (int i = 0; i < E; i++) { k[i] = ALPH[y % nalph]; y /= nalph; }
    if (!full) { // only assignments that use the symmetry k -> -k once
      int first = 0;
      for (int v : k) if (v && !first) first = v;
      if (first < 0) continue;
    }
    cx.visit([&] { return show(d) + " type=" + std::to_string((int)type) + " energies=" + vs(k) + "*unit"; }, [&] {
      Diagram m = d; // the integrand with its numerical energies
      for (auto &l : m.ls) {
        int s = 0;
        for (int i = 0; i < E; i++) s += l.e[i] * k[i];
        l.e = VI{s};
      }
      Domain D = domain(m);
      if (!D.valid) { cx.cnt["excluded_by_numerical_domain"]++; return; }
      AmiBase &a = B->a;
      In x;
      x.d = d;
      x.type = type;
      AmiBase::ami_parms p = x.parms();
      if (!B->made) {
        a.construct(p, gprod(d), B->s.R, B->s.P, B->s.S);
        B->orig = B->s;
        B->made = true;
      }
      Spr &s = B->s;
      int nf = 0;
      for (double beta : {1.3, 6.0}) {
        nf++;
        if (nf == 2 && (c % 5)) continue;
        double unit = nf == 1 ? 0.375 : 0.25;
        C z = (c % 3) == 2 ? C(1, 0.5) : C(1, 0); // complex energies coincide as well
        x.beta = beta;
        x.pf = (c & 1) ? -1.25 : 1;
        x.E.clear();
        for (int v : k) x.E.push_back(z * (unit * v));
        x.f = freqs(d.F(), d.N, nf == 1 ? C(0.3, 1.1) : C(-0.7, 2.0));
        In y = x;
        y.d = m;
        y.E = {z * unit};
        auto v = x.vars();
        C r = a.evaluate_otf(p, s.R, s.P, s.S, v);
        REQUIRE_(same(s, B->orig), "the given solution was changed");
        REQUIRE_(v.energy_ == x.E && v.frequency_ == x.f && v.BETA_ == beta && v.prefactor == x.pf, "the external variables were changed");
        auto vy = y.vars();
        if (!D.multipole) {
          auto e = exact(y, false);
          if (e.ok) agree(cx, "otf_simple", r, e.v, std::max(e.scale, 1e-250));
        } else {
          auto e = exact(y, true);
          AmiBase b;
          AmiBase::terms t;
          AmiBase::ami_parms py = y.parms();
          b.construct(py, gprod(m), t);
          if (e.ok) agree(cx, "otf", r, e.v, deg_scale(b, py, t, vy, e), 1e-7);
        }
        cx.cnt["transitions"]++;
        if (D.multipole && !D0.multipole) cx.cnt["coincidences"]++;
        // without coincidences: the plain evaluation
        std::set<C, bool (*)(C, C)> seen([](C p, C q) { return p.real() != q.real() ? p.real() < q.real() : p.imag() < q.imag(); });
        C pl = a.evaluate(p, s.R, s.P, s.S, v);
        if (!D.multipole && finite(pl)) {
          double sc = std::abs(pl);
          auto e = exact(y, false);
          if (e.ok) agree(cx, "plain", pl, r, std::max(e.scale, sc), 1e-9);
        }
        // close energies are not equal energies: all sums stay exact in double precision, so the terms are
        // accurate to rounding however close the energies are
        if (nf == 1) {
          static const int MULT[] = {1, 3, 7, 12, 20, 33, 54, 88, 143, 232};
          for (int how = 0; how < 4; how++) {
            C del = how == 0 ? C(std::ldexp(1.0, -17), 0) : how == 1 ? C(std::ldexp(-1.0, -29), 0) : how == 2 ? C(0, 0.09375) : C(0, std::ldexp(1.0, -17));
            In q = x;
            for (int i = 0; i < E; i++) q.E[i] += del * (double)MULT[i % 10];
            Diagram w = d; // two numerical energies
            for (auto &l : w.ls) {
              int s1 = 0, s2 = 0;
              for (int i = 0; i < E; i++) { s1 += l.e[i] * k[i]; s2 += l.e[i] * MULT[i % 10]; }
              l.e = VI{s1, s2};
            }
            Domain W = domain(w);
            if (!W.valid || W.multipole) { cx.cnt["close_energies_excluded"]++; continue; }
            In qy = q;
            qy.d = w;
            qy.E = {z * unit, del};
            auto e = exact(qy, false);
            if (!e.ok) { cx.cnt["close_energies_excluded"]++; continue; }
            auto qv = q.vars();
            C cl = a.evaluate_otf(p, s.R, s.P, s.S, qv);
            agree(cx, "close", cl, e.v, std::max(e.scale, 1e-250), 1e-12);
          }
        }
        // a second call gives the same bits
        C r2 = a.evaluate_otf(p, s.R, s.P, s.S, v);
        REQUIRE_(r2 == r, "second call gives " << r2 << " after " << r);
        cx.outcomes.insert(D.multipole == D0.multipole ? "same pole structure" : "merged poles, multiplicity " + std::to_string(D.max_mult));
      }
    });
  }
}
void explore(Ctx &cx) {
  bool T = cx.thorough;
  const auto &A2 = alphas(2);
  for (auto &b : A2) one(cx, mk(0, {b, unit(2, 1)}, {0, 1}), 5);
  for (auto &b : A2)
    for (auto &c : A2) {
      one(cx, mk(1, {b, c}, {0, 1}), 7);
      for (auto &d : A2) one(cx, mk(1, {b, c, d}, {0, 1, 2}), T ? 7 : 4);
    }
  for (int m = 4; m <= 6; m++) { // several groups of coinciding poles
    std::vector<VI> a(m, VI{1, 0});
    for (int i = 0; i < m; i++) { if (i % 3 == 1) a[i] = {1, 1}; if (i % 3 == 2) a[i] = {-1, 0}; }
    one(cx, mk(1, a, iota(m)), m == 4 ? 5 : m == 5 ? 4 : 3);
    for (int i = 0; i < m; i++) if (i % 2) a[i] = {-1, -1};
    one(cx, mk(1, a, iota(m)), m == 4 ? 5 : m == 5 ? 4 : 3);
  }
  const auto &A3 = alphas(3);
  for (auto &b : A3) {
    for (auto &f : std::vector<std::vector<VI>>{{{1, 0, 0}, {0, 1, 0}, b}, {b, {-1, 0, 0}, {0, 1, 0}}}) {
      one(cx, mk(2, f, {0, 1, 2}), T ? 7 : 5);
      one(cx, mk(2, f, {0, 1, 2}), 3, AmiBase::Pi_phuu);
    }
    for (auto &c : A3)
      if (b <= c) {
        one(cx, mk(2, {{1, 0, 0}, {0, 1, 0}, b, c}, {0, 1, 2, 3}), T ? 5 : 4, AmiBase::Sigma, T);
        one(cx, mk(2, {{1, 0, 0}, b, {0, 1, 0}, c}, {0, 1, 0, 2}), 4);
        Diagram d = mk(2, {{1, 0, 0}, {0, 1, 0}, b, c}, {0, 1, 2, 3}); // energies that are combinations
        d.ls[2].e = {1, -1, 1, 0};
        d.ls[3].e = {0, 1, 1, 1};
        one(cx, d, 3);
      }
  }
  const auto &A4 = alphas(4);
  for (size_t i = 0; i < A4.size(); i++) {
    one(cx, mk(3, {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, A4[i]}, {0, 1, 2, 3}), 4, AmiBase::Sigma, T);
    for (size_t j = i; j < A4.size(); j += T ? 3 : 17)
      one(cx, mk(3, {{1, 0, 0, 0}, A4[i], {0, 1, 0, 0}, {0, 0, 1, 0}, A4[j]}, {0, 1, 2, 3, 4}), 3, AmiBase::Sigma, false);
  }
  for (int n : {7, 8, 15, 31, 32, 33, 65}) // coinciding lines at far places of long products
    for (int form = 0; form < 2; form++) {
      std::vector<VI> a{{1, 0}};
      VI q{0};
      auto add = [&](VI r, int e) { a.push_back(r); q.push_back(e); };
      for (int j = 0; j < n; j++) add({0, j % 3 ? 1 : -1}, 3);
      add({form ? -1 : 1, 0}, 1);
      add({1, form ? -1 : 1}, 2);
      one(cx, mk(1, a, q), 4);
    }
  for (int e : {3, 4, 5}) one(cx, example(e), e == 3 ? 4 : 2, AmiBase::Sigma, false);
}
