// C20: species labels through elimination and factorization.
#include "fams.hpp"
#include <array>
typedef AmiBase::g_struct G;
typedef std::array<VI, 3> Key; // species, alpha, eps
static Key key(const G &g) { return Key{VI{g.species_}, g.alpha_, g.eps_}; }
static G sub(const G &g, const AmiBase::pole_struct &p, int k) { // own substitution
  G r = g;
  int c = g.alpha_[k];
  for (size_t i = 0; i < r.alpha_.size(); i++) r.alpha_[i] = (int)i == k ? 0 : g.alpha_[i] + c * p.alpha_[i];
  for (size_t i = 0; i < r.eps_.size(); i++) r.eps_[i] = g.eps_[i] + c * p.eps_[i];
  return r;
}
// one product obtained from `par` at pole p of frequency k
static void descends(const AmiBase::g_prod_t &par, const AmiBase::g_prod_t &ch, const AmiBase::pole_struct &p, int k) {
  REQUIRE_(p.index_ == k, "pole of frequency " << k << " names frequency " << p.index_);
  std::map<Key, int> rest;
  int group = 0;
  for (auto &g : par) {
    int c = g.alpha_[k];
    bool same = c != 0;
    if (c) {
      for (size_t i = 0; i < g.alpha_.size(); i++) if ((int)i != k && -c * g.alpha_[i] != p.alpha_[i]) same = false;
      for (size_t i = 0; i < g.eps_.size(); i++) if (-c * g.eps_[i] != p.eps_[i]) same = false;
    }
    if (same) group++;
    else rest[key(sub(g, p, k))]++;
  }
  REQUIRE_(group >= 1, "pole " << vs(p.alpha_) << vs(p.eps_) << " belongs to no propagator");
  std::map<Key, int> have;
  for (auto &g : ch) have[key(g)]++;
  int extra = 0;
  for (auto &h : have) {
    REQUIRE_(rest.count(h.first), "propagator " << vs(h.first[1]) << ";" << vs(h.first[2]) << " of species " << h.first[0][0] << " does not descend from a line of that species");
  }
  for (auto &r : rest) {
    int n = have.count(r.first) ? have[r.first] : 0;
    REQUIRE_(n >= r.second, "the line " << vs(r.first[1]) << ";" << vs(r.first[2]) << " of species " << r.first[0][0] << " got lost");
    extra += n - r.second;
  }
  REQUIRE_(extra + p.der_ == group - 1, "a pole of order " << group << " gives a term with " << p.der_ << " derivatives and " << extra << " repeated propagators");
}
// all children of `par` at its poles of frequency k: own residues (Leibniz rule) with labels, and those found
typedef std::map<std::pair<std::pair<VI, int>, std::multiset<Key>>, std::pair<double, double>> Kids; // (pole, derivative), lines -> factor, size
static void kid(Kids &m, const AmiBase::pole_struct &p, const AmiBase::g_prod_t &g, double w) {
  VI id = p.alpha_;
  id.insert(id.end(), p.eps_.begin(), p.eps_.end());
  std::multiset<Key> k;
  for (auto &x : g) k.insert(key(x));
  auto &y = m[{{id, p.der_}, k}];
  y.first += w;
  y.second += std::abs(w);
}
static void children(Ctx &cx, const AmiBase::g_prod_t &par, int k, const Kids &got) {
  std::set<VI> done;
  Kids want;
  for (auto &g0 : par) {
    int c0 = g0.alpha_[k];
    if (std::abs(c0) > 1) return; // outside the domain
    if (!c0) continue;
    AmiBase::pole_struct p;
    p.alpha_ = g0.alpha_; p.eps_ = g0.eps_;
    for (auto &x : p.alpha_) x *= -c0;
    for (auto &x : p.eps_) x *= -c0;
    p.alpha_[k] = 0;
    VI id = p.alpha_;
    id.insert(id.end(), p.eps_.begin(), p.eps_.end());
    if (!done.insert(id).second) continue;
    int odd = 0;
    for (int x : p.alpha_) odd ^= x & 1;
    bool zero = std::all_of(p.eps_.begin(), p.eps_.end(), [](int x) { return x == 0; });
    if (zero && odd) continue; // the fermionic Matsubara poles are left out by default
    std::vector<G> sb;
    VI cs;
    int M = 0;
    double f0 = 1;
    for (auto &g : par) {
      int c = g.alpha_[k];
      bool same = c != 0;
      for (size_t i = 0; same && i < g.alpha_.size(); i++) if ((int)i != k && -c * g.alpha_[i] != p.alpha_[i]) same = false;
      for (size_t i = 0; same && i < g.eps_.size(); i++) if (-c * g.eps_[i] != p.eps_[i]) same = false;
      if (same) { M++; f0 *= c; } else { sb.push_back(sub(g, p, k)); cs.push_back(c); }
    }
    std::function<void(size_t, int, AmiBase::g_prod_t, double)> rec = [&](size_t i, int left, AmiBase::g_prod_t have, double f) {
      if (i == sb.size()) {
        for (int d = 2; d <= left; d++) f /= d;
        p.der_ = left;
        kid(want, p, have, f);
        return;
      }
      for (int n = 0; n <= (cs[i] ? left : 0); n++) { have.push_back(sb[i]); rec(i + 1, left - n, have, f); f *= -cs[i]; }
    };
    rec(0, M - 1, {}, f0);
  }
  for (auto &m : {std::make_pair(&want, &got), std::make_pair(const_cast<Kids *>(&got), (const Kids *)&want)})
    for (auto &w : *m.first) {
      auto it = m.second->find(w.first);
      double other = it == m.second->end() ? 0 : it->second.first, size = w.second.second + (it == m.second->end() ? 0 : it->second.second);
      cx.cnt["comparisons"]++;
      std::string l;
      for (auto &x : w.first.second) l += " " + vs(x[1]) + ";" + vs(x[2]) + "/" + std::to_string(x[0][0]);
      REQUIRE_(std::abs(w.second.first - other) <= 1e-12 * size, "the residue at the pole " << vs(w.first.first.first) << " has the lines" << l << " with the factor " << (m.first == &want ? other : w.second.first) << ", must be " << (m.first == &want ? w.second.first : other));
    }
}
static void factored(const AmiBase::Ri_t &R, const Fac &f) {
  for (size_t i = 0; i < f.el.size(); i++)
    for (auto &e : f.el[i]) {
      std::multiset<int> a, b;
      std::multiset<Key> x, y;
      for (auto g : R[e.first]) {
        a.insert(g.species_);
        Key k = key(g), m = k;
        for (int j = 1; j < 3; j++) for (auto &v : m[j]) v = -v;
        x.insert(std::min(k, m));
      }
      for (auto &r : f.rr[i]) {
        const G &g = f.u[r.first];
        b.insert(g.species_);
        Key k = key(g), m = k;
        for (int j = 1; j < 3; j++) for (auto &v : m[j]) v = -v;
        y.insert(std::min(k, m));
      }
      REQUIRE_(a == b, "the factorization changes the species of product " << e.first);
      REQUIRE_(x == y, "the factorization identifies propagators of different species (product " << e.first << ")");
    }
}
static void one(Ctx &cx, const Diagram &d, int nspec, long maxassign = 1 << 30) {
  Domain D = domain(d);
  if (!D.valid) { cx.cnt["outside_domain"]++; return; }
  size_t L = d.ls.size();
  long n = 1;
  for (size_t i = 0; i < L && n < 1000000; i++) n *= nspec;
  long step = std::max(1L, n / maxassign);
  for (long c = 0; c < n; c += step) {
    VI sp(L);
    long y = c;
    // small labels, labels that agree in their last bits, labels that differ by the sign
    static const int wide[3] = {1, 257, 65793}, sgd[3] = {4, -4, -260};
    int kind = (int)((c + (long)L + d.ls[0].a[0] + 1) % 3);
    for (size_t i = 0; i < L; i++) { if (i > 11) y = (long)(i * i + 5 * i + c) / 3; sp[i] = kind == 1 ? wide[y % nspec] : kind == 2 ? sgd[y % nspec] : y % nspec ? (int)(y % nspec) * 3 - 1 : 0; y /= nspec; }
    cx.visit([&] { return show(d) + " species " + vs(sp); }, [&] {
      auto g0 = gprod(d);
      auto g = g0;
      for (size_t i = 0; i < L; i++) g[i].species_ = sp[i];
      AmiBase a;
      In x = at(d, points()[c % 4]);
      auto p = x.parms();
      auto v = x.vars();
      Spr s, z;
      AmiBase::terms t, tz;
      a.construct(p, g, s.R, s.P, s.S);
      a.construct(p, g, t);
      a.construct(p, g0, z.R, z.P, z.S);
      a.construct(p, g0, tz);
      REQUIRE_(s.R[0].size() == 1 && s.R[0][0].size() == L, "first product");
      for (size_t i = 0; i < L; i++) REQUIRE_(s.R[0][0][i].species_ == sp[i], "the first product does not keep the species");
      for (int k = 0; k < d.N; k++) {
        size_t cur = 0;
        for (size_t j = 0; j < s.R[k].size(); j++) {
          Kids got;
          for (size_t m = 0; m < s.P[k][j].size(); m++) {
            descends(s.R[k][j], s.R[k + 1][cur], s.P[k][j][m], k);
            kid(got, s.P[k][j][m], s.R[k + 1][cur++], s.S[k][j][m]);
            cx.cnt["transitions"]++;
            cx.cnt["comparisons"]++;
          }
          children(cx, s.R[k][j], k, got);
        }
      }
      AmiBase::terms cu{AmiBase::term(1, AmiBase::pole_array_t(), g)}, nx;
      for (int k = 0; k < d.N; k++) {
        AmiBase::terms all;
        for (auto &w : cu) {
          AmiBase::terms in{w};
          a.integrate_step(k, in, nx);
          Kids got;
          for (auto &o : nx) {
            int here = 0;
            for (auto &q : o.p_list) if (q.index_ == k) { descends(w.g_list, o.g_list, q, k); kid(got, q, o.g_list, o.sign / w.sign); here++; }
            REQUIRE_(here == 1, "a term must have one pole of each eliminated frequency");
            cx.cnt["transitions"]++;
            cx.cnt["comparisons"]++;
          }
          children(cx, w.g_list, k, got);
          all.insert(all.end(), nx.begin(), nx.end());
        }
        cu = all;
      }
      REQUIRE_(cu.size() == t.size(), "number of terms");
      std::multiset<std::multiset<Key>> k1, k2;
      for (auto &w : cu) { std::multiset<Key> m; for (auto &q : w.g_list) m.insert(key(q)); k1.insert(m); }
      for (auto &w : t) { std::multiset<Key> m; for (auto &q : w.g_list) m.insert(key(q)); k2.insert(m); }
      REQUIRE_(k1 == k2, "construct and its steps differ");
      Fac f, h;
      a.factorize_Rn(s.R.back(), f.u, f.rr, f.el);
      factored(s.R.back(), f);
      a.factorize_terms(t, h.u, h.rr, h.el);
      AmiBase::Ri_t tr;
      for (auto &w : t) tr.push_back(w.g_list);
      factored(tr, h);
      cx.cnt["states"] += count_states(s);
      // values do not depend on the labels
      C r0 = a.evaluate(p, z.R, z.P, z.S, v), r1 = a.evaluate(p, s.R, s.P, s.S, v), r2 = a.evaluate(p, t, v), r3 = a.evaluate(p, tz, v);
      REQUIRE_(s.S == z.S, "the signs depend on the species");
      REQUIRE_(r0 == r1, "S,P,R: value depends on the species: " << r0 << " " << r1);
      REQUIRE_(r2 == r3, "terms: value depends on the species: " << r3 << " " << r2);
      double sc = std::max(1e-250, term_scale(a, p, t, v));
      agree(cx, "spr_factorized", a.evaluate(p, s.R, s.P, s.S, v, f.u, f.rr, f.el), r0, sc);
      agree(cx, "terms_factorized", a.evaluate(p, t, v, h.u, h.rr, h.el), r0, sc);
      std::set<int> distinct(sp.begin(), sp.end());
      cx.outcomes.insert(std::to_string(distinct.size()) + " species, " + std::to_string(f.u.size()) + " unique of " + std::to_string(s.R.back().size()));
    });
  }
}
void explore(Ctx &cx) {
  bool T = cx.thorough;
  for (auto &b : alphas(2)) one(cx, mk(0, {b, unit(2, 0), b}, {0, 1, 0}), 3);
  for (auto &b : alphas(2))
    for (auto &c : alphas(2)) {
      partitions(2, [&](const VI &q) { one(cx, mk(1, {b, c}, q), 3); });
      for (auto &d : alphas(2)) partitions(3, [&](const VI &q) { one(cx, mk(1, {b, c, d}, q), T ? 3 : 2); });
    }
  for (auto &b : alphas(3)) {
    partitions(3, [&](const VI &q) { one(cx, mk(2, {{1, 0, 0}, {0, 1, 0}, b}, q), 3); one(cx, mk(2, {b, {-1, 0, 0}, {0, 1, 0}}, q), 2); });
    for (auto &c : alphas(3))
      if (b <= c)
        for (auto &q : std::vector<VI>{{0, 1, 2, 3}, {0, 1, 2, 2}, {0, 1, 0, 1}, {0, 0, 1, 2}}) one(cx, mk(2, {{1, 0, 0}, {0, 1, 0}, b, c}, q), 2);
  }
  const auto &A4 = alphas(4);
  for (size_t i = 0; i < A4.size(); i++) {
    one(cx, mk(3, {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, A4[i]}, {0, 1, 2, 3}), 3, T ? 1000 : 27);
    for (size_t j = i; j < A4.size(); j += T ? 1 : 7) one(cx, mk(3, {{1, 0, 0, 0}, A4[i], {0, 1, 0, 0}, {0, 0, 1, 0}, A4[j]}, {0, 1, 0, 2, 1}), 2, T ? 32 : 8);
  }
  for (int m = 2; m <= 4; m++)
    for (auto &b : alphas(2)) {
      std::vector<VI> a(m, VI{1, 0});
      VI q(m, 0);
      a.push_back(b);
      q.push_back(1);
      one(cx, mk(1, a, q), 3);
      a[1] = {-1, 0};
      one(cx, mk(1, a, q), 3);
      Diagram d = mk(1, a, q);
      for (auto &x : d.ls[1].e) x = -x;
      one(cx, d, 3);
    }
  // a multiple pole next to propagators that differ in their species only
  for (int m = 2; m <= 3; m++)
    for (auto &b : alphas(2))
      for (int n = 2; n <= 3; n++)
        for (int where = 0; where < 3; where++) {
          std::vector<VI> a;
          VI q;
          for (int i = 0; i < m + n; i++) {
            bool pole = where == 0 ? i < m : where == 1 ? i >= n : i % 2 == 0 && i / 2 < m;
            if (where == 2 && i >= 2 * m) pole = false;
            if (where == 2 && i >= 2 * n) pole = true;
            a.push_back(pole ? VI{1, 0} : b);
            q.push_back(pole ? 0 : 1);
          }
          one(cx, mk(1, a, q), n == 3 && m == 3 ? 2 : 3, T ? 1 << 30 : 81);
        }
  for (int e : {2, 3, 4, 5}) one(cx, example(e), 2, T ? 128 : 16);
  fam_wide([&](const Diagram &d) { one(cx, d, 3, 9); }, 129);
}
