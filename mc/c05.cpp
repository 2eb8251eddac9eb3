// C05: structure of the factorization, for all small lists of products and for constructed solutions.
#include "fams.hpp"
typedef AmiBase::g_struct G;
typedef AmiBase::g_prod_t Prod;
typedef AmiBase::Ri_t Ri;
// canonical form up to sign: (species, vector), and the sign
static std::pair<std::vector<int>, int> canon(const G &g) {
  std::vector<int> v;
  for (int x : g.alpha_) v.push_back(x);
  v.push_back(77);
  for (int x : g.eps_) v.push_back(x);
  int s = 1;
  for (size_t i = 0; i < v.size(); i++) {
    if (i == g.alpha_.size() || v[i] == 0) continue;
    if (v[i] < 0) s = -1;
    break;
  }
  if (s < 0) for (size_t i = 0; i < v.size(); i++) if (i != g.alpha_.size()) v[i] = -v[i];
  v.push_back(g.species_);
  return {v, s};
}
static std::string show(const Ri &r) {
  std::string s;
  for (auto &p : r) {
    s += "{";
    for (auto &g : p) s += " " + vs(g.alpha_) + ";" + vs(g.eps_) + "#" + std::to_string(g.species_);
    s += " }";
  }
  return s;
}
static void verify(Ctx &cx, const Ri &in, const Fac &f) {
  cx.cnt["comparisons"]++;
  cx.cnt["states"] += (long)f.rr.size();
  cx.cnt["transitions"] += (long)in.size();
  std::set<std::vector<int>> uq, inq;
  std::set<std::pair<std::vector<int>, int>> exact;
  for (auto &p : in) for (auto &g : p) { inq.insert(canon(g).first); exact.insert(canon(g)); }
  for (auto &g : f.u) {
    REQUIRE_(uq.insert(canon(g).first).second, "two unique propagators are equal or opposite: " << vs(g.alpha_) << vs(g.eps_));
    REQUIRE_(exact.count(canon(g)), "unique propagator does not occur in the input: " << vs(g.alpha_) << vs(g.eps_));
  }
  REQUIRE_(uq.size() == inq.size(), uq.size() << " unique propagators for " << inq.size() << " different ones");
  REQUIRE_(f.rr.size() == f.el.size(), "sizes of the reference and evaluation lists differ: " << f.rr.size() << " " << f.el.size());
  std::vector<int> seen(in.size(), 0);
  std::set<std::multiset<std::vector<int>>> groups;
  for (size_t i = 0; i < f.el.size(); i++) {
    std::multiset<std::vector<int>> prod;
    std::vector<int> usign;
    int rsign = 1;
    for (auto &r : f.rr[i]) {
      REQUIRE_(r.first >= 0 && r.first < (int)f.u.size(), "reference out of range");
      auto c = canon(f.u[r.first]);
      prod.insert(c.first);
      rsign *= c.second; // the stored product is a product of unique propagators as they are
    }
    REQUIRE_(groups.insert(prod).second, "two groups store the same product");
    REQUIRE_(!f.el[i].empty(), "empty group");
    for (auto &e : f.el[i]) {
      REQUIRE_(e.first >= 0 && e.first < (int)in.size(), "evaluation list refers to product " << e.first << " of " << in.size());
      REQUIRE_(e.second == 1 || e.second == -1, "sign " << e.second);
      seen[e.first]++;
      std::multiset<std::vector<int>> p2;
      int s = 1;
      for (auto &g : in[e.first]) { auto c = canon(g); p2.insert(c.first); s *= c.second; }
      REQUIRE_(p2 == prod, "product " << e.first << " is not the stored product of its group");
      REQUIRE_(s == rsign * e.second, "product " << e.first << " has the wrong sign " << e.second << " in its group");
    }
  }
  for (size_t i = 0; i < in.size(); i++) REQUIRE_(seen[i] == 1, "product " << i << " appears " << seen[i] << " times in the evaluation list");
  cx.outcomes.insert(std::to_string(f.u.size()) + "/" + std::to_string(f.rr.size()) + "/" + std::to_string(in.size()));
}
static bool same(const Fac &a, const Fac &b) {
  if (a.rr != b.rr || a.el != b.el || a.u.size() != b.u.size()) return false;
  for (size_t i = 0; i < a.u.size(); i++) if (canon(a.u[i]) != canon(b.u[i])) return false;
  return true;
}
static void check(Ctx &cx, Ri in, bool dirty) {
  AmiBase a;
  Fac f, g;
  Ri copy = in;
  a.factorize_Rn(in, f.u, f.rr, f.el);
  verify(cx, copy, f);
  AmiBase::terms t;
  for (auto &p : copy) t.push_back(AmiBase::term(2.0, AmiBase::pole_array_t(), p));
  if (dirty) { // old contents of the outputs
    g.u = f.u;
    g.rr = f.rr;
    g.el = f.el;
    g.u.push_back(G({5, 5}, {1, 1}));
    g.rr.push_back({{0, 1}});
    g.el.push_back({{0, -1}, {0, 1}});
  }
  a.factorize_terms(t, g.u, g.rr, g.el);
  verify(cx, copy, g);
  if (dirty) {
    Fac h;
    a.factorize_terms(t, h.u, h.rr, h.el);
    REQUIRE_(same(h, g), "the factorization depends on the previous contents of the output containers");
    h.u.insert(h.u.begin(), G({3, 5}, {1, 1}));
    h.el.clear();
    a.factorize_Rn(in, h.u, h.rr, h.el);
    REQUIRE_(same(h, f), "the factorization depends on the previous contents of the output containers");
  }
  REQUIRE_(show(in) == show(copy), "the input was changed");
}
void explore(Ctx &cx) {
  std::vector<G> al = {G({1, 0}, {1, -1}), G({-1, 0}, {-1, 1}), G({1, 0}, {-1, 1}), G({0, 1}, {1, 0}), G({1, 0}, {1, -1})};
  al[4].species_ = 1;
  std::vector<G> wide = al;
  wide.push_back(G({2, -1}, {0, 1}));
  wide.push_back(G({-2, 1}, {0, -1}));
  wide.push_back(G({2, 1}, {0, 1}));   // differs from the above by more than a sign
  wide.push_back(G({1, -1}, {0, 1}));
  wide.push_back(G({0, 0}, {1, -1}));
  wide.push_back(G({1, 0}, {0, 0}));
  wide.push_back(G({-1, 0}, {0, 0}));
  G neg = G({-1, 0}, {-1, 1});
  neg.species_ = 1;
  wide.push_back(neg);
  auto products = [](const std::vector<G> &a, int maxlen) {
    std::vector<Prod> r{Prod()};
    size_t lo = 0;
    for (int l = 1; l <= maxlen; l++) {
      size_t hi = r.size();
      for (size_t i = lo; i < hi; i++) for (auto &g : a) { Prod p = r[i]; p.push_back(g); r.push_back(p); }
      lo = hi;
    }
    return r;
  };
  auto lists = [&](const std::vector<Prod> &ps, int n, bool dirty) {
    std::vector<size_t> ix(n, 0);
    while (true) {
      Ri in;
      for (size_t i : ix) in.push_back(ps[i]);
      cx.visit([&] { return show(in); }, [&] { check(cx, in, dirty); });
      int k = n - 1;
      while (k >= 0 && ++ix[k] == ps.size()) ix[k--] = 0;
      if (k < 0) break;
    }
  };
  cx.visit([&] { return std::string("empty list"); }, [&] { check(cx, Ri(), true); });
  auto p2 = products(al, 2), p3 = products(al, 3), w2 = products(wide, 2), w1 = products(wide, 1);
  lists(w2, 1, true);
  lists(w2, 2, true);
  lists(p2, 3, true);
  lists(p3, 2, false);
  lists(w1, 3, true);
  lists(products(al, 4), 1, true);
  std::vector<G> three = {al[0], al[1], al[3]};
  lists(products(three, 4), 2, false); // all orders and repetitions of up to four factors
  if (cx.thorough) {
    lists(w1, 4, true);
    lists(products(wide, 3), 1, true);
    lists(products({al[0], al[1]}, 3), 4, true);
    lists(products(al, 4), 2, false);
    lists(products(three, 2), 5, false);
  } else {
    lists(products({al[0], al[3]}, 2), 5, false);
  }
  // long products: the same factors in other orders, reversed ones, with repetitions, and near misses
  for (int L : {5, 8, 12, 15, 16, 17, 24, 31, 32, 33, 34, 40, 63, 64, 65, 66, 96, 127, 128, 129, 200, 255, 256, 257, 300})
    for (int rep : {1, 2, 3, L})
      cx.visit([&] { return "products of " + std::to_string(L) + " propagators, each " + std::to_string(rep) + " times"; }, [&] {
        Prod p;
        for (int i = 0; i < L; i++) p.push_back(G({(i / rep) % 2, 1}, {1, 1 + i / rep})); // eps: distinct per group
        for (auto &g : p) std::swap(g.eps_[0], g.eps_[1]);
        auto rev = [](G g) { for (auto &x : g.eps_) x = -x; for (auto &x : g.alpha_) x = -x; return g; };
        Prod r(p.rbegin(), p.rend()), q = p, n = p, m = p, o = p, h = p;
        std::rotate(q.begin(), q.begin() + L / 3, q.end());
        for (int i = 0; i < L; i += 3) q[i] = rev(q[i]);
        n[L - 1] = n[0];             // one factor once more, another one once less
        m[L / 2].alpha_[1] *= -1;    // one other factor
        m[L / 2].alpha_[0] += 2;
        for (int i = 0; i + 1 < L; i += 2) std::swap(o[i], o[i + 1]);
        o[L - 1] = rev(o[L - 1]);
        h.pop_back();
        Prod dup = p; // every factor of the first half twice
        for (int i = 0; i < L; i++) dup[i] = p[i / 2];
        Prod dup2(dup.rbegin(), dup.rend());
        Prod tri = p; // other multiplicities of the same factors
        for (int i = 0; i < L; i++) tri[i] = p[std::max(0, i - L / 2)];
        check(cx, Ri{p, r, q, n, m, o, h, dup, tri, dup2, p}, L < 40);
        check(cx, Ri{dup, p, tri, dup2, n, q}, false);
      });
  // all pairs of propagators with five coefficients, and long coefficient lists that differ in one place only
  {
    std::vector<G> lines;
    for (int c = 0; c < 243; c++) {
      VI x;
      for (int y = c, i = 0; i < 5; i++, y /= 3) x.push_back(y % 3 - 1);
      lines.push_back(G({x[0], x[1], x[2]}, {x[3], x[4]}));
    }
    for (size_t i = 0; i < lines.size(); i++)
      cx.visit([&] { return "all pairs with " + vs(lines[i].alpha_) + ";" + vs(lines[i].eps_); }, [&] {
        for (size_t j = 0; j < lines.size(); j++) check(cx, Ri{{lines[i]}, {lines[j]}}, false);
      });
  }
  for (int n : {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 32, 33, 64, 65, 129})
    for (int na : {1, 3, 10})
      cx.visit([&] { return std::to_string(n) + " energies, " + std::to_string(na) + " frequencies, one difference"; }, [&] {
        G b(VI(n, 0), VI(na, 0));
        for (int i = 0; i < n; i++) b.eps_[i] = i % 3 ? 1 : -1;
        for (int i = 0; i < na; i++) b.alpha_[i] = i % 2 ? 1 : -1;
        for (int k = 0; k < n + na; k++)
          for (int v = -2; v <= 2; v++)
            for (int s : {1, -1}) {
              G g = b;
              for (auto &x : g.eps_) x *= s;
              for (auto &x : g.alpha_) x *= s;
              (k < n ? g.eps_[k] : g.alpha_[k - n]) = v;
              check(cx, Ri{{b}, {g}, {g, b}, {b, g, b}}, false);
            }
      });
  auto sol = [&](const Diagram &d) {
    cx.visit([&] { return show(d); }, [&] {
      AmiBase a;
      AmiBase::ami_parms p(d.N, 0);
      Spr s;
      a.construct(p, gprod(d), s.R, s.P, s.S);
      for (auto &r : s.R) check(cx, r, true);
      AmiBase::g_prod_t sp = gprod(d);
      for (size_t i = 0; i < sp.size(); i++) sp[i].species_ = (int)(i % 2);
      a.construct(p, sp, s.R, s.P, s.S);
      check(cx, s.R.back(), false);
    });
  };
  fam_mixed(cx.thorough, [&](const Diagram &d) { if (domain(d).valid) sol(d); });
  sol(example(6));
}
