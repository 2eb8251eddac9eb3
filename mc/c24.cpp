// C24: the public building blocks, each against its own definition, over all small arguments.
#include "lib.hpp"
typedef AmiBase::g_struct G;
typedef AmiBase::pole_struct Q;
typedef AmiBase::energy_t En;
static void numbers(Ctx &cx) {
  for (int n = 0; n <= 29; n++)
    cx.visit([&] { return "binomial coefficients of " + std::to_string(n); }, [&] {
      std::vector<long long> row{1};
      for (int i = 0; i < n; i++) { row.push_back(1); for (size_t k = row.size() - 2; k > 0; k--) row[k] += row[k - 1]; }
      for (int k = 0; k <= n; k++) {
        AmiBase a;
        long long v = a.binomialCoeff(n, k);
        REQUIRE_(v == row[k], "C(" << n << "," << k << ") = " << v << ", expected " << row[k]);
        cx.cnt["comparisons"]++;
      }
    });
  for (int n = 0; n <= 20; n++)
    cx.visit([&] { return "factorial of " + std::to_string(n); }, [&] {
      AmiBase a;
      long long f = 1;
      for (int i = 2; i <= n; i++) f *= i;
      REQUIRE_(a.factorial(n) == (double)f, "factorial " << a.factorial(n) << ", expected " << f);
      cx.cnt["comparisons"]++;
    });
  for (int r = 0; r <= 12; r++) // f_rk = sum_m C(k,m) m^r (-1)^(k-m) = k! S(r,k)
    cx.visit([&] { return "derivative coefficients of order " + std::to_string(r); }, [&] {
      std::vector<long long> s(16, 0); // k! S(r,k) by T(r,k) = k (T(r-1,k) + T(r-1,k-1))
      s[0] = 1;
      for (int i = 1; i <= r; i++) { for (int k = 15; k > 0; k--) s[k] = k * (s[k] + s[k - 1]); s[0] = 0; }
      for (int k = 0; k <= r; k++) {
        AmiBase a;
        double v = a.frk(r, k), size = 1;
        for (int m = 0; m <= k; m++) size = std::max(size, std::pow((double)m, r) * std::tgamma(k + 1.0) / std::tgamma(m + 1.0) / std::tgamma(k - m + 1.0));
        REQUIRE_(std::fabs(v - (double)s[k]) <= 1e-14 * size, "frk(" << r << "," << k << ") = " << v << ", expected " << s[k]);
        cx.cnt["comparisons"]++;
      }
    });
  cx.visit([] { return std::string("sign function"); }, [&] {
    AmiBase a;
    for (int i = -5; i <= 5; i++) REQUIRE_(a.sgn(i) == (i > 0) - (i < 0), "sgn of " << i);
    for (double x : {1e-300, 1e-8, 0.5, 1e300}) REQUIRE_(a.sgn(x) == 1 && a.sgn(-x) == -1, "sgn of " << x);
    REQUIRE_(a.sgn(0.0) == 0 && a.sgn(-0.0) == 0, "sgn of zero");
    cx.cnt["comparisons"] += 17;
  });
}
static std::vector<VI> cube(int n, int lo, int hi) {
  std::vector<VI> r{VI()};
  for (int i = 0; i < n; i++) { std::vector<VI> s; for (auto &x : r) for (int v = lo; v <= hi; v++) { s.push_back(x); s.back().push_back(v); } r = s; }
  return r;
}
static VI neg(VI v) { for (auto &x : v) x = -x; return v; }
// comparisons of propagators and poles: all pairs
static void pairs(Ctx &cx) {
  struct L { VI a, e; int sp; };
  std::vector<L> all;
  for (auto &a : cube(2, -1, 1)) for (auto &e : cube(2, -2, 2)) for (int s = 0; s < 2; s++) all.push_back({a, e, s});
  for (auto &a : cube(1, -2, 2)) for (auto &e : cube(3, -1, 1)) all.push_back({a, e, 0});
  for (auto &a : cube(3, -1, 1)) all.push_back({a, {}, 0});
  for (auto &e : cube(2, -1, 1)) all.push_back({{}, e, 0});
  for (int off : {7, 8, 31, 32, 63, 64, 127}) for (int v : {1, -1, 2, 127, 128, 255, 256, 257, 65536, 65537}) { VI e(off + 2, 0), b{1, 0}; e[off] = v; e[0] = 1; all.push_back({b, e, 0}); e[0] = -1; all.push_back({b, e, 0}); }
  if (cx.thorough) for (auto &a : cube(3, -1, 1)) for (auto &e : cube(3, -1, 1)) all.push_back({a, e, 0});
  for (size_t i = 0; i < all.size(); i++)
    cx.visit([&] { return "comparisons with alpha " + vs(all[i].a) + " eps " + vs(all[i].e) + " species " + std::to_string(all[i].sp); }, [&] {
      AmiBase a;
      const L &x = all[i];
      for (auto &y : all) {
        G g(x.e, x.a), h(y.e, y.a);
        Q p(x.e, x.a), q(y.e, y.a);
        bool eq = x.a == y.a && x.e == y.e, op = x.a == neg(y.a) && x.e == neg(y.e);
        REQUIRE_(a.g_equiv(g, h) == eq, "g_equiv with " << vs(y.a) << vs(y.e) << " is " << !eq);
        REQUIRE_(a.pole_equiv(p, q) == eq, "pole_equiv with " << vs(y.a) << vs(y.e) << " is " << !eq);
        REQUIRE_(a.isEqual(x.e, y.e) == (x.e == y.e) && a.isEqual(x.a, y.a) == (x.a == y.a), "isEqual with " << vs(y.e));
        g.species_ = x.sp;
        h.species_ = y.sp;
        int s = 5;
        bool got = a.g_struct_equiv(g, h, s), want = x.sp == y.sp && (eq || op);
        REQUIRE_(got == want, "g_struct_equiv with " << vs(y.a) << vs(y.e) << " species " << y.sp << " is " << got);
        if (want) REQUIRE_(s == (eq ? 1 : -1), "sign " << s << " of " << vs(y.a) << vs(y.e));
        REQUIRE_(g.eps_ == x.e && h.alpha_ == y.a && g.species_ == x.sp, "a comparison changed its argument");
        cx.cnt["comparisons"] += 4;
      }
      cx.cnt["states"]++;
      cx.cnt["transitions"] += (long)all.size();
    });
}
// lists of references: equal as multisets of indices, signs are the products
static void lists(Ctx &cx) {
  typedef AmiBase::ref_v_t V;
  std::vector<V> all{V()};
  for (size_t b = 0, n = 1; n <= 3; n++) {
    size_t e = all.size();
    for (; b < e; b++) for (int i = 0; i < (n < 3 || cx.thorough ? 3 : 2); i++) for (int s : {1, -1}) { all.push_back(all[b]); all.back().push_back({i, s}); }
  }
  for (int n : {4, 5, 8}) for (int w = 0; w < 64; w++) { V v; for (int i = 0; i < n; i++) v.push_back({(w >> (i % 6) & 1) ? (i * 5 + w) % n : n - 1 - i, (w * 7 + i) % 3 ? 1 : -1}); all.push_back(v); V r(v.rbegin(), v.rend()); all.push_back(r); }
  for (size_t i = 0; i < all.size(); i++)
    cx.visit([&] { std::string s = "list of references"; for (auto &r : all[i]) s += " " + std::to_string(r.first) + (r.second < 0 ? "-" : "+"); return s; }, [&] {
      AmiBase a;
      for (auto &y0 : all) {
        V x = all[i], y = y0;
        std::multiset<int> mx, my;
        int sx = 1, sy = 1, s1 = 7, s2 = 7;
        for (auto &r : x) { mx.insert(r.first); sx *= r.second; }
        for (auto &r : y) { my.insert(r.first); sy *= r.second; }
        bool got = a.pair_v_equiv(x, y, s1, s2);
        REQUIRE_(got == (mx == my), "comparison with a list of " << y.size() << " references is " << got);
        if (got) REQUIRE_(s1 == sx && s2 == sy, "signs " << s1 << " " << s2 << ", expected " << sx << " " << sy);
        REQUIRE_(x == all[i] && y == y0, "the comparison changed its argument");
        cx.cnt["comparisons"]++;
      }
      cx.cnt["states"]++;
    });
}
// sums of coefficients times energies; numbers without rounding
static void energies_(Ctx &cx) {
  std::vector<VI> es = cube(3, -2, 2);
  for (int n : {1, 2, 9, 33, 65}) { VI e(n, 0); e[n - 1] = -3; es.push_back(e); for (int i = 0; i < n; i++) e[i] = i % 5 - 2; es.push_back(e); }
  es.push_back({});
  for (auto &e : es)
    cx.visit([&] { return "energy of " + vs(e); }, [&] {
      AmiBase a;
      for (int k = 0; k < 4; k++) {
        En E;
        C want = 0;
        for (size_t i = 0; i < e.size() + (k == 3 ? 2 : 0); i++) E.push_back(C((double)((int)(i * 37 + k * 11) % 64 - 31) / 16, k == 1 ? 0 : (double)((int)(i * 13 + k) % 16 - 7) / 8));
        for (size_t i = 0; i < e.size(); i++) want += E[i] * (double)e[i];
        AmiBase::ami_vars v(E, {C(0, 1), C(0.5, 0)}, 2.0);
        REQUIRE_(a.get_energy_from_g(G(e, {1, 1}), v) == want, "of the propagator: " << a.get_energy_from_g(G(e, {1, 1}), v) << ", expected " << want);
        REQUIRE_(a.get_energy_from_pole(Q(e, {0, 1}), v) == want, "of the pole: " << a.get_energy_from_pole(Q(e, {0, 1}), v) << ", expected " << want);
        cx.cnt["comparisons"] += 2;
      }
    });
  std::vector<VI> al = cube(2, -1, 1);
  for (auto &b : al) for (auto &c : al) for (auto &d : al)
    cx.visit([&] { return "signs of " + vs(b) + vs(c) + vs(d); }, [&] {
      AmiBase a;
      AmiBase::g_prod_t g{G({1}, b), G({1}, c), G({1}, d)};
      for (int k = 0; k < 2; k++) {
        AmiBase::sign_t want;
        for (auto &x : g) if (x.alpha_[k]) want.push_back(x.alpha_[k]);
        REQUIRE_(a.find_signs(k, g) == want, "of frequency " << k);
        for (int i = 0; i < 3; i++) {
          Q q;
          q.index_ = k;
          q.which_g_ = {i};
          REQUIRE_(a.get_simple_sign(k, g, q) == g[i].alpha_[k], "simple sign of line " << i);
        }
        cx.cnt["comparisons"] += 4;
      }
    });
}
// detection of numerical coincidences: the first level with any, and everything there
static void detect(Ctx &cx) {
  std::vector<VI> es{{0, 0, 0}, {1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, -1, 0}, {0, 1, 1}, {-2, 0, 1}};
  std::vector<En> nums{{1, 1, 0}, {1, 2, 2}, {0.5, -0.5, 1}, {C(1, 1), C(1, -1), C(0, 2)}, {2, 3, 7}, {0, 1, 1}, {C(0, 1), C(0, 1), 3}, {1, C(1, 1e-9), 2}, {1, 1 + 1e-9, 2 + 1e-9}};
  std::vector<AmiBase::Ri_t> levels;
  auto prod = [&](std::vector<int> k) { AmiBase::g_prod_t g; for (int i : k) g.push_back(G(es[i], {i % 2, 1})); return g; };
  levels.push_back({});
  levels.push_back({prod({})});
  int n = (int)es.size();
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { levels.push_back({prod({i, j})}); levels.push_back({prod({3, i}), prod({j, 4, i})}); }
  for (int i = 0; i < n; i++) levels.push_back({prod({i, (i + 1) % n, (i + 2) % n, (i + 5) % n}), prod({}), prod({i})});
  std::vector<AmiBase::R_t> all;
  for (auto &l : levels) { all.push_back({l}); all.push_back({{prod({1, 3})}, l}); all.push_back({{prod({4})}, {prod({3, 6}), prod({1})}, l}); all.push_back({l, levels[(all.size() * 7) % levels.size()]}); }
  if (cx.thorough) for (auto &l : levels) for (auto &m : levels) all.push_back({l, m});
  all.push_back({});
  for (size_t w = 0; w < all.size(); w++)
    cx.visit([&] { std::ostringstream o; o << "detection in"; for (auto &l : all[w]) { o << " |"; for (auto &p : l) { o << " {"; for (auto &g : p) o << vs(g.eps_); o << "}"; } } return o.str(); }, [&] {
      for (auto &E : nums) {
        AmiBase a;
        AmiBase::R_t R = all[w];
        AmiBase::P_t P;
        AmiBase::S_t S;
        AmiBase::ami_parms p(1, 0);
        AmiBase::ami_vars v(E, {0, C(0, 1)}, 2.0);
        auto val = [&](const VI &e) { C s = 0; for (size_t i = 0; i < e.size(); i++) s += (double)e[i] * E[i]; return s; };
        auto zero = [](const VI &e) { for (int x : e) if (x) return false; return true; };
        std::set<VI> t, q;
        for (size_t i = 0; i < R.size() && t.empty(); i++)
          for (size_t j = 0; j < R[i].size(); j++)
            for (size_t m = 0; m < R[i][j].size(); m++)
              if (!zero(R[i][j][m].eps_) && val(R[i][j][m].eps_) == C(0)) t.insert({(int)i, (int)j, (int)m});
        for (size_t i = 0; i < R.size() && q.empty(); i++)
          for (size_t j = 0; j < R[i].size(); j++)
            for (size_t m = 0; m < R[i][j].size(); m++)
              for (size_t k = m + 1; k < R[i][j].size(); k++) {
                VI x = R[i][j][m].eps_, y = R[i][j][k].eps_;
                if (x == y) continue;
                C u = val(x), z = val(y);
                if (u == z) q.insert({(int)i, (int)j, (int)m, (int)k, 1});
                else if (u == -z && x != neg(y)) q.insert({(int)i, (int)j, (int)m, (int)k, -1});
              }
        std::vector<std::vector<int>> gt{{9, 9, 9}}, gq{{9, 9, 9, 9, 9}}; // old contents must not survive
        a.get_triggers(p, R, P, S, v, gt);
        a.find_equal_values(p, R, v, gq);
        auto str = [](const std::set<VI> &s) { std::string r; for (auto &x : s) r += vs(x); return r; };
        std::set<VI> st(gt.begin(), gt.end()), sq(gq.begin(), gq.end());
        REQUIRE_(st == t && gt.size() == t.size(), "vanishing energies at " << str(st) << ", expected " << str(t) << " for energies " << E[0] << E[1] << E[2]);
        REQUIRE_(sq == q && gq.size() == q.size(), "equal values at " << str(sq) << ", expected " << str(q) << " for energies " << E[0] << E[1] << E[2]);
        cx.cnt["comparisons"] += 2;
        cx.outcomes.insert(std::to_string(t.size()) + "/" + std::to_string(q.size()));
      }
      cx.cnt["states"] += (long)nums.size();
    });
}
void explore(Ctx &cx) {
  numbers(cx);
  pairs(cx);
  lists(cx);
  energies_(cx);
  detect(cx);
}
