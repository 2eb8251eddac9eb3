// C22: evaluation means the documented formula for any conformal arrays, also such as no construction produces
// (stored, merged, edited or hand-written solutions): own evaluation along the paths through the arrays.
#include "forms.hpp"
typedef AmiBase::g_struct G;
typedef AmiBase::pole_struct Q;
static const int F = 4, E = 3; // three summed frequencies and the external one
static Q pole(VI e, VI a, int der, int index) { Q q(e, a); q.der_ = der; q.index_ = index; q.multiplicity_ = der + 1; q.which_g_ = VI(der + 1, 0); return q; }
// alphabets
static const std::vector<Q> &pool() {
  static std::vector<Q> p = {pole({1, 0, 0}, {0, 0, 0, 0}, 0, 0), pole({-1, 1, 0}, {0, 1, 0, 0}, 0, 0), pole({0, 1, 1}, {0, -1, 1, 1}, 0, 0), pole({1, 0, -1}, {0, 0, 1, -1}, 0, 0),
                             pole({0, -1, 0}, {0, 0, 0, 1}, 1, 0), pole({2, 0, 1}, {0, 0, 0, 0}, 2, 0), pole({0, 0, -1}, {0, 1, 1, 0}, 3, 0), pole({1, 1, 1}, {0, -1, 0, 0}, 1, 0)};
  if (p.size() == 8) { // poles with spectral frequencies, next to such that differ in them only
    auto x = [&](Q q, VI xa) { q.x_alpha_ = xa; p.push_back(q); };
    x(p[0], {0, 0, 0, 1}); x(p[0], {0, 0, 0, -1}); x(p[0], {1, -1, 0, 1}); p.push_back(p[4]); x(p[4], {0, 1, 0, 1}); x(p[4], {0, 0, 0, 2}); x(p[2], {1}); p.push_back(p[2]); x(p[2], {0, 0, 0, 1});
  }
  return p;
}
static const std::vector<G> &gool() {
  static std::vector<G> g = {G({1, 0, 0}, {0, 0, 0, 1}), G({0, -1, 0}, {0, 0, 0, -1}), G({1, 1, 0}, {0, 0, 0, 0}), G({-1, 0, 2}, {1, 0, 0, 1}), G({0, 0, 0}, {0, 1, -1, 1}), G({0, 3, -1}, {0, 0, 0, 2}),
                             G({1, 0, 0}, {0, 1, 0, 1}), G({1, 0, 0}, {1, 0, 0, 1}), G({1, 1, 0}, {0, 1, -1, 0})}; // differing in one frequency only
  return g;
}
static const std::vector<double> SG = {1, -1, 0.5, -2, 1.0 / 6, 0};
// an enumerated source of contents: digits of a counter, then a fixed continuation
struct Src {
  std::vector<int> dig;
  size_t i = 0;
  long mixed;
  int next(int n) { int d = i < dig.size() ? dig[i] % n : (int)((mixed + (long)i * i * 7 + 3 * (long)i) % n); i++; return d; }
};
static C qv(const Q &q, const AmiBase::ami_vars &v) {
  C e = 0;
  int n = 0;
  for (size_t i = 0; i < q.eps_.size(); i++) e += double(q.eps_[i]) * v.energy_[i];
  for (size_t i = 0; i < q.x_alpha_.size(); i++) e += double(q.x_alpha_[i]) * v.frequency_[i];
  for (int c : q.alpha_) n += c != 0;
  return num::todbl(stat_::deriv(q.der_, n % 2 ? -1 : 1, v.BETA_, e));
}
static std::vector<AmiBase::ami_vars> pts() {
  std::vector<AmiBase::ami_vars> r;
  r.push_back(AmiBase::ami_vars({C(0.73, 0), C(-1.21, 0), C(0.39, 0)}, {C(0), C(0), C(0), C(0.2, 1.3)}, 1.7));
  r.push_back(AmiBase::ami_vars({C(-2.1, 0.3), C(0.6, -0.2), C(1.4, 0.1)}, {C(0.4, 0.1), C(-0.3, 0.7), C(0.9, -0.2), C(-0.6, 0.4)}, 3.1, -2.5));
  r.push_back(AmiBase::ami_vars({C(1.9, 0), C(0.2, 0), C(-0.8, 0)}, {C(0), C(0), C(0), C(0, M_PI / 0.3)}, 0.3, 0.1));
  return r;
}
static AmiBase::g_prod_t product(Src &s, int max) { AmiBase::g_prod_t g; int n = s.next(max + 1); for (int i = 0; i < n; i++) g.push_back(gool()[s.next((int)gool().size())]); return g; }
struct Hand { Spr s; int N; };
static Hand arrays(int N, const std::vector<int> &shape, Src &src) { // shape: numbers of poles of the products, step by step
  Hand h;
  h.N = N;
  h.s.R.push_back({product(src, 2)});
  size_t at = 0;
  for (int k = 0; k < N; k++) {
    AmiBase::Pi_t P;
    AmiBase::Si_t S;
    AmiBase::Ri_t R;
    for (size_t j = 0; j < h.s.R[k].size(); j++) {
      AmiBase::pole_array_t p;
      AmiBase::sign_t s;
      int n = shape[at++ % shape.size()];
      for (int m = 0; m < n; m++) {
        Q q = pool()[src.next((int)pool().size())];
        q.index_ = k;
        p.push_back(q);
        s.push_back(SG[src.next((int)SG.size())]);
        R.push_back(product(src, 3));
      }
      P.push_back(p);
      S.push_back(s);
    }
    h.s.P.push_back(P);
    h.s.S.push_back(S);
    h.s.R.push_back(R);
  }
  return h;
}
static std::vector<C> weights(const Hand &h, const AmiBase::ami_vars &v) {
  std::vector<C> cur{C(1)};
  for (int k = 0; k < h.N; k++) {
    std::vector<C> nx;
    for (size_t j = 0; j < cur.size(); j++)
      for (size_t m = 0; m < h.s.P[k][j].size(); m++) nx.push_back(cur[j] * h.s.S[k][j][m] * qv(h.s.P[k][j][m], v));
    cur = nx;
  }
  return cur;
}
// hand-written factorization: groups of references with factors
static Fac groups(int n, Src &src) {
  Fac f;
  int nu = 1 + src.next(4);
  for (int i = 0; i < nu; i++) f.u.push_back(gool()[src.next((int)gool().size())]);
  int ng = 1 + src.next(3);
  for (int i = 0; i < ng; i++) {
    AmiBase::ref_v_t r, e;
    int a = src.next(4), b = 1 + src.next(3);
    for (int j = 0; j < a; j++) r.push_back({src.next(nu), 1});
    for (int j = 0; j < b && n; j++) e.push_back({src.next(n), std::vector<int>{1, -1, 2, -3, 128, -300, 70000}[src.next(7)]});
    for (int j = 0; n && j < src.next(3); j++) e.insert(e.begin() + src.next((int)e.size()), e[src.next((int)e.size())]); // a member listed twice, in a row or not
    if (n && src.next(2)) e.push_back(e.back());
    f.rr.push_back(r);
    f.el.push_back(e);
  }
  return f;
}
static C gval_(const AmiBase::g_struct &g, const AmiBase::ami_vars &v) { return gval(g, v); }
static std::pair<C, double> grouped(const Fac &f, const std::vector<C> &w, const AmiBase::ami_vars &v) {
  C s = 0;
  double z = 0;
  for (size_t i = 0; i < f.el.size(); i++) {
    C g = 1, k = 0;
    double ka = 0;
    for (auto &r : f.rr[i]) g *= gval_(f.u[r.first], v);
    for (auto &e : f.el[i]) { k += w[e.first] * double(e.second); ka += std::abs(w[e.first] * double(e.second)); }
    s += k * g * v.prefactor;
    z += ka * std::abs(g * v.prefactor);
  }
  return {s, z};
}
// k-th derivative with respect to the last frequency of prod 1/(a nu + b): sum over the orders of the factors
static C dprod(const AmiBase::g_prod_t &g, const AmiBase::ami_vars &v, int k, size_t from = 0) {
  if (from == g.size()) return k ? C(0) : C(1);
  C s = 0, y = gval(g[from], v);
  double a = g[from].alpha_.back();
  double binom = 1;
  C d = y; // j-th derivative of this factor
  for (int j = 0; j <= k; j++) {
    s += binom * d * dprod(g, v, k - j, from + 1);
    d *= -a * y * double(j + 1);
    binom = binom * (k - j) / (j + 1);
  }
  return s;
}
static std::pair<C, double> derived(const Fac &f, const std::vector<C> &w, const AmiBase::ami_vars &v, int k) {
  C s = 0;
  double z = 0;
  for (size_t i = 0; i < f.el.size(); i++) {
    AmiBase::g_prod_t g;
    for (auto &r : f.rr[i]) g.push_back(f.u[r.first]);
    double big = 1;
    for (auto &x : g) big *= std::abs(gval(x, v));
    for (int j = 0; j < k; j++) { double m = 0; for (auto &x : g) m = std::max(m, std::abs(gval(x, v)) * std::abs(x.alpha_.back())); big *= m * (g.size() + j); }
    C kk = 0;
    double ka = 0;
    for (auto &e : f.el[i]) { kk += w[e.first] * double(e.second); ka += std::abs(w[e.first] * double(e.second)); }
    s += kk * dprod(g, v, k) * v.prefactor;
    z += ka * big * std::abs(v.prefactor);
  }
  return {s, z};
}
static void hand(Ctx &cx, int N, const std::vector<int> &shape, const Src &src0) {
  cx.visit([&] { return "hand-written arrays, " + std::to_string(N) + " sums, shape " + vs(shape) + " contents " + vs(src0.dig) + "/" + std::to_string(src0.mixed); }, [&] {
    Src src = src0;
    Hand h = arrays(N, shape, src);
    AmiBase a;
    AmiBase::ami_parms p(N, 0);
    int n = (int)h.s.R[N].size();
    Fac f = groups(n, src);
    AmiBase::g_prod_t extra = product(src, 3);
    cx.cnt["states"] += count_states(h.s);
    cx.cnt["transitions"] += count_trans(h.s);
    for (auto v : pts()) {
      auto w = weights(h, v);
      C want = 0;
      double sc = 0;
      for (int i = 0; i < n; i++) { C t = w[i] * gp(h.s.R[N][i], v) * v.prefactor; want += t; sc += std::abs(t); }
      if (N == 0) { want = gp(h.s.R[0][0], v) * v.prefactor; sc = std::abs(want); }
      sc = std::max(sc, 1e-250);
      agree(cx, "spr", a.evaluate(p, h.s.R, h.s.P, h.s.S, v), want, sc, 1e-11);
      agree(cx, "otf", a.evaluate_otf(p, h.s.R, h.s.P, h.s.S, v), want, sc, 1e-11);
      if (n > 0 || N == 0) {
        auto g = grouped(f, w, v);
        agree(cx, "spr_factorized", a.evaluate(p, h.s.R, h.s.P, h.s.S, v, f.u, f.rr, f.el), g.first, std::max(g.second, 1e-250), 1e-11);
      }
      // the same paths as terms, each with its own list of poles, in reverse order of the poles
      AmiBase::terms t;
      {
        std::vector<AmiBase::term> cur{AmiBase::term(1, {}, h.s.R[0][0])};
        for (int k = 0; k < N; k++) {
          std::vector<AmiBase::term> nx;
          size_t c = 0;
          for (size_t j = 0; j < cur.size(); j++)
            for (size_t m = 0; m < h.s.P[k][j].size(); m++) {
              AmiBase::term y = cur[j];
              y.sign *= h.s.S[k][j][m];
              y.p_list.insert(y.p_list.begin(), h.s.P[k][j][m]);
              y.g_list = h.s.R[k + 1][c++];
              nx.push_back(y);
            }
          cur = nx;
        }
        t = cur;
      }
      agree(cx, "terms", a.evaluate(p, t, v), want, sc, 1e-11);
      C total = 0;
      for (size_t i = 0; i < t.size(); i++) {
        C one = w[i] * gp(t[i].g_list, v) * v.prefactor, fp = 1;
        for (auto &q : t[i].p_list) fp *= qv(q, v);
        double os = std::max(1e-250, std::abs(one));
        C got = a.evaluate_term(p, t[i], v);
        agree(cx, "term", got, one, os, 1e-11);
        agree(cx, "fprod", a.eval_fprod(p, t[i].p_list, v), fp, std::max(1e-250, std::abs(fp)), 1e-11);
        C gg = gp(t[i].g_list, v) * v.prefactor;
        agree(cx, "gprod", a.eval_gprod(p, t[i].g_list, v), gg, std::abs(gg), 1e-12);
        total += got;
      }
      if (!t.empty()) {
        auto g = grouped(f, w, v);
        agree(cx, "terms_factorized", a.evaluate(p, t, v, f.u, f.rr, f.el), g.first, std::max(g.second, 1e-250), 1e-11);
        // derivatives of the hand-written factorization
        Fac d = f;
        for (int k = 1; k <= 3; k++) {
          a.derivative_opt(d.u, d.rr, d.el);
          auto y = derived(f, w, v, k);
          double ds = std::max(1e-13, y.second);
          agree(cx, "derivative_terms", a.evaluate(p, t, v, d.u, d.rr, d.el), y.first, ds, 1e-10);
          agree(cx, "derivative_spr", a.evaluate(p, h.s.R, h.s.P, h.s.S, v, d.u, d.rr, d.el), y.first, ds, 1e-10);
        }
      }
      // the operators between the arrays
      if (N >= 1) {
        std::vector<AmiBase::SorF_t> sf;
        for (int k = 0; k < N; k++) {
          auto fe = a.fermi(p, h.s.P[k], v);
          REQUIRE_(fe.size() == h.s.P[k].size(), "fermi: shape");
          for (size_t j = 0; j < fe.size(); j++) {
            REQUIRE_(fe[j].size() == h.s.P[k][j].size(), "fermi: shape");
            for (size_t m = 0; m < fe[j].size(); m++) { C y = qv(h.s.P[k][j][m], v); agree(cx, "fermi", fe[j][m], y, std::max(1e-250, std::abs(y)), 1e-11); }
          }
          auto dt = a.dot(h.s.S[k], fe);
          REQUIRE_(dt.size() == fe.size(), "dot: shape");
          for (size_t j = 0; j < dt.size(); j++) {
            REQUIRE_(dt[j].size() == fe[j].size(), "dot: shape");
            for (size_t m = 0; m < dt[j].size(); m++) agree(cx, "dot", dt[j][m], h.s.S[k][j][m] * fe[j][m], std::max(1e-250, std::abs(fe[j][m])), 1e-14);
          }
          sf.push_back(dt);
        }
        if (N >= 2 && !sf[0][0].empty()) {
          auto cr = a.cross(sf[0], sf[1]);
          REQUIRE_(cr.size() == 1, "cross: shape");
          size_t c = 0;
          for (size_t j = 0; j < sf[0][0].size(); j++)
            for (auto &z : sf[1][j]) { REQUIRE_(c < cr[0].size(), "cross: shape"); C y = sf[0][0][j] * z; agree(cx, "cross", cr[0][c++], y, std::max(1e-250, std::abs(y)), 1e-14); }
          REQUIRE_(c == cr[0].size(), "cross: shape");
        }
        AmiBase::SorF_t K{w};
        agree(cx, "star", a.star(p, K, h.s.R[N], v), want, sc, 1e-11);
        if (n > 0) {
          auto g = grouped(f, w, v);
          agree(cx, "optimized_star", a.optimized_star(p, K, f.u, f.rr, f.el, v), g.first, std::max(g.second, 1e-250), 1e-11);
        }
      }
    }
  });
}
// many paths: sizes beyond the range of sixteen bits
static void many(Ctx &cx, int n, int m) {
  cx.visit([&] { return std::to_string(n) + " times " + std::to_string(m) + " paths"; }, [&] {
    AmiBase a;
    AmiBase::ami_parms p(2, 0);
    AmiBase::ami_vars v = pts()[0];
    std::vector<C> pv, gv;
    for (auto &q : pool()) pv.push_back(qv(q, v));
    for (auto &g : gool()) gv.push_back(gval(g, v));
    Spr s;
    s.R.resize(3); s.P.resize(2); s.S.resize(2);
    s.R[0].resize(1); s.P[0].resize(1); s.S[0].resize(1);
    AmiBase::terms t;
    C want = 0, fact = 0;
    double sc = 0, fsc = 0;
    Fac f;
    f.u = gool();
    f.rr.resize(6); f.el.resize(6);
    for (int i = 0; i < 6; i++) f.rr[i] = {{i, 1}};
    for (int i = 0, c = 0; i < n; i++) {
      int a0 = (i * 5 + i / 100) % 8;
      double s0 = 1 + 0.01 * i;
      s.R[1].push_back({});
      s.P[0][0].push_back(pool()[a0]);
      s.S[0][0].push_back(s0);
      s.P[1].emplace_back(); s.S[1].emplace_back();
      for (int j = 0; j < m; j++, c++) {
        int a1 = (j * 3 + i * 7 + c / 1000) % 8, b = (c / 7 + j) % 6;
        double s1 = (c % 11 < 5 ? -1 : 1) * (1 + 1e-5 * c);
        s.P[1][i].push_back(pool()[a1]);
        s.S[1][i].push_back(s1);
        s.R[2].push_back({gool()[b]});
        t.push_back(AmiBase::term(s0 * s1, {pool()[a1], pool()[a0]}, {gool()[b]}));
        C w = pv[a0] * s0 * pv[a1] * s1 * gv[b] * v.prefactor;
        want += w;
        sc += std::abs(w);
        f.el[b].push_back({c, 1 + c % 3});
        fact += double(1 + c % 3) * w;
        fsc += 3 * std::abs(w);
      }
    }
    agree(cx, "many spr", a.evaluate(p, s.R, s.P, s.S, v), want, sc);
    agree(cx, "many otf", a.evaluate_otf(p, s.R, s.P, s.S, v), want, sc);
    agree(cx, "many terms", a.evaluate(p, t, v), want, sc);
    agree(cx, "many spr factorized", a.evaluate(p, s.R, s.P, s.S, v, f.u, f.rr, f.el), fact, fsc);
    agree(cx, "many terms factorized", a.evaluate(p, t, v, f.u, f.rr, f.el), fact, fsc);
    cx.cnt["states"] += (long)n * m;
  });
}
void explore(Ctx &cx) {
  bool T = cx.thorough;
  for (auto &nm : std::vector<std::pair<int, int>>{{16, 16}, {1, 257}, {257, 1}, {129, 2}, {256, 128}, {256, 257}, {300, 300}, {70000, 1}, {1, 70000}}) many(cx, nm.first, nm.second);
  // one sum: every pair of poles, signs and the first lines of the products; other contents in a fixed rotation
  for (int q0 = 0; q0 < 17; q0++) for (int s0 = 0; s0 < 6; s0++) for (int n0 = 0; n0 < 4; n0++)
    for (int r = 0; r < (T ? 60 : 12); r++)
      for (auto &sh : std::vector<VI>{{1}, {2}, {3}, {5}}) {
        // digits: integrand (none), then pole, sign, product...
        hand(cx, 1, sh, Src{{0, q0, s0, n0}, 0, r * 101 + q0 + 11 * s0});
      }
  for (int r = 0; r < 40; r++) { hand(cx, 0, {1}, Src{{}, 0, r}); hand(cx, 1, {0}, Src{{}, 0, r}); }
  // two and three sums: every shape with up to two (three) poles per product, also products without poles
  for (int c = 0; c < 256; c++) {
    VI sh;
    int y = c;
    for (int i = 0; i < 4; i++) { sh.push_back(y % 4); y /= 4; }
    for (int r = 0; r < (T ? 100 : 16); r++) hand(cx, 2, sh, Src{{}, 0, r * 37 + c});
  }
  for (int c = 0; c < 2187; c++) {
    VI sh;
    int y = c;
    for (int i = 0; i < 7; i++) { sh.push_back(y % 3); y /= 3; }
    for (int r = 0; r < (T ? 24 : 3); r++) hand(cx, 3, sh, Src{{}, 0, r * 53 + c});
  }
}
