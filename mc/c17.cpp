// C17: every elimination step is an exact identity.  The statistical function is replaced by the rational
// test function 1/(w - z); then the sum of the residues of F(z) h(z) at the poles of h is h(w), for every
// product h that contains the frequency.  Checked in the field of integers modulo 2^61 - 1.
#include "fams.hpp"
typedef unsigned long long U;
static const U P = (1ULL << 61) - 1;
static U mul(U a, U b) { return (U)((unsigned __int128)a * b % P); }
static U add(U a, U b) { U s = a + b; return s >= P ? s - P : s; }
static U sub(U a, U b) { return a >= b ? a - b : a + P - b; }
static U pw(U a, U e) { U r = 1; for (; e; e >>= 1, a = mul(a, a)) if (e & 1) r = mul(r, a); return r; }
static U inv(U a) { return pw(a, P - 2); }
static U fi(long v) { return v >= 0 ? (U)v % P : P - (U)(-v) % P; }
static U rnd(U &s) { s += 0x9e3779b97f4a7c15ULL; U z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return (z ^ (z >> 31)) % P; }
struct Pnt { std::vector<U> nu, E; U w; };
static U val(const VI &a, const VI &e, const Pnt &p) {
  U r = 0;
  for (size_t i = 0; i < a.size(); i++) r = add(r, mul(fi(a[i]), p.nu[i]));
  for (size_t i = 0; i < e.size(); i++) r = add(r, mul(fi(e[i]), p.E[i]));
  return r;
}
struct Singular {};
static U prod(const AmiBase::g_prod_t &g, const Pnt &p) {
  U d = 1;
  for (auto &x : g) d = mul(d, val(x.alpha_, x.eps_, p));
  if (d == 0) throw Singular();
  return inv(d);
}
static U frac(double s) { // the exact rational number n/(M-1)! nearest to s
  double f = 1;
  for (int k = 1; k <= 13; k++) {
    f *= k;
    double n = s * f;
    if (std::fabs(n) < 1e15 && std::fabs(n - std::round(n)) <= 1e-13 * std::max(1.0, std::fabs(n)) && (n == 0 || std::round(n) != 0)) return mul(fi((long)std::round(n)), inv(fi((long)f)));
  }
  REQUIRE_(false, "sign " << s << " is not a fraction with a small factorial as denominator");
}
static U test(const AmiBase::pole_struct &q, const Pnt &p) { // F^(der)(z0)
  U z = val(q.alpha_, q.eps_, p), f = 1;
  REQUIRE_(q.der_ >= 0 && q.der_ < 40, "derivative counter " << q.der_);
  for (int i = 2; i <= q.der_; i++) f = mul(f, fi(i));
  return mul(f, inv(pw(sub(p.w, z), q.der_ + 1)));
}
static bool contains(const AmiBase::g_prod_t &g, int k) {
  for (auto &x : g) if (x.alpha_[k]) return true;
  return false;
}
static bool coefok(const AmiBase::g_prod_t &g) {
  for (auto &x : g) {
    bool z = true;
    for (int a : x.alpha_) { if (a > 1 || a < -1) return false; if (a) z = false; }
    for (int e : x.eps_) if (e) z = false;
    if (z) return false;
  }
  return true;
}
static Pnt point(int F, int E, int n, const Diagram &d) {
  U s = 77 + n * 1000003ULL + d.ls.size();
  Pnt p;
  for (int i = 0; i < F; i++) p.nu.push_back(rnd(s));
  for (int i = 0; i < E; i++) p.E.push_back(rnd(s));
  p.w = rnd(s);
  return p;
}
static U expected(const AmiBase::g_prod_t &g, int k, const Pnt &p) {
  if (!contains(g, k)) return 0; // no pole, no residue
  Pnt q = p;
  q.nu[k] = p.w;
  return prod(g, q);
}
static U opaque(const AmiBase::pole_struct &q) { // any value that depends on the pole only
  U s = 0x1234567 + q.der_ * 7919 + q.index_ * 104729;
  for (int a : q.alpha_) s = s * 1099511628211ULL + (a + 5);
  for (int a : q.eps_) s = s * 1099511628211ULL + (a + 100);
  return rnd(s);
}
// follow the elimination in the given order on the real step function
static void spr(Ctx &cx, const Diagram &d, const VI &order) {
  AmiBase a;
  a.drop_matsubara_poles = false;
  Spr s;
  s.R.push_back({gprod(d)});
  int st = 0;
  for (int k : order) {
    a.update_gprod_general(k, st, s.R, s.P, s.S);
    REQUIRE_((int)s.R.size() == st + 2 && (int)s.P.size() == st + 1 && (int)s.S.size() == st + 1, "sizes of the arrays after step " << st);
    REQUIRE_(s.P[st].size() == s.R[st].size() && s.S[st].size() == s.R[st].size(), "one row per product");
    size_t cur = 0;
    for (size_t j = 0; j < s.R[st].size(); j++) {
      size_t m = s.P[st][j].size();
      REQUIRE_(s.S[st][j].size() == m && cur + m <= s.R[st + 1].size(), "rows of S, P and R do not match");
      bool dom = coefok(s.R[st][j]);
      if (dom)
        for (int n = 0; n < 2; n++) {
          Pnt p = point(d.F(), d.E(), n, d);
          try {
            U e = expected(s.R[st][j], k, p), t = 0;
            for (size_t i = 0; i < m; i++) {
              REQUIRE_(s.P[st][j][i].alpha_[k] == 0, "a pole contains its own frequency");
              REQUIRE_(!contains(s.R[st + 1][cur + i], k), "a product still contains the eliminated frequency");
              t = add(t, mul(frac(s.S[st][j][i]), mul(test(s.P[st][j][i], p), prod(s.R[st + 1][cur + i], p))));
            }
            cx.cnt["comparisons"]++;
            REQUIRE_(t == e, "S,P,R step " << st << " (frequency " << k << ") of product " << j << ": the sum of the terms is not the sum of the residues");
            cx.outcomes.insert(std::to_string(m));
          } catch (Singular &) { cx.cnt["singular_points"]++; }
        }
      else cx.cnt["outside_domain"]++;
      cur += m;
      cx.cnt["states"]++;
      cx.cnt["transitions"] += m;
    }
    REQUIRE_(cur == s.R[st + 1].size(), "products without pole");
    st++;
    if (s.R[st].size() > 3000) break;
  }
}
static void trm(Ctx &cx, const Diagram &d, const VI &order) {
  AmiBase a;
  a.drop_matsubara_poles = false;
  AmiBase::terms cur{AmiBase::term(1, AmiBase::pole_array_t(), gprod(d))}, nx;
  for (size_t st = 0; st < order.size(); st++) {
    int k = order[st];
    AmiBase::terms all;
    for (size_t j = 0; j < cur.size(); j++) {
      AmiBase::terms in{cur[j]};
      a.integrate_step(k, in, nx);
      REQUIRE_(in.size() == 1 && in[0].g_list.size() == cur[j].g_list.size() && in[0].sign == cur[j].sign, "the input was changed");
      if (coefok(cur[j].g_list))
        for (int n = 0; n < 2; n++) {
          Pnt p = point(d.F(), d.E(), n, d);
          try {
            U e = mul(frac(cur[j].sign), expected(cur[j].g_list, k, p)), t = 0;
            for (auto &q : cur[j].p_list) e = mul(e, opaque(q));
            for (auto &x : nx) {
              U y = mul(frac(x.sign), prod(x.g_list, p));
              int here = 0;
              for (auto &q : x.p_list) {
                if (q.index_ == k) { y = mul(y, test(q, p)); here++; }
                else y = mul(y, opaque(q));
              }
              REQUIRE_(here == 1 && x.p_list.size() == cur[j].p_list.size() + 1, "a term must gain exactly one pole per step");
              t = add(t, y);
            }
            cx.cnt["comparisons"]++;
            REQUIRE_(t == e, "terms step " << st << " (frequency " << k << ") of term " << j << ": the sum of the terms is not the sum of the residues");
          } catch (Singular &) { cx.cnt["singular_points"]++; }
        }
      else cx.cnt["outside_domain"]++;
      all.insert(all.end(), nx.begin(), nx.end());
      cx.cnt["states"]++;
      cx.cnt["transitions"] += nx.size();
    }
    // the whole list at once
    a.integrate_step(k, cur, nx);
    REQUIRE_(nx.size() == all.size(), "step on the list gives " << nx.size() << " terms, on its elements " << all.size());
    for (int n = 0; n < 1; n++) {
      Pnt p = point(d.F(), d.E(), n, d);
      try {
        U s1 = 0, s2 = 0;
        for (int w = 0; w < 2; w++)
          for (auto &x : w ? nx : all) {
            U y = mul(frac(x.sign), prod(x.g_list, p));
            for (auto &q : x.p_list) y = mul(y, opaque(q));
            (w ? s1 : s2) = add(w ? s1 : s2, y);
          }
        REQUIRE_(s1 == s2, "step on the list differs from the steps on its elements");
      } catch (Singular &) {}
    }
    cur = nx;
    if (cur.size() > 3000) break;
  }
}
static void one(Ctx &cx, const Diagram &d, const std::vector<VI> &orders) {
  for (auto &o : orders) cx.visit([&] { return show(d) + " order " + vs(o); }, [&] { spr(cx, d, o); trm(cx, d, o); });
}
static std::vector<VI> orders(int F) {
  std::vector<VI> r;
  VI v = iota(F);
  do r.push_back(v); while (std::next_permutation(v.begin(), v.end()));
  return r;
}
// ---- the building blocks of a step: substitution of a pole, separation of a term, signs, equality
static AmiBase::pole_struct pole(const VI &a, const VI &e, int index) { AmiBase::pole_struct p(e, a); p.index_ = index; return p; }
static void blocks(Ctx &cx, int F, int E) {
  const auto &A = alphas(F), &B = alphas(E);
  for (auto &pa : A)
    for (int k = 0; k < F; k++) {
      if (pa[k]) continue; // a pole does not contain its own frequency
      cx.visit([&] { return "substitution of pole " + vs(pa) + " for frequency " + std::to_string(k) + ", " + std::to_string(E) + " energies"; }, [&] {
        AmiBase a;
        Pnt p = point(F, E, 3, Diagram());
        for (auto &pe : B) {
          AmiBase::pole_struct z = pole(pa, pe, k);
          z.which_g_ = {0};
          Pnt q = p;
          q.nu[k] = val(pa, pe, p);
          for (auto &ga : A)
            for (auto &ge : B) {
              AmiBase::g_struct g(ge, ga), g2;
              g.species_ = 3;
              g2 = a.update_G_pole(g, z);
              REQUIRE_(val(g2.alpha_, g2.eps_, p) == val(ga, ge, q) && g2.alpha_[k] == 0, "update_G_pole of " << vs(ga) << ";" << vs(ge) << " with pole energies " << vs(pe) << " gives " << vs(g2.alpha_) << ";" << vs(g2.eps_));
              AmiBase::pole_struct y = a.update_Z_pole(pole(ga, ge, k), z);
              REQUIRE_(val(y.alpha_, y.eps_, p) == val(ga, ge, q) && y.alpha_[k] == 0, "update_Z_pole of " << vs(ga) << ";" << vs(ge) << " with pole energies " << vs(pe) << " gives " << vs(y.alpha_) << ";" << vs(y.eps_));
              bool eq = ga == pa && ge == pe;
              REQUIRE_(a.pole_equiv(pole(ga, ge, k), z) == eq && a.pole_equiv(z, pole(ga, ge, k)) == eq, "pole_equiv of " << vs(ga) << ";" << vs(ge) << " and " << vs(pa) << ";" << vs(pe));
              REQUIRE_(a.g_equiv(g, AmiBase::g_struct(pe, pa)) == eq, "g_equiv of " << vs(ga) << ";" << vs(ge) << " and " << vs(pa) << ";" << vs(pe));
              cx.cnt["comparisons"] += 4;
            }
        }
      });
    }
}
static void separation(Ctx &cx) {
  const auto &A = alphas(2);
  for (auto &b : A) for (auto &c : A) for (auto &d : A)
    cx.visit([&] { return "separation of " + vs(b) + vs(c) + vs(d); }, [&] {
      AmiBase a;
      for (int k = 0; k < 2; k++) {
        AmiBase::term t(-0.5, {pole(c, {1, 0, 0}, 1), pole(d, {0, 1, 0}, 1), pole(b, {0, 0, 1}, 1)}, gprod(mk(1, {b, c, d}, {0, 1, 2})));
        AmiBase::term in(3, t.p_list, t.g_list), ac(4, t.p_list, t.g_list); // with old contents
        a.split_term(t, pole({0, 0}, {1, 0, 0}, k), in, ac);
        REQUIRE_(t.g_list.size() == 3 && t.p_list.size() == 3 && t.sign == -0.5, "split_term changes its input");
        REQUIRE_(in.sign * ac.sign == -0.5 && in.g_list.size() + ac.g_list.size() == 3 && in.p_list.size() + ac.p_list.size() == 3, "the two parts of a term do not multiply to the term");
        for (int w = 0; w < 2; w++) {
          for (auto &g : w ? ac.g_list : in.g_list) REQUIRE_((g.alpha_[k] != 0) == (w == 1), "a propagator is in the wrong part");
          for (auto &g : w ? ac.p_list : in.p_list) REQUIRE_((g.alpha_[k] != 0) == (w == 1), "a pole is in the wrong part");
        }
        U want = prod(t.g_list, point(2, 3, 1, Diagram())), got = mul(prod(in.g_list, point(2, 3, 1, Diagram())), prod(ac.g_list, point(2, 3, 1, Diagram())));
        REQUIRE_(want == got, "the propagators of the two parts are not those of the term");
        // signs and poles of a product
        AmiBase::g_prod_t g = gprod(mk(1, {b, c, d}, {0, 1, 2}));
        AmiBase::sign_t sg = a.find_signs(k, g), ws;
        for (auto &x : g) if (x.alpha_[k]) ws.push_back(x.alpha_[k]);
        REQUIRE_(sg == ws, "find_signs");
        AmiBase::pole_array_t ps = a.find_poles(k, g);
        size_t n = 0;
        for (size_t i = 0; i < g.size(); i++) {
          if (!g[i].alpha_[k]) continue;
          REQUIRE_(n < ps.size(), "a pole is missing");
          AmiBase::pole_struct z = ps[n++];
          REQUIRE_(z.index_ == k && z.multiplicity_ == 1 && z.der_ == 0 && z.which_g_ == std::vector<int>{(int)i}, "pole " << n << " does not name the line it comes from");
          Pnt p = point(2, 3, 2, Diagram());
          p.nu[k] = val(z.alpha_, z.eps_, p);
          REQUIRE_(z.alpha_[k] == 0 && val(g[i].alpha_, g[i].eps_, p) == 0, "the line does not vanish at its pole");
          REQUIRE_(a.get_simple_sign(k, g, z) == g[i].alpha_[k] && a.get_starting_sign(g, z) == g[i].alpha_[k], "sign of a simple pole");
          AmiBase::g_prod_t r = a.reduce_gprod(g, z), s = a.simple_residue(g, z);
          REQUIRE_(r.size() == 2 && s.size() == 2, "a residue has one line less");
          Pnt q = p;
          REQUIRE_(mul(prod(r, q), 1) == prod(s, q), "simple_residue is not the rest of the product at the pole");
        }
        REQUIRE_(n == ps.size(), "too many poles");
        // the step restricted to simple poles
        Spr x, y;
        x.R = y.R = {{g}};
        if (k == 0) {
          a.update_gprod_simple(0, x.R, x.P, x.S);
          a.update_gprod_general(0, 0, y.R, y.P, y.S);
          REQUIRE_(x.S == y.S && x.R[1].size() == y.R[1].size() && x.P[0][0].size() == y.P[0][0].size(), "update_gprod_simple and update_gprod_general differ");
          for (size_t i = 0; i < x.R[1].size(); i++)
            for (size_t j = 0; j < x.R[1][i].size(); j++) REQUIRE_(a.g_equiv(x.R[1][i][j], y.R[1][i][j]), "update_gprod_simple and update_gprod_general differ");
        }
        // energies
        AmiBase::ami_vars v({C(0.5, 1), C(-2, 0.25), C(8, -4)}, {C(0), C(0)}, 1);
        for (auto &e : alphas(3)) {
          C w = 0;
          for (int i = 0; i < 3; i++) w += double(e[i]) * v.energy_[i];
          REQUIRE_(a.get_energy_from_g(AmiBase::g_struct(e, b), v) == w && a.get_energy_from_pole(AmiBase::pole_struct(e, c), v) == w, "energy of a line or pole");
        }
        cx.cnt["comparisons"] += 12;
      }
    });
}
void explore(Ctx &cx) {
  bool T = cx.thorough;
  for (int F = 1; F <= 3; F++) for (int E = 1; E <= (F == 3 ? 2 : 3); E++) blocks(cx, F, E);
  separation(cx);
  fam_wide([&](const Diagram &d) { one(cx, d, {iota(d.N)}); }, 129);
  for (auto &b : alphas(1)) for (auto &c : alphas(1)) partitions(2, [&](const VI &q) { one(cx, mk(1, {b, c}, q), {{0}}); });
  auto o2 = orders(2), o3 = orders(3), o4 = orders(4);
  const auto &A2 = alphas(2), &A3 = alphas(3), &A4 = alphas(4);
  for (auto &b : A2) for (auto &c : A2) for (auto &d : A2) {
    partitions(3, [&](const VI &q) { one(cx, mk(2, {b, c, d}, q), o2); });
    for (int big : {100, 40000, 300000000}) { // energies that occur many times
      Diagram w = mk(2, {b, c, d}, {0, 1, 2});
      for (size_t i = 0; i < 3; i++) for (int &x : w.ls[i].e) x *= i == 1 ? big : big / 2;
      one(cx, w, {{1, 0}});
    }
    for (auto &e : A2) {
      if (!T && !(d <= e)) continue;
      partitions(4, [&](const VI &q) { if (T || q[0] == q[1] || q[2] == q[3] || q == iota(4)) one(cx, mk(2, {b, c, d, e}, q), {{0, 1}}); });
    }
  }
  for (auto &b : A3) for (auto &c : A3) {
    for (auto &d : A3) {
      if (!T && !(c <= d)) continue;
      partitions(3, [&](const VI &q) { one(cx, mk(3, {b, c, d}, q), {{0, 1, 2}}); });
    }
    for (auto &q : std::vector<VI>{{0, 1, 2, 3, 4}, {0, 1, 0, 1, 0}, {0, 0, 0, 1, 1}}) one(cx, mk(3, {{1, 0, 0}, b, {0, 1, 0}, c, {0, 0, 1}}, q), T ? o3 : std::vector<VI>{{0, 1, 2}, {2, 0, 1}});
  }
  for (size_t i = 0; i < A4.size(); i++)
    for (size_t j = i; j < A4.size(); j += T ? 1 : 3)
      for (auto &q : std::vector<VI>{{0, 1, 2, 3, 4}, {0, 1, 2, 0, 1}})
        one(cx, mk(4, {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, A4[i], A4[j]}, q), T ? o4 : std::vector<VI>{{0, 1, 2, 3}, {3, 1, 0, 2}});
  // repeated propagators: every pattern of signs, multiplicities up to 7
  for (int m = 2; m <= 7; m++)
    for (int sg = 0; sg < (1 << m); sg++)
      for (auto &b : A2) {
        if (m > 4 && b[0] == 0) continue;
        if (m > 6 && !T && sg % 5) continue;
        Diagram d;
        d.N = 2;
        for (int i = 0; i < m; i++) { int s = sg >> i & 1 ? -1 : 1; d.ls.push_back({{s, s * b[1]}, {s, 0}}); }
        d.ls.insert(d.ls.begin() + m / 2, {{b[0], 1}, {1, 1}});
        one(cx, d, {m > 4 ? VI{0} : VI{0, 1}});
      }
  // two groups of repeated propagators with bystanders
  for (int m = 1; m <= 3; m++)
    for (int n = 1; n <= 3; n++)
      for (auto &b : A2)
        for (auto &c : A2) {
          std::vector<VI> a;
          VI q;
          for (int i = 0; i < m; i++) { a.push_back({i % 2 ? -1 : 1, 0}); q.push_back(0); }
          for (int i = 0; i < n; i++) { a.push_back(b); q.push_back(1); }
          a.push_back(c);
          q.push_back(2);
          Diagram d = mk(2, a, q);
          for (int i = 1; i < m; i += 2) for (auto &x : d.ls[i].e) x = -x;
          one(cx, d, {{0}, {1}});
        }
  for (int e : {2, 3, 4, 5, 6}) one(cx, example(e), {iota(example(e).N)});
  if (T) one(cx, example(9), {iota(9)});
}
