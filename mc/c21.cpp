// C21: the arrays and the terms are well formed, complete and truthful: own symbolic elimination (Leibniz rule
// by multi-indices), compared product by product as maps  (pole, derivative order, multiset of propagators) -> factor.
#include "fams.hpp"
#include <map>
typedef AmiBase::g_struct G;
typedef std::pair<VI, VI> L; // alpha, eps
typedef std::multiset<L> Pr;
static L key(const G &g) { return {g.alpha_, g.eps_}; }
static Pr pr(const AmiBase::g_prod_t &g) { Pr r; for (auto &x : g) r.insert(key(x)); return r; }
struct PK { int index, der; L p; bool operator<(const PK &o) const { return std::tie(index, der, p) < std::tie(o.index, o.der, o.p); } };
static PK pk(const AmiBase::pole_struct &p) { return PK{p.index_, p.der_, {p.alpha_, p.eps_}}; }
typedef std::map<std::pair<std::multiset<PK>, Pr>, std::pair<double, double>> Sum; // value, size
static void add(Sum &s, const std::multiset<PK> &p, const Pr &g, double w) { auto &x = s[{p, g}]; x.first += w; x.second += std::abs(w); }
static std::string sh(const Pr &g) { std::string r; for (auto &x : g) r += " " + vs(x.first) + ";" + vs(x.second); return r; }
static std::string sh(const std::multiset<PK> &g) { std::string r; for (auto &x : g) r += " [" + std::to_string(x.index) + "." + std::to_string(x.der) + " " + vs(x.p.first) + ";" + vs(x.p.second) + "]"; return r; }
static void same(Ctx &cx, const char *what, const Sum &got, const Sum &want) {
  for (auto &w : want) {
    auto it = got.find(w.first);
    double have = it == got.end() ? 0 : it->second.first, size = w.second.second + (it == got.end() ? 0 : it->second.second);
    cx.cnt["comparisons"]++;
    REQUIRE_(std::abs(have - w.second.first) <= 1e-12 * size, what << ": the term with poles" << sh(w.first.first) << " and propagators" << sh(w.first.second) << " has the factor " << have << ", must be " << w.second.first);
  }
  for (auto &w : got)
    if (!want.count(w.first)) REQUIRE_(std::abs(w.second.first) <= 1e-12 * w.second.second && w.second.second > 0, what << ": spurious term with poles" << sh(w.first.first) << " and propagators" << sh(w.first.second) << ", factor " << w.second.first);
}
struct Group { L p; std::vector<int> which; };
// the poles of a product
static std::vector<Group> poles(const AmiBase::g_prod_t &g, int k, bool drop) {
  std::map<L, std::vector<int>> m;
  for (size_t i = 0; i < g.size(); i++) {
    int c = g[i].alpha_[k];
    if (!c) continue;
    L p = key(g[i]);
    for (auto &x : p.first) x *= -c;
    for (auto &x : p.second) x *= -c;
    p.first[k] = 0;
    m[p].push_back((int)i);
  }
  std::vector<Group> r;
  for (auto &x : m) {
    int n = 0;
    bool z = true;
    for (int y : x.first.first) n += y != 0;
    for (int y : x.first.second) if (y) z = false;
    if (drop && z && n % 2) continue;
    r.push_back({x.first, x.second});
  }
  return r;
}
// all terms of the residue of a product at a pole
static void residue(const AmiBase::g_prod_t &g, int k, const Group &q, const std::multiset<PK> &before, double w, Sum &out) {
  int M = (int)q.which.size();
  std::vector<int> c;  // coefficients of k in the rest
  std::vector<L> sub;
  double s = w;
  for (size_t i = 0; i < g.size(); i++) {
    int a = g[i].alpha_[k];
    if (std::find(q.which.begin(), q.which.end(), (int)i) != q.which.end()) { s *= a; continue; }
    L l = key(g[i]);
    for (size_t j = 0; j < l.first.size(); j++) l.first[j] += a * q.p.first[j];
    for (size_t j = 0; j < l.second.size(); j++) l.second[j] += a * q.p.second[j];
    l.first[k] = 0;
    c.push_back(a);
    sub.push_back(l);
  }
  // (M-1)!^-1 d^(M-1)/dz^(M-1) of f * prod 1/l  =  sum over d, n_i with d + sum n_i = M-1 of f^(d)/d! * prod (-c_i)^n_i l_i^-(1+n_i)
  std::function<void(size_t, int, Pr, double)> rec = [&](size_t i, int left, Pr have, double f) {
    if (i == sub.size()) {
      double fd = 1;
      for (int d = 2; d <= left; d++) fd *= d;
      auto b = before;
      b.insert(PK{k, left, q.p});
      add(out, b, have, f / fd);
      return;
    }
    for (int n = 0; n <= (c[i] ? left : 0); n++) {
      have.insert(sub[i]);
      rec(i + 1, left - n, have, f);
      f *= -c[i];
    }
  };
  rec(0, M - 1, Pr(), s);
}
static bool unitary(const AmiBase::g_prod_t &g, int k) { for (auto &x : g) if (std::abs(x.alpha_[k]) > 1) return false; return true; }
static void truthful(const AmiBase::pole_struct &p, const std::vector<Group> &qs, int k) {
  for (auto &q : qs)
    if (q.p == L{p.alpha_, p.eps_}) {
      REQUIRE_(p.index_ == k, "pole of frequency " << k << " names frequency " << p.index_);
      REQUIRE_(p.multiplicity_ == (int)q.which.size(), "pole " << vs(p.alpha_) << vs(p.eps_) << " of order " << q.which.size() << " claims order " << p.multiplicity_);
      REQUIRE_(p.der_ >= 0 && p.der_ < p.multiplicity_, "pole of order " << p.multiplicity_ << " with derivative " << p.der_);
      VI w = p.which_g_;
      std::sort(w.begin(), w.end());
      REQUIRE_(w == q.which, "pole " << vs(p.alpha_) << vs(p.eps_) << " names the lines " << vs(w) << ", comes from " << vs(q.which));
      REQUIRE_(p.x_alpha_.empty(), "pole with spectral shift");
      return;
    }
  REQUIRE_(false, "pole " << vs(p.alpha_) << vs(p.eps_) << " of frequency " << k << " is none of the product");
}
static void well(Ctx &cx, const Diagram &d, const VI &order, bool drop) {
  cx.visit([&] { return show(d) + " order " + vs(order) + (drop ? "" : " keeping Matsubara poles"); }, [&] {
    AmiBase a;
    a.drop_matsubara_poles = drop;
    auto g = gprod(d);
    for (size_t i = 0; i < g.size(); i++) g[i].species_ = (int)i % 3;
    AmiBase::ami_parms par(d.N, 0);
    Spr s;
    bool natural = order == iota(d.N);
    if (natural) a.construct(par, g, s.R, s.P, s.S);
    else { s.R = {{g}}; for (int k = 0; k < d.N; k++) a.update_gprod_general(order[k], k, s.R, s.P, s.S); }
    int N = d.N, F = d.F(), E = d.E();
    REQUIRE_((int)s.R.size() == N + 1 && (int)s.P.size() == N && (int)s.S.size() == N, "array lengths " << s.R.size() << " " << s.P.size() << " " << s.S.size() << " for " << N << " sums");
    REQUIRE_(s.R[0].size() == 1 && s.R[0][0].size() == g.size(), "the first product is not the integrand");
    for (size_t i = 0; i < g.size(); i++) REQUIRE_(key(s.R[0][0][i]) == key(g[i]) && s.R[0][0][i].species_ == g[i].species_, "the first product is not the integrand");
    bool inside = true; // all coefficients in {-1,0,1}
    for (int k = 0; k < N; k++) {
      REQUIRE_(s.P[k].size() == s.R[k].size() && s.S[k].size() == s.R[k].size(), "step " << k << ": " << s.R[k].size() << " products, " << s.P[k].size() << " lists of poles, " << s.S[k].size() << " of signs");
      size_t n = 0;
      for (size_t j = 0; j < s.R[k].size(); j++) {
        REQUIRE_(s.P[k][j].size() == s.S[k][j].size(), "step " << k << " product " << j << ": " << s.P[k][j].size() << " poles, " << s.S[k][j].size() << " signs");
        cx.cnt["states"]++;
        auto &P = s.P[k][j];
        REQUIRE_(n + P.size() <= s.R[k + 1].size(), "step " << k << ": products are missing");
        if (unitary(s.R[k][j], order[k])) {
          auto qs = poles(s.R[k][j], order[k], drop);
          Sum got, want;
          for (auto &q : qs) residue(s.R[k][j], order[k], q, {}, 1, want);
          std::map<L, int> simple;
          for (size_t m = 0; m < P.size(); m++) {
            cx.cnt["transitions"]++;
            truthful(P[m], qs, order[k]);
            REQUIRE_(s.S[k][j][m] != 0, "a term with the factor 0");
            if (P[m].multiplicity_ == 1) REQUIRE_(simple[L(P[m].alpha_, P[m].eps_)]++ == 0, "a simple pole is taken twice");
            add(got, {pk(P[m])}, pr(s.R[k + 1][n + m]), s.S[k][j][m]);
          }
          same(cx, "one step", got, want);
          for (auto &q : qs) cx.mx["multiplicity"] = std::max(cx.mx["multiplicity"], (double)q.which.size());
        } else inside = false;
        for (size_t m = 0; m < P.size(); m++)
          for (auto &x : s.R[k + 1][n + m]) {
            REQUIRE_((int)x.alpha_.size() == F && (int)x.eps_.size() == E, "a propagator changes the number of its coefficients");
            for (int i = 0; i <= k; i++) REQUIRE_(!inside || x.alpha_[order[i]] == 0, "a summed frequency is still there");
          }
        n += P.size();
      }
      REQUIRE_(n == s.R[k + 1].size(), "step " << k << ": " << n << " poles, " << s.R[k + 1].size() << " products");
    }
    if (!inside) { cx.cnt["coefficients_beyond_one"]++; return; }
    // the terms: one pole of each frequency; as a sum they are the paths through the arrays
    AmiBase::terms t;
    if (natural) a.construct(par, g, t);
    else {
      AmiBase::terms cur{AmiBase::term(1, AmiBase::pole_array_t(), g)};
      for (int k : order) { a.integrate_step(k, cur, t); cur = t; }
      if (N == 0) t = cur;
    }
    Sum paths, list;
    for (auto &x : t) {
      REQUIRE_((int)x.p_list.size() == N, "a term has " << x.p_list.size() << " poles for " << N << " sums");
      std::set<int> seen;
      std::multiset<PK> b;
      for (auto &p : x.p_list) {
        REQUIRE_(seen.insert(p.index_).second && std::find(order.begin(), order.end(), p.index_) != order.end(), "a term must have one pole of each summed frequency");
        REQUIRE_(p.der_ >= 0 && p.der_ < p.multiplicity_ && (int)p.which_g_.size() == p.multiplicity_, "pole of order " << p.multiplicity_ << ", derivative " << p.der_ << ", from " << p.which_g_.size() << " lines");
        b.insert(pk(p));
      }
      REQUIRE_(x.sign != 0, "a term with the factor 0");
      add(list, b, pr(x.g_list), x.sign);
    }
    std::vector<std::pair<std::multiset<PK>, double>> cur{{{}, 1}};
    for (int k = 0; k < N; k++) {
      std::vector<std::pair<std::multiset<PK>, double>> nx;
      for (size_t j = 0; j < cur.size(); j++)
        for (size_t m = 0; m < s.P[k][j].size(); m++) {
          auto b = cur[j].first;
          b.insert(pk(s.P[k][j][m]));
          nx.push_back({b, cur[j].second * s.S[k][j][m]});
        }
      cur = nx;
    }
    for (size_t j = 0; j < cur.size(); j++) add(paths, cur[j].first, pr(s.R[N][j]), cur[j].second);
    same(cx, "terms against arrays", list, paths);
    // the products of the terms as factorization input
    AmiBase::Ri_t ri{{G({7}, {7})}};
    AmiBase::terms t2 = t;
    a.convert_terms_to_ri(t2, ri);
    REQUIRE_(ri.size() == t.size(), "convert_terms_to_ri: " << ri.size() << " products of " << t.size() << " terms");
    for (size_t i = 0; i < t.size(); i++) {
      REQUIRE_(ri[i].size() == t[i].g_list.size(), "convert_terms_to_ri: product " << i);
      for (size_t j = 0; j < ri[i].size(); j++) REQUIRE_(key(ri[i][j]) == key(t[i].g_list[j]) && ri[i][j].species_ == t[i].g_list[j].species_, "convert_terms_to_ri: product " << i);
    }
    cx.outcomes.insert(std::to_string(N) + " sums, " + std::to_string(std::min<size_t>(t.size(), 40)) + " terms");
  });
}
static void one(Ctx &cx, const Diagram &d, bool all_orders = true) {
  std::vector<VI> os;
  VI o = iota(d.N);
  do os.push_back(o); while (all_orders && std::next_permutation(o.begin(), o.end()));
  for (auto &x : os) for (int drop = 1; drop >= 0; drop--) well(cx, d, x, drop);
}
void explore(Ctx &cx) {
  bool T = cx.thorough;
  fam_mixed(T, [&](const Diagram &d) { one(cx, d, d.N <= 3); });
  const auto &A2 = alphas(2), &A3 = alphas(3);
  for (auto &b : A2) for (auto &c : A2) for (auto &d : A2) for (auto &e : A2) {
    if (!(d <= e)) continue;
    partitions(4, [&](const VI &q) { if (T || q == iota(4) || q[0] == q[1] || q[2] == q[3]) one(cx, mk(2, {b, c, d, e}, q)); });
  }
  for (auto &b : A3) for (auto &c : A3) for (auto &d : A3)
    for (auto &q : std::vector<VI>{{0, 1, 2}, {0, 1, 0}, {0, 0, 0}}) one(cx, mk(3, {b, c, d}, q), T);
  // lines with combined, opposite and absent energies
  const auto &B = alphas(2);
  for (auto &e1 : B) for (auto &e2 : B) for (auto &e3 : B)
    for (auto &b : A2) {
      Diagram d;
      d.N = 1;
      d.ls = {{{1, 0}, e1}, {{-1, 0}, e2}, {b, e3}};
      one(cx, d);
      d.ls = {{{1, 1}, e1}, {b, e2}, {{1, 1}, e3}};
      d.N = 2;
      one(cx, d);
      for (int pad : {2, 6}) { // long lists of energies, also such that cancel altogether
        Diagram w;
        w.N = 1;
        w.ls = {{{1, 0}, e1}, {b, e2}, {{1, 1}, e3}, {{0, 1}, e1}};
        for (auto &l : w.ls) for (int i = 0; i < pad; i++) l.e.insert(i % 2 ? l.e.begin() : l.e.end(), 0);
        one(cx, w);
      }
    }
  // multiplicities with bystanders on both sides
  for (int m = 1; m <= 6; m++)
    for (int n = 0; n <= (m > 4 ? 1 : 3); n++)
      for (int sg = 0; sg < 4; sg++)
        for (auto &b : A2) for (auto &c : std::vector<VI>{{1, 1}, {-1, 1}, {0, 1}}) {
          Diagram d;
          d.N = m + n > 5 ? 1 : 2;
          d.ls.push_back({b, {0, 0, 1}});
          for (int i = 0; i < m; i++) { int s = (sg & 1) && i % 2 ? -1 : 1; d.ls.push_back({{s, 0}, {s, 0, 0}}); }
          d.ls.push_back({c, {0, 1, 1}});
          for (int i = 0; i < n; i++) { int s = (sg & 2) && i % 2 == 0 ? -1 : 1; d.ls.push_back({{s * c[0], s * c[1]}, {0, s, 0}}); }
          one(cx, d, m + n <= 4);
        }
  one(cx, example(6), false);
  if (T) one(cx, example(9), false);
}
