// C08: order of elimination, order of lines, labels and sign conventions.
#include "fams.hpp"
// Rank of integer vectors restricted to the first N entries
static int rank_of(std::vector<std::vector<double>> m) {
  int r = 0;
  if (m.empty()) return 0;
  int N = (int)m[0].size();
  for (int c = 0; c < N; c++) {
    int p = -1;
    for (size_t i = r; i < m.size(); i++) if (std::fabs(m[i][c]) > 1e-9) { p = (int)i; break; }
    if (p < 0) continue;
    std::swap(m[r], m[p]);
    for (size_t i = 0; i < m.size(); i++)
      if ((int)i != r && std::fabs(m[i][c]) > 1e-9) {
        double f = m[i][c] / m[r][c];
        for (int j = 0; j < N; j++) m[i][j] -= f * m[r][j];
      }
    r++;
  }
  return r;
}
// Power counting: the multiple sum converges absolutely iff for every subspace of frequencies on which some
// lines do not depend, the number of lines that do depend exceeds its dimension.
static bool absolutely_convergent(const Diagram &d) {
  int L = (int)d.ls.size(), N = d.N;
  for (int mask = 0; mask < (1 << L); mask++) {
    std::vector<std::vector<double>> m;
    for (int i = 0; i < L; i++) if (mask >> i & 1) m.push_back(std::vector<double>(d.ls[i].a.begin(), d.ls[i].a.begin() + N));
    int r = rank_of(m), dep = 0;
    if (N - r == 0) continue;
    for (int i = 0; i < L; i++) {
      auto q = m;
      q.push_back(std::vector<double>(d.ls[i].a.begin(), d.ls[i].a.begin() + N));
      if (rank_of(q) > r) dep++;
    }
    if (dep <= N - r) return false;
  }
  return true;
}
static std::vector<VI> perms(int n) { std::vector<VI> r; VI p = iota(n); do r.push_back(p); while (std::next_permutation(p.begin(), p.end())); return r; }
static Diagram relabel(const Diagram &d, const VI &fp, const VI &ep, const VI &lp) {
  Diagram r = d;
  for (size_t i = 0; i < d.ls.size(); i++) {
    const LineS &s = d.ls[lp[i]];
    for (size_t j = 0; j < s.a.size(); j++) r.ls[i].a[fp[j]] = s.a[j];
    for (size_t j = 0; j < s.e.size(); j++) r.ls[i].e[ep[j]] = s.e[j];
  }
  return r;
}
static void one(Ctx &cx, const Diagram &d) {
  cx.visit([&] { return show(d); }, [&] {
    Domain D = domain(d);
    if (!D.valid) { cx.cnt["outside_domain"]++; return; }
    bool conv = d.ls.size() <= 7 && absolutely_convergent(d);
    AmiBase a;
    AmiBase::ami_parms p(d.N, 0);
    AmiBase::terms t;
    a.construct(p, gprod(d), t);
    int nE = d.E(), L = (int)d.ls.size();
    for (int k : {0, 4, 3}) {
      In x = at(d, points()[k]);
      auto v = x.vars();
      C want = a.evaluate(p, t, v);
      double sc = std::max(1e-22, term_scale(a, p, t, v));
      if (k == 0) {
        auto r = exact(x, D.multipole);
        if (r.ok) agree(cx, "exact", want, r.v, D.multipole ? deg_scale(a, p, t, v, r) : r.scale);
      }
      auto both = [&](const char *w, const In &y, C val) {
        AmiBase b;
        Spr s;
        AmiBase::terms u;
        auto vv = y.vars();
        b.construct(p, gprod(y.d), s.R, s.P, s.S);
        b.construct(p, gprod(y.d), u);
        cx.cnt["states"] += (long)u.size();
        cx.cnt["transitions"] += (long)u.size();
        double s2 = std::max(sc, term_scale(b, p, u, vv));
        agree(cx, (std::string(w) + "_spr").c_str(), b.evaluate(p, s.R, s.P, s.S, vv), val, s2);
        agree(cx, (std::string(w) + "_terms").c_str(), b.evaluate(p, u, vv), val, s2);
      };
      // order of the lines (all permutations up to 4 lines, rotations and the reversal beyond)
      std::vector<VI> lps;
      if (L <= 4) lps = perms(L);
      else {
        for (int s = 1; s < L; s++) { VI q(L); for (int i = 0; i < L; i++) q[i] = (i + s) % L; lps.push_back(q); }
        VI q(L);
        for (int i = 0; i < L; i++) q[i] = L - 1 - i;
        lps.push_back(q);
      }
      if (k == 0)
        for (auto &lp : lps) { In y = x; y.d = relabel(d, iota(d.F()), iota(nE), lp); both("line_order", y, want); }
      // order of the energies
      if (k == 0)
        for (auto &ep : nE <= 3 ? perms(nE) : std::vector<VI>{[&] { VI q(nE); for (int i = 0; i < nE; i++) q[i] = nE - 1 - i; return q; }(), [&] { VI q(nE); for (int i = 0; i < nE; i++) q[i] = (i + nE / 2) % nE; return q; }()}) {
          In y = x;
          y.d = relabel(d, iota(d.F()), ep, iota(L));
          for (int i = 0; i < nE; i++) y.E[ep[i]] = x.E[i];
          both("energy_order", y, want);
        }
      // reversed sign of a line: one factor -1
      for (int mask = 1; mask < (1 << std::min(L, 4)); mask++) {
        if (k && mask != 1 && mask != 3) continue;
        In y = x;
        double sg = 1;
        for (int i = 0; i < L; i++)
          if (mask >> i & 1) { for (auto &c : y.d.ls[i].a) c = -c; for (auto &c : y.d.ls[i].e) c = -c; sg = -sg; }
        both("line_sign", y, sg * want);
      }
      if (!conv) { cx.cnt["not_absolutely_convergent"]++; continue; }
      // labels of the summed frequencies, each with a sign
      for (auto &fp0 : perms(d.N))
        for (int mask = 0; mask < (1 << d.N); mask++) {
          if (d.N >= 3 && mask != 0 && mask != 1 && mask != (1 << d.N) - 1) continue;
          VI fp = fp0;
          for (int j = d.N; j < d.F(); j++) fp.push_back(j);
          In y = x;
          y.d = relabel(d, fp, iota(nE), iota(L));
          for (auto &l : y.d.ls) for (int j = 0; j < d.N; j++) if (mask >> j & 1) l.a[j] = -l.a[j];
          if (!domain(y.d).valid) { cx.cnt["relabelled_outside_domain"]++; continue; }
          both("frequency_labels", y, want);
          cx.cnt["relabelled"]++;
        }
      // order of elimination on the stored labels
      for (auto &od : perms(d.N)) {
        if (d.N < 2 || !domain(d, od).valid) continue;
        cx.cnt["orders"]++;
        AmiBase b;
        AmiBase::terms u{AmiBase::term(1.0, AmiBase::pole_array_t(), gprod(d))}, nx;
        Spr s;
        s.R.push_back({gprod(d)});
        for (int i = 0; i < d.N; i++) {
          b.integrate_step(od[i], u, nx);
          u = nx;
          b.update_gprod_general(od[i], i, s.R, s.P, s.S);
        }
        Fac f;
        b.factorize_Rn(s.R.back(), f.u, f.rr, f.el);
        double s2 = std::max(sc, term_scale(b, p, u, v));
        agree(cx, "order_terms", b.evaluate(p, u, v), want, s2);
        agree(cx, "order_spr", b.evaluate(p, s.R, s.P, s.S, v), want, s2);
        agree(cx, "order_spr_factorized", b.evaluate(p, s.R, s.P, s.S, v, f.u, f.rr, f.el), want, s2);
      }
    }
    cx.outcomes.insert(conv ? "convergent" : "conditional");
  });
}
void explore(Ctx &cx) {
  fam_mixed(cx.thorough, [&](const Diagram &d) { one(cx, d); });
  // dense set of absolutely convergent integrands
  for (auto &b : alphas(3))
    for (auto &c : alphas(3)) {
      one(cx, mk(2, {{1, 0, 0}, {0, 1, 0}, {1, 1, -1}, b, c}, {0, 1, 2, 3, 4}));
      if (cx.thorough || b <= c) one(cx, mk(2, {{1, 0, 0}, {0, 1, 0}, {1, 1, -1}, b, c}, {0, 1, 2, 0, 3}));
    }
  for (auto &b : alphas(4)) one(cx, mk(3, {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {1, -1, 1, 0}, {1, 1, 0, -1}, b}, {0, 1, 2, 3, 4, 5}));
}
