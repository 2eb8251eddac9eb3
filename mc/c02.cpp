// C02: coinciding poles (any multiplicity pattern), SPR and term-by-term forms, against the exact sum.
#include "fams.hpp"
static void one(Ctx &cx, const Diagram &d, std::vector<int> pts) {
  cx.visit([&] { return show(d); }, [&] {
    Domain D = domain(d);
    if (!D.valid) { cx.cnt["outside_domain"]++; return; }
    if (!D.multipole) cx.cnt["simple_only"]++;
    cx.mx["max_multiplicity"] = std::max(cx.mx["max_multiplicity"], (double)D.max_mult);
    AmiBase a;
    AmiBase::ami_parms p(d.N, 0);
    Spr s;
    AmiBase::terms t;
    a.construct(p, gprod(d), s.R, s.P, s.S);
    a.construct(p, gprod(d), t);
    cx.cnt["states"] += count_states(s) + (long)t.size();
    cx.cnt["transitions"] += count_trans(s) + (long)t.size();
    for (int k : pts) {
      In x = at(d, points()[k]);
      auto r = exact(x, true);
      if (!r.ok) { cx.cnt["reference_singular"]++; continue; }
      auto v = x.vars();
      double sc = deg_scale(a, p, t, v, r);
      REQUIRE_(r.err <= 1e-10 * sc + 1e-290, "reference not converged: " << r.err << " of " << sc << " " << r.v);
      agree(cx, "spr", a.evaluate(p, s.R, s.P, s.S, v), r.v, sc);
      agree(cx, "terms", a.evaluate(p, t, v), r.v, sc);
      std::ostringstream o;
      o.precision(3);
      o << r.v;
      if (cx.outcomes.size() < 64) cx.outcomes.insert(o.str());
    }
  });
}
// lines a[i] each repeated m[i] times
static Diagram rep(int N, const std::vector<VI> &a, const VI &m, bool interleave = false) {
  std::vector<VI> x;
  VI part;
  if (!interleave) {
    for (size_t i = 0; i < a.size(); i++) for (int k = 0; k < m[i]; k++) { x.push_back(a[i]); part.push_back((int)i); }
  } else {
    for (int k = 0; k < 99; k++) for (size_t i = 0; i < a.size(); i++) if (k < m[i]) { x.push_back(a[i]); part.push_back((int)i); }
  }
  return mk(N, x, part);
}
// every second repetition with reversed frequency and energy (the same pole, opposite sign)
static Diagram flip(Diagram d, int mask) {
  for (size_t i = 0; i < d.ls.size(); i++)
    if (mask >> i & 1) { for (auto &x : d.ls[i].a) x = -x; for (auto &x : d.ls[i].e) x = -x; }
  return d;
}
void explore(Ctx &cx) {
  bool T = cx.thorough;
  std::vector<int> all = {0, 1, 2, 3, 4, 5}, few = {0, 3}, single = {1};
  // every set partition of the energies over every choice of lines
  for (int L = 2; L <= (T ? 5 : 4); L++) {
    const auto &A = alphas(2);
    std::vector<VI> a(L);
    std::function<void(int, size_t)> rec = [&](int i, size_t lo) {
      if (i == L) { partitions(L, [&](const VI &q) { one(cx, mk(1, a, q), L <= 3 ? all : few); }); return; }
      for (size_t x = L <= 3 ? 0 : lo; x < A.size(); x++) { a[i] = A[x]; rec(i + 1, x); }
    };
    rec(0, 0);
  }
  { // two sums: all partitions of up to 4 lines
    const auto &A = alphas(3);
    for (auto &b : A) partitions(3, [&](const VI &q) { one(cx, mk(2, {{1, 0, 0}, {0, 1, 0}, b}, q), all); });
    for (size_t i = 0; i < A.size(); i++)
      for (size_t j = i; j < A.size(); j++)
        partitions(4, [&](const VI &q) { one(cx, mk(2, {{1, 0, 0}, {0, 1, 0}, A[i], A[j]}, q), few); });
    if (T)
      for (size_t i = 0; i < A.size(); i++)
        for (size_t j = i; j < A.size(); j++)
          for (auto &b : {VI{1, 0, 0}, VI{0, 1, 0}, VI{1, 1, -1}, VI{1, -1, 0}, VI{1, -1, 1}})
            partitions(5, [&](const VI &q) { one(cx, mk(2, {{1, 0, 0}, {0, 1, 0}, b, A[i], A[j]}, q), single); });
  }
  { // three sums
    const auto &A = alphas(4);
    for (size_t i = 0; i < A.size(); i++)
      for (size_t j = i; j < A.size(); j++) {
        static const std::vector<VI> parts = {{0, 1, 2, 0, 1}, {0, 0, 1, 2, 2}, {0, 1, 2, 3, 3}, {0, 0, 0, 1, 1}, {0, 1, 1, 0, 2}, {0, 0, 0, 0, 0}};
        for (auto &q : parts) one(cx, mk(3, {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, A[i], A[j]}, q), single);
      }
  }
  // explicit multiplicities
  const auto &A2 = alphas(2);
  for (auto &b : A2)
    for (int m = 1; m <= (T ? 9 : 7); m++) {
      one(cx, rep(1, {b}, {m}), few);
      for (auto &c : A2)
        for (int n = 1; n <= (T ? 5 : 4); n++) {
          one(cx, rep(1, {b, c}, {m, n}), single);
          if (m <= 4) one(cx, rep(1, {b, c}, {m, n}, true), few);
        }
    }
  // all sign patterns of repeated lines
  for (auto &b : A2)
    for (int m = 2; m <= 4; m++)
      for (int mask = 0; mask < (1 << m); mask++) {
        one(cx, flip(rep(1, {b}, {m}), mask), few);
        for (auto &c : A2) one(cx, flip(rep(1, {b, c}, {m, 2}), mask | (mask << m)), single);
      }
  for (auto &b : alphas(3))
    for (int m = 1; m <= 3; m++)
      for (int n = 1; n <= 3; n++)
        for (int q = 1; q <= 2; q++) {
          Diagram d = rep(2, {{1, 0, 0}, {0, 1, 0}, b}, {m, n, q});
          one(cx, d, few);
          one(cx, flip(d, 0x25), single);
          if (T || (m + n + q) <= 5)
            for (auto &c : alphas(3)) one(cx, rep(2, {{1, 0, 0}, {0, 1, 0}, b, c}, {m, n, q, 1}), single);
        }
  for (auto &b : alphas(4)) {
    one(cx, rep(3, {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, b}, {2, 1, 1, 1}), few);
    one(cx, rep(3, {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, b}, {1, 2, 2, 1}), few);
    one(cx, rep(3, {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, b}, {1, 1, 2, 2}), single);
    if (T) one(cx, rep(3, {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, b}, {3, 1, 1, 2}), single);
  }
  one(cx, example(4), all);
  fam_wide([&](const Diagram &d) { one(cx, d, few); }, 129);
  for (int m : {8, 9, 10}) one(cx, rep(1, {{1, 0}, {0, 1}}, {m, 1}), {0, 1, 3});
  one(cx, rep(1, {{1, 0}, {1, -1}}, {8, 1}), {0});
}
