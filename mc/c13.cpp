// C13: the overflow indicator, per evaluation and over histories of evaluations on one object.
#include "forms.hpp"
// ---- 1. all inputs: one evaluation
static void one(Ctx &cx, const Diagram &d) {
  cx.visit([&] { return show(d); }, [&] {
    if (!domain(d).valid) { cx.cnt["outside_domain"]++; return; }
    AmiBase a;
    All o;
    build(a, d, o);
    cx.cnt["states"] += count_states(o.s);
    int E = d.E();
    VI us; // the energies in use, of long lists the first and last four
    for (int i = 0; i < E; i++) for (auto &l : d.ls) if (l.e[i]) { us.push_back(i); break; }
    if (us.size() > 8) us.erase(us.begin() + 4, us.end() - 4);
    for (int k : {0, 2, 4}) {
      In x = at(d, points()[k]);
      for (int i = 0; i < E; i++) x.E[i] += C(0.0137 * (i + 1) * (i + 1), 0);
      for (int u = -1; u < (int)us.size(); u++)
        for (double del : {0.0, 1e-3, 1e-9, 1e-14}) { // energies that (nearly) vanish, coincide or are opposite
          int j = u < 0 ? -1 : us[u];
          if (j < 0 && del != 0) continue;
          for (int how = 0; how < (j < 0 ? 1 : 3); how++) {
            auto v = x.vars();
            if (j >= 0) {
              int q = us[(u + 1) % us.size()];
              if (how && q == j) continue;
              v.energy_[j] = how == 0 ? C(del, 0) : how == 1 ? v.energy_[q] + del : -v.energy_[q] + del;
            }
            int n = 0;
            for (double cut : {1e15, 1e6, 20.0, 1e-2}) {
              a.precision_cutoff = cut;
              v.prefactor = n++ & 1 ? -3.0 : 1.0;
              for (int f = 0; f < NF; f++) {
                C r = ev(a, o, v, f);
                judge(cx, a, o, v, f, r);
                cx.cnt["transitions"]++;
              }
              REQUIRE_(a.precision_cutoff == cut, "the cutoff was changed");
            }
          }
        }
    }
    // inputs that are not numbers, and overflow of a product of ordinary propagators
    a.precision_cutoff = 1e15;
    for (int w = 0; w < 4; w++) {
      auto v = at(d, points()[0]).vars();
      if (w == 0) v.energy_[0] = C(NAN, 0);
      if (w == 1) v.frequency_.back() = C(0, INFINITY);
      if (w == 2) v.prefactor = INFINITY;
      if (w == 3) v.prefactor = 1e18;
      for (int f = 0; f < NF; f++) {
        C r = ev(a, o, v, f);
        REQUIRE_(finite(r) || a.overflow_detected, NAME[f] << ": not finite and the indicator is clear");
        judge(cx, a, o, v, f, r);
      }
    }
  });
}
// ---- 2. histories on one object
struct Op { int sol, point, form; double cut; };
static std::string opname(const Op &p) {
  std::ostringstream o;
  o << "{solution " << p.sol << " point " << p.point << " " << (p.form < NF ? NAME[p.form] : p.form == 5 ? "fermi_bose" : p.form == 6 ? "evaluate_term" : "construct") << " cutoff " << p.cut << "}";
  return o.str();
}
static std::vector<All> &sols() {
  static std::vector<All> s;
  if (s.empty()) {
    AmiBase a;
    std::vector<Diagram> D = {mk(0, {{1}}, {0}), mk(1, {{1, 0}, {1, 1}}, {0, 1}), mk(1, {{1, 0}, {1, 0}, {-1, 1}}, {0, 0, 1}), mk(2, {{1, 0, 0}, {0, 1, 0}, {-1, 1, 1}}, {0, 1, 2}),
                              mk(2, {{1, 0, 0}, {0, 1, 0}, {1, 0, 0}, {1, -1, 1}}, {0, 1, 2, 3})};
    for (auto &d : D) { s.emplace_back(); build(a, d, s.back()); }
  }
  return s;
}
static AmiBase::ami_vars pt(const Diagram &d, int k) {
  In x = at(d, points()[0]);
  auto v = x.vars();
  if (k == 1) { for (auto &e : v.energy_) e = 0; for (auto &f : v.frequency_) f = 0; } // divides by zero
  if (k == 2) { for (auto &e : v.energy_) e = 0.5; v.frequency_.back() *= 1e-9; v.prefactor = 1e12; }
  return v;
}
static C run(AmiBase &a, const Op &p) {
  All &o = sols()[p.sol];
  a.precision_cutoff = p.cut;
  auto v = pt(o.d, p.point);
  if (p.form == 5) return a.fermi_bose(2, -1, 1e10, C(1e-12, 0)); // raises the indicator
  if (p.form == 6) { AmiBase::ami_parms q(o.d.N, 0); return a.evaluate_term(q, o.t[0], v); }
  if (p.form == 7) { All z; build(a, o.d, z); return 0; }
  return ev(a, o, v, p.form);
}
static bool eq(C a, C b) { return (a.real() == b.real() || (std::isnan(a.real()) && std::isnan(b.real()))) && (a.imag() == b.imag() || (std::isnan(a.imag()) && std::isnan(b.imag()))); }
static void histories(Ctx &cx) {
  std::vector<Op> ops;
  for (int s = 0; s < (int)sols().size(); s++)
    for (int p = 0; p < 3; p++)
      for (int f = 0; f < NF; f++) {
        if (!cx.thorough && s == 4 && f != 0 && f != 3) continue;
        ops.push_back({s, p, f, 1e15});
        if (p == 0 && s % 2) ops.push_back({s, p, f, 1e-3});
      }
  ops.push_back({1, 0, 5, 1e15});
  ops.push_back({1, 1, 6, 1e15});
  ops.push_back({2, 0, 7, 1e15});
  struct Res { C v; bool f; };
  std::vector<Res> fresh;
  for (auto &p : ops) { AmiBase a; C v = run(a, p); fresh.push_back({v, a.overflow_detected}); }
  cx.cnt["alphabet"] = cx.worker == 0 ? (long)ops.size() : 0;
  int D = cx.thorough ? 4 : 3;
  size_t n = ops.size();
  // one case = one prefix of length D-1; the last operation is enumerated inside
  long pre = 1;
  for (int i = 0; i < D - 1; i++) pre *= n;
  for (long c = 0; c < pre; c++) {
    std::vector<int> h;
    long y = c;
    for (int i = 0; i < D - 1; i++) { h.push_back(y % n); y /= n; }
    cx.visit([&] { std::string s = "history"; for (int i : h) s += " " + opname(ops[i]); return s; }, [&] {
      for (size_t l = 0; l < n; l++) {
        AmiBase a;
        std::vector<int> q = h;
        q.push_back((int)l);
        for (size_t i = 0; i < q.size(); i++) {
          C v = run(a, ops[q[i]]);
          cx.cnt["transitions"]++;
          if (ops[q[i]].form >= NF) continue;
          cx.cnt["comparisons"]++;
          REQUIRE_(a.overflow_detected == fresh[q[i]].f, "after " << i << " earlier operations, " << opname(ops[q[i]]) << " leaves the indicator " << a.overflow_detected << ", on a fresh object " << fresh[q[i]].f);
          REQUIRE_(eq(v, fresh[q[i]].v), "after " << i << " earlier operations, " << opname(ops[q[i]]) << " returns " << v << ", on a fresh object " << fresh[q[i]].v);
        }
        cx.cnt["histories"]++;
      }
    });
    if (cx.stop()) return;
  }
  // and each operation of the alphabet is itself judged
  for (size_t i = 0; i < n; i++)
    cx.visit([&] { return opname(ops[i]); }, [&] {
      if (ops[i].form >= NF) return;
      AmiBase a;
      a.overflow_detected = i & 1;
      C r = run(a, ops[i]);
      All &o = sols()[ops[i].sol];
      auto v = pt(o.d, ops[i].point);
      judge(cx, a, o, v, ops[i].form, r);
    });
}
// ---- 3. contributions that are large in one component only: purely real, purely imaginary, every power of i
static void component(Ctx &cx, const Diagram &d) {
  cx.visit([&] { return "components " + show(d); }, [&] {
    if (!domain(d).valid) { cx.cnt["outside_domain"]++; return; }
    AmiBase a;
    All o;
    build(a, d, o);
    for (int k = 0; k < 4; k++)
      for (double w : {0.11, 0.37, 0.71, 1.07, 1.43, 1.571, 2.03, 2.6, 2.93, 3.02, -0.2, -0.9, -2.2, -2.8})
        for (double re : {0.0, 1e-4, -0.05, 0.4}) {
          In x = at(d, points()[k == 1 ? 2 : 0]);
          x.beta = k == 2 ? 7.5 : 1.0;
          for (size_t i = 0; i < x.E.size(); i++) x.E[i] = C(re * (1 + 0.37 * i) + (k == 3 ? 0.01 * i : 0), w * (i ? 0.61 + 0.2 * i : 1.0)) / x.beta;
          auto v = x.vars();
          for (double cut : {1e15, 300.0, 30.0, 3.0, 0.3, 3e-2}) {
            a.precision_cutoff = cut;
            for (int f = 0; f < NF; f++) { judge(cx, a, o, v, f, ev(a, o, v, f)); cx.cnt["transitions"]++; }
          }
        }
  });
}
void explore(Ctx &cx) {
  histories(cx);
  for (int m = 1; m <= 4; m++)
    for (auto &b : alphas(2)) {
      std::vector<VI> a(m, VI{1, 0});
      VI q(m, 0);
      a.push_back(b);
      q.push_back(1);
      component(cx, mk(1, a, q));
      if (m > 1) { for (auto &x : a[0]) x = -x; Diagram d = mk(1, a, q); for (auto &x : d.ls[0].e) x = -x; component(cx, d); }
    }
  for (auto &b : alphas(3)) component(cx, mk(2, {{1, 0, 0}, {1, 0, 0}, {0, 1, 0}, b}, {0, 0, 1, 2}));
  long n = 0;
  fam_mixed(cx.thorough, [&](const Diagram &d) { if (cx.thorough || d.N != 1 || n++ % 3 == 0) one(cx, d); });
}
