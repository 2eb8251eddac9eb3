// C18: every public operation under address, undefined-behaviour and container checks (one build) and under
// tracking of uninitialised memory (another build); a report ends the process and is attributed to the case.
#include "forms.hpp"
#include <memory>
// every field of every output decides a branch, so that an uninitialised field is noticed
static volatile long sink;
static void t(double x) { if (x == 0.123456) sink = sink + 1; }
static void t(C z) { t(z.real()); t(z.imag()); }
static void t(int x) { if (x == 123456) sink = sink + 1; }
static void t(const VI &v) { for (int x : v) t(x); }
static void t(const AmiBase::g_struct &g) { t(g.eps_); t(g.alpha_); t((int)g.stat_); t(g.species_); t((int)g.eff_stat_); t(g.pp); }
static void t(const AmiBase::pole_struct &p) { t(p.eps_); t(p.alpha_); t(p.index_); t(p.multiplicity_); t(p.der_); t(p.which_g_); t(p.x_alpha_); }
static void t(const AmiBase::term &x);
static void t(const std::pair<int, int> &p) { t(p.first); t(p.second); }
template <class T> static void t(const std::vector<T> &v) { for (auto &x : v) t(x); }
static void t(const AmiBase::term &x) { t(x.sign); t(x.p_list); t(x.g_list); }
static void t(const AmiBase::ami_parms &p) { t(p.N_INT_); t(p.N_EXT_); t(p.E_REG_); t(p.tol_); t((int)p.TYPE_); t((int)p.int_type_); t((int)p.dispersion_); }
static void t(const AmiBase::ami_vars &v) { t(v.energy_); t(v.frequency_); t(v.prefactor); t(v.BETA_); t(v.gamma_); }
static void t(const AmiBase &a) { t(a.exp_max_arg); t((int)a.drop_bosonic_diverge); t((int)a.drop_der); t((int)a.drop_matsubara_poles); t((int)a.zero_external_w); t((int)a.verbose); t((int)a.overflow_detected); t(a.precision_cutoff); t((int)a.bosonic_external); t((int)a.ext_freq_type); }

// the fields of an object that is constructed in memory with given contents
template <class T> static std::string made(unsigned char fill, const std::function<std::string(const T &)> &show) {
  alignas(T) static thread_local unsigned char mem[sizeof(T)];
  memset(mem, fill, sizeof mem);
  volatile double noise[8];
  for (int i = 0; i < 8; i++) noise[i] = fill + i * 1.5; // and other contents of the stack
  T *o = new (mem) T();
  std::string s = show(*o);
  o->~T();
  return s;
}
static std::string fs(const AmiBase::term &x) { return std::to_string(x.sign) + "," + std::to_string(x.p_list.size() + x.g_list.size()); }
static std::string fs(const AmiBase::g_struct &g) { return vs(g.eps_) + vs(g.alpha_) + std::to_string((int)g.stat_) + "," + std::to_string(g.species_) + "," + std::to_string((int)g.eff_stat_) + std::to_string(g.pp); }
static std::string fs(const AmiBase::pole_struct &p) { return vs(p.eps_) + vs(p.alpha_) + std::to_string(p.index_) + "," + std::to_string(p.multiplicity_) + "," + std::to_string(p.der_) + vs(p.which_g_) + vs(p.x_alpha_); }
static std::string fs(const AmiBase::ami_parms &p) { return std::to_string(p.N_INT_) + "," + std::to_string(p.N_EXT_) + "," + std::to_string(p.E_REG_) + "," + std::to_string(p.tol_) + "," + std::to_string((int)p.TYPE_) + std::to_string((int)p.int_type_) + std::to_string((int)p.dispersion_); }
static std::string fs(const AmiBase::ami_vars &v) { return std::to_string(v.energy_.size() + v.frequency_.size()) + "," + std::to_string(v.prefactor) + "," + std::to_string(v.BETA_) + "," + std::to_string(v.gamma_); }
template <class T> static void same_made(Ctx &cx, const char *what) {
  std::string a = made<T>(0, [](const T &x) { return fs(x); });
  for (int f : {0x01, 0x55, 0xA5, 0xFF}) {
    std::string b = made<T>((unsigned char)f, [](const T &x) { return fs(x); });
    REQUIRE_(a == b, "a default-constructed " << what << " depends on the memory: " << a << " and " << b);
    cx.cnt["comparisons"]++;
  }
}

struct Depth { int prints, numbers; };
static void all_ops(Ctx &cx, AmiBase &a, const Diagram &shape, const AmiBase::g_prod_t &g, int N, const std::vector<AmiBase::ami_vars> &vars, bool print) {
  AmiBase::ami_parms p(N, 0);
  Spr s;
  a.construct(p, g, s.R, s.P, s.S);
  AmiBase::terms tt, t2;
  a.construct(N, g, tt);
  a.construct(p, g, t2);
  t(s.R); t(s.P); t(s.S); t(tt);
  Fac fs, ft;
  a.factorize_Rn(s.R.back(), fs.u, fs.rr, fs.el);
  a.factorize_terms(tt, ft.u, ft.rr, ft.el);
  t(fs.u); t(fs.rr); t(fs.el); t(ft.u); t(ft.rr); t(ft.el);
  cx.cnt["states"] += count_states(s);
  cx.cnt["transitions"] += count_trans(s);
  Fac ds = fs, dt = ft;
  a.derivative_opt(ds.u, ds.rr, ds.el);
  a.derivative_opt(dt.u, dt.rr, dt.el);
  t(ds.u); t(ds.rr); t(ds.el);
  for (size_t i = 0; i < vars.size(); i++) {
    auto v = vars[i];
    AmiBase::ami_parms q = i % 3 == 0 ? AmiBase::ami_parms(N, 0) : i % 3 == 1 ? AmiBase::ami_parms(N, 1e-3, AmiBase::Pi_phuu) : AmiBase::ami_parms(N, 0, AmiBase::FORCE, AmiBase::coulomb, AmiBase::fp);
    t(a.evaluate(q, s.R, s.P, s.S, v));
    t(a.evaluate(q, s.R, s.P, s.S, v, fs.u, fs.rr, fs.el));
    t(a.evaluate(q, s.R, s.P, s.S, v, ds.u, ds.rr, ds.el));
    t(a.evaluate(q, tt, v));
    t(a.evaluate(q, tt, v, ft.u, ft.rr, ft.el));
    t(a.evaluate(q, tt, v, dt.u, dt.rr, dt.el));
    if (N > 0) t(a.evaluate_otf(q, s.R, s.P, s.S, v));
    for (size_t k = 0; k < tt.size() && k < 5; k++) { t(a.evaluate_term(q, tt[k], v)); t(a.eval_fprod(q, tt[k].p_list, v)); }
    t(a.eval_gprod(q, g, v));
    for (auto &x : g) t(a.get_energy_from_g(x, v));
    t(a);
    cx.cnt["comparisons"] += 8;
  }
  // the single steps
  for (int k = 0; k < (g.empty() ? 0 : (int)g[0].alpha_.size()); k++) {
    AmiBase::g_prod_t gg = g;
    auto poles = a.find_poles(k, gg);
    t(poles);
    t(a.find_signs(k, gg));
    for (auto &pl : poles) {
      t(a.get_simple_sign(k, gg, pl));
      t(a.simple_residue(gg, pl));
      t(a.get_starting_sign(gg, pl));
      t(a.reduce_gprod(gg, pl));
      for (auto &x : gg) t(a.update_G_pole(x, pl));
      for (auto &o : poles) { t((int)a.pole_equiv(o, pl)); t(a.update_Z_pole(o, pl)); }
      for (auto &v : vars) { t(a.get_energy_from_pole(pl, v)); t(a.fermi_pole(p, pl, v)); }
      AmiBase::term in(1.0, AmiBase::pole_array_t(), gg);
      AmiBase::terms o;
      a.terms_general_residue(in, pl, o);
      t(o);
      AmiBase::Ri_t ro;
      AmiBase::pole_array_t po;
      AmiBase::sign_t so;
      a.evaluate_general_residue(gg, pl, ro, po, so);
      t(ro); t(po); t(so);
    }
    AmiBase::terms in{AmiBase::term(1.0, AmiBase::pole_array_t(), gg)}, o;
    if (!poles.empty()) { a.integrate_step(k, in, o); t(o); }
    if (poles.size() > 0) {
      Spr u;
      u.R.resize(2); u.P.resize(1); u.S.resize(1);
      u.R[0].push_back(gg);
      a.update_gprod_general(k, 0, u.R, u.P, u.S);
      t(u.R); t(u.P); t(u.S);
    }
  }
  // frequencies that the lines do not have
  if (!g.empty())
    for (int k = (int)g[0].alpha_.size(); k < (int)g[0].alpha_.size() + 3; k++) {
      AmiBase::g_prod_t gg = g;
      t(a.find_poles(k, gg));
      AmiBase::terms in{AmiBase::term(1.0, AmiBase::pole_array_t(), gg)}, o;
      a.integrate_step(k, in, o);
      t(o);
      Spr u;
      u.R.push_back({gg});
      a.update_gprod_general(k, 0, u.R, u.P, u.S);
      t(u.R); t(u.P); t(u.S);
    }
  for (size_t i = 0; i < g.size(); i++)
    for (size_t j = 0; j < g.size(); j++) {
      int sg = 1;
      AmiBase::g_struct x = g[i], y = g[j];
      t((int)a.g_struct_equiv(x, y, sg));
      t((int)a.g_equiv(x, y));
    }
  if (print) {
    a.print_final(N, s.R, s.P, s.S);
    a.print_terms(tt);
    for (auto &x : g) a.print_g_struct_info(x);
    for (auto &x : s.P) for (auto &y : x) { a.print_pole_array(y); for (auto &z : y) a.print_pole_struct_info(z); }
    for (auto &x : s.R) a.print_g_prod_array(x);
    a.verbose = true;
    for (auto &v0 : vars) {
      auto v = v0;
      t(a.evaluate(p, s.R, s.P, s.S, v)); t(a.evaluate(p, tt, v)); t(a.evaluate(p, s.R, s.P, s.S, v, fs.u, fs.rr, fs.el)); t(a.evaluate(p, tt, v, ft.u, ft.rr, ft.el));
      if (N > 0) t(a.evaluate_otf(p, s.R, s.P, s.S, v));
    }
    a.verbose = false;
  }
  (void)shape;
}
static std::vector<AmiBase::ami_vars> numbers(const Diagram &d, int nE, int F, bool many) {
  std::vector<AmiBase::ami_vars> r;
  auto add = [&](AmiBase::energy_t e, const Pt &p) { AmiBase::frequency_t f(F, C(0)); for (int j = d.N; j < F; j++) f[j] = p.ext; f.resize(F + (int)(r.size() + d.ls.size()) % 3, C(0.5, 0.25)); f.shrink_to_fit(); r.push_back(AmiBase::ami_vars(e, f, p.beta, 2.0)); };
  add(energies(nE, 0), points()[0]);
  if (d.ls.size() > 8) return r; // merging all poles costs too much for the long products
  AmiBase::energy_t e(nE, C(0.5));
  add(e, points()[3]); // everything coincides
  if (many) {
    for (int i = 0; i < nE; i++) e[i] = i % 2 ? -0.5 : 0.5;
    add(e, points()[4]);
    add(AmiBase::energy_t(nE, C(0)), points()[1]); // singular
    e.assign(nE, C(1e4, 3));
    add(e, points()[7]);
    r.push_back(AmiBase::ami_vars(energies(nE, 1), AmiBase::frequency_t(F, C(0.1, 0.2)))); // no temperature given
    for (int i = 0; i < nE; i++) e[i] = i % 3 ? C(0.25 * i, 0) : C(INFINITY, NAN);
    add(e, points()[0]);
  }
  return r;
}
static void diag(Ctx &cx, const Diagram &d, bool many, bool print) {
  cx.visit([&] { return show(d); }, [&] {
    // wider than the domain of the value properties: poles anywhere, vanishing lines, frequencies that do not occur
    for (auto &l : d.ls) for (int x : l.a) if (std::abs(x) > 1) return;
    AmiBase a;
    all_ops(cx, a, d, gprod(d), d.N, numbers(d, d.E() + (int)(cx.idx % 2), d.F(), many), print);
    a.drop_matsubara_poles = false;
    a.drop_bosonic_diverge = a.drop_der = a.bosonic_external = true;
    a.precision_cutoff = 1;
    all_ops(cx, a, d, gprod(d), d.N, numbers(d, d.E(), d.F(), false), false);
  });
}
// construction, factorization and evaluation only
static void long_(Ctx &cx, const Diagram &d) {
  cx.visit([&] { return "long " + show(d); }, [&] {
    AmiBase a;
    AmiBase::ami_parms p(d.N, 0);
    Spr s;
    AmiBase::terms tt;
    a.construct(p, gprod(d), s.R, s.P, s.S);
    a.construct(p, gprod(d), tt);
    Fac fs, ft;
    a.factorize_Rn(s.R.back(), fs.u, fs.rr, fs.el);
    a.factorize_terms(tt, ft.u, ft.rr, ft.el);
    Fac ds = fs;
    a.derivative_opt(ds.u, ds.rr, ds.el);
    t(s.R); t(s.P); t(s.S); t(tt); t(fs.u); t(fs.rr); t(fs.el); t(ft.u); t(ft.rr); t(ft.el); t(ds.u); t(ds.rr); t(ds.el);
    for (auto &v : numbers(d, d.E(), d.F(), false)) {
      t(a.evaluate(p, s.R, s.P, s.S, v));
      t(a.evaluate(p, s.R, s.P, s.S, v, fs.u, fs.rr, fs.el));
      t(a.evaluate(p, s.R, s.P, s.S, v, ds.u, ds.rr, ds.el));
      t(a.evaluate(p, tt, v));
      t(a.evaluate(p, tt, v, ft.u, ft.rr, ft.el));
      t(a.evaluate_otf(p, s.R, s.P, s.S, v));
      t(a.eval_gprod(p, gprod(d), v));
      cx.cnt["comparisons"] += 6;
    }
    cx.cnt["states"] += count_states(s);
    cx.cnt["transitions"] += count_trans(s);
  });
}
void explore(Ctx &cx) {
  if (!freopen("/dev/null", "w", stdout)) return;
  bool T = cx.thorough;
  cx.limit_s = 120;
  // default-constructed objects: every field is determined, and usable
  cx.visit([] { return std::string("default-constructed objects"); }, [&] {
    for (int rep = 0; rep < 3; rep++) {
      auto *mem = operator new(4096);
      memset(mem, rep ? 0xA5 : 0, 4096);
      operator delete(mem);
      t(*std::unique_ptr<AmiBase::ami_parms>(new AmiBase::ami_parms));
      t(*std::unique_ptr<AmiBase::ami_parms>(new AmiBase::ami_parms(2, 0)));
      t(*std::unique_ptr<AmiBase::ami_parms>(new AmiBase::ami_parms(2, 0, AmiBase::Bare)));
      t(*std::unique_ptr<AmiBase::ami_parms>(new AmiBase::ami_parms(2, 0, AmiBase::Bare, AmiBase::coulomb, AmiBase::hf)));
      t(*std::unique_ptr<AmiBase::ami_vars>(new AmiBase::ami_vars));
      t(*std::unique_ptr<AmiBase::ami_vars>(new AmiBase::ami_vars({1.0}, {2.0})));
      t(*std::unique_ptr<AmiBase::ami_vars>(new AmiBase::ami_vars({1.0}, {2.0}, 3.0)));
      t(*std::unique_ptr<AmiBase::ami_vars>(new AmiBase::ami_vars({1.0}, {2.0}, 3.0, 4.0)));
      t(*std::unique_ptr<AmiBase::g_struct>(new AmiBase::g_struct));
      t(*std::unique_ptr<AmiBase::g_struct>(new AmiBase::g_struct({1}, {1})));
      t(*std::unique_ptr<AmiBase::g_struct>(new AmiBase::g_struct({1}, {1}, AmiBase::Bose)));
      t(*std::unique_ptr<AmiBase::pole_struct>(new AmiBase::pole_struct));
      t(*std::unique_ptr<AmiBase::pole_struct>(new AmiBase::pole_struct({1}, {1})));
      t(*std::unique_ptr<AmiBase::term>(new AmiBase::term));
      t(*std::unique_ptr<AmiBase::term>(new AmiBase::term(1.5, {}, {})));
      t(*std::unique_ptr<AmiBase>(new AmiBase));
      AmiBase::ami_parms p;
      t(*std::unique_ptr<AmiBase>(new AmiBase(p)));
      cx.cnt["comparisons"] += 17;
    }
    AmiBase a;
    AmiBase::ami_parms p;
    AmiBase::ami_vars v;
    AmiBase::g_prod_t g;
    Spr s;
    a.construct(p, g, s.R, s.P, s.S);
    t(a.evaluate(p, s.R, s.P, s.S, v));
    AmiBase::terms tt;
    t(a.evaluate(p, tt, v));
    v.energy_ = {1.0}; v.frequency_ = {0.0}; v.BETA_ = 1;
    AmiBase::g_struct gd;
    t(a.get_energy_from_g(gd, v));
    AmiBase::term dt;
    t(a.evaluate_term(p, dt, v));
  });
  cx.visit([] { return std::string("default-constructed objects in used memory"); }, [&] {
    same_made<AmiBase::term>(cx, "term");
    same_made<AmiBase::g_struct>(cx, "g_struct");
    same_made<AmiBase::pole_struct>(cx, "pole_struct");
    same_made<AmiBase::ami_parms>(cx, "ami_parms");
    same_made<AmiBase::ami_vars>(cx, "ami_vars");
    AmiBase a;
    AmiBase::ami_parms p(0, 0);
    AmiBase::ami_vars v({1.0}, {0.0}, 1, 1.5);
    AmiBase::term one;
    REQUIRE_(a.evaluate_term(p, one, v) == C(1.5), "a default-constructed term is not the unit term");
  });
  // nothing at all; more sums than lines; summed frequencies that do not occur
  for (int N = 0; N <= 4; N++) {
    cx.visit([&] { return "empty integrand, N_INT=" + std::to_string(N); }, [&] {
      AmiBase a;
      Diagram d;
      d.N = N;
      for (int nE : {0, 1}) {
        all_ops(cx, a, d, AmiBase::g_prod_t(), N, numbers(d, nE, N + 1, true), true);
      }
    });
    for (int L = 1; L <= 3; L++)
      for (auto &b : alphas(std::max(N, 1) + (N < 3)))
        diag(cx, mk(N, std::vector<VI>(L, b), iota(L)), true, false), diag(cx, mk(N, std::vector<VI>(L, b), VI(L, 0)), false, true);
  }
  // more sums than the lines have frequencies
  for (int F = 1; F <= 3; F++)
    for (int N = F + 1; N <= F + 3; N++)
      for (auto &b : alphas(F))
        cx.visit([&] { return "N_INT=" + std::to_string(N) + ", lines " + vs(b); }, [&] {
          AmiBase a;
          for (int L = 1; L <= 3; L++) {
            Diagram d = mk(F, std::vector<VI>(L, b), L == 2 ? VI{0, 0} : iota(L));
            if (L == 3) d.ls[1].a = unit(F, F - 1);
            Diagram n;
            n.N = N;
            n.ls = d.ls;
            all_ops(cx, a, n, gprod(d), N, numbers(d, d.E(), d.F() + N, L == 1), false);
          }
        });
  // empty containers for the factorization and the evaluations
  cx.visit([] { return std::string("empty containers"); }, [&] {
    AmiBase a;
    AmiBase::ami_parms p(0, 0);
    AmiBase::ami_vars v({1.0}, {0.0}, 1.0);
    AmiBase::Ri_t r;
    Fac f;
    for (int n = 0; n < 3; n++) {
      a.factorize_Rn(r, f.u, f.rr, f.el);
      t(f.u); t(f.rr); t(f.el);
      a.derivative_opt(f.u, f.rr, f.el);
      r.push_back(AmiBase::g_prod_t());
      AmiBase::terms tt(n), o;
      a.factorize_terms(tt, f.u, f.rr, f.el);
      t(a.evaluate(p, tt, v));
      t(a.evaluate(p, tt, v, f.u, f.rr, f.el));
      a.integrate_step(0, tt, o);
      a.derivative_opt(f.u, f.rr, f.el);
      t(f.rr);
      a.print_terms(tt);
    }
    AmiBase::g_struct x, y, z({1}, {1}), w({1, 0}, {1, 0, 0});
    int sg;
    for (auto *i : {&x, &y, &z, &w}) for (auto *j : {&x, &y, &z, &w}) { t((int)a.g_struct_equiv(*i, *j, sg)); t((int)a.g_equiv(*i, *j)); }
    AmiBase::pole_struct pa, pb({1}, {1}), pc({1, 0}, {1, 0, 0});
    for (auto *i : {&pa, &pb, &pc}) for (auto *j : {&pa, &pb, &pc}) t((int)a.pole_equiv(*i, *j));
    AmiBase::ref_v_t r1, r2{{0, 1}}, r3{{0, 1}, {0, -1}};
    int s1 = 1, s2 = 1;
    for (auto *i : {&r1, &r2, &r3}) for (auto *j : {&r1, &r2, &r3}) t((int)a.pair_v_equiv(*i, *j, s1, s2));
    cx.cnt["comparisons"] += 40;
  });
  for (int m = 0; m <= 12; m++)
    cx.visit([&] { return "statistical functions, order " + std::to_string(m); }, [&] {
      AmiBase a;
      for (double x : {-1e4, -700.0, -3.0, -1e-9, 0.0, 1e-9, 3.0, 700.0, 1e4})
        for (double b : {0.0, 1e-3, 1.0, 1e3, 1e308})
          for (int sg : {1, -1}) { t(a.fermi_bose(m, sg, b, C(x, 0.3))); t(a.fermi_bose(m, sg, b, C(x, 0))); cx.cnt["comparisons"]++; }
      for (int k = 0; k <= m; k++) { t(a.frk(m, k)); t(a.binomialCoeff(m, k)); }
      t(a.factorial(m));
    });
  // the mixed family, without the restriction to the domain of the exact sum
  long n = 0;
  fam_mixed(false, [&](const Diagram &d) { n++; if (T || n % 4 == 0) diag(cx, d, d.ls.size() <= 3, n % 16 == 0); });
  for (auto &b : alphas(2)) for (auto &c : alphas(2)) { diag(cx, mk(2, {b, c}, {0, 1}), true, true); diag(cx, mk(2, {b, c, b}, {0, 1, 0}), true, false); diag(cx, mk(1, {b, c}, {0, -1}), true, false); diag(cx, mk(1, {b, c}, {-1, -1}), true, false); }
  // sizes: lengths of products, of frequency vectors, of lists of energies, multiplicities
  for (int L = 1; L <= (T ? 48 : 24); L++) {
    std::vector<VI> a;
    for (int i = 0; i < L; i++) a.push_back(i % 3 == 0 ? VI{1, 0} : i % 3 == 1 ? VI{-1, 1} : VI{1, 1});
    diag(cx, mk(1, a, iota(L)), L < 8, L == 5);
    diag(cx, mk(1, std::vector<VI>(L, VI{0, 1}), iota(L)), false, false);
    if (L <= (T ? 6 : 5)) { diag(cx, mk(1, std::vector<VI>(L, VI{1, 0}), VI(L, 0)), true, false); auto e = std::vector<VI>(L, VI{1, 1}); e.push_back({-1, 0}); diag(cx, mk(1, e, VI(L + 1, 0)), true, false); }
  }
  for (int L : {9, 12, 15, 16, 17, 29, 31, 32, 33, 34, 62, 63, 64, 65, 66, 100, 127, 128, 129, 130, 255, 256, 257}) // long products with few poles
    for (int how = 0; how < 2; how++) {
      if (!T && how && L > 66) continue;
      std::vector<VI> a(L, VI{0, 1});
      VI q = iota(L);
      a[L / 2] = {1, 0};
      a[L - 1] = {1, 1};
      if (how) for (int i = 0; i < L; i++) q[i] = i % 2; // few different ones
      if (how) { q[L / 2] = 2; q[L - 1] = 3; }
      long_(cx, mk(1, a, q));
    }
  for (int F = 1; F <= 20; F++) {
    std::vector<VI> a = {unit(F, 0), unit(F, F - 1), VI(F, 1), VI(F, -1)};
    diag(cx, mk(1, a, iota(4)), true, F == 7);
    if (F >= 2) { a[1] = unit(F, 1); diag(cx, mk(2, a, iota(4)), false, false); }
  }
  for (int E : {1, 2, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 200}) {
    Diagram d = example(2);
    for (size_t i = 0; i < d.ls.size(); i++) d.ls[i].e = unit(E, (int)((i * 7 + E - 1) % E));
    diag(cx, d, true, false);
  }
  for (int N = 1; N <= (T ? 6 : 5); N++) { // number of sums
    std::vector<VI> a;
    for (int i = 0; i < N; i++) a.push_back(unit(N + 1, i));
    a.push_back(VI(N + 1, 1));
    if (N < 5 || T) a.push_back(VI(N + 1, -1));
    diag(cx, mk(N, a, iota((int)a.size())), N < 4, N < 4);
  }
  for (int e : {2, 3, 4, 5}) diag(cx, example(e), false, e == 2);
  if (T) diag(cx, example(6), false, false);
}
