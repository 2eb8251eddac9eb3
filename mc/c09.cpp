// C09: all operation sequences on one object with re-used containers, against fresh processes.
#include "fams.hpp"
#include "ser.hpp"
#include "forms.hpp"
#include <sys/wait.h>
// ---- alphabet
static const std::vector<Diagram> &diags() {
  static std::vector<Diagram> D = {
      mk(1, {{1, 0}, {1, 1}, {-1, 0}, {-1, 1}}, {0, 1, 2, 3}), // as many terms as the third
      mk(1, {{1, 0}, {-1, 1}, {1, 0}, {1, 0}}, {0, 1, 0, 0}),  // triple pole: derivatives of two orders
      mk(2, {{1, 0, 0}, {0, 1, 0}, {-1, 1, 1}}, {0, 1, 2}),
      mk(1, {{1, 1}}, {0}),                                   // empty product
      mk(2, {{1, 0, 0}, {0, 1, 0}, {1, 0, 0}, {1, -1, 1}}, {0, -1, 0, 2})};
  return D;
}
static const int NP = 3, NC = 4;
static In point(int d, int p) {
  In x = at(diags()[d], points()[p == 1 ? 5 : 0]);
  x.E.resize(4, C(0.77, 0));
  if (p == 2) { x.E[1] = x.E[0]; x.pf = -2; x.ereg = 0.125; }
  return x;
}
static void config(AmiBase &a, int c) {
  a.drop_der = c == 1;
  a.bosonic_external = c == 2;
  a.drop_bosonic_diverge = c == 2;
  a.drop_matsubara_poles = c != 3;
  a.precision_cutoff = c == 1 ? 0.25 : 1e15;
}
enum Kind { CSPR, CTERM, CTERM2, FSPR, FTERM, DER, EVAL, EONE, STEP, CONF, PRINT, VERB, STAT, PARTS };
struct Op { Kind k; int i, j; };
static const std::vector<Op> &ops(bool big) {
  static std::vector<Op> o;
  if (o.empty()) {
    for (int f = 0; f < 5; f++) for (int p = 0; p < NP; p++) o.push_back({EVAL, f, p});
    for (int d = 0; d < (int)diags().size(); d++) o.push_back({CSPR, d, 0});
    for (int d = 0; d < (int)diags().size(); d++) o.push_back({CTERM, d, 0});
    o.push_back({FSPR, 0, 0});
    o.push_back({FTERM, 0, 0});
    o.push_back({DER, 0, 0});
    o.push_back({EONE, 0, 0});
    o.push_back({STEP, 0, 0});
    for (int c = 0; c < NC; c++) o.push_back({CONF, c, 0});
    o.push_back({PRINT, 0, 0});
    o.push_back({VERB, 0, 0});
    o.push_back({PARTS, 0, 0});
    for (int m = 0; m < 4; m++) o.push_back({STAT, m, 0});
    (void)big;
  }
  return o;
}
static std::string name(const Op &o) {
  static const char *K[] = {"construct_spr", "construct_terms", "construct_terms2", "factorize_Rn", "factorize_terms", "derivative_opt", "evaluate", "evaluate_term", "integrate_step", "config", "print", "verbose", "fermi_bose", "building blocks"};
  static const char *F[] = {"spr", "spr_factorized", "terms", "terms_factorized", "otf"};
  std::ostringstream s;
  s << K[o.k];
  if (o.k == EVAL) s << "(" << F[o.i] << ", point " << o.j << ")";
  else if (o.k == STAT || o.k == CSPR || o.k == CTERM || o.k == CONF) s << "(" << o.i << ")";
  return s.str();
}
// what the slots hold, as text
struct Log { int spr = -1, sprm = 1, term = -1, termm = 1, f1 = -1, f1m = 1, f1d = 0, f2 = -1, f2m = 1, cfg = 0, verb = 0; };
struct World {
  AmiBase a;
  Spr s;
  AmiBase::terms t, st;
  Fac f1, f2;
  // outputs of the building blocks
  AmiBase::Ri_t ri, rr, rd;
  AmiBase::pole_array_t pr, pd;
  AmiBase::sign_t sr, sd;
  AmiBase::terms tr;
  AmiBase::term in, ac;
  std::vector<std::vector<int>> trig, pairs;
  Log l;
};
static bool enabled(const Log &l, const Op &o) {
  switch (o.k) {
  case FSPR: return l.spr >= 0;
  case FTERM: case EONE: case STEP: case PARTS: return l.term >= 0;
  case DER: return l.f1 >= 0 && l.f1d < 2;
  case EVAL:
    if (o.i == 0 || o.i == 4) return l.spr >= 0;
    if (o.i == 1) return l.spr >= 0 && l.f1 == l.spr && l.f1m == l.sprm;
    if (o.i == 2) return l.term >= 0;
    return l.term >= 0 && l.f2 == l.term && l.f2m == l.termm;
  default: return true;
  }
}
typedef AmiBase::g_struct G_;
static int nbits(AmiBase::terms &t) { return (int)t.size(); }
// performs the operation; the result as bytes; every input is compared before and after
static std::string perform(World &w, const Op &o) {
  AmiBase &a = w.a;
  std::string sw = ser([&](Ser &s) { s.switches(a); });
  std::string out;
  auto unchanged = [&](const std::string &x, const std::string &y, const char *what) { REQUIRE_(x == y, name(o) << " changes its input: " << what); };
  switch (o.k) {
  case CSPR: {
    In x = point(o.i, 0);
    auto p = x.parms();
    auto g = gprod(diags()[o.i]);
    std::string b = ser([&](Ser &s) { s.parms(p); s.gs(g); });
    a.construct(p, g, w.s.R, w.s.P, w.s.S);
    unchanged(b, ser([&](Ser &s) { s.parms(p); s.gs(g); }), "parameters or integrand");
    out = ser([&](Ser &s) { s.spr(w.s); });
    w.l.spr = o.i;
    w.l.sprm = a.drop_matsubara_poles;
    break;
  }
  case CTERM: {
    In x = point(o.i, 0);
    auto p = x.parms();
    auto g = gprod(diags()[o.i]);
    if (o.i & 1) a.construct(p, g, w.t);
    else a.construct(diags()[o.i].N, g, w.t);
    out = ser([&](Ser &s) { s.terms(w.t); });
    w.l.term = o.i;
    w.l.termm = a.drop_matsubara_poles;
    break;
  }
  case FSPR: {
    std::string b = ser([&](Ser &s) { s.spr(w.s); });
    a.factorize_Rn(w.s.R.back(), w.f1.u, w.f1.rr, w.f1.el);
    unchanged(b, ser([&](Ser &s) { s.spr(w.s); }), "solution");
    out = ser([&](Ser &s) { s.fac(w.f1); });
    w.l.f1 = w.l.spr;
    w.l.f1m = w.l.sprm;
    w.l.f1d = 0;
    break;
  }
  case FTERM: {
    std::string b = ser([&](Ser &s) { s.terms(w.t); });
    a.factorize_terms(w.t, w.f2.u, w.f2.rr, w.f2.el);
    unchanged(b, ser([&](Ser &s) { s.terms(w.t); }), "terms");
    out = ser([&](Ser &s) { s.fac(w.f2); });
    w.l.f2 = w.l.term;
    w.l.f2m = w.l.termm;
    break;
  }
  case DER:
    a.derivative_opt(w.f1.u, w.f1.rr, w.f1.el);
    out = ser([&](Ser &s) { s.fac(w.f1); });
    w.l.f1d++;
    break;
  case EVAL: {
    bool tm = o.i == 2 || o.i == 3;
    In x = point(tm ? w.l.term : w.l.spr, o.j);
    auto p = x.parms();
    auto v = x.vars();
    auto all = [&](Ser &s) { s.parms(p); s.vars(v); if (tm) s.terms(w.t); else s.spr(w.s); if (o.i == 1) s.fac(w.f1); if (o.i == 3) s.fac(w.f2); };
    std::string b = ser(all);
    C r;
    if (o.i == 0) r = a.evaluate(p, w.s.R, w.s.P, w.s.S, v);
    else if (o.i == 1) r = a.evaluate(p, w.s.R, w.s.P, w.s.S, v, w.f1.u, w.f1.rr, w.f1.el);
    else if (o.i == 2) r = a.evaluate(p, w.t, v);
    else if (o.i == 3) r = a.evaluate(p, w.t, v, w.f2.u, w.f2.rr, w.f2.el);
    else r = a.evaluate_otf(p, w.s.R, w.s.P, w.s.S, v);
    unchanged(b, ser(all), "parameters, variables or solution");
    bool ov = a.overflow_detected;
    out = ser([&](Ser &s) { s.c(r); s.raw(ov); });
    break;
  }
  case EONE: {
    In x = point(w.l.term, 0);
    auto p = x.parms();
    auto v = x.vars();
    auto all = [&](Ser &s) { s.parms(p); s.vars(v); s.terms(w.t); };
    std::string b = ser(all);
    C r = 0;
    for (auto &t : w.t) r += a.evaluate_term(p, t, v);
    unchanged(b, ser(all), "parameters, variables or terms");
    out = ser([&](Ser &s) { s.c(r); });
    break;
  }
  case STEP: {
    AmiBase::terms in{AmiBase::term(1, AmiBase::pole_array_t(), gprod(diags()[w.l.term]))};
    std::string b = ser([&](Ser &s) { s.terms(in); });
    a.integrate_step(0, in, w.st);
    unchanged(b, ser([&](Ser &s) { s.terms(in); }), "terms");
    out = ser([&](Ser &s) { s.terms(w.st); });
    break;
  }
  case PARTS: {
    const Diagram &d = diags()[w.l.term];
    auto g = gprod(d);
    In x = point(w.l.term, 2);
    auto p = x.parms();
    auto v = x.vars();
    auto all = [&](Ser &s) { s.parms(p); s.vars(v); s.gs(g); s.terms(w.t); };
    std::string b = ser(all);
    auto poles = a.find_poles(0, g);
    AmiBase::term t0(-1, AmiBase::pole_array_t(), g);
    if (w.t.size()) t0.p_list = w.t[0].p_list;
    AmiBase::R_t R{{g}};
    AmiBase::P_t P;
    AmiBase::S_t S;
    a.convert_terms_to_ri(w.t, w.ri);
    out = ser([&](Ser &s) {
      AmiBase::terms y;
      for (auto &q : w.ri) { AmiBase::terms z{AmiBase::term(1, AmiBase::pole_array_t(), q)}; s.terms(z); }
      for (auto &q : poles) {
        a.evaluate_general_residue(g, q, w.rr, w.pr, w.sr);
        REQUIRE_(w.rr.size() == w.pr.size() && w.pr.size() == w.sr.size(), "sizes of the residue");
        y.clear();
        for (size_t i = 0; i < w.rr.size(); i++) y.push_back(AmiBase::term(w.sr[i], {w.pr[i]}, w.rr[i]));
        s.terms(y);
        a.take_derivative_gprod(g, q, 0.5, w.rd, w.pd, w.sd);
        REQUIRE_(w.rd.size() == w.pd.size() && w.pd.size() == w.sd.size(), "sizes of the derivative");
        y.clear();
        for (size_t i = 0; i < w.rd.size(); i++) y.push_back(AmiBase::term(w.sd[i], {w.pd[i]}, w.rd[i]));
        s.terms(y);
        a.terms_general_residue(t0, q, w.tr);
        s.terms(w.tr);
        a.split_term(t0, q, w.in, w.ac);
        y = {w.in, w.ac};
        s.terms(y);
      }
      a.get_triggers(p, R, P, S, v, w.trig);
      a.find_equal_values(p, R, v, w.pairs);
      for (auto &q : w.trig) for (int z : q) s.raw(z);
      for (auto &q : w.pairs) for (int z : q) s.raw(z);
    });
    unchanged(b, ser(all), "parameters, variables, product or terms");
    break;
  }
  case CONF:
    config(a, o.i);
    w.l.cfg = o.i;
    return "";
  case VERB:
    a.verbose = !a.verbose;
    w.l.verb ^= 1;
    return "";
  case PRINT: {
    auto all = [&](Ser &s) { s.spr(w.s); s.terms(w.t); s.fac(w.f1); };
    std::string b = ser(all);
    if (w.l.spr >= 0) a.print_final(diags()[w.l.spr].N, w.s.R, w.s.P, w.s.S);
    if (w.l.term >= 0) a.print_terms(w.t);
    unchanged(b, ser(all), "printing");
    break;
  }
  case STAT: {
    C r;
    if (o.i == 0) r = a.fermi_bose(0, 1, 2.5, C(0.3, 0.1)) + a.frk(4, 2) + a.factorial(5) + (double)a.binomialCoeff(6, 3) + a.factorial(1);
    else r = a.fermi_bose(o.i, o.i == 3 ? -1 : 1, 1.5, C(-0.7, 0)); // one order only: the orders meet in the histories
    out = ser([&](Ser &s) { s.c(r); });
    break;
  }
  default: break;
  }
  REQUIRE_(sw == ser([&](Ser &s) { s.switches(a); }), name(o) << " changes a configuration switch");
  return out;
}
// the same operation, in a new process, on a new object, with new containers
static std::map<std::string, std::string> memo;
static std::string key(const Log &l, const Op &o) {
  std::ostringstream k;
  k << o.k << "." << o.i << "." << o.j << "|" << l.cfg;
  if (o.k == FSPR || (o.k == EVAL && o.i != 2 && o.i != 3)) k << " s" << l.spr << "." << l.sprm;
  if (o.k == DER || (o.k == EVAL && o.i == 1)) k << " f" << l.f1 << "." << l.f1m << "." << l.f1d;
  if (o.k == FTERM || o.k == EONE || o.k == STEP || o.k == PARTS || (o.k == EVAL && (o.i == 2 || o.i == 3))) k << " t" << l.term << "." << l.termm;
  return k.str();
}
// long histories: a numbered list of calls, each answered by its own data
static const int LONG = 999, NLONG = 1400;
static const std::vector<Diagram> &ldiags() {
  static std::vector<Diagram> d;
  if (d.empty()) {
    const auto &A = alphas(3);
    for (size_t i = 0; i < A.size(); i++) for (size_t j = 0; j < A.size(); j += 2) { Diagram x = mk(2, {{1, 0, 0}, {0, 1, 0}, A[i], A[j]}, {0, 1, 2, j % 3 ? 3 : 1}); if (domain(x).valid) d.push_back(x); }
  }
  return d;
}
static std::string longcall(AmiBase &a, int i) {
  std::string out;
  int n = (int)ldiags().size(), kind = i % 5, m = i / 5;
  if (kind == 0) { // statistical functions at many arguments
    out = ser([&](Ser &s) { s.c(a.fermi_bose(m % 4, m % 7 ? 1 : -1, 0.5 + 0.01 * m, C(0.3 + 0.017 * m, m % 2 ? 0 : 0.1))); s.c(a.frk(m % 9, m % 5)); });
    return out;
  }
  const Diagram &d = ldiags()[(kind == 1 ? m : 17 * kind) % n];
  In x = at(d, points()[kind == 1 ? m % 5 : kind]);
  if (kind > 1) { for (auto &e : x.E) e += 0.001 * m; x.f.back() += 0.003 * m; x.pf = 1 + m % 3; }
  auto p = x.parms();
  auto v = x.vars();
  Spr s;
  AmiBase::terms t;
  Fac f;
  C r = 0, r2 = 0;
  if (kind == 1 || kind == 2) {
    a.construct(p, gprod(d), s.R, s.P, s.S);
    a.factorize_Rn(s.R.back(), f.u, f.rr, f.el);
    r = a.evaluate(p, s.R, s.P, s.S, v, f.u, f.rr, f.el);
    if (kind == 2) { a.derivative_opt(f.u, f.rr, f.el); r2 = a.evaluate(p, s.R, s.P, s.S, v, f.u, f.rr, f.el); } else r2 = a.evaluate_otf(p, s.R, s.P, s.S, v);
  } else {
    a.construct(p, gprod(d), t);
    r = a.evaluate(p, t, v);
    if (kind == 4) { a.factorize_terms(t, f.u, f.rr, f.el); r2 = a.evaluate(p, t, v, f.u, f.rr, f.el); }
  }
  bool ov = a.overflow_detected;
  return ser([&](Ser &z) { if (kind == 1) { z.spr(s); z.fac(f); } z.c(r); z.c(r2); z.raw(ov); });
}
// a process that has not called the library; forks a new process for each question
static std::string answer(const Log &l, const Op &o) {
  std::string r = "F";
  if (o.k == LONG) {
    AmiBase a;
    return "R" + longcall(a, o.i);
  }
  try {
    World w;
    AmiBase b; // constructions by another object
    auto sol = [&](int d, int m) { b.drop_matsubara_poles = m; In x = point(d, 0); auto p = x.parms(); b.construct(p, gprod(diags()[d]), w.s.R, w.s.P, w.s.S); };
    config(w.a, l.cfg);
    w.l.spr = l.spr; w.l.term = l.term; w.l.f1 = l.f1; w.l.f2 = l.f2;
    if (o.k == DER || (o.k == EVAL && o.i == 1)) {
      sol(l.f1, l.f1m);
      b.factorize_Rn(w.s.R.back(), w.f1.u, w.f1.rr, w.f1.el);
      for (int i = 0; i < l.f1d; i++) b.derivative_opt(w.f1.u, w.f1.rr, w.f1.el);
      w.l.f1d = l.f1d;
    } else if (o.k == FSPR || (o.k == EVAL && o.i != 2 && o.i != 3)) sol(l.spr, l.sprm);
    if (o.k == FTERM || o.k == EONE || o.k == STEP || o.k == PARTS || (o.k == EVAL && (o.i == 2 || o.i == 3))) {
      b.drop_matsubara_poles = l.termm;
      b.construct(diags()[l.term].N, gprod(diags()[l.term]), w.t);
      if (o.k == EVAL && o.i == 3) b.factorize_terms(w.t, w.f2.u, w.f2.rr, w.f2.el);
    }
    r = "R" + perform(w, o);
  } catch (Violation &v) { r = "V" + v.what; }
  return r;
}
namespace zyg {
static int to = -1, from = -1;
static bool rd(int fd, void *p, size_t n) {
  for (size_t k = 0; k < n;) { ssize_t y = read(fd, (char *)p + k, n - k); if (y <= 0) return false; k += y; }
  return true;
}
static bool wr(int fd, const void *p, size_t n) {
  for (size_t k = 0; k < n;) { ssize_t y = write(fd, (const char *)p + k, n - k); if (y <= 0) return false; k += y; }
  return true;
}
static void start() {
  int a[2], b[2];
  if (pipe(a) || pipe(b)) exit(3);
  fflush(stdout);
  if (fork() == 0) {
    close(a[1]);
    close(b[0]);
    struct { Log l; Op o; } q;
    while (rd(a[0], &q, sizeof q)) {
      int c[2];
      if (pipe(c)) _exit(3);
      pid_t pid = fork();
      if (pid == 0) {
        std::string r = answer(q.l, q.o);
        int n = (int)r.size();
        wr(c[1], &n, sizeof n) && wr(c[1], r.data(), n);
        _exit(0);
      }
      close(c[1]);
      int n = 0;
      std::string r;
      if (rd(c[0], &n, sizeof n)) { r.resize(n); if (!rd(c[0], &r[0], n)) r.clear(); }
      close(c[0]);
      int st;
      waitpid(pid, &st, 0);
      n = (int)r.size();
      if (!wr(b[1], &n, sizeof n) || !wr(b[1], r.data(), n)) break;
    }
    _exit(0);
  }
  close(a[0]);
  close(b[1]);
  to = a[1];
  from = b[0];
}
static void ask(const Log &l, const Op &o, std::string &r) {
  struct { Log l; Op o; } q = {l, o};
  int n = 0;
  REQUIRE_(wr(to, &q, sizeof q) && rd(from, &n, sizeof n), "no answer from the fresh process");
  r.resize(n);
  REQUIRE_(rd(from, &r[0], n), "no answer from the fresh process");
}
} // namespace zyg
static std::string fresh(const Log &l, const Op &o) {
  std::string k = key(l, o);
  auto it = memo.find(k);
  if (it != memo.end()) return it->second;
  std::string r;
  zyg::ask(l, o, r);
  REQUIRE_(!r.empty(), name(o) << " died on a fresh object");
  if (r[0] == 'V') throw Violation{r.substr(1)};
  memo[k] = r.substr(1);
  return memo[k];
}
static int start_state = 0;
static World begin() {
  World w;
  w.a.drop_matsubara_poles = true;
  if (start_state == 1) { // containers already hold results, and the object has been used
    AmiBase b;
    In x = point(4, 0);
    auto p = x.parms();
    b.construct(p, gprod(diags()[4]), w.s.R, w.s.P, w.s.S);
    b.construct(p, gprod(diags()[4]), w.t);
    b.construct(p, gprod(diags()[4]), w.st);
    b.factorize_Rn(w.s.R.back(), w.f1.u, w.f1.rr, w.f1.el);
    b.factorize_terms(w.t, w.f2.u, w.f2.rr, w.f2.el);
    w.l.spr = w.l.term = w.l.f1 = w.l.f2 = 4;
    w.a.overflow_detected = true;
  }
  return w;
}
// all pairs of calls of the functions of small integers, and of the statistical functions of all orders
static void numbers_(Ctx &cx) {
  struct Call { int k, a, b; };
  std::vector<Call> call;
  for (int m = 0; m <= 12; m++) { call.push_back({0, m, 1}); call.push_back({0, m, -1}); call.push_back({1, m, 0}); }
  for (int n = 0; n <= 12; n++) for (int k = 0; k <= n; k++) { call.push_back({2, n, k}); call.push_back({3, n, k}); }
  auto run = [](AmiBase &a, const Call &c) -> C {
    if (c.k == 0) return a.fermi_bose(c.a, c.b, 1.5, C(-0.7, c.a % 3 == 1 ? 0.25 : 0));
    if (c.k == 1) return a.factorial(c.a);
    if (c.k == 2) return a.frk(c.a, c.b);
    return a.binomialCoeff(c.a, c.b);
  };
  auto exact = [](const Call &c) -> double { // k! S(n,k), n!, binomials
    if (c.k == 1) { double f = 1; for (int i = 2; i <= c.a; i++) f *= i; return f; }
    std::vector<std::vector<double>> T(14, std::vector<double>(14, 0));
    T[0][0] = 1;
    for (int n = 1; n < 14; n++) for (int k = 0; k <= n; k++) T[n][k] = c.k == 2 ? k * T[n - 1][k] + (k ? k * T[n - 1][k - 1] : 0) : T[n - 1][k] + (k ? T[n - 1][k - 1] : 0);
    return T[c.a][c.b];
  };
  auto text = [](const Call &c) { static const char *K[] = {"fermi_bose", "factorial", "frk", "binomialCoeff"}; return std::string(K[c.k]) + "(" + std::to_string(c.a) + "," + std::to_string(c.b) + ")"; };
  std::vector<C> fr;
  for (auto &c : call) { AmiBase a; fr.push_back(run(a, c)); }
  for (size_t i = 0; i < call.size(); i++)
    cx.visit([&] { return "pairs after " + text(call[i]); }, [&] {
      if (call[i].k) REQUIRE_(std::abs(fr[i] - exact(call[i])) <= 1e-9 * std::max(1.0, std::abs(exact(call[i]))), text(call[i]) << " is " << fr[i] << " instead of " << exact(call[i]));
      AmiBase all; // one object for all pairs as well
      for (size_t j = 0; j < call.size(); j++) {
        AmiBase a;
        run(a, call[i]);
        C r = run(a, call[j]);
        REQUIRE_(r == fr[j], text(call[j]) << " after " << text(call[i]) << " gives " << r << " instead of " << fr[j]);
        run(all, call[i]);
        r = run(all, call[j]);
        REQUIRE_(r == fr[j], text(call[j]) << " after " << text(call[i]) << " and others gives " << r << " instead of " << fr[j]);
        r = run(all, call[call.size() - 1 - j]);
        REQUIRE_(r == fr[call.size() - 1 - j], text(call[call.size() - 1 - j]) << " after others gives " << r);
        cx.cnt["comparisons"] += 3;
        cx.cnt["transitions"] += 5;
      }
    });
}
static void long_(Ctx &cx) {
  std::vector<std::pair<std::string, std::vector<int>>> hs;
  for (int st : {1, 5, 51, 389}) { // every kind in turn; one kind; strides
    std::vector<int> up, down;
    for (int r = 0; r < 2; r++) for (int k = 0; k < NLONG; k++) up.push_back((int)((long)k * st % NLONG));
    if (st == 5) { up.clear(); for (int r = 0; r < 2; r++) for (int kind = 0; kind < 5; kind++) for (int k = kind; k < NLONG; k += 5) up.push_back(k); }
    down.assign(up.rbegin(), up.rend());
    hs.push_back({"stride " + std::to_string(st), up});
    hs.push_back({"stride " + std::to_string(st) + " backwards", down});
  }
  for (auto &h : hs)
    cx.visit([&] { return "long history, " + h.first; }, [&] {
      AmiBase a;
      long k = 0;
      for (int i : h.second) {
        std::string r = longcall(a, i), f, key = "long " + std::to_string(i);
        auto it = memo.find(key);
        if (it == memo.end()) { zyg::ask(Log(), Op{(Kind)LONG, i, 0}, f); REQUIRE_(!f.empty(), "call " << i << " died on a fresh object"); it = memo.insert({key, f.substr(1)}).first; }
        REQUIRE_(r == it->second, "call " << i << " after " << k << " others does not give the result of a fresh object");
        k++;
        cx.cnt["comparisons"]++;
        cx.cnt["transitions"]++;
      }
    });
  for (int i : {1, 2, 3, 4, 5, 10})
    cx.visit([&] { return "one call repeated, " + std::to_string(i); }, [&] {
      AmiBase a;
      std::string f = longcall(a, i);
      for (int k = 0; k < (cx.thorough ? 300000 : 20000); k++) REQUIRE_(longcall(a, i) == f, "call " << i << " repeated " << k << " times changes its result");
      cx.cnt["comparisons"] += 20000;
    });
}
// a solution, a factorization, parameters or variables changed in place between two evaluations: every coefficient,
// sign, order and reference in turn, against a new object and copies of everything
static void edits(Ctx &cx) {
  std::vector<Diagram> ds = {mk(0, {{1}, {-1}}, {0, 1}), mk(1, {{1, 0}, {1, 0}, {-1, 1}}, {0, 0, 1}), mk(1, {{1, 0}, {1, 1}, {0, 1}}, {0, 1, 2}), mk(2, {{1, 0, 0}, {0, 1, 0}, {1, -1, 1}}, {0, 1, 2}), mk(2, {{1, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, -1, 1}}, {0, 0, 1, 2}),
                             mk(3, {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 1, 1}}, {0, 1, 2, 3}), mk(4, {{1, 0, 0, 0, 0}, {0, 1, 0, 0, 0}, {0, 0, 1, 0, 0}, {0, 0, 0, 1, 0}, {0, 0, 0, 0, 1}}, {0, 1, 2, 3, 4})};
  if (cx.thorough) for (auto &d : ldiags()) if (ds.size() < 80) ds.push_back(d);
  for (auto &d : ds)
    cx.visit([&] { return "changed in place: " + show(d); }, [&] {
      AmiBase a;
      struct State { All o; AmiBase::ami_parms p; AmiBase::ami_vars v; } w;
      build(a, d, w.o);
      In x = at(d, points()[4]);
      w.p = x.parms();
      w.v = x.vars();
      struct Edit { std::string what; std::function<void(State &, int)> f; }; // +1 does it, -1 undoes it
      std::vector<Edit> E;
      auto add = [&](std::string what, std::function<void(State &, int)> f) { E.push_back({what, f}); };
      auto pole = [&](std::string what, std::function<AmiBase::pole_struct &(State &)> g) {
        AmiBase::pole_struct q = g(w);
        for (size_t i = 0; i < q.eps_.size(); i++) add(what + " energy", [=](State &s, int u) { g(s).eps_[i] += u; });
        for (size_t i = 0; i < q.alpha_.size(); i++) add(what + " frequency", [=](State &s, int u) { g(s).alpha_[i] += 2 * u; });
        add(what + " statistics", [=](State &s, int u) { g(s).alpha_[0] += (q.alpha_[0] ? -q.alpha_[0] : 1) * u; });
        add(what + " order", [=](State &s, int u) { g(s).der_ += u; });
        add(what + " spectral frequency", [=](State &s, int u) { if (u > 0) g(s).x_alpha_ = VI(d.F(), 1); else g(s).x_alpha_.clear(); });
      };
      auto line = [&](std::string what, std::function<G_ &(State &)> g) {
        G_ q = g(w);
        for (size_t i = 0; i < q.eps_.size(); i++) add(what + " energy", [=](State &s, int u) { g(s).eps_[i] += u; });
        for (size_t i = 0; i < q.alpha_.size(); i++) add(what + " frequency", [=](State &s, int u) { g(s).alpha_[i] += 2 * u; });
      };
      auto fac = [&](std::string what, std::function<Fac &(State &)> g) {
        Fac &F = g(w);
        for (size_t i = 0; i < F.u.size(); i++) line(what + " propagator", [=](State &s) -> G_ & { return g(s).u[i]; });
        for (size_t i = 0; i < F.el.size(); i++)
          for (size_t j = 0; j < F.el[i].size(); j++) add(what + " factor", [=](State &s, int u) { g(s).el[i][j].second += 3 * u; });
        for (size_t i = 0; i < F.rr.size(); i++)
          for (size_t j = 0; j < F.rr[i].size(); j++) { int n = (int)F.u.size(), o = F.rr[i][j].first; add(what + " reference", [=](State &s, int u) { g(s).rr[i][j].first = u > 0 ? (o + 1) % n : o; }); }
      };
      for (size_t i = 0; i < w.o.t.size(); i++) {
        std::string n = "term " + std::to_string(i);
        add(n + " sign", [=](State &s, int u) { s.o.t[i].sign *= u > 0 ? -2.0 : -0.5; });
        for (size_t j = 0; j < w.o.t[i].p_list.size(); j++) pole(n + " pole " + std::to_string(j), [=](State &s) -> AmiBase::pole_struct & { return s.o.t[i].p_list[j]; });
        for (size_t j = 0; j < w.o.t[i].g_list.size(); j++) line(n + " line " + std::to_string(j), [=](State &s) -> G_ & { return s.o.t[i].g_list[j]; });
      }
      for (size_t k = 0; k < w.o.s.P.size(); k++)
        for (size_t i = 0; i < w.o.s.P[k].size(); i++)
          for (size_t j = 0; j < w.o.s.P[k][i].size(); j++) {
            pole("P", [=](State &s) -> AmiBase::pole_struct & { return s.o.s.P[k][i][j]; });
            add("S", [=](State &s, int u) { s.o.s.S[k][i][j] *= u > 0 ? -2.0 : -0.5; });
          }
      for (size_t i = 0; i < w.o.s.R.back().size(); i++)
        for (size_t j = 0; j < w.o.s.R.back()[i].size(); j++) line("R", [=](State &s) -> G_ & { return s.o.s.R.back()[i][j]; });
      fac("S,P,R factorization", [](State &s) -> Fac & { return s.o.fs; });
      fac("term factorization", [](State &s) -> Fac & { return s.o.ft; });
      for (size_t i = 0; i < w.v.energy_.size(); i++) { C z = w.v.energy_[i]; add("energy value", [=](State &s, int u) { s.v.energy_[i] = u > 0 ? z + 0.25 : z; }); }
      for (size_t i = 0; i < w.v.frequency_.size(); i++) { C z = w.v.frequency_[i]; add("frequency value", [=](State &s, int u) { s.v.frequency_[i] = u > 0 ? z + C(0, 0.5) : z; }); }
      add("prefactor", [](State &s, int u) { s.v.prefactor *= u > 0 ? -2.0 : -0.5; });
      add("temperature", [](State &s, int u) { s.v.BETA_ *= u > 0 ? 2.0 : 0.5; });
      add("regulator", [](State &s, int u) { s.p.E_REG_ += 0.125 * u; });
      auto type0 = w.p.TYPE_;
      add("kind", [=](State &s, int u) { s.p.TYPE_ = u > 0 ? AmiBase::doubleocc : type0; });
      add("kind", [=](State &s, int u) { s.p.TYPE_ = u > 0 ? AmiBase::Pi_ppud : type0; });
      auto run = [](AmiBase &b, State &s, int f) -> std::string {
        return ser([&](Ser &z) {
          All &o = s.o;
          if (f == 0) z.c(b.evaluate(s.p, o.s.R, o.s.P, o.s.S, s.v));
          else if (f == 1) z.c(b.evaluate(s.p, o.s.R, o.s.P, o.s.S, s.v, o.fs.u, o.fs.rr, o.fs.el));
          else if (f == 2) z.c(b.evaluate(s.p, o.t, s.v));
          else if (f == 3) z.c(b.evaluate(s.p, o.t, s.v, o.ft.u, o.ft.rr, o.ft.el));
          else if (f == 4) z.c(b.evaluate_otf(s.p, o.s.R, o.s.P, o.s.S, s.v));
          else {
            auto &t = o.t[(size_t)(f - 5) / 3 % o.t.size()];
            if (f % 3 == 0) z.c(b.eval_gprod(s.p, t.g_list, s.v));
            else if (f % 3 == 1) z.c(b.eval_fprod(s.p, t.p_list, s.v));
            else z.c(b.evaluate_term(s.p, t, s.v));
          }
          z.raw(b.overflow_detected && f < 5); // the pieces leave it as it is or set it
        });
      };
      auto fresh_ = [&](int f) { AmiBase b; State c = w; return run(b, c, f); };
      int nf = 5 + 3 * (int)std::min<size_t>(w.o.t.size(), 8);
      for (auto &e : E)
        for (int f = 0; f < nf; f++) {
          std::string r0 = run(a, w, f);
          e.f(w, 1);
          std::string r1 = run(a, w, f);
          REQUIRE_(r1 == fresh_(f), e.what << " changed in place: evaluation " << f << " does not give the result of a fresh object");
          e.f(w, -1);
          std::string r2 = run(a, w, f);
          REQUIRE_(r2 == fresh_(f), e.what << " changed back in place: evaluation " << f << " does not give the result of a fresh object");
          REQUIRE_(r2 == r0, e.what << " changed in place and back: evaluation " << f << " does not give the earlier result");
          cx.cnt["comparisons"] += 3;
          cx.cnt["transitions"] += 3;
          cx.cnt["histories"]++;
        }
      if (d.N) { // functions of arrays
        for (auto &e : E) {
          auto two = [&](const char *what, std::function<std::string(AmiBase &, State &)> g) {
            g(a, w);
            e.f(w, 1);
            std::string r = g(a, w);
            { AmiBase b; State c = w; REQUIRE_(r == g(b, c), what << " after " << e.what << " was changed in place"); }
            e.f(w, -1);
            r = g(a, w);
            { AmiBase b; State c = w; REQUIRE_(r == g(b, c), what << " after " << e.what << " was changed back in place"); }
            cx.cnt["comparisons"] += 2;
          };
          two("fermi", [](AmiBase &b, State &s) { return ser([&](Ser &z) { for (auto &x : s.o.s.P) for (auto &y : b.fermi(s.p, x, s.v)) for (auto &q : y) z.c(q); }); });
          two("factorize_Rn", [](AmiBase &b, State &s) { return ser([&](Ser &z) { Fac f; b.factorize_Rn(s.o.s.R.back(), f.u, f.rr, f.el); z.fac(f); }); });
          two("factorize_terms", [](AmiBase &b, State &s) { return ser([&](Ser &z) { Fac f; b.factorize_terms(s.o.t, f.u, f.rr, f.el); z.fac(f); }); });
          two("derivative_opt", [](AmiBase &b, State &s) { return ser([&](Ser &z) { Fac f = s.o.fs; b.derivative_opt(f.u, f.rr, f.el); z.fac(f); }); });
        }
        // the integrand of a construction, changed in place
        AmiBase::g_prod_t g = gprod(d);
        for (size_t l = 0; l < g.size(); l++)
          for (size_t c = 0; c < g[l].eps_.size() + g[l].alpha_.size(); c++) {
            int &n = c < g[l].eps_.size() ? g[l].eps_[c] : g[l].alpha_[c - g[l].eps_.size()];
            if (c >= g[l].eps_.size() && (int)(c - g[l].eps_.size()) < d.N) { if (n == 0) continue; } // reverse it
            int old = n;
            auto make = [&](AmiBase &b, AmiBase::g_prod_t &h) { return ser([&](Ser &z) { Spr s; AmiBase::terms t; b.construct(w.p, h, s.R, s.P, s.S); b.construct(w.p, h, t); z.spr(s); z.terms(t); z.ps(b.find_poles(0, h)); for (double q : b.find_signs(0, h)) z.d(q); }); };
            for (int way = 0; way < 2; way++) {
              n = way ? old : c < g[l].eps_.size() ? old + 1 : old ? -old : 1;
              Diagram e = d;
              for (size_t i = 0; i < g.size(); i++) { e.ls[i].e = g[i].eps_; e.ls[i].a = g[i].alpha_; }
              if (!domain(e).valid) continue;
              AmiBase b;
              auto h = g;
              REQUIRE_(make(a, g) == make(b, h), "construction of an integrand changed in place does not give the result of a fresh object");
              cx.cnt["comparisons"]++;
            }
            n = old;
          }
      }
    });
}
void explore(Ctx &cx) {
  if (!freopen("/dev/null", "w", stdout)) return;
  const auto &O = ops(cx.thorough);
  zyg::start();
  numbers_(cx);
  long_(cx);
  edits(cx);
  int D = cx.thorough ? 5 : 4;
  int n = (int)O.size();
  for (start_state = 0; start_state < 2; start_state++) {
    int depth = D;
    // a case is a prefix of length depth-2; the last two operations are enumerated inside
    long pre = 1;
    for (int i = 0; i < depth - 2; i++) pre *= n;
    for (long c = 0; c < pre; c++) {
      std::vector<int> h;
      long y = c;
      for (int i = 0; i < depth - 2; i++) { h.push_back(y % n); y /= n; }
      int ss = start_state;
      auto text = [&](const std::vector<int> &q) { std::string s = "start " + std::to_string(ss) + ":"; for (int i : q) s += " " + name(O[i]) + ";"; return s; };
      cx.visit([&] { return text(h); }, [&] {
        start_state = ss;
        { // prefix must be enabled
          World w = begin();
          for (int i : h) { if (!enabled(w.l, O[i])) { cx.cnt["prefix_not_enabled"]++; return; } perform(w, O[i]); }
        }
        // executes one more operation on w and compares it with a fresh object
        auto act = [&](World &w, const std::vector<int> &q, bool cmp) {
          const Op &o = O[q.back()];
          Log before = w.l;
          std::string r = perform(w, o);
          cx.cnt["transitions"]++;
          if (!cmp || o.k == CONF || o.k == VERB || o.k == PRINT) return;
          std::string f = fresh(before, o);
          cx.cnt["comparisons"]++;
          if (r != f) {
            std::string extra;
            if (o.k == EVAL || o.k == EONE || o.k == STAT) {
              double a[2], b[2];
              memcpy(a, r.data(), 16);
              memcpy(b, f.data(), 16);
              std::ostringstream e;
              e.precision(17);
              e << " (" << C(a[0], a[1]) << " instead of " << C(b[0], b[1]) << ", indicator " << (r.size() > 16 ? (int)r[16] : -1) << " / " << (f.size() > 16 ? (int)f[16] : -1) << ")";
              extra = e.str();
            }
            throw Violation{"history " + text(q) + " -> the last operation does not give the result of a fresh object" + extra};
          }
          if (o.k == EVAL) { // repeated: the same bits
            std::string r2 = perform(w, o);
            REQUIRE_(r2 == r, text(q) << " repeated gives a different result");
          }
        };
        for (int x = 0; x < n; x++) {
          World w = begin();
          std::vector<int> q;
          for (int i : h) { q.push_back(i); act(w, q, x == 0); }
          if (!enabled(w.l, O[x])) continue;
          q.push_back(x);
          act(w, q, true);
          for (int z = 0; z < n; z++) {
            if (!enabled(w.l, O[z])) continue;
            World u = w;
            std::vector<int> p = q;
            p.push_back(z);
            act(u, p, true);
            cx.cnt["histories"]++;
          }
        }
        cx.cnt["states"] = (long)memo.size();
      });
      if (cx.stop()) return;
    }
  }
}
