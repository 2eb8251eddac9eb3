// C10: two real threads, each with an AmiBase of its own, under a controlled scheduler.  The library is compiled
// with a callback at every edge of its control flow and at every load and store; only one thread runs at a time
// and control changes hands exactly at the points that the explored schedule names.  Every schedule runs in a
// process of its own, forked from one that has not yet run anything (or that has only built the shared
// solution), and its observations are compared bit by bit with those of each thread alone.
#include "fams.hpp"
#include "forms.hpp"
#include "ser.hpp"
#include <array>
#include <atomic>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/wait.h>
#include <unordered_map>
#ifndef MAP_ANONYMOUS
#define MAP_ANONYMOUS 0x20
#endif
static volatile bool tick_free = true; // no scheduling (recording of the solution, free-running pass)

// ---------------------------------------------------------------- the scheduler
static thread_local int me = -1;
static thread_local uintptr_t stack_lo, stack_hi;
static sem_t go_[2], ready_;
static volatile bool finished_[2];
static volatile long cnt_[2];
static std::vector<long> sw_[2]; // own counts before which the thread hands over
static size_t swi_[2];
static bool record_ = false;
struct Rec { std::vector<char> kind; std::vector<uintptr_t> addr; }; // per point: 0 edge, 1 load, 2 store
static Rec rec_[2];
static void handoff(int id) {
  int o = 1 - id;
  if (finished_[o]) return;
  sem_post(&go_[o]);
  while (sem_wait(&go_[id])) {}
}
static inline void point(int kind, uintptr_t a) {
  int id = me;
  if (id < 0 || tick_free) return;
  if (kind && a >= stack_lo && a < stack_hi) return;
  long c = ++cnt_[id];
  if (record_) { me = -1; rec_[id].kind.push_back((char)kind); rec_[id].addr.push_back(a); me = id; }
  if (swi_[id] < sw_[id].size() && c >= sw_[id][swi_[id]]) { swi_[id]++; handoff(id); return; }
  if (c % 2000000 == 0) handoff(id); // a thread that waits in a loop for the other one
}
static void blocked(int id) {
  static thread_local long n = 0;
  if (++n > 200000 || finished_[1 - id]) _exit(43); // nobody can run
  handoff(id);
}
extern "C" {
void __sanitizer_cov_trace_pc_guard(uint32_t *) { point(0, 0); }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
#define LS(n)                                                                                                \
  void __sanitizer_cov_load##n(void *a) { point(1, (uintptr_t)a); }                                          \
  void __sanitizer_cov_store##n(void *a) { point(2, (uintptr_t)a); }
LS(1) LS(2) LS(4) LS(8) LS(16)
#ifndef FREE
// waiting is made visible: a thread that would block gives way to the other one
int pthread_mutex_lock(pthread_mutex_t *m) {
  for (;;) {
    int r = pthread_mutex_trylock(m);
    if (r != EBUSY) return r;
    if (me >= 0 && !tick_free) blocked(me); else sched_yield();
  }
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  for (;;) {
    int r = pthread_rwlock_tryrdlock(m);
    if (r != EBUSY) return r;
    if (me >= 0 && !tick_free) blocked(me); else sched_yield();
  }
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  for (;;) {
    int r = pthread_rwlock_trywrlock(m);
    if (r != EBUSY) return r;
    if (me >= 0 && !tick_free) blocked(me); else sched_yield();
  }
}
int pthread_once(pthread_once_t *o, void (*f)(void)) {
  volatile int *s = (volatile int *)o;
  while (*s == 1) { if (me >= 0 && !tick_free) blocked(me); else sched_yield(); }
  if (*s == 0) { *s = 1; f(); *s = 2; }
  return 0;
}
int __cxa_guard_acquire(uint64_t *g) {
  volatile char *b = (volatile char *)g;
  while (!b[0] && b[1]) { if (me >= 0 && !tick_free) blocked(me); else sched_yield(); }
  if (b[0]) return 0;
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(uint64_t *g) { volatile char *b = (volatile char *)g; b[1] = 0; __sync_synchronize(); b[0] = 1; }
void __cxa_guard_abort(uint64_t *g) { ((volatile char *)g)[1] = 0; }
#endif
}

// ---------------------------------------------------------------- the driver: what the two threads do
static const std::vector<Diagram> &dg() {
  static std::vector<Diagram> D = {
      mk(1, {{1, 0}, {-1, 1}, {1, 0}}, {0, 1, 0}),
      mk(1, {{1, 0}, {1, 1}}, {0, 1}),
      mk(2, {{1, 0, 0}, {0, 1, 0}, {-1, 1, 1}}, {0, 1, 2}),
      mk(2, {{1, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, -1, 1}}, {0, 0, 1, 2})};
  return D;
}
enum { CSPR, CTERM, FRN, FTERM, E0, E1, E2, E3, E4, DER, STATF, ISTEP, SINGLE, PIPE, OWN, NOPS };
static const char *ON[] = {"construct_spr", "construct_terms", "factorize_Rn", "factorize_terms", "evaluate(spr)", "evaluate(spr_factorized)", "evaluate(terms)", "evaluate(terms_factorized)", "evaluate_otf", "derivative_opt", "fermi_bose", "integrate_step", "single_steps", "pipeline", "evaluate_otf(own solution)"};
static const bool WARM[] = {false, false, true, true, true, true, true, true, true, true, false, true, false, false, true};
struct Shared { All o, own[2]; AmiBase::ami_vars ov[2]; AmiBase::ami_parms p[2]; AmiBase::ami_vars v[2]; };
static Shared *sh = nullptr;
static AmiBase::ami_vars numbers(const Diagram &d, int side) {
  In x = at(d, points()[side ? 4 : 0]);
  x.E.resize(4, C(0.77, 0));
  if (side) { x.pf = -2; x.E[1] = -x.E[0]; }
  return x.vars();
}
static AmiBase::ami_parms parms(const Diagram &d, int side) { return side ? AmiBase::ami_parms(d.N, 0.125, AmiBase::Pi_phuu) : AmiBase::ami_parms(d.N, 0); }
static bool common_ = false; // both threads are given the same parameters and external variables
static std::string body(int op, int side) {
  const int nu = common_ ? 0 : side;
  Ser s;
  try {
    AmiBase a;
    if (side) { a.precision_cutoff = 1e-3; a.drop_bosonic_diverge = true; }
    const Diagram &cd = dg()[side ? 1 : 0];
    switch (op) {
    case CSPR: { Spr r; auto p = parms(cd, side); a.construct(p, gprod(cd), r.R, r.P, r.S); s.spr(r); break; }
    case CTERM: { AmiBase::terms t; a.construct(cd.N, gprod(cd), t); s.terms(t); break; }
    case FRN: { Fac f; a.factorize_Rn(sh->o.s.R.back(), f.u, f.rr, f.el); s.fac(f); break; }
    case FTERM: { Fac f; a.factorize_terms(sh->o.t, f.u, f.rr, f.el); s.fac(f); break; }
    case E0: s.c(a.evaluate(sh->p[nu], sh->o.s.R, sh->o.s.P, sh->o.s.S, sh->v[nu])); break;
    case E1: s.c(a.evaluate(sh->p[nu], sh->o.s.R, sh->o.s.P, sh->o.s.S, sh->v[nu], sh->o.fs.u, sh->o.fs.rr, sh->o.fs.el)); break;
    case E2: s.c(a.evaluate(sh->p[nu], sh->o.t, sh->v[nu])); break;
    case E3: s.c(a.evaluate(sh->p[nu], sh->o.t, sh->v[nu], sh->o.ft.u, sh->o.ft.rr, sh->o.ft.el)); break;
    case E4: s.c(a.evaluate_otf(sh->p[nu], sh->o.s.R, sh->o.s.P, sh->o.s.S, sh->v[nu])); break;
    case DER: { Fac f = sh->o.fs; a.derivative_opt(f.u, f.rr, f.el); s.fac(f); break; }
    case STATF:
      for (int m : {0, 1, 2, 4, 6})
        for (double x : {0.3, -2.0}) s.c(a.fermi_bose(m, side ? -1 : 1, side ? 2.0 : 0.7, C(x, side ? 0.2 : 0)));
      for (int m = 0; m < 4; m++) { s.d(a.frk(m, side)); s.d(a.binomialCoeff(m + 2, side + 1)); s.d(a.factorial(m + side)); }
      break;
    case ISTEP: { AmiBase::terms t{AmiBase::term(side + 1.0, AmiBase::pole_array_t(), gprod(sh->o.d))}, o; a.integrate_step(side ? 0 : sh->o.d.N - 1, t, o); s.terms(o); break; }
    case SINGLE: {
      auto g = gprod(cd);
      auto v = numbers(cd, side);
      auto p = parms(cd, side);
      auto poles = a.find_poles(0, g);
      s.ps(poles);
      for (double x : a.find_signs(0, g)) s.d(x);
      for (auto &q : poles) {
        s.d(a.get_simple_sign(0, g, q));
        s.d(a.get_starting_sign(g, q));
        s.gs(a.reduce_gprod(g, q));
        for (auto &x : g) s.g(a.update_G_pole(x, q));
        s.c(a.get_energy_from_pole(q, v));
        s.c(a.fermi_pole(p, q, v));
      }
      s.c(a.eval_gprod(p, g, v));
      break;
    }
    case OWN: s.c(ev(a, sh->own[side], sh->ov[side], 4)); break;
    default: {
      const Diagram &pd = dg()[side ? 1 : 0];
      All o;
      build(a, pd, o);
      auto v = numbers(pd, side);
      for (int f = 0; f < NF; f++) { s.c(ev(a, o, v, f)); s.raw(a.overflow_detected); }
      s.spr(o.s); s.terms(o.t); s.fac(o.fs); s.fac(o.ft);
    }
    }
    s.raw(a.overflow_detected);
    s.switches(a);
  } catch (std::exception &e) { s.b += std::string("exception ") + e.what(); }
  return s.b;
}
static void warm(int diag) {
  tick_free = true;
  sh = new Shared;
  AmiBase a;
  build(a, dg()[diag], sh->o);
  for (int i = 0; i < 2; i++) { // of different sizes, with energies that coincide
    build(a, i ? mk(1, {{1, 0}, {1, 0}, {1, 1}, {-1, 1}, {1, 1}}, {0, 1, 2, 3, 4}) : mk(1, {{1, 0}, {1, 0}, {1, 1}}, {0, 1, 2}), sh->own[i]);
    sh->ov[i] = numbers(sh->own[i].d, 0);
    sh->ov[i].energy_.resize(5, C(0.41, 0));
    sh->ov[i].energy_[1] = sh->ov[i].energy_[0];
    if (i) sh->ov[i].energy_[4] = sh->ov[i].energy_[2];
  }
  for (int i = 0; i < 2; i++) { sh->p[i] = parms(dg()[diag], i); sh->v[i] = numbers(dg()[diag], i); }
}
static std::string shared_state() {
  if (!sh) return "";
  return ser([&](Ser &s) { s.spr(sh->o.s); s.terms(sh->o.t); s.fac(sh->o.fs); s.fac(sh->o.ft); for (int i = 0; i < 2; i++) { s.parms(sh->p[i]); s.vars(sh->v[i]); } });
}
struct Pair { int op[2]; int diag; bool common; };
static std::string show(const Pair &p) { return std::string(ON[p.op[0]]) + " || " + ON[p.op[1]] + ", solution " + std::to_string(p.diag) + (p.common ? ", same numbers" : ""); }
static std::string res_[2];
static std::string *cur_res(int i) { return &res_[i]; }
struct Arg { int id; const Pair *p; };
static void *thread_main(void *x) {
  Arg *g = (Arg *)x;
  int id = g->id;
#ifndef FREE
  pthread_attr_t at;
  pthread_getattr_np(pthread_self(), &at);
  void *lo;
  size_t sz;
  pthread_attr_getstack(&at, &lo, &sz);
  stack_lo = (uintptr_t)lo;
  stack_hi = stack_lo + sz;
  pthread_attr_destroy(&at);
  void *volatile m = malloc(64); // its own arena: no memory is handed from one thread to the other
  free(m);
  sem_post(&ready_);
  while (sem_wait(&go_[id])) {}
  me = id;
#endif
  std::string r = body(g->p->op[id], id);
#ifndef FREE
  me = -1;
  finished_[id] = true;
  *cur_res(id) = r;
  if (!finished_[1 - id]) sem_post(&go_[1 - id]);
#else
  *cur_res(id) = r;
#endif
  return nullptr;
}
#ifndef FREE
// ---------------------------------------------------------------- one execution, in this process
struct Sched { int first = 0; long k1 = 0, m1 = 0; int threads = 3; };
static void execute(const Pair &p, const Sched &sc) {
  for (int i = 0; i < 2; i++) { sem_init(&go_[i], 0, 0); finished_[i] = !(sc.threads >> i & 1); cnt_[i] = 0; sw_[i].clear(); swi_[i] = 0; }
  if (sc.k1) sw_[sc.first].push_back(sc.k1);
  if (sc.m1) sw_[1 - sc.first].push_back(sc.m1);
  sem_init(&ready_, 0, 0);
  tick_free = false;
  pthread_t t[2];
  Arg a[2] = {{0, &p}, {1, &p}};
  for (int i = 0; i < 2; i++) if (sc.threads >> i & 1) pthread_create(&t[i], nullptr, thread_main, &a[i]);
  for (int i = 0; i < 2; i++) if (sc.threads >> i & 1) while (sem_wait(&ready_)) {}
  sem_post(&go_[(sc.threads >> sc.first & 1) ? sc.first : 1 - sc.first]);
  for (int i = 0; i < 2; i++) if (sc.threads >> i & 1) pthread_join(t[i], nullptr);
  tick_free = true;
}
// shared memory between the explorer and the executions
struct Mail { long len; long counts[2]; char data[1 << 24]; };
static Mail *mail = nullptr;
static void post(const std::string &s) { mail->len = (long)std::min(s.size(), sizeof mail->data); memcpy(mail->data, s.data(), (size_t)mail->len); }
static std::string take() { return std::string(mail->data, (size_t)mail->len); }
// fork, run f there; true if it ended normally
static int in_child(const std::function<void()> &f, int limit) {
  mail->len = 0;
  pid_t c = fork();
  if (c == 0) {
    signal(SIGALRM, SIG_DFL);
    alarm((unsigned)limit);
    f();
    _exit(0);
  }
  int st = 0;
  while (waitpid(c, &st, 0) < 0) {}
  return st;
}
static std::string died(int st) {
  if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGALRM ? "it does not end" : std::string("it dies with signal ") + std::to_string(WTERMSIG(st));
  return WEXITSTATUS(st) == 43 ? "the threads wait for each other for ever" : "exit status " + std::to_string(WEXITSTATUS(st));
}
struct Plan { std::string alone[2], shared; std::vector<long> edges[2], conf[2]; long npoints[2]; };
static bool needs_warm(const Pair &p) { return WARM[p.op[0]] || WARM[p.op[1]]; }
static Plan plan(const Pair &p) {
  Plan r;
  for (int i = 0; i < 2; i++) {
    int st = in_child([&] { if (needs_warm(p)) warm(p.diag); Sched s; s.first = i; s.threads = 1 << i; execute(p, s); post(res_[i]); mail->counts[i] = cnt_[i]; }, 60);
    REQUIRE_(st == 0, "alone: " << ON[p.op[i]] << ": " << died(st));
    r.alone[i] = take();
    r.npoints[i] = mail->counts[i];
  }
  // the points of each thread, and the memory that both touch and one writes, from one execution in sequence
  int st = in_child([&] {
    if (needs_warm(p)) warm(p.diag);
    for (auto &x : rec_) { x.kind.reserve(1 << 22); x.addr.reserve(1 << 22); }
    record_ = true;
    execute(p, Sched());
    record_ = false;
    std::unordered_map<uintptr_t, int> use; // bits: read/written by thread 0/1
    for (int i = 0; i < 2; i++)
      for (size_t k = 0; k < rec_[i].kind.size(); k++) if (rec_[i].kind[k]) use[rec_[i].addr[k] >> 3] |= (rec_[i].kind[k] == 2 ? 2 : 1) << (2 * i);
    std::string o;
    for (int i = 0; i < 2; i++) {
      std::vector<long> e, c;
      for (size_t k = 0; k < rec_[i].kind.size(); k++) {
        if (!rec_[i].kind[k]) { e.push_back((long)k + 1); continue; }
        int u = use[rec_[i].addr[k] >> 3], a = u & 3, b = u >> 2;
        if (a && b && ((a | b) & 2)) c.push_back((long)k + 1);
      }
      for (auto *v : {&e, &c}) { long n = (long)v->size(); o.append((char *)&n, sizeof n); o.append((char *)v->data(), sizeof(long) * v->size()); }
    }
    post(o);
  }, 60);
  REQUIRE_(st == 0, "one after the other: " << died(st));
  std::string o = take();
  size_t at = 0;
  for (int i = 0; i < 2; i++)
    for (auto *v : {&r.edges[i], &r.conf[i]}) {
      long n;
      memcpy(&n, o.data() + at, sizeof n);
      at += sizeof n;
      v->resize((size_t)n);
      memcpy(v->data(), o.data() + at, sizeof(long) * (size_t)n);
      at += sizeof(long) * (size_t)n;
    }
  return r;
}
static std::string showS(const Sched &s) {
  std::string o = "thread " + std::to_string(s.first) + " runs";
  if (s.k1) o += " up to point " + std::to_string(s.k1) + ", then the other";
  if (s.m1) o += " up to its point " + std::to_string(s.m1) + ", then back";
  return o;
}
// a block of schedules of one pair: all from the same pristine process
static void block(Ctx &cx, const Pair &p, const Plan &pl, const std::vector<Sched> &ss) {
  int st = in_child([&] {
    if (needs_warm(p)) warm(p.diag);
    std::string before = shared_state();
    for (auto &sc : ss) {
      int w = in_child([&] {
        execute(p, sc);
        std::string bad;
        for (int i = 0; i < 2; i++) if (res_[i] != pl.alone[i]) bad += " thread " + std::to_string(i) + " (" + ON[p.op[i]] + ") does not obtain what it obtains alone;";
        if (shared_state() != before) bad += " the shared arguments have changed;";
        post(bad);
      }, 30);
      std::string bad = w ? died(w) : take();
      if (!bad.empty()) { post("schedule {" + showS(sc) + "}: " + bad); _exit(7); }
    }
    post("");
  }, 600);
  cx.cnt["schedules"] += (long)ss.size();
  cx.cnt["states"] += (long)ss.size();
  cx.cnt["comparisons"] += 2 * (long)ss.size();
  for (auto &s : ss) cx.cnt["transitions"] += 1 + (s.k1 > 0) + (s.m1 > 0);
  REQUIRE_(st == 0, (WIFEXITED(st) && WEXITSTATUS(st) == 7 ? take() : died(st)));
}
static std::vector<Pair> pairs(bool T) {
  std::vector<Pair> r;
  for (int o = 0; o < NOPS; o++)
    if (WARM[o]) {
      if (o == OWN) { r.push_back({{o, o}, 0, false}); continue; }
      for (int d : {0, 2}) r.push_back({{o, o}, d, d == 2});
      if (T) for (int d : {1, 3}) r.push_back({{o, o}, d, false});
      if (T) for (int d : {0, 1, 3}) r.push_back({{o, o}, d, true});
      if (!T && o >= E0 && o <= E4) r.push_back({{o, o}, 0, true});
    } else r.push_back({{o, o}, 0, false});
  if (T) for (int a = 0; a < NOPS; a++) for (int b = 0; b < NOPS; b++) if (a != b) r.push_back({{a, b}, 0, (a + b) % 2 == 1});
  if (!T) for (auto &x : std::vector<std::array<int, 2>>{{E0, E2}, {E4, E1}, {CSPR, E0}, {CTERM, E3}, {FRN, DER}, {FTERM, E2}, {STATF, E1}}) r.push_back({{x[0], x[1]}, 0, true});
  return r;
}
void explore(Ctx &cx) {
  if (!freopen("/dev/null", "w", stdout)) return;
  cx.limit_s = 700;
  mail = (Mail *)mmap(nullptr, sizeof(Mail), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  const size_t B = 100, CAP = cx.thorough ? 120 : 40;
  auto P = pairs(cx.thorough);
  char self[4096];
  ssize_t sl = readlink("/proc/self/exe", self, sizeof self - 1);
  std::string dir(self, self + sl);
  dir = dir.substr(0, dir.rfind('/'));
  for (size_t pi = 0; pi < P.size(); pi++) {
    const Pair &p = P[pi];
    common_ = p.common;
    Plan pl;
    bool ok = true;
    std::string why;
    try { pl = plan(p); } catch (Violation &v) { ok = false; why = v.what; }
    cx.visit([&] { return show(p) + ": alone and in sequence"; }, [&] {
      REQUIRE_(ok, why);
      Plan q = plan(p);
      REQUIRE_(q.alone[0] == pl.alone[0] && q.alone[1] == pl.alone[1] && q.edges[0] == pl.edges[0] && q.edges[1] == pl.edges[1], "two runs of the same schedule differ");
      cx.cnt["points"] += (long)(pl.edges[0].size() + pl.edges[1].size());
      cx.cnt["conflicting_accesses"] += (long)(pl.conf[0].size() + pl.conf[1].size());
      cx.cnt["memory_accesses"] += pl.npoints[0] + pl.npoints[1] - (long)(pl.edges[0].size() + pl.edges[1].size());
      cx.cnt["comparisons"] += 2;
    });
    if (!ok) continue;
    for (int first = 0; first < 2; first++) {
      std::vector<Sched> ss;
      auto flush = [&](bool all) {
        while (ss.size() >= B || (all && !ss.empty())) {
          std::vector<Sched> b(ss.begin(), ss.begin() + (long)std::min(B, ss.size()));
          ss.erase(ss.begin(), ss.begin() + (long)b.size());
          cx.visit([&] { return show(p) + ": " + std::to_string(b.size()) + " schedules from {" + showS(b[0]) + "}"; }, [&] { block(cx, p, pl, b); });
        }
      };
      Sched s;
      s.first = first;
      ss.push_back(s); // no preemption
      // every schedule with one preemption: at every edge and before every conflicting access
      std::set<long> ks(pl.edges[first].begin(), pl.edges[first].end());
      ks.insert(pl.conf[first].begin(), pl.conf[first].end());
      for (long k : ks) { s.k1 = k; ss.push_back(s); flush(false); }
      flush(true);
      // two preemptions: before conflicting accesses (other points commute with the other thread)
      auto ca = pl.conf[first], cb = pl.conf[1 - first];
      if (ca.size() > CAP) { ca.resize(CAP); cx.cnt["conflict_points_capped"]++; }
      if (cb.size() > CAP) { cb.resize(CAP); cx.cnt["conflict_points_capped"]++; }
      for (long k : ca) for (long m : cb) { s.k1 = k; s.m1 = m; ss.push_back(s); flush(false); }
      flush(true);
    }
    // free-running threads under the race detector (memory orders that the scheduler does not model)
    cx.visit([&] { return show(p) + ": free-running under ThreadSanitizer"; }, [&] {
      std::string cmd = "TSAN_OPTIONS='exitcode=66 halt_on_error=1 report_bugs=1' '" + dir + "/xt' " + std::to_string(p.op[0]) + " " + std::to_string(p.op[1]) + " " + std::to_string(p.diag) + " " + std::to_string(p.common) + " 2>'" + dir + "/tsan." + std::to_string(cx.idx) + "'";
      int st = system(cmd.c_str());
      std::ifstream f(dir + "/tsan." + std::to_string(cx.idx));
      std::string text((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
      size_t at = text.find("WARNING: ThreadSanitizer: data race");
      REQUIRE_(at == std::string::npos, "unsynchronized access to common memory: " << text.substr(at, 900));
      if (st == 0 && text.find("FREE-RUNNING DONE") != std::string::npos) cx.cnt["free_running_executions"] += 12;
      else cx.cnt["race_detector_not_available"]++;
    });
  }
}
#else
// ---------------------------------------------------------------- free-running pass (ThreadSanitizer build)
void explore(Ctx &) {}
int free_main(int argc, char **argv) {
  Pair p{{atoi(argv[1]), atoi(argv[2])}, atoi(argv[3]), atoi(argv[4]) != 0};
  common_ = p.common;
  if (WARM[p.op[0]] || WARM[p.op[1]]) warm(p.diag);
  for (int rep = 0; rep < 12; rep++) {
    pthread_t t[2];
    Arg a[2] = {{0, &p}, {1, &p}};
    for (int i = 0; i < 2; i++) pthread_create(&t[i], nullptr, thread_main, &a[i]);
    for (int i = 0; i < 2; i++) pthread_join(t[i], nullptr);
  }
  fprintf(stderr, "FREE-RUNNING DONE\n");
  return 0;
}
#endif
