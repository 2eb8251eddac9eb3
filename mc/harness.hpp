// Explorer frame shared by all checks.  A check implements explore(Ctx&), which enumerates its bounded
// space in a fixed order and calls cx.visit(describe, body) for every case; the frame stripes cases over
// worker processes, publishes the index of the running case (so that a crash or a hang is attributed to
// it), records violations, and can re-run exactly one case (--only) for replay.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

struct Violation { std::string what; };
#define REQUIRE_(c, msg)                                                                                     \
  do { if (!(c)) { std::ostringstream o_; o_.precision(17); o_ << msg; throw Violation{o_.str()}; } } while (0)

struct Ctx {
  bool thorough = false;
  long seed = 1;
  int worker = 0, workers = 1;
  long only = -1;
  long limit_s = 60; // of processor time, so that a busy machine is no alarm
  long idx = 0;
  long cases = 0;
  std::map<std::string, long> cnt; // summed over workers
  std::map<std::string, double> mx; // maximum over workers
  std::set<std::string> outcomes;  // distinct outcome signatures
  std::vector<std::string> samples;
  std::vector<std::pair<long, std::string>> viol;
  volatile long *cur = nullptr;
  std::string out;
  std::function<std::string()> desc;
  bool mine() { return only >= 0 ? idx == only : (idx % workers == worker); }
  // one explored case
  void visit(const std::function<std::string()> &d, const std::function<void()> &body) {
    if (!mine()) { idx++; return; }
    if (viol.size() >= 3 && only < 0) { idx++; return; }
    if (cur) *cur = idx;
    struct itimerval it = {{0, 0}, {limit_s, 0}};
    if (only < 0) setitimer(ITIMER_PROF, &it, nullptr);
    cases++;
    if (samples.size() < 2 && (cases == 1 || cases == 1009)) samples.push_back(d());
    try { body(); } catch (Violation &v) { viol.push_back({idx, d() + " :: " + v.what}); } catch (std::exception &e) {
      viol.push_back({idx, d() + " :: exception " + e.what()});
    }
    struct itimerval z = {{0, 0}, {0, 0}};
    if (only < 0) setitimer(ITIMER_PROF, &z, nullptr);
    idx++;
  }
  bool stop() const { return only < 0 && viol.size() >= 3; }
};
void explore(Ctx &cx);

static std::string jesc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r;
}
static void on_alarm(int) { _exit(77); }
int free_main(int argc, char **argv); // only of the free-running build of C10
int main(int argc, char **argv) {
#ifdef FREE
  return free_main(argc, argv);
#endif
  Ctx cx;
  std::string out = "", curf = "";
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--tier") cx.thorough = v == "thorough";
    else if (k == "--seed") cx.seed = atol(v.c_str());
    else if (k == "--worker") cx.worker = atoi(v.c_str());
    else if (k == "--workers") cx.workers = atoi(v.c_str());
    else if (k == "--only") cx.only = atol(v.c_str());
    else if (k == "--out") out = v;
    else if (k == "--cur") curf = v;
  }
  if (!curf.empty()) {
    int fd = open(curf.c_str(), O_RDWR | O_CREAT, 0600);
    if (ftruncate(fd, 4096)) return 3;
    cx.cur = (volatile long *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    *cx.cur = -1;
  }
  signal(SIGPROF, on_alarm);
  int so = dup(1);
  (void)so;
  explore(cx);
  if (cx.cur) *cx.cur = -2; // finished
  std::ofstream f(out.empty() ? "/dev/stdout" : out.c_str());
  f << "{\"cases\":" << cx.cases << ",\"total\":" << cx.idx << ",\"cnt\":{";
  bool first = true;
  for (auto &k : cx.cnt) { f << (first ? "" : ",") << "\"" << k.first << "\":" << k.second; first = false; }
  f << "},\"max\":{";
  first = true;
  for (auto &k : cx.mx) { f << (first ? "" : ",") << "\"" << k.first << "\":" << (std::isfinite(k.second) ? k.second : 1e300); first = false; }
  f << "},\"outcomes\":[";
  first = true;
  for (auto &k : cx.outcomes) { f << (first ? "" : ",") << "\"" << jesc(k) << "\""; first = false; }
  f << "],\"samples\":[";
  first = true;
  for (auto &k : cx.samples) { f << (first ? "" : ",") << "\"" << jesc(k) << "\""; first = false; }
  f << "],\"viol\":[";
  first = true;
  for (auto &k : cx.viol) { f << (first ? "" : ",") << "[" << k.first << ",\"" << jesc(k.second) << "\"]"; first = false; }
  f << "]}\n";
  return cx.viol.empty() ? 0 : 1;
}
