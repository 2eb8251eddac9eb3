// Integrands ("diagrams"), their validity domain, and exhaustive enumeration of bounded families.
#pragma once
#include "ami_base.hpp"
#include "ref.hpp"
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
typedef std::complex<double> C;
typedef std::vector<int> VI;

struct LineS {
  VI a, e; // frequency coefficients, energy coefficients
  bool operator<(const LineS &o) const { return a != o.a ? a < o.a : e < o.e; }
  bool operator==(const LineS &o) const { return a == o.a && e == o.e; }
};
struct Diagram {
  int N = 0; // number of summed variables (0..N-1)
  std::vector<LineS> ls;
  int F() const { return (int)ls[0].a.size(); }
  int E() const { return (int)ls[0].e.size(); }
};
inline std::string vs(const VI &v) {
  std::string s = "(";
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]);
  return s + ")";
}
inline std::string show(const Diagram &d) {
  std::ostringstream o;
  o << "N_INT=" << d.N << " lines[alpha;eps]={";
  for (auto &l : d.ls) o << " " << vs(l.a) << ";" << vs(l.e);
  o << " }";
  return o.str();
}
inline AmiBase::g_prod_t gprod(const Diagram &d) {
  AmiBase::g_prod_t r;
  for (auto &l : d.ls) r.push_back(AmiBase::g_struct(l.e, l.a));
  return r;
}

// ---- validity: explore every branch of the nested residue elimination symbolically (own code) -----
// A diagram is in the domain of the "exact sum" properties when, in the given order of summation, in
// every branch: the coefficients of the summed frequencies, and all coefficients of the poles, stay in
// {-1,0,1} (a remaining line may carry a multiple of an external frequency); the variable being
// summed occurs; no line has become identically zero; no pole sits identically (zero symbolic energy) on a Matsubara frequency of the
// summed variable (an odd number of other frequencies); no line other than the identical ones shares
// the pole.
struct Domain {
  bool valid = true, multipole = false, matsubara_pole = false;
  int max_mult = 1;
  long branches = 0;
  int matsubara = 0; // such poles: 0 = outside the domain, 1 = skipped, 2 = followed
};
inline void dom_rec(size_t step, const VI &order, const std::vector<LineS> &ls, Domain &D,
                    std::set<std::pair<size_t, std::vector<LineS>>> &seen) {
  if (!D.valid) return;
  for (auto &l : ls) {
    bool za = true, ze = true;
    for (size_t j = 0; j < l.a.size(); j++) {
      int x = l.a[j];
      if (x) za = false;
      if ((x > 1 || x < -1) && std::find(order.begin(), order.end(), (int)j) != order.end()) { D.valid = false; return; }
    }
    for (int x : l.e) if (x) ze = false;
    if (za && ze) { D.valid = false; return; }
  }
  if (step == order.size()) { D.branches++; return; }
  std::vector<LineS> key = ls;
  std::sort(key.begin(), key.end());
  if (!seen.insert({step, key}).second) return;
  int k = order[step];
  // distinct poles
  std::map<std::pair<VI, VI>, VI> poles;
  for (size_t i = 0; i < ls.size(); i++) {
    int c = ls[i].a[k];
    if (!c) continue;
    VI pa = ls[i].a, pe = ls[i].e;
    for (auto &x : pa) x *= -c;
    pa[k] = 0;
    for (int x : pa) if (x > 1 || x < -1) { D.valid = false; return; }
    for (auto &x : pe) x *= -c;
    poles[{pa, pe}].push_back((int)i);
  }
  if (poles.empty()) { D.valid = false; return; }
  for (auto &kv : poles) {
    const VI &pa = kv.first.first, &pe = kv.first.second;
    int M = (int)kv.second.size();
    if (M > 1) D.multipole = true;
    D.max_mult = std::max(D.max_mult, M);
    bool ze = true;
    int nz = 0;
    for (int x : pe) if (x) ze = false;
    for (int x : pa) if (x) nz++;
    if (ze && (nz & 1)) {
      D.matsubara_pole = true;
      if (D.matsubara == 0) { D.valid = false; return; }
      if (D.matsubara == 1) continue;
    }
    // remaining lines; derivative terms duplicate remaining lines that contain k, at most M-1 times:
    // for the domain it is enough to follow the un-duplicated and the maximally duplicated products.
    std::vector<LineS> rest, sub;
    std::vector<char> act;
    for (size_t i = 0; i < ls.size(); i++) {
      if (std::find(kv.second.begin(), kv.second.end(), (int)i) != kv.second.end()) continue;
      LineS l = ls[i];
      int c = l.a[k];
      for (size_t j = 0; j < l.a.size(); j++) l.a[j] = ((int)j == k) ? 0 : l.a[j] + c * pa[j];
      for (size_t j = 0; j < l.e.size(); j++) l.e[j] += c * pe[j];
      sub.push_back(l);
      act.push_back(c != 0);
    }
    if (M == 1) dom_rec(step + 1, order, sub, D, seen);
    else {
      dom_rec(step + 1, order, sub, D, seen);
      for (size_t i = 0; i < sub.size(); i++)
        if (act[i]) {
          std::vector<LineS> s2 = sub;
          for (int m = 1; m < M; m++) s2.push_back(sub[i]);
          dom_rec(step + 1, order, s2, D, seen);
        }
    }
  }
}
inline Domain domain(const Diagram &d, VI order = VI(), int matsubara = 0) {
  if (order.empty()) for (int i = 0; i < d.N; i++) order.push_back(i);
  Domain D;
  D.matsubara = matsubara;
  std::set<std::pair<size_t, std::vector<LineS>>> seen;
  dom_rec(0, order, d.ls, D, seen);
  return D;
}

// ---- numeric assignments --------------------------------------------------------------------------
// Energies without small integer relations; four sign/size patterns.
inline AmiBase::energy_t energies(int n, int pat) {
  static const double base[4][20] = {
      {0.7320508, -1.2360680, 0.4142136, 1.6457513, -0.3166248, 2.1231056, -0.8284271, 1.3588989, -1.7958315,
       0.5677644, 1.0827626, -0.6557439, 1.9160798, -1.4403068, 0.9282032, -0.2801099, 1.2111026, -2.2829314,
       0.3851648, 0.8102497},
      {-0.5244998, 0.9831851, 1.3911654, -0.7442627, 1.1414284, -1.6720466, 0.3279721, -0.2087121, 0.8166538,
       -1.8394102, 0.6124038, 1.5744627, -1.0990195, 0.4721360, -0.9443650, 2.0710678, -0.3693169, 1.2749172,
       -0.5825757, 0.7015621},
      {-0.3819660, -0.7912878, -1.2087121, -0.5278640, -1.6457513, -0.9160798, -1.3588989, -0.6846584, -0.2679492,
       -1.8284271, -1.0635083, -0.4494897, -1.5227744, -0.8769626, -1.1231056, -0.3542487, -1.7416574, -0.6055513,
       -1.4164079, -0.9717741},
      {1.8310270, 0.2462113, -2.4305008, 0.8989795, 3.1010205, -0.5505103, -1.1533060, 0.6332496, 2.2956301,
       -1.7445626, 0.3571429, 1.0413813, -0.9249873, 2.7320508, -0.1961524, 1.4317821, -2.0525312, 0.7823300,
       -1.3166248, 0.5166852}};
  AmiBase::energy_t e;
  for (int i = 0; i < n; i++) e.push_back(base[pat & 3][i % 20] + (i >= 20 ? 0.013717421 * (i - 19) * ((i & 1) ? 1 : -1) : 0));
  return e;
}
// the numbers on the external frequency: kind 0 = Matsubara frequency of the right type, 1 = complex point
inline AmiBase::frequency_t freqs(int F, int N, C ext) {
  AmiBase::frequency_t f(F, C(0, 0));
  for (int j = N; j < F; j++) f[j] = ext + C(0.37, 0.21) * double(j - N);
  return f;
}
inline std::vector<C> line_energies(const Diagram &d, const AmiBase::energy_t &E) {
  std::vector<C> r;
  for (auto &l : d.ls) {
    C x = 0;
    for (size_t i = 0; i < l.e.size(); i++) x += double(l.e[i]) * E[i];
    r.push_back(x);
  }
  return r;
}
inline std::vector<VI> rows(const Diagram &d) {
  std::vector<VI> r;
  for (auto &l : d.ls) r.push_back(l.a);
  return r;
}
inline bool bosonic_type(int t) {
  return t == AmiBase::Pi_phuu || t == AmiBase::Pi_phud || t == AmiBase::doubleocc || t == AmiBase::Pi_ppuu ||
         t == AmiBase::Pi_ppud || t == AmiBase::FORCE;
}
// all coefficient vectors over {-1,0,1}
inline const std::vector<VI> &alphas(int F) {
  static std::map<int, std::vector<VI>> memo;
  auto &m = memo[F];
  if (m.empty()) {
    int n = 1;
    for (int i = 0; i < F; i++) n *= 3;
    for (int c = 0; c < n; c++) {
      VI v(F);
      int x = c;
      for (int i = 0; i < F; i++) { v[i] = (x % 3 == 2) ? -1 : x % 3; x /= 3; }
      m.push_back(v);
    }
  }
  return m;
}
inline VI unit(int n, int i) { VI v(n, 0); if (i >= 0) v[i] = 1; return v; }

// Set partitions as restricted growth strings, first = all distinct
inline void partitions(int n, const std::function<void(const VI &)> &f) {
  VI p(n, 0);
  std::function<void(int, int)> rec = [&](int i, int mx) {
    if (i == n) { f(p); return; }
    for (int v = mx + 1; v >= 0; v--) { p[i] = v; rec(i + 1, std::max(mx, v)); }
  };
  rec(0, -1);
}
// make a diagram from rows and an energy-label partition
inline Diagram mk(int N, const std::vector<VI> &a, const VI &part) {
  Diagram d;
  d.N = N;
  int nE = 0;
  for (int x : part) nE = std::max(nE, x + 1);
  for (size_t i = 0; i < a.size(); i++) d.ls.push_back({a[i], unit(nE, part[i])});
  return d;
}
inline VI iota(int n) { VI v(n); for (int i = 0; i < n; i++) v[i] = i; return v; }

// Families.  ordered: all tuples; otherwise multisets (nondecreasing index).
inline void fam_all(int N, int L, bool ordered, const std::function<void(const Diagram &)> &f) {
  const auto &A = alphas(N + 1);
  std::vector<VI> a(L);
  std::function<void(int, size_t)> rec = [&](int i, size_t lo) {
    if (i == L) { f(mk(N, a, iota(L))); return; }
    for (size_t x = ordered ? 0 : lo; x < A.size(); x++) { a[i] = A[x]; rec(i + 1, x); }
  };
  rec(0, 0);
}
// first N lines carry the independent summed frequencies, `extra` further arbitrary lines
inline void fam_std(int N, int extra, bool ordered, const std::function<void(const Diagram &)> &f) {
  const auto &A = alphas(N + 1);
  std::vector<VI> a;
  for (int i = 0; i < N; i++) a.push_back(unit(N + 1, i));
  a.resize(N + extra);
  std::function<void(int, size_t)> rec = [&](int i, size_t lo) {
    if (i == N + extra) { f(mk(N, a, iota(N + extra))); return; }
    for (size_t x = ordered ? 0 : lo; x < A.size(); x++) { a[i] = A[x]; rec(i + 1, x); }
  };
  rec(N, 0);
}

// Published example integrands of orders 2..9 (coefficient rows as in the libami paper's examples).
inline Diagram example(int which) {
  Diagram d;
  std::vector<VI> a;
  VI part;
  switch (which) {
  case 2: d.N = 2; a = {{1,0,0},{0,1,0},{-1,1,1}}; break;
  case 4: d.N = 4; a = {{1,0,0,1,-1},{0,0,0,1,0},{1,0,0,0,0},{1,0,0,0,0},{0,1,0,0,0},{-1,1,1,0,0},{0,0,1,0,0}}; part = {0,1,2,2,3,4,5}; break;
  case 5: d.N = 4; a = {{1,0,0,0,0},{0,1,0,0,0},{0,0,1,0,0},{0,0,0,1,0},{-1,1,0,0,1},{0,1,1,-1,0},{1,0,1,0,-1}}; break;
  case 6: d.N = 6; a = {{1,0,0,0,0,0,0},{0,1,0,0,0,0,0},{0,0,1,0,0,0,0},{0,0,0,1,0,0,0},{0,0,0,0,1,0,0},{0,0,0,0,0,1,0},{-1,1,0,0,0,0,1},{-1,1,1,0,0,0,1},{-1,1,1,1,0,0,1},{-1,1,1,1,1,0,1},{-1,1,1,1,1,1,1}}; break;
  case 9: d.N = 9; a = {{1,0,0,0,0,0,0,0,0,0},{0,1,0,0,0,0,0,0,0,0},{1,1,0,0,0,0,0,0,0,-1},{0,0,1,0,0,0,0,0,0,0},{0,0,0,1,0,0,0,0,0,0},{1,1,1,-1,0,0,0,0,0,-1},{0,0,0,0,1,0,0,0,0,0},{0,0,0,0,0,0,0,1,0,0},{0,-1,0,0,1,0,0,1,0,0},{0,0,1,-1,1,0,0,0,0,0},{0,0,0,0,0,1,0,0,0,0},{0,0,0,0,0,0,0,0,1,0},{0,0,0,0,0,0,1,0,0,0},{0,0,-1,1,-1,1,1,0,0,0},{0,-1,-1,1,0,0,0,1,0,1},{0,0,1,-1,1,-1,0,0,1,0},{0,-1,0,0,1,-1,0,1,1,0}}; break;
  default: d.N = 3; a = {{1,0,1,-1},{1,-1,1,0},{1,0,0,0},{0,1,0,0},{0,0,1,0}}; break;
  }
  if (part.empty()) part = iota((int)a.size());
  int N = d.N;
  return mk(N, a, part);
}

