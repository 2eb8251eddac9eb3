// Reference model: the exact nested Matsubara sum
//    T^N sum_{nu_1..nu_N} prod_l 1/( sum_j a_lj i nu_j + e_l )
// (contour convention: each sum is closed on the poles of the integrand with the Fermi function of
// the summed variable, i.e. a factor exp(i nu 0+)), evaluated numerically.  It is written as a plain
// recursion over *numeric* lines: no symbolic energies, no derivative rules, no multiplicities.
// Repeated poles are handled by splitting all line energies by independent tiny amounts in 110-digit
// arithmetic, so that every pole is simple; the derivative terms appear as the limit.
#pragma once
#include "num.hpp"
#include <stdexcept>
namespace ref {
using namespace num;
template <class T> struct Line {
  std::vector<int> a; // coefficients of all frequencies
  Cx<T> e;
  Cx<T> x, xi; // exp(beta e) and exp(-beta e), carried along by multiplication
  std::vector<int> s;      // symbolic energy (only used by the options below)
  std::complex<double> e0; // energy before splitting
};
struct Opt {
  std::vector<char> bosonic;      // per frequency: 1 = bosonic (summed with Bose function / shift without sign)
  double beta = 1;
  double ereg = 0;                // regulator in the statistical functions
  bool drop_der = false;          // statistical functions are not differentiated
  bool drop_bose = false;         // a divergent Bose function counts as zero
  bool drop_matsubara = false;    // poles of zero symbolic energy on an odd number of frequencies are skipped
  bool find_div = false;           // a Bose function at zero energy makes the result singular
  bool tracks() const { return find_div || ereg != 0 || drop_der || drop_bose || drop_matsubara; }
};
template <class T> struct Sum {
  std::vector<Cx<T>> freq; // numerical values of the frequencies that are not summed
  Opt opt;
  std::vector<int> order; // summed variables, in this order
  T abs_sum;              // sum of |leaf terms|
  long leaves = 0;
  bool singular = false;

  // statistical weight of a pole z0 of the variable `k`:  z0 = -a_k*( sum_{j!=k} a_j i nu_j + e )
  Cx<T> weight(const Line<T> &l, int k) {
    // exp(beta z0) = exp(beta x) * prod_j exp(-beta a_k a_j i nu_j);  fermionic odd multiples give -1
    int sgn = 1;
    for (size_t j = 0; j < l.a.size(); j++)
      if ((int)j != k && !opt.bosonic[j] && (l.a[j] & 1)) sgn = -sgn;
    if (opt.bosonic[k]) sgn = -sgn; // boson: -n_B = 1/(1-e)
    Cx<T> ex = l.a[k] > 0 ? l.xi : l.x; // exp(beta z0) up to the sign
    if (opt.tracks()) {
      std::complex<double> z = -double(l.a[k]) * l.e0;
      bool zero = std::abs(z) < 1e-13; // the enumerated energies are separated by much more than this
      if (zero && sgn < 0 && opt.drop_bose) return Cx<T>();
      if (zero && sgn < 0 && opt.ereg == 0) { singular = true; return Cx<T>(); }
      double shift = (!zero && z.real() < 0) ? -opt.ereg : opt.ereg;
      if (shift != 0) ex = ex * T(exp(T(opt.beta) * T(shift)));
    }
    if (sgn < 0) ex = -ex;
    Cx<T> d = ex + Cx<T>(T(1));
    if (d.zero()) { singular = true; return Cx<T>(); }
    return d.inv();
  }
  Cx<T> run(size_t step, const std::vector<Line<T>> &ls, const Cx<T> &pref) {
    if (step == order.size()) {
      Cx<T> den(T(1));
      for (auto &l : ls) {
        Cx<T> x = l.e;
        for (size_t j = 0; j < l.a.size(); j++)
          if (l.a[j]) x += freq[j] * T(l.a[j]);
        den *= x;
      }
      if (den.zero()) { singular = true; return Cx<T>(); }
      Cx<T> v = pref / den;
      abs_sum += absv(v);
      leaves++;
      return v;
    }
    int k = order[step];
    Cx<T> tot;
    std::vector<Line<T>> nx(ls.size() ? ls.size() - 1 : 0);
    for (size_t p = 0; p < ls.size(); p++) {
      int ap = ls[p].a[k];
      if (ap == 0) continue;
      if (opt.drop_matsubara) {
        bool zero = true;
        int odd = 0;
        for (int x : ls[p].s) if (x) zero = false;
        for (size_t j = 0; j < ls[p].a.size(); j++) if ((int)j != k && ls[p].a[j]) odd ^= 1;
        if (zero && odd) continue;
      }
      if (ap != 1 && ap != -1) throw std::runtime_error("reference: coefficient outside -1,0,1");
      Cx<T> w = pref * weight(ls[p], k) * T(ap);
      size_t n = 0;
      for (size_t q = 0; q < ls.size(); q++) {
        if (q == p) continue;
        nx[n] = ls[q];
        int c = ls[q].a[k] * ap; // a_q / a_p
        if (c) {
          for (size_t j = 0; j < ls[q].a.size(); j++) nx[n].a[j] -= c * ls[p].a[j];
          nx[n].e = nx[n].e - ls[p].e * T(c);
          if (opt.tracks()) {
            nx[n].e0 -= double(c) * ls[p].e0;
            for (size_t j = 0; j < nx[n].s.size(); j++) nx[n].s[j] -= c * ls[p].s[j];
          }
          if (step + 1 < order.size()) {
            nx[n].x = ls[q].x * (c > 0 ? ls[p].xi : ls[p].x);
            nx[n].xi = ls[q].xi * (c > 0 ? ls[p].x : ls[p].xi);
          }
        }
        n++;
      }
      tot += run(step + 1, nx, w);
    }
    return tot;
  }
  Cx<T> operator()(std::vector<Line<T>> ls) {
    for (auto &l : ls) {
      l.x = cexpo((opt.drop_der ? Cx<T>(l.e0) : l.e) * T(opt.beta));
      l.xi = l.x.inv();
    }
    abs_sum = T(0);
    leaves = 0;
    singular = false;
    return run(0, ls, Cx<T>(T(1)));
  }
};

struct Result {
  std::complex<double> v;
  double scale = 0;  // sum of absolute values of the leaf terms
  double err = 0;    // estimated error of the reference
  bool ok = true;    // reference converged
  long leaves = 0;
};

// lines: coefficient rows and (double) energies; `sym`: symbolic energies (needed by options only).
// degenerate: split the energies (see above); `excess` bounds the order of the largest cancellation.
inline Result matsubara(const std::vector<std::vector<int>> &a, const std::vector<std::complex<double>> &e,
                        const std::vector<std::complex<double>> &freq, const std::vector<int> &order,
                        const Opt &opt, bool degenerate, int excess = 3,
                        const std::vector<std::vector<int>> *sym = nullptr) {
  Result R;
  if (!degenerate) {
    Sum<Quad> s;
    s.opt = opt;
    s.order = order;
    for (auto z : freq) s.freq.push_back(Cx<Quad>(z));
    std::vector<Line<Quad>> ls(a.size());
    for (size_t i = 0; i < a.size(); i++) {
      ls[i].a = a[i];
      ls[i].e = Cx<Quad>(e[i]);
      ls[i].e0 = e[i];
      if (sym) ls[i].s = (*sym)[i];
    }
    Cx<Quad> v = s(ls);
    R.v = todbl(v);
    R.scale = static_cast<double>(s.abs_sum);
    R.leaves = s.leaves;
    R.ok = !s.singular && std::isfinite(R.v.real()) && std::isfinite(R.v.imag());
    R.err = R.scale * 1e-28;
    return R;
  }
  // the split is antisymmetric: the mean of +delta and -delta has an error of second order only
  // (lines without a summed frequency are factors and stay as they are)
  Cx<Big> v[2];
  std::vector<char> pole(a.size(), 0);
  int np = 0;
  for (size_t i = 0; i < a.size(); i++) { for (int k : order) pole[i] |= a[i][k] != 0; np += pole[i]; }
  excess = std::min(excess, np);
  int ex = std::min(24, std::max(2, 88 / (excess + 1)));
  for (int t = 0; t < 2; t++) {
    Sum<Big> s;
    s.opt = opt;
    s.order = order;
    for (auto z : freq) s.freq.push_back(Cx<Big>(z));
    std::vector<Line<Big>> ls(a.size());
    Big delta = pow(Big(10), -ex);
    if (t) delta = -delta;
    for (size_t i = 0; i < a.size(); i++) {
      ls[i].a = a[i];
      ls[i].e = Cx<Big>(e[i]);
      ls[i].e0 = e[i];
      if (sym) ls[i].s = (*sym)[i];
      if (pole[i]) ls[i].e.r += delta * sqrt(Big(2 + 3 * i + i * i)) * Big((i & 1) ? 1 : -1);
    }
    v[t] = s(ls);
    if (s.singular) R.ok = false;
    R.leaves = s.leaves;
  }
  R.v = todbl((v[0] + v[1]) * (Big(1) / Big(2)));
  R.err = static_cast<double>(absv(v[0] - v[1])) * std::pow(10.0, -ex) * 100;
  if (!std::isfinite(R.v.real()) || !std::isfinite(R.v.imag()) || !std::isfinite(R.err)) R.ok = false;
  return R; // scale stays 0: with split poles the leaf terms are not a meaningful scale
}

// Independent validation of the reference itself: the definition.  One fermionic (or bosonic) sum over
// Matsubara frequencies of a rational function, done by brute force over |n| < M with the tail beyond M
// estimated by Richardson extrapolation in 1/M^k.  (see selftest.cpp)
} // namespace ref
