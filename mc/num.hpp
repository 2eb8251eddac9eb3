// Multi-precision complex numbers for the reference models (no libami code is used here).
#pragma once
#include <boost/multiprecision/cpp_bin_float.hpp>
#ifndef __clang__
#include <boost/multiprecision/float128.hpp>
#endif
#include <complex>
#include <vector>
namespace num {
namespace bm = boost::multiprecision;
typedef bm::number<bm::cpp_bin_float<110>, bm::et_off> Big; // 110 decimal digits
#ifdef __clang__ // no quadmath.h there
typedef bm::number<bm::cpp_bin_float<33>, bm::et_off> Quad;
#else
typedef bm::number<bm::float128_backend, bm::et_off> Quad;  // 33 decimal digits
#endif

template <class T> struct Cx {
  T r, i;
  Cx() : r(0), i(0) {}
  Cx(T a) : r(a), i(0) {}
  Cx(T a, T b) : r(a), i(b) {}
  Cx(std::complex<double> z) : r(z.real()), i(z.imag()) {}
  Cx operator+(const Cx &o) const { return Cx(r + o.r, i + o.i); }
  Cx operator-(const Cx &o) const { return Cx(r - o.r, i - o.i); }
  Cx operator-() const { return Cx(-r, -i); }
  Cx operator*(const Cx &o) const {
    if (i == 0 && o.i == 0) return Cx(r * o.r, T(0));
    return Cx(r * o.r - i * o.i, r * o.i + i * o.r);
  }
  Cx operator*(const T &o) const { return Cx(r * o, i * o); }
  Cx &operator+=(const Cx &o) { r += o.r; i += o.i; return *this; }
  Cx &operator*=(const Cx &o) { *this = *this * o; return *this; }
  Cx inv() const {
    if (i == 0) return Cx(T(1) / r, T(0));
    T d = r * r + i * i;
    return Cx(r / d, -i / d);
  }
  Cx operator/(const Cx &o) const { return *this * o.inv(); }
  T norm() const { return r * r + i * i; }
  bool zero() const { return r == 0 && i == 0; }
};
template <class T> T absv(const Cx<T> &z) { using std::sqrt; return sqrt(z.norm()); }
template <class T> Cx<T> cexpo(const Cx<T> &z) {
  T m = exp(z.r);
  if (z.i == 0) return Cx<T>(m, T(0));
  return Cx<T>(m * cos(z.i), m * sin(z.i));
}
template <class T> std::complex<double> todbl(const Cx<T> &z) {
  return std::complex<double>(static_cast<double>(z.r), static_cast<double>(z.i));
}
} // namespace num
