// Bit-exact serialization of everything that an operation can read or write.
#pragma once
#include "lib.hpp"
struct Ser {
  std::string b;
  template <class T> void raw(const T &x) { b.append((const char *)&x, sizeof x); }
  void d(double x) { if (std::isnan(x)) x = NAN; raw(x); }
  void c(C z) { d(z.real()); d(z.imag()); }
  void v(const VI &x) { raw((int)x.size()); for (int y : x) raw(y); }
  void g(const AmiBase::g_struct &x) { v(x.eps_); v(x.alpha_); raw((int)x.stat_); raw(x.species_); raw((int)x.eff_stat_); raw(x.pp); }
  void p(const AmiBase::pole_struct &x) { v(x.eps_); v(x.alpha_); raw(x.index_); raw(x.multiplicity_); raw(x.der_); v(x.which_g_); v(x.x_alpha_); }
  void gs(const AmiBase::g_prod_t &x) { raw((int)x.size()); for (auto &y : x) g(y); }
  void ps(const AmiBase::pole_array_t &x) { raw((int)x.size()); for (auto &y : x) p(y); }
  void spr(const Spr &s) {
    raw((int)s.R.size()); for (auto &x : s.R) { raw((int)x.size()); for (auto &y : x) gs(y); }
    raw((int)s.P.size()); for (auto &x : s.P) { raw((int)x.size()); for (auto &y : x) ps(y); }
    raw((int)s.S.size()); for (auto &x : s.S) { raw((int)x.size()); for (auto &y : x) { raw((int)y.size()); for (double z : y) d(z); } }
  }
  void terms(const AmiBase::terms &t) { raw((int)t.size()); for (auto &x : t) { d(x.sign); ps(x.p_list); gs(x.g_list); } }
  void fac(const Fac &f) {
    gs(f.u);
    for (auto *r : {&f.rr, &f.el}) { raw((int)r->size()); for (auto &x : *r) { raw((int)x.size()); for (auto &y : x) { raw(y.first); raw(y.second); } } }
  }
  void parms(const AmiBase::ami_parms &p) { raw(p.N_INT_); raw(p.N_EXT_); d(p.E_REG_); d(p.tol_); raw((int)p.TYPE_); raw((int)p.int_type_); raw((int)p.dispersion_); }
  void vars(const AmiBase::ami_vars &x) { raw((int)x.energy_.size()); for (auto z : x.energy_) c(z); raw((int)x.frequency_.size()); for (auto z : x.frequency_) c(z); d(x.prefactor); d(x.BETA_); d(x.gamma_); }
  void switches(const AmiBase &a) { d(a.exp_max_arg); raw(a.drop_bosonic_diverge); raw(a.drop_der); raw(a.drop_matsubara_poles); raw(a.zero_external_w); raw(a.verbose); d(a.precision_cutoff); raw(a.bosonic_external); raw((int)a.ext_freq_type); }
};
template <class F> static std::string ser(F f) { Ser s; f(s); return s.b; }

