// Probe module of check C15: (1) the C++ fields of objects owned by the Python module, as plain tuples, read by
// C++ field name; (2) the native side: the same operations on the C++ library, from plain lists of numbers.
#include "ami_base.hpp"
#include <pybind11/complex.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl_bind.h>
PYBIND11_MAKE_OPAQUE(std::vector<int>);
PYBIND11_MAKE_OPAQUE(std::vector<double>);
PYBIND11_MAKE_OPAQUE(std::vector<std::vector<std::vector<AmiBase::pole_struct>>>);
PYBIND11_MAKE_OPAQUE(std::vector<std::vector<std::vector<double>>>);
PYBIND11_MAKE_OPAQUE(std::vector<std::vector<std::vector<AmiBase::g_struct>>>);
PYBIND11_MAKE_OPAQUE(std::vector<std::complex<double>>);
PYBIND11_MAKE_OPAQUE(std::vector<AmiBase::g_struct>);
PYBIND11_MAKE_OPAQUE(std::vector<std::vector<AmiBase::ref_t>>);
PYBIND11_MAKE_OPAQUE(std::vector<AmiBase::pole_struct>);
PYBIND11_MAKE_OPAQUE(std::vector<AmiBase::term>);
namespace py = pybind11;
typedef AmiBase A;
template <class V, class F> static py::tuple each(const V &v, F f) {
  py::tuple t(v.size());
  for (size_t i = 0; i < v.size(); i++) t[i] = f(v[i]);
  return t;
}
static py::object num(int x) { return py::int_(x); }
static py::object num(double x) { return py::float_(x); }
static py::object num(std::complex<double> x) { return py::make_tuple(x.real(), x.imag()); }
template <class V> static py::tuple vec(const V &v) { return each(v, [](auto x) { return num(x); }); }
static py::tuple d_g(const A::g_struct &g) { return py::make_tuple(vec(g.eps_), vec(g.alpha_), (int)g.stat_, g.species_, (int)g.eff_stat_, g.pp); }
static py::tuple d_p(const A::pole_struct &p) { return py::make_tuple(vec(p.eps_), vec(p.alpha_), p.index_, p.multiplicity_, p.der_, vec(p.which_g_), vec(p.x_alpha_)); }
static py::tuple d_gs(const A::g_prod_t &v) { return each(v, d_g); }
static py::tuple d_ps(const A::pole_array_t &v) { return each(v, d_p); }
static py::tuple d_term(const A::term &t) { return py::make_tuple(t.sign, d_ps(t.p_list), d_gs(t.g_list)); }
static py::tuple d_terms(const A::terms &v) { return each(v, d_term); }
static py::tuple d_R(const A::R_t &v) { return each(v, [](const A::Ri_t &x) { return each(x, d_gs); }); }
static py::tuple d_P(const A::P_t &v) { return each(v, [](const A::Pi_t &x) { return each(x, d_ps); }); }
static py::tuple d_S(const A::S_t &v) { return each(v, [](const A::Si_t &x) { return each(x, [](const A::sign_t &y) { return vec(y); }); }); }
static py::tuple d_ref(const A::R_ref_t &v) { return each(v, [](const A::ref_v_t &x) { return each(x, [](const A::ref_t &y) { return py::make_tuple(y.first, y.second); }); }); }
static py::tuple d_parms(const A::ami_parms &p) { return py::make_tuple(p.N_INT_, p.N_EXT_, p.E_REG_, p.tol_, (int)p.TYPE_, (int)p.int_type_, (int)p.dispersion_); }
static py::tuple d_vars(const A::ami_vars &v) { return py::make_tuple(vec(v.energy_), vec(v.frequency_), v.prefactor, v.BETA_, v.gamma_); }

static std::vector<int> ints(py::handle h) { std::vector<int> r; for (auto x : py::reinterpret_borrow<py::sequence>(h)) r.push_back(x.cast<int>()); return r; }
static std::vector<std::complex<double>> cplx(py::handle h) { std::vector<std::complex<double>> r; for (auto x : py::reinterpret_borrow<py::sequence>(h)) r.push_back(x.cast<std::complex<double>>()); return r; }
static A::g_prod_t prod(py::handle lines) {
  A::g_prod_t r;
  for (auto l : py::reinterpret_borrow<py::sequence>(lines)) {
    auto t = py::reinterpret_borrow<py::sequence>(l);
    A::g_struct g(ints(t[0]), ints(t[1]));
    if (t.size() > 2) g.species_ = t[2].cast<int>();
    r.push_back(g);
  }
  return r;
}
// everything the library computes for one integrand
static py::dict native(int N, py::list lines, py::list points, bool with_parms_ctor) {
  py::dict o;
  auto g = prod(lines);
  A::ami_parms p0(N, 0);
  A a = with_parms_ctor ? A(p0) : A();
  A::R_t R; A::P_t P; A::S_t S;
  a.construct(p0, g, R, P, S);
  A::terms t;
  a.construct(N, g, t);
  A::g_prod_t u, u2; A::R_ref_t rr, rr2, e0, e1; A::ref_eval_t el, el2;
  A::Ri_t last = R[N];
  a.factorize_Rn(last, u, rr, el);
  a.factorize_terms(t, u2, rr2, el2);
  o["R"] = d_R(R); o["P"] = d_P(P); o["S"] = d_S(S); o["terms"] = d_terms(t);
  o["spr_fac"] = py::make_tuple(d_gs(u), d_ref(rr), d_ref(el));
  o["term_fac"] = py::make_tuple(d_gs(u2), d_ref(rr2), d_ref(el2));
  py::list vals;
  for (auto x : points) { // (E, f, beta, prefactor, E_REG, type)
    auto q = py::reinterpret_borrow<py::sequence>(x);
    A::ami_vars v(cplx(q[0]), cplx(q[1]), q[2].cast<double>(), q[3].cast<double>());
    A::ami_parms p(N, q[4].cast<double>(), (A::graph_type)q[5].cast<int>());
    A::g_prod_t ue;
    vals.append(py::make_tuple(num(a.evaluate(p, R, P, S, v)), num(a.evaluate(p, R, P, S, v, u, rr, el)), num(a.evaluate(p, R, P, S, v, ue, e0, e1)),
                               num(a.evaluate(p, t, v)), num(a.evaluate(p, t, v, u2, rr2, el2)), num(a.evaluate(p, t, v, ue, e0, e1))));
  }
  o["values"] = vals;
  return o;
}
static py::tuple enums() {
  return py::make_tuple(
      py::make_tuple("stat_type", "Bose", (int)A::Bose), py::make_tuple("stat_type", "Fermi", (int)A::Fermi), py::make_tuple("graph_type", "Sigma", (int)A::Sigma),
      py::make_tuple("graph_type", "Pi_phuu", (int)A::Pi_phuu), py::make_tuple("graph_type", "Pi_phud", (int)A::Pi_phud), py::make_tuple("graph_type", "Hartree", (int)A::Hartree),
      py::make_tuple("graph_type", "Bare", (int)A::Bare), py::make_tuple("graph_type", "Greens", (int)A::Greens), py::make_tuple("graph_type", "density", (int)A::density),
      py::make_tuple("graph_type", "doubleocc", (int)A::doubleocc), py::make_tuple("graph_type", "Pi_ppuu", (int)A::Pi_ppuu), py::make_tuple("graph_type", "Pi_ppud", (int)A::Pi_ppud),
      py::make_tuple("graph_type", "DOS", (int)A::DOS), py::make_tuple("graph_type", "ENERGY", (int)A::ENERGY), py::make_tuple("graph_type", "FORCE", (int)A::FORCE),
      py::make_tuple("int_type", "hubbard", (int)A::hubbard), py::make_tuple("int_type", "coulomb", (int)A::coulomb), py::make_tuple("disp_type", "tb", (int)A::tb),
      py::make_tuple("disp_type", "fp", (int)A::fp), py::make_tuple("disp_type", "hf", (int)A::hf));
}
// native objects made by every constructor of the header, by the arguments that the Python constructors take
static py::tuple native_ctor(std::string what, py::args a) {
  size_t n = a.size();
  if (what == "ami_vars") {
    if (n == 0) return d_vars(A::ami_vars());
    auto e = cplx(a[0]), f = cplx(a[1]);
    if (n == 2) return d_vars(A::ami_vars(e, f));
    if (n == 3) return d_vars(A::ami_vars(e, f, a[2].cast<double>()));
    return d_vars(A::ami_vars(e, f, a[2].cast<double>(), a[3].cast<double>()));
  }
  if (what == "ami_parms") {
    if (n == 0) return d_parms(A::ami_parms());
    int N = a[0].cast<int>();
    double r = a[1].cast<double>();
    if (n == 2) return d_parms(A::ami_parms(N, r));
    if (n == 3) return d_parms(A::ami_parms(N, r, (A::graph_type)a[2].cast<int>()));
    return d_parms(A::ami_parms(N, r, (A::graph_type)a[2].cast<int>(), (A::int_type)a[3].cast<int>(), (A::disp_type)a[4].cast<int>()));
  }
  if (what == "g_struct") {
    if (n == 0) return d_g(A::g_struct());
    if (n == 2) return d_g(A::g_struct(ints(a[0]), ints(a[1])));
    return d_g(A::g_struct(ints(a[0]), ints(a[1]), (A::stat_type)a[2].cast<int>()));
  }
  if (what == "pole_struct") return n ? d_p(A::pole_struct(ints(a[0]), ints(a[1]))) : d_p(A::pole_struct());
  return py::tuple();
}
PYBIND11_MODULE(ami_probe, m) {
  m.def("d_g", &d_g); m.def("d_p", &d_p); m.def("d_gs", &d_gs); m.def("d_ps", &d_ps); m.def("d_term", &d_term); m.def("d_terms", &d_terms);
  m.def("d_R", &d_R); m.def("d_P", &d_P); m.def("d_S", &d_S); m.def("d_ref", &d_ref); m.def("d_parms", &d_parms); m.def("d_vars", &d_vars);
  m.def("native", &native); m.def("enums", &enums); m.def("native_ctor", &native_ctor);
}
