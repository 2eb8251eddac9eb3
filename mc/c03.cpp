// C03: term-by-term construction and evaluation.
#include "fams.hpp"
#include "stat.hpp"
typedef AmiBase::terms Terms;
static std::string key(const AmiBase::term &t) {
  std::ostringstream o;
  o.precision(17);
  o << t.sign << "|";
  for (auto &p : t.p_list) o << vs(p.eps_) << vs(p.alpha_) << p.der_ << ";";
  o << "|";
  for (auto &g : t.g_list) o << vs(g.eps_) << vs(g.alpha_) << ";";
  return o.str();
}
// the defining formula of one term, evaluated in 110 digits; size = product of natural scales of the factors
static C term_value(const AmiBase::term &t, const In &x, double &size) {
  using namespace stat_;
  Z v(Big(t.sign * x.pf));
  Big sz = abs(Big(t.sign * x.pf));
  for (auto &p : t.p_list) {
    C e = 0;
    for (size_t i = 0; i < p.eps_.size(); i++) e += double(p.eps_[i]) * x.E[i];
    int n = 0;
    for (int c : p.alpha_) n += c != 0;
    double s;
    v *= deriv(p.der_, n % 2 ? -1 : 1, x.beta, e, &s);
    // rounding of the energy combination shifts beta E; the bound below is generous
    sz *= Big(s);
  }
  for (auto &g : t.g_list) {
    Z d;
    for (size_t i = 0; i < g.eps_.size(); i++) d += Z(x.E[i]) * Big(g.eps_[i]);
    for (size_t i = 0; i < g.alpha_.size(); i++) d += Z(x.f[i]) * Big(g.alpha_[i]);
    v = v / d;
    sz /= absv(d);
  }
  size = static_cast<double>(sz);
  return num::todbl(v);
}
// outside the domain of the exact sum (poles on a Matsubara frequency, dropped or not; products without the
// summed frequency) the two constructions still describe the same number, as long as that is finite
static void both(Ctx &cx, const Diagram &d) {
  for (bool drop : {true, false}) {
    AmiBase a;
    a.drop_matsubara_poles = drop;
    AmiBase::ami_parms p(d.N, 0);
    Terms t;
    Spr s;
    a.construct(p, gprod(d), t);
    a.construct(p, gprod(d), s.R, s.P, s.S);
    for (int k : {0, 3}) {
      In x = at(d, points()[k]);
      auto v = x.vars();
      double scale = 0;
      for (auto &y : t) scale += std::abs(a.evaluate_term(p, y, v));
      if (!(scale < 1e12)) { cx.cnt["singular"]++; continue; }
      agree(cx, "outside", a.evaluate(p, s.R, s.P, s.S, v), a.evaluate(p, t, v), std::max(scale, 1e-250));
    }
  }
}
static void one(Ctx &cx, const Diagram &d) {
  cx.visit([&] { return show(d); }, [&] {
    Domain D = domain(d);
    if (!D.valid) { cx.cnt["outside_domain"]++; both(cx, d); return; }
    AmiBase a;
    AmiBase::ami_parms p(d.N, 0);
    Terms t, t2;
    a.construct(p, gprod(d), t);
    t2.resize(3); // old contents must not survive
    a.construct(d.N, gprod(d), t2);
    REQUIRE_(t.size() == t2.size(), "the two construction calls give " << t.size() << " and " << t2.size() << " terms");
    std::multiset<std::string> k1, k2;
    for (auto &x : t) k1.insert(key(x));
    for (auto &x : t2) k2.insert(key(x));
    REQUIRE_(k1 == k2, "the two construction calls give different terms");
    // the construction is its steps
    Terms st{AmiBase::term(1.0, AmiBase::pole_array_t(), gprod(d))}, nx;
    for (int i = 0; i < d.N; i++) { a.integrate_step(i, st, nx); cx.cnt["states"] += (long)nx.size(); cx.cnt["transitions"] += (long)nx.size(); st = nx; }
    // every step is linear in the factors of the terms it is given
    Terms sc{AmiBase::term(-2.5, AmiBase::pole_array_t(), gprod(d))};
    double factor = -2.5;
    for (int i = 0; i < d.N; i++) {
      a.integrate_step(i, sc, nx);
      sc = nx;
      for (auto &y : sc) y.sign *= -0.6;
      factor *= -0.6;
    }
    REQUIRE_(sc.size() == st.size(), "the number of terms depends on their factors");
    Spr s;
    a.construct(p, gprod(d), s.R, s.P, s.S);
    for (int k : {0, 3, 4}) {
      In x = at(d, points()[k]);
      x.pf = k == 0 ? -1.5 : k == 3 ? 1 : 0.25;
      auto v = x.vars();
      C total = a.evaluate(p, t, v);
      C sum = 0;
      double scale = 0;
      size_t n = 0;
      for (auto &y : t) {
        C tv = a.evaluate_term(p, y, v);
        double sz;
        if (n < 400) {
          C want = term_value(y, x, sz);
          agree(cx, "one_term", tv, want, std::max(sz, 1e-250), 1e-8);
        }
        n++;
        sum += tv;
        scale += std::abs(tv);
      }
      agree(cx, "sum_of_terms", total, sum, scale, 1e-12);
      if (!D.multipole) {
        auto r = exact(x, false);
        if (r.ok) agree(cx, "terms", total, r.v, std::max(r.scale, 1e-250));
      } else if (d.ls.size() <= 4 || k == 0) {
        auto r = exact(x, true);
        if (r.ok) agree(cx, "terms", total, r.v, deg_scale(a, p, t, v, r));
      }
      agree(cx, "spr", a.evaluate(p, s.R, s.P, s.S, v), total, std::max(scale, 1e-250));
      agree(cx, "steps", a.evaluate(p, st, v), total, std::max(scale, 1e-250));
      agree(cx, "scaled_steps", a.evaluate(p, sc, v), factor * total, std::fabs(factor) * std::max(scale, 1e-250), 1e-11);
      // every cut of the list, reversed list, doubled list
      size_t m = t.size();
      for (size_t c = 0; c <= m; c += (m > 12 ? (m + 5) / 6 : 1)) {
        Terms l(t.begin(), t.begin() + c), r(t.begin() + c, t.end());
        agree(cx, "cut", a.evaluate(p, l, v) + a.evaluate(p, r, v), total, std::max(scale, 1e-250), 1e-11);
        Terms rl = r;
        rl.insert(rl.end(), l.begin(), l.end());
        agree(cx, "rotated", a.evaluate(p, rl, v), total, std::max(scale, 1e-250), 1e-11);
      }
      Terms rev(t.rbegin(), t.rend()), dbl = t;
      dbl.insert(dbl.end(), t.begin(), t.end());
      for (auto &y : rev) y.sign *= -3;
      agree(cx, "reversed_scaled", a.evaluate(p, rev, v), -3.0 * total, 3 * std::max(scale, 1e-250), 1e-11);
      agree(cx, "doubled", a.evaluate(p, dbl, v), 2.0 * total, 2 * std::max(scale, 1e-250), 1e-11);
      // terms without propagators, without poles, without both, at every place of the list
      double big = std::max(scale, 2 * std::abs(x.pf));
      for (size_t c = 0; c <= m; c += (m > 4 ? (m + 3) / 4 : 1)) {
        Terms e = t;
        e.insert(e.begin() + c, AmiBase::term(-2, {}, {}));
        agree(cx, "with an empty term", a.evaluate(p, e, v), total - 2.0 * x.pf, big, 1e-11);
        e[c].sign = 0;
        agree(cx, "with a vanishing term", a.evaluate(p, e, v), total, big, 1e-11);
        if (m > 0) {
          AmiBase::term y = t[c % m], w = y;
          y.p_list.clear();
          w.g_list.clear();
          e[c] = y;
          C sy = a.evaluate_term(p, y, v), sw = a.evaluate_term(p, w, v);
          agree(cx, "with a term without poles", a.evaluate(p, e, v), total + sy, big + std::abs(sy), 1e-11);
          e[c] = w;
          agree(cx, "with a term without propagators", a.evaluate(p, e, v), total + sw, big + std::abs(sw), 1e-11);
        }
      }
    }
    cx.outcomes.insert(std::to_string(t.size()));
  });
}
void explore(Ctx &cx) {
  fam_mixed(cx.thorough, [&](const Diagram &d) { one(cx, d); });
  // products that lose all their poles, in every place of the list, by shared energies
  for (auto &b : alphas(3))
    for (auto &c : alphas(3))
      for (auto &q : std::vector<VI>{{0, 0, 1}, {0, 1, 0}, {0, 1, 1}, {0, 0, 0}}) {
        if (!b[0] && !c[0]) continue;
        one(cx, mk(2, {{1, 0, 0}, b, c}, q));
        one(cx, mk(2, {b, {1, 0, 0}, c, {0, 1, 0}}, {q[0], q[1], q[2], q[2]}));
      }
}
