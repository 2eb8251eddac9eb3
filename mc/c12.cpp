// C12: regulator, dropped derivatives, dropped Bose divergences, Matsubara poles.
#include "fams.hpp"
struct Set { double ereg; bool der, bose, mats; };
static const int NUM[3][8] = {{717, -1235, 418, 1646, -317, 2123, -829, 1359}, {-524, 983, 1391, -744, 1141, -1672, 328, -209}, {301, 1277, -933, -1801, 613, 97, 1490, -2211}};
static void one(Ctx &cx, const Diagram &d, AmiBase::graph_type type = AmiBase::Sigma) {
  for (int mats = 0; mats < 2; mats++) {
    Domain D0 = domain(d, VI(), mats ? 1 : 2);
    if (!D0.valid) { cx.cnt["outside_domain"]++; continue; }
    if (bosonic_type(type) && mats) continue;
    for (int z = -1; z < d.E(); z++)
      cx.visit([&] { return show(d) + " type=" + std::to_string((int)type) + " drop_matsubara_poles=" + std::to_string(mats) + " zero energy=" + std::to_string(z); }, [&] {
        int pat = (z + 1 + mats) % 3;
        Diagram m = d;
        VI k(d.E());
        for (int i = 0; i < d.E(); i++) k[i] = i == z ? 0 : NUM[pat][i % 8] + 16 * (i / 8);
        for (auto &l : m.ls) {
          int s = 0;
          for (int i = 0; i < d.E(); i++) s += l.e[i] * k[i];
          l.e = VI{s};
        }
        Domain D = domain(m, VI(), 2);
        Domain D1 = domain(d, VI(), 2);
        if (!D.valid || D.multipole != D1.multipole || D.max_mult != D1.max_mult) { cx.cnt["numerically_coinciding"]++; return; }
        AmiBase a;
        a.drop_matsubara_poles = mats;
        In x;
        x.d = d;
        x.type = type;
        AmiBase::ami_parms p0 = x.parms();
        Spr s;
        Fac fs, ft;
        AmiBase::terms t;
        a.construct(p0, gprod(d), s.R, s.P, s.S);
        a.construct(p0, gprod(d), t);
        a.factorize_Rn(s.R.back(), fs.u, fs.rr, fs.el);
        a.factorize_terms(t, ft.u, ft.rr, ft.el);
        cx.cnt["states"] += count_states(s);
        bool zero = z >= 0;
        C base[4];
        bool have_base = false;
        std::vector<Set> sets;
        for (double r : {0.0, 1.0 / 1024, 0.25, -0.0625})
          for (int b = 0; b < 4; b++) sets.push_back({r, (b & 1) != 0, (b & 2) != 0, mats != 0});
        int np = 0;
        for (auto &q : sets) {
          if (D.multipole && d.ls.size() > 4 && np++ % 3) continue; // 110-digit references: every third setting
          x.ereg = q.ereg;
          x.beta = q.ereg == 0.25 ? 3.0 : 1.25;
          x.pf = q.der ? -0.75 : 1;
          x.E.clear();
          for (int v : k) x.E.push_back(C(v / 1024.0, (pat == 2 && v) ? 0.125 * (v > 0 ? 1 : -1) : 0.0));
          x.f = freqs(d.F(), d.N, C(0.3125, 1.125));
          a.drop_der = q.der;
          a.drop_bosonic_diverge = q.bose;
          AmiBase::ami_parms p = x.parms();
          auto v = x.vars();
          ref::Opt o = ropt(x);
          o.drop_der = q.der;
          o.find_div = true;
          o.drop_bose = q.bose;
          o.drop_matsubara = mats;
          auto e = exact(x, D.multipole, VI(), &o);
          C r[4];
          for (int f = 0; f < 4; f++) {
            r[f] = f == 0   ? a.evaluate(p, s.R, s.P, s.S, v)
                   : f == 1 ? a.evaluate(p, s.R, s.P, s.S, v, fs.u, fs.rr, fs.el)
                   : f == 2 ? a.evaluate(p, t, v)
                            : a.evaluate(p, t, v, ft.u, ft.rr, ft.el);
            REQUIRE_(p.E_REG_ == q.ereg && a.drop_der == q.der && a.drop_bosonic_diverge == q.bose && a.drop_matsubara_poles == (mats != 0), "an option was changed by the evaluation");
          }
          if (!e.ok) { cx.cnt["divergent"]++; continue; }
          static const char *nm[4] = {"spr", "spr_factorized", "terms", "terms_factorized"};
          double sc = D.multipole ? std::max(1e-15, deg_scale(a, p, t, v, e)) : std::max(e.scale, 1e-250);
          for (int f = 0; f < 4; f++) {
            std::ostringstream w;
            w << nm[f] << " (E_REG=" << q.ereg << " drop_der=" << q.der << " drop_bosonic_diverge=" << q.bose << ")";
            cx.cnt["comparisons"]++;
            REQUIRE_(finite(r[f]), w.str() << " is not finite: " << r[f] << " expected " << e.v << " " << show(x));
            double er = std::abs(r[f] - e.v) / sc;
            cx.mx[std::string("max_rel_error_") + nm[f]] = std::max(cx.mx[std::string("max_rel_error_") + nm[f]], er);
            REQUIRE_(er <= 1e-7, w.str() << ": got " << r[f] << " expected " << e.v << " (relative deviation " << er << ") " << show(x));
          }
          cx.cnt["transitions"]++;
          // neutral settings are without effect, bit by bit
          if (q.ereg == 0 && !q.der && !q.bose) { for (int f = 0; f < 4; f++) base[f] = r[f]; have_base = true; }
          if (have_base && q.ereg == 0 && !q.der && q.bose && !zero && !D.matsubara_pole)
            for (int f = 0; f < 4; f++) REQUIRE_(base[f] == r[f], "dropping Bose divergences changes " << nm[f] << " without a divergence: " << base[f] << " " << r[f]);
          if (have_base && q.ereg == 0 && q.der && !q.bose && !D.multipole) {
            x.pf = 1;
            auto v1 = x.vars();
            REQUIRE_(a.evaluate(p, s.R, s.P, s.S, v1) == base[0] && a.evaluate(p, t, v1) == base[2], "dropping derivatives changes a sum without derivatives");
          }
          std::ostringstream sig;
          sig << q.ereg << q.der << q.bose << mats << D.multipole << D.matsubara_pole << zero;
          cx.outcomes.insert(sig.str());
        }
        // without Matsubara poles the switch changes nothing
        if (!D1.matsubara_pole) {
          AmiBase b;
          b.drop_matsubara_poles = !mats;
          Spr s2;
          b.construct(p0, gprod(d), s2.R, s2.P, s2.S);
          REQUIRE_(s2.S == s.S && count_states(s2) == count_states(s) && count_trans(s2) == count_trans(s), "drop_matsubara_poles changes a solution without such poles");
        }
      });
  }
}
// an energy that is small but not zero is not a divergence: nothing may be dropped or regulated
static void near_zero(Ctx &cx, const Diagram &d, AmiBase::graph_type type = AmiBase::Sigma) {
  if (!domain(d, VI(), 2).valid) { cx.cnt["outside_domain"]++; return; }
  for (int z = 0; z < d.E(); z++)
    cx.visit([&] { return "near zero " + show(d) + " type=" + std::to_string((int)type) + " small energy=" + std::to_string(z); }, [&] {
      Diagram m = d;
      for (auto &l : m.ls) {
        int s1 = 0, s2 = l.e.size() > (size_t)z ? l.e[z] : 0;
        for (int i = 0; i < d.E(); i++) if (i != z) s1 += l.e[i] * (NUM[z % 3][i % 8] + 16 * (i / 8));
        l.e = VI{s1, s2};
      }
      Domain D = domain(m, VI(), 2);
      if (!D.valid || D.multipole) { cx.cnt["near_zero_excluded"]++; return; }
      AmiBase a;
      a.drop_matsubara_poles = false;
      In x;
      x.d = d;
      x.type = type;
      AmiBase::ami_parms p0 = x.parms();
      Spr s;
      Fac fs, ft;
      AmiBase::terms t;
      a.construct(p0, gprod(d), s.R, s.P, s.S);
      a.construct(p0, gprod(d), t);
      a.factorize_Rn(s.R.back(), fs.u, fs.rr, fs.el);
      a.factorize_terms(t, ft.u, ft.rr, ft.el);
      cx.cnt["states"] += count_states(s);
      for (double small : {std::ldexp(1.0, -12), -std::ldexp(1.0, -20), std::ldexp(1.0, -26), -std::ldexp(1.0, -31), std::ldexp(1.0, -34), std::ldexp(1.0, -38)})
        for (int im = 0; im < 2; im++)
          for (int b = 0; b < 2; b++)
            for (double reg : {0.0, 0.25}) {
              x.ereg = reg;
              x.beta = 1.25;
              C sm = im ? C(0, small) : C(small, 0);
              x.E.clear();
              for (int i = 0; i < d.E(); i++) x.E.push_back(i == z ? sm : C((NUM[z % 3][i % 8] + 16 * (i / 8)) / 1024.0, 0));
              if (reg != 0 && im) continue;
              x.f = freqs(d.F(), d.N, C(0.3125, 1.125));
              a.drop_bosonic_diverge = b;
              In y = x;
              y.d = m;
              y.E = {C(1.0 / 1024, 0), sm};
              ref::Opt o = ropt(y);
              o.find_div = true;
              o.drop_bose = b;
              auto e = exact(y, false, VI(), &o);
              if (!e.ok) { cx.cnt["divergent"]++; continue; }
              AmiBase::ami_parms p = x.parms();
              auto v = x.vars();
              C r[4] = {a.evaluate(p, s.R, s.P, s.S, v), a.evaluate(p, s.R, s.P, s.S, v, fs.u, fs.rr, fs.el), a.evaluate(p, t, v), a.evaluate(p, t, v, ft.u, ft.rr, ft.el)};
              static const char *nm[4] = {"near_zero_spr", "near_zero_spr_factorized", "near_zero_terms", "near_zero_terms_factorized"};
              double tol = std::max(1e-9, 4e-15 / std::abs(small)); // rounding of exp next to the pole of the Bose function
              for (int f = 0; f < 4; f++) agree(cx, nm[f], r[f], e.v, std::max(e.scale, 1e-250), tol);
              cx.cnt["transitions"]++;
            }
      cx.outcomes.insert("near zero");
    });
}
void explore(Ctx &cx) {
  fam_wide([&](const Diagram &d) { one(cx, d); });
  bool T = cx.thorough;
  auto parts = [](int n, const std::function<void(const VI &)> &f) { // partitions, and lines without energy
    partitions(n, [&](const VI &q) {
      f(q);
      for (int i = 0; i < n; i++) {
        VI r = q;
        r[i] = -1;
        for (int j = 0, c = 0; j < n; j++) (void)c, (void)j;
        f(r);
      }
    });
  };
  for (auto &b : alphas(2)) {
    one(cx, mk(0, {b, unit(2, 1)}, {0, 1}));
    for (auto &c : alphas(2)) {
      parts(2, [&](const VI &q) { one(cx, mk(1, {b, c}, q)); one(cx, mk(1, {b, c}, q), AmiBase::Pi_phuu); });
      for (auto &d : alphas(2)) parts(3, [&](const VI &q) { one(cx, mk(1, {b, c, d}, q)); });
    }
  }
  for (auto &b : alphas(3)) {
    parts(3, [&](const VI &q) {
      one(cx, mk(2, {{1, 0, 0}, {0, 1, 0}, b}, q));
      one(cx, mk(2, {{1, 0, 0}, {0, 1, 0}, b}, q), AmiBase::Pi_phud);
      one(cx, mk(2, {b, {-1, 0, 0}, {0, 1, 0}}, q));
    });
    for (auto &c : alphas(3)) {
      if (!(b <= c)) continue;
      one(cx, mk(2, {{1, 0, 0}, {0, 1, 0}, b, c}, {0, 1, 2, 3}));
      for (auto &q : std::vector<VI>{{0, 1, 2, 2}, {0, 1, -1, 2}, {0, 0, -1, 1}, {-1, 0, 0, 1}, {0, -1, -1, 1}})
        if (T || q[2] == -1) one(cx, mk(2, {{1, 0, 0}, {0, 1, 0}, b, c}, q));
    }
  }
  for (auto &b : alphas(2))
    for (auto &c : alphas(2)) {
      near_zero(cx, mk(1, {b, c}, {0, 1}));
      near_zero(cx, mk(1, {b, c}, {0, 1}), AmiBase::Pi_phuu);
      for (auto &d : alphas(2)) near_zero(cx, mk(1, {b, c, d}, {0, 1, 2}));
    }
  for (auto &b : alphas(3)) {
    for (auto ty : {AmiBase::Sigma, AmiBase::Pi_ppud}) { near_zero(cx, mk(2, {{1, 0, 0}, {0, 1, 0}, b}, {0, 1, 2}), ty); near_zero(cx, mk(2, {b, {-1, 0, 0}, {0, 1, 0}}, {0, 1, 2}), ty); }
    for (auto &c : alphas(3)) if (b <= c) near_zero(cx, mk(2, {{1, 0, 0}, {0, 1, 0}, b, c}, {0, 1, 2, 3}));
  }
  const auto &A4 = alphas(4);
  for (size_t i = 0; i < A4.size(); i++) {
    one(cx, mk(3, {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, A4[i]}, {0, 1, 2, 3}));
    one(cx, mk(3, {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, A4[i]}, {0, 1, 2, -1}));
    one(cx, mk(3, {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, A4[i]}, {0, 0, -1, 1}));
  }
  for (int m = 2; m <= 5; m++) { // multiple poles
    std::vector<VI> a(m, VI{1, 0});
    VI q(m, 0);
    for (auto &b : alphas(2))
      for (int e : {1, 0, -1}) {
        auto a2 = a;
        auto q2 = q;
        a2.push_back(b);
        q2.push_back(e);
        one(cx, mk(1, a2, q2));
        one(cx, mk(1, a2, q2), AmiBase::Pi_phuu);
        a2[0] = {-1, 0};
        one(cx, mk(1, a2, q2));
      }
  }
}
