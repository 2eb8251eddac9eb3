// C23: what is printed is the solution: every printing function shows all entries of its argument, in order and with
// their values, and neither changes the argument nor leaves traces; evaluation with messages switched on gives the same.
#include "fams.hpp"
#include "forms.hpp"
#include <iostream>
#include <regex>
typedef std::vector<std::string> Toks;
// ---- reading: the numbers and the brackets of the output, whatever words stand between them
static std::string ints(const std::string &s) { // list of integers in brackets
  std::istringstream i(s);
  std::string w, r;
  while (i >> w) { REQUIRE_(w.find_first_not_of("-0123456789") == std::string::npos, "not a list of integers: " << s); r += w + ","; }
  return r;
}
static Toks read(const std::string &s) {
  static const std::regex re("S\\[(\\d+)\\]=|P\\[(\\d+)\\]=|R\\[(\\d+)\\]=|\\{([^}]*)\\}|(\\[|\\])|(Printing G_product)|(X_Alpha|Alpha|Eps)=\\(([^)]*)\\)|Der: *(-?\\d+)|Species= *(-?\\d+)|Term: *(\\d+)|Sign *= *([-+.0-9a-z]+)|SIZE= *(\\d+)|(--poles--)");
  Toks t;
  for (std::sregex_iterator i(s.begin(), s.end(), re), e; i != e; ++i) {
    const auto &m = *i;
    if (m[1].matched) t.push_back("S" + m[1].str());
    else if (m[2].matched) t.push_back("P" + m[2].str());
    else if (m[3].matched) t.push_back("R" + m[3].str());
    else if (m[4].matched) { t.push_back("{"); std::istringstream n(m[4].str()); std::string w; while (n >> w) t.push_back("#" + w); t.push_back("}"); }
    else if (m[5].matched) t.push_back(m[5].str());
    else if (m[6].matched) t.push_back("product");
    else if (m[7].matched) t.push_back(m[7].str() + ints(m[8].str()));
    else if (m[9].matched) t.push_back("der" + m[9].str());
    else if (m[10].matched) t.push_back("species" + m[10].str());
    else if (m[11].matched) t.push_back("term" + m[11].str());
    else if (m[12].matched) t.push_back("#" + m[12].str());
    else if (m[13].matched) t.push_back("size" + m[13].str());
    else t.push_back("poles");
  }
  return t;
}
// ---- what has to be there
static std::string li(const VI &v) { std::string r; for (int x : v) r += std::to_string(x) + ","; return r; }
struct Want {
  Toks t;
  void num(double x) { std::ostringstream o; o.precision(17); o << x; t.push_back("#" + o.str()); }
  void g(const AmiBase::g_struct &x) { t.push_back("species" + std::to_string(x.species_)); t.push_back("Eps" + li(x.eps_)); t.push_back("Alpha" + li(x.alpha_)); }
  void p(const AmiBase::pole_struct &x) { t.push_back("Eps" + li(x.eps_)); t.push_back("Alpha" + li(x.alpha_)); t.push_back("X_Alpha" + li(x.x_alpha_)); t.push_back("der" + std::to_string(x.der_)); }
  void gs(const AmiBase::g_prod_t &x) { t.push_back("product"); for (auto &y : x) g(y); }
  void pi(const AmiBase::Pi_t &x) { for (auto &r : x) { t.push_back("["); for (auto &y : r) p(y); t.push_back("]"); } }
  void S(const AmiBase::S_t &s) { for (size_t i = 0; i < s.size(); i++) { t.push_back("S" + std::to_string(i)); for (auto &r : s[i]) { t.push_back("{"); for (double x : r) num(x); t.push_back("}"); } } }
  void P(const AmiBase::P_t &q) { for (size_t i = 0; i < q.size(); i++) { t.push_back("P" + std::to_string(i)); pi(q[i]); } }
  void R(const AmiBase::R_t &r) { for (size_t i = 0; i < r.size(); i++) { t.push_back("R" + std::to_string(i)); for (auto &x : r[i]) gs(x); } }
  void term(const AmiBase::term &x) { t.push_back("size" + std::to_string(x.g_list.size())); for (auto &y : x.g_list) g(y); t.push_back("poles"); for (auto &y : x.p_list) p(y); num(x.sign); }
};
static void same(Ctx &cx, const char *what, const Toks &have, const Toks &want) {
  cx.cnt["comparisons"]++;
  cx.cnt["transitions"] += (long)want.size();
  for (size_t i = 0; i < std::max(have.size(), want.size()); i++) {
    std::string h = i < have.size() ? have[i] : "(end)", w = i < want.size() ? want[i] : "(end)";
    bool ok = h == w;
    if (!ok && h[0] == '#' && w[0] == '#') { // six digits are printed
      double x = atof(h.c_str() + 1), y = atof(w.c_str() + 1);
      ok = std::fabs(x - y) <= 2e-5 * std::fabs(y);
    }
    REQUIRE_(ok, what << ": item " << i << " of the output is " << h << ", expected " << w);
  }
}
struct Capture {
  std::ostringstream b;
  std::streambuf *old;
  std::ios::fmtflags fl;
  std::streamsize pr;
  Capture() : old(std::cout.rdbuf(b.rdbuf())), fl(std::cout.flags()), pr(std::cout.precision()) {}
  ~Capture() { std::cout.rdbuf(old); std::cout.flags(fl); std::cout.precision(pr); }
  Toks get(const char *what) {
    REQUIRE_(std::cout.flags() == fl && std::cout.precision() == pr && std::cout.good(), what << ": the format of the stream is changed");
    return read(b.str());
  }
};
static std::string state(const Spr &s, const AmiBase::terms &t) {
  Want w;
  w.S(s.S); w.P(s.P); w.R(s.R);
  for (auto &x : t) w.term(x);
  std::string r;
  for (auto &x : w.t) r += x + " ";
  for (auto &q : s.P) for (auto &y : q) for (auto &u : y) r += li(u.which_g_) + std::to_string(u.multiplicity_) + "/" + std::to_string(u.index_);
  return r;
}
#define SHOW(call, wants) { Want w_; Toks h_; wants; { Capture c_; call; h_ = c_.get(#call); } same(cx, #call, h_, w_.t); }
static void prints(Ctx &cx, AmiBase &a, int N, Spr &s, AmiBase::terms &t) {
  std::string before = state(s, t);
  SHOW(a.print_final(N, s.R, s.P, s.S), (w_.S(s.S), w_.P(s.P), w_.R(s.R)));
  SHOW(a.print_S(N, s.S), w_.S(s.S));
  SHOW(a.print_P(N, s.P), w_.P(s.P));
  SHOW(a.print_R(N, s.R), w_.R(s.R));
  for (int dim : {0, 1, N + 2}) { // the arrays are shown as they are, whatever the number of sums given
    if (s.R.size() > 5 || dim == N) continue;
    SHOW(a.print_final(dim, s.R, s.P, s.S), (w_.S(s.S), w_.P(s.P), w_.R(s.R)));
    SHOW(a.print_S(dim, s.S), w_.S(s.S));
    SHOW(a.print_P(dim, s.P), w_.P(s.P));
    SHOW(a.print_R(dim, s.R), w_.R(s.R));
    for (auto &x : s.P) SHOW(a.print_Pi(dim, x), w_.pi(x));
  }
  for (auto &x : s.P) {
    SHOW(a.print_Pi(N, x), w_.pi(x));
    for (auto &y : x) {
      SHOW(a.print_pole_array(y), for (auto &z : y) w_.p(z));
      for (auto &z : y) SHOW(a.print_pole_struct_info(z), w_.p(z));
    }
  }
  for (auto &x : s.R) {
    SHOW(a.print_g_prod_array(x), for (auto &y : x) w_.gs(y));
    size_t n = 0;
    for (auto &y : x) {
      if (n++ > 6) break;
      SHOW(a.print_g_prod_info(y), w_.gs(y));
      for (auto &z : y) {
        SHOW(a.print_g_struct_info(z), w_.g(z));
        { Capture c; a.print_epsilon_info(z.eps_); std::string o = ints(c.b.str()); REQUIRE_(o == li(z.eps_), "print_epsilon_info shows " << o); }
        { Capture c; a.print_alpha_info(z.alpha_); std::string o = ints(c.b.str()); REQUIRE_(o == li(z.alpha_), "print_alpha_info shows " << o); }
      }
    }
  }
  SHOW(a.print_terms(t), for (size_t i = 0; i < t.size(); i++) (w_.t.push_back("term" + std::to_string(i)), w_.term(t[i])));
  for (auto &x : t) SHOW(a.print_term(x), w_.term(x));
  REQUIRE_(state(s, t) == before, "printing changes the solution");
  cx.cnt["states"] += count_states(s) + (long)t.size();
}
static bool bits(C x, C y) { return memcmp(&x, &y, sizeof x) == 0; }
static void loud(Ctx &cx, const Diagram &d, Spr &s, AmiBase::terms &t) {
  AmiBase a, b;
  b.verbose = true;
  AmiBase::ami_parms p(d.N, 0);
  Fac f, g;
  a.factorize_Rn(s.R.back(), f.u, f.rr, f.el);
  a.factorize_terms(t, g.u, g.rr, g.el);
  Spr z;
  AmiBase::terms y;
  {
    Capture c;
    b.construct(p, gprod(d), z.R, z.P, z.S);
    b.construct(p, gprod(d), y);
  }
  AmiBase::terms y0;
  a.construct(p, gprod(d), y0);
  REQUIRE_(state(z, y) == state(s, y0), "construction with messages switched on gives another solution");
  for (int k : {0, 3, 4}) {
    In x = at(d, points()[k]);
    for (int f2 = 0; f2 < 5; f2++) {
      C r[2];
      bool fl[2];
      for (int w = 0; w < 2; w++) {
        AmiBase &o = w ? b : a;
        auto v = x.vars();
        Capture c;
        r[w] = f2 == 0 ? o.evaluate(p, s.R, s.P, s.S, v) : f2 == 1 ? o.evaluate(p, s.R, s.P, s.S, v, f.u, f.rr, f.el) : f2 == 2 ? o.evaluate(p, t, v) : f2 == 3 ? o.evaluate(p, t, v, g.u, g.rr, g.el) : o.evaluate_otf(p, s.R, s.P, s.S, v);
        fl[w] = o.overflow_detected;
        if (w == 0) REQUIRE_(c.b.str().empty(), NAME[f2] << ": prints although messages are switched off: " << c.b.str().substr(0, 80));
      }
      REQUIRE_(bits(r[0], r[1]) && fl[0] == fl[1], NAME[f2] << ": " << r[0] << " quiet, " << r[1] << " with messages (indicator " << fl[0] << fl[1] << ")");
      cx.cnt["comparisons"]++;
    }
  }
}
static void one(Ctx &cx, const Diagram &d) {
  cx.visit([&] { return show(d); }, [&] {
    if (!domain(d).valid) { cx.cnt["outside_domain"]++; return; }
    AmiBase a;
    AmiBase::ami_parms p(d.N, 0);
    auto g = gprod(d);
    for (size_t i = 0; i < g.size(); i++) g[i].species_ = (int)((i * 7 + (size_t)cx.idx) % 5) * (i % 2 ? 1 : -300);
    Spr s;
    AmiBase::terms t;
    a.construct(p, g, s.R, s.P, s.S);
    a.construct(p, g, t);
    prints(cx, a, d.N, s, t);
    a.construct(p, gprod(d), s.R, s.P, s.S);
    a.construct(p, gprod(d), t);
    loud(cx, d, s, t);
    cx.outcomes.insert(std::to_string(s.R.back().size()) + "/" + std::to_string(t.size()));
  });
}
// any contents
static void hand(Ctx &cx, int N, int rows, int len, int mix) {
  cx.visit([&] { return "hand-written arrays " + std::to_string(N) + "," + std::to_string(rows) + "," + std::to_string(len) + "," + std::to_string(mix); }, [&] {
    AmiBase a;
    Spr s;
    int c = mix * 13;
    auto vec = [&](int n) { VI v; for (int i = 0; i < n; i++) v.push_back((c = (c * 37 + 11) % 1009) % 23 == 0 ? 2147483647 : c % 7 == 0 ? -c * 1000003 % 2147483647 : c % 5 - 2); return v; };
    static const double SG[] = {1, -1, 0.5, -0.041666666666666664, 1e-7, -123456.75, 3e22, 0};
    AmiBase::terms t;
    for (int k = 0; k <= N; k++) {
      AmiBase::Ri_t R;
      AmiBase::Pi_t P;
      AmiBase::Si_t S;
      for (int r = 0; r < rows; r++) {
        AmiBase::g_prod_t g;
        AmiBase::pole_array_t p;
        AmiBase::sign_t sg;
        for (int i = 0; i < (len + r) % 4; i++) { AmiBase::g_struct x(vec(len), vec(N + 1)); x.species_ = vec(1)[0]; g.push_back(x); }
        for (int i = 0; i < (len + r + k) % 4; i++) {
          AmiBase::pole_struct q(vec(len), vec(N + 1));
          q.der_ = (c % 17 == 0) ? 12 : i;
          if ((i + mix) % 2) q.x_alpha_ = vec(N + 2);
          p.push_back(q);
          sg.push_back(SG[(c + i) % 8]);
        }
        R.push_back(g);
        P.push_back(p);
        S.push_back(sg);
        t.push_back(AmiBase::term(SG[(c + r) % 8], p, g));
      }
      s.R.push_back(R);
      if (k < N) { s.P.push_back(P); s.S.push_back(S); }
    }
    prints(cx, a, N, s, t);
  });
}
void explore(Ctx &cx) {
  for (int N = 0; N <= 4; N++) for (int rows = 0; rows <= 6; rows++) for (int len = 0; len <= 5; len++) for (int m = 0; m < (cx.thorough ? 40 : 8); m++) hand(cx, N, rows, len, m);
  hand(cx, 1, 300, 1, 0);
  hand(cx, 12, 2, 1, 0);
  hand(cx, 1, 2, 40, 0);
  fam_mixed(cx.thorough, [&](const Diagram &d) { one(cx, d); });
}
