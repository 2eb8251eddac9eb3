// C07: statistical functions and derivatives on a full grid of orders, temperatures and energies.
#include "lib.hpp"
#include "stat.hpp"
static double fubini(int m) { static const double f[] = {1, 1, 3, 13, 75, 541, 4683, 47293, 545835, 7087261, 102247563, 1622632573, 28091567595.}; return f[m]; }
static void cmp(Ctx &cx, const char *w, C got, int m, int sigma, double beta, C E, double shift = 0, double sign = 1) {
  double size;
  auto z = stat_::deriv(m, sigma, beta, E, &size, shift);
  C want = sign * num::todbl(z);
  // rounding of exp(beta E) itself moves the argument by |beta E| units in the last place
  double amp = 1 + std::abs(beta * E) * (1 + m);
  double dist = 1; // distance of beta E from the nearest pole, relative
  C x = beta * (E + shift);
  double im = std::remainder(x.imag() - (sigma > 0 ? M_PI : 0), 2 * M_PI);
  dist = std::min(1.0, std::hypot(x.real(), im));
  double tol = 4e-15 * fubini(m) * amp / dist + 1e-13;
  REQUIRE_(finite(got), w << ": not finite: " << got << " expected " << want);
  cx.cnt["comparisons"]++;
  double s = std::max(size, 1e-285 * std::max(1.0, std::pow(beta, m))), e = std::abs(got - want) / s;
  cx.mx["max_rel_error_over_tolerance"] = std::max(cx.mx["max_rel_error_over_tolerance"], e / tol);
  REQUIRE_(e <= tol, w << ": got " << got << " expected " << want << " relative " << e << " allowed " << tol);
}
void explore(Ctx &cx) {
  std::vector<double> betas = {0.01, 0.3, 1, 1.7, 5, 40, 1000, 1e4, 1e6, 1e-5};
  std::vector<double> xs = {-1e5, -8000, -1500, -746, -745.2, -710, -709.5, -700, -501, -499, -300, -100, -40, -36, -20, -8.5, -3.3, -1, -0.4, -0.05, -1e-3, -3.1e-5, -8.7e-7, -6e-8, -2e-9, -1e-12};
  if (cx.thorough) { for (double x = -30; x < -0.01; x *= 0.9) xs.push_back(x); for (double x = -900; x < -30; x *= 0.97) xs.push_back(x); betas.push_back(0.11); betas.push_back(7.3); betas.push_back(200); }
  std::vector<double> ims = {0, 0.3, -0.7, 1.1, 2.9};
  int M = 11;
  {
    int n = (int)xs.size();
    for (int i = 0; i < n; i++) xs.push_back(-xs[i]);
    xs.push_back(0);
  }
  for (double beta : betas)
    for (double x : xs)
      for (double y : ims)
        for (int sigma : {1, -1})
          for (int m = 0; m <= M; m++) {
            if (x == 0 && y == 0 && sigma < 0) continue; // on the pole
            if (sigma < 0 && std::hypot(x, y) < 0.04 && m > (std::hypot(x, y) < 1e-3 ? 2 : 4)) continue; // next to a pole of order m+1: ill-conditioned
            cx.visit([&] { std::ostringstream o; o.precision(17); o << "order " << m << " sigma " << sigma << " beta " << beta << " betaE (" << x << "," << y << ")"; return o.str(); }, [&] {
              cx.cnt["states"]++; cx.cnt["transitions"]++;
              C E(x / beta, y / beta);
              AmiBase a;
              cmp(cx, "fermi_bose", a.fermi_bose(m, sigma, beta, E), m, sigma, beta, E);
              // the same through a pole: energy as a combination, statistics from the frequencies
              for (int extra = 0; extra < 2; extra++) {
                AmiBase::ami_parms p(1, 0);
                AmiBase::pole_struct q;
                q.index_ = 0;
                q.der_ = m;
                q.eps_ = extra ? VI{-1, 0, 2} : VI{1, 0};
                q.alpha_ = extra ? VI{0, -1, 1, sigma > 0 ? 0 : 1} : VI{0, sigma > 0 ? 0 : -1};
                AmiBase::energy_t en = extra ? AmiBase::energy_t{C(1.25, -0.5) , C(9, 9), (E + C(1.25, -0.5)) / 2.0} : AmiBase::energy_t{E, C(3, 1)};
                C Ep = 0;
                for (size_t k = 0; k < q.eps_.size(); k++) Ep += double(q.eps_[k]) * en[k];
                AmiBase::ami_vars v(en, AmiBase::frequency_t(q.alpha_.size(), C(0.3, 1)), beta, 5.0);
                if (std::abs(beta * Ep) < 1e-12 && sigma < 0) continue;
                if (extra && std::abs(Ep - E) > 1e-6 * std::abs(E)) continue; // lost in the combination
                cmp(cx, "fermi_pole", a.fermi_pole(p, q, v), m, sigma, beta, Ep);
              }
              if (m <= 4 && std::abs(x) >= 0.05 && std::abs(x) < 800) // spectral poles: the argument is shifted by the combination x_alpha_ of the frequencies
                for (auto &xa : std::vector<VI>{{1}, {-1, 0}, {0, 1}, {1, 1}, {1, -1}, {1, 0, -1}, {-1, 1, 1}, {1, 0, 0}, {2, -1, 0}}) {
                  AmiBase::ami_parms p(1, 0);
                  AmiBase::pole_struct q;
                  q.index_ = 0;
                  q.der_ = m;
                  q.eps_ = {1};
                  q.alpha_ = {0, -1, 0};
                  q.x_alpha_ = xa;
                  AmiBase::frequency_t fr = {E * 0.5, E * C(0, 0.0625) + 0.25 / beta, E * 0.125};
                  C want = E;
                  for (size_t k = 0; k < xa.size(); k++) want += double(xa[k]) * fr[k];
                  if (sigma > 0) q.alpha_ = {0, 1, -1, 0}, fr.push_back(C(0, 3));
                  cx.cnt["spectral_poles"]++;
                  AmiBase::ami_vars v({E}, fr, beta);
                  cmp(cx, "fermi_pole x_alpha", a.fermi_pole(p, q, v), m, sigma, beta, want);
                }
              if (x == xs[0]) { // parity of the number of fermionic frequencies, whatever their signs
                AmiBase::ami_parms p(1, 0);
                for (auto &al : alphas(4)) {
                  AmiBase::pole_struct q;
                  q.index_ = 0;
                  q.der_ = m;
                  q.eps_ = {1};
                  q.alpha_ = al;
                  q.alpha_[0] = 0;
                  int n = 0;
                  for (int k = 1; k < 4; k++) n += al[k] != 0;
                  C e2(0.73 / beta, y / beta);
                  AmiBase::ami_vars v({e2}, AmiBase::frequency_t(4, C(0, 1)), beta);
                  cmp(cx, "fermi_pole parity", a.fermi_pole(p, q, v), m, n % 2 ? -1 : 1, beta, e2);
                }
              }
            });
          }
}
