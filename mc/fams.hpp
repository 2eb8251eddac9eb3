// A moderately large mixed family of integrands shared by several checks: simple and multiple poles, 0..4
// sums, opposite signs, shared energies, spectators, no external frequency.
#pragma once
#include "lib.hpp"
// few energies at far places of a long list; long products, also with a repeated pole at far places
inline void fam_wide(const std::function<void(const Diagram &)> &f, int longest = 65) {
  std::vector<Diagram> base = {mk(1, {{1, 0}, {1, 1}}, {0, 1}), mk(1, {{1, 0}, {1, 0}, {-1, 1}}, {0, 0, 1}), mk(1, {{1, 0}, {-1, 0}, {1, -1}}, {0, 1, 2}), mk(0, {{0, 1}, {1, 0}}, {0, 1}),
                               mk(2, {{1, 0, 0}, {0, 1, 0}, {1, 1, -1}}, {0, 1, 2}), mk(2, {{1, 0, 0}, {0, 1, 0}, {0, 1, 0}, {-1, 1, 1}}, {0, 1, 1, 2})};
  for (auto &d : base)
    for (int off : {6, 7, 8, 15, 16, 31, 32, 33, 63, 64, 129})
      for (int spread = 0; spread < 2; spread++) { // all energies far, or all but the first
        Diagram w = d;
        for (auto &l : w.ls) { VI e(d.E() + off, 0); for (int k = 0; k < d.E(); k++) e[k == 0 && spread ? 0 : k + off] = l.e[k]; l.e = e; }
        f(w);
      }
  for (int n : {7, 8, 15, 16, 31, 32, 33, 64, 65, 129}) {
    if (n > longest) break;
    for (int form = 0; form < 4; form++) {
      std::vector<VI> a;
      VI q;
      auto add = [&](VI r, int e) { a.push_back(r); q.push_back(e); };
      if (form == 1) add({1, 0}, 0);
      if (form == 3) { add({1, 0}, 0); add({1, 1}, 1); }
      for (int j = 0; j < n; j++) add({0, j % 3 ? 1 : -1}, 3 + j);
      if (form == 0) add({0, 1}, 2);
      if (form == 1) { add({1, 1}, 1); add({1, 0}, 0); }
      if (form == 2) { add({1, 0}, 0); add({-1, 1}, 1); add({1, 0}, 0); }
      f(mk(form ? 1 : 0, a, q));
    }
  }
}
// many sums with a multiple pole late; energies with coefficients beyond -1, 0, 1
inline void fam_more(bool big, const std::function<void(const Diagram &)> &f) {
  for (int N = 5; N <= (big ? 8 : 7); N++)
    for (int at = 0; at < N; at++)
      for (int m = 2; m <= (big ? 4 : 3); m++)
        for (int by = 0; by < 2; by++) {
          if (!big && at < 2 && m > 2) continue;
          std::vector<VI> a;
          VI q;
          for (int k = 0; k < N; k++)
            for (int i = 0; i < (k == at ? m : 1); i++) { a.push_back(unit(N + 1, k)); q.push_back(k); }
          VI b = unit(N + 1, N);
          b[at] = 1; // shares the multiple pole's frequency, and the last or the first one
          if (by) b[at == N - 1 ? 0 : N - 1] = -1;
          a.push_back(b);
          q.push_back(N);
          f(mk(N, a, q));
        }
  auto line = [](VI al, VI e) { return LineS{al, e}; };
  for (auto &e1 : std::vector<VI>{{1, -1}, {1, 1}, {2, -1}, {0, 2}})
    for (int x = -3; x <= 3; x++)
      for (int y = -3; y <= 3; y++) {
        if (x == 0 && y == 0) continue;
        if (!big && std::abs(x) + std::abs(y) > 4) continue;
        for (int form = 0; form < 3; form++) {
          Diagram d;
          d.N = form == 2 ? 2 : 1;
          if (form == 0) d.ls = {line({1, 0}, e1), line({1, 0}, {x, y}), line({1, 1}, {0, 1})};
          if (form == 1) d.ls = {line({1, 0}, e1), line({-1, 1}, {x, y}), line({0, 1}, {x, y}), line({0, 1}, e1)};
          if (form == 2) d.ls = {line({1, 0, 0}, e1), line({0, 1, 0}, {x, y}), line({1, 1, 1}, {1, 0})};
          f(d);
        }
      }
}
// visits diagrams; `big` adds the expensive part
inline void fam_mixed(bool big, const std::function<void(const Diagram &)> &f) {
  for (int F = 1; F <= 2; F++)
    for (auto &b : alphas(F)) { f(mk(0, {b}, {0})); f(mk(0, {b, unit(F, 0)}, {0, 1})); f(mk(0, {unit(F, F - 1), b, b}, {0, 1, 1})); }
  const auto &A2 = alphas(2);
  for (auto &b : A2) {
    f(mk(1, {b}, {0}));
    for (auto &c : A2) {
      partitions(2, [&](const VI &q) { f(mk(1, {b, c}, q)); });
      for (auto &d : A2) partitions(3, [&](const VI &q) { f(mk(1, {b, c, d}, q)); });
    }
  }
  const auto &A3 = alphas(3);
  for (auto &b : A3) {
    partitions(3, [&](const VI &q) { f(mk(2, {{1, 0, 0}, {0, 1, 0}, b}, q)); f(mk(2, {b, {-1, 0, 0}, {0, 1, 0}}, q)); });
    for (auto &c : A3) {
      f(mk(2, {{1, 0, 0}, {0, 1, 0}, b, c}, {0, 1, 2, 3}));
      if (b <= c) for (auto &q : std::vector<VI>{{0, 1, 2, 2}, {0, 1, 0, 1}, {0, 0, 1, 2}, {0, 0, 0, 0}}) f(mk(2, {{1, 0, 0}, {0, 1, 0}, b, c}, q));
    }
  }
  const auto &A4 = alphas(4);
  for (size_t i = 0; i < A4.size(); i++) {
    f(mk(3, {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, A4[i]}, {0, 1, 2, 3}));
    f(mk(3, {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, A4[i]}, {0, 1, 1, 0}));
    for (size_t j = i; j < A4.size(); j += big ? 1 : 7) {
      f(mk(3, {{1, 0, 0, 0}, A4[i], {0, 1, 0, 0}, {0, 0, 1, 0}, A4[j]}, {0, 1, 2, 3, 4}));
      f(mk(3, {{1, 0, 0, 0}, A4[i], {0, 1, 0, 0}, {0, 0, 1, 0}, A4[j]}, {0, 1, 0, 2, 1}));
    }
  }
  for (auto &b : alphas(5)) f(mk(4, {{1, 0, 0, 0, 0}, {0, 1, 0, 0, 0}, {0, 0, 1, 0, 0}, {0, 0, 0, 1, 0}, b}, {0, 1, 2, 3, 4}));
  // repeated propagators, also with reversed sign
  for (auto &b : A2)
    for (int m = 2; m <= 4; m++) {
      std::vector<VI> a(m, VI{1, 0});
      VI q(m, 0);
      a.push_back(b);
      q.push_back(1);
      Diagram d = mk(1, a, q);
      f(d);
      for (int i = 0; i < m; i += 2) { for (auto &x : d.ls[i].a) x = -x; for (auto &x : d.ls[i].e) x = -x; }
      f(d);
    }
  // multiple poles met in consecutive sums
  for (int m = 2; m <= 3; m++)
    for (int n = 2; n <= 3; n++)
      for (auto &b : std::vector<VI>{{1, 1, 1}, {-1, 1, 0}, {1, -1, 1}, {1, 1, 0}})
        for (int sg = 0; sg < 4; sg++) {
          std::vector<VI> a(m, VI{1, 0, 0});
          VI q(m, 0);
          a.push_back(b);
          q.push_back(1);
          for (int i = 0; i < n; i++) { a.push_back({0, 1, 0}); q.push_back(2); }
          Diagram d = mk(2, a, q);
          for (int w = 0; w < 2; w++) // reverse one line of a group
            if (sg >> w & 1) { auto &l = d.ls[w ? m + 1 : 0]; for (auto &x : l.a) x = -x; for (auto &x : l.e) x = -x; }
          f(d);
        }
  // multiples of the external frequency (the poles keep coefficients -1, 0, 1)
  for (int x = -3; x <= 3; x++)
    for (int y = -3; y <= 3; y++)
      if (x < -1 || x > 1 || y < -1 || y > 1 || x * y == -1 || x * y == 1) {
        f(mk(0, {{x}, {y}}, {0, 1}));
        for (int sg : {1, -1}) {
          f(mk(1, {{1, 0}, {sg, 1}, {0, x}, {0, y}}, {0, 1, 2, 3}));
          f(mk(1, {{1, x}, {sg, y}}, {0, 1}));
          f(mk(1, {{1, x}, {1, x}, {sg, y}}, {0, 0, 1}));
          f(mk(2, {{1, 0, x}, {0, 1, y}, {1, sg, 1}}, {0, 1, 2}));
          f(mk(2, {{1, 0, x}, {0, 1, y}, {sg, 0, y}, {0, sg, x}}, {0, 1, 2, 3}));
          f(mk(1, {{1, 1, -1}, {sg, -1, 1}, {0, x, y}}, {0, 1, 2}));
        }
      }
  for (int e : {2, 3, 4, 5}) f(example(e));
  fam_wide(f);
  fam_more(big, f);
}
