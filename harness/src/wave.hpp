// Reference waveform: samples over time and the documented interpolation (degree 0: next sample; degree
// d>=1: spline of degree min(d, n-1) through all samples with averaged knots).  Written independently of
// the code under test (Cox-de Boor recursion and a dense solve).
#pragma once
#include <algorithm>
#include <cmath>
#include <stdexcept>
#include <utility>
#include <vector>

namespace verif {
using Vec = std::vector<double>;

inline bool teq(double a, double b) { return std::fabs(a - b) <= 1e-13 * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }

inline double bsplineBasis(int i, int p, double u, const Vec &k)
{
  if (p == 0) {
    bool last = k[i + 1] == k.back() && u == k.back();
    return ((k[i] <= u && u < k[i + 1]) || (last && k[i] < k[i + 1])) ? 1.0 : 0.0;
  }
  double a = 0, b = 0;
  if (k[i + p] > k[i])
    a = (u - k[i]) / (k[i + p] - k[i]) * bsplineBasis(i, p - 1, u, k);
  if (k[i + p + 1] > k[i + 1])
    b = (k[i + p + 1] - u) / (k[i + p + 1] - k[i + 1]) * bsplineBasis(i + 1, p - 1, u, k);
  return a + b;
}

/// weights w with f(u) = sum w_j f_j
inline Vec splineWeights(const Vec &ts, int p, double t)
{
  int    n = static_cast<int>(ts.size());
  Vec    u(n);
  double lo = ts.front(), hi = ts.back();
  for (int i = 0; i < n; ++i)
    u[i] = (ts[i] - lo) / (hi - lo);
  double x = std::min(1.0, std::max(0.0, (t - lo) / (hi - lo)));
  Vec    knots(p + 1, 0.0);
  for (int j = 1; j < n - p; ++j) {
    double s = 0;
    for (int i = j; i < j + p; ++i)
      s += u[i];
    knots.push_back(s / p);
  }
  for (int i = 0; i <= p; ++i)
    knots.push_back(1.0);
  // collocation A c = f; value = b^T c = (A^-T b)^T f
  std::vector<Vec> M(n, Vec(n + 1, 0.0)); // M = A^T | b
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      M[j][i] = bsplineBasis(j, p, u[i], knots);
  for (int j = 0; j < n; ++j)
    M[j][n] = bsplineBasis(j, p, x, knots);
  for (int c = 0; c < n; ++c) {
    int piv = c;
    for (int r = c; r < n; ++r)
      if (std::fabs(M[r][c]) > std::fabs(M[piv][c]))
        piv = r;
    std::swap(M[c], M[piv]);
    if (M[c][c] == 0)
      throw std::runtime_error("singular spline collocation in the reference model");
    for (int r = 0; r < n; ++r)
      if (r != c) {
        double f = M[r][c] / M[c][c];
        for (int k = c; k <= n; ++k)
          M[r][k] -= f * M[c][k];
      }
  }
  Vec w(n);
  for (int i = 0; i < n; ++i)
    w[i] = M[i][n] / M[i][i];
  return w;
}

struct Wave {
  std::vector<std::pair<double, Vec>> s;
  int                                 degree = 1;

  const Vec &back() const { return s.back().second; }
  void       put(double t, Vec v)
  {
    for (auto &x : s)
      if (teq(x.first, t)) {
        x.second = std::move(v);
        return;
      }
    if (!s.empty() && t < s.back().first)
      throw std::runtime_error("reference model: sample in the past");
    s.emplace_back(t, std::move(v));
  }
  void keepLast() { s.erase(s.begin(), s.end() - 1); }
  void keepFirst() { s.erase(s.begin() + 1, s.end()); }
  Vec  at(double t) const
  {
    int n = static_cast<int>(s.size());
    int p = std::min(degree, n - 1);
    if (p == 0) {
      if (n == 1)
        return s[0].second;
      for (auto &x : s)
        if (x.first >= t || teq(x.first, t))
          return x.second;
      return s.back().second;
    }
    for (auto &x : s)
      if (teq(x.first, t))
        return x.second;
    Vec ts;
    for (auto &x : s)
      ts.push_back(x.first);
    Vec w = splineWeights(ts, p, t);
    Vec r(s[0].second.size(), 0.0);
    for (int i = 0; i < n; ++i)
      for (size_t k = 0; k < r.size(); ++k)
        r[k] += w[i] * s[i].second[k];
    return r;
  }
};
} // namespace verif
