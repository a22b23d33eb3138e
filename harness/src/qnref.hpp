// Reference of the interface quasi-Newton method with inverse Jacobian from a least-squares model (IQN-ILS), written
// from its description: differences of residuals and of results of previous iterations, newest first; filters defined
// by the orthogonal part of each column; least-squares problem weighted by the preconditioner.
#pragma once
#include <cmath>
#include <functional>
#include <vector>

namespace verif {
using LD  = long double;
using LV  = std::vector<LD>;

struct QNConfig {
  double omega = 0.1;
  bool   enforce = false;
  int    maxUsed = 100, reused = 10;
  int    filter = 3; ///< 1 QR1, -1 QR1-absolute, 2 QR2, 3 QR3
  double limit = 1e-2;
  bool   reduced = true;
  char   bound = 'i';
};
/// preconditioner over sub-vectors
struct Precond {
  char             type = 's'; ///< c constant, v value, r residual, s residual-sum
  bool             threshold = true;
  int              freeze = -1;
  std::vector<LD>  factors; ///< constant
  std::vector<LD>  w;       ///< weight per sub-vector
  bool             frozen = false, firstWindow = true;
  int              windows = 0;
  std::vector<LD>  sum, prevSum;
  bool             close = false; ///< a decision was too close to call

  static LD norm(const LV &v)
  {
    LD s = 0;
    for (LD x : v)
      s += x * x;
    return std::sqrt(s);
  }
  void init(size_t n)
  {
    w.resize(n, 1);
    sum.resize(n, 0);
    prevSum.resize(n, 0);
    if (type == 'c') {
      frozen = true;
      for (size_t i = 0; i < n; ++i)
        w[i] = 1 / factors[i];
    }
  }
  void update(bool complete, const std::vector<LV> &values, const std::vector<LV> &res)
  {
    const LD tiny = 1e-14L;
    if (frozen)
      return;
    if (complete) {
      ++windows;
      if (freeze > 0 && windows >= freeze)
        frozen = true;
    }
    size_t n = w.size();
    auto   ambiguous = [&](LD x) { if (x < 1e-9L && x != 0) close = true; };
    if (type == 'r') {
      if (!complete)
        for (size_t i = 0; i < n; ++i) {
          LD x = norm(res[i]);
          ambiguous(x);
          if (x >= tiny)
            w[i] = 1 / x;
        }
    } else if (type == 'v') {
      if (!complete && !firstWindow)
        return;
      for (size_t i = 0; i < n; ++i) {
        LD x = norm(values[i]);
        ambiguous(x);
        if (x >= tiny)
          w[i] = 1 / x;
      }
      firstWindow = false;
    } else if (type == 's') {
      if (complete) {
        firstWindow = false;
        std::fill(sum.begin(), sum.end(), 0);
        return;
      }
      LD all = 0;
      for (auto &r : res)
        all += norm(r) * norm(r);
      all = std::sqrt(all);
      ambiguous(all);
      bool reset = firstWindow || !threshold;
      for (size_t i = 0; i < n; ++i) {
        if (all > tiny)
          sum[i] += norm(res[i]) / all;
        ambiguous(sum[i]);
        if (sum[i] > tiny) {
          LD f = prevSum[i] / sum[i];
          if (std::fabs(f - 10) < 1e-6L || std::fabs(f - 0.1L) < 1e-6L)
            close = true;
          if (f > 10 || f < 0.1L)
            reset = true;
        }
      }
      if (reset)
        for (size_t i = 0; i < n; ++i) {
          if (sum[i] > tiny)
            w[i] = 1 / sum[i];
          prevSum[i] = sum[i];
        }
    }
  }
};

struct QNRef {
  QNConfig        cfg;
  Precond         pre;
  std::vector<LV> V, W; ///< newest first
  std::vector<int> window; ///< window each column belongs to
  std::vector<LV> Vb, Wb;
  std::vector<int> windowb;
  int  now = 1;
  bool firstIt = true, firstWin = true;
  bool stepped = false;
  LV   oldRes, oldX;
  long deleted = 0, dropped = 0, maxCols = 0;
  bool close = false; ///< a filter decision was too close to call, or columns are dependent without being filtered

  static LD dot(const LV &a, const LV &b)
  {
    LD s = 0;
    for (size_t i = 0; i < a.size(); ++i)
      s += a[i] * b[i];
    return s;
  }
  bool relaxes() const { return firstIt && (firstWin || cfg.enforce); }

  /// residual of the primary data, x~ of all data
  void differences(const LV &res, const LV &x)
  {
    if (!relaxes()) {
      if (!firstIt) {
        LV v = res, w = x;
        for (size_t i = 0; i < v.size(); ++i)
          v[i] -= oldRes[i];
        for (size_t i = 0; i < w.size(); ++i)
          w[i] -= oldX[i];
        LD n = std::sqrt(dot(v, v)), scale = std::sqrt(dot(x, x)) + std::sqrt(dot(res, res)) + std::sqrt(dot(oldRes, oldRes));
        if (n < 1e-10L * scale && (n != 0 || stepped))
          close = true;
        if (static_cast<int>(V.size()) == cfg.maxUsed || V.size() > v.size()) {
          V.pop_back(), W.pop_back(), window.pop_back();
          ++dropped;
        }
        V.insert(V.begin(), v), W.insert(W.begin(), w), window.insert(window.begin(), now);
      }
      oldRes = res;
      oldX   = x;
    }
  }
  void erase(size_t i)
  {
    V.erase(V.begin() + i), W.erase(W.begin() + i), window.erase(window.begin() + i);
    ++deleted;
  }
  /// Gram-Schmidt of weighted columns; norms of orthogonal parts
  void ortho(const std::vector<LV> &A, std::vector<LV> &Q, LV &r) const
  {
    Q.clear(), r.clear();
    for (auto a : A) {
      for (int rep = 0; rep < 3; ++rep)
        for (auto &q : Q) {
          LD d = dot(q, a);
          for (size_t i = 0; i < a.size(); ++i)
            a[i] -= d * q[i];
        }
      LD n = std::sqrt(dot(a, a));
      r.push_back(n);
      for (auto &x : a)
        x = n > 0 ? x / n : 0;
      Q.push_back(a);
    }
  }
  /// performs the filter and returns the update of all data
  LV step(const LV &weights, const LV &res)
  {
    auto scaled = [&] {
      std::vector<LV> A = V;
      for (auto &a : A)
        for (size_t i = 0; i < a.size(); ++i)
          a[i] *= weights[i];
      return A;
    };
    size_t rows = weights.size();
    // what cannot be inserted: zero columns, more columns than rows
    auto dependent = [&](size_t kept, LD orth, LD full) {
      if (kept == rows || full == 0)
        return true;
      if (orth < 1e-9L * full)
        close = true; // depends on rounding
      return false;
    };
    if (cfg.filter == 2 || cfg.filter == 3) {
      std::vector<LV> A = scaled(), Q;
      std::vector<LV> keep;
      std::vector<int> del;
      for (size_t k = 0; k < A.size(); ++k) {
        auto t = keep;
        t.push_back(A[k]);
        LV r;
        ortho(t, Q, r);
        LD full = std::sqrt(dot(A[k], A[k])), orth = r.back();
        if (keep.size() < rows && full > 0 && !keep.empty() && std::fabs(orth - cfg.limit * full) < 1e-6L * full + 0 * orth && cfg.limit > 1e-9)
          close = true;
        if (keep.size() < rows && full > 0 && orth < 1e-9L * full && cfg.limit <= 1e-9)
          close = true;
        bool out = keep.size() == rows || full == 0 || orth < cfg.limit * full;
        if (!out && dependent(keep.size(), orth, full))
          out = true;
        if (out)
          del.push_back(static_cast<int>(k));
        else
          keep.push_back(A[k]);
      }
      for (size_t i = del.size(); i-- > 0;)
        erase(del[i]);
    } else {
      // columns that cannot be inserted into the factorization
      std::vector<LV>  A = scaled(), Q, keep;
      std::vector<int> del;
      for (size_t k = 0; k < A.size(); ++k) {
        auto t = keep;
        t.push_back(A[k]);
        LV r;
        ortho(t, Q, r);
        if (dependent(keep.size(), r.back(), std::sqrt(dot(A[k], A[k]))))
          del.push_back(static_cast<int>(k));
        else
          keep.push_back(A[k]);
      }
      for (size_t i = del.size(); i-- > 0;)
        erase(del[i]);
      if (firstIt)
        deleted = 0; // only what the filter deletes is counted
      for (bool again = true; again;) {
        again = false;
        if (V.size() > 1)
          for (size_t i = 0; i < V.size();) {
            A = scaled();
            LV r;
            ortho(A, Q, r);
            LD f = 0;
            for (auto &a : A)
              f += dot(a, a);
            f = cfg.filter < 0 ? 1 : std::sqrt(f);
            if (std::fabs(r[i] - cfg.limit * f) < 1e-6L * f && cfg.limit > 1e-9)
              close = true;
            if (r[i] < 1e-9L * f && cfg.limit <= 1e-9)
              close = true;
            if (r[i] < cfg.limit * f) {
              erase(i);
              again = true;
            } else
              ++i;
          }
      }
    }
    maxCols = std::max<long>(maxCols, V.size());
    // least squares
    std::vector<LV> A = scaled(), Q;
    LV              r, b = res;
    ortho(A, Q, r);
    for (size_t i = 0; i < b.size(); ++i)
      b[i] *= weights[i];
    for (size_t k = 0; k < r.size(); ++k)
      if (r[k] < 1e-7L * std::sqrt(dot(A[k], A[k])))
        close = true;
    LV c(V.size(), 0);
    for (size_t k = V.size(); k-- > 0;) {
      LD s = -dot(Q[k], b);
      for (size_t j = k + 1; j < V.size(); ++j)
        s -= dot(Q[k], A[j]) * c[j];
      c[k] = r[k] > 0 ? s / r[k] : 0;
    }
    LV up(W.empty() ? 0 : W[0].size(), 0);
    stepped = stepped || !W.empty();
    for (size_t k = 0; k < V.size(); ++k)
      for (size_t i = 0; i < up.size(); ++i)
        up[i] += W[k][i] * c[k];
    return up;
  }
  void clearColumns() { V.clear(), W.clear(), window.clear(); }
  void restore()
  {
    if (!firstWin && V.empty() && cfg.reused == 0 && !cfg.enforce)
      V = Vb, W = Wb, window = windowb;
  }
  void afterStep()
  {
    if (firstIt && cfg.reused == 0 && !cfg.enforce) {
      if (!V.empty())
        Vb = V, Wb = W, windowb = window;
      clearColumns();
    }
    firstIt = false;
  }
  void converged()
  {
    if (!firstIt)
      firstWin = false;
    if (cfg.reused == 0) {
      if (cfg.enforce)
        clearColumns();
    } else {
      // keep the columns of the last windows that have any
      int n = 0, last = -1;
      for (size_t i = 0; i < window.size(); ++i) {
        if (window[i] != last) {
          ++n;
          last = window[i];
        }
        if (n > cfg.reused) {
          dropped += window.size() - i;
          V.resize(i), W.resize(i), window.resize(i);
          break;
        }
      }
    }
    ++now;
    firstIt = true;
  }
};
} // namespace verif
