// C09: radial-basis function mappings interpolate
#include "../src/maprun.hpp"
using namespace verif;

namespace {
using ld  = long double;
using Mat = std::vector<std::vector<ld>>;

struct Basis {
  const char              *name;
  bool                     spd, compact, shape;
  std::function<ld(ld, ld)> f; ///< (distance, parameter)
};
const std::vector<Basis> &bases()
{
  static const std::vector<Basis> b{
      {"thin-plate-splines", false, false, false, [](ld r, ld) { return r < 1e-18L ? 0 : r * r * std::log(r); }},
      {"volume-splines", false, false, false, [](ld r, ld) { return r; }},
      {"multiquadrics", false, false, true, [](ld r, ld s) { return std::sqrt(s * s + r * r); }},
      {"inverse-multiquadrics", true, false, true, [](ld r, ld s) { return 1 / std::sqrt(s * s + r * r); }},
      {"gaussian", true, true, true, [](ld r, ld s) { return r > std::sqrt(-std::log(1e-9L)) / s ? 0 : std::exp(-s * s * r * r); }},
      {"gaussian", true, true, false, [](ld r, ld R) { ld s = std::sqrt(-std::log(1e-9L)) / R; return r > R ? 0 : std::exp(-s * s * r * r); }},
      {"compact-tps-c2", true, true, false, [](ld r, ld R) { ld p = r / R; return p >= 1 ? 0 : p < 1e-18L ? 1 : 1 - 30 * p * p - 10 * p * p * p + 45 * p * p * p * p - 6 * std::pow(p, 5.L) - 60 * p * p * p * std::log(p); }},
      {"compact-polynomial-c0", true, true, false, [](ld r, ld R) { ld p = r / R; return p >= 1 ? 0 : (1 - p) * (1 - p); }},
      {"compact-polynomial-c2", true, true, false, [](ld r, ld R) { ld p = r / R; return p >= 1 ? 0 : std::pow(1 - p, 4.L) * (4 * p + 1); }},
      {"compact-polynomial-c4", true, true, false, [](ld r, ld R) { ld p = r / R; return p >= 1 ? 0 : std::pow(1 - p, 6.L) * (35 * p * p + 18 * p + 3); }},
      {"compact-polynomial-c6", true, true, false, [](ld r, ld R) { ld p = r / R; return p >= 1 ? 0 : std::pow(1 - p, 8.L) * (32 * p * p * p + 25 * p * p + 8 * p + 1); }},
      {"compact-polynomial-c8", true, true, false, [](ld r, ld R) { ld p = r / R; return p >= 1 ? 0 : std::pow(1 - p, 10.L) * (1287 * p * p * p * p + 1350 * p * p * p + 630 * p * p + 150 * p + 15); }},
  };
  return b;
}
const char *POLY[] = {"separate", "on", "off"};

/// inverse by Gauss-Jordan elimination with full pivoting; rcond estimates the reciprocal condition (0: singular)
Mat inverse(Mat a, double &rcond)
{
  int  n    = static_cast<int>(a.size());
  auto norm = [n](const Mat &m) { ld x = 0; for (int i = 0; i < n; ++i) { ld s = 0; for (int j = 0; j < n; ++j) s += std::abs(m[i][j]); x = std::max(x, s); } return x; };
  ld   na   = norm(a);
  Mat  b(n, std::vector<ld>(n, 0));
  for (int i = 0; i < n; ++i)
    b[i][i] = 1;
  rcond = 0;
  std::vector<int> cols;
  std::vector<bool> rowUsed(n), colUsed(n);
  std::vector<int>  rowOfCol(n, -1);
  for (int k = 0; k < n; ++k) {
    int pi = -1, pj = -1;
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n && !rowUsed[i]; ++j)
        if (!colUsed[j] && (pi < 0 || std::abs(a[i][j]) > std::abs(a[pi][pj])))
          pi = i, pj = j;
    if (std::abs(a[pi][pj]) <= na * 1e-17L)
      return {};
    rowUsed[pi] = colUsed[pj] = true;
    rowOfCol[pj]              = pi;
    ld f                      = 1 / a[pi][pj];
    for (int j = 0; j < n; ++j)
      a[pi][j] *= f, b[pi][j] *= f;
    for (int i = 0; i < n; ++i)
      if (i != pi) {
        ld g = a[i][pj];
        for (int j = 0; j < n; ++j)
          a[i][j] -= g * a[pi][j], b[i][j] -= g * b[pi][j];
      }
  }
  Mat r(n);
  for (int j = 0; j < n; ++j)
    r[j] = b[rowOfCol[j]];
  rcond = static_cast<double>(1 / (na * norm(r)));
  return r;
}
Mat mul(const Mat &a, const Mat &b)
{
  Mat r(a.size(), std::vector<ld>(b[0].size(), 0));
  for (size_t i = 0; i < a.size(); ++i)
    for (size_t j = 0; j < b[0].size(); ++j)
      for (size_t k = 0; k < b.size(); ++k)
        r[i][j] += a[i][k] * b[k][j];
  return r;
}
Mat transpose(const Mat &a)
{
  Mat r(a[0].size(), std::vector<ld>(a.size()));
  for (size_t i = 0; i < a.size(); ++i)
    for (size_t j = 0; j < a[0].size(); ++j)
      r[j][i] = a[i][j];
  return r;
}
struct Settings {
  const Basis      *basis;
  double            par;
  int               poly; // index into POLY
  std::vector<bool> dead;
};
/// the weights over the vertices `own` of g for each point; several alternatives if the choice is not determined
struct Rbf {
  enum State { OK,
               SINGULAR,
               ILL } state = OK;
  std::vector<std::vector<Row>> rows; ///< [alternative][point]
};
Rbf reference(const Geo &g, const std::vector<int> &own, const std::vector<Vec> &points, const Settings &s)
{
  Rbf              r;
  int              n = static_cast<int>(own.size());
  std::vector<int> active;
  for (int d = 0; d < g.dim; ++d)
    if (!s.dead[d])
      active.push_back(d);
  auto dist = [&](const Vec &a, const Vec &b) { ld x = 0; for (int d : active) x += ld(a[d] - b[d]) * (a[d] - b[d]); return std::sqrt(x); };
  auto poly = [](const Vec &p, const std::vector<int> &axes) { std::vector<ld> x{1}; for (int d : axes) x.push_back(p[d]); return x; };
  int  np   = s.poly == 1 ? 1 + static_cast<int>(active.size()) : 0;
  Mat  C(n + np, std::vector<ld>(n + np, 0)), A(points.size(), std::vector<ld>(n + np, 0));
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j)
      C[i][j] = s.basis->f(dist(g.v[own[i]], g.v[own[j]]), s.par);
    auto q = poly(g.v[own[i]], active);
    for (int j = 0; j < np; ++j)
      C[i][n + j] = C[n + j][i] = q[j];
  }
  for (size_t i = 0; i < points.size(); ++i) {
    for (int j = 0; j < n; ++j)
      A[i][j] = s.basis->f(dist(points[i], g.v[own[j]]), s.par);
    auto q = poly(points[i], active);
    for (int j = 0; j < np; ++j)
      A[i][n + j] = q[j];
  }
  double rc;
  Mat    inv = inverse(C, rc);
  if (rc < 1e-7) {
    r.state = inv.empty() ? Rbf::SINGULAR : Rbf::ILL;
    return r;
  }
  Mat  W   = mul(A, inv);
  auto put = [&](const Mat &w) {
    std::vector<Row> rows(points.size(), Row(g.n(), 0.0));
    for (size_t i = 0; i < points.size(); ++i)
      for (int j = 0; j < n; ++j)
        rows[i][own[j]] = static_cast<double>(w[i][j]);
    r.rows.push_back(rows);
  };
  if (s.poly != 0) {
    put(W);
    return r;
  }
  // the separate polynomial: axes of small extent are dropped until the polynomial is determined
  std::vector<std::vector<int>> axes{active};
  while (!axes.empty()) {
    std::vector<std::vector<int>> next;
    for (auto &ax : axes) {
      int p      = 1 + static_cast<int>(ax.size());
      Mat Q;
      for (int i : own)
        Q.push_back(poly(g.v[i], ax));
      bool   full = p <= n;
      double c    = 0;
      Mat    qinv;
      if (full) {
        qinv = inverse(mul(transpose(Q), Q), c);
        full = !qinv.empty();
      }
      if (full && c < 1e-7) { // close to the threshold of the implementation (condition 1e5 of Q)
        r.state = Rbf::ILL;
        return r;
      }
      if (full) {
        Mat P = mul(qinv, transpose(Q)); // Q+
        Mat V;
        for (auto &x : points)
          V.push_back(poly(x, ax));
        // A C^-1 (I - Q Q+) + V Q+
        Mat WQ = mul(W, Q);
        for (size_t i = 0; i < points.size(); ++i)
          for (int k = 0; k < p; ++k)
            WQ[i][k] = V[i][k] - WQ[i][k];
        Mat cor = mul(WQ, P);
        for (size_t i = 0; i < points.size(); ++i)
          for (int j = 0; j < n; ++j)
            cor[i][j] += W[i][j];
        put(cor);
      } else {
        ld best = -1;
        auto extent = [&](int d) { ld lo = 1e300L, hi = -1e300L; for (int i : own) lo = std::min<ld>(lo, g.v[i][d]), hi = std::max<ld>(hi, g.v[i][d]); return hi - lo; };
        for (int d : ax)
          if (best < 0 || extent(d) < best)
            best = extent(d);
        for (int d : ax)
          if (extent(d) <= best + 1e-12L) {
            auto x = ax;
            x.erase(std::find(x.begin(), x.end(), d));
            if (std::find(next.begin(), next.end(), x) == next.end())
              next.push_back(x);
          }
      }
    }
    axes = next;
  }
  return r;
}
std::string body(const Settings &s)
{
  std::string o = std::string("<basis-function:") + s.basis->name;
  if (s.basis->shape || s.basis->compact)
    o += (s.basis->shape ? " shape-parameter=\"" : " support-radius=\"") + num(s.par) + "\"";
  return o + "/>";
}
std::string attrs(const Settings &s, int dim)
{
  std::string o = std::string("polynomial=\"") + POLY[s.poly] + "\"";
  for (int d = 0; d < dim; ++d)
    if (s.dead[d])
      o += std::string(" ") + "xyz"[d] + "-dead=\"true\"";
  return o;
}
double radius(const Settings &s) { return s.basis->shape ? std::sqrt(-std::log(1e-9)) / s.par : s.par; }

const std::vector<std::vector<Vec>> SHAPES2{
    {{0.2, 0.1, 0}, {1, 0.2, 0}, {0.3, 1.1, 0}, {1.2, 1.3, 0}, {2, 0.6, 0}}, // general
    {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {1, 1, 0}, {2, 0, 0}, {2, 1, 0}},      // grid
    {{0.5, 0, 0}, {0.5, 1, 0}, {0.5, 2, 0}, {0.5, 3, 0}},                    // on a line along y
    {{0, 1, 0}, {1, 1.5, 0}, {2, 2, 0}, {4, 3, 0}},                          // on a slanted line
    {{1, 1, 0}, {2, 2, 0}, {3, 3, 0}},                                       // equal extents
    {{5, 5, 0}, {6, 6.5, 0}},                                                // fewer vertices than polynomial parameters
    {{5, 5, 0}},
    {{0, 0, 0}, {1, 0.5, 0}, {2, 0.25, 0}, {3, 0.75, 0}, {4, 0.125, 0}, {5, 1, 0}, {1.5, 2, 0}},
    {{3, 2, 0}, {3.1, 2, 0}, {3, 2.1, 0}, {9, 7, 0}},
};
const std::vector<std::vector<Vec>> SHAPES3{
    {{0.2, 0.1, 0}, {1, 0.2, 0.1}, {0.3, 1.1, 0.2}, {1.2, 1.3, 1.1}, {0.4, 0.6, 0.9}, {1.5, 0.3, 0.7}},
    {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {1, 1, 0}, {0, 0, 1}, {1, 0, 1}, {0, 1, 1}, {1, 1, 1}},
    {{0, 0, 2}, {1, 0, 2}, {0, 1, 2}, {1, 1.5, 2}, {2, 1, 2}},       // plane z = 2
    {{0, 0, 0}, {1, 0, 1}, {0, 1, 0}, {1, 1, 1}, {2, 0.5, 2}},       // slanted plane
    {{1, 0, 3}, {1, 1, 3}, {1, 2, 3}},                              // line along y
    {{0, 0, 0}, {1, 2, 3}, {2, 4, 6}},                              // slanted line
    {{5, 4, 3}, {6, 4.5, 3.2}},
    {{5, 4, 3}},
    {{5, 4, 3}, {6, 4.5, 3.2}, {5.5, 6, 3.7}},                       // 3 vertices in space
};
std::vector<Vec> targets(const std::vector<Vec> &s, int dim)
{
  std::vector<Vec> t(s.begin(), s.end()); // coinciding ones
  for (size_t i = 0; i < s.size(); ++i) {
    const Vec &a = s[i], &b = s[(i + 1) % s.size()];
    t.push_back({(a[0] + b[0]) / 2, (a[1] + b[1]) / 2, (a[2] + b[2]) / 2});
    t.push_back({a[0] + 0.3, a[1] - 0.2, dim == 3 ? a[2] + 0.15 : 0.0});
  }
  t.push_back({s[0][0] - 1.5, s[0][1] + 0.5, dim == 3 ? s[0][2] - 0.5 : 0.0});
  return t;
}
const std::vector<Vec> P2 = {{0, 0, 0}, {1, 0.1, 0}, {0.2, 1, 0}, {1.1, 1.2, 0}, {2, 0.4, 0}};
const std::vector<Vec> T2 = {{0.15, 0.12, 0}, {0.93, 0.38, 0}, {1.52, 0.71, 0}, {0.31, 0.83, 0}, {0.61, 0.57, 0}};
const std::vector<Vec> P3 = {{0, 0, 0}, {1, 0.1, 0.05}, {0.2, 1, -0.1}, {0.3, 0.25, 1}, {1.1, 0.9, 0.8}};
const std::vector<Vec> T3 = {{0.15, 0.12, 0.17}, {0.93, 0.38, 0.21}, {0.31, 0.83, 0.05}, {0.52, 0.41, 0.47}, {0.31, 0.27, 0.81}};
const char            *FILTER[] = {"geometric-filter=\"no-filter\"", "", "safety-factor=\"0.1\""};
const double           FACTOR[] = {-1, 0.5, 0.1};
struct Case {
  MapCase  k;
  Settings s;
  bool     cons = false;
  int      filter = 0, m2n = 0;
};
} // namespace

int main(int argc, char **argv)
{
  Campaign c("C09", argc, argv);
  c.rule = "a case is a mapping configuration on a pair of meshes; distinct by the mapped values";
  Sched sched;
  RankLibs::get().load(c.lib, c.scratchDir(), 6, &sched);
  bool big = c.thorough();

  auto params = [](const Basis &b, int which) { return !b.shape && !b.compact ? 0.0 : b.shape ? (which == 0 ? 1.0 : which == 1 ? 0.5 : 3.0)
                                                                                                : (which == 0 ? 2.5 : which == 1 ? 1.2 : 8.0); };
  auto check  = [&](CaseCtx &ctx, const Case &cs, const MapResult &r, const Rbf &ref, double tol = 1e-7) {
    // alternatives must hold for all points at once
    for (size_t a = 0; a < ref.rows.size(); ++a) {
      CaseCtx probe(ctx.counters, ctx.states, ctx.outcomes);
      CaseCtx &use = a + 1 == ref.rows.size() ? ctx : probe;
      bool    ok;
      if (cs.cons)
        ok = matchTransposed(use, cs.k, r, ref.rows[a], tol);
      else {
        std::vector<std::vector<Row>> one;
        for (auto &x : ref.rows[a])
          one.push_back({x});
        ok = matchRows(use, cs.k, r, one, tol);
      }
      if (ok) {
        ctx.digest = use.digest;
        ctx.outcome(ctx.digest);
        return;
      }
    }
  };
  // all basis functions, polynomials, dead axes, shapes of meshes
  struct Combo {
    const Basis *b;
    double       par;
    int          poly;
  };
  auto combos = [&](int pars, bool refused) {
    std::vector<Combo> r;
    for (auto &b : bases())
      for (int p = 0; p < (b.shape || b.compact ? pars : 1); ++p)
        for (int poly = 0; poly < 3; ++poly)
          if ((poly == 1 && b.spd) == refused)
            r.push_back({&b, params(b, p), poly});
    return r;
  };
  auto serial = [&](uint64_t i, int dim, const std::vector<Combo> &cb, bool allDead) {
    Digits      d(i);
    Case        cs;
    auto        src = d.pick(dim == 2 ? SHAPES2 : SHAPES3);
    const auto &m   = d.pick(cb);
    cs.s.basis      = m.b;
    cs.s.par        = m.par;
    cs.s.poly       = m.poly;
    cs.cons         = d(2);
    unsigned dead   = allDead ? (1 << dim) - 1 : d((1 << dim) - 1);
    for (int x = 0; x < dim; ++x)
      cs.s.dead.push_back(dead >> x & 1);
    cs.k.read = !cs.cons != (d(2) == 1);
    Geo s, t;
    s.dim = t.dim      = dim;
    s.v                = src;
    t.v                = targets(src, dim);
    cs.k.in            = cs.cons ? t : s;
    cs.k.out           = cs.cons ? s : t;
    cs.k.tag           = "rbf-global-direct";
    cs.k.constraint    = cs.cons ? "conservative" : "consistent";
    cs.k.attrs         = attrs(cs.s, dim);
    cs.k.body          = body(cs.s);
    cs.k.style         = i % 2;
    fillGeneric(cs.k);
    return cs;
  };
  auto serialStage = [&](int dim, int pars, bool refuse, bool allDead) {
    auto     cb = combos(pars, refuse);
    uint64_t n  = (dim == 2 ? SHAPES2 : SHAPES3).size() * cb.size() * 2 * (allDead ? 1 : (1 << dim) - 1) * 2;
    c.stage(
        (refuse ? "refused-" : allDead ? "dead-" : "direct-") + std::to_string(dim) + "d", n, [=](uint64_t i) { return describe(serial(i, dim, cb, allDead).k); },
        [&, dim, cb, refuse, allDead](CaseCtx &ctx, uint64_t i) {
          Case       cs  = serial(i, dim, cb, allDead);
          const Geo &src = cs.cons ? cs.k.out : cs.k.in, &dst = cs.cons ? cs.k.in : cs.k.out;
          if (refuse || allDead) {
            auto r = runMap(sched, ctx, cs.k, policy(i), false);
            ctx.count("refused");
            ctx.require(!r.ok, "accepted", [&] { return describe(cs.k) + " is accepted"; });
            return;
          }
          int active = static_cast<int>(std::count(cs.s.dead.begin(), cs.s.dead.end(), false));
          if (cs.s.poly == 1 && src.n() < 2 + active) {
            ctx.count("too few vertices for an integrated polynomial (excluded)");
            return;
          }
          std::vector<int> own;
          for (int j = 0; j < src.n(); ++j)
            own.push_back(j);
          Rbf  ref = reference(src, own, dst.v, cs.s);
          auto r   = runMap(sched, ctx, cs.k, policy(i), ref.state == Rbf::OK);
          if (ref.state == Rbf::OK) {
            if (r.ok) {
              ctx.count("mapped");
              check(ctx, cs, r, ref);
            }
          } else if (ref.state == Rbf::SINGULAR) {
            ctx.count(r.ok ? "singular, not detected" : "singular, reported");
            bool reported = false;
            for (auto &e : r.error)
              reported = reported || e.find("not invertable") != std::string::npos;
            ctx.require(r.ok || reported, "error", [&] { return describe(cs.k) + ": error " + r.error[0] + r.error[1]; });
            ctx.require(!r.ok || cs.s.basis->spd, "singular", [&] { return describe(cs.k) + ": a singular system is not reported"; });
          } else
            ctx.count("ill-conditioned, not compared");
        });
  };
  serialStage(2, big ? 3 : 2, false, false);
  serialStage(3, big ? 3 : 1, false, false);
  serialStage(2, 1, true, false);
  serialStage(3, 1, false, true);
  // distributions over ranks
  auto parallel = [&](uint64_t i, int dim, int nm, int np, int ns, int nt, bool shared) {
    Digits d(i);
    Case   cs;
    static const std::vector<Combo> cb = [&] {
      std::vector<Combo> r;
      for (auto &b : bases())
        if (b.name == std::string("thin-plate-splines"))
          r.push_back({&b, 0, 0}), r.push_back({&b, 0, 1});
        else if (b.name == std::string("compact-polynomial-c6"))
          r.push_back({&b, 4, 0}), r.push_back({&b, 0.6, 2}), r.push_back({&b, 0.6, 0});
      return r;
    }();
    const auto &m = d.pick(cb);
    cs.s          = {m.b, m.par, m.poly, std::vector<bool>(dim, false)};
    cs.cons       = shared ? false : d(2);
    cs.filter     = d(3);
    cs.m2n        = nm > 1 && np > 1 ? d(2) : 0;
    std::vector<unsigned> qr, sr;
    for (int j = 0; j < nt; ++j)
      qr.push_back(shared ? 1 + d((1 << nm) - 1) : 1u << d(nm));
    for (int j = 0; j < ns; ++j)
      sr.push_back(1u << d(np));
    Geo s, t;
    s.dim = t.dim = dim;
    s.v.assign((dim == 2 ? P2 : P3).begin(), (dim == 2 ? P2 : P3).begin() + ns);
    t.v.assign((dim == 2 ? T2 : T3).begin(), (dim == 2 ? T2 : T3).begin() + nt);
    cs.k.in = cs.cons ? t : s;
    cs.k.out = cs.cons ? s : t;
    (cs.cons ? cs.k.inRank : cs.k.outRank) = qr;
    (cs.cons ? cs.k.outRank : cs.k.inRank) = sr;
    cs.k.ra         = cs.cons ? nm : np;
    cs.k.rb         = cs.cons ? np : nm;
    cs.k.tag        = "rbf-global-direct";
    cs.k.constraint = cs.cons ? "conservative" : "consistent";
    cs.k.read       = !cs.cons;
    cs.k.attrs      = attrs(cs.s, dim);
    cs.k.body       = body(cs.s);
    cs.k.recvAttrs  = FILTER[cs.filter];
    cs.k.m2n        = cs.m2n ? "use-two-level-initialization=\"on\"" : "";
    fillGeneric(cs.k);
    return cs;
  };
  auto power         = [](uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; };
  auto parallelStage = [&](const std::string &name, int dim, int nm, int np, int ns, int nt, bool shared) {
    uint64_t n = 5 * (shared ? 1 : 2) * 3 * (nm > 1 && np > 1 ? 2 : 1) * power(shared ? (1 << nm) - 1 : nm, nt) * power(np, ns);
    c.stage(
        name, n, [=](uint64_t i) { return describe(parallel(i, dim, nm, np, ns, nt, shared).k); },
        [&, dim, nm, np, ns, nt, shared](CaseCtx &ctx, uint64_t i) {
          Case cs = parallel(i, dim, nm, np, ns, nt, shared);
          const Geo &src = cs.cons ? cs.k.out : cs.k.in, &dst = cs.cons ? cs.k.in : cs.k.out;
          const auto &qr = cs.cons ? cs.k.inRank : cs.k.outRank, &sr = cs.cons ? cs.k.outRank : cs.k.inRank;
          // the part of the mesh that takes part in the interpolation; the geometric filter is not used for these
          // mappings, but the two-level initialization only connects ranks with overlapping boxes
          std::vector<bool> take(src.n(), nm == 1);
          bool              lost = false;
          for (int r = 0; r < nm && nm > 1; ++r) {
            Vec  lo{1e300, 1e300, 1e300}, hi{-1e300, -1e300, -1e300};
            bool any = false;
            for (int j = 0; j < dst.n(); ++j)
              if (qr[j] >> r & 1) {
                any = true;
                for (int x = 0; x < 3; ++x)
                  lo[x] = std::min(lo[x], dst.v[j][x]), hi[x] = std::max(hi[x], dst.v[j][x]);
              }
            if (!any)
              continue;
            double l = 0;
            for (int x = 0; x < dim; ++x)
              l = std::max(l, hi[x] - lo[x]);
            double f = -1, R = cs.s.basis->compact ? radius(cs.s) : 1e300;
            auto   inside = [&](const Vec &p, double by) { for (int x = 0; x < dim; ++x) if (p[x] < lo[x] - by || p[x] > hi[x] + by) return false; return true; };
            std::vector<bool> connected(np, true);
            for (int q = 0; q < np && cs.m2n; ++q) {
              Vec slo{1e300, 1e300, 1e300}, shi{-1e300, -1e300, -1e300};
              for (int j = 0; j < src.n(); ++j)
                if (sr[j] >> q & 1)
                  for (int x = 0; x < dim; ++x)
                    slo[x] = std::min(slo[x], src.v[j][x]), shi[x] = std::max(shi[x], src.v[j][x]);
              double g = (FACTOR[cs.filter] < 0 ? 0.5 : FACTOR[cs.filter]) * l;
              for (int x = 0; x < dim; ++x)
                connected[q] = connected[q] && shi[x] >= lo[x] - g && slo[x] <= hi[x] + g;
            }
            bool some = false;
            for (int j = 0; j < src.n(); ++j) {
              bool in = f < 0 || inside(src.v[j], f * l);
              bool by = false;
              for (int q = 0; q < np; ++q)
                by = by || (connected[q] && sr[j] >> q & 1);
              in      = in && by;
              some    = some || in;
              take[j] = take[j] || (in && inside(src.v[j], R));
            }
            lost = lost || !some;
          }
          std::vector<int> own;
          for (int j = 0; j < src.n(); ++j)
            if (take[j])
              own.push_back(j);
          if (!lost && own.empty()) {
            ctx.count("nothing within the support radius (excluded)");
            return;
          }
          if (cs.s.poly == 1 && !lost && static_cast<int>(own.size()) < 2 + dim) {
            ctx.count("too few vertices for an integrated polynomial (excluded)");
            return;
          }
          Rbf ref;
          if (!lost)
            ref = reference(src, own, dst.v, cs.s);
          auto r = runMap(sched, ctx, cs.k, policy(i), !lost && ref.state == Rbf::OK);
          if (lost) {
            ctx.count("filtered out");
            ctx.require(!r.ok, "filter", [&] { return describe(cs.k) + ": a mesh that is filtered out completely is not reported"; });
          } else if (ref.state == Rbf::OK) {
            if (r.ok) {
              ctx.count(static_cast<int>(own.size()) < src.n() ? "mapped, part of the mesh" : "mapped");
              check(ctx, cs, r, ref);
            }
          } else
            ctx.count("singular or ill-conditioned");
        });
  };
  parallelStage("parallel-serial", 2, 2, 1, 5, 4, false);
  parallelStage("two-two", 2, 2, 2, 4, 3, false);
  parallelStage("shared", 2, 2, 1, 5, 3, true);
  if (big) {
    parallelStage("two-two-5", 2, 2, 2, 5, 4, false);
    parallelStage("three-one", 2, 3, 1, 5, 4, false);
    parallelStage("three-two", 2, 3, 2, 5, 3, false);
    parallelStage("two-two-3d", 3, 2, 2, 5, 3, false);
    parallelStage("shared-two-two", 2, 2, 2, 5, 3, true);
  }

  // partition of unity: every subset of a grid of vertices
  const std::vector<double> OVERLAP{0.15, 0.5, 0.05, 0.8};
  auto pumCase = [&](uint64_t i, int dim, unsigned overlaps) {
    Digits d(i);
    Case   cs;
    int    full = dim == 2 ? 9 : 8;
    Geo    s, t;
    s.dim = t.dim = dim;
    unsigned set  = 1 + d((1 << full) - 1);
    unsigned vpc  = 1 + d(3), project = d(2);
    cs.s.poly     = d(2) ? 2 : 0;
    double   over = OVERLAP[overlaps == 1 ? i / 6132 % 2 : d(overlaps)];
    unsigned b    = d(2);
    bool     skew = (i / 7) % 2;
    for (int j = 0; j < full; ++j)
      if (set >> j & 1) {
        Vec p = dim == 2 ? Vec{double(j % 3), double(j / 3), 0} : Vec{double(j & 1), double(j >> 1 & 1), double(j >> 2 & 1)};
        if (skew)
          p[0] += 0.05 * ((j * 3) % 4), p[1] -= 0.04 * ((j * 5) % 3), p[2] += dim == 3 ? 0.03 * ((j * 2) % 5) : 0;
        s.v.push_back(p);
      }
    t.v           = s.v;
    std::rotate(t.v.begin(), t.v.begin() + (i % t.v.size()), t.v.end());
    int n         = s.n();
    Vec c0{0, 0, 0};
    for (auto &p : s.v)
      c0 = add(c0, p, 1.0 / n);
    t.v.push_back(c0);
    if (n > 1)
      t.v.push_back({(s.v[0][0] * 3 + s.v[n - 1][0]) / 4, (s.v[0][1] * 3 + s.v[n - 1][1]) / 4, (s.v[0][2] * 3 + s.v[n - 1][2]) / 4});
    for (auto &x : bases())
      if (x.name == std::string(b ? "volume-splines" : "compact-polynomial-c6"))
        cs.s.basis = &x;
    cs.s.par        = b ? 0 : 3;
    cs.s.dead       = std::vector<bool>(dim, false);
    cs.k.in         = s;
    cs.k.out        = t;
    cs.k.tag        = "rbf-pum-direct";
    cs.k.attrs      = std::string("polynomial=\"") + POLY[cs.s.poly] + "\" vertices-per-cluster=\"" + std::to_string(vpc) + "\" relative-overlap=\"" + num(over) + "\" project-to-input=\"" + (project ? "true" : "false") + "\"";
    cs.k.body       = body(cs.s);
    cs.k.style      = i % 2;
    cs.k.read       = i / 3 % 2;
    for (int w = 0; w < n; ++w) {
      cs.k.values.push_back({});
      for (int c = 0; c < 4; ++c)
        for (int j = 0; j < n; ++j)
          cs.k.values[w][c].push_back(c == 0 ? j == w : generic(j, w, c));
    }
    return std::make_pair(cs, vpc);
  };
  auto pumStage = [&](const std::string &name, int dim, unsigned overlaps) {
    c.stage(
        name, uint64_t((1 << (dim == 2 ? 9 : 8)) - 1) * 3 * 2 * 2 * 2 * overlaps, [=](uint64_t i) { return describe(pumCase(i, dim, overlaps).first.k); },
        [&, dim, overlaps](CaseCtx &ctx, uint64_t i) {
          auto [cs, vpc] = pumCase(i, dim, overlaps);
          int  n = cs.k.in.n(), m = cs.k.out.n();
          Case co     = cs; // the same mapping in the opposite direction
          co.cons     = true;
          std::swap(co.k.in, co.k.out);
          co.k.constraint = "conservative";
          fillGeneric(co.k);
          Rbf              ref;
          std::vector<int> own;
          for (int j = 0; j < n; ++j)
            own.push_back(j);
          bool single = n < 2 * static_cast<int>(vpc);
          if (single)
            ref = reference(cs.k.in, own, cs.k.out.v, cs.s);
          auto r  = runMap(sched, ctx, cs.k, policy(i), single && ref.state == Rbf::OK);
          auto rc = runMap(sched, ctx, co.k, policy(i + 1), r.ok);
          if (!r.ok) {
            std::string e;
            for (auto &x : r.error)
              e += x;
            bool out = e.find("could not be assigned to any cluster") != std::string::npos;
            ctx.count(out ? "not assigned to a cluster" : "refused");
            if (!single)
              ctx.require(out || e.find("Too many vertices have been filtered out") != std::string::npos || e.find("not invertable") != std::string::npos, "error", [&] { return describe(cs.k) + ": " + e; });
            std::string f;
            for (auto &x : rc.error)
              f += x;
            ctx.require(!rc.ok, "conservative", [&] { return describe(cs.k) + " is refused (" + e + "), but the conservative one in the opposite direction is not"; });
            return;
          }
          if (single && ref.state == Rbf::OK) {
            ctx.count("one cluster");
            check(ctx, cs, r, ref);
          } else
            ctx.count("several clusters");
          if (single && ref.state != Rbf::OK) {
            ctx.count("ill-conditioned");
            return;
          }
          // the matrix of the mapping
          std::vector<Row> M(m, Row(n));
          for (int o = 0; o < m; ++o) {
            double sum = 0, x = 0;
            for (int w = 0; w < n; ++w)
              M[r.vertex[o]][w] = r.got[w][0][o], sum += r.got[w][0][o], x = std::max(x, std::fabs(r.got[w][0][o]));
            if (!(x < 1e3)) {
              ctx.fail("finite", describe(cs.k) + ": weights at output vertex " + std::to_string(o) + " of " + num(x));
              return;
            }
            if (cs.s.poly == 0 && !close(sum, 1, 1e-8))
              ctx.fail("constant", describe(cs.k) + ": a constant 1 is mapped to " + num(sum) + " at output vertex " + std::to_string(r.vertex[o]));
            // coinciding vertices
            for (int w = 0; w < n; ++w)
              if (cs.k.in.v[w] == cs.k.out.v[r.vertex[o]])
                for (int v = 0; v < n; ++v)
                  if (!close(r.got[v][0][o], v == w, 1e-8))
                    ctx.fail("interpolation", describe(cs.k) + ": output vertex " + std::to_string(r.vertex[o]) + " coincides with input vertex " + std::to_string(w) + ", but depends on vertex " + std::to_string(v) + " by " + num(r.got[v][0][o]));
          }
          // components of V by the same matrix
          std::vector<std::vector<Row>> rows;
          for (auto &x : M)
            rows.push_back({x});
          matchRows(ctx, cs.k, r, rows, 1e-8, "components");
          if (rc.ok) {
            ctx.count("conservative");
            matchTransposed(ctx, co.k, rc, M, 1e-8, "conservative");
          }
        });
  };
  pumStage("pum-2d", 2, big ? 4 : 1);
  pumStage("pum-3d", 3, big ? 4 : 1);

  // partition of unity on distributed meshes: the vertices of one mesh coincide with those of the other one
  auto pumPar = [&](uint64_t i, int dim, int nm, int np, int ns, int nt) {
    Digits d(i);
    Case   cs;
    unsigned vpc = 2 + d(2);
    cs.cons      = d(2);
    cs.filter    = i / 5 % 3;
    cs.s.poly    = 0;
    std::vector<unsigned> qr, sr;
    for (int j = 0; j < nt; ++j)
      qr.push_back(1u << d(nm));
    for (int j = 0; j < ns; ++j)
      sr.push_back(1u << d(np));
    Geo s, t;
    s.dim = t.dim = dim;
    const auto &P = dim == 2 ? P2 : P3;
    s.v.assign(P.begin(), P.begin() + ns);
    t.v.assign(P.begin(), P.begin() + std::min(ns, nt));
    for (int j = ns; j < nt; ++j)
      t.v.push_back((dim == 2 ? T2 : T3)[j % 5]);
    cs.k.in = cs.cons ? t : s;
    cs.k.out = cs.cons ? s : t;
    (cs.cons ? cs.k.inRank : cs.k.outRank) = qr;
    (cs.cons ? cs.k.outRank : cs.k.inRank) = sr;
    cs.k.ra         = cs.cons ? nm : np;
    cs.k.rb         = cs.cons ? np : nm;
    for (auto &x : bases())
      if (x.name == std::string(i % 2 ? "volume-splines" : "compact-polynomial-c4"))
        cs.s.basis = &x;
    cs.s.par        = i % 2 ? 0 : 3;
    cs.s.dead       = std::vector<bool>(dim, false);
    cs.k.tag        = "rbf-pum-direct";
    cs.k.constraint = cs.cons ? "conservative" : "consistent";
    cs.k.read       = !cs.cons;
    cs.k.attrs      = "polynomial=\"separate\" vertices-per-cluster=\"" + std::to_string(vpc) + "\" relative-overlap=\"0.3\" project-to-input=\"" + (i / 3 % 2 ? "true" : "false") + "\"";
    cs.k.body       = body(cs.s);
    cs.k.recvAttrs  = FILTER[cs.filter];
    for (int w = 0; w < cs.k.in.n(); ++w) {
      cs.k.values.push_back({});
      for (int c = 0; c < 4; ++c)
        for (int j = 0; j < cs.k.in.n(); ++j)
          cs.k.values[w][c].push_back(c == 0 ? j == w : generic(j, w, c));
    }
    return cs;
  };
  auto pumParStage = [&](const std::string &name, int dim, int nm, int np, int ns, int nt) {
    c.stage(
        name, 4 * power(nm, nt) * power(np, ns), [=](uint64_t i) { return describe(pumPar(i, dim, nm, np, ns, nt).k); },
        [&, dim, nm, np, ns, nt](CaseCtx &ctx, uint64_t i) {
          Case cs = pumPar(i, dim, nm, np, ns, nt);
          auto r  = runMap(sched, ctx, cs.k, policy(i), false);
          int  n = cs.k.in.n(), m = cs.k.out.n();
          if (!r.ok) {
            std::string e;
            for (auto &x : r.error)
              e += x;
            ctx.count("refused");
            ctx.require(e.find("could not be assigned to any cluster") != std::string::npos || e.find("Too many vertices have been filtered out") != std::string::npos || e.find("not invertable") != std::string::npos, "error", [&] { return describe(cs.k) + ": " + e; });
            return;
          }
          ctx.count("mapped");
          std::vector<Row> M(m, Row(n, 0));
          for (size_t o = 0; o < r.vertex.size(); ++o)
            for (int w = 0; w < n; ++w)
              M[r.vertex[o]][w] = r.got[w][0][o], ctx.observe(r.got[w][0][o]);
          auto entry = [&](int t, int s) { return cs.cons ? M[s][t] : M[t][s]; };
          int  T = cs.cons ? n : m, S = cs.cons ? m : n;
          for (int t = 0; t < T; ++t) {
            double sum = 0;
            for (int s = 0; s < S; ++s)
              sum += entry(t, s);
            if (!close(sum, 1, 1e-8))
              ctx.fail("sum", describe(cs.k) + ": the weights of vertex " + std::to_string(t) + " sum up to " + num(sum));
            for (int s = 0; s < S && t < ns; ++s)
              if (!close(entry(t, s), t == s, 1e-8))
                ctx.fail("interpolation", describe(cs.k) + ": weight of vertex " + std::to_string(s) + " of the other mesh for the coinciding vertex " + std::to_string(t) + " is " + num(entry(t, s)));
          }
          if (!cs.cons) {
            std::vector<std::vector<Row>> rows;
            for (auto &x : M)
              rows.push_back({x});
            matchRows(ctx, cs.k, r, rows, 1e-8, "components");
          }
        });
  };
  pumParStage("pum-two-two", 2, 2, 2, 4, 5);
  if (big) {
    pumParStage("pum-two-two-3d", 3, 2, 2, 5, 6);
    pumParStage("pum-three-two", 2, 3, 2, 5, 6);
    pumParStage("pum-two-three", 2, 2, 3, 5, 6);
  }
  c.assumptions = {"systems with a condition number above 1e7 are not compared"};
  return c.finish();
}
