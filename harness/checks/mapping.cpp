// C08: data mappings against brute-force references
#include "../src/maprun.hpp"
using namespace verif;

namespace {
/// generic position: no two distances coincide
const std::vector<Vec> P2 = {{0, 0, 0}, {1, 0.1, 0}, {0.2, 1, 0}, {1.1, 1.2, 0}, {2, 0.4, 0}, {0.7, 0.55, 0}};
const std::vector<Vec> P3 = {{0, 0, 0}, {1, 0.1, 0.05}, {0.2, 1, -0.1}, {0.3, 0.25, 1}, {1.1, 0.9, 0.8}, {0.45, 0.4, -0.9}};

Geo points(int dim, int n, const std::vector<int> &order = {})
{
  Geo g;
  g.dim = dim;
  for (int i = 0; i < n; ++i)
    g.v.push_back((dim == 2 ? P2 : P3)[order.empty() ? i : order[i]]);
  return g;
}
Geo grid(int dim, const Geo &src)
{
  Geo g;
  g.dim = dim;
  double x[] = {-0.43, 0.13, 0.41, 0.83, 1.37}, y[] = {-0.37, 0.09, 0.47, 0.91, 1.43}, z[] = {-0.61, 0.03, 0.39, 1.23};
  for (double a : x)
    for (double b : y)
      if (dim == 2)
        g.v.push_back({a, b, 0});
  if (dim == 3)
    for (int i : {0, 1, 2, 4})
      for (int j : {0, 1, 2, 4})
        for (double c : z)
          g.v.push_back({x[i], y[j], c});
  for (auto &p : src.v)
    g.v.push_back(p);
  for (size_t i = 1; i < src.v.size(); ++i)
    g.v.push_back({(src.v[i][0] + src.v[0][0]) / 2, (src.v[i][1] + src.v[0][1]) / 2, (src.v[i][2] + src.v[0][2]) / 2});
  return g;
}
using RowsOf = std::function<std::vector<Row>(const Geo &, const Vec &)>;

/// search: the mesh with connectivity; query: the points located in it
void runSearch(Sched &sched, CaseCtx &ctx, uint64_t i, MapCase k, const Geo &search, Geo query, const RowsOf &rowsOf, const std::string &key = "value")
{
  std::vector<std::vector<Row>> rows;
  if (k.constraint == "conservative") {
    Geo q;
    q.dim = query.dim;
    std::vector<Row> one;
    for (auto &p : query.v) {
      auto r = rowsOf(search, p);
      if (r.size() == 1) {
        q.v.push_back(p);
        one.push_back(r[0]);
      }
    }
    if (q.v.empty())
      return;
    k.in  = q;
    k.out = search;
    fillGeneric(k);
    auto r = runMap(sched, ctx, k, policy(i));
    if (r.ok)
      matchTransposed(ctx, k, r, one, 1e-10, key);
  } else {
    k.in  = search;
    k.out = query;
    for (auto &p : query.v)
      rows.push_back(rowsOf(search, p));
    fillGeneric(k);
    auto r = runMap(sched, ctx, k, policy(i));
    if (r.ok)
      matchRows(ctx, k, r, rows, 1e-10, key);
  }
  ctx.outcome(ctx.digest);
}
std::vector<std::array<int, 2>> allPairs(int n)
{
  std::vector<std::array<int, 2>> r;
  for (int a = 0; a < n; ++a)
    for (int b = a + 1; b < n; ++b)
      r.push_back({a, b});
  return r;
}
std::vector<std::array<int, 3>> allTriples(int n)
{
  std::vector<std::array<int, 3>> r;
  for (int a = 0; a < n; ++a)
    for (int b = a + 1; b < n; ++b)
      for (int c = b + 1; c < n; ++c)
        r.push_back({a, b, c});
  return r;
}
std::vector<std::array<int, 4>> allQuadruples(int n)
{
  std::vector<std::array<int, 4>> r;
  for (int a = 0; a < n; ++a)
    for (int b = a + 1; b < n; ++b)
      for (int c = b + 1; c < n; ++c)
        for (int d = c + 1; d < n; ++d)
          r.push_back({a, b, c, d});
  return r;
}
template <typename T>
void subset(std::vector<T> &to, const std::vector<T> &from, uint64_t mask, unsigned style)
{
  for (size_t i = 0; i < from.size(); ++i)
    if (mask >> i & 1) {
      T t = from[i];
      std::rotate(t.begin(), t.begin() + (style + i) % t.size(), t.end());
      if ((style + i) % 3 == 0)
        std::swap(t[0], t[1]);
      to.push_back(t);
    }
}
/// the interiors of two triangles in the plane intersect
bool overlap(const Geo &g, const std::array<int, 3> &a, const std::array<int, 3> &b)
{
  for (auto *t : {&a, &b})
    for (int k = 0; k < 3; ++k) {
      Vec    p = g.v[(*t)[k]], q = g.v[(*t)[(k + 1) % 3]];
      double nx = q[1] - p[1], ny = p[0] - q[0], lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300};
      for (int m = 0; m < 3; ++m) {
        double x = nx * g.v[a[m]][0] + ny * g.v[a[m]][1], y = nx * g.v[b[m]][0] + ny * g.v[b[m]][1];
        lo[0] = std::min(lo[0], x), hi[0] = std::max(hi[0], x);
        lo[1] = std::min(lo[1], y), hi[1] = std::max(hi[1], y);
      }
      if (hi[0] <= lo[1] + 1e-12 || hi[1] <= lo[0] + 1e-12)
        return false;
    }
  return true;
}
} // namespace

int main(int argc, char **argv)
{
  Campaign c("C08", argc, argv);
  c.rule = "a case is a pair of meshes with connectivity, a mapping, a constraint and a direction; all entries of the mapping matrix are compared; distinct by the mapped values";
  Sched sched;
  RankLibs::get().load(c.lib, c.scratchDir(), 2, &sched);
  bool big = c.thorough();

  struct Method {
    const char *tag;
    RowsOf      rows;
  };
  std::vector<Method> methods = {{"nearest-neighbor", rowsNN}, {"nearest-projection", rowsNP}, {"linear-cell-interpolation", rowsLCI}};
  auto setup = [&](Digits &d, int from, int to) {
    MapCase k;
    int     m    = from + d(to - from);
    k.tag        = methods[m].tag;
    k.constraint = d(2) ? "conservative" : "consistent";
    k.read       = d(2) == 0;
    return std::make_pair(k, methods[m].rows);
  };

  // all subsets of the vertices, in several orders
  auto nn = [&](uint64_t i, std::function<void(MapCase, Geo, RowsOf)> f) {
    Digits d(i);
    auto   s   = setup(d, 0, 3);
    int    dim = 2 + d(2), order = d(3);
    unsigned mask = 1 + d(63);
    Geo      g;
    g.dim = dim;
    for (int j = 0; j < 6; ++j) {
      int v = order == 0 ? j : order == 1 ? 5 - j : (j * 5 + 2) % 6;
      if (mask >> v & 1)
        g.v.push_back((dim == 2 ? P2 : P3)[v]);
    }
    s.first.style = i % 8;
    f(s.first, g, s.second);
  };
  c.stage(
      "vertices", 12 * 6 * 63, [&](uint64_t i) { std::string r; nn(i, [&](MapCase k, Geo g, RowsOf) { k.in = g; r = describe(k); }); return r; },
      [&](CaseCtx &ctx, uint64_t i) {
        nn(i, [&](MapCase k, Geo g, RowsOf f) { runSearch(sched, ctx, i, k, g, grid(g.dim, g), f); });
      });

  // all connectivities of small meshes
  auto conn = [&](const std::string &name, int dim, int n, bool withEdges, bool withTets) {
    auto     E = allPairs(n);
    auto     T = allTriples(n);
    auto     H = withTets ? allQuadruples(n) : std::vector<std::array<int, 4>>{};
    uint64_t N = 8 * (uint64_t(1) << T.size()) * (withEdges ? uint64_t(1) << E.size() : 4) * (uint64_t(1) << H.size());
    auto     make = [=, &setup](uint64_t i, std::function<void(MapCase, Geo, RowsOf)> f) {
      Digits d(i);
      auto   s = setup(d, 1, 3);
      Geo    g = points(dim, n);
      if (withEdges)
        subset(g.edges, E, d(1 << E.size()), i % 7);
      else
        subset(g.edges, E, std::vector<uint64_t>{0, 0x15, 0x2a, ~0ull}[d(4)], i % 7);
      subset(g.tris, T, d(1 << T.size()), i % 5);
      if (withTets)
        subset(g.tets, H, d(1 << H.size()), i % 11);
      s.first.style = i / 3 % 8;
      f(s.first, g, s.second);
    };
    c.stage(
        name, N, [=](uint64_t i) { std::string r; make(i, [&](MapCase k, Geo g, RowsOf) { k.in = g; r = describe(k); }); return r; },
        [&, make](CaseCtx &ctx, uint64_t i) {
          make(i, [&](MapCase k, Geo g, RowsOf f) {
            if (n > 4) // only valid triangulations
              for (size_t a = 0; a < g.tris.size(); ++a)
                for (size_t b = 0; b < a; ++b)
                  if (overlap(g, g.tris[a], g.tris[b]))
                    return;
            runSearch(sched, ctx, i, k, g, grid(g.dim, g), f);
          });
        });
  };
  conn("connectivity-2d-3", 2, 3, true, false);
  conn("connectivity-2d-4", 2, 4, true, false);
  conn("connectivity-3d-3", 3, 3, true, false);
  conn("connectivity-3d-4", 3, 4, big, true);
  if (big)
    conn("connectivity-2d-5", 2, 5, false, false);

  // fans of thin triangles, whose bounding boxes overlap
  auto fan = [&](uint64_t i, std::function<void(MapCase, Geo, RowsOf)> f) {
    Digits d(i);
    auto   s   = setup(d, 1, 3);
    int    dim = 2 + d(2), n = 1 + d(10), dir = d(8);
    double open = d(2) ? 0.06 : 0.3;
    Geo    g;
    g.dim = dim;
    auto at = [&](double r, double phi) { return Vec{r * std::cos(phi), r * std::sin(phi), dim == 3 ? r * (0.7 * std::cos(phi) + 0.4 * std::sin(phi)) : 0}; };
    g.v.push_back({0, 0, 0});
    for (int k = 0; k <= n; ++k)
      g.v.push_back(at(1 + 0.05 * (k % 3), dir * M_PI / 4 + 0.35 + open * (k - n / 2.)));
    for (int k = 0; k < n; ++k)
      g.tris.push_back({0, k + 1, k + 2});
    f(s.first, g, s.second);
  };
  c.stage(
      "fans", 8 * 2 * 10 * 8 * 2, [&](uint64_t i) { std::string r; fan(i, [&](MapCase k, Geo g, RowsOf) { k.in = g; r = describe(k); }); return r; },
      [&](CaseCtx &ctx, uint64_t i) {
        fan(i, [&](MapCase k, Geo g, RowsOf f) {
          Geo q;
          q.dim = g.dim;
          for (size_t t = 0; t < g.tris.size(); ++t)
            for (int j = 0; j < 3; ++j) {
              static const double w[3][3] = {{0.3, 0.37, 0.33}, {0.1, 0.47, 0.43}, {0.52, 0.2, 0.28}};
              Vec                 p{0, 0, 0};
              for (int m = 0; m < 3; ++m)
                p = add(p, g.v[g.tris[t][m]], w[j][m]);
              if (g.dim == 3)
                p[2] += 0.01 * j;
              q.v.push_back(p);
            }
          // nearest-projection in 3D only examines the four triangles whose bounding boxes are nearest
          runSearch(sched, ctx, i, k, g, q, f, g.dim == 3 && g.tris.size() > 4 ? "projection onto more than four triangles with overlapping bounding boxes" : "value");
        });
      });

  // quads in every orientation, with and without further primitives, convex and nearly degenerate
  auto quad = [&](uint64_t i, std::function<void(MapCase, Geo, RowsOf)> f) {
    Digits d(i);
    auto   s     = setup(d, 1, 3);
    int    dim   = 2 + d(2);
    int    shape = d(4);
    Geo    g;
    g.dim = dim;
    // around: 0 1 2 3
    static const double Q[4][8] = {{0, 0, 1, 0.1, 1.1, 1.2, 0.2, 1}, {0, 0, 1, 0.1, 2.1, 1.2, 0.2, 1}, {0, 0, 1.4, -0.3, 1.1, 0.9, -0.2, 1.3}, {0, 0, 1, 0.05, 0.8, 0.75, 0.1, 1.2}};
    for (int k = 0; k < 4; ++k)
      g.v.push_back({Q[shape][2 * k], Q[shape][2 * k + 1], dim == 3 ? 0.3 * Q[shape][2 * k] - 0.2 * Q[shape][2 * k + 1] : 0});
    std::array<int, 4> q{0, 1, 2, 3};
    std::rotate(q.begin(), q.begin() + d(4), q.end());
    if (d(2))
      std::reverse(q.begin(), q.end());
    g.quads.push_back(q);
    int extra = d(3);
    if (extra == 1)
      g.edges.push_back({0, 2});
    if (extra == 2)
      g.tris.push_back({0, 1, 3});
    s.first.style = i % 8;
    f(s.first, g, s.second);
  };
  c.stage(
      "quads", 8 * 2 * 4 * 4 * 2 * 3, [&](uint64_t i) { std::string r; quad(i, [&](MapCase k, Geo g, RowsOf) { k.in = g; r = describe(k); }); return r; },
      [&](CaseCtx &ctx, uint64_t i) {
        quad(i, [&](MapCase k, Geo g, RowsOf f) { runSearch(sched, ctx, i, k, g, grid(g.dim, g), f); });
      });

  // degenerate input: repeated vertices, edges of length zero, collinear triangles, flat tetrahedra
  auto degenerate = [&](uint64_t i, std::function<void(MapCase, Geo, RowsOf)> f) {
    Digits d(i);
    auto   s   = setup(d, 1, 3);
    int    dim = 2 + d(2), kind = d(5), order = d(4);
    Geo    g;
    g.dim = dim;
    if (kind == 0)
      g.v = {{0, 0, 0}, {0, 0, 0}, {1, 0.1, 0}};
    else if (kind == 1)
      g.v = {{0, 0, 0}, {1, 0, 0}, {2, 0, 0}};
    else if (kind == 2)
      g.v = {{0, 0, 0}, {1, 1, 0}, {1, 1, 0}};
    else if (kind == 3)
      g.v = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {1, 1, 0}};
    else
      g.v = {{0.5, 0.5, 0}, {0.5, 0.5, 0}, {0.5, 0.5, 0}};
    if (dim == 3 && kind < 3)
      for (auto &p : g.v)
        p[2] = p[0] * 0.5;
    int n = g.n();
    if (order & 1)
      std::reverse(g.v.begin(), g.v.end());
    for (auto &e : allPairs(n))
      g.edges.push_back(e);
    if (order & 2)
      for (auto &t : allTriples(n))
        if (g.area(t) > 0)
          g.tris.push_back(t);
    if (order & 2 && dim == 3 && n == 4)
      g.tets.push_back({0, 1, 2, 3});
    s.first.style = i % 8;
    f(s.first, g, s.second);
  };
  c.stage(
      "degenerate", 8 * 2 * 5 * 4, [&](uint64_t i) { std::string r; degenerate(i, [&](MapCase k, Geo g, RowsOf) { k.in = g; r = describe(k); }); return r; },
      [&](CaseCtx &ctx, uint64_t i) {
        degenerate(i, [&](MapCase k, Geo g, RowsOf f) { runSearch(sched, ctx, i, k, g, grid(g.dim, g), f); });
      });

  // nearest neighbor with gradients
  auto grad = [&](uint64_t i) {
    Digits  d(i);
    MapCase k;
    k.tag        = "nearest-neighbor-gradient";
    k.gradient   = true;
    k.read       = d(2) == 0;
    int dim      = 2 + d(2), order = d(3);
    unsigned mask = 1 + d(63);
    k.in.dim      = dim;
    for (int j = 0; j < 6; ++j) {
      int v = order == 0 ? j : order == 1 ? 5 - j : (j * 5 + 2) % 6;
      if (mask >> v & 1)
        k.in.v.push_back((dim == 2 ? P2 : P3)[v]);
    }
    k.out = grid(dim, k.in);
    fillGeneric(k);
    k.grad = [](int w, int comp, int v) { return std::vector<double>{generic(v, w, comp + 5), generic(v, w, comp + 9), generic(v, w, comp + 13)}; };
    return k;
  };
  c.stage(
      "gradient", 12 * 63, [&](uint64_t i) { return describe(grad(i)); },
      [&](CaseCtx &ctx, uint64_t i) {
        MapCase k = grad(i);
        auto    r = runMap(sched, ctx, k, policy(i));
        if (!r.ok)
          return;
        for (int o = 0; o < k.out.n(); ++o) {
          bool any = false;
          auto &p  = k.out.v[r.vertex[o]];
          for (auto &row : rowsNN(k.in, p)) {
            int  j   = static_cast<int>(std::find(row.begin(), row.end(), 1.0) - row.begin());
            bool all = true;
            for (int w = 0; w < 2; ++w)
              for (int q = 0; q <= k.in.dim; ++q) {
                double e = k.values[w][q][j];
                auto   g = k.grad(w, q, j);
                for (int x = 0; x < k.in.dim; ++x)
                  e += g[x] * (p[x] - k.in.v[j][x]);
                all = all && close(r.got[w][q][o], e, 1e-10);
              }
            any = any || all;
          }
          ctx.observe(r.got[0][0][o]);
          if (!any) {
            ctx.fail("gradient", describe(k) + ": output vertex " + std::to_string(o) + " D " + num(r.got[0][0][o]) + " V.x " + num(r.got[0][1][o]));
            return;
          }
        }
        ctx.outcome(ctx.digest);
      });

  // scaled-consistent
  auto scaled = [&](uint64_t i) {
    Digits  d(i);
    MapCase k;
    int     m    = d(3);
    k.tag        = methods[m].tag;
    k.read       = d(2) == 0;
    bool vol     = d(2);
    k.constraint = vol ? "scaled-consistent-volume" : "scaled-consistent-surface";
    int dim      = 2 + d(2);
    k.in         = points(dim, 4);
    k.out        = points(dim, 5, {2, 0, 5, 1, 4});
    unsigned ci = d(7), co = d(7);
    auto     add = [&](Geo &g, unsigned c) {
      if (dim == 3 && vol) {
        auto H = allQuadruples(g.n());
        subset(g.tets, H, 1 + c % ((1u << H.size()) - 1), c);
      } else if (dim == 3 || vol) {
        auto T = allTriples(g.n());
        subset(g.tris, T, 1 + c, c);
      } else {
        auto E = allPairs(g.n());
        subset(g.edges, E, 1 + c * 3, c);
      }
    };
    add(k.in, ci);
    add(k.out, co);
    k.style = i % 8;
    fillGeneric(k, 3);
    for (int q = 0; q < 4; ++q)
      for (auto &v : k.values[2][q])
        v = 0; // integral zero
    return k;
  };
  c.stage(
      "scaled", 3 * 2 * 2 * 2 * 49, [&](uint64_t i) { return describe(scaled(i)); },
      [&](CaseCtx &ctx, uint64_t i) {
        MapCase k   = scaled(i);
        bool    vol = k.constraint.find("volume") != std::string::npos;
        bool    ref = vol ? k.tag == "nearest-projection" : k.tag == "linear-cell-interpolation"; // documented to be refused
        auto    r   = runMap(sched, ctx, k, policy(i), !ref);
        if (ref) {
          ctx.require(!r.ok, "scaled", [&] { return describe(k) + " is not refused"; });
          return;
        }
        if (!r.ok)
          return;
        RowsOf rows;
        for (auto &m : methods)
          if (k.tag == m.tag)
            rows = m.rows;
        for (int w = 0; w < 3; ++w)
          for (int q = 0; q <= k.in.dim; ++q) {
            std::vector<double> out(k.out.n());
            for (int o = 0; o < k.out.n(); ++o) {
              auto rr = rows(k.in, k.out.v[o]);
              for (size_t j = 0; j < rr[0].size(); ++j)
                out[o] += rr[0][j] * k.values[w][q][j];
            }
            double a = integral(k.in, k.values[w][q], vol), b = integral(k.out, out, vol);
            double f = b == 0 ? 1 : a / b;
            for (int o = 0; o < k.out.n(); ++o) {
              ctx.observe(r.got[w][q][o]);
              ctx.require(close(r.got[w][q][o], f * out[o], 1e-9), "scaled", [&] { return describe(k) + " window " + std::to_string(w) + " component " + std::to_string(q) + " vertex " + std::to_string(o) + " is " + num(r.got[w][q][o]) + ", expected " + num(out[o]) + " x " + num(f); });
            }
          }
        ctx.outcome(ctx.digest);
      });

  // geometric multiscale
  struct GM {
    MapCase k;
    int     axis, dimension, type, profile, section;
    double  R;
    bool    radial;
  };
  auto axial = [&](uint64_t i) {
    Digits d(i);
    GM     g;
    g.radial    = false;
    g.k.read    = d(2) == 0;
    g.axis      = d(3);
    g.dimension = d(3);
    g.type      = d(2);
    g.profile   = d(2);
    g.section   = d(2);
    int layout  = d(3);
    g.R         = 1.25;
    const char *ax[] = {"x", "y", "z"}, *dm[] = {"1d-3d", "1d-2d", "2d-3d"};
    g.k.tag   = "axial-geometric-multiscale";
    g.k.attrs = std::string("multiscale-dimension=\"") + dm[g.dimension] + "\" multiscale-type=\"" + (g.type ? "collect" : "spread") + "\" multiscale-axis=\"" + ax[g.axis] + "\" multiscale-radius=\"1.25\" multiscale-cross-section-profile=\"" + (g.profile ? "parabolic" : "uniform") + "\" multiscale-cross-section=\"" + (g.section ? "square" : "circle") + "\"";
    Geo one, many;
    one.dim = many.dim = 3;
    int t1 = (g.axis + 1) % 3, t2 = (g.axis + 2) % 3;
    auto at = [&](double a, double b) {
      Vec p{0, 0, 0};
      p[t1] = a;
      p[t2] = b;
      return p;
    };
    if (g.dimension < 2)
      one.v = {at(0, 0)};
    else { // a line along t1
      std::vector<Vec> l = {at(-1, 0), at(-0.1, 0), at(0.8, 0)};
      std::rotate(l.begin(), l.begin() + layout, l.end());
      one.v = l;
    }
    std::vector<std::pair<double, double>> m = {{0.9, 0.3}, {0.1, -0.4}, {-0.95, 0.2}, {0.7, -0.6}, {-0.2, 0.85}, {-1, -0.5}, {0, 0}};
    m.resize(layout == 0 ? 7 : layout == 1 ? 5 : 3);
    for (auto &p : m)
      many.v.push_back(at(p.first, p.second));
    g.k.in  = g.type ? many : one;
    g.k.out = g.type ? one : many;
    fillGeneric(g.k);
    return g;
  };
  auto xmlExperimental = true;
  (void) xmlExperimental;
  c.stage(
      "axial", 2 * 3 * 3 * 2 * 2 * 2 * 3, [&](uint64_t i) { return describe(axial(i).k); },
      [&](CaseCtx &ctx, uint64_t i) {
        GM   g = axial(i);
        auto &k = g.k;
        auto r = runMap(sched, ctx, k, policy(i));
        if (!r.ok)
          return;
        int t1 = (g.axis + 1) % 3, t2 = (g.axis + 2) % 3;
        auto nearest = [](const Geo &s, const Vec &p) {
          int    b = 0;
          double m = 1e300;
          for (int j = 0; j < s.n(); ++j)
            if (norm(sub(s.v[j], p)) < m - 1e-12) {
              m = norm(sub(s.v[j], p));
              b = j;
            }
          return b;
        };
        for (int w = 0; w < 2; ++w)
          for (int q = 0; q < 4; ++q) {
            std::vector<double> e(k.out.n(), 0);
            if (q == 0 || q == 1 + g.axis)
              for (int o = 0; o < k.out.n(); ++o) {
                auto  &p = k.out.v[o];
                double f = 1, v = 0;
                if (!g.type) {
                  int j = nearest(k.in, p);
                  v     = k.values[w][q][j];
                  if (g.profile && g.dimension < 2) {
                    double s1 = p[t1] / g.R, s2 = p[t2] / g.R, rr = norm(sub(p, k.in.v[0])) / g.R;
                    if (g.dimension == 1)
                      f = 1.5 * (1 - rr * rr);
                    else if (!g.section)
                      f = 2 * (1 - rr * rr);
                    else
                      f = 2.096 * std::pow((1 - s1 * s1) * (1 - s2 * s2), 0.879);
                  } else if (g.profile) {
                    double R = 0, dist = norm(sub(p, k.in.v[j]));
                    for (auto &x : k.out.v)
                      if (nearest(k.in, x) == j)
                        R = std::max(R, norm(sub(x, k.in.v[j])));
                    double s1 = k.in.v[j][t1] / g.R, s2 = dist / g.R;
                    f = !g.section ? 4. / 3 * (1 - dist * dist / (R * R)) : 2.096 / 1.5 * std::pow(1 - s1 * s1, 0.879 - 1) * std::pow(1 - s2 * s2, 0.879);
                  }
                } else {
                  int n = 0;
                  for (int j = 0; j < k.in.n(); ++j)
                    if (g.dimension < 2 || nearest(k.out, k.in.v[j]) == o) {
                      v += k.values[w][q][j];
                      ++n;
                    }
                  v = n ? v / n : 0;
                  double s1 = p[t1] / g.R;
                  if (g.profile && g.dimension == 2)
                    f = !g.section ? 9. / 8 : 1.03745 * std::pow(1 - s1 * s1, 0.121);
                }
                e[o] = v * f;
              }
            for (int o = 0; o < k.out.n(); ++o) {
              ctx.observe(r.got[w][q][o]);
              ctx.require(close(r.got[w][q][o], e[o], 1e-10), "axial", [&] { return describe(k) + " component " + std::to_string(q) + " vertex " + std::to_string(o) + show(k.out.v[o]) + " is " + num(r.got[w][q][o]) + ", expected " + num(e[o]); });
            }
          }
        ctx.outcome(ctx.digest);
      });
  auto radial = [&](uint64_t i) {
    Digits d(i);
    GM     g;
    g.radial = true;
    g.k.read = d(2) == 0;
    g.axis   = d(3);
    g.type   = d(2);
    int n    = 1 + d(4);
    int perm = d(24), spread = d(8);
    const char *ax[] = {"x", "y", "z"};
    g.k.tag   = "radial-geometric-multiscale";
    g.k.attrs = std::string("multiscale-type=\"") + (g.type ? "collect" : "spread") + "\" multiscale-axis=\"" + ax[g.axis] + "\" multiscale-radius=\"1\"";
    Geo one, many;
    one.dim = many.dim = 3;
    std::vector<int> o;
    for (int j = 0; j < n; ++j)
      o.push_back(j);
    for (int q = 0; q < perm; ++q)
      std::next_permutation(o.begin(), o.end());
    double pos[] = {0, 1, 2.5, 3};
    auto   at    = [&](double a, double b, double c) {
      Vec p;
      p[g.axis]           = a;
      p[(g.axis + 1) % 3] = b;
      p[(g.axis + 2) % 3] = c;
      return p;
    };
    for (int j : o)
      one.v.push_back(at(pos[j], 0, 0));
    double along[] = {-0.4, 0.3, 0.9, 1.2, 1.6, 2.1, 2.6, 2.85, 3.3};
    for (int j = 0; j < 9; ++j)
      if (spread & 4 ? true : (j + spread) % 4 != 0 && (spread & 3 || j < 6))
        many.v.push_back(at(along[(j * 4 + spread) % 9], 0.5 - 0.1 * j, 0.2 * j));
    g.k.in  = g.type ? many : one;
    g.k.out = g.type ? one : many;
    fillGeneric(g.k);
    return g;
  };
  c.stage(
      "radial", 2 * 3 * 2 * 4 * 24 * 8, [&](uint64_t i) { return describe(radial(i).k); },
      [&](CaseCtx &ctx, uint64_t i) {
        GM   g = radial(i);
        auto &k = g.k;
        int  n  = g.type ? k.out.n() : k.in.n();
        if (i / 48 % 24 >= std::vector<uint64_t>{1, 1, 2, 6, 24}[n])
          return;
        auto r = runMap(sched, ctx, k, policy(i));
        if (!r.ok)
          return;
        auto nearest = [&](const Geo &s, const Vec &p) {
          int b = 0;
          for (int j = 0; j < s.n(); ++j)
            if (std::fabs(s.v[j][g.axis] - p[g.axis]) < std::fabs(s.v[b][g.axis] - p[g.axis]))
              b = j;
          return b;
        };
        for (int w = 0; w < 2; ++w)
          for (int q = 0; q < 2; ++q) { // the scalar and the first component
            for (int o = 0; o < k.out.n(); ++o) {
              double e = 0;
              if (!g.type)
                e = k.values[w][q][nearest(k.in, k.out.v[o])];
              else {
                int m = 0;
                for (int j = 0; j < k.in.n(); ++j)
                  if (nearest(k.out, k.in.v[j]) == o) {
                    e += k.values[w][q][j];
                    ++m;
                  }
                if (m)
                  e /= m;
                else if (std::isfinite(r.got[w][q][o]))
                  continue; // nothing to map
              }
              ctx.observe(r.got[w][q][o]);
              ctx.require(close(r.got[w][q][o], e, 1e-10), g.type ? "radial collect" : "radial spread", [&] { return describe(k) + " component " + std::to_string(q) + " vertex " + std::to_string(o) + show(k.out.v[o]) + " is " + num(r.got[w][q][o]) + ", expected " + num(e); });
            }
          }
        ctx.outcome(ctx.digest);
      });
  c.assumptions = {"meshes of up to 6 vertices (queries: about 35-75 points)"};
  return c.finish();
}
