// Reference for mappings: brute force over all primitives
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <set>
#include <string>
#include <vector>

namespace verif {

using Vec = std::array<double, 3>;
inline Vec    sub(const Vec &a, const Vec &b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline Vec    add(const Vec &a, const Vec &b, double f = 1) { return {a[0] + f * b[0], a[1] + f * b[1], a[2] + f * b[2]}; }
inline double dot(const Vec &a, const Vec &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline Vec    cross(const Vec &a, const Vec &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
inline double norm(const Vec &a) { return std::sqrt(dot(a, a)); }

/// a mesh: vertices (third coordinate 0 in 2D) and the primitives passed to the API
struct Geo {
  int                             dim = 2;
  std::vector<Vec>                v;
  std::vector<std::array<int, 2>> edges;
  std::vector<std::array<int, 3>> tris;
  std::vector<std::array<int, 4>> quads, tets;

  int                 n() const { return static_cast<int>(v.size()); }
  std::vector<double> coords() const
  {
    std::vector<double> c;
    for (auto &p : v)
      c.insert(c.end(), p.begin(), p.begin() + dim);
    return c;
  }
  bool connectivity() const { return !edges.empty() || !tris.empty() || !quads.empty() || !tets.empty(); }

  /// triangles a quad a-b-c-d (in this order around) is split into: along the shorter diagonal
  std::vector<std::array<int, 3>> split(const std::array<int, 4> &q) const
  {
    double d1 = norm(sub(v[q[0]], v[q[2]])), d2 = norm(sub(v[q[1]], v[q[3]]));
    if (d1 <= d2)
      return {{q[0], q[1], q[2]}, {q[0], q[2], q[3]}};
    return {{q[0], q[1], q[3]}, {q[1], q[2], q[3]}};
  }
  template <size_t N>
  static std::array<int, N> sorted(std::array<int, N> a)
  {
    std::sort(a.begin(), a.end());
    return a;
  }
  std::set<std::array<int, 4>> allTets() const
  {
    std::set<std::array<int, 4>> r;
    for (auto &t : tets)
      r.insert(sorted(t));
    return r;
  }
  std::set<std::array<int, 3>> allTris() const
  {
    std::set<std::array<int, 3>> r;
    for (auto &t : tris)
      r.insert(sorted(t));
    for (auto &q : quads)
      for (auto &t : split(q))
        r.insert(sorted(t));
    for (auto &t : allTets())
      for (int k = 0; k < 4; ++k) {
        std::array<int, 3> f{};
        for (int i = 0, j = 0; i < 4; ++i)
          if (i != k)
            f[j++] = t[i];
        r.insert(f);
      }
    return r;
  }
  std::set<std::array<int, 2>> allEdges() const
  {
    std::set<std::array<int, 2>> r;
    for (auto &e : edges)
      r.insert(sorted(e));
    for (auto &t : allTris())
      for (int k = 0; k < 3; ++k)
        r.insert(sorted(std::array<int, 2>{t[k], t[(k + 1) % 3]}));
    return r;
  }
  double length(const std::array<int, 2> &e) const { return norm(sub(v[e[0]], v[e[1]])); }
  double area(const std::array<int, 3> &t) const { return 0.5 * norm(cross(sub(v[t[1]], v[t[0]]), sub(v[t[2]], v[t[0]]))); }
  double volume(const std::array<int, 4> &t) const { return std::fabs(dot(sub(v[t[1]], v[t[0]]), cross(sub(v[t[2]], v[t[0]]), sub(v[t[3]], v[t[0]])))) / 6; }
};

using Row = std::vector<double>; // one weight per vertex of the search mesh

struct Cand {
  double dist;
  Row    row;
  bool   inside; // all weights >= 0
  double margin; // smallest weight
};

namespace ref {
constexpr double TOL = 1e-9;

inline Cand vertexCand(const Geo &g, const Vec &p, int i)
{
  Row r(g.n(), 0.0);
  r[i] = 1;
  return {norm(sub(p, g.v[i])), r, true, 1};
}
inline bool edgeCand(const Geo &g, const Vec &p, const std::array<int, 2> &e, Cand &c)
{
  Vec    d = sub(g.v[e[1]], g.v[e[0]]);
  double l = dot(d, d);
  if (l == 0)
    return false;
  double t = dot(sub(p, g.v[e[0]]), d) / l;
  Row    r(g.n(), 0.0);
  r[e[0]] += 1 - t;
  r[e[1]] += t;
  c = {norm(sub(p, add(g.v[e[0]], d, t))), r, t >= 0 && t <= 1, std::min(t, 1 - t)};
  return true;
}
inline bool triCand(const Geo &g, const Vec &p, const std::array<int, 3> &t, Cand &c)
{
  Vec    a = sub(g.v[t[1]], g.v[t[0]]), b = sub(g.v[t[2]], g.v[t[0]]), q = sub(p, g.v[t[0]]);
  double aa = dot(a, a), bb = dot(b, b), ab = dot(a, b), det = aa * bb - ab * ab;
  if (det <= 1e-14 * aa * bb)
    return false;
  double qa = dot(q, a), qb = dot(q, b);
  double u = (qa * bb - qb * ab) / det, w = (qb * aa - qa * ab) / det;
  Row    r(g.n(), 0.0);
  r[t[0]] += 1 - u - w;
  r[t[1]] += u;
  r[t[2]] += w;
  double m = std::min({u, w, 1 - u - w});
  c        = {norm(sub(q, add({a[0] * u, a[1] * u, a[2] * u}, b, w))), r, m >= 0, m};
  return true;
}
inline bool tetCand(const Geo &g, const Vec &p, const std::array<int, 4> &t, Cand &c)
{
  Vec    a = sub(g.v[t[1]], g.v[t[0]]), b = sub(g.v[t[2]], g.v[t[0]]), d = sub(g.v[t[3]], g.v[t[0]]), q = sub(p, g.v[t[0]]);
  double det = dot(a, cross(b, d));
  if (std::fabs(det) < 1e-12)
    return false;
  double x = dot(q, cross(b, d)) / det, y = dot(a, cross(q, d)) / det, z = dot(a, cross(b, q)) / det;
  Row    r(g.n(), 0.0);
  r[t[0]] += 1 - x - y - z;
  r[t[1]] += x;
  r[t[2]] += y;
  r[t[3]] += z;
  double m = std::min({x, y, z, 1 - x - y - z});
  c        = {0, r, m >= 0, m};
  return true;
}
inline double minDist(const std::vector<Cand> &cs)
{
  double m = 1e300;
  for (auto &c : cs)
    m = std::min(m, c.dist);
  return m;
}
inline void addRow(std::vector<Row> &rows, const Row &r)
{
  for (auto &o : rows) {
    double d = 0;
    for (size_t i = 0; i < r.size(); ++i)
      d = std::max(d, std::fabs(o[i] - r[i]));
    if (d < 1e-10)
      return;
  }
  rows.push_back(r);
}
inline std::vector<Cand> vertices(const Geo &g, const Vec &p)
{
  std::vector<Cand> r;
  for (int i = 0; i < g.n(); ++i)
    r.push_back(vertexCand(g, p, i));
  return r;
}
inline std::vector<Cand> edges(const Geo &g, const Vec &p)
{
  std::vector<Cand> r;
  Cand              c;
  for (auto &e : g.allEdges())
    if (edgeCand(g, p, e, c) && c.margin >= -TOL)
      r.push_back(c);
  return r;
}
inline std::vector<Cand> tris(const Geo &g, const Vec &p)
{
  std::vector<Cand> r;
  Cand              c;
  for (auto &t : g.allTris())
    if (triCand(g, p, t, c) && c.margin >= -TOL)
      r.push_back(c);
  return r;
}
/// true if a decision "is inside" is too close to call in floating point
inline void best(const std::vector<Cand> &cs, std::vector<Row> &rows)
{
  double m = minDist(cs);
  for (auto &c : cs)
    if (c.dist <= m + TOL)
      addRow(rows, c.row);
}
} // namespace ref

/// acceptable rows for nearest neighbor
inline std::vector<Row> rowsNN(const Geo &g, const Vec &p)
{
  std::vector<Row> rows;
  ref::best(ref::vertices(g, p), rows);
  return rows;
}
/// nearest projection: the nearest triangle (3D) whose plane the point projects into, unless a vertex is
/// nearer; otherwise the nearest such edge, unless a vertex is nearer; otherwise the nearest vertex.
/// The nearest of all primitives is accepted as well.
inline std::vector<Row> rowsNP(const Geo &g, const Vec &p)
{
  std::vector<Row> rows;
  auto             vs = ref::vertices(g, p), es = ref::edges(g, p);
  double           dv = ref::minDist(vs);
  bool             sure = false; // a decision without ties has been taken
  if (g.dim == 3) {
    auto   ts = ref::tris(g, p);
    double dt = ref::minDist(ts);
    if (!ts.empty() && dt <= dv + ref::TOL) {
      ref::best(ts, rows);
      if (dt < dv - ref::TOL) {
        for (auto &t : ts)
          if (t.dist <= dt + ref::TOL && t.margin > ref::TOL)
            sure = true;
      }
      // something else may be nearer still
      double m = std::min(dt, ref::minDist(es));
      if (m < dt - ref::TOL)
        ref::best(es, rows);
    }
  }
  if (!sure) {
    double de = ref::minDist(es);
    if (!es.empty() && de <= dv + ref::TOL) {
      ref::best(es, rows);
      if (de < dv - ref::TOL)
        for (auto &t : es)
          if (t.dist <= de + ref::TOL && t.margin > ref::TOL)
            sure = true;
    }
    if (!sure)
      ref::best(vs, rows);
  }
  return rows;
}
/// linear cell interpolation: barycentric in the enclosing triangle (2D) or tetrahedron (3D), else nearest projection
inline std::vector<Row> rowsLCI(const Geo &g, const Vec &p)
{
  std::vector<Row> rows;
  Cand             c;
  bool             sure = false;
  if (g.dim == 2) {
    for (auto &t : g.allTris())
      if (ref::triCand(g, p, t, c) && c.margin >= -ref::TOL) {
        ref::addRow(rows, c.row);
        sure = sure || c.margin > ref::TOL;
      }
  } else
    for (auto &t : g.allTets())
      if (ref::tetCand(g, p, t, c) && c.margin >= -ref::TOL) {
        ref::addRow(rows, c.row);
        sure = sure || c.margin > ref::TOL;
      }
  if (!sure)
    for (auto &r : rowsNP(g, p))
      ref::addRow(rows, r);
  return rows;
}
/// integral of vertex data over the mesh
inline double integral(const Geo &g, const std::vector<double> &val, bool volume)
{
  double s = 0;
  if (!volume && g.dim == 2)
    for (auto &e : g.allEdges())
      s += g.length(e) * (val[e[0]] + val[e[1]]) / 2;
  if (volume != (g.dim == 3))
    for (auto &t : g.allTris())
      s += g.area(t) * (val[t[0]] + val[t[1]] + val[t[2]]) / 3;
  if (volume && g.dim == 3)
    for (auto &t : g.allTets())
      s += g.volume(t) * (val[t[0]] + val[t[1]] + val[t[2]] + val[t[3]]) / 4;
  return s;
}
} // namespace verif
