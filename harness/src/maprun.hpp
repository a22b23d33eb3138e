// One mapping between two participants: A provides the input mesh, B the output mesh
#pragma once
#include "mapref.hpp"
#include "session.hpp"

namespace verif {

struct MapCase {
  std::string           tag = "nearest-neighbor", constraint = "consistent", attrs, body;
  bool                  read = true; ///< mapping executed by B (read) or by A (write)
  Geo                   in, out;
  std::vector<unsigned> inRank, outRank; ///< bit masks of ranks that hold a vertex (empty: all on rank 0)
  int                   ra = 1, rb = 1;
  std::string           recvAttrs; ///< attributes of receive-mesh
  std::string           m2n;       ///< attributes of the m2n
  bool                  gradient = false;
  std::vector<std::array<std::vector<double>, 4>> values; ///< per window: D, and the components of V, per input vertex
  std::function<std::vector<double>(int w, int comp, int vertex)> grad; ///< gradient of D (comp 0) or V (comp 1..)
  unsigned              style = 0; ///< which API functions are used for the meshes
};
struct MapResult {
  /// [window][component 0: D, 1..: V][copy of output vertex]
  std::vector<std::array<std::vector<double>, 4>> got;
  std::vector<int>         vertex; ///< copy -> output vertex
  std::vector<std::string> error;  ///< per slot
  bool                     ok = false;
};

/// values that make every linear combination distinguishable
inline double generic(int j, int w, int c)
{
  double x = std::fmod((j + 1) * 0.6180339887498949 + w * 0.4142135623730951 + c * 0.2360679774997896, 1.0);
  return std::round((0.5 + x) * 1048576) / 1048576 * ((j + w + c) % 3 ? 1 : -1);
}
inline void fillGeneric(MapCase &k, int windows = 2)
{
  k.values.assign(windows, {});
  for (int w = 0; w < windows; ++w)
    for (int c = 0; c < 4; ++c)
      for (int j = 0; j < k.in.n(); ++j)
        k.values[w][c].push_back(generic(w == 1 ? j / 3 : j, w, c)); // the second window has equal values at several vertices
}
inline std::string mapXML(const MapCase &k)
{
  std::ostringstream o;
  std::string        rd = k.read ? "read" : "write", g = k.gradient ? "" : "";
  o << "<precice-configuration experimental=\"on\"><log enabled=\"false\"/><profiling mode=\"off\"/><data:scalar name=\"D\"" << (k.values.size() ? "" : "") << "/><data:vector name=\"V\"/>"
    << "<mesh name=\"MA\" dimensions=\"" << k.in.dim << "\"><use-data name=\"D\"/><use-data name=\"V\"/></mesh>"
    << "<mesh name=\"MB\" dimensions=\"" << k.out.dim << "\"><use-data name=\"D\"/><use-data name=\"V\"/></mesh>";
  std::string mapping = "<mapping:" + k.tag + " direction=\"" + rd + "\" from=\"MA\" to=\"MB\" constraint=\"" + k.constraint + "\" " + k.attrs + (k.body.empty() ? "/>" : ">" + k.body + "</mapping:" + k.tag + ">");
  o << "<participant name=\"A\"><provide-mesh name=\"MA\"/>";
  if (!k.read)
    o << "<receive-mesh name=\"MB\" from=\"B\" " << k.recvAttrs << "/>" << mapping;
  o << "<write-data name=\"D\" mesh=\"MA\"/><write-data name=\"V\" mesh=\"MA\"/></participant>";
  o << "<participant name=\"B\"><provide-mesh name=\"MB\"/>";
  if (k.read)
    o << "<receive-mesh name=\"MA\" from=\"A\" " << k.recvAttrs << "/>" << mapping;
  o << "<read-data name=\"D\" mesh=\"MB\"/><read-data name=\"V\" mesh=\"MB\"/></participant>";
  std::string m = k.read ? "MA" : "MB";
  o << "<m2n:sockets acceptor=\"A\" connector=\"B\" " << k.m2n << "/><coupling-scheme:serial-explicit><participants first=\"A\" second=\"B\"/><max-time-windows value=\"" << k.values.size() << "\"/><time-window-size value=\"1\"/>"
    << "<exchange data=\"D\" mesh=\"" << m << "\" from=\"A\" to=\"B\"/><exchange data=\"V\" mesh=\"" << m << "\" from=\"A\" to=\"B\"/></coupling-scheme:serial-explicit></precice-configuration>";
  return o.str();
}
inline std::string describe(const Geo &g)
{
  std::ostringstream o;
  o.precision(6);
  for (auto &p : g.v)
    o << "(" << p[0] << "," << p[1] << (g.dim == 3 ? "," + num(p[2]) : "") << ")";
  for (auto &e : g.edges)
    o << " e" << e[0] << e[1];
  for (auto &e : g.tris)
    o << " t" << e[0] << e[1] << e[2];
  for (auto &e : g.quads)
    o << " q" << e[0] << e[1] << e[2] << e[3];
  for (auto &e : g.tets)
    o << " T" << e[0] << e[1] << e[2] << e[3];
  return o.str();
}
inline std::string describe(const MapCase &k)
{
  std::ostringstream o;
  o << k.tag << " " << k.constraint << (k.read ? " read " : " write ") << k.attrs << k.body << " " << k.in.dim << "D from " << describe(k.in) << " to ";
  if (k.out.n() > 8)
    o << k.out.n() << " vertices";
  else
    o << describe(k.out);
  if (k.ra + k.rb > 2) {
    o << " ranks " << k.ra << "," << k.rb << " in ";
    for (auto r : k.inRank)
      o << r;
    o << " out ";
    for (auto r : k.outRank)
      o << r;
    o << " " << k.recvAttrs << " " << k.m2n;
  }
  return o.str();
}
/// defines the part of a mesh held by a rank; returns the global vertices in local order
inline std::vector<int> defineMesh(Api &a, const std::string &mesh, const Geo &g, const std::vector<unsigned> &ranks, int rank, unsigned style)
{
  std::vector<int> mine, local(g.n(), -1);
  for (int i = 0; i < g.n(); ++i)
    if (ranks.empty() ? rank == 0 : (ranks[i] >> rank & 1)) {
      mine.push_back(i);
    }
  if (style & 1) {
    for (int i : mine)
      local[i] = a.setMeshVertex(mesh, std::vector<double>(g.v[i].begin(), g.v[i].begin() + g.dim));
  } else {
    std::vector<double> c;
    for (int i : mine)
      c.insert(c.end(), g.v[i].begin(), g.v[i].begin() + g.dim);
    auto ids = a.setMeshVertices(mesh, c, static_cast<int>(mine.size()));
    for (size_t i = 0; i < mine.size(); ++i)
      local[mine[i]] = ids[i];
  }
  auto have = [&](auto &p) {
    for (int i : p)
      if (local[i] < 0)
        return false;
    return true;
  };
  auto each = [&](auto &list, auto one, auto many) {
    std::vector<int> ids;
    for (auto &p : list)
      if (have(p)) {
        auto q = p;
        for (auto &x : q)
          x = local[x];
        if (style & 2)
          one(q);
        else
          ids.insert(ids.end(), q.begin(), q.end());
      }
    if (!ids.empty())
      many(ids);
  };
  auto E = [&] { each(g.edges, [&](auto &q) { a.setMeshEdge(mesh, q[0], q[1]); }, [&](auto &i) { a.setMeshEdges(mesh, i); }); };
  auto T = [&] { each(g.tris, [&](auto &q) { a.setMeshTriangle(mesh, q[0], q[1], q[2]); }, [&](auto &i) { a.setMeshTriangles(mesh, i); }); };
  auto Q = [&] { each(g.quads, [&](auto &q) { a.setMeshQuad(mesh, q[0], q[1], q[2], q[3]); }, [&](auto &i) { a.setMeshQuads(mesh, i); }); };
  auto H = [&] { each(g.tets, [&](auto &q) { a.setMeshTetrahedron(mesh, q[0], q[1], q[2], q[3]); }, [&](auto &i) { a.setMeshTetrahedra(mesh, i); }); };
  if (style & 4) {
    H();
    Q();
    T();
    E();
  } else {
    E();
    T();
    Q();
    H();
  }
  return mine;
}
inline MapResult runMap(Sched &sched, CaseCtx &ctx, const MapCase &k, const Policy &pol, bool expectOk = true)
{
  writeFile(ctx.dir + "/c.xml", mapXML(k));
  MapResult r;
  int       W = static_cast<int>(k.values.size());
  r.got.assign(W, {});
  std::vector<std::vector<int>>                                 copies(k.ra + k.rb);
  std::vector<std::vector<std::array<std::vector<double>, 4>>>  part(k.ra + k.rb);
  Session s(sched);
  s.run(k.ra + k.rb, [&](int slot, Api &a) {
    int p = slot >= k.ra, rk = p ? slot - k.ra : slot;
    a.create(p ? "B" : "A", ctx.dir + "/c.xml", rk, p ? k.rb : k.ra);
    auto        mine = defineMesh(a, p ? "MB" : "MA", p ? k.out : k.in, p ? k.outRank : k.inRank, rk, k.style);
    int         n    = static_cast<int>(mine.size());
    copies[slot]     = mine;
    std::vector<int> ids(n);
    for (int i = 0; i < n; ++i)
      ids[i] = i;
    a.initialize();
    int dim = (p ? k.out : k.in).dim;
    for (int w = 0; w < W; ++w) {
      if (!p) {
        std::vector<double> d, v;
        for (int i : mine) {
          d.push_back(k.values[w][0][i]);
          for (int c = 0; c < dim; ++c)
            v.push_back(k.values[w][1 + c][i]);
        }
        a.writeData("MA", "D", ids, d);
        a.writeData("MA", "V", ids, v);
        for (int q = 0; q < 2; ++q) {
          std::string name = q ? "V" : "D";
          if (a.requiresGradientDataFor("MA", name) && k.grad) {
            std::vector<double> g;
            for (int i : mine)
              for (int c = 0; c < (q ? dim : 1); ++c) {
                auto x = k.grad(w, q ? 1 + c : 0, i);
                g.insert(g.end(), x.begin(), x.begin() + dim);
              }
            a.writeGradientData("MA", name, ids, g);
          }
        }
        a.advance(1);
      } else {
        std::array<std::vector<double>, 4> res;
        res[0] = a.readData("MB", "D", ids, a.getMaxTimeStepSize(), n);
        auto v = a.readData("MB", "V", ids, a.getMaxTimeStepSize(), n * dim);
        for (int i = 0; i < n; ++i)
          for (int c = 0; c < dim; ++c)
            res[1 + c].push_back(v[i * dim + c]);
        part[slot].push_back(res);
        a.advance(1);
      }
    }
    a.finalize();
    a.destroy(); }, pol);
  r.error = s.error;
  if (expectOk)
    r.ok = s.clean(ctx);
  else {
    r.ok = s.out.finished && !s.anyError();
    if (!r.ok)
      ctx.taint = true;
    for (auto &pe : s.out.protocolErrors)
      ctx.fail("protocol", pe);
    if (!s.out.deadlock.empty() && !s.anyError())
      ctx.fail("deadlock", s.out.deadlock);
  }
  if (!r.ok)
    return r;
  for (int slot = k.ra; slot < k.ra + k.rb; ++slot) {
    r.vertex.insert(r.vertex.end(), copies[slot].begin(), copies[slot].end());
    for (int w = 0; w < W; ++w)
      for (int c = 0; c <= k.out.dim; ++c)
        r.got[w][c].insert(r.got[w][c].end(), part[slot][w][c].begin(), part[slot][w][c].end());
  }
  return r;
}
/// compares a consistent result with the acceptable rows of each output vertex (one row for all windows and components)
inline bool matchRows(CaseCtx &ctx, const MapCase &k, const MapResult &r, const std::vector<std::vector<Row>> &rows, double tol = 1e-10, const std::string &key = "value")
{
  for (size_t o = 0; o < r.vertex.size(); ++o) {
    bool        any = false;
    std::string exp;
    for (auto &row : rows[r.vertex[o]]) {
      bool all = true;
      for (size_t w = 0; w < r.got.size(); ++w)
        for (int c = 0; c <= k.in.dim; ++c) {
          double e = 0;
          for (size_t j = 0; j < row.size(); ++j)
            e += row[j] * k.values[w][c][j];
          if (!close(r.got[w][c][o], e, tol))
            all = false;
          if (c == 0)
            exp += " " + num(e);
        }
      exp += " |";
      any = any || all;
    }
    for (size_t w = 0; w < r.got.size(); ++w)
      ctx.observe(r.got[w][0][o]);
    if (!any) {
      std::string got;
      for (size_t w = 0; w < r.got.size(); ++w)
        for (int c = 0; c <= k.in.dim; ++c)
          got += " " + num(r.got[w][c][o]);
      auto &p = k.out.v[r.vertex[o]];
      ctx.fail(key, describe(k) + ": value at output vertex " + std::to_string(r.vertex[o]) + show(p) + " is (windows x components)" + got + ", expected D in windows: " + exp);
      return false;
    }
  }
  return true;
}
/// the same for conservative mappings: rows are those of input vertices over the output mesh
inline bool matchTransposed(CaseCtx &ctx, const MapCase &k, const MapResult &r, const std::vector<Row> &rows, double tol = 1e-10, const std::string &key = "value")
{
  for (size_t w = 0; w < r.got.size(); ++w)
    for (int c = 0; c <= k.in.dim; ++c)
      for (size_t o = 0; o < r.vertex.size(); ++o) {
        double e = 0;
        for (int j = 0; j < k.in.n(); ++j)
          e += rows[j][r.vertex[o]] * k.values[w][c][j];
        if (c == 0)
          ctx.observe(r.got[w][c][o]);
        if (!close(r.got[w][c][o], e, tol)) {
          ctx.fail(key, describe(k) + ": " + (c ? "component " + std::to_string(c - 1) + " of V" : std::string("D")) + " in window " + std::to_string(w + 1) + " at output vertex " + std::to_string(r.vertex[o]) + " is " + num(r.got[w][c][o]) + ", expected " + num(e));
          return false;
        }
      }
  return true;
}
} // namespace verif
