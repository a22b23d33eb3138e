// C14: definition of meshes.  Every sequence of connectivity calls; the resulting mesh is observed through exports of
// both participants.
#include "../src/exports.hpp"
#include "../src/mapref.hpp"
#include "../src/session.hpp"
using namespace verif;

namespace {
using VI = std::vector<int>;
struct Op {
  int kind; ///< number of vertices: 2 edge, 3 triangle, 4 quad, 5 tetrahedron
  bool bulk;
  VI   ids;
};
struct Case {
  int             dim   = 3, ranks = 1;
  bool            full  = true; ///< does a mapping need connectivity
  bool            split = false; ///< vertices are defined one by one
  std::vector<Op> ops;
  std::string     fmt = "vtu";
};
/// 0-3 convex quadrilateral, 4 inside of it (in the same plane), 5 apex
const double P[6][3] = {{0, 0, 0}, {1, 0, 0}, {1.25, 0.75, 0}, {-0.125, 1.5, 0}, {0.25, 0.25, 0}, {0.375, 0.5, 1}};
int          nVertices(int dim) { return dim == 3 ? 6 : 5; }
Geo          geo(int dim)
{
  Geo g;
  g.dim = dim;
  for (int i = 0; i < nVertices(dim); ++i)
    g.v.push_back({P[i][0], P[i][1], P[i][2]});
  return g;
}
int per(int kind) { return kind == 5 ? 4 : kind; }
std::string describe(const Case &c)
{
  std::ostringstream o;
  o << c.dim << "D ranks=" << c.ranks << (c.full ? "" : " connectivity not required") << " " << c.fmt << ":";
  for (auto &op : c.ops)
    o << " " << (op.kind == 2 ? "edge" : op.kind == 3 ? "triangle" : op.kind == 4 ? "quad" : "tetrahedron") << (op.bulk ? "s" : "") << verif::show(op.ids);
  return o.str();
}
/// orders the vertices of a planar quad around its hull; false if it is not convex
bool hull(const Geo &g, std::array<int, 4> &q)
{
  auto orient = [&](int a, int b, int c) {
    auto u = sub(g.v[b], g.v[a]), w = sub(g.v[c], g.v[a]);
    return u[0] * w[1] - u[1] * w[0];
  };
  std::array<int, 4> p = q;
  std::sort(p.begin(), p.end());
  do {
    double s[4];
    for (int i = 0; i < 4; ++i)
      s[i] = orient(p[i], p[(i + 1) % 4], p[(i + 2) % 4]);
    if ((s[0] > 0) == (s[1] > 0) && (s[1] > 0) == (s[2] > 0) && (s[2] > 0) == (s[3] > 0)) {
      // all turns in the same direction; exclude self-intersections
      if ((orient(p[0], p[1], p[2]) > 0) == (orient(p[0], p[2], p[3]) > 0)) {
        q = p;
        return true;
      }
    }
  } while (std::next_permutation(p.begin(), p.end()));
  return false;
}
/// applies a call to the reference; false if it has to be refused
bool apply(Geo &g, const Op &op)
{
  int n = per(op.kind);
  if (op.kind == 5 && g.dim == 2)
    return false;
  if (op.ids.size() % n)
    return false;
  std::vector<VI> prims;
  for (size_t i = 0; i < op.ids.size(); i += n)
    prims.push_back(VI(op.ids.begin() + i, op.ids.begin() + i + n));
  for (auto &p : prims) {
    std::set<int> u(p.begin(), p.end());
    for (int v : p)
      if (v < 0 || v >= g.n())
        return false;
    if (u.size() != p.size())
      return false;
    std::array<int, 4> q{};
    std::copy(p.begin(), p.end(), q.begin());
    if (op.kind == 2)
      g.edges.push_back({p[0], p[1]});
    else if (op.kind == 3)
      g.tris.push_back({p[0], p[1], p[2]});
    else if (op.kind == 4) {
      if (!hull(g, q))
        return false;
      g.quads.push_back(q);
    } else
      g.tets.push_back(q);
  }
  return true;
}
std::string xml(const Case &c)
{
  std::ostringstream o;
  std::string        m = c.full ? "nearest-projection" : "nearest-neighbor";
  o << "<precice-configuration><log enabled=\"false\"/><profiling mode=\"off\"/><data:scalar name=\"D\"/><mesh name=\"MA\" dimensions=\"" << c.dim << "\"><use-data name=\"D\"/></mesh><mesh name=\"MB\" dimensions=\"" << c.dim << "\"><use-data name=\"D\"/></mesh>"
    << "<participant name=\"A\"><export:" << c.fmt << " directory=\"" << "@\"/><provide-mesh name=\"MA\"/><write-data name=\"D\" mesh=\"MA\"/></participant>"
    << "<participant name=\"B\"><export:" << c.fmt << " directory=\"" << "@\"/><provide-mesh name=\"MB\"/><receive-mesh name=\"MA\" from=\"A\"/><mapping:" << m << " direction=\"read\" from=\"MA\" to=\"MB\" constraint=\"consistent\"/><read-data name=\"D\" mesh=\"MB\"/></participant>"
    << "<m2n:sockets acceptor=\"A\" connector=\"B\"/><coupling-scheme:serial-explicit><participants first=\"A\" second=\"B\"/><max-time-windows value=\"1\"/><time-window-size value=\"1\"/><exchange data=\"D\" mesh=\"MA\" from=\"A\" to=\"B\"/></coupling-scheme:serial-explicit></precice-configuration>";
  return o.str();
}
std::string replaceAll(std::string s, const std::string &a, const std::string &b)
{
  for (size_t p = s.find(a); p != std::string::npos; p = s.find(a, p + b.size()))
    s.replace(p, a.size(), b);
  return s;
}
} // namespace

int main(int argc, char **argv)
{
  Campaign c("C14", argc, argv);
  c.rule      = "a case is a sequence of calls that define connectivity; distinct by the meshes exported by both participants";
  c.technique = "explicit-state model of the mesh; every sequence of calls of the bounded space is executed on the implementation and the meshes of all participants are compared";
  Sched sched;
  RankLibs::get().load(c.lib, c.scratchDir(), 4, &sched);
  bool big = c.thorough();

  auto stage = [&](const std::string &name, uint64_t n, std::function<Case(uint64_t)> make) {
    c.stage(
        name, n, [make](uint64_t i) { return describe(make(i)); },
        [&, make](CaseCtx &ctx, uint64_t i) {
          Case k = make(i);
          writeFile(ctx.dir + "/c.xml", replaceAll(xml(k), "@", ctx.dir));
          Geo  g   = geo(k.dim);
          int  bad = -1; // refused call
          for (size_t q = 0; q < k.ops.size() && bad < 0; ++q)
            if (k.full ? !apply(g, k.ops[q]) : (k.ops[q].kind == 5 && k.dim == 2))
              bad = static_cast<int>(q);
          std::string note;
          bool        refused = false;
          Session     s(sched);
          int         nr = k.ranks + 1;
          s.run(nr, [&](int slot, Api &a) {
            bool b = slot == k.ranks;
            a.create(b ? "B" : "A", ctx.dir + "/c.xml", b ? 0 : slot, b ? 1 : k.ranks);
            std::string mesh = b ? "MB" : "MA";
            if (a.requiresMeshConnectivityFor(mesh) != (!b && k.full))
              note = "requiresMeshConnectivityFor(" + mesh + ") is " + std::to_string(!(!b && k.full));
            VI ids;
            for (int j = 0; j < g.n(); ++j) {
              std::vector<double> x(g.v[j].begin(), g.v[j].begin() + k.dim);
              x[0] += b ? 0.0 : 10.0 * slot;
              ids.push_back(a.setMeshVertex(mesh, x));
            }
            if (!b)
              for (size_t q = 0; q < k.ops.size(); ++q) {
                auto  op = k.ops[(q + slot) % k.ops.size()];
                auto &v  = op.ids;
                for (auto &x : v)
                  if (x >= 0 && x < g.n())
                    x = ids[x];
                try {
                  if (op.kind == 2)
                    op.bulk ? a.setMeshEdges(mesh, v) : a.setMeshEdge(mesh, v[0], v[1]);
                  if (op.kind == 3)
                    op.bulk ? a.setMeshTriangles(mesh, v) : a.setMeshTriangle(mesh, v[0], v[1], v[2]);
                  if (op.kind == 4)
                    op.bulk ? a.setMeshQuads(mesh, v) : a.setMeshQuad(mesh, v[0], v[1], v[2], v[3]);
                  if (op.kind == 5)
                    op.bulk ? a.setMeshTetrahedra(mesh, v) : a.setMeshTetrahedron(mesh, v[0], v[1], v[2], v[3]);
                } catch (const ApiError &e) {
                  refused = true;
                  if (k.ranks == 1 && static_cast<int>(q) != bad)
                    note = "call " + std::to_string(q + 1) + " was refused: " + e.what();
                  throw std::runtime_error("stop");
                }
                if (static_cast<int>(q) == bad && k.ranks == 1) {
                  note = "call " + std::to_string(q + 1) + " was accepted although it is invalid";
                  throw std::runtime_error("stop");
                }
              }
            if (bad >= 0)
              throw std::runtime_error("stop"); // B ends as well
            a.initialize();
            if (!b)
              a.writeData(mesh, "D", ids, std::vector<double>(ids.size(), 1.5));
            a.advance(1);
            a.finalize();
            a.destroy();
          }, policy(i));
          if (!note.empty())
            ctx.fail("call", describe(k) + ": " + note);
          if (bad >= 0) {
            ctx.taint = true;
            ctx.outcome(1000 + bad);
            return;
          }
          if (!s.clean(ctx))
            return;
          // the meshes
          auto name = [&](const std::string &mesh, const std::string &part, int rank) {
            return ctx.dir + "/" + mesh + "-" + part + ".init" + (rank >= 0 ? "_" + std::to_string(rank) : "") + "." + k.fmt;
          };
          auto check = [&](const Exported &x, int from, int to, const std::string &what) {
            if (!x.error.empty()) {
              ctx.fail("export", describe(k) + ": export of " + what + ": " + x.error);
              return;
            }
            // ids of the reference
            VI id;
            for (auto &p : x.points) {
              int f = -1;
              for (int r = from; r < to; ++r)
                for (int j = 0; j < g.n(); ++j)
                  if (p[0] == g.v[j][0] + 10 * r && p[1] == g.v[j][1] && p[2] == g.v[j][2])
                    f = r * 10 + j;
              id.push_back(f);
              if (f < 0)
                ctx.fail("vertices", describe(k) + ": export of " + what + " contains an unknown vertex");
            }
            VI sorted = id;
            std::sort(sorted.begin(), sorted.end());
            if (static_cast<int>(sorted.size()) != (to - from) * g.n() || std::unique(sorted.begin(), sorted.end()) != sorted.end())
              ctx.fail("vertices", describe(k) + ": export of " + what + " does not contain every vertex once");
            std::multiset<VI> got[5], exp[5];
            for (auto cell : x.cells) {
              for (auto &v : cell)
                v = v < static_cast<int>(id.size()) ? id[v] : -1;
              std::sort(cell.begin(), cell.end());
              if (cell.size() < 5)
                got[cell.size()].insert(cell);
            }
            if (k.full)
              for (int r = from; r < to; ++r) {
                auto put = [&](auto &set) {
                  for (auto &p : set) {
                    VI v(p.begin(), p.end());
                    for (auto &y : v)
                      y += 10 * r;
                    exp[v.size()].insert(v);
                  }
                };
                auto e = g.allEdges();
                auto t = g.allTris();
                auto h = g.allTets();
                put(e);
                put(t);
                if (k.fmt == "vtu" || k.fmt == "vtk")
                  put(h);
              }
            for (int n = 2; n < 5; ++n) {
              for (auto &cell : got[n])
                for (int v : cell)
                  ctx.observe(static_cast<uint64_t>(v));
              if (got[n] != exp[n]) {
                std::string m;
                for (auto &cell : got[n])
                  m += verif::show(cell);
                m += " expected ";
                for (auto &cell : exp[n])
                  m += verif::show(cell);
                ctx.fail("connectivity", describe(k) + ": " + what + " has the " + (n == 2 ? "edges " : n == 3 ? "triangles " : "tetrahedra ") + m);
              }
            }
          };
          auto read = [&](const std::string &f) { return k.fmt == "vtk" ? readVTK(f) : readXML(f); };
          for (int r = 0; r < k.ranks; ++r)
            check(read(name("MA", "A", k.ranks > 1 ? r : -1)), r, r + 1, "MA by A rank " + std::to_string(r));
          check(read(name("MA", "B", -1)), 0, k.ranks, "MA by B");
        });
  };
  auto tuples = [](int n, int len) {
    std::vector<VI> r{{}};
    for (int l = 0; l < len; ++l) {
      std::vector<VI> next;
      for (auto &p : r)
        for (int j = 0; j < n; ++j) {
          next.push_back(p);
          next.back().push_back(j);
        }
      r = next;
    }
    return r;
  };
  // single calls: every tuple of ids
  struct Single {
    int kind, len;
  };
  for (auto sg : {Single{2, 2}, Single{3, 3}, Single{4, 4}, Single{5, 4}})
    for (int dim : {2, 3}) {
      if (sg.kind == 5 && dim == 2)
        continue;
      int  n  = sg.kind == 4 ? 5 : nVertices(dim); // quads are planar
      auto ts = tuples(n, sg.len);
      std::string label = sg.kind == 2 ? "edges" : sg.kind == 3 ? "triangles" : sg.kind == 4 ? "quads" : "tetrahedra";
      stage("all-" + label + "-" + std::to_string(dim) + "d", ts.size() * 2, [=](uint64_t i) {
        Case k;
        k.dim = dim;
        k.fmt = sg.kind != 5 ? (i / 2 % 3 == 0 ? "vtp" : i / 2 % 3 == 1 ? "vtk" : "vtu") : (i / 2 % 2 ? "vtu" : "vtk");
        k.ops = {{sg.kind, i % 2 == 1, ts[i / 2]}};
        return k;
      });
    }
  // sequences over representative calls
  std::vector<Op> ops[2];
  for (int dim : {2, 3}) {
    auto &o = ops[dim - 2];
    for (bool bulk : {false, true}) {
      o.push_back({2, bulk, {0, 1}});
      o.push_back({2, bulk, {1, 0}});
      o.push_back({2, bulk, {0, 2}});
      o.push_back({3, bulk, {0, 1, 2}});
      o.push_back({3, bulk, {2, 0, 1}});
      o.push_back({3, bulk, {1, 3, 0}});
      o.push_back({4, bulk, {0, 1, 2, 3}});
      o.push_back({4, bulk, {2, 0, 1, 3}});
      if (dim == 3) {
        o.push_back({5, bulk, {0, 1, 2, 5}});
        o.push_back({5, bulk, {5, 2, 1, 0}});
        o.push_back({5, bulk, {5, 3, 4, 0}});
      }
    }
    o.push_back({2, true, {}});
    o.push_back({2, true, {0, 1, 1, 3, 4, 1}});
    o.push_back({2, true, {3, 2, 2, 3}});
    o.push_back({3, true, {}});
    o.push_back({3, true, {0, 1, 2, 1, 2, 0}});
    o.push_back({3, true, {4, 1, 2, 0, 3, 2, 4, 2, 3}});
    o.push_back({4, true, {0, 1, 2, 3, 3, 2, 1, 0}});
    // invalid ones
    o.push_back({2, false, {0, 9}});
    o.push_back({2, false, {-1, 0}});
    o.push_back({2, true, {0, 1, 2}});
    o.push_back({2, true, {0, 1, 2, 2}});
    o.push_back({3, true, {0, 1, 2, 1, 1, 2}});
    o.push_back({3, true, {0, 1, 2, 3}});
    o.push_back({3, true, {0, 1, 2, 3, 0, 17}});
    o.push_back({4, true, {0, 1, 2, 3, 0, 1}});
    o.push_back({4, true, {0, 1, 2, 4}});
    if (dim == 3) {
      o.push_back({5, true, {}});
      o.push_back({5, true, {0, 1, 2, 5, 5, 1, 2, 3}});
      o.push_back({5, true, {0, 1, 2, 5, 5, 5, 2, 3}});
      o.push_back({5, true, {0, 1, 2}});
    } else
      o.push_back({5, true, {0, 1, 2, 3}});
  }
  for (int dim : {2, 3}) {
    auto     O  = ops[dim - 2];
    uint64_t no = O.size(), len = big ? 3 : 2, n = 1;
    for (uint64_t q = 0; q < len; ++q)
      n *= no;
    stage("sequences-" + std::to_string(dim) + "d", n, [=](uint64_t i) {
      Case k;
      k.dim = dim;
      k.fmt = i % 2 ? "vtk" : "vtu";
      Digits d(i);
      for (uint64_t q = 0; q < len; ++q)
        k.ops.push_back(O[d(static_cast<int>(no))]);
      return k;
    });
    std::vector<Op> valid;
    for (auto &op : O) {
      Geo g = geo(dim);
      if (apply(g, op) && !op.ids.empty())
        valid.push_back(op);
    }
    uint64_t nv = valid.size();
    std::vector<Op> few;
    for (auto &op : valid)
        few.push_back(op);
    uint64_t nf = few.size();
    stage("sequences3-" + std::to_string(dim) + "d", nf * nf * nf, [=](uint64_t i) {
      Case   k;
      Digits d(i);
      k.dim = dim;
      for (int q = 0; q < 3; ++q)
        k.ops.push_back(few[d(static_cast<int>(nf))]);
      return k;
    });
    stage("ranks-" + std::to_string(dim) + "d", nv * nv, [=](uint64_t i) {
      Case   k;
      Digits d(i);
      k.dim   = dim;
      k.ranks = 2;
      k.ops   = {valid[d(static_cast<int>(nv))], valid[d(static_cast<int>(nv))]};
      return k;
    });
    stage("ignored-" + std::to_string(dim) + "d", no, [=](uint64_t i) {
      Case k;
      k.dim  = dim;
      k.full = false;
      k.ops  = {O[i]};
      return k;
    });
  }
  return c.finish();
}
