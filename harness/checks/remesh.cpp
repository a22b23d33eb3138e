// C21: meshes that are redefined during the coupled run.  Every run is compared with fresh runs of the real library
// that start with the new meshes: from the window in which a mesh is redefined on, everything the solvers see has to
// be the same.
#include "session.hpp"
using namespace verif;

namespace {
using VI    = std::vector<int>;
using VD    = std::vector<double>;
using Parts = std::vector<VD>; ///< x coordinates of the vertices of each rank

/// meshes of a participant as they are distributed over up to three ranks
const std::vector<Parts> SHAPES{
    {{0, 1.1}, {2.3, 3.4}, {4.2}},
    {{0, 1.1, 2.3}, {}, {3.4, 4.2}},
    {{3.4}, {0, 2.7}, {}},
    {{}, {1.1, 1.6, 4.2}, {0.2}},
    {{2.3, 3.4}, {0, 1.1}, {0.6, 4.4}},
    {{5.2, -0.7, 2.3}, {1.9}, {}}};
/// meshes for the two-level initialization: it only connects ranks with overlapping boxes, here all of them
const std::vector<Parts> OVERLAPPING{
    {{0, 1.1, 3}, {0.5, 4.2}, {1, 2.3}},
    {{0.2, 2.6}, {0.9, 1.7, 3.4}, {1.2, 4}},
    {{-0.5, 2.3}, {1.4, 3.8}, {0.1, 2.9}},
    {{1, 1.9}, {0, 4}, {0.5, 3.1}},
    {{0, 4}, {1.05, 2}, {0.7, 2.5}},
    {{0.3, 2.2}, {1.3, 2.4}, {0, 5}}};

enum Mapping { ReadRead,
               WriteWrite,
               AllAtA,
               AllAtB,
               Direct };
const char *MAPPINGS[] = {"read mappings", "write mappings", "mappings at A", "mappings at B", "direct access by B"};
const char *ACC[]      = {"", "constant", "IQN-ILS", "IQN-ILS reusing windows"};
const char *PRECONDITIONERS[] = {"type=\"residual-sum\"", "type=\"value\" freeze-after=\"1\"", "type=\"residual\" freeze-after=\"2\"", "type=\"residual-sum\" update-on-threshold=\"false\"", "type=\"value\""};

struct Case {
  bool        filter = false, implicit = false, twoLevel = false, vec = false, measures = false, junk = false, single = false, halfReads = false;
  int         ranks[2] = {1, 1}, windows = 3, maxIt = 3, acc = 0, precond = 0;
  Mapping     map  = ReadRead;
  std::string tag  = "nearest-neighbor", body;
  int         seq[2][4]  = {{0, -1, -1, -1}, {0, -1, -1, -1}}; ///< shape a participant changes to at the start of a window
  unsigned    mask[2][4] = {{7, 7, 7, 7}, {7, 7, 7, 7}};       ///< ranks that redefine their part
  bool        half[2][4] = {};                                 ///< the participant does two steps in this window
  uint64_t    pol        = 0;
  bool        resets(int p, int w) const { return w > 0 && seq[p][w] >= 0; }
  bool        resets(int w) const { return resets(0, w) || resets(1, w); }
  /// the mesh of a participant in a window
  Parts mesh(int p, int w) const
  {
    Parts m(ranks[p]);
    for (int q = 0; q <= w; ++q)
      if (seq[p][q] >= 0) {
        const Parts &s = (twoLevel ? OVERLAPPING : SHAPES)[seq[p][q]];
        for (int r = 0; r < ranks[p]; ++r)
          if (q == 0 || mask[p][q] >> r & 1) {
            m[r].clear();
            // all vertices are somewhere
            for (int t = r; t < 3; t += ranks[p])
              m[r].insert(m[r].end(), s[t].begin(), s[t].end());
          }
      }
    return m;
  }
  bool valid() const
  {
    for (int p = 0; p < 2; ++p)
      for (int w = 0; w < windows; ++w) {
        size_t n = 0;
        for (auto &x : mesh(p, w))
          n += x.size();
        if (!n)
          return false;
      }
    return true;
  }
  std::string describe() const
  {
    std::ostringstream o;
    o << "parallel-" << (implicit ? "implicit " : "explicit ") << (twoLevel ? "two-level " : "") << ACC[acc] << (acc >= 2 ? std::string(" preconditioner ") + PRECONDITIONERS[precond] : std::string()) << (measures ? " measures " : " ") << tag << " " << MAPPINGS[map] << " ranks " << ranks[0] << "," << ranks[1]
      << (vec ? " vector" : "") << (junk ? " written before the reset" : "") << " meshes";
    for (int p = 0; p < 2; ++p) {
      o << (p ? " B:" : " A:");
      for (int w = 0; w < windows; ++w) {
        if (seq[p][w] >= 0)
          o << " w" << w + 1 << " shape " << seq[p][w] << (w ? " ranks " + std::to_string(mask[p][w] & ((1 << ranks[p]) - 1)) : std::string());
        if (half[p][w])
          o << " w" << w + 1 << " two steps";
      }
    }
    return o.str();
  }
};

std::string xml(const Case &c, int windows)
{
  std::ostringstream o;
  std::string        type = c.vec ? "vector" : "scalar";
  o << "<precice-configuration experimental=\"on\" allow-remeshing=\"on\"" << (c.pol / 11 % 2 ? " wait-in-finalize=\"on\"" : "") << "><log enabled=\"false\"/><profiling mode=\"off\"/><data:" << type << " name=\"DA\"/><data:scalar name=\"DB\"/>"
    << "<mesh name=\"MA\" dimensions=\"2\"><use-data name=\"DA\"/><use-data name=\"DB\"/></mesh><mesh name=\"MB\" dimensions=\"2\"><use-data name=\"DA\"/><use-data name=\"DB\"/></mesh>";
  auto mapping = [&](bool read, int from) {
    return "<mapping:" + c.tag + " direction=\"" + (read ? "read" : "write") + "\" from=\"M" + (from ? "B" : "A") + "\" to=\"M" + (from ? "A" : "B") + "\" constraint=\"" + (read ? "consistent" : "conservative") + "\"" + (c.body.empty() ? "/>" : ">" + c.body + "</mapping:" + c.tag + ">");
  };
  bool back = c.map != Direct;
  for (int p = 0; p < 2; ++p) {
    char me = "AB"[p], he = "BA"[p];
    o << "<participant name=\"" << me << "\"><provide-mesh name=\"M" << me << "\"/>";
    bool all = (c.map == AllAtA && p == 0) || (c.map == AllAtB && p == 1);
    if (c.map == Direct && p == 1)
      o << "<receive-mesh name=\"MA\" from=\"A\" api-access=\"true\"/><read-data name=\"DA\" mesh=\"MA\"/>";
    else if (c.map == ReadRead || c.map == WriteWrite || all)
      o << "<receive-mesh name=\"M" << he << "\" from=\"" << he << "\"" << (c.filter ? "/>" : " geometric-filter=\"no-filter\"/>");
    if (c.map == ReadRead || all)
      o << mapping(true, 1 - p);
    if (c.map == WriteWrite || all)
      o << mapping(false, p);
    if (back || p == 0)
      o << "<write-data name=\"D" << me << "\" mesh=\"M" << me << "\"/>";
    if (back)
      o << "<read-data name=\"D" << he << "\" mesh=\"M" << me << "\"/>";
    o << "</participant>";
  }
  std::string tag = c.implicit ? "parallel-implicit" : "parallel-explicit";
  // the mesh on which data is exchanged
  auto on = [&](int from) -> char {
    if (c.map == ReadRead || c.map == Direct)
      return "AB"[from];
    if (c.map == WriteWrite)
      return "BA"[from];
    return c.map == AllAtA ? 'B' : 'A';
  };
  o << "<m2n:sockets acceptor=\"A\" connector=\"B\"" << (c.twoLevel ? " use-two-level-initialization=\"true\"" : "") << "/><coupling-scheme:" << tag << "><participants first=\"A\" second=\"B\"/><max-time-windows value=\"" << windows << "\"/><time-window-size value=\"1\"/>";
  if (c.implicit)
    o << "<max-iterations value=\"" << c.maxIt << "\"/>";
  o << "<exchange data=\"DA\" mesh=\"M" << on(0) << "\" from=\"A\" to=\"B\" substeps=\"true\"/>";
  if (back)
    o << "<exchange data=\"DB\" mesh=\"M" << on(1) << "\" from=\"B\" to=\"A\" substeps=\"true\"/>";
  if (c.implicit && c.measures)
    o << "<relative-convergence-measure data=\"DA\" mesh=\"M" << on(0) << "\" limit=\"0.05\"/><residual-relative-convergence-measure data=\"DB\" mesh=\"M" << on(1) << "\" limit=\"0.1\"/>";
  if (c.acc == 1)
    o << "<acceleration:constant><relaxation value=\"0.5\"/></acceleration:constant>";
  if (c.acc >= 2)
    o << "<acceleration:IQN-ILS><data name=\"DA\" mesh=\"M" << on(0) << "\"/><data name=\"DB\" mesh=\"M" << on(1) << "\"/><preconditioner " << PRECONDITIONERS[c.precond] << "/><filter type=\"QR2\" limit=\"1e-3\"/><initial-relaxation value=\"0.5\"/><max-used-iterations value=\"10\"/><time-windows-reused value=\"" << (c.acc == 3 ? 2 : 0) << "\"/></acceleration:IQN-ILS>";
  o << "</coupling-scheme:" << tag << "></precice-configuration>";
  return o.str();
}

struct Obs {
  int         w = 0;
  std::string what;
  VD          v;
};

double generic(int p, int w, double x, int comp)
{
  double y = std::fmod(std::fabs(x + 1) * 0.7180339887498949 + w * 0.4142135623730951 + comp * 0.2360679774997896 + p * 0.31, 1.0);
  return std::round((0.5 + y) * 1048576) / 1048576;
}

/// runs windows from..windows-1; with fresh, the meshes are those of window from and never change
std::vector<std::vector<Obs>> run(Sched &sched, CaseCtx &ctx, const Case &c, int from, bool fresh, bool &ok, bool &filtered)
{
  std::string file = ctx.dir + "/c" + std::to_string(from) + ".xml";
  writeFile(file, xml(c, c.windows - from));
  int                           n = c.ranks[0] + c.ranks[1];
  std::vector<std::vector<Obs>> all(n);
  Session                       s(sched);
  s.run(n, [&](int slot, Api &a) {
    int         p = slot >= c.ranks[0], rk = p ? slot - c.ranks[0] : slot;
    auto       &obs  = all[slot];
    std::string mesh = p ? "MB" : "MA", mine = p ? "DB" : "DA", his = p ? "DA" : "DB";
    int         dw = c.vec && p == 0 ? 2 : 1, dr = c.vec && p == 1 ? 2 : 1;
    bool        writes = p == 0 || c.map != Direct, reads = c.map != Direct;
    bool        direct = c.map == Direct && p == 1;
    VD          x;
    VI          ids;
    auto        define = [&](const VD &pos) {
      x = pos;
      ids.clear();
      if (c.single)
        for (double q : x)
          ids.push_back(a.setMeshVertex(mesh, {q, p * 0.25}));
      else {
        VD co;
        for (double q : x) {
          co.push_back(q);
          co.push_back(p * 0.25);
        }
        ids = a.setMeshVertices(mesh, co, static_cast<int>(x.size()));
      }
      for (size_t i = 1; i < ids.size(); ++i)
        a.setMeshEdge(mesh, ids[i - 1], ids[i]);
    };
    a.create(p ? "B" : "A", file, rk, c.ranks[p]);
    define(c.mesh(p, from)[rk]);
    if (direct)
      a.setMeshAccessRegion("MA", {-1.0 + rk * 2, 5.5 + rk, -1, 1});
    a.initialize();
    for (int w = from; w < c.windows; ++w) {
      auto add = [&](const std::string &what, const VD &v) { obs.push_back({w, what, v}); };
      bool start = w == from || (!fresh && c.resets(w));
      for (int it = 0;; ++it) {
        if (c.implicit) {
          bool r = a.requiresWritingCheckpoint();
          add("writeCheckpoint", {double(r)});
        }
        VD in(x.size() * dr, 0.);
        if (it == 0 && w > from && !fresh && c.resets(p, w) && (c.mask[p][w] >> rk & 1)) {
          if (c.junk && writes)
            a.writeData(mesh, mine, ids, VD(x.size() * dw, 777));
          a.resetMesh(mesh);
          define(c.mesh(p, w)[rk]);
          in.assign(x.size() * dr, 0.);
        } else if (!(start && it == 0) && reads) {
          in = a.readData(mesh, his, ids, a.getMaxTimeStepSize(), static_cast<int>(in.size()));
          add("read end", in);
          if (c.halfReads && !start) // the values at the start of a window with new meshes are not defined
            add("read mid", a.readData(mesh, his, ids, a.getMaxTimeStepSize() / 2, static_cast<int>(in.size())));
        }
        int steps = c.half[p][w] ? 2 : 1;
        for (int st = 0; st < steps; ++st) {
          VD out(x.size() * dw);
          for (size_t i = 0; i < x.size(); ++i)
            for (int d = 0; d < dw; ++d) {
              double sum = 0;
              for (int e = 0; e < dr; ++e)
                sum += in[i * dr + e];
              out[i * dw + d] = (p ? -0.3 : 0.4) * sum + generic(p, w, x[i], d) + (st + 1 < steps ? 0.5 : 0.);
            }
          if (writes)
            a.writeData(mesh, mine, ids, out);
          a.advance(a.getMaxTimeStepSize() / (st + 1 < steps ? 2 : 1));
        }
        add("complete", {double(a.isTimeWindowComplete())});
        if (c.implicit) {
          bool r = a.requiresReadingCheckpoint();
          add("readCheckpoint", {double(r)});
          if (r)
            continue;
        }
        break;
      }
      if (reads)
        add("read begin", a.readData(mesh, his, ids, 0, static_cast<int>(x.size()) * dr));
      if (direct) {
        VI vid;
        VD co;
        a.getMeshVertexIDsAndCoordinates("MA", vid, co);
        auto d = a.readData("MA", "DA", vid, 0, static_cast<int>(vid.size()) * dr);
        std::vector<VD> rows;
        for (size_t i = 0; i < vid.size(); ++i) {
          rows.push_back({co[2 * i], co[2 * i + 1]});
          rows.back().insert(rows.back().end(), d.begin() + i * dr, d.begin() + (i + 1) * dr);
        }
        std::sort(rows.begin(), rows.end());
        VD flat;
        for (auto &r : rows)
          flat.insert(flat.end(), r.begin(), r.end());
        add("direct", flat);
      }
      add("vertices", {double(a.getMeshVertexSize(mesh))});
    }
    obs.push_back({c.windows, "ongoing", {double(a.isCouplingOngoing())}});
    a.finalize();
    a.destroy(); }, policy(c.pol));
  filtered = false;
  for (auto &e : s.error)
    if ((c.filter || c.twoLevel) && e.find("completely filtered out") != std::string::npos)
      filtered = true;
  if (filtered) { // the parts of the meshes do not match: refused
    ctx.taint = true;
    ok        = false;
    return all;
  }
  ok = s.clean(ctx, fresh ? "(fresh run from window " + std::to_string(from + 1) + ")" : "");
  return all;
}

void check(Sched &sched, CaseCtx &ctx, const Case &c)
{
  bool ok = false, filtered = false, none = true;
  auto got = run(sched, ctx, c, 0, false, ok, filtered);
  if (filtered) {
    // refused because of the geometry: then one of the fresh runs has to be refused as well
    for (int w = 0; w < c.windows && none; ++w)
      if (w == 0 || c.resets(w)) {
        run(sched, ctx, c, w, true, ok, filtered);
        none = !filtered;
      }
    if (none)
      ctx.fail("refused", "the run is refused as the meshes do not match, runs that start with these meshes are not");
    ctx.outcome(1);
    return;
  }
  if (!ok)
    return;
  for (auto &o : got)
    for (auto &e : o)
      for (double v : e.v)
        ctx.observe(v);
  for (int w = 1; w < c.windows; ++w) {
    if (!c.resets(w))
      continue;
    int end = w + 1;
    while (end < c.windows && !c.resets(end))
      ++end;
    auto ref = run(sched, ctx, c, w, true, ok, filtered);
    if (filtered)
      return; // boxes around provided meshes only grow
    if (!ok)
      return;
    for (size_t slot = 0; slot < got.size(); ++slot) {
      auto part = [&](const std::vector<Obs> &l) {
        std::vector<Obs> r;
        for (auto &o : l)
          if (o.w >= w && o.w < end)
            r.push_back(o);
        return r;
      };
      auto        g = part(got[slot]), e = part(ref[slot]);
      std::string who = slot < size_t(c.ranks[0]) ? "A" + std::to_string(slot) : "B" + std::to_string(slot - c.ranks[0]);
      for (size_t i = 0; i < std::max(g.size(), e.size()); ++i) {
        auto str = [&](const std::vector<Obs> &l) { return i < l.size() ? "window " + std::to_string(l[i].w + 1) + " " + l[i].what + " " + show(l[i].v) : std::string("nothing"); };
        bool same = i < g.size() && i < e.size() && g[i].w == e[i].w && g[i].what == e[i].what && g[i].v.size() == e[i].v.size();
        for (size_t j = 0; same && j < g[i].v.size(); ++j)
          same = close(g[i].v[j], e[i].v[j], c.acc >= 2 ? 1e-7 : 1e-12);
        if (!same) {
          ctx.fail("differs:" + (i < e.size() ? e[i].what : "count"), who + " after remeshing in window " + std::to_string(w + 1) + ": " + str(g) + ", in a run that starts with these meshes " + str(e));
          return;
        }
      }
    }
  }
}
} // namespace

int main(int argc, char **argv)
{
  Campaign c("C21", argc, argv);
  c.rule = "every combination of the listed scenario dimensions is executed on the real library, together with one fresh run per window in which meshes are redefined; an execution is counted as distinct if the sequence of values observed by the solvers differs";
  c.technique = "stateless exploration of the real library over all sequences of mesh redefinitions up to the depth, compared with fresh runs of the same code";
  Sched sched;
  RankLibs::get().load(c.lib, c.scratchDir(), 6, &sched);
  auto stage = [&](const std::string &name, uint64_t n, std::function<Case(uint64_t)> make) {
    c.stage(name, n, [=](uint64_t i) { return make(i).describe(); }, [&, make](CaseCtx &ctx, uint64_t i) {
      Case k = make(i);
      if (k.valid())
        check(sched, ctx, k); });
  };
  const int N = static_cast<int>(SHAPES.size());
  // the quick tier tries fewer shapes in the third window
  std::vector<int> later{-1, 2, 4};
  if (c.thorough())
    later = {-1, 0, 1, 2, 3, 4, 5};
  std::vector<unsigned> masks = c.thorough() ? std::vector<unsigned>{7, 1, 2} : std::vector<unsigned>{7, 2};
  const int             L = later.size(), K = masks.size();
  // which meshes change when: A and B in windows 2 and 3
  auto changes = [=](Case &k, Digits &d) {
    for (int p = 0; p < 2; ++p)
      for (int w = 1; w < 3; ++w)
        k.seq[p][w] = w == 1 ? static_cast<int>(d(N + 1)) - 1 : d.pick(later);
  };
  stage("serial", 2 * 2 * 4 * 7 * 7 * L * L, [=](uint64_t i) {
    Digits d(i);
    Case   k;
    k.pol      = i;
    k.implicit = d(2);
    k.vec      = d(2);
    k.map      = static_cast<Mapping>(d(4));
    changes(k, d);
    k.seq[1][0] = 1;
    k.single    = i / 7 % 2;
    k.measures  = i / 3 % 2;
    return k;
  });
  // parallel participants; ranks that redefine their part of the mesh and ranks that keep it, empty parts
  stage("ranks", 2 * 4 * 4 * 7 * 7 * L * K * K, [=](uint64_t i) {
    Digits d(i);
    Case   k;
    k.pol       = i;
    k.implicit  = d(2);
    k.map       = static_cast<Mapping>(d(4));
    auto r      = d.pick<std::vector<int>>({{2, 2}, {2, 1}, {1, 2}, {3, 2}});
    k.ranks[0]  = r[0];
    k.ranks[1]  = r[1];
    k.seq[0][1] = d(N + 1) - 1;
    k.seq[1][1] = d(N + 1) - 1;
    k.seq[1][0] = 1;
    k.seq[0][2] = d.pick(later);
    for (int p = 0; p < 2; ++p)
      k.mask[p][1] = d.pick(masks);
    k.single   = i / 7 % 2;
    k.measures = i / 3 % 2;
    k.vec      = i / 5 % 2;
    return k;
  });
  stage("two-level", 2 * 3 * 2 * 7 * 7 * L * K, [=](uint64_t i) {
    Digits d(i);
    Case   k;
    k.pol       = i;
    k.twoLevel  = true;
    k.implicit  = d(2);
    k.map       = d.pick<Mapping>({ReadRead, AllAtA, AllAtB});
    // three receiving ranks fail even without any redefinition (known finding of C01)
    bool three = d(2);
    k.ranks[0] = three && k.map == AllAtB ? 3 : 2;
    k.ranks[1] = 2;
    k.vec      = three && k.map != AllAtB;
    k.seq[0][1] = d(N + 1) - 1;
    k.seq[1][1] = d(N + 1) - 1;
    k.seq[1][2] = d.pick(later);
    k.mask[0][1] = d.pick(masks);
    return k;
  });
  // acceleration restarts with the new meshes
  stage("acceleration", 3 * 2 * 4 * 2 * 7 * 7 * L * (c.thorough() ? 3 : 1), [=](uint64_t i) {
    Digits d(i);
    Case   k;
    k.pol       = i;
    k.implicit  = true;
    k.acc       = d(3) + 1;
    k.measures  = d(2);
    k.map       = static_cast<Mapping>(d(4));
    k.ranks[0] = k.ranks[1] = d(2) + 1;
    k.seq[0][1] = d(N + 1) - 1;
    k.seq[1][1] = d(N + 1) - 1;
    k.seq[0][2] = d.pick(later);
    k.maxIt     = c.thorough() ? static_cast<int>(d(3)) + 2 : 3 + i / 13 % 2;
    k.windows   = 4;
    k.vec       = i / 5 % 2;
    k.precond   = (i / 11 + i / 98) % 5;
    k.seq[1][0] = k.map == AllAtA ? 1 : 0; // a rank starts without data to accelerate
    return k;
  });
  // connectivity and kernels
  stage("mappings", 3 * 2 * 4 * 2 * 7 * 7 * L, [=](uint64_t i) {
    Digits d(i);
    Case   k;
    k.pol   = i;
    int tag = d(3);
    k.tag   = tag == 0 ? "nearest-projection" : tag == 1 ? "rbf-global-direct" : "rbf-pum-direct";
    if (tag)
      k.body = tag == 1 ? "<basis-function:compact-polynomial-c2 support-radius=\"3\"/>" : "<basis-function:compact-polynomial-c2 support-radius=\"9\"/>";
    k.implicit  = d(2);
    k.map       = static_cast<Mapping>(d(4));
    k.ranks[0] = k.ranks[1] = d(2) + 1;
    k.seq[0][1] = d(N + 1) - 1;
    k.seq[1][1] = d(N + 1) - 1;
    k.seq[0][2] = d.pick(later);
    return k;
  });
  // what was written before the mesh is redefined is gone; a participant that keeps its mesh may subcycle
  stage("steps", 2 * 2 * 2 * 4 * 7 * L * 4 * 4, [=](uint64_t i) {
    Digits d(i);
    Case   k;
    k.pol       = i;
    k.implicit  = d(2);
    k.junk      = d(2);
    k.halfReads = d(2);
    k.map       = static_cast<Mapping>(d(4));
    k.seq[0][1] = d(N + 1) - 1;
    k.seq[1][2] = d.pick(later);
    for (int p = 0; p < 2; ++p) {
      unsigned m = d(4);
      for (int w = 0; w < 3; ++w)
        k.half[p][w] = (m >> (w ? 1 : 0) & 1) && !k.resets(p, w);
    }
    return k;
  });
  // a partner that accesses the mesh directly sees the new one
  stage("direct", 2 * 4 * 7 * L * K * 2, [=](uint64_t i) {
    Digits d(i);
    Case   k;
    k.pol       = i;
    k.map       = Direct;
    k.vec       = d(2);
    auto r      = d.pick<std::vector<int>>({{1, 1}, {2, 2}, {2, 1}, {1, 2}});
    k.ranks[0]  = r[0];
    k.ranks[1]  = r[1];
    k.seq[0][1] = d(N + 1) - 1;
    k.seq[0][2] = d.pick(later);
    k.mask[0][1] = d.pick(masks);
    k.seq[1][1] = d(2) ? 2 : -1;
    return k;
  });
  return c.finish();
}
