// C11: direct access to received meshes
#include "../src/mapref.hpp"
#include "../src/session.hpp"
#include <map>
using namespace verif;

namespace {
using VI = std::vector<int>;
using VD = std::vector<double>;
struct Box {
  bool set = true;
  VD   b; // lo hi per dimension
  bool contains(const Vec &p, int dim) const
  {
    for (int d = 0; d < dim; ++d)
      if (p[d] < b[2 * d] || p[d] > b[2 * d + 1])
        return false;
    return true;
  }
  bool point(int dim) const
  {
    for (int d = 0; d < dim; ++d)
      if (b[2 * d] != b[2 * d + 1])
        return false;
    return true;
  }
};
struct Case {
  int                   dim = 2, scheme = 1, m2n = 0, filter = 0, mapping = 0; ///< mapping: none, nearest neighbor from the mesh
  bool                  aFirst = true, initial = false, partial = false, substeps = false;
  int                   ranks[2] = {1, 1}, steps = 1, windows = 2;
  std::vector<Vec>      v;
  std::vector<unsigned> where; ///< mask of ranks of A per vertex
  std::vector<Box>      box;   ///< per rank of B
};
const char *TAGS[]   = {"serial-explicit", "parallel-explicit", "serial-implicit", "parallel-implicit"};
const char *M2N[]    = {"", "use-two-level-initialization=\"on\"", "enforce-gather-scatter=\"on\""};
const char *FILTER[] = {"", "geometric-filter=\"no-filter\"", "geometric-filter=\"on-primary-rank\"", "safety-factor=\"2\""};

std::string xml(const Case &c)
{
  std::ostringstream o;
  o << "<precice-configuration><log enabled=\"false\"/><profiling mode=\"off\"/><data:scalar name=\"D\"/><data:vector name=\"V\"/><data:scalar name=\"E\"/><data:vector name=\"F\"/>";
  for (const char *n : {"MA", "MB"})
    if (n[1] == 'A' || c.mapping)
      o << "<mesh name=\"" << n << "\" dimensions=\"" << c.dim << "\"><use-data name=\"D\"/><use-data name=\"V\"/><use-data name=\"E\"/><use-data name=\"F\"/></mesh>";
  o << "<participant name=\"A\"><provide-mesh name=\"MA\"/><write-data name=\"D\" mesh=\"MA\"/><write-data name=\"V\" mesh=\"MA\"/><read-data name=\"E\" mesh=\"MA\"/><read-data name=\"F\" mesh=\"MA\"/></participant><participant name=\"B\">";
  if (c.mapping)
    o << "<provide-mesh name=\"MB\"/>";
  o << "<receive-mesh name=\"MA\" from=\"A\" api-access=\"yes\" " << FILTER[c.filter] << "/>";
  if (c.mapping)
    o << "<mapping:nearest-neighbor direction=\"read\" from=\"MA\" to=\"MB\" constraint=\"consistent\"/><read-data name=\"V\" mesh=\"MB\"/>";
  o << "<read-data name=\"D\" mesh=\"MA\"/>" << (c.mapping ? "" : "<read-data name=\"V\" mesh=\"MA\"/>") << "<write-data name=\"E\" mesh=\"MA\"/><write-data name=\"F\" mesh=\"MA\"/></participant>"
    << "<m2n:sockets acceptor=\"A\" connector=\"B\" " << M2N[c.m2n] << "/><coupling-scheme:" << TAGS[c.scheme] << "><participants first=\"" << (c.aFirst ? "A" : "B") << "\" second=\"" << (c.aFirst ? "B" : "A") << "\"/><max-time-windows value=\"" << c.windows << "\"/><time-window-size value=\"1\"/>";
  for (const char *d : {"D", "V"})
    o << "<exchange data=\"" << d << "\" mesh=\"MA\" from=\"A\" to=\"B\" initialize=\"" << (c.initial ? "yes" : "no") << "\" substeps=\"" << (c.substeps ? "yes" : "no") << "\"/>";
  for (const char *d : {"E", "F"})
    o << "<exchange data=\"" << d << "\" mesh=\"MA\" from=\"B\" to=\"A\" substeps=\"" << (c.substeps ? "yes" : "no") << "\"/>";
  if (c.scheme >= 2)
    o << "<max-iterations value=\"2\"/>";
  o << "</coupling-scheme:" << TAGS[c.scheme] << "></precice-configuration>";
  return o.str();
}
std::string describe(const Case &c)
{
  std::ostringstream o;
  o << c.dim << "D " << TAGS[c.scheme] << (c.aFirst ? " A first " : " B first ") << M2N[c.m2n] << " " << FILTER[c.filter] << (c.mapping ? " with mapping" : "") << (c.initial ? " initial data" : "") << (c.partial ? " partial writes" : "") << (c.substeps ? " substeps" : "") << " steps " << c.steps << " ranks " << c.ranks[0] << "," << c.ranks[1] << " A on";
  for (auto m : c.where)
    o << " " << m;
  for (auto &b : c.box)
    o << " region " << (b.set ? verif::show(b.b) : "none");
  return o.str();
}
/// value of A at a copy of a vertex
double aValue(int rank, int v, int w, int it, int st, int comp) { return 1000 * (w + 1) + 100 * it + 300 * st + 20 * v + 5 * rank + comp + 0.25; }
double bValue(int rank, int j, int, int w, int it, int st, int comp) { return 1 + w * 3 + it * 0.5 + st * 1.75 + j * 7 + rank * 64 + comp * 0.125; }
} // namespace

int main(int argc, char **argv)
{
  Campaign c("C11", argc, argv);
  c.rule      = "a case is a mesh, its distribution, and access regions of the ranks; distinct by accessed vertices and values";
  c.technique = "explicit-state model of the accessible vertices and of the exchanged data; every configuration of the bounded space is executed on the implementation";
  Sched sched;
  RankLibs::get().load(c.lib, c.scratchDir(), 5, &sched);
  bool big = c.thorough();

  auto runCase = [&](CaseCtx &ctx, uint64_t i, const Case &k) {
    writeFile(ctx.dir + "/c.xml", xml(k));
    const int nr = k.ranks[0] + k.ranks[1], dim = k.dim, n = static_cast<int>(k.v.size());
    const bool parB = k.ranks[1] > 1;
    // is the configuration to be refused?
    bool anyVertex = false, refused = false, lenient = false;
    for (auto &b : k.box) {
            for (int v = 0; v < n; ++v)
        anyVertex = anyVertex || (b.set && b.contains(k.v[v], dim));
    }
    if (!parB && !k.mapping && (!k.box[0].set || k.box[0].point(dim)))
      refused = true; // empty bounding box
    if (!parB && k.mapping && (!k.box[0].set || k.box[0].point(dim)))
      lenient = true; // the single vertex of the mapping may form an empty box with it
    if (parB && !k.mapping && !anyVertex)
      (k.m2n == 1 ? lenient : refused) = true; // nothing to access at all
    if (k.m2n == 1 && k.filter == 2)
      refused = true;
    if (parB && k.mapping && !anyVertex)
      lenient = false;
    std::vector<std::string> bad(nr);
    struct Got {
      std::map<int, int> copies; ///< id -> index of copy
    };
    // copies of the vertices: (rank of A, vertex)
    std::vector<std::pair<int, int>> copies;
    for (int r = 0; r < k.ranks[0]; ++r)
      for (int v = 0; v < n; ++v)
        if (k.where[v] >> r & 1)
          copies.push_back({r, v});
    // which vertices a rank of B writes
    auto writes = [&](int r, int id) { return !k.partial || (id + r) % 2 == 0; };
    std::vector<std::map<int, std::map<int, VD>>> wrote(k.ranks[1]); // window and iteration -> id -> values
    std::vector<std::map<int, int>>               copyOfId(k.ranks[1]);
    std::vector<std::vector<std::pair<int, VD>>>           atA(k.ranks[0]); // (tag, values per local vertex E,F..)
    std::vector<char>                                      accessRefused(k.ranks[1], 0);
    uint64_t                                               digest = 3;
    bool implicit = k.scheme >= 2;
    Session                                                s(sched);
    // which iteration and window the data is from that a participant reads at the end of its step
    s.run(nr, [&](int slot, Api &a) {
      int  p = slot >= k.ranks[0], r = p ? slot - k.ranks[0] : slot;
      auto err = [&](const std::string &m) { if (bad[slot].empty()) bad[slot] = m; };
      a.create(p ? "B" : "A", ctx.dir + "/c.xml", r, k.ranks[p]);
      VI  ids;
      VI  mine; // A: vertices
      int mb = -1;
      if (!p) {
        for (int v = 0; v < n; ++v)
          if (k.where[v] >> r & 1) {
            ids.push_back(a.setMeshVertex("MA", VD(k.v[v].begin(), k.v[v].begin() + dim)));
            mine.push_back(v);
          }
      } else {
        if (k.box[r].set)
          a.setMeshAccessRegion("MA", k.box[r].b);
        if (k.mapping) {
          mb = r % n;
          a.setMeshVertex("MB", VD(k.v[mb].begin(), k.v[mb].begin() + dim));
        }
      }
      auto writeA = [&](int w, int it, int st) {
        VD d, e;
        for (int v : mine) {
          d.push_back(aValue(r, v, w, it, st, 0));
          for (int x = 0; x < dim; ++x)
            e.push_back(aValue(r, v, w, it, st, 1 + x));
        }
        a.writeData("MA", "D", ids, d);
        a.writeData("MA", "V", ids, e);
      };
      if (a.requiresInitialData()) {
        if (p)
          err("initial data requested");
        else
          writeA(-1, 0, 0);
      }
      a.initialize();
      std::map<int, int> copyOf; // id of B -> copy
      int                size = 0;
      if (p) {
        // the accessible vertices
        std::multiset<std::vector<double>> want;
        bool                               all = !k.box[r].set;
        for (auto &cp : copies)
          if (all || k.box[r].contains(k.v[cp.second], dim))
            want.insert(VD(k.v[cp.second].begin(), k.v[cp.second].begin() + dim));
        try {
          size = a.getMeshVertexSize("MA");
        } catch (const ApiError &) {
          if (k.box[r].set || !parB)
            throw;
          accessRefused[r] = 1;
          throw;
        }
        if (all && parB)
          err("access without a region is not refused");
        VD x(size * dim);
        ids.resize(size);
        a.getMeshVertexIDsAndCoordinates("MA", ids, x);
        std::multiset<std::vector<double>> have;
        for (int j = 0; j < size; ++j)
          have.insert(VD(x.begin() + j * dim, x.begin() + (j + 1) * dim));
        if (have != want)
          err("accesses " + std::to_string(have.size()) + " vertices, expected " + std::to_string(want.size()));
        if (std::set<int>(ids.begin(), ids.end()).size() != ids.size())
          err("an id is not unique");
        // at the end of the first step it is clear which copy is which
        for (int j = 0; j < size; ++j) {
          copyOf[ids[j]] = -1;
          for (size_t q = 0; q < copies.size(); ++q)
            if (VD(k.v[copies[q].second].begin(), k.v[copies[q].second].begin() + dim) == VD(x.begin() + j * dim, x.begin() + (j + 1) * dim) && copyOf[ids[j]] < 0)
              copyOf[ids[j]] = static_cast<int>(q); // some copy at this position
        }
      }
      // B reads and finds out which value it sees: (window, iteration, step)
      auto readB = [&](double t, int w, int it, int st, bool zero) {
        VD d = a.readData("MA", "D", ids, t, size), e;
        if (!k.mapping)
          e = a.readData("MA", "V", ids, t, size * dim);
        std::set<int> used;
        for (int j = 0; j < size; ++j) {
          int found = -1;
          int pos   = copies[copyOf[ids[j]]].second;
          for (size_t q = 0; q < copies.size(); ++q) {
            if (k.v[copies[q].second] != k.v[pos] || used.count(static_cast<int>(q)))
              continue;
            bool ok = zero ? d[j] == 0 : close(d[j], aValue(copies[q].first, copies[q].second, w, it, st, 0));
            for (int x = 0; x < dim && !k.mapping; ++x)
              ok = ok && (zero ? e[j * dim + x] == 0 : close(e[j * dim + x], aValue(copies[q].first, copies[q].second, w, it, st, 1 + x)));
            if (ok)
              found = static_cast<int>(q);
            if (ok)
              break;
          }
          if (found < 0) {
            err("reads " + num(d[j]) + " at the vertex with id " + std::to_string(ids[j]) + " in window " + std::to_string(w) + " iteration " + std::to_string(it) + " time " + num(t));
            continue;
          }
          used.insert(found);
          if (!zero)
            copyOf[ids[j]] = found;
        }
        if (k.mapping) {
          VD m = a.readData("MB", "V", {0}, t, dim);
          bool any = false;
          for (auto &cp : copies) {
            bool ok = k.v[cp.second] == k.v[mb];
            for (int x = 0; x < dim; ++x)
              ok = ok && (zero ? m[x] == 0 : close(m[x], aValue(cp.first, cp.second, w, it, st, 1 + x)));
            any = any || ok;
          }
          if (!any)
            err("the mapped value is " + num(m[0]));
        }
      };
      for (int w = 0; a.isCouplingOngoing(); ++w)
        for (int it = 0;; ++it) {
          if (implicit)
            a.requiresWritingCheckpoint();
          for (int st = 0; st < k.steps; ++st) {
            double dt = 1.0 / k.steps;
            if (p) {
              // the value at the end of the window
              bool first = !k.aFirst, serial = k.scheme % 2 == 0;
              int  rw = w, ri = it;
              bool last = true; // value at the end of a window of A
              if (!serial || first) { // data of the previous window or iteration
                if (it > 0)
                  ri = it - 1;
                else {
                  rw = w - 1;
                  ri = implicit ? 1 : 0;
                }
              }
              if (rw < 0)
                ri = 0, last = false;
              if (st == 0)
                readB(a.getMaxTimeStepSize(), rw, ri, last ? k.steps - 1 : 0, rw < 0 && !k.initial);
              VD e, f;
              VI to;
              for (int j = 0; j < size; ++j) {
                if (!writes(r, ids[j]))
                  continue;
                to.push_back(ids[j]);
                e.push_back(bValue(r, j, 0, w, it, st, 0));
                VD v = {e.back()};
                for (int x = 0; x < dim; ++x) {
                  f.push_back(bValue(r, j, 0, w, it, st, 1 + x));
                  v.push_back(f.back());
                }
                wrote[r][w * 10 + it][ids[j]] = v;
              }
              a.writeData("MA", "E", to, e);
              a.writeData("MA", "F", to, f);
            } else {
              if (st == 0) {
                VD e = a.readData("MA", "E", ids, a.getMaxTimeStepSize(), static_cast<int>(ids.size()));
                VD f = a.readData("MA", "F", ids, a.getMaxTimeStepSize(), static_cast<int>(ids.size()) * dim);
                VD all;
                for (size_t j = 0; j < ids.size(); ++j) {
                  all.push_back(e[j]);
                  all.insert(all.end(), f.begin() + j * dim, f.begin() + (j + 1) * dim);
                }
                atA[r].push_back({w * 10 + it, all});
              }
              writeA(w, it, st);
            }
            a.advance(dt);
          }
          if (implicit && !a.isTimeWindowComplete()) {
            a.requiresReadingCheckpoint();
            continue;
          }
          break;
        }
      if (p)
        copyOfId[r] = copyOf;
      a.finalize();
      a.destroy();
    },
          policy(i));
    ctx.taint = s.anyError();
    bool denied = false;
    for (auto x : accessRefused)
      denied = denied || x;
    if (denied) { // a rank without region was refused the access, its peers lose the connection
      ctx.count("refused access");
      return;
    }
    if (refused || (lenient && s.anyError())) {
      ctx.count("refused");
      if (refused)
        ctx.require(s.anyError(), "refusal", [&] { return describe(k) + ": is not refused"; });
      return;
    }
    if (!s.clean(ctx, describe(k)))
      return;
    for (int x = 0; x < nr; ++x)
      if (!bad[x].empty())
        ctx.fail("access", describe(k) + ": slot " + std::to_string(x) + " " + bad[x]);
    // what A has to get: the sum over the ranks of B
    for (int r = 0; r < k.ranks[0]; ++r) {
      VI mine;
      for (int v = 0; v < n; ++v)
        if (k.where[v] >> r & 1)
          mine.push_back(v);
      for (auto &g : atA[r]) {
        int  w = g.first / 10, it = g.first % 10;
        bool serial = k.scheme % 2 == 0;
        int  rw = w, ri = it;
        if (!serial || k.aFirst) {
          if (it > 0)
            ri = it - 1;
          else {
            rw = w - 1;
            ri = implicit ? 1 : 0;
          }
        }
        for (size_t j = 0; j < mine.size(); ++j) {
          VD want(1 + dim, 0.0);
          if (rw >= 0)
            for (int b = 0; b < k.ranks[1]; ++b) {
              int q = 0;
              while (copies[q] != std::make_pair(r, mine[j]))
                ++q;
              for (auto &id : copyOfId[b])
                if (id.second == q && wrote[b][rw * 10 + ri].count(id.first))
                  for (int x = 0; x <= dim; ++x)
                    want[x] += wrote[b][rw * 10 + ri][id.first][x];
            }
          for (int x = 0; x <= dim; ++x) {
            double got = g.second[j * (1 + dim) + x];
            digest     = mix(digest, got);
            if (!close(got, want[x]))
              ctx.fail("write", describe(k) + ": rank " + std::to_string(r) + " of A reads " + num(got) + " component " + std::to_string(x) + " at vertex " + std::to_string(mine[j]) + " in window " + std::to_string(w) + " iteration " + std::to_string(it) + ", written was " + num(want[x]));
          }
        }
      }
    }
    ctx.count("accessed");
    ctx.state(digest);
    ctx.outcome(digest);
    ctx.observe(digest);
  };
  const std::vector<Vec> V2 = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {1, 1, 0}, {2, 0.5, 0}}, V3 = {{0, 0, 0}, {1, 0, 0.5}, {0, 1, 1}, {1, 1, 1}};
  const std::vector<Vec> V2c = {{0, 0, 0}, {1, 0, 0}, {1, 0, 0}, {1, 1, 0}}; // coincident vertices
  const std::vector<Box> B2 = {{true, {-1, 3, -1, 3}}, {true, {0, 1, 0, 0.5}}, {true, {1, 2, 0.5, 1}}, {true, {0, 0, 0, 1}}, {true, {0.25, 0.75, 0, 1}}, {false, {}}, {true, {1, 1, 0, 0}}, {true, {5, 6, 5, 6}}, {true, {0.5, 1.5, -0.5, 0.75}}};
  const std::vector<Box> B3 = {{true, {-1, 3, -1, 3, -1, 3}}, {true, {0, 1, 0, 1, 0, 0.5}}, {true, {0, 1, 1, 1, 1, 1}}, {true, {0, 1, 0, 1, 0.25, 0.4}}, {false, {}}, {true, {0, 0, 0, 0, 0, 0}}};
  struct P {
    int                   dim, ranksA, mesh;
    std::vector<unsigned> where;
    VI                    box;
  };
  auto all = [&](int maxB, int nb2, int nb3) {
    std::vector<P> r;
    std::vector<P> base = {
        {2, 1, 0, {1, 1, 1, 1, 1}, {}},
        {2, 2, 0, {1, 1, 2, 2, 2}, {}},
        {2, 2, 0, {1, 2, 1, 2, 3}, {}},
        {2, 2, 0, {1, 3, 3, 2, 2}, {}},
        {2, 2, 0, {2, 2, 2, 2, 2}, {}},
        {2, 2, 1, {1, 3, 2, 2}, {}},
        {2, 1, 1, {1, 1, 1, 1}, {}},
        {3, 1, 0, {1, 1, 1, 1}, {}},
        {3, 2, 0, {1, 3, 2, 2}, {}},
    };
    for (auto &b : base)
      for (int n = 1; n <= maxB; ++n) {
        int nb = b.dim == 2 ? nb2 : nb3, total = 1;
        for (int j = 0; j < n; ++j)
          total *= nb;
        for (int x = 0; x < total; ++x) {
          P p = b;
          for (int j = 0, y = x; j < n; ++j, y /= nb)
            p.box.push_back(y % nb);
          r.push_back(p);
        }
      }
    return r;
  };
  auto make = [=](const P &p) {
    Case k;
    k.dim      = p.dim;
    k.v        = p.dim == 3 ? V3 : p.mesh ? V2c : V2;
    k.where    = p.where;
    k.ranks[0] = p.ranksA;
    k.ranks[1] = static_cast<int>(p.box.size());
    for (int b : p.box)
      k.box.push_back(p.dim == 3 ? B3[b] : B2[b]);
    return k;
  };
  auto stage = [&](const char *name, uint64_t n, auto mk) {
    auto get = [=](uint64_t i) {
      Case k = mk(i);
      // two-level initialization needs two parallel participants; three ranks: see the finding of C01
      if (k.ranks[0] == 1 || k.ranks[1] == 1 || k.ranks[1] > 2)
        k.m2n = k.m2n == 1 ? 0 : k.m2n;
      return k;
    };
    c.stage(name, n, [=](uint64_t i) { return describe(get(i)); }, [=](CaseCtx &ctx, uint64_t i) { runCase(ctx, i, get(i)); });
  };
  {
    auto ps = all(2, 9, 6);
    stage("regions", ps.size() * 3 * 2 * 2, [=](uint64_t i) {
      Digits d(i);
      int    m2n = d(3), mapping = d(2), sch = d(2);
      Case   k  = make(ps[d.rest()]);
      k.m2n     = m2n;
      k.mapping = mapping;
      k.scheme  = sch;
      k.aFirst  = i % 5 < 3;
      k.initial = i % 3 == 0;
      k.partial = i % 7 < 3;
      return k;
    });
  }
  {
    auto ps = all(3, big ? 9 : 5, big ? 6 : 4);
    std::vector<P> three;
    for (auto &p : ps)
      if (p.box.size() == 3)
        three.push_back(p);
    stage("three", three.size() * (big ? 3 : 1), [=](uint64_t i) {
      Case k    = make(three[big ? i / 3 : i]);
      k.m2n     = i % 3;
      k.mapping = i % 2;
      k.scheme  = i % 4 < 2;
      k.aFirst  = i % 5 < 3;
      k.partial = i % 7 < 3;
      return k;
    });
  }
  {
    auto ps = all(2, 4, 3);
    stage("schemes", ps.size() * 4 * 2 * 2, [=](uint64_t i) {
      Digits d(i);
      int    sch = d(4), first = d(2), sub = d(2);
      Case   k   = make(ps[d.rest()]);
      k.scheme   = sch;
      k.aFirst   = first;
      k.substeps = sub;
      k.steps    = 1 + i % 2;
      k.initial  = i % 3 == 0;
      k.mapping  = i % 5 == 0;
      k.partial  = i % 7 < 3;
      k.m2n      = i % 3;
      return k;
    });
    stage("filter", ps.size() * 4 * 3 * 2, [=](uint64_t i) {
      Digits d(i);
      int    f = d(4), m = d(3), map = d(2);
      Case   k  = make(ps[d.rest()]);
      k.filter  = f;
      k.m2n     = m;
      k.mapping = map;
      k.partial = i % 7 < 3;
      return k;
    });
  }
  return c.finish();
}
