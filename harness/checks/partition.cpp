// C10: mapped values do not depend on how the meshes are partitioned
#include "../src/maprun.hpp"
using namespace verif;

namespace {
const std::vector<Vec> S2 = {{0, 0, 0}, {1, 0.1, 0}, {0.2, 1, 0}, {1.1, 1.2, 0}, {2, 0.4, 0}};
const std::vector<Vec> T2 = {{0.15, 0.12, 0}, {0.93, 0.38, 0}, {0.31, 0.83, 0}, {1.52, 0.71, 0}, {0.61, 0.57, 0}};
const std::vector<Vec> S3 = {{0, 0, 0}, {1, 0.1, 0.05}, {0.2, 1, -0.1}, {0.3, 0.25, 1}, {1.1, 0.9, 0.8}};
const std::vector<Vec> T3 = {{0.15, 0.12, 0.17}, {0.93, 0.78, 0.21}, {0.31, 0.83, 0.05}, {0.52, 0.41, 0.47}, {0.31, 0.27, 0.81}};

using RowsOf = std::function<std::vector<Row>(const Geo &, const Vec &)>;
struct Case {
  MapCase k;
  int     method = 0, filter = 0, m2n = 0;
  Geo     search; ///< the mesh with connectivity
};
const char  *FILTER[] = {"safety-factor=\"8\"", "", "geometric-filter=\"no-filter\"", "geometric-filter=\"on-primary-rank\" safety-factor=\"8\"", "safety-factor=\"0.1\"", "geometric-filter=\"on-primary-rank\" safety-factor=\"0\"", "safety-factor=\"0\"", "safety-factor=\"1\""};
const double FACTOR[] = {8, 0.5, -1, 8, 0.1, 0, 0, 1};
const char  *M2N[]    = {"", "use-two-level-initialization=\"on\"", "enforce-gather-scatter=\"on\""};

template <typename P>
bool allOf(const P &p, const std::vector<bool> &keep)
{
  for (int i : p)
    if (!keep[i])
      return false;
  return true;
}
/// rows of a point over the part of the mesh that is kept; primitives must be complete on one rank of their provider
std::vector<Row> rowsIn(const Geo &g, const std::vector<unsigned> &rank, const std::vector<bool> &keep, const Vec &p, const RowsOf &f)
{
  Geo              h;
  std::vector<int> to(g.n(), -1), back;
  h.dim = g.dim;
  for (int i = 0; i < g.n(); ++i)
    if (keep[i]) {
      to[i] = h.n();
      h.v.push_back(g.v[i]);
      back.push_back(i);
    }
  auto take = [&](auto &from, auto &into) {
    for (auto q : from) {
      unsigned m = ~0u;
      for (int i : q)
        m &= rank[i];
      if (m == 0 || !allOf(q, keep))
        continue;
      for (auto &x : q)
        x = to[x];
      into.push_back(q);
    }
  };
  // faces and edges of primitives that are cut by the filter stay
  Geo all = g;
  std::vector<std::array<int, 4>> tets(g.tets);
  take(tets, h.tets);
  auto sub = [&](const std::vector<std::array<int, 4>> &ts, const std::vector<std::array<int, 3>> &tr) {
    Geo x;
    x.dim  = g.dim;
    x.v    = g.v;
    for (auto &t : ts) {
      unsigned m = ~0u;
      for (int i : t)
        m &= rank[i];
      if (m)
        x.tets.push_back(t);
    }
    for (auto &t : tr) {
      unsigned m = ~0u;
      for (int i : t)
        m &= rank[i];
      if (m)
        x.tris.push_back(t);
    }
    return x;
  };
  Geo                             x    = sub(g.tets, g.tris);
  auto                            trSet = x.allTris();
  std::vector<std::array<int, 3>> tris(trSet.begin(), trSet.end());
  take(tris, h.tris);
  x.edges                              = {};
  auto                            eSet = x.allEdges();
  std::vector<std::array<int, 2>> edges(eSet.begin(), eSet.end());
  edges.insert(edges.end(), g.edges.begin(), g.edges.end());
  take(edges, h.edges);
  std::vector<Row> out;
  for (auto &r : f(h, p)) {
    Row w(g.n(), 0.0);
    for (size_t i = 0; i < r.size(); ++i)
      w[back[i]] = r[i];
    out.push_back(w);
  }
  return out;
}
} // namespace

int main(int argc, char **argv)
{
  Campaign c("C10", argc, argv);
  c.rule = "a case distributes the vertices of two meshes over ranks; distinct by the mapped values";
  Sched sched;
  RankLibs::get().load(c.lib, c.scratchDir(), 6, &sched);
  bool big = c.thorough();
  const std::vector<std::pair<const char *, RowsOf>> methods = {{"nearest-neighbor", rowsNN}, {"nearest-projection", rowsNP}, {"linear-cell-interpolation", rowsLCI}};

  auto body = [&](CaseCtx &ctx, uint64_t i, Case &cs) {
    MapCase &k    = cs.k;
    bool     cons = k.constraint == "conservative";
    // the participant that maps: provides `query`, receives `search`
    const Geo                   &query = cons ? k.in : k.out, &search = cons ? k.out : k.in;
    const std::vector<unsigned> &qr = cons ? k.inRank : k.outRank, &sr = cons ? k.outRank : k.inRank;
    int                          nq = cons ? k.ra : k.rb;
    bool                         expectError = false;
    // which part of the received mesh a rank keeps
    std::vector<std::vector<bool>> keep(nq, std::vector<bool>(search.n(), true));
    for (int r = 0; r < nq && nq > 1; ++r) {
      Vec  lo{1e300, 1e300, 1e300}, hi{-1e300, -1e300, -1e300};
      bool any = false;
      for (int j = 0; j < query.n(); ++j)
        if (qr[j] >> r & 1) {
          any = true;
          for (int x = 0; x < 3; ++x)
            lo[x] = std::min(lo[x], query.v[j][x]), hi[x] = std::max(hi[x], query.v[j][x]);
        }
      if (!any || (FACTOR[cs.filter] < 0 && cs.m2n != 1))
        continue;
      double l = 0;
      for (int x = 0; x < query.dim; ++x)
        l = std::max(l, hi[x] - lo[x]);
      bool left = false;
      std::vector<bool> connected(k.ra + k.rb, true);
      if (cs.m2n == 1) // two-level initialization only connects ranks with overlapping boxes
        for (int s = 0; s < (cons ? k.rb : k.ra); ++s) {
          Vec  slo{1e300, 1e300, 1e300}, shi{-1e300, -1e300, -1e300};
          bool sany = false;
          for (int j = 0; j < search.n(); ++j)
            if (sr[j] >> s & 1) {
              sany = true;
              for (int x = 0; x < 3; ++x)
                slo[x] = std::min(slo[x], search.v[j][x]), shi[x] = std::max(shi[x], search.v[j][x]);
            }
          double f     = FACTOR[cs.filter] < 0 ? 0.5 : FACTOR[cs.filter];
          connected[s] = sany;
          for (int x = 0; x < query.dim; ++x)
            connected[s] = connected[s] && shi[x] >= lo[x] - f * l && slo[x] <= hi[x] + f * l;
        }
      for (int j = 0; j < search.n(); ++j) {
        bool in = false;
        for (int s = 0; s < (cons ? k.rb : k.ra); ++s)
          in = in || (connected[s] && sr[j] >> s & 1);
        for (int x = 0; x < query.dim && FACTOR[cs.filter] >= 0; ++x)
          in = in && search.v[j][x] >= lo[x] - FACTOR[cs.filter] * l && search.v[j][x] <= hi[x] + FACTOR[cs.filter] * l;
        keep[r][j] = in;
        left       = left || in;
      }
      if (!left)
        expectError = true;
    }
    if (cs.m2n == 1 && (cs.filter == 3 || cs.filter == 5))
      expectError = true; // on-primary-rank is refused
    auto r = runMap(sched, ctx, k, policy(i), !expectError);
    if (expectError) {
      ctx.count("filtered out");
      ctx.require(!r.ok, "filter", [&] { return describe(k) + ": a mesh that is filtered out completely is not reported"; });
      return;
    }
    if (!r.ok)
      return;
    ctx.count("mapped");
    if (!cons) {
      for (size_t o = 0; o < r.vertex.size(); ++o) {
        int  v    = r.vertex[o];
        int  copy = 0;
        for (size_t q = 0; q < o; ++q)
          copy += r.vertex[q] == v;
        int rank = 0;
        for (int s = copy;; ++rank)
          if (qr[v] >> rank & 1 && s-- == 0)
            break;
        auto rows = rowsIn(search, sr, keep[rank], query.v[v], methods[cs.method].second);
        bool any  = false;
        std::string exp;
        for (auto &row : rows) {
          bool all = true;
          for (size_t w = 0; w < r.got.size(); ++w)
            for (int q = 0; q <= k.in.dim; ++q) {
              double e = 0;
              for (size_t j = 0; j < row.size(); ++j)
                e += row[j] * k.values[w][q][j];
              all = all && close(r.got[w][q][o], e, 1e-10);
              if (q == 0)
                exp += " " + num(e);
            }
          any = any || all;
        }
        ctx.observe(r.got[0][0][o]);
        if (!any) {
          ctx.fail("value", describe(k) + ": value at output vertex " + std::to_string(v) + " on rank " + std::to_string(rank) + " is " + num(r.got[0][0][o]) + " " + num(r.got[1][0][o]) + ", expected" + exp);
          return;
        }
      }
    } else {
      std::vector<Row> rows(query.n(), Row(search.n(), 0.0));
      for (int j = 0; j < query.n(); ++j)
        for (int rk = 0; rk < nq; ++rk)
          if (qr[j] >> rk & 1) {
            auto rr = rowsIn(search, sr, keep[rk], query.v[j], methods[cs.method].second);
            if (rr.size() != 1)
              return;
            rows[j] = rr[0];
          }
      matchTransposed(ctx, k, r, rows);
    }
    ctx.outcome(ctx.digest);
  };
  auto filters  = [big](int dim) { return dim == 3 && !big ? std::vector<int>{1, 2} : std::vector<int>{0, 1, 2, 3, 4, 5}; };
  auto geometry = [&](Case &cs, int dim, int ns, int nt, int conn, bool cons) {
    Geo s, t;
    s.dim = t.dim = dim;
    s.v.assign((dim == 2 ? S2 : S3).begin(), (dim == 2 ? S2 : S3).begin() + ns);
    t.v.assign((dim == 2 ? T2 : T3).begin(), (dim == 2 ? T2 : T3).begin() + nt);
    if (conn == 1) {
      s.edges = {{0, 1}, {2, 3}};
      s.tris  = {{0, 1, 2}};
    } else if (conn == 2) {
      s.tris = {{0, 1, 2}};
      if (ns > 3)
        s.tris.push_back({1, 2, 3});
      if (ns > 4)
        s.edges = {{3, 4}, {4, 1}};
      if (dim == 3 && ns > 3)
        s.tets = {{0, 1, 2, 3}};
    }
    cs.search = s;
    cs.k.in   = cons ? t : s;
    cs.k.out  = cons ? s : t;
  };
  /// ranks: number of ranks of the mapping participant and of its partner
  auto make = [&](uint64_t i, int dim, int nm, int np, int ns, int nt, bool shared) {
    Digits d(i);
    Case   cs;
    cs.method  = d(3);
    bool cons  = shared ? false : d(2);
    cs.filter  = filters(dim)[d(filters(dim).size())];
    cs.m2n     = d(nm > 1 && np > 1 ? 3 : 2);
    if ((nm == 1 || np == 1) && cs.m2n == 1)
      cs.m2n = 2;
    int conn = cs.method == 0 ? 0 : 2;
    std::vector<unsigned> qr, sr;
    for (int j = 0; j < nt; ++j)
      qr.push_back(1u << d(nm));
    for (int j = 0; j < ns; ++j)
      sr.push_back(shared ? 1 + d((1 << np) - 1) : 1u << d(np));
    geometry(cs, dim, ns, nt, conn, cons);
    cs.k.tag        = methods[cs.method].first;
    cs.k.constraint = cons ? "conservative" : "consistent";
    cs.k.read       = !cons;
    (cons ? cs.k.inRank : cs.k.outRank) = qr;
    (cons ? cs.k.outRank : cs.k.inRank) = sr;
    cs.k.ra        = cons ? nm : np;
    cs.k.rb        = cons ? np : nm;
    cs.k.recvAttrs = FILTER[cs.filter];
    cs.k.m2n       = M2N[cs.m2n];
    cs.k.style     = i % 8;
    fillGeneric(cs.k);
    return cs;
  };
  auto power = [](uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; };
  auto stage = [&](const std::string &name, int dim, int nm, int np, int ns, int nt, bool shared) {
    uint64_t n = 3 * (shared ? 1 : 2) * filters(dim).size() * (nm > 1 && np > 1 ? 3 : 2) * power(nm, nt) * power(shared ? (1 << np) - 1 : np, ns);
    c.stage(
        name, n, [=](uint64_t i) { return describe(make(i, dim, nm, np, ns, nt, shared).k); },
        [&, dim, nm, np, ns, nt, shared](CaseCtx &ctx, uint64_t i) {
          Case cs = make(i, dim, nm, np, ns, nt, shared);
          // the same distribution with the ranks renamed on the partner's side is not repeated
          body(ctx, i, cs);
        });
  };
  stage("serial-parallel", 2, 1, 2, 4, 4, false);
  stage("parallel-serial", 2, 2, 1, 4, 4, false);
  stage("two-two", 2, 2, 2, 4, big ? 3 : 2, false);
  {
    // boxes that touch each other, vertices on the boundary of boxes
    auto touching = [=](uint64_t i) {
      Digits d(i);
      Case   cs;
      bool   cons = d(2);
      cs.filter   = d.pick(std::vector<int>{6, 7, 5});
      cs.m2n      = cs.filter == 5 ? 0 : d(2);
      Geo s, t;
      s.dim = t.dim = 2;
      s.v           = {{0, 0, 0}, {1, 1, 0}, {2, 2, 0}, {1, 0, 0}};
      t.v           = {{0, 0, 0}, {1, 0.75, 0}, {1, 1, 0}, {2, 1.25, 0}};
      std::vector<unsigned> qr, sr;
      for (int j = 0; j < 4; ++j)
        qr.push_back(1u << d(2)), sr.push_back(1u << d(2));
      cs.search                           = s;
      cs.k.in                             = cons ? t : s;
      cs.k.out                            = cons ? s : t;
      cs.k.constraint                     = cons ? "conservative" : "consistent";
      cs.k.read                           = !cons;
      (cons ? cs.k.inRank : cs.k.outRank) = qr;
      (cons ? cs.k.outRank : cs.k.inRank) = sr;
      cs.k.ra = cs.k.rb = 2;
      cs.k.recvAttrs    = FILTER[cs.filter];
      cs.k.m2n          = M2N[cs.m2n];
      fillGeneric(cs.k);
      return cs;
    };
    c.stage(
        "touching", 2 * 3 * 2 * 256, [=](uint64_t i) { return describe(touching(i).k); },
        [&, touching](CaseCtx &ctx, uint64_t i) {
          Case cs = touching(i);
          body(ctx, i, cs);
        });
  }
  {
    // several mappings with different meshes of one participant on one received mesh: the kept part is the union of their boxes
    struct Multi {
      int                   kinds = 0, filter = 0, m2n = 0, ra = 1, method = 0;
      std::vector<unsigned> ar, q1, q2;
    };
    const Geo  ga{2, {{0, 0, 0}, {1, 0.25, 0}, {2, 0.5, 0}, {3.25, 0.25, 0}}};
    const Geo  gq[2] = {Geo{2, {{0.1, 0.1, 0}, {0.75, 0.5, 0}}}, Geo{2, {{2.25, 0.25, 0}, {2.875, 0.5, 0}}}};
    auto       decode = [=](uint64_t i, int ra) {
      Digits d(i);
      Multi  m;
      m.ra     = ra;
      m.kinds  = d(4);
      m.method = d(2);
      m.filter = d.pick(big || ra == 1 ? std::vector<int>{1, 4, 6, 0, 2, 5} : std::vector<int>{1, 4, 2});
      m.m2n    = ra > 1 ? d(3) : d(2) * 2;
      for (int j = 0; j < 2; ++j)
        m.q1.push_back(1u << d(2)), m.q2.push_back(1u << d(2));
      int dist = ra == 1 ? 0 : big ? d(16) : d.pick(std::vector<int>{0b1100, 0b0110, 0b1000});
      for (int j = 0; j < 4; ++j)
        m.ar.push_back(1u << (dist >> j & 1));
      return m;
    };
    auto describeMulti = [=](const Multi &m) {
      std::ostringstream o;
      o << "mesh MA with " << (m.kinds & 1 ? "write" : "read") << " mapping of M1 and " << (m.kinds & 2 ? "write" : "read") << " mapping of M2 (" << (m.method ? "nearest-projection" : "nearest-neighbor") << ") " << FILTER[m.filter] << " " << M2N[m.m2n] << " ranks A ";
      for (auto r : m.ar)
        o << r;
      o << " M1 ";
      for (auto r : m.q1)
        o << r;
      o << " M2 ";
      for (auto r : m.q2)
        o << r;
      return o.str();
    };
    auto bodyMulti = [&, ga, gq, describeMulti](CaseCtx &ctx, uint64_t i, const Multi &m) {
      const std::vector<unsigned> *qr[2] = {&m.q1, &m.q2};
      const char                  *tag   = m.method ? "nearest-projection" : "nearest-neighbor";
      double                       f     = FACTOR[m.filter];
      bool                         expectError = m.m2n == 1 && m.filter == 5;
      Geo                          a           = ga;
      if (m.method)
        a.edges = {{0, 1}, {1, 2}, {2, 3}};
      std::vector<std::vector<bool>> keep(2, std::vector<bool>(4, true));
      for (int r = 0; r < 2; ++r) {
        Vec  lo{1e300, 1e300, 0}, hi{-1e300, -1e300, 0};
        bool any = false;
        if (f < 0 && m.m2n != 1)
          continue;
        double ff = f < 0 ? 0.5 : f;
        for (int q = 0; q < 2; ++q) {
          Vec  l{1e300, 1e300, 0}, h{-1e300, -1e300, 0};
          bool have = false;
          for (int j = 0; j < 2; ++j)
            if ((*qr[q])[j] >> r & 1) {
              have = true;
              for (int x = 0; x < 2; ++x)
                l[x] = std::min(l[x], gq[q].v[j][x]), h[x] = std::max(h[x], gq[q].v[j][x]);
            }
          if (!have)
            continue;
          any      = true;
          double e = std::max(h[0] - l[0], h[1] - l[1]);
          for (int x = 0; x < 2; ++x)
            lo[x] = std::min(lo[x], l[x] - ff * e), hi[x] = std::max(hi[x], h[x] + ff * e);
        }
        if (!any)
          continue;
        std::vector<bool> connected(m.ra, true);
        if (m.m2n == 1)
          for (int s = 0; s < m.ra; ++s) {
            Vec  l{1e300, 1e300, 0}, h{-1e300, -1e300, 0};
            bool have = false;
            for (int j = 0; j < 4; ++j)
              if (m.ar[j] >> s & 1) {
                have = true;
                for (int x = 0; x < 2; ++x)
                  l[x] = std::min(l[x], a.v[j][x]), h[x] = std::max(h[x], a.v[j][x]);
              }
            connected[s] = have && h[0] >= lo[0] && l[0] <= hi[0] && h[1] >= lo[1] && l[1] <= hi[1];
          }
        bool left = false;
        for (int j = 0; j < 4; ++j) {
          bool in = false;
          for (int s = 0; s < m.ra; ++s)
            in = in || (connected[s] && m.ar[j] >> s & 1);
          for (int x = 0; x < 2 && f >= 0; ++x)
            in = in && a.v[j][x] >= lo[x] && a.v[j][x] <= hi[x];
          keep[r][j] = in;
          left       = left || in;
        }
        if (!left)
          expectError = true;
      }
      std::ostringstream o;
      o << "<precice-configuration><log enabled=\"false\"/><profiling mode=\"off\"/><data:scalar name=\"D1\"/><data:scalar name=\"D2\"/>"
        << "<mesh name=\"MA\" dimensions=\"2\"><use-data name=\"D1\"/><use-data name=\"D2\"/></mesh><mesh name=\"M1\" dimensions=\"2\"><use-data name=\"D1\"/></mesh><mesh name=\"M2\" dimensions=\"2\"><use-data name=\"D2\"/></mesh>"
        << "<participant name=\"A\"><provide-mesh name=\"MA\"/>";
      for (int q = 0; q < 2; ++q)
        o << "<" << (m.kinds >> q & 1 ? "read" : "write") << "-data name=\"D" << q + 1 << "\" mesh=\"MA\"/>";
      o << "</participant><participant name=\"B\"><provide-mesh name=\"M1\"/><provide-mesh name=\"M2\"/><receive-mesh name=\"MA\" from=\"A\" " << FILTER[m.filter] << "/>";
      for (int q = 0; q < 2; ++q) {
        bool w = m.kinds >> q & 1;
        o << "<" << (w ? "write" : "read") << "-data name=\"D" << q + 1 << "\" mesh=\"M" << q + 1 << "\"/>";
        if (w)
          o << "<mapping:" << tag << " direction=\"write\" from=\"M" << q + 1 << "\" to=\"MA\" constraint=\"conservative\"/>";
        else
          o << "<mapping:" << tag << " direction=\"read\" from=\"MA\" to=\"M" << q + 1 << "\" constraint=\"consistent\"/>";
      }
      o << "</participant><m2n:sockets acceptor=\"A\" connector=\"B\" " << M2N[m.m2n] << "/><coupling-scheme:parallel-explicit><participants first=\"A\" second=\"B\"/><max-time-windows value=\"2\"/><time-window-size value=\"1\"/>";
      for (int q = 0; q < 2; ++q)
        o << "<exchange data=\"D" << q + 1 << "\" mesh=\"MA\" from=\"" << (m.kinds >> q & 1 ? "B" : "A") << "\" to=\"" << (m.kinds >> q & 1 ? "A" : "B") << "\"/>";
      o << "</coupling-scheme:parallel-explicit></precice-configuration>";
      writeFile(ctx.dir + "/c.xml", o.str());
      std::vector<double> atA[2] = {std::vector<double>(4, 0.0), std::vector<double>(4, 0.0)};
      double              atB[2][2] = {};
      Session             s(sched);
      s.run(m.ra + 2, [&](int slot, Api &api) {
        bool p = slot >= m.ra;
        int  r = p ? slot - m.ra : slot;
        api.create(p ? "B" : "A", ctx.dir + "/c.xml", r, p ? 2 : m.ra);
        std::vector<std::vector<int>> mine;
        if (!p)
          mine.push_back(defineMesh(api, "MA", a, m.ar, r, i % 8));
        else
          for (int q = 0; q < 2; ++q)
            mine.push_back(defineMesh(api, q ? "M2" : "M1", gq[q], *qr[q], r, i % 8));
        api.initialize();
        for (int w = 0; w < 2; ++w) {
          for (int q = 0; q < 2; ++q) {
            bool  writes = p == bool(m.kinds >> q & 1);
            auto &own    = mine[p ? q : 0];
            std::string mesh = p ? (q ? "M2" : "M1") : "MA", data = q ? "D2" : "D1";
            std::vector<int> ids(own.size());
            for (size_t x = 0; x < ids.size(); ++x)
              ids[x] = x;
            if (writes) {
              std::vector<double> v;
              for (int x : own)
                v.push_back(generic(x, w, q));
              api.writeData(mesh, data, ids, v);
            } else if (w == 1) {
              auto v = api.readData(mesh, data, ids, 0, ids.size());
              for (size_t x = 0; x < ids.size(); ++x)
                (p ? atB[q][own[x]] : atA[q][own[x]]) = v[x];
            }
          }
          api.advance(1);
        }
        api.finalize();
        api.destroy(); }, policy(i));
      if (expectError) {
        ctx.taint = true;
        ctx.count("filtered out");
        ctx.require(s.anyError(), "filter", [&] { return describeMulti(m) + ": a mesh that is filtered out completely is not reported"; });
        return;
      }
      if (!s.clean(ctx, describeMulti(m)))
        return;
      ctx.count("mapped");
      for (int q = 0; q < 2; ++q) {
        std::vector<double> sum(4, 0.0);
        for (int j = 0; j < 2; ++j) {
          int  rank = (*qr[q])[j] >> 1 & 1;
          auto rows = rowsIn(a, m.ar, keep[rank], gq[q].v[j], m.method ? RowsOf(rowsNP) : RowsOf(rowsNN));
          if (rows.size() != 1)
            return;
          double e = 0;
          for (int x = 0; x < 4; ++x)
            e += rows[0][x] * generic(x, 0, q), sum[x] += rows[0][x] * generic(j, 0, q);
          if (!(m.kinds >> q & 1)) {
            ctx.observe(atB[q][j]);
            ctx.require(close(atB[q][j], e, 1e-10), "value", [&] { return describeMulti(m) + ": value at vertex " + std::to_string(j) + " of M" + std::to_string(q + 1) + " is " + num(atB[q][j]) + ", expected " + num(e); });
          }
        }
        if (m.kinds >> q & 1)
          for (int x = 0; x < 4; ++x) {
            ctx.observe(atA[q][x]);
            ctx.require(close(atA[q][x], sum[x], 1e-10), "value", [&] { return describeMulti(m) + ": value of D" + std::to_string(q + 1) + " at vertex " + std::to_string(x) + " of MA is " + num(atA[q][x]) + ", expected " + num(sum[x]); });
          }
      }
      ctx.outcome(ctx.digest);
    };
    for (int ra : {1, 2})
      c.stage(
          ra == 1 ? "two-mappings" : "two-mappings-parallel", ra == 1 ? 4 * 2 * 6 * 2 * 16 : big ? 4 * 2 * 6 * 3 * 16 * 16 : 4 * 2 * 3 * 3 * 16 * 3, [=](uint64_t i) { return describeMulti(decode(i, ra)); },
          [&, decode, bodyMulti, ra](CaseCtx &ctx, uint64_t i) {
            bodyMulti(ctx, i, decode(i, ra));
          });
  }
  stage("three-one", 2, 3, 1, 4, 3, false);
  stage("two-two-3d", 3, 2, 2, 4, big ? 3 : 2, false);
  stage("shared", 2, 2, 2, 3, big ? 3 : 2, true);
  if (big) {
    stage("two-two-5", 2, 2, 2, 5, 4, false);
    stage("three-two", 2, 3, 2, 4, 3, false);
    stage("two-three", 2, 2, 3, 4, 3, false);
    stage("three-three", 2, 3, 3, 4, 3, false);
    stage("shared-3d", 3, 2, 2, 4, 3, true);
    stage("shared-three", 2, 2, 3, 4, 3, true);
  }
  c.assumptions = {"2 participants of up to 3 ranks", "values where the bounding box with the configured safety factor cuts the mesh are those of the remaining mesh"};
  return c.finish();
}
