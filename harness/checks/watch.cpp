// C23: watch points and watch integrals
#include "../src/exports.hpp"
#include "../src/mapref.hpp"
#include "../src/session.hpp"
using namespace verif;

namespace {
using VI = std::vector<int>;
using VD = std::vector<double>;
struct Case {
  int                   scheme = 1; ///< serial/parallel explicit, serial/parallel implicit
  bool                  aFirst = true, initial = false, substeps = false, remesh = false, useless = false, shareName = false;
  int                   ranks = 1, windows = 2, iterations = 2, steps[2] = {1, 1};
  Geo                   geo[2]; ///< before and after remeshing
  std::vector<unsigned> where[2];
  int                   remeshAt = 1;
  std::vector<Vec>      points;
  std::string           what;
  int                   dim() const { return geo[0].dim; }
};
const char *TAGS[] = {"serial-explicit", "parallel-explicit", "serial-implicit", "parallel-implicit"};

std::string xml(const Case &c)
{
  std::ostringstream o;
  o << "<precice-configuration" << (c.remesh ? " experimental=\"on\" allow-remeshing=\"on\"" : "") << "><log enabled=\"false\"/><profiling mode=\"off\"/><data:scalar name=\"D\"/><data:vector name=\"V\"/><data:scalar name=\"E\"/><data:scalar name=\"Unused\"/>";
  for (const char *n : {"MA", "MB"})
    o << "<mesh name=\"" << n << "\" dimensions=\"" << c.dim() << "\"><use-data name=\"E\"/>" << (c.useless ? "<use-data name=\"Unused\"/>" : "") << "<use-data name=\"V\"/><use-data name=\"D\"/></mesh>";
  o << "<participant name=\"A\"><provide-mesh name=\"MA\"/><write-data name=\"D\" mesh=\"MA\"/><write-data name=\"V\" mesh=\"MA\"/><read-data name=\"E\" mesh=\"MA\"/>";
  for (size_t i = 0; i < c.points.size(); ++i) {
    o << "<watch-point mesh=\"MA\" name=\"w" << i << "\" coordinate=\"";
    for (int d = 0; d < c.dim(); ++d)
      o << (d ? ";" : "") << num(c.points[i][d]);
    o << "\"/>";
  }
  o << "<watch-integral mesh=\"MA\" name=\"plain\" scale-with-connectivity=\"no\"/><watch-integral mesh=\"MA\" name=\"scaled\" scale-with-connectivity=\"yes\"/></participant>"
    << "<participant name=\"B\"><provide-mesh name=\"MB\"/><receive-mesh name=\"MA\" from=\"A\"/><mapping:nearest-projection direction=\"read\" from=\"MA\" to=\"MB\" constraint=\"consistent\"/><mapping:nearest-neighbor direction=\"write\" from=\"MB\" to=\"MA\" constraint=\"conservative\"/>"
    << "<read-data name=\"D\" mesh=\"MB\"/><read-data name=\"V\" mesh=\"MB\"/><write-data name=\"E\" mesh=\"MB\"/></participant>"
    << "<m2n:sockets acceptor=\"A\" connector=\"B\"/><coupling-scheme:" << TAGS[c.scheme] << "><participants first=\"" << (c.aFirst ? "A" : "B") << "\" second=\"" << (c.aFirst ? "B" : "A") << "\"/><max-time-windows value=\"" << c.windows << "\"/><time-window-size value=\"0.5\"/>";
  for (const char *d : {"D", "V"})
    o << "<exchange data=\"" << d << "\" mesh=\"MA\" from=\"A\" to=\"B\" initialize=\"" << (c.initial ? "yes" : "no") << "\" substeps=\"" << (c.substeps ? "yes" : "no") << "\"/>";
  o << "<exchange data=\"E\" mesh=\"MA\" from=\"B\" to=\"A\" initialize=\"" << (c.initial ? "yes" : "no") << "\" substeps=\"" << (c.substeps ? "yes" : "no") << "\"/>";
  if (c.scheme >= 2)
    o << "<max-iterations value=\"" << c.iterations << "\"/>";
  o << "</coupling-scheme:" << TAGS[c.scheme] << "></precice-configuration>";
  return o.str();
}
std::string describe(const Case &c)
{
  std::ostringstream o;
  o << c.dim() << "D " << TAGS[c.scheme] << (c.aFirst ? " A first " : " B first ") << (c.initial ? "initial data " : "") << (c.substeps ? "substeps " : "") << "steps " << c.steps[0] << "," << c.steps[1] << " ranks " << c.ranks << " " << c.what;
  for (int g = 0; g < (c.remesh ? 2 : 1); ++g) {
    o << (g ? " after remeshing: " : " mesh: ") << c.geo[g].n() << " vertices " << c.geo[g].edges.size() << " edges " << c.geo[g].tris.size() << " triangles " << c.geo[g].tets.size() << " tetrahedra on ranks";
    for (auto m : c.where[g])
      o << " " << m;
  }
  return o.str();
}
double written(int p, int w, int it, int st, int v, int comp)
{
  return ((p * 5 + w * 3 + it * 7 + st * 11 + v * 13 + comp * 17) % 97 - 31) / 8.0 + 20 * v;
}
/// the part of the mesh on a rank: the elements whose vertices are all there
Geo part(const Geo &g, const std::vector<unsigned> &where, int r, VI &ids)
{
  Geo p;
  p.dim = g.dim;
  VI local(g.n(), -1);
  ids.clear();
  for (int v = 0; v < g.n(); ++v)
    if (where[v] >> r & 1) {
      local[v] = p.n();
      p.v.push_back(g.v[v]);
      ids.push_back(v);
    }
  auto add = [&](auto &from, auto &to) {
    for (auto e : from) {
      bool all = true;
      for (auto &i : e) {
        all = all && local[i] >= 0;
        i   = local[i];
      }
      if (all)
        to.push_back(e);
    }
  };
  add(g.edges, p.edges);
  add(g.tris, p.tris);
  add(g.tets, p.tets);
  return p;
}
struct Row1 {
  double            time = 0;
  int               geo  = 0;
  std::vector<std::map<std::string, VD>> values; ///< per rank
};
struct Table {
  std::string                     error;
  std::vector<std::string>        columns;
  std::vector<std::vector<double>> rows;
};
Table readTab(const std::string &f)
{
  Table              t;
  std::istringstream in(slurp(f));
  std::string        line, w;
  if (!fileExists(f)) {
    t.error = "the file does not exist";
    return t;
  }
  std::getline(in, line);
  std::istringstream h(line);
  while (h >> w)
    t.columns.push_back(w);
  while (std::getline(in, line)) {
    std::istringstream l(line);
    std::vector<double> row;
    while (l >> w) {
      char *e;
      row.push_back(std::strtod(w.c_str(), &e));
      if (*e)
        t.error = "the file contains \"" + w + "\"";
    }
    if (row.size() != t.columns.size())
      t.error = "a row has " + std::to_string(row.size()) + " entries for " + std::to_string(t.columns.size()) + " columns";
    t.rows.push_back(row);
  }
  return t;
}
bool near(double a, double b) { return std::fabs(a - b) <= 2e-8 * std::max({1.0, std::fabs(a), std::fabs(b)}); }

/// mesh families
std::vector<std::pair<std::string, Geo>> meshes(int dim)
{
  std::vector<std::pair<std::string, Geo>> r;
  Geo                                      g;
  g.dim = dim;
  if (dim == 2) {
    g.v = {{0, 0, 0}, {2, 0, 0}, {2, 1, 0}, {0, 1, 0}};
    r.push_back({"points", g});
    Geo e   = g;
    e.edges = {{0, 1}, {1, 2}};
    r.push_back({"two edges", e});
    Geo f   = g;
    f.edges = {{2, 3}};
    r.push_back({"one edge", f});
    Geo t  = g;
    t.tris = {{0, 1, 2}, {0, 2, 3}};
    r.push_back({"triangles", t});
    Geo m   = g;
    m.tris  = {{0, 1, 3}};
    m.edges = {{1, 2}};
    r.push_back({"triangle and edge", m});
  } else {
    g.v = {{0, 0, 0}, {2, 0, 0}, {0, 1, 0}, {0, 0, 1.5}};
    r.push_back({"points", g});
    Geo t  = g;
    t.tris = {{0, 1, 2}};
    r.push_back({"triangle", t});
    Geo u  = g;
    u.tris = {{0, 1, 2}, {1, 2, 3}};
    r.push_back({"triangles", u});
    Geo k  = g;
    k.tets = {{0, 1, 2, 3}};
    r.push_back({"tetrahedron", k});
    Geo m   = g;
    m.tris  = {{0, 1, 3}};
    m.edges = {{1, 2}};
    r.push_back({"triangle and edge", m});
  }
  return r;
}
std::vector<Vec> grid(int dim, bool fine)
{
  std::vector<Vec> r;
  VD               x = {-0.6, 0.3, 1.1, 2.0, 2.7}, y = {-0.35, 0.2, 0.55, 1.0, 1.6}, z = {-0.5, 0.15, 0.4, 1.75};
  if (dim == 2)
    z = {0};
  for (double a : x)
    for (double b : y)
      for (double d : z)
        r.push_back({a, b, d});
  if (fine)
    for (double a : {0.0, 1.0})
      for (double b : {0.0, 0.5})
        r.push_back({a, b, 0});
  return r;
}
} // namespace

int main(int argc, char **argv)
{
  Campaign c("C23", argc, argv);
  c.rule      = "a case is a configuration with watch points and integrals; distinct by all written tables";
  c.technique = "explicit-state model of the tables; every configuration of the bounded space is executed on the implementation and the tables are compared row by row with the values seen through the API";
  Sched sched;
  RankLibs::get().load(c.lib, c.scratchDir(), 4, &sched);
  bool big = c.thorough();

  auto runCase = [&](CaseCtx &ctx, uint64_t i, const Case &k) {
    std::error_code ec;
    for (auto &e : std::filesystem::directory_iterator(ctx.dir))
      std::filesystem::remove_all(e.path(), ec);
    writeFile(ctx.dir + "/c.xml", xml(k));
    const int dim = k.dim(), nr = k.ranks + 1;
    std::vector<std::vector<Row1>>        log(k.ranks);
    std::vector<std::string>              bad(nr);
    Session                               s(sched);
    s.run(nr, [&](int slot, Api &a) {
      int         p = slot == k.ranks, r = p ? 0 : slot;
      std::string me = p ? "B" : "A", mesh = p ? "MB" : "MA";
      a.create(me, ctx.dir + "/c.xml", r, p ? 1 : k.ranks);
      VI  mine, ids;
      int n = 0, geo = 0;
      auto define = [&] {
        Geo l;
        if (p) {
          // the vertices of all meshes
          for (int v = 0; v < 3; ++v) {
            l.v.push_back({v * 0.9, 0.1, 0.2});
            mine.push_back(v);
          }
        } else
          l = part(k.geo[geo], k.where[geo], r, mine);
        n = l.n();
        for (auto &x : l.v)
          a.setMeshVertex(mesh, VD(x.begin(), x.begin() + dim));
        for (auto &e : l.edges)
          a.setMeshEdge(mesh, e[0], e[1]);
        for (auto &t : l.tris)
          a.setMeshTriangle(mesh, t[0], t[1], t[2]);
        for (auto &t : l.tets)
          a.setMeshTetrahedron(mesh, t[0], t[1], t[2], t[3]);
        ids.resize(n);
        for (int j = 0; j < n; ++j)
          ids[j] = j;
      };
      define();
      std::map<std::string, VD> last;
      auto                      write = [&](int w, int it, int st) {
        for (const std::string d : {"D", "V", "E"}) {
          if ((d == "E") != p)
            continue;
          VD v;
          int nc = d == "V" ? dim : 1;
          for (int x : mine)
            for (int cc = 0; cc < nc; ++cc)
              v.push_back(written(p, w, it, st, x, cc + (d == "V")));
          a.writeData(mesh, d, ids, v);
          last[d] = v;
        }
      };
      last["D"] = VD(n, 0.0);
      last["V"] = VD(n * dim, 0.0);
      if (a.requiresInitialData())
        write(0, 0, 9);
      double time = 0;
      auto   look = [&] {
        if (p)
          return;
        Row1 row;
        row.time   = time;
        row.geo    = geo;
        auto now   = last;
        now["E"]   = a.readData(mesh, "E", ids, 0, n);
        row.values = {now};
        log[r].push_back(row);
      };
      a.initialize();
      look();
      for (int w = 0; a.isCouplingOngoing();) {
        for (int it = 0;; ++it) {
          a.requiresWritingCheckpoint();
          int st = 0;
          do {
            double dt = 0.5 / k.steps[p];
            write(w + 1, it, st++);
            a.advance(std::min(dt, a.getMaxTimeStepSize()));
          } while (!a.isTimeWindowComplete() && st < k.steps[p]);
          a.requiresReadingCheckpoint();
          if (a.isTimeWindowComplete())
            break;
          if (it > 10) {
            bad[slot] = "too many iterations";
            return;
          }
        }
        ++w;
        time = 0.5 * w;
        look();
        if (k.remesh && !p && w == k.remeshAt && a.isCouplingOngoing()) {
          a.resetMesh(mesh);
          geo = 1;
          define();
        }
      }
      a.finalize();
      a.destroy();
    },
          policy(i));
    if (!s.clean(ctx, describe(k)))
      return;
    for (auto &b : bad)
      if (!b.empty())
        ctx.fail("run", b);
    // the parts of the meshes
    std::vector<Geo> parts[2];
    bool             edges[2] = {false, false};
    int              total[2] = {0, 0};
    for (int g = 0; g < 2; ++g)
      for (int r = 0; r < k.ranks; ++r) {
        VI ids;
        parts[g].push_back(part(k.geo[g], k.where[g], r, ids));
        edges[g] = edges[g] || !parts[g].back().allEdges().empty();
        total[g] += parts[g].back().n();
      }
    size_t rows = log[0].size();
    for (auto &l : log)
      if (l.size() != rows)
        ctx.fail("run", "the ranks completed different numbers of windows");
    uint64_t digest = 1;
    auto     rowOk  = [&](const std::string &file, const Table &t, std::vector<std::string> cols) {
      if (!t.error.empty()) {
        ctx.fail("table", file + ": " + t.error);
        return false;
      }
      auto has = t.columns;
      // order of the data is not prescribed
      std::sort(has.begin(), has.end());
      std::sort(cols.begin(), cols.end());
      auto opt = cols;
      if (k.useless && has != cols) { // data that is not used may be listed, with zeros
        opt.push_back("Unused");
        std::sort(opt.begin(), opt.end());
      }
      if (has != opt && has != cols) {
        std::string m;
        for (auto &x : t.columns)
          m += " " + x;
        ctx.fail("table", file + " has the columns" + m);
        return false;
      }
      if (t.rows.size() != rows) {
        ctx.fail("table", file + " has " + std::to_string(t.rows.size()) + " rows, expected " + std::to_string(rows));
        return false;
      }
      for (size_t j = 0; j < rows; ++j)
        if (t.columns[0] != "Time" || !near(t.rows[j][0], log[0][j].time))
          ctx.fail("time", file + " row " + std::to_string(j) + " has time " + num(t.rows[j][0]) + " expected " + num(log[0][j].time));
      return true;
    };
    auto suffix = [&](int q) { return std::to_string(q); };
    auto get    = [&](const Table &t, size_t j, const std::string &col) {
      for (size_t q = 0; q < t.columns.size(); ++q)
        if (t.columns[q] == col)
          return t.rows[j][q];
      return 0.0;
    };
    for (size_t w = 0; w < k.points.size(); ++w) {
      std::string              file = "precice-A-watchpoint-w" + std::to_string(w) + ".log";
      Table                    t    = readTab(ctx.dir + "/" + file);
      std::vector<std::string> cols = {"Time", "D", "E"};
      for (int d = 0; d < dim; ++d) {
        cols.push_back("Coordinate" + suffix(d));
        cols.push_back("V" + suffix(d));
      }
      if (!rowOk(file, t, cols))
        continue;
      for (size_t j = 0; j < rows; ++j) {
        int                                geo = log[0][j].geo;
        std::vector<std::vector<Row>>      cand(k.ranks);
        std::vector<VD>                    dist(k.ranks);
        VD                                 worst(k.ranks, 1e300);
        for (int r = 0; r < k.ranks; ++r) {
          auto &g = parts[geo][r];
          if (!g.n())
            continue;
          cand[r]  = rowsLCI(g, k.points[w]);
          worst[r] = 0;
          for (auto &row : cand[r]) {
            Vec x{0, 0, 0};
            for (int v = 0; v < g.n(); ++v)
              x = add(x, g.v[v], row[v]);
            dist[r].push_back(norm(sub(x, k.points[w])));
            worst[r] = std::max(worst[r], dist[r].back());
          }
        }
        bool        found = false;
        std::string want;
        for (int r = 0; r < k.ranks && !found; ++r)
          for (size_t q = 0; q < cand[r].size() && !found; ++q) {
            bool nearest = true;
            for (int o = 0; o < k.ranks; ++o)
              nearest = nearest && (o == r || dist[r][q] <= worst[o] + 1e-9);
            if (!nearest)
              continue;
            auto &row = cand[r][q];
            auto &g   = parts[geo][r];
            auto &val = log[r][j].values[0];
            bool  ok  = true;
            std::string exp;
            auto  cmp = [&](const std::string &col, double x) {
              ok = ok && near(x, get(t, j, col));
              exp += " " + col + "=" + num(x) + "/" + num(get(t, j, col));
            };
            for (int d = 0; d < dim; ++d) {
              double x = 0, y = 0;
              for (int v = 0; v < g.n(); ++v) {
                x += row[v] * g.v[v][d];
                y += row[v] * val.at("V")[v * dim + d];
              }
              cmp("Coordinate" + suffix(d), x);
              cmp("V" + suffix(d), y);
            }
            double x = 0, y = 0;
            for (int v = 0; v < g.n(); ++v) {
              x += row[v] * val.at("D")[v];
              y += row[v] * val.at("E")[v];
            }
            cmp("D", x);
            cmp("E", y);
            found = ok;
            want += (want.empty() ? "" : " or") + exp;
          }
        if (!total[geo])
          continue;
        ctx.require(found, "value", [&] { return file + " row " + std::to_string(j) + " (expected/found)" + want; });
        digest = mix(digest, get(t, j, "E"));
        digest = mix(digest, get(t, j, "V0"));
      }
    }
    for (bool scaled : {false, true}) {
      std::string              file = std::string("precice-A-watchintegral-") + (scaled ? "scaled" : "plain") + ".log";
      Table                    t    = readTab(ctx.dir + "/" + file);
      std::vector<std::string> cols = {"Time", "D", "E"};
      for (int d = 0; d < dim; ++d)
        cols.push_back("V" + suffix(d));
      if (edges[0] || (k.remesh && edges[1] && std::find(t.columns.begin(), t.columns.end(), "SurfaceArea") != t.columns.end()))
        cols.push_back("SurfaceArea");
      if (!rowOk(file, t, cols))
        continue;
      for (size_t j = 0; j < rows; ++j) {
        int geo = log[0][j].geo;
        if (!total[geo] || (scaled && edges[geo] && dim == 3 && k.geo[geo].allTris().empty()))
          continue; // edges do not have an area
        auto sum = [&](const std::string &d, int nc, int cc) {
          double x = 0;
          for (int r = 0; r < k.ranks; ++r) {
            auto &g = parts[geo][r];
            VD    v;
            for (int q = 0; q < g.n(); ++q)
              v.push_back(log[r][j].values[0].at(d)[q * nc + cc]);
            if (scaled && edges[geo])
              x += integral(g, v, false);
            else
              for (double y : v)
                x += y;
          }
          return x;
        };
        auto cmp = [&](const std::string &col, double x) {
          ctx.require(near(x, get(t, j, col)), "integral", [&] { return file + " row " + std::to_string(j) + " " + col + " is " + num(get(t, j, col)) + " expected " + num(x); });
          digest = mix(digest, x);
        };
        cmp("D", sum("D", 1, 0));
        cmp("E", sum("E", 1, 0));
        for (int d = 0; d < dim; ++d)
          cmp("V" + suffix(d), sum("V", dim, d));
        if (std::find(t.columns.begin(), t.columns.end(), "SurfaceArea") != t.columns.end()) {
          double x = 0;
          for (auto &g : parts[geo])
            x += integral(g, VD(g.n(), 1.0), false);
          cmp("SurfaceArea", x);
        }
      }
    }
    ctx.count("rows", rows * (k.points.size() + 2));
    ctx.state(digest);
    ctx.outcome(digest);
    ctx.observe(digest);
  };
  auto stage = [&](const char *name, uint64_t n, auto make) {
    c.stage(name, n, [=](uint64_t i) { return describe(make(i)); }, [=](CaseCtx &ctx, uint64_t i) { runCase(ctx, i, make(i)); });
  };
  auto family = [&](int f) {
    auto a = meshes(2), b = meshes(3);
    return f < static_cast<int>(a.size()) ? a[f] : b[f - a.size()];
  };
  const int NF = static_cast<int>(meshes(2).size() + meshes(3).size());
  // masks per vertex from digits in base (2^ranks - 1) or single owners
  auto owners = [](uint64_t x, int n, int ranks, bool copies) {
    std::vector<unsigned> w;
    unsigned              base = copies ? (1u << ranks) - 1 : ranks;
    for (int v = 0; v < n; ++v) {
      unsigned q = x % base;
      x /= base;
      w.push_back(copies ? q + 1 : 1u << q);
    }
    return w;
  };

  // position: every mesh and every partition, a grid of watch points
  {
    struct P {
      int  f, ranks;
      bool copies;
      uint64_t part;
    };
    std::vector<P> all;
    for (int f = 0; f < NF; ++f) {
      all.push_back({f, 1, false, 0});
      for (uint64_t x = 0; x < 16; ++x)
        all.push_back({f, 2, false, x});
      for (uint64_t x = 0; x < 81; ++x)
        all.push_back({f, 2, true, x});
      if (big)
        for (uint64_t x = 0; x < 81; ++x)
          all.push_back({f, 3, false, x});
    }
    stage("position", all.size(), [=](uint64_t i) {
      Case k;
      auto p     = all[i];
      auto f     = family(p.f);
      k.what     = f.first;
      k.geo[0]   = f.second;
      k.ranks    = p.ranks;
      k.where[0] = owners(p.part, f.second.n(), p.ranks, p.copies);
      k.geo[1] = k.geo[0];
      k.where[1] = k.where[0];
      k.windows  = 1;
      k.initial  = i % 2;
      k.points   = grid(f.second.dim, true);
      return k;
    });
  }
  // time: every way of coupling
  stage("time", 4ull * 2 * 2 * 2 * 3 * 3 * 2 * 2, [=](uint64_t i) {
    Case   k;
    Digits d(i);
    k.scheme   = d(4);
    k.aFirst   = d(2);
    k.initial  = d(2);
    k.substeps = d(2);
    k.steps[0] = 1 + d(3);
    k.steps[1] = 1 + d(3);
    k.ranks    = 1 + d(2);
    auto f     = family(d(2) ? 3 : 8);
    k.what     = f.first;
    k.geo[0] = k.geo[1] = f.second;
    k.where[0] = k.where[1] = owners(6, f.second.n(), k.ranks, false);
    k.windows  = 3;
    k.points   = {{0.3, 0.2, 0.1}, {2.5, 1, 0}};
    return k;
  });
  // unused: data on the mesh that is neither read nor written
  stage("unused", 2 * 2 * 4, [=](uint64_t i) {
    Case   k;
    Digits d(i);
    k.useless = true;
    auto f    = family(d(2) ? 3 : 8);
    k.ranks   = 1 + d(2);
    k.scheme  = d(4);
    k.what    = f.first + " unused data";
    k.geo[0] = k.geo[1] = f.second;
    k.where[0] = k.where[1] = owners(6, f.second.n(), k.ranks, false);
    k.points   = {{0.3, 0.2, 0.1}, {2.5, 1, 0}};
    return k;
  });
  // remesh: the mesh changes between two windows
  {
    struct R {
      int f[2], ranks;
      uint64_t part[2];
      int scheme, at;
    };
    std::vector<R> all;
    for (int f = 0; f < NF; ++f)
      for (int g = 0; g < NF; ++g) {
        if ((f < 5) != (g < 5))
          continue;
        for (int scheme : {1, 3})
          for (int at : {1, 2}) {
            all.push_back({{f, g}, 1, {0, 0}, scheme, at});
            for (uint64_t a : {0, 6, 9, 15})
              for (uint64_t b : big ? std::vector<uint64_t>{0, 3, 6, 15} : std::vector<uint64_t>{0, 3, 15})
                all.push_back({{f, g}, 2, {a, b}, scheme, at});
          }
      }
    stage("remesh", all.size(), [=](uint64_t i) {
      Case k;
      auto p   = all[i];
      k.remesh = true;
      k.scheme = p.scheme;
      k.ranks  = p.ranks;
      k.windows  = 3;
      k.remeshAt = p.at;
      for (int g = 0; g < 2; ++g) {
        auto f     = family(p.f[g]);
        k.what += f.first + " ";
        k.geo[g]   = f.second;
        if (g)
          for (auto &x : k.geo[g].v)
            x = {x[0] + 0.25, x[1] * 1.5, x[2]};
        k.where[g] = owners(p.part[g], f.second.n(), p.ranks, false);
      }
      k.points = {{0.3, 0.2, 0.1}, {2.5, 1, 0}, {-1, 2, 0.5}};
      return k;
    });
  }
  return c.finish();
}
