// C22: exported files contain the meshes and the data the participants work with
#include "../src/exports.hpp"
#include "../src/mapref.hpp"
#include "../src/session.hpp"
using namespace verif;

namespace {
using VI = std::vector<int>;
using VD = std::vector<double>;
struct Case {
  int         dim = 2, scheme = 0; ///< serial/parallel explicit, serial/parallel implicit
  bool        aFirst = true;
  std::string fmt    = "vtu";
  int         everyN = 1;
  bool        everyIteration = false, update = false, initial = false, substeps = false, connectivity = false, gradient = false;
  int         ranks[2] = {1, 1};
  std::vector<unsigned> where[2]; ///< masks of ranks per vertex (empty: all on rank 0)
  int         iterations = 2, windows = 3, steps[2] = {1, 1};
  int         location = 0;
};
const char *TAGS[] = {"serial-explicit", "parallel-explicit", "serial-implicit", "parallel-implicit"};
const Vec   PTS[4] = {{0, 0, 0}, {1.5, 0, 0.25}, {0.25, 1, 0.5}, {-1, 0.75, 1}};
int         partRank(const Case &c, int p, int v, int r) { return c.where[p].empty() ? r == 0 : (c.where[p][v] >> r & 1); }

std::string directory(const Case &c, const std::string &dir)
{
  return c.location == 0 ? dir : c.location == 1 ? dir + "/out" : dir + "/some/where/else/";
}
std::string xml(const Case &c, const std::string &dir)
{
  std::ostringstream o;
  std::string        m = c.gradient ? "nearest-neighbor-gradient" : c.connectivity ? "nearest-projection" : "nearest-neighbor";
  std::string        e = "<export:" + c.fmt + " directory=\"" + directory(c, dir) + "\" every-n-time-windows=\"" + std::to_string(c.everyN) + "\" every-iteration=\"" + (c.everyIteration ? "yes" : "no") + "\" update-series=\"" + (c.update ? "yes" : "no") + "\"/>";
  o << "<precice-configuration experimental=\"on\"><log enabled=\"false\"/><profiling mode=\"off\"/><data:scalar name=\"D\"/><data:vector name=\"V\"/><data:scalar name=\"E\"/><data:vector name=\"Unused\"/>";
  for (const char *n : {"MA", "MB"})
    o << "<mesh name=\"" << n << "\" dimensions=\"" << c.dim << "\"><use-data name=\"D\"/><use-data name=\"Unused\"/><use-data name=\"V\"/><use-data name=\"E\"/></mesh>";
  o << "<participant name=\"A\">" << e << "<provide-mesh name=\"MA\"/><write-data name=\"D\" mesh=\"MA\"/><write-data name=\"V\" mesh=\"MA\"/><read-data name=\"E\" mesh=\"MA\"/></participant>"
    << "<participant name=\"B\">" << e << "<provide-mesh name=\"MB\"/><receive-mesh name=\"MA\" from=\"A\"/><mapping:" << m << " direction=\"read\" from=\"MA\" to=\"MB\" constraint=\"consistent\"/><mapping:nearest-neighbor direction=\"write\" from=\"MB\" to=\"MA\" constraint=\"conservative\"/>"
    << "<read-data name=\"D\" mesh=\"MB\"/><read-data name=\"V\" mesh=\"MB\"/><write-data name=\"E\" mesh=\"MB\"/></participant>"
    << "<m2n:sockets acceptor=\"A\" connector=\"B\"/><coupling-scheme:" << TAGS[c.scheme] << "><participants first=\"" << (c.aFirst ? "A" : "B") << "\" second=\"" << (c.aFirst ? "B" : "A") << "\"/><max-time-windows value=\"" << c.windows << "\"/><time-window-size value=\"0.5\"/>";
  for (const char *d : {"D", "V"})
    o << "<exchange data=\"" << d << "\" mesh=\"MA\" from=\"A\" to=\"B\" initialize=\"" << (c.initial ? "yes" : "no") << "\" substeps=\"" << (c.substeps ? "yes" : "no") << "\"/>";
  o << "<exchange data=\"E\" mesh=\"MA\" from=\"B\" to=\"A\" substeps=\"" << (c.substeps ? "yes" : "no") << "\"/>";
  if (c.scheme >= 2)
    o << "<max-iterations value=\"" << c.iterations << "\"/>";
  o << "</coupling-scheme:" << TAGS[c.scheme] << "></precice-configuration>";
  return o.str();
}
std::string describe(const Case &c)
{
  std::ostringstream o;
  o << c.dim << "D " << TAGS[c.scheme] << (c.aFirst ? " A first " : " B first ") << c.fmt << " every-n=" << c.everyN << (c.everyIteration ? " every-iteration" : "") << (c.update ? " update-series" : "") << (c.initial ? " initial data" : "") << (c.substeps ? " substeps" : "") << (c.connectivity ? " connectivity" : "") << (c.gradient ? " gradients" : "") << " steps " << c.steps[0] << "," << c.steps[1] << " ranks " << c.ranks[0] << "," << c.ranks[1] << " A on";
  for (int p = 0; p < 2; ++p) {
    for (auto m : c.where[p])
      o << " " << m;
    if (!p)
      o << " B on";
  }
  o << " location " << c.location;
  return o.str();
}
/// what rank-local data a file has to contain
struct Expect {
  std::string        file;
  std::string        mesh;
  int                rank;
  std::map<int, std::map<std::string, VD>> values; ///< vertex -> data -> components
};
double written(int p, int w, int it, int st, int v, int comp)
{
  return ((p * 5 + w * 3 + it * 7 + st * 11 + v * 13 + comp * 17) % 97 - 31) / 8.0 + 20 * v;
}
} // namespace

int main(int argc, char **argv)
{
  Campaign c("C22", argc, argv);
  c.rule      = "a case is a configuration of exports; distinct by all exported values";
  c.technique = "explicit-state model of the exported files; every configuration of the bounded space is executed on the implementation and all files are read back after every call";
  Sched sched;
  RankLibs::get().load(c.lib, c.scratchDir(), 4, &sched);
  bool big = c.thorough();

  auto runCase = [&](CaseCtx &ctx, uint64_t i, const Case &k) {
    std::string loc = directory(k, ctx.dir);
    std::error_code ec;
    for (auto &e : std::filesystem::directory_iterator(ctx.dir))
      std::filesystem::remove_all(e.path(), ec);
    writeFile(ctx.dir + "/c.xml", xml(k, ctx.dir));
    int                      nr = k.ranks[0] + k.ranks[1];
    std::vector<std::string> bad(nr);
    bool                     par[2] = {k.ranks[0] > 1, k.ranks[1] > 1};
    std::set<std::string>    expected[2], series[2];
    std::vector<std::pair<std::string, double>> records[2]; // of the own mesh; other meshes alike
    uint64_t                 digest = 3;
    std::string              ext    = k.fmt == "vtk" ? "vtk" : k.fmt;
    Session                  s(sched);
    s.run(nr, [&](int slot, Api &a) {
      int         p = slot >= k.ranks[0], r = p ? slot - k.ranks[0] : slot;
      std::string me = p ? "B" : "A", mesh = p ? "MB" : "MA";
      auto        err = [&](const std::string &m) { if (bad[slot].empty()) bad[slot] = m; };
      a.create(me, ctx.dir + "/c.xml", r, k.ranks[p]);
      VI mine;
      for (int v = 0; v < 4; ++v)
        if (partRank(k, p, v, r)) {
          a.setMeshVertex(mesh, VD(PTS[v].begin(), PTS[v].begin() + k.dim));
          mine.push_back(v);
        }
      int n = static_cast<int>(mine.size());
      VI  ids(n);
      for (int j = 0; j < n; ++j)
        ids[j] = j;
      if (k.connectivity && !p && n == 4) {
        a.setMeshEdge(mesh, 3, 0);
        a.setMeshTriangle(mesh, 0, 1, 2);
      }
      std::map<std::string, VD> last; // values of own write data
      VD                        gradients[2]{VD(n * k.dim, 0.0), VD(n * k.dim * k.dim, 0.0)};
      auto                      write = [&](int w, int it, int st) {
        auto one = [&](const std::string &d, int nc) {
          VD v;
          for (int x : mine)
            for (int cc = 0; cc < nc; ++cc)
              v.push_back(written(p, w, it, st, x, cc + (d == "V" ? 1 : 0)));
          a.writeData(mesh, d, ids, v);
          last[d] = v;
        };
        if (p)
          one("E", 1);
        else {
          one("D", 1);
          one("V", k.dim);
          if (k.gradient)
            for (int nc : {1, k.dim}) {
              VD g;
              for (int x : mine)
                for (int cc = 0; cc < nc * k.dim; ++cc)
                  g.push_back(written(p, w, it, st, x, cc + (nc > 1 ? 6 : 5)));
              a.writeGradientData(mesh, nc > 1 ? "V" : "D", ids, g);
              gradients[nc > 1] = g;
            }
        }
      };
      if (p)
        last["E"] = VD(n, 0.0);
      else {
        last["D"] = VD(n, 0.0);
        last["V"] = VD(n * k.dim, 0.0);
      }
      if (a.requiresInitialData())
        write(0, 0, 9);
      a.initialize();
      // the state of the export files after a call
      auto look = [&](const std::string &index, double time, bool repeated) {
        std::map<std::string, VD> now = last;
        double                    t   = a.isCouplingOngoing() ? a.getMaxTimeStepSize() : 0;
        if (p) {
          now["D"] = a.readData(mesh, "D", ids, t, n);
          now["V"] = a.readData(mesh, "V", ids, t, n * k.dim);
        } else
          now["E"] = a.readData(mesh, "E", ids, t, n);
        auto base = [&](const std::string &m) { return m + "-" + me + "." + index; };
        for (const std::string m : {"MA", "MB"}) {
          if (m == "MB" && !p)
            continue;
          std::string main = base(m) + (par[p] ? (k.fmt == "csv" ? "" : ".p" + ext) : "." + ext);
          std::string piece = par[p] ? (k.fmt == "csv" ? m + "-" + me + "." + std::to_string(r) + "_" + index + ".csv" : base(m) + "_" + std::to_string(r) + "." + ext) : main;
          // received meshes of a rank: only judged in the common cases
          bool own = m == mesh, complete = own || !par[p];
          if (r == 0 && !(par[p] && k.fmt == "csv")) {
            expected[p].insert(main);
            if (own)
              records[p].push_back({main, time});
          }
          std::string f = loc + "/" + piece;
          bool exists = fileExists(f);
          if (own && (n > 0 || !par[p] || k.fmt == "csv") && !exists)
            err("there is no file " + piece);
          if (own && n == 0 && par[p] && k.fmt != "csv" && exists)
            err("file " + piece + " exists although the rank has no vertices");
          if (!exists)
            continue;
          expected[p].insert(piece);
          Exported x = k.fmt == "csv" ? readCSV(f, k.dim) : k.fmt == "vtk" ? readVTK(f) : readXML(f);
          if (!x.error.empty()) {
            err("file " + piece + ": " + x.error);
            continue;
          }
          if (r == 0 && par[p] && k.fmt != "csv") {
            // pieces of the parallel file: exactly the non-empty ranks (own mesh)
            auto list = readPieces(loc + "/" + main);
            if (own) {
              std::vector<std::string> want;
              for (int q = 0; q < k.ranks[p]; ++q) {
                bool any = false;
                for (int v = 0; v < 4; ++v)
                  any = any || partRank(k, p, v, q);
                if (any)
                  want.push_back(base(m) + "_" + std::to_string(q) + "." + ext);
              }
              if (list != want)
                err("file " + main + " lists " + std::to_string(list.size()) + " pieces, expected " + std::to_string(want.size()));
            }
            // the arrays of the parallel file
            std::string s = slurp(loc + "/" + main);
            for (auto &d : x.data)
              if (s.find("Name=\"" + d.first + "\"") == std::string::npos)
                err("file " + main + " does not list the data " + d.first);
          }
          VI id;
          for (auto &q : x.points) {
            int f2 = -1;
            for (int v = 0; v < 4; ++v) {
              bool all = true;
              for (int dd = 0; dd < k.dim; ++dd)
                all = all && q[dd] == PTS[v][dd];
              if (k.dim == 2 && q[2] != 0)
                all = false;
              if (all)
                f2 = v;
            }
            id.push_back(f2);
          }
          if (own && id != mine)
            err("file " + piece + " has the vertices " + verif::show(id) + " expected " + verif::show(mine));
          size_t copies = 0;
          for (int v = 0; v < 4; ++v)
            for (int q = 0; q < k.ranks[0]; ++q)
              copies += partRank(k, 0, v, q);
          if (!own && complete && id.size() != copies)
            err("file " + piece + " has " + std::to_string(id.size()) + " vertices");
          for (int v : id)
            if (v < 0)
              err("file " + piece + " contains an unknown vertex");
          for (double rk : x.data["Rank"])
            if (static_cast<int>(rk) != r)
              err("file " + piece + " has rank " + num(rk));
          x.data.erase("Rank");
          if (k.connectivity && k.fmt != "csv" && own && !p && n == 4) {
            std::multiset<VI> e{{0, 1}, {0, 2}, {1, 2}, {0, 3}}, t3{{0, 1, 2}};
            if (x.of(2) != e || x.of(3) != t3 || !x.of(4).empty())
              err("file " + piece + " has wrong cells");
          } else if (own && !x.cells.empty())
            err("file " + piece + " has cells");
          if (k.gradient && m == "MA" && own && k.fmt != "csv" && !repeated) {
            bool sides[2] = {true, true};
            const char *names[] = {"V_dx", "V_dy", "V_dz"};
            for (size_t j = 0; j < id.size(); ++j)
              for (int q = 0; q < k.dim; ++q) {
                if (x.data["D_gradient"].size() != 3 * id.size() || x.data[names[q]].size() != 3 * id.size()) {
                  err("file " + piece + " lacks gradients");
                  break;
                }
                if (std::fabs(x.data["D_gradient"][3 * j + q] - gradients[0][j * k.dim + q]) > 1e-4)
                  err("file " + piece + ": gradient of D at vertex " + std::to_string(id[j]) + " is " + num(x.data["D_gradient"][3 * j + q]) + ", written " + num(gradients[0][j * k.dim + q]));
                for (int t = 0; t < k.dim; ++t) {
                  double got = x.data[names[q]][3 * j + t];
                  sides[0]   = sides[0] && std::fabs(got - gradients[1][(j * k.dim + q) * k.dim + t]) < 1e-4;
                  sides[1]   = sides[1] && std::fabs(got - gradients[1][(j * k.dim + t) * k.dim + q]) < 1e-4;
                }
              }
            if (!sides[0] && !sides[1])
              err("file " + piece + ": the gradients of V are not those written");
          }
          for (auto it2 = x.data.begin(); it2 != x.data.end();)
            if (k.gradient && m == "MA" && (it2->first == "D_gradient" || it2->first.rfind("V_d", 0) == 0))
              it2 = x.data.erase(it2);
            else
              ++it2;
          // data: on the own mesh all values, on the received mesh those known from the own mesh
          for (auto &d : now) {
            int nc = d.first == "V" ? k.dim : 1;
            for (size_t j = 0; j < id.size(); ++j) {
              auto pos = std::find(mine.begin(), mine.end(), id[j]);
              if (pos == mine.end())
                continue;
              // written data on the received mesh is the sum over all copies and only there after the mapping
              for (int cc = 0; cc < nc; ++cc) {
                double want = d.second[(pos - mine.begin()) * nc + cc], got = 0;
                if (k.fmt == "csv") {
                  std::string col = d.first + (nc > 1 ? std::string(1, "XYZ"[cc]) : "");
                  if (!x.data.count(col)) {
                    err("file " + piece + " has no column " + col);
                    continue;
                  }
                  got = x.data[col][j];
                } else {
                  if (!x.data.count(d.first)) {
                    err("file " + piece + " has no data " + d.first);
                    continue;
                  }
                  int oc = nc > 1 ? 3 : 1;
                  if (x.comps[d.first] != oc)
                    err("file " + piece + " has " + std::to_string(x.comps[d.first]) + " components of " + d.first);
                  got = x.data[d.first][j * oc + cc];
                }
                if (repeated && last.count(d.first))
                  continue; // of an iteration that is repeated
                if (!own && d.first == "E" && (par[p] || par[0]))
                  continue;
                digest = mix(digest, got);
                if (std::fabs(got - want) > 1e-5 * std::max(1.0, std::fabs(want)))
                  err("file " + piece + ": " + d.first + " component " + std::to_string(cc) + " at vertex " + std::to_string(id[j]) + " is " + num(got) + ", the participant has " + num(want));
              }
            }
          }
          for (auto &d : x.data) {
            std::string base2 = d.first;
            if (k.fmt == "csv" && base2.size() > 1 && base2[0] == 'V')
              base2 = "V";
            if (!now.count(base2))
              err("file " + piece + " contains the data " + d.first);
          }
        }
      };
      auto checkSeries = [&](bool final) {
        if (r || k.fmt == "csv")
          return;
        for (const std::string m : {"MA", "MB"}) {
          if (m == "MB" && !p)
            continue;
          std::string sf = m + "-" + me + "." + (par[p] ? "p" + ext : ext) + ".series";
          bool        want = !records[p].empty() && (final || k.update);
          if (want != fileExists(loc + "/" + sf)) {
            err(std::string(want ? "missing" : "unexpected") + " file " + sf + (final ? " at the end" : ""));
            continue;
          }
          if (!want)
            continue;
          expected[p].insert(sf);
          auto got = readSeries(loc + "/" + sf);
          auto e   = records[p];
          for (auto &x : e)
            x.first = m + x.first.substr(2);
          bool same = got.size() == e.size();
          for (size_t j = 0; same && j < e.size(); ++j)
            same = got[j].first == e[j].first && std::fabs(got[j].second - e[j].second) < 1e-12;
          if (!same) {
            std::string t;
            for (auto &x : got)
              t += " " + x.first + "@" + num(x.second);
            t += " expected";
            for (auto &x : e)
              t += " " + x.first + "@" + num(x.second);
            err("file " + sf + " lists" + t);
          }
        }
      };
      bool any = k.everyN > 0 || k.everyIteration;
      if (k.everyN > 0)
        look("init", 0, false);
      checkSeries(false);
      int    advances = 0;
      double time     = 0;
      int    iter     = k.scheme >= 2 ? k.iterations : 1;
      for (int w = 0; w < k.windows; ++w)
        for (int it = 0; it < iter; ++it)
          for (int st = 0; st < k.steps[p]; ++st) {
            if (a.requiresWritingCheckpoint()) {}
            write(w, it, st);
            a.advance(0.5 / k.steps[p]);
            ++advances;
            bool done = a.isTimeWindowComplete();
            if (a.requiresReadingCheckpoint()) {}
            if (done)
              time = 0.5 * (w + 1);
            if (st + 1 < k.steps[p])
              continue;
            if (any && k.everyIteration)
              look("it" + std::to_string(advances), time, !done);
            else if (done && k.everyN > 0 && (w + 1) % k.everyN == 0)
              look("dt" + std::to_string(w + 1), time, false);
            bool fin = !a.isCouplingOngoing();
            if (fin || done || k.everyIteration)
              checkSeries(fin);
          }
      a.finalize();
      a.destroy(); }, policy(i));
    s.clean(ctx);
    for (auto &m : bad)
      if (!m.empty())
        ctx.fail("file", describe(k) + ": " + m);
    // nothing else
    if (s.out.finished && !s.anyError() && std::filesystem::exists(loc))
      for (auto &e : std::filesystem::directory_iterator(loc)) {
        std::string n = e.path().filename();
        if (n.find("-A.") == std::string::npos && n.find("-B.") == std::string::npos)
          continue;
        if (n.find("iterations.log") != std::string::npos || n.find("convergence.log") != std::string::npos)
          continue;
        if (!expected[0].count(n) && !expected[1].count(n))
          ctx.fail("file", describe(k) + ": unexpected file " + n);
      }
    ctx.outcome(digest);
  };
  auto stage = [&](const std::string &name, uint64_t n, std::function<Case(uint64_t)> make) {
    c.stage(
        name, n, [make](uint64_t i) { return describe(make(i)); }, [&, make](CaseCtx &ctx, uint64_t i) { runCase(ctx, i, make(i)); });
  };
  const std::vector<std::string> F{"vtk", "vtu", "vtp", "csv"};
  stage("options", 4 * 4 * 4 * 2 * 2 * 2 * 3 * 2, [=](uint64_t i) {
    Case   k;
    Digits d(i);
    k.fmt            = F[d(4)];
    k.scheme         = d(4);
    k.everyN         = d.pick(std::vector<int>{1, 2, 3, -1});
    k.everyIteration = d(2);
    k.update         = d(2);
    k.aFirst         = d(2);
    int st           = d(3);
    k.steps[0]       = st == 1 ? 2 : 1;
    k.steps[1]       = st == 2 ? 2 : 1;
    k.dim            = 2 + d(2);
    k.location       = static_cast<int>(i / 5 % 3);
    k.initial        = i / 3 % 2;
    k.substeps       = i / 7 % 2;
    k.connectivity   = i / 11 % 2;
    return k;
  });
  stage("gradients", 4 * 4 * 3 * 2 * 2, [=](uint64_t i) {
    Case   k;
    Digits d(i);
    k.fmt      = F[d(4)];
    k.scheme   = d(4);
    int st     = d(3);
    k.steps[0] = st == 1 ? 2 : 1;
    k.dim      = 2 + d(2);
    k.aFirst   = d(2);
    k.gradient = true;
    k.initial  = i / 3 % 2;
    k.substeps = i / 7 % 2;
    return k;
  });
  // distributions of vertices, some ranks empty
  const std::vector<std::vector<unsigned>> W{{1, 1, 2, 2}, {2, 2, 2, 2}, {1, 2, 1, 2}, {1, 1, 1, 1}, {3, 1, 2, 3}, {2, 1, 1, 1}};
  stage("ranks", 6 * 6 * 3 * 4 * 3 * 2, [=](uint64_t i) {
    Case   k;
    Digits d(i);
    int    wa = d(6), wb = d(6);
    k.fmt    = F[1 + d(3)];
    k.scheme = d(4);
    int who  = d(3);
    k.dim    = 2 + d(2);
    if (who != 1) {
      k.ranks[0] = 2;
      k.where[0] = W[wa];
    }
    if (who != 0) {
      k.ranks[1] = 2;
      k.where[1] = W[wb];
    }
    k.update   = i / 3 % 2;
    k.everyN   = 1 + i / 5 % 2;
    k.initial  = i / 7 % 2;
    k.windows  = 2;
    k.location = static_cast<int>(i / 13 % 3);
    return k;
  });
  (void) big;
  return c.finish();
}
