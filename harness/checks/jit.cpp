// C12: just-in-time mappings
#include "../src/mapref.hpp"
#include "../src/maprun.hpp"
#include "../src/session.hpp"
#include <map>
using namespace verif;

namespace {
using VI = std::vector<int>;
using VD = std::vector<double>;
const char *TAGS[] = {"serial-explicit", "parallel-explicit", "serial-implicit", "parallel-implicit"};
const char *M2N[]  = {"", "enforce-gather-scatter=\"on\"", "use-two-level-initialization=\"on\""};

struct Case {
  std::string           read = "nearest-neighbor", write = "nearest-neighbor", readBody, writeBody, attrs; ///< tags of mappings
  int                   dim = 2, scheme = 0, m2n = 0, ranks[2] = {1, 1}, windows = 2, degree = 1;
  bool                  aFirst = true;
  std::vector<int>      steps{1, 1};    ///< of A and B
  std::vector<Vec>      v;              ///< vertices of MA
  std::vector<unsigned> where;          ///< ranks of A per vertex (empty: rank 0)
  std::vector<VD>       box;            ///< regions of ranks of B (empty: none)
  std::vector<std::vector<Vec>> q;      ///< query points per rank of B
  int                   readPlan = 0, writePlan = 0, misuse = -1;
  bool                  unit = false;   ///< unit vectors as data
  int                   nOf(int r) const { return static_cast<int>(q[r].size()); }
  int                   offset(int r) const
  {
    int o = 0;
    for (int i = 0; i < r; ++i)
      o += nOf(i);
    return o;
  }
};
std::string xml(const Case &c)
{
  std::ostringstream o;
  o << "<precice-configuration experimental=\"on\"><log enabled=\"false\"/><profiling mode=\"off\"/><data:scalar name=\"D\" waveform-degree=\"" << c.degree << "\"/><data:vector name=\"V\" waveform-degree=\"" << c.degree << "\"/><data:scalar name=\"E\"/><data:vector name=\"F\"/>"
    << "<mesh name=\"MA\" dimensions=\"" << c.dim << "\"><use-data name=\"D\"/><use-data name=\"V\"/><use-data name=\"E\"/><use-data name=\"F\"/></mesh>"
    << "<participant name=\"A\"><provide-mesh name=\"MA\"/><write-data name=\"D\" mesh=\"MA\"/><write-data name=\"V\" mesh=\"MA\"/><read-data name=\"E\" mesh=\"MA\"/><read-data name=\"F\" mesh=\"MA\"/></participant>"
    << "<participant name=\"B\"><receive-mesh name=\"MA\" from=\"A\" api-access=\"yes\"/>";
  auto m = [&](const std::string &tag, const std::string &body, const char *a) {
    o << "<mapping:" << tag << " " << a << " " << (tag.substr(0, 3) == "rbf" ? c.attrs : "") << (body.empty() ? "/>" : ">" + body + "</mapping:" + tag + ">");
  };
  if (!c.read.empty())
    m(c.read, c.readBody, "direction=\"read\" from=\"MA\" constraint=\"consistent\"");
  if (!c.write.empty())
    m(c.write, c.writeBody, "direction=\"write\" to=\"MA\" constraint=\"conservative\"");
  o << "<read-data name=\"D\" mesh=\"MA\"/><read-data name=\"V\" mesh=\"MA\"/><write-data name=\"E\" mesh=\"MA\"/><write-data name=\"F\" mesh=\"MA\"/></participant>"
    << "<m2n:sockets acceptor=\"A\" connector=\"B\" " << M2N[c.m2n] << "/><coupling-scheme:" << TAGS[c.scheme] << "><participants first=\"" << (c.aFirst ? "A" : "B") << "\" second=\"" << (c.aFirst ? "B" : "A") << "\"/><max-time-windows value=\"" << c.windows << "\"/><time-window-size value=\"1\"/>";
  bool sub = c.degree > 0;
  for (const char *d : {"D", "V"})
    o << "<exchange data=\"" << d << "\" mesh=\"MA\" from=\"A\" to=\"B\" substeps=\"" << (sub ? "yes" : "no") << "\"/>";
  for (const char *d : {"E", "F"})
    o << "<exchange data=\"" << d << "\" mesh=\"MA\" from=\"B\" to=\"A\" substeps=\"" << (sub ? "yes" : "no") << "\"/>";
  if (c.scheme >= 2)
    o << "<max-iterations value=\"2\"/>";
  o << "</coupling-scheme:" << TAGS[c.scheme] << "></precice-configuration>";
  return o.str();
}
std::string describe(const Case &c)
{
  std::ostringstream o;
  o << "read " << c.read << c.readBody << " write " << c.write << c.writeBody << " " << c.attrs << " " << c.dim << "D " << TAGS[c.scheme] << (c.aFirst ? " A first " : " B first ") << M2N[c.m2n] << " degree " << c.degree << " steps " << c.steps[0] << "," << c.steps[1] << " ranks " << c.ranks[0] << "," << c.ranks[1] << " vertices";
  for (size_t i = 0; i < c.v.size(); ++i)
    o << " " << verif::show(c.v[i]) << (c.where.empty() ? "" : "@" + std::to_string(c.where[i]));
  for (int r = 0; r < c.ranks[1]; ++r) {
    o << " rank " << r << " region " << verif::show(c.box[r]) << " points";
    for (auto &p : c.q[r])
      o << verif::show(p);
  }
  if (c.misuse >= 0)
    o << " refused call " << c.misuse;
  o << " plans " << c.readPlan << "," << c.writePlan;
  return o.str();
}
double aValue(const Case &c, int v, int w, int it, int st, int comp)
{
  if (c.unit)
    return comp == 0 ? v == w % static_cast<int>(c.v.size()) : generic(v, w, comp);
  return generic(v, 16 * w + 5 * it + st, comp);
}
double bValue(const Case &c, int r, int i, int w, int it, int st, int comp)
{
  if (c.unit)
    return comp == 0 ? c.offset(r) + i == w : generic(i, w, comp);
  return generic(i + 10 * r, 7 + 16 * w + 5 * it + st, comp);
}
/// lists of indices of points that are passed together
std::vector<VI> batches(int n, int plan, int turn)
{
  if (n == 0 || (plan == 5 && turn % 2))
    return {};
  VI all(n);
  for (int i = 0; i < n; ++i)
    all[i] = (i + turn) % n;
  switch (plan) {
  case 1:
    std::reverse(all.begin(), all.end());
    [[fallthrough]];
  case 2: {
    std::vector<VI> r;
    for (int i : all)
      r.push_back({i});
    return r;
  }
  case 3:
    return {VI(all.begin(), all.begin() + n / 2), {}, VI(all.begin() + n / 2, all.end())};
  case 4: // some points at first, then all (once more)
    return {VI(all.begin(), all.begin() + n / 2), all};
  default:
    return {all};
  }
}
/// the value interpolated in time of samples
double sampled(const std::vector<std::pair<double, double>> &s, double t, int degree)
{
  if (s.size() == 1 || degree == 0) {
    for (auto &x : s)
      if (t <= x.first + 1e-12)
        return x.second;
    return s.back().second;
  }
  for (size_t i = 0; i + 1 < s.size(); ++i)
    if (t <= s[i + 1].first + 1e-12)
      return s[i].second + (s[i + 1].second - s[i].second) * (t - s[i].first) / (s[i + 1].first - s[i].first);
  return s.back().second;
}
/// weights of the vertices of A for a point: all accepted alternatives
using Weights = std::function<std::vector<Row>(const Vec &p, int rank)>;
struct Result {
  bool ok = false;
  /// unit data: weights of reading (per rank, point, vertex) and writing
  std::vector<std::vector<Row>> read, write;
  std::vector<std::string>      error;
};
} // namespace

int main(int argc, char **argv)
{
  Campaign c("C12", argc, argv);
  c.rule      = "a case is a mesh, its distribution, points and the calls that read or write there; distinct by all values read";
  c.technique = "explicit-state model of the data and of the mapping; every configuration and every batching of the bounded space is executed on the implementation";
  Sched sched;
  RankLibs::get().load(c.lib, c.scratchDir(), 4, &sched);
  bool big = c.thorough();

  // runs a case; compares with the weights if given
  auto run = [&](CaseCtx &ctx, uint64_t i, const Case &k, const Weights *readW, const Weights *writeW, bool expectOk = true) {
    writeFile(ctx.dir + "/c.xml", xml(k));
    const int dim = k.dim, n = static_cast<int>(k.v.size()), nc = 1 + dim, nr = k.ranks[0] + k.ranks[1];
    const bool implicit = k.scheme >= 2, serial = k.scheme % 2 == 0;
    Result                                         res;
    std::vector<std::string>                       bad(nr);
    std::vector<std::vector<std::pair<int, VD>>>   atA(k.ranks[0]); // tag, E and F of the local vertices at the end of the window
    std::vector<VI>                                mineOf(k.ranks[0]);
    std::vector<double>                            seen;
    res.read.assign(k.ranks[1], {});
    for (int r = 0; r < k.ranks[1]; ++r)
      res.read[r].assign(k.nOf(r), Row(n));
    Session s(sched);
    std::vector<VD> observed(nr);
    s.run(nr, [&](int slot, Api &a) {
      int  p = slot >= k.ranks[0], r = p ? slot - k.ranks[0] : slot;
      auto err = [&](const std::string &m) { if (bad[slot].empty()) bad[slot] = m; };
      a.create(p ? "B" : "A", ctx.dir + "/c.xml", r, k.ranks[p]);
      VI ids, mine;
      auto misuse = [&](Api &a, bool ended) {
        if (!p || k.misuse < 0)
          return;
        VD          x(k.q[r][0].begin(), k.q[r][0].begin() + dim), y = x, z = x;
        y.insert(y.end(), x.begin(), x.end());
        z[0]       = k.box[r][1] + 0.25;
        double nan = std::nan(""), inf = std::numeric_limits<double>::infinity();
        VD     bad = x;
        bad[dim - 1] = nan;
        VD part(y.begin(), y.end() - 1);
        bool thrown = false;
        try {
          switch (k.misuse) {
          case 0: a.writeAndMapData("MA", "E", x, {1, 2}); break;
          case 1: a.mapAndReadData("MA", "D", x, 0, 2); break;
          case 2: a.writeAndMapData("MA", "F", y, VD(dim, 1)); break;
          case 3: a.mapAndReadData("MA", "V", y, 0, dim); break;
          case 4: a.writeAndMapData("MA", "E", z, {1}); break;
          case 5: a.mapAndReadData("MA", "D", z, 0, 1); break;
          case 6: a.writeAndMapData("MA", "D", x, {1}); break;
          case 7: a.mapAndReadData("MA", "E", x, 0, 1); break;
          case 8: a.writeAndMapData("MX", "E", x, {1}); break;
          case 9: a.mapAndReadData("MX", "D", x, 0, 1); break;
          case 10: a.writeAndMapData("MA", "X", x, {1}); break;
          case 11: a.mapAndReadData("MA", "X", x, 0, 1); break;
          case 12: a.writeAndMapData("MA", "E", bad, {1}); break;
          case 13: a.mapAndReadData("MA", "D", bad, 0, 1); break;
          case 14: a.writeAndMapData("MA", "E", x, {nan}); break;
          case 15: a.mapAndReadData("MA", "D", x, ended ? 0.5 : 1.5, 1); break;
          case 16: a.writeAndMapData("MA", "E", x, {inf}); break;
          case 17: a.mapAndReadData("MA", "D", x, -0.25, 1); break;
          case 18: a.writeAndMapData("MA", "E", {}, {1}); break;
          case 19: a.mapAndReadData("MA", "D", {}, 0, 1); break;
          case 20: a.writeAndMapData("MA", "E", x, {}); break;
          case 21: a.mapAndReadData("MA", "D", x, 0, 0); break;
          case 22: a.writeAndMapData("MA", "E", part, {1, 2}); break;
          case 23: a.mapAndReadData("MA", "D", part, 0, 2); break;
          case 24: a.writeAndMapData("MA", "E", part, {1}); break;
          case 25: a.mapAndReadData("MA", "D", part, 0, 1); break;
          }
        } catch (const ApiError &) {
          thrown = true;
        }
        if (!thrown)
          err("the call is not refused" + std::string(ended ? " at the end" : ""));
      };
      if (!p) {
        for (int v = 0; v < n; ++v)
          if (k.where.empty() ? r == 0 : (k.where[v] >> r & 1)) {
            ids.push_back(a.setMeshVertex("MA", VD(k.v[v].begin(), k.v[v].begin() + dim)));
            mine.push_back(v);
          }
        mineOf[r] = mine;
      } else if (!k.box[r].empty())
        a.setMeshAccessRegion("MA", k.box[r]);
      if (p && k.misuse >= 0) { // nothing may be mapped before the initialization
        bool thrown = false;
        try {
          VD x(k.q[r][0].begin(), k.q[r][0].begin() + dim);
          if (k.misuse % 2)
            a.mapAndReadData("MA", "D", x, 0, 1);
          else
            a.writeAndMapData("MA", "E", x, {1});
        } catch (const ApiError &) {
          thrown = true;
        }
        if (!thrown)
          err("mapping is not refused before initialize");
      }
      a.initialize();
      misuse(a, false);
      int turn = 0;
      // samples B knows of A: (window, iteration, step) per time relative to the window, w < 0: zero
      auto known = [&](int w, int it) {
        std::vector<std::pair<double, std::array<int, 3>>> l;
        bool bFirst = !k.aFirst;
        int  last   = k.steps[0] - 1;
        std::array<int, 3> start = w == 0 ? std::array<int, 3>{-1, 0, 0} : std::array<int, 3>{w - 1, implicit ? 1 : 0, last};
        l.push_back({0, start});
        int rit = -1;
        if (serial && !bFirst)
          rit = it;
        else if (it > 0)
          rit = it - 1;
        if (rit >= 0)
          for (int st = 0; st < k.steps[0]; ++st)
            if (k.degree > 0 || st == last)
              l.push_back({(st + 1.0) / k.steps[0], {w, rit, st}});
        return l;
      };
      auto readAll = [&](int w, int it, double now, double t) {
        auto l = known(w, it);
        // values of the mesh at this time
        std::vector<VD> field(n, VD(nc));
        for (int v = 0; v < n; ++v)
          for (int x = 0; x < nc; ++x) {
            std::vector<std::pair<double, double>> sm;
            for (auto &e : l)
              sm.push_back({e.first, e.second[0] < 0 ? 0.0 : aValue(k, v, e.second[0], e.second[1], e.second[2], x)});
            field[v][x] = sampled(sm, now + t, k.degree);
          }
        for (auto &b : batches(k.nOf(r), k.readPlan, turn++)) {
          VD xs;
          for (int j : b)
            xs.insert(xs.end(), k.q[r][j].begin(), k.q[r][j].begin() + dim);
          VD d = a.mapAndReadData("MA", "D", xs, t, static_cast<int>(b.size()));
          VD e = a.mapAndReadData("MA", "V", xs, t, static_cast<int>(b.size()) * dim);
          for (size_t j = 0; j < b.size(); ++j) {
            auto at = [&](int x) { return x ? e[j * dim + x - 1] : d[j]; };
            observed[slot].push_back(d[j]);
            if (k.unit && now == 0 && t == 1 && w < n)
              res.read[r][b[j]][w] = d[j];
            if (!readW)
              continue;
            bool        any = false;
            std::string want;
            for (auto &row : (*readW)(k.q[r][b[j]], r)) {
              bool all = true;
              for (int x = 0; x < nc; ++x) {
                double ex = 0;
                for (int v = 0; v < n; ++v)
                  ex += row[v] * field[v][x];
                all = all && close(at(x), ex, 1e-9);
                want += " " + num(ex);
              }
              want += " |";
              any = any || all;
            }
            if (!any) {
              std::string have;
              for (int x = 0; x < nc; ++x)
                have += " " + num(at(x));
              err("window " + std::to_string(w) + " iteration " + std::to_string(it) + " reads at" + verif::show(k.q[r][b[j]]) + " and time " + num(now) + "+" + num(t) + have + ", expected" + want);
            }
          }
        }
      };
      for (int w = 0; a.isCouplingOngoing(); ++w)
        for (int it = 0;; ++it) {
          if (implicit)
            a.requiresWritingCheckpoint();
          for (int st = 0; st < k.steps[p]; ++st) {
            misuse(a, false);
            double dt = a.getMaxTimeStepSize() / (k.steps[p] - st), now = double(st) / k.steps[p];
            if (p) {
              if (!k.read.empty()) {
                if (k.unit)
                  readAll(w, it, now, a.getMaxTimeStepSize());
                else
                  for (double f : {1.0, 0.0, 0.5, 1.0})
                    readAll(w, it, now, f * a.getMaxTimeStepSize());
              }
              if (!k.write.empty())
                for (auto &b : batches(k.nOf(r), k.writePlan, w)) {
                  VD xs, e, f;
                  for (int j : b) {
                    xs.insert(xs.end(), k.q[r][j].begin(), k.q[r][j].begin() + dim);
                    e.push_back(bValue(k, r, j, w, it, st, 0));
                    for (int x = 0; x < dim; ++x)
                      f.push_back(bValue(k, r, j, w, it, st, 1 + x));
                  }
                  a.writeAndMapData("MA", "E", xs, e);
                  a.writeAndMapData("MA", "F", xs, f);
                }
            } else {
              VD d, e;
              for (int v : mine) {
                d.push_back(aValue(k, v, w, it, st, 0));
                for (int x = 0; x < dim; ++x)
                  e.push_back(aValue(k, v, w, it, st, 1 + x));
              }
              a.writeData("MA", "D", ids, d);
              a.writeData("MA", "V", ids, e);
            }
            a.advance(dt);
          }
          if (!p && !k.write.empty() && a.isCouplingOngoing()) {
            // the values B has written most recently
            VD e = a.readData("MA", "E", ids, 0, static_cast<int>(ids.size())), f = a.readData("MA", "F", ids, 0, static_cast<int>(ids.size()) * dim), all;
            // an iteration that is repeated starts from the beginning of the window
            if (!implicit || a.isTimeWindowComplete())
              for (size_t j = 0; j < ids.size(); ++j) {
                all.push_back(e[j]);
                all.insert(all.end(), f.begin() + j * dim, f.begin() + (j + 1) * dim);
              }
            if (!implicit || a.isTimeWindowComplete())
              atA[r].push_back({w, all});
          } else if (!p && !k.write.empty() && !a.isCouplingOngoing()) {
            VD e = a.readData("MA", "E", ids, 0, static_cast<int>(ids.size())), f = a.readData("MA", "F", ids, 0, static_cast<int>(ids.size()) * dim), all;
            for (size_t j = 0; j < ids.size(); ++j) {
              all.push_back(e[j]);
              all.insert(all.end(), f.begin() + j * dim, f.begin() + (j + 1) * dim);
            }
            atA[r].push_back({w, all});
          }
          if (implicit && !a.isTimeWindowComplete()) {
            a.requiresReadingCheckpoint();
            continue;
          }
          break;
        }
      misuse(a, true);
      a.finalize();
      misuse(a, true);
      a.destroy();
    },
          policy(i));
    res.error = s.error;
    ctx.taint = s.anyError();
    if (expectOk && !s.clean(ctx, describe(k)))
      return res;
    if (!expectOk && (s.anyError() || !s.out.finished)) {
      ctx.taint = true;
      if (!s.anyError())
        ctx.fail("deadlock", describe(k) + ": " + s.out.deadlock);
      return res;
    }
    for (int x = 0; x < nr; ++x)
      if (!bad[x].empty())
        ctx.fail("read", describe(k) + ": slot " + std::to_string(x) + " " + bad[x]);
    for (auto &l : observed)
      for (double x : l)
        ctx.observe(x);
    res.ok = true;
    if (k.write.empty())
      return res;
    // what A got: sum over ranks and points
    if (k.unit)
      for (int q = 0; q < k.ranks[1]; ++q)
        res.write.push_back(std::vector<Row>(k.nOf(q), Row(n)));
    for (int r = 0; r < k.ranks[0]; ++r)
      for (auto &[w, all] : atA[r]) {
        int it = implicit ? 1 : 0, st = k.steps[1] - 1;
        for (double x : all)
          ctx.observe(x);
        if (k.unit)
          for (int q = 0; q < k.ranks[1]; ++q)
            if (w >= k.offset(q) && w < k.offset(q + 1))
              for (size_t j = 0; j < mineOf[r].size(); ++j)
                res.write[q][w - k.offset(q)][mineOf[r][j]] = all[j * nc];
        if (!writeW)
          continue;
        for (size_t j = 0; j < mineOf[r].size(); ++j)
          for (int x = 0; x < nc; ++x) {
            double e = 0;
            for (int q = 0; q < k.ranks[1]; ++q)
              for (auto &b : batches(k.nOf(q), k.writePlan, w))
                for (int l : b)
                  e += (*writeW)(k.q[q][l], q)[0][mineOf[r][j]] * bValue(k, q, l, w, it, st, x);
            if (!close(all[j * nc + x], e, 1e-9)) {
              ctx.fail("write", describe(k) + ": rank " + std::to_string(r) + " of A gets " + num(all[j * nc + x]) + " at vertex " + std::to_string(mineOf[r][j]) + " component " + std::to_string(x) + " in window " + std::to_string(w) + ", expected " + num(e));
              return res;
            }
          }
      }
    return res;
  };

  // nearest vertices among those a rank gets for sure
  auto nn = [](const Case &k) -> Weights {
    return [&k](const Vec &p, int) {
      std::vector<Row> rows;
      double           best = 1e300;
      for (auto &v : k.v)
        best = std::min(best, norm(sub(p, v)));
      for (size_t j = 0; j < k.v.size(); ++j)
        if (norm(sub(p, k.v[j])) <= best + 1e-12) {
          Row r(k.v.size());
          r[j] = 1;
          rows.push_back(r);
        }
      return rows;
    };
  };
  const std::vector<Vec> pts[2] = {
      {{0.1, 0.2, 0}, {1.1, 0.1, 0}, {0.2, 1.3, 0}, {1.4, 1.2, 0}, {2.3, 0.6, 0}},
      {{0.1, 0.2, 0.3}, {1.1, 0.1, 0}, {0.2, 1.3, 0.1}, {1.4, 1.2, 0.6}, {0.3, 0.6, 1.4}}};
  auto nnCase = [=](uint64_t i) {
    Digits d(i);
    Case   k;
    k.dim       = 2 + d(2);
    k.scheme    = d(4);
    k.aFirst    = d(2) == 0;
    k.degree    = 1 - d(2);
    k.steps     = {1 + int(d(2)), 1 + int(d(2))};
    k.readPlan  = d(5);
    k.writePlan = d(6);
    int n       = big ? 1 + d(5) : 2 + 3 * d(2);
    k.windows   = big ? 3 : 2;
    k.v.assign(pts[k.dim - 2].begin(), pts[k.dim - 2].begin() + n);
    k.box = {VD{-1, 3, -1, 3, -1, 3}};
    k.box[0].resize(2 * k.dim);
    k.q = {{{0.3, 0.1, 0}, {0.95, 0.85, 0}, {-0.7, 2.9, 0}, {1.1, 0.1, 0}}};
    if (k.dim == 3)
      for (size_t j = 0; j < k.q[0].size() - 1; ++j)
        k.q[0][j][2] = 0.4 * j - 0.3;
    return k;
  };
  c.stage(
      "nearest", uint64_t(2) * 4 * 2 * 2 * 4 * 5 * 6 * (big ? 5 : 2), [=](uint64_t i) { return describe(nnCase(i)); },
      [&](CaseCtx &ctx, uint64_t i) {
        Case    k = nnCase(i);
        Weights w = nn(k);
        run(ctx, i, k, &w, &w);
      });
  auto refusedCase = [=](uint64_t i) {
    Digits d(i);
    int    m = d(26);
    Case   k = nnCase(d(2) + 2 * d(4) + 16 * 0);
    k.misuse = m;
    if (d(2)) {
      k.read = k.write = "rbf-pum-direct";
      k.q[0].resize(2);
      k.readBody = k.writeBody = "<basis-function:compact-polynomial-c6 support-radius=\"3\"/>";
    }
    return k;
  };
  c.stage(
      "refused", 26 * 2 * 4 * 2, [=](uint64_t i) { return describe(refusedCase(i)); },
      [&](CaseCtx &ctx, uint64_t i) {
        Case    k = refusedCase(i);
        Weights w = nn(k);
        bool    plain = k.read == "nearest-neighbor";
        run(ctx, i, k, plain ? &w : nullptr, plain ? &w : nullptr);
      });
  // distributions
  auto rankCase = [=](uint64_t i) {
    Digits d(i);
    Case   k;
    k.dim      = 2;
    k.scheme   = 1 + 2 * d(2);
    int m2n    = d(3);
    const std::vector<std::array<int, 2>> R{{1, 2}, {2, 1}, {2, 2}};
    auto rr    = R[d(3)];
    k.ranks[0] = rr[0], k.ranks[1] = rr[1];
    k.m2n      = m2n == 2 && rr[0] + rr[1] < 4 ? 0 : m2n;
    k.readPlan = k.writePlan = i % 5;
    int n = 4;
    k.v.assign(pts[0].begin(), pts[0].begin() + n);
    for (int j = 0; j < n; ++j)
      k.where.push_back(rr[0] == 1 ? 1 : 1 + d(big ? 3 : 2));
    static const std::vector<VD> boxes{{-0.5, 2, -0.5, 2}, {-0.5, 0.6, -0.5, 2}, {0.5, 2, -0.5, 0.7}, {0.8, 1.6, 0.6, 1.4}, {0, 0.5, 0, 0.5}};
    for (int r = 0; r < rr[1]; ++r) {
      k.box.push_back(boxes[d(boxes.size())]);
      const VD &b = k.box[r];
      double    m = 0.5 * std::min(b[1] - b[0], b[3] - b[2]);
      k.q.push_back({});
      for (int x = 0; x < 4; ++x)
        for (int y = 0; y < 3; ++y) {
          Vec    p{std::min(b[1], b[0] + (b[1] - b[0]) * x / 3), std::min(b[3], b[2] + (b[3] - b[2]) * y / 2), 0};
          double d1 = 1e300, d2 = 1e300;
          int    best = -1;
          for (int j = 0; j < n; ++j) {
            double dd = norm(sub(p, k.v[j]));
            if (dd < d1)
              d2 = d1, d1 = dd, best = j;
            else
              d2 = std::min(d2, dd);
          }
          const Vec &v = k.v[best];
          bool inside = v[0] > b[0] - m && v[0] < b[1] + m && v[1] > b[2] - m && v[1] < b[3] + m;
          if (inside && d2 - d1 > 1e-6)
            k.q[r].push_back(p);
        }
    }
    return k;
  };
  uint64_t perLayout = uint64_t(2) * 3 * 3 * (big ? 81 : 16) * 25;
  c.stage(
      "ranks", perLayout, [=](uint64_t i) { return describe(rankCase(i)); },
      [&](CaseCtx &ctx, uint64_t i) {
        Case k = rankCase(i);
        for (auto &q : k.q)
          if (q.empty())
            return ctx.count("rank without points");
        // several copies of a vertex: read rows are indistinguishable only if the copies hold the same data (they do)
        Weights w = nn(k);
        if (std::any_of(k.where.begin(), k.where.end(), [](unsigned m) { return m == 3; }))
          run(ctx, i, k, &w, nullptr);
        else
          run(ctx, i, k, &w, &w);
      });
  // coarse graining
  auto lucyCase = [=](uint64_t i) {
    Digits d(i);
    Case   k = nnCase(0);
    k.dim       = 2 + d(2);
    k.read      = "";
    k.write     = "coarse-graining";
    k.scheme    = 1 + 2 * d(2);
    k.writePlan = d(6);
    k.steps     = {1, 1 + int(d(2))};
    k.attrs     = "";
    k.v.assign(pts[k.dim - 2].begin(), pts[k.dim - 2].end());
    k.q[0].assign({{0.3, 0.1, 0}, {0.95, 0.85, 0}, {-0.7, 2.9, 0}, {1.1, 0.1, 0}});
    if (k.dim == 3)
      for (size_t j = 0; j < k.q[0].size() - 1; ++j)
        k.q[0][j][2] = 0.4 * j - 0.3;
    k.box = {VD{-1, 3, -1, 3, -1, 3}};
    k.box[0].resize(2 * k.dim);
    return std::make_pair(k, std::vector<double>{0.3, 0.9, 1.6, 5, 1.1}[d(5)]);
  };
  c.stage(
      "coarse-graining", 2 * 2 * 6 * 2 * 5, [=](uint64_t i) { return describe(lucyCase(i).first) + " radius " + num(lucyCase(i).second); },
      [&](CaseCtx &ctx, uint64_t i) {
        auto [k, R] = lucyCase(i);
        k.write     = "coarse-graining";
        Case kk     = k;
        double rad  = R;
        Weights w   = [&kk, rad](const Vec &p, int) {
          Row row(kk.v.size());
          for (size_t j = 0; j < row.size(); ++j) {
            double r = norm(sub(p, kk.v[j]));
            if (r <= rad)
              row[j] = 105 / (16 * M_PI * rad * rad * rad) * (1 + 3 * r / rad) * std::pow(1 - r / rad, 3);
          }
          return std::vector<Row>{row};
        };
        kk.write = "coarse-graining radius=\"" + num(rad) + "\"";
        run(ctx, i, kk, nullptr, &w);
      });
  // partition of unity
  struct Basis {
    const char *body;
    bool        strict;
  };
  static const std::vector<Basis> BASES{{"<basis-function:compact-polynomial-c6 support-radius=\"3\"/>", true}, {"<basis-function:volume-splines/>", false}, {"<basis-function:compact-polynomial-c0 support-radius=\"0.3\"/>", true}, {"<basis-function:gaussian shape-parameter=\"2\"/>", true}, {"<basis-function:thin-plate-splines/>", false}, {"<basis-function:multiquadrics shape-parameter=\"1\"/>", false}, {"<basis-function:inverse-multiquadrics shape-parameter=\"1\"/>", true}, {"<basis-function:compact-tps-c2 support-radius=\"2\"/>", true}};
  auto pumCase = [=](uint64_t i) {
    Digits d(i);
    Case   k;
    k.dim = 2 + d(2);
    k.read = k.write = d(2) ? "rbf" : "rbf-pum-direct";
    const Basis &b = BASES[d(BASES.size())];
    k.readBody = k.writeBody = b.body;
    bool     off  = d(2);
    bool     skew = d(2);
    unsigned set  = 0;
    static const std::vector<unsigned> sets{0x1ff, 0x1df, 0x0db, 0x1e7, 0x055, 0x07f, 0x00f, 0x003};
    set = sets[d(sets.size())];
    int vpc = 2 + d(3) * 2;
    for (int j = 0; j < (k.dim == 2 ? 9 : 8); ++j)
      if (set >> j & 1) {
        Vec p = k.dim == 2 ? Vec{double(j % 3), double(j / 3), 0} : Vec{double(j & 1), double(j >> 1 & 1), double(j >> 2 & 1)};
        if (skew)
          p[0] += 0.05 * ((j * 3) % 4), p[1] -= 0.04 * ((j * 5) % 3), p[2] += k.dim == 3 ? 0.03 * ((j * 2) % 5) : 0;
        k.v.push_back(p);
      }
    bool plain = k.read == "rbf-pum-direct";
    k.attrs = std::string("polynomial=\"") + (off ? "off" : "separate") + "\"";
    k.attrs += plain ? " vertices-per-cluster=\"" + std::to_string(vpc) + "\" relative-overlap=\"0.3\"" : "";
    if (!plain)
      k.attrs = "";
    k.box = {VD{-1, 4, -1, 4, -1, 4}};
    k.box[0].resize(2 * k.dim);
    k.q = {{}};
    int n = static_cast<int>(k.v.size());
    for (int j = 0; j < n; j += 2)
      k.q[0].push_back(k.v[j]);
    Vec c0{0, 0, 0};
    for (auto &p : k.v)
      c0 = add(c0, p, 1.0 / n);
    k.q[0].push_back(c0);
    for (int j = 0; j + 1 < n; j += 3)
      k.q[0].push_back(add(add(Vec{0, 0, 0}, k.v[j], 0.7), k.v[j + 1], 0.3));
    k.unit    = true;
    k.scheme  = 1;
    k.windows = std::max(n, k.nOf(0)) + 1;
    k.degree  = 0;
    return std::make_tuple(k, off, plain ? vpc : 50);
  };
  auto pumRun = [&](CaseCtx &ctx, uint64_t i, Case k, bool off) {
    k.scheme = 0; // B reads in the window
    auto r   = run(ctx, i, k, nullptr, nullptr, false);
    if (!r.ok) {
      std::string e;
      for (auto &x : r.error)
        e += x;
      bool known = e.find("could not be assigned to any cluster") != std::string::npos || e.find("Too many vertices have been filtered out") != std::string::npos || e.find("not invertable") != std::string::npos || e.find("is empty within the defined access region") != std::string::npos;
      ctx.count("refused");
      return ctx.require(known, "error", [&] { return describe(k) + ": " + e; });
    }
    int n = static_cast<int>(k.v.size());
    for (int rk = 0; rk < k.ranks[1]; ++rk) {
      auto  &W   = r.read[rk];
      auto  &T   = r.write[rk];
      double top = 0;
      for (int q = 0; q < k.nOf(rk); ++q) {
        std::string at = describe(k) + ": rank " + std::to_string(rk) + " point " + std::to_string(q);
        double      sum = 0;
        for (int j = 0; j < n; ++j) {
          sum += W[q][j];
          top = std::max(top, std::fabs(W[q][j]));
        }
        if (!(top < 1e3))
          return ctx.fail("finite", at + ": weight " + num(top));
        if (!off && !close(sum, 1, 1e-8))
          ctx.fail("constant", at + ": a constant 1 is mapped to " + num(sum));
        for (int w = 0; w < n; ++w)
          if (k.v[w] == k.q[rk][q])
            for (int j = 0; j < n; ++j)
              if (!close(W[q][j], j == w, 1e-7))
                ctx.fail("interpolation", at + " coincides with vertex " + std::to_string(w) + ", but depends on vertex " + std::to_string(j) + " by " + num(W[q][j]));
        for (int j = 0; j < n; ++j)
          if (!close(W[q][j], T[q][j], 1e-7))
            ctx.fail("transposed", at + ": reading depends on vertex " + std::to_string(j) + " by " + num(W[q][j]) + ", but writing there contributes " + num(T[q][j]));
      }
    }
    ctx.count("mapped");
    // the same mapping for other data, batches and schemes
    Case k2      = k;
    k2.unit      = false;
    k2.degree    = 1;
    k2.windows   = 2;
    k2.scheme    = i % 4;
    k2.readPlan  = (i / 4) % 5;
    k2.writePlan = (i / 20) % 6;
    k2.steps     = {1 + int(i / 3 % 2), 1 + int(i / 7 % 2)};
    Weights w    = [&](const Vec &p, int rk) {
      for (int q = 0; q < k2.nOf(rk); ++q)
        if (k2.q[rk][q] == p)
          return std::vector<Row>{r.read[rk][q]};
      return std::vector<Row>{};
    };
    run(ctx, i + 1, k2, &w, &w);
  };
  c.stage(
      "partition-of-unity", uint64_t(2) * 2 * BASES.size() * 2 * 2 * 8 * 3, [=](uint64_t i) { return describe(std::get<0>(pumCase(i))); },
      [&](CaseCtx &ctx, uint64_t i) {
        auto [k, off, vpc] = pumCase(i);
        if (k.read == "rbf" && (off || vpc != 50 || i / (2 * 2 * BASES.size() * 2 * 2 * 8)))
          return ctx.count("no such option");
        pumRun(ctx, i, k, off);
      });
  // the same on several ranks
  auto pumRanks = [=](uint64_t i) {
    Digits   d(i);
    bool     off = d(2);
    int      vpc = 2 + 2 * d(2);
    uint64_t b   = d(3);
    Case     k   = std::get<0>(pumCase(0));
    k.readBody = k.writeBody = BASES[b].body;
    k.attrs = std::string("polynomial=\"") + (off ? "off" : "separate") + "\" vertices-per-cluster=\"" + std::to_string(vpc) + "\" relative-overlap=\"0.3\"";
    k.ranks[0] = 1 + d(2);
    k.ranks[1] = 2;
    k.m2n      = k.ranks[0] == 2 ? d(3) : 0;
    int part   = d(big ? 16 : 4);
    static const std::vector<VD> boxes{{-0.5, 2.5, -0.5, 2.5}, {-0.5, 1.2, -0.5, 2.5}, {0.8, 2.5, -0.5, 1.2}, {0.5, 1.6, 0.4, 1.5}};
    k.v = {{0, 0, 0}, {1, 0.1, 0}, {2, -0.1, 0}, {0.1, 1, 0}, {1.05, 1.1, 0}, {2, 0.95, 0}, {0, 2, 0}, {0.9, 2.05, 0}, {2.1, 2, 0}};
    for (int j = 0; j < 9; ++j)
      k.where.push_back(k.ranks[0] == 1 ? 1 : part == 0 ? 1 + j % 2 : part == 1 ? (j < 4 ? 1 : 2) : part == 2 ? (j % 3 ? 2 : 1) : part == 3 ? 2 : 1 + ((j * part) % 7) % 2);
    k.box.clear(), k.q.clear();
    for (int r = 0; r < 2; ++r) {
      const VD &b = boxes[d(boxes.size())];
      k.box.push_back(b);
      k.q.push_back({});
      for (auto &p : k.v)
        for (Vec q : {p, add(p, Vec{0.3, 0.25, 0})})
          if (q[0] >= b[0] && q[0] <= b[1] && q[1] >= b[2] && q[1] <= b[3] && q[0] <= 2 && q[1] <= 1.9)
            k.q.back().push_back(q);
    }
    k.windows = std::max<int>(k.v.size(), k.offset(2)) + 1;
    return std::make_pair(k, off);
  };
  c.stage(
      "partition-of-unity-ranks", uint64_t(2) * 2 * 3 * 2 * 3 * (big ? 16 : 4) * 16, [=](uint64_t i) { return describe(pumRanks(i).first); },
      [&](CaseCtx &ctx, uint64_t i) {
        auto [k, off] = pumRanks(i);
        pumRun(ctx, i, k, off);
      });
  return c.finish();
}
