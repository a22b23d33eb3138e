// C05: the acceleration of implicit coupling computes what its description says
#include "../src/couple.hpp"
using namespace verif;

namespace {
/// values of iterates that make no two differences parallel
double script(int e, int w, int k, int s, int v, int c)
{
  uint64_t h = mix(mix(mix(mix(mix(mix(17, uint64_t(e)), uint64_t(w)), uint64_t(k)), uint64_t(s)), uint64_t(v)), uint64_t(c));
  return double(h >> 11) / double(1ull << 53) * 2 - 0.75;
}
/// Gaussian elimination with pivoting; the right-hand side is the last column
Vec solve(std::vector<Vec> A)
{
  size_t n = A.size();
  for (size_t i = 0; i < n; ++i) {
    size_t p = i;
    for (size_t j = i; j < n; ++j)
      if (std::fabs(A[j][i]) > std::fabs(A[p][i]))
        p = j;
    std::swap(A[i], A[p]);
    for (size_t j = 0; j < n; ++j)
      if (j != i) {
        double f = A[j][i] / A[i][i];
        for (size_t q = i; q <= n; ++q)
          A[j][q] -= f * A[i][q];
      }
  }
  Vec x(n);
  for (size_t i = 0; i < n; ++i)
    x[i] = A[i][n] / A[i][i];
  return x;
}
} // namespace

int main(int argc, char **argv)
{
  Campaign c("C05", argc, argv);
  c.technique = "explicit-state reference of the acceleration, every history executed on the implementation";
  c.rule      = "a case is an acceleration configuration and a history of iterates; distinct by the sequence of values observed on all ranks";
  Sched sched;
  RankLibs::get().load(c.lib, c.scratchDir(), 6, &sched);
  bool big = c.thorough();

  auto stage = [&](const std::string &name, uint64_t n, std::function<Scenario(uint64_t)> make, std::function<void(CaseCtx &, const Scenario &, const Expectation &, CoupleRunner &)> more = {}) {
    c.stage(
        name, n, [&, make](uint64_t i) { return describe(make(i)); },
        [&, make, more](CaseCtx &ctx, uint64_t i) {
          Scenario     s = make(i);
          CoupleRunner r(s, sched, ctx.dir);
          r.exitOnError = true;
          Policy p;
          p.rendezvous = i % 2;
          p.order      = static_cast<int>(i / 2 % 3);
          r.run(p);
          Model m(s);
          auto  e = m.run();
          ctx.count("columns", e.columns);
          ctx.count("removed columns", e.removed);
          ctx.count("violated bounds", e.violated);
          if (e.close) {
            // rounding decides: only that nothing breaks
            ctx.count("too close to call");
            bool refused = false;
            for (auto &o : r.result)
              refused = refused || o.error.find("contains NaN") != std::string::npos;
            if (refused) {
              ctx.taint = true;
              ctx.count("reported as NaN");
              return;
            }
            CheckOptions opt;
            opt.values = false;
            compare(ctx, s, e, r, opt);
            for (auto &o : r.result)
              for (auto &ob : o.obs)
                for (double d : ob.v)
                  if (!std::isfinite(d)) {
                    ctx.fail("not-finite", ob.what + " is not finite");
                    return;
                  }
            return;
          }
          CheckOptions opt;
          opt.tol = 1e-8;
          compare(ctx, s, e, r, opt);
          if (more && ctx.violations.empty())
            more(ctx, s, e, r);
        });
  };
  // exchanges: D0 from A to B, D1 from B to A
  auto basic = [](Scenario &s, Scheme sch, int second, int ra, int rb) {
    s.scheme = sch;
    s.second = second;
    s.ranks  = {ra, rb};
    s.ex     = {{0, 1, false, true, 1, 1, 'r'}, {1, 0, false, true, 1, 1, 'r'}};
  };
  auto open = [](uint64_t salt) {
    return [salt](int e, int w, int k, int s, int v, int cc, const Vec &) { return script(e + 10 * salt, w, k, s, v, cc); };
  };
  auto steps = [](int kind) {
    return [kind](int p, int w, int k) {
      switch (kind) {
      case 1:
        return std::vector<double>{0.5, 0.5};
      case 2:
        return p == 0 ? std::vector<double>{0.25, 0.5, 0.25} : std::vector<double>{0.5, 0.5};
      case 3: // steps differ between iterations and windows
        return (w + k + p) % 2 ? std::vector<double>{1.0} : std::vector<double>{0.375, 0.625};
      default:
        return std::vector<double>{1.0};
      }
    };
  };
  const std::vector<std::pair<int, int>> RANKS = {{1, 1}, {1, 2}, {2, 1}, {2, 3}};

  stage("constant", 2 * 2 * 4 * 3 * 4 * 3, [&](uint64_t i) {
    Digits   d(i);
    Scenario s;
    auto     sch = d(2) ? Scheme::PI : Scheme::SI;
    int      sec = d(2);
    auto     rk  = d.pick(RANKS);
    basic(s, sch, sec, rk.first, rk.second);
    s.accel.type  = 'c';
    s.accel.omega = d.pick(std::vector<double>{1, 0.5, 0.0625});
    s.plan        = steps(d(4));
    int deg       = d(3);
    for (auto &e : s.ex) {
      e.degree   = deg + 1;
      e.dims     = 2;
      e.init     = i % 3 == 0;
    }
    s.minIt = s.maxIt = 3;
    s.maxWindows      = 2;
    s.V               = 3;
    s.value           = open(i % 5);
    return s;
  });
  // primary data: in serial coupling the data of the second participant
  auto primaries = [](const Scenario &s) {
    std::vector<std::vector<int>> r;
    int                           own = s.second == 1 ? 1 : 0;
    r.push_back({own});
    if (s.scheme == Scheme::PI) {
      r.push_back({1 - own});
      r.push_back({0, 1});
      r.push_back({1, 0});
    }
    return r;
  };
  struct Pre {
    char type;
    bool threshold;
    int  freeze;
  };
  const std::vector<Pre> PRE = {{0, true, -1}, {'c', true, -1}, {'v', true, -1}, {'r', true, -1}, {'s', true, -1}, {'s', false, -1}, {'r', true, 1}, {'v', true, 2}, {'s', false, 1}};
  std::vector<Pre> APRE;
  for (auto &p : PRE)
    if (p.threshold)
      APRE.push_back(p);
  stage("aitken", 2 * 2 * 4 * 4 * APRE.size() * 2 * 4 * 2, [&](uint64_t i) {
    Digits   d(i);
    Scenario s;
    auto     sch = d(2) ? Scheme::PI : Scheme::SI;
    int      sec = d(2);
    auto     rk  = d.pick(RANKS);
    basic(s, sch, sec, rk.first, rk.second);
    auto prim     = primaries(s);
    s.accel.type  = 'a';
    s.accel.data  = prim[d(4) % prim.size()];
    auto pre      = d.pick(APRE);
    s.accel.pre   = pre.type;
    s.accel.threshold = pre.threshold;
    s.accel.freeze    = pre.freeze;
    if (pre.type == 'c')
      for (size_t q = 0; q < s.accel.data.size(); ++q)
        s.accel.scaling.push_back(q ? 4 : 0.5);
    s.accel.omega = d(2) ? 0.75 : 0.25;
    s.plan        = steps(d(4));
    s.ex[1].dims  = 2;
    int its       = d(2) ? 4 : 2;
    s.minIt = s.maxIt = its;
    s.maxWindows      = 3;
    s.V               = 2;
    s.value           = open(i % 7);
    return s;
  });
  // histories over a small alphabet: repeated values, residuals that vanish or are the same
  auto alphabet = [](std::vector<int> seq, int perWindow) {
    return [seq, perWindow](int, int w, int k, int, int v, int c, const Vec &) {
      return double(seq[((w - 1) * perWindow + k - 1 + v + c) % seq.size()]);
    };
  };
  stage("aitken-alphabet", 729 * 2 * 2 * 3, [&](uint64_t i) {
    Digits           d(i);
    Scenario         s;
    std::vector<int> seq;
    for (int q = 0; q < 6; ++q)
      seq.push_back(d(3));
    basic(s, d(2) ? Scheme::PI : Scheme::SI, 1, 1, 1 + i % 2);
    s.V           = 1 + d(2);
    auto prim     = primaries(s);
    s.accel.type  = 'a';
    s.accel.data  = prim.back();
    s.accel.omega = 0.5;
    s.accel.pre   = s.accel.data.size() > 1 ? "vrs"[d(3)] : 0;
    s.minIt = s.maxIt = 3 + d(1);
    s.maxWindows      = 2;
    s.value           = alphabet(seq, 3);
    return s;
  });

  // quasi-Newton
  struct Fil {
    int    type;
    double limit;
  };
  const std::vector<Fil> FILTER = {{3, 1e-2}, {2, 0.5}, {1, 0.3}, {-1, 0.4}, {3, 0.6}, {1, 1e-16}, {2, 1e-16}};
  auto qn = [&](Scenario &s, const std::vector<int> &data, const Pre &pre, const Fil &f, int reused, int maxUsed, bool enforce, bool reduced) {
    s.accel.type          = 'q';
    s.accel.data          = data;
    s.accel.pre           = pre.type;
    s.accel.threshold     = pre.threshold;
    s.accel.freeze        = pre.freeze;
    s.accel.scaling.clear();
    if (pre.type == 'c')
      for (size_t q = 0; q < data.size(); ++q)
        s.accel.scaling.push_back(q ? 4 : 0.5);
    s.accel.qn.filter  = f.type;
    s.accel.qn.limit   = f.limit;
    s.accel.qn.reused  = reused;
    s.accel.qn.maxUsed = maxUsed;
    s.accel.qn.enforce = enforce;
    s.accel.qn.reduced = reduced;
    s.accel.qn.omega   = 0.5;
  };
  std::vector<std::vector<int>> ITER = {{4, 4, 4}, {1, 4, 3}, {4, 1, 1, 3}, {3, 1, 4}};
  // number of iterations of each window: by a measure which the last iterate fulfils
  stage("qn-histories", 2 * 4 * 4 * 7 * 4 * 2 * 2 * (big ? 2 : 1) * 3, [&](uint64_t i) {
    Digits   d(i);
    Scenario s;
    auto     rk = RANKS[i / 7 % RANKS.size()];
    basic(s, d(2) ? Scheme::PI : Scheme::SI, i / 3 % 2, rk.first, rk.second);
    auto prim = primaries(s);
    auto data = prim[d(4) % prim.size()];
    int  preI = d(4);
    auto f    = d.pick(FILTER);
    auto reu  = d.pick(std::vector<int>{0, 1, 2, 10});
    int  mx   = d(2) ? 100 : 3;
    bool enf = d(2), red = big ? d(2) : i / 5 % 2;
    qn(s, data, PRE[(preI * 2 + i / 11) % PRE.size()], f, reu, mx, enf, red);
    s.plan       = steps(d(3));
    s.ex[1].dims = 2;
    s.minIt = s.maxIt = 4;
    s.maxWindows      = 3;
    s.V               = 3;
    s.value           = open(i % 7);
    return s;
  });
  // columns of the least-squares system in precice-*-iterations.log
  auto qnLog = [&](CaseCtx &ctx, const Scenario &s, const Expectation &e, CoupleRunner &) {
    int  ctrl = s.scheme == Scheme::Multi ? s.controller : s.second;
    auto t    = readTable("precice-" + Scenario::pname(ctrl) + "-iterations.log");
    bool ok   = t.size() == e.qnLog.size();
    std::ostringstream o;
    for (size_t i = 0; ok && i < t.size(); ++i)
      for (int q = 0; q < 3; ++q) {
        ok = ok && t[i].size() == 7 && t[i][4 + q] == e.qnLog[i][q];
        if (t[i].size() == 7)
          o << t[i][4 + q] << "/" << e.qnLog[i][q] << " ";
      }
    ctx.require(ok, "columns-log", [&] { return "columns used, deleted and dropped (log/expected): " + o.str(); });
  };
  // the number of iterations varies between windows
  stage(
      "qn-varied", 2 * 3 * 4 * 7 * 4 * 2 * 2 * 3, [&](uint64_t i) {
        Digits   d(i);
        Scenario s;
        auto     rk = RANKS[i / 5 % RANKS.size()];
        basic(s, d(2) ? Scheme::PI : Scheme::SI, i / 3 % 2, rk.first, rk.second);
        double lim = d.pick(std::vector<double>{0.5, 1, 1.6});
        auto   prim = primaries(s);
        auto   data = prim[d(4) % prim.size()];
        auto   f    = d.pick(FILTER);
        auto   reu  = d.pick(std::vector<int>{0, 1, 2, 10});
        int    mx   = d(2) ? 100 : 4;
        bool   enf  = d(2);
        qn(s, data, PRE[(i / 11) % PRE.size()], f, reu, mx, enf, i / 2 % 2);
        s.plan = steps(d(3));
        s.minIt = 1, s.maxIt = 5;
        s.maxWindows = 4;
        s.measures   = {{'a', data[0], lim, 0, false, false}};
        s.V          = 3;
        s.emptyRanks = i % 13 == 0;
        s.value      = open(i % 17);
        return s;
      },
      qnLog);
  // windows in which nothing changes are accepted after one iteration: no column for the next window
  stage(
      "qn-steady", 16 * 2 * 3 * 2 * 7 * 2 * 2, [&](uint64_t i) {
        Digits   d(i);
        Scenario s;
        unsigned still = d(16);
        auto     rk    = RANKS[i / 5 % RANKS.size()];
        basic(s, d(2) ? Scheme::PI : Scheme::SI, i / 3 % 2, rk.first, rk.second);
        auto prim = primaries(s);
        int  reu  = d(3);
        bool enf  = d(2);
        auto f    = d.pick(FILTER);
        qn(s, prim[i / 7 % prim.size()], PRE[(i / 11) % PRE.size()], f, reu, 100, enf, d(2));
        s.plan       = steps(d(2));
        s.minIt      = 1;
        s.maxIt      = 4;
        s.maxWindows = 5;
        s.V          = 3;
        s.measures   = {{'a', s.second == 1 ? 1 : 0, 1e-9, 0, false, false}};
        auto values  = open(i % 7);
        s.value      = [still, values](int e, int w, int k, int sub, int v, int c, const Vec &r) -> double {
          int from = w;
          while (from > 0 && from < 5 && still >> (from - 1) & 1)
            --from;
          if (from == 0)
            return 0;
          return from == w ? values(e, w, k, sub, v, c, r) : values(e, from, 4, 7, v, c, r);
        };
        // the last value of a window that moves is the one of the windows which do not
        auto moving = s.value;
        auto pl     = s.plan;
        s.value     = [moving, values, pl, still](int e, int w, int k, int sub, int v, int c, const Vec &r) -> double {
          bool last = sub + 1 == static_cast<int>(pl(e, w, k).size());
          if ((w >= 5 || !(still >> (w - 1) & 1)) && k == 4 && last)
            return values(e, w, 4, 7, v, c, r);
          return moving(e, w, k, sub, v, c, r);
        };
        return s;
      },
      qnLog);
  stage("qn-multi", 3 * 3 * 4 * 2 * 3, [&](uint64_t i) {
    Digits   d(i);
    Scenario s;
    s.scheme     = Scheme::Multi;
    s.nParts     = 3;
    s.controller = d(3);
    s.ranks      = d.pick(std::vector<std::vector<int>>{{1, 1, 1}, {2, 1, 2}, {1, 2, 1}});
    int c        = s.controller;
    for (int p = 0; p < 3; ++p)
      if (p != c) {
        s.ex.push_back({p, c, false, true, 1, 1, 'r'});
        s.ex.push_back({c, p, false, true, 1, p % 2 + 1, 'r'});
      }
    std::vector<std::vector<int>> prim = {{0}, {0, 2}, {3, 1}, {0, 1, 2, 3}};
    auto                          data = prim[d(4)];
    bool                          red  = d(2);
    qn(s, data, PRE[1 + d(3) + i % 2], FILTER[i % FILTER.size()], i % 3, 100, false, red);
    s.plan       = steps(i % 3);
    s.minIt = s.maxIt = 4;
    s.maxWindows      = 3;
    s.value           = open(i % 7);
    return s;
  });
  stage("qn-alphabet", (big ? 4096 : 243) * 4 * 2 * 2 * 3, [&](uint64_t i) {
    Digits           d(i);
    Scenario         s;
    std::vector<int> seq;
    for (int q = 0; q < (big ? 6 : 5); ++q)
      seq.push_back(d(big ? 4 : 3));
    int f = d(4);
    basic(s, d(2) ? Scheme::PI : Scheme::SI, 1, 1, 1 + i % 2);
    s.V       = 1 + d(2);
    auto prim = primaries(s);
    int  r    = d(3);
    qn(s, prim[i / 5 % prim.size()], PRE[std::vector<int>{1, 2, 4, 6, 3}[i % 5]], FILTER[std::vector<int>{0, 5, 2, 6}[f]], r, i / 3 % 2 ? 100 : 2, i / 7 % 4 == 0, true);
    s.minIt = s.maxIt = i / 3 % 3 ? 4 : 3;
    s.maxWindows      = 2;
    s.value           = alphabet(seq, 3);
    return s;
  });
  stage("qn-bounds", 2 * 3 * 3 * 4 * 3 * 2 * 4 * 2, [&](uint64_t i) {
    Digits   d(i);
    Scenario s;
    auto     rk = RANKS[i / 5 % RANKS.size()];
    basic(s, d(2) ? Scheme::PI : Scheme::SI, 1, rk.first, rk.second);
    char how  = "cds"[d(3)];
    int  kind = d(3);
    auto prim = primaries(s);
    auto data = prim[d(4) % prim.size()];
    qn(s, data, PRE[1 + i % 4], FILTER[i % 3], d(3), 100, false, d(2));
    s.accel.qn.bound = how;
    s.plan           = steps(d(4));
    bool outside     = d(2); // results of the solver violate the bounds
    s.ex[1].dims     = 1 + kind % 2;
    auto &e = s.ex[kind == 2 ? 0 : 1];
    for (int q = 0; q < e.dims; ++q) {
      if (kind == 1 && i / 4 % 3 == unsigned(q)) // one component without bounds
        continue;
      if (i % 4 != 1)
        e.lower[q] = outside ? -0.3 : -0.8;
      if (i % 4 != 2)
        e.upper[q] = outside ? 0.7 : 1.3;
    }
    s.minIt = s.maxIt = 4;
    s.maxWindows      = 3;
    s.V               = 3;
    s.value           = open(i % 9);
    return s;
  });
  // without the optional tags
  stage("defaults", 2 * 4 * 2 * 3, [&](uint64_t i) {
    Digits   d(i);
    Scenario s;
    auto     rk = RANKS[i % RANKS.size()];
    basic(s, d(2) ? Scheme::PI : Scheme::SI, 1, rk.first, rk.second);
    auto prim                = primaries(s);
    s.accel.type             = 'q';
    s.accel.explicitDefaults = false;
    s.accel.data             = prim[d(4) % prim.size()];
    s.ex[1].dims             = 1 + d(2);
    s.plan                   = steps(d(3));
    s.minIt = s.maxIt = 6;
    s.maxWindows      = 3;
    s.V               = 3;
    s.value           = open(i);
    return s;
  });

  // linear fixed-point problems are solved exactly, at most one iteration per unknown and two more
  {
    struct Lin {
      int    V, scheme, filter, pre, windows;
      double scale;
      bool   reuse;
      uint64_t salt;
    };
    auto make = [&](uint64_t i) {
      Digits d(i);
      Lin    l;
      l.V       = 1 + d(3);
      l.scheme  = d(2);
      if (l.scheme)
        l.V = std::min(l.V, 2); // twice as many unknowns
      l.filter  = d(4);
      l.pre     = d(4);
      l.scale   = d.pick(std::vector<double>{0.5, -2, 6});
      l.reuse   = d(2);
      l.salt    = i % 23;
      l.windows = 3;
      return l;
    };
    auto M = [](const Lin &l, int v, int j) { return l.scale * (script(1, 1, int(l.salt), v, j, 7) + (v == j ? 0.4 : 0)); };
    auto b = [](const Lin &l, int w, int v) { return 3 * script(2, w, int(l.salt), v, 0, 9); };
    auto sc = [&, make](uint64_t i) {
      auto     l = make(i);
      Scenario s;
      basic(s, l.scheme ? Scheme::PI : Scheme::SI, 1, 1, 1);
      for (auto &e : s.ex)
        e.substeps = false;
      s.V = l.V;
      std::vector<int> data{1};
      if (l.scheme)
        data = {0, 1};
      qn(s, data, PRE[std::vector<int>{1, 2, 4, 0}[l.pre]], {std::vector<int>{3, 2, 1, -1}[l.filter], 1e-13}, l.reuse ? 10 : 0, 100, false, true);
      s.minIt      = 1;
      s.maxIt      = (l.scheme ? 2 : 1) * l.V + 4;
      s.maxWindows = l.windows;
      s.measures   = {{'r', 1, 1e-7, 0, false, true}};
      if (l.scheme)
        s.measures.push_back({'r', 0, 1e-7, 0, false, true});
      s.value = [=](int e, int w, int, int, int v, int, const Vec &read) {
        if (e == 0)
          return read[v];
        double r = b(l, w, v);
        for (int j = 0; j < l.V; ++j)
          r += M(l, v, j) * read[j];
        return r;
      };
      return s;
    };
    c.stage(
        "linear", 3 * 2 * 4 * 4 * 3 * 2, [&, sc](uint64_t i) { return describe(sc(i)) + " linear " + std::to_string(i % 23); },
        [&, sc, make](CaseCtx &ctx, uint64_t i) {
          auto         l = make(i);
          Scenario     s = sc(i);
          CoupleRunner r(s, sched, ctx.dir);
          r.exitOnError = true;
          r.run({});
          std::string err;
          for (auto &o : r.result)
            if (!o.error.empty())
              err = o.error;
          if (!err.empty()) {
            ctx.taint = true;
            ctx.fail("linear-not-solved", err);
            return;
          }
          auto t = readTable("precice-B-iterations.log");
          ctx.require(t.size() == size_t(l.windows), "linear-log", [&] { return "log has " + std::to_string(t.size()) + " rows"; });
          for (auto &row : t) {
            ctx.count("iterations", long(row[2]));
            ctx.observe(row[2]);
            ctx.state(mix(mix(i, uint64_t(row[0])), uint64_t(row[2])));
          }
          ctx.count("transitions", long(t.size()));
          // solution of the last window
          std::vector<Vec> A(l.V, Vec(l.V + 1));
          for (int v = 0; v < l.V; ++v) {
            A[v][l.V] = b(l, l.windows, v);
            for (int j = 0; j < l.V; ++j)
              A[v][j] = (v == j ? 1 : 0) - M(l, v, j);
          }
          Vec x = solve(A);
          for (auto &ob : r.result[0].obs)
            if (ob.isField && ob.what.find(" end") != std::string::npos)
              for (int v = 0; v < l.V; ++v)
                ctx.require(near(ob.v[v], x[v], 1e-5), "linear-solution", [&] { return "vertex " + std::to_string(v) + " is " + std::to_string(ob.v[v]) + " solution " + std::to_string(x[v]); });
        });
  }
  (void) big;
  c.assumptions = {"2 and 3 participants of up to 3 ranks, 2 or 3 vertices", "IQN-IMVJ is not available without MPI"};
  return c.finish();
}
