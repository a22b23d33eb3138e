// C03: checkpoints, iterations and convergence of implicit coupling.
// The solvers play every script of values (two levels) over windows x iterations; which iterations converge,
// what the flags say and what the log files contain is compared with the model of the measures.
#include "../src/couple.hpp"
using namespace verif;

namespace {
struct MeasureSet {
  const char          *name;
  std::vector<Measure> m;
};
Measure M(char t, int ex, double lim, bool suff = false, bool strict = false, double rel = 1e-3)
{
  return {t, ex, lim, rel, suff, strict};
}

void compareLogs(CaseCtx &ctx, const Scenario &s, const Expectation &e, const CoupleRunner &r)
{
  if (!ctx.violations.empty() || !e.error.empty() || !r.out.finished)
    return;
  auto rows = [&](const std::vector<std::vector<double>> &t) {
    std::ostringstream o;
    for (auto &x : t) {
      o << "[";
      for (double d : x)
        o << d << " ";
      o << "]";
    }
    return o.str();
  };
  auto same = [&](const std::vector<std::vector<double>> &a, const std::vector<std::vector<double>> &b, size_t prefix) {
    if (a.size() != b.size())
      return false;
    for (size_t i = 0; i < a.size(); ++i) {
      if (a[i].size() < b[i].size() || (prefix == 0 && a[i].size() != b[i].size()))
        return false;
      for (size_t j = 0; j < b[i].size(); ++j)
        if (!std::isnan(b[i][j]) && !(a[i][j] == b[i][j] || near(a[i][j], b[i][j], 1e-7)))
          return false;
    }
    return true;
  };
  for (int p = 0; p < s.nParts; ++p) {
    std::string pre = "precice-" + Scenario::pname(p);
    auto        it  = readTable(pre + "-iterations.log");
    ctx.require(same(it, e.iterLog, 1), "iterations-log", [&] { return pre + "-iterations.log is " + rows(it) + " expected " + rows(e.iterLog); });
    if (s.isSecond(p)) {
      auto cv = readTable(pre + "-convergence.log");
      ctx.require(same(cv, e.convLog, 0), "convergence-log", [&] { return pre + "-convergence.log is " + rows(cv) + " expected " + rows(e.convLog); });
    } else
      ctx.require(!std::filesystem::exists(pre + "-convergence.log"), "convergence-log", [&] { return "unexpected " + pre + "-convergence.log"; });
  }
}
} // namespace

int main(int argc, char **argv)
{
  Campaign c("C03", argc, argv);
  c.technique = "explicit-state model of the iteration, every history executed on the implementation";
  c.rule      = "a case is a configuration and a script of values per window and iteration; distinct by the sequence of all flags, times and values observed on all ranks";
  Sched sched;
  RankLibs::get().load(c.lib, c.scratchDir(), 6, &sched);

  auto stage = [&](const std::string &name, uint64_t n, std::function<Scenario(uint64_t)> make, std::function<std::string(uint64_t)> more = {}) {
    c.stage(
        name, n, [&, make, more](uint64_t i) { return describe(make(i)) + (more ? more(i) : ""); },
        [&, make](CaseCtx &ctx, uint64_t i) {
          Scenario s = make(i);
          for (auto &f : std::filesystem::directory_iterator(ctx.dir))
            if (f.path().extension() == ".log")
              std::filesystem::remove(f.path());
          CoupleRunner r(s, sched, ctx.dir);
          r.exitOnError = true;
          Policy p;
          p.rendezvous = i % 2;
          p.order      = static_cast<int>(i / 2 % 3);
          r.run(p);
          Model m(s);
          auto  e = m.run();
          compare(ctx, s, e, r);
          compareLogs(ctx, s, e, r);
        });
  };
  bool big = c.thorough();

  // two-level scripts: bit (data, window, iteration)
  auto level = [](uint64_t bits, int W, int K) {
    return [=](int e, int w, int k, int, int v, int cc, const Vec &) {
      int    kk = std::min(k, K), ww = std::min(w, W);
      bool   up = bits >> (((e % 2) * W + (ww - 1)) * K + (kk - 1)) & 1;
      return 100.0 * (e + 1) + (up ? 10.0 : 0.0) + 0.01 * (3 * w + kk) + v * 0.125 + cc * 0.03125;
    };
  };
  struct MinMax {
    int lo, hi;
  };
  const std::vector<MinMax> MM = {{1, 3}, {2, 3}, {3, 3}, {1, 2}, {2, 2}, {1, 1}, {1, -1}, {2, -1}};
  const std::vector<MeasureSet> ONE = {
      {"abs D0", {M('a', 0, 1)}},
      {"abs D1", {M('a', 1, 1)}},
      {"rel D0", {M('r', 0, .05)}},
      {"rel D1", {M('r', 1, .02)}},
      {"residual-rel D0", {M('q', 0, .5)}},
      {"residual-rel D1", {M('q', 1, .5)}},
      {"abs-or-rel D1", {M('o', 1, 1e-6, false, false, .02)}},
      {"abs-or-rel D0", {M('o', 0, 1, false, false, 1e-6)}},
      {"strict abs D0", {M('a', 0, 1, false, true)}},
      {"strict rel D1", {M('r', 1, .02, false, true)}},
      {"suffices abs D1", {M('a', 1, 1, true)}},
  };
  const std::vector<MeasureSet> TWO = {
      {"both", {M('a', 0, 1), M('a', 1, 1)}},
      {"first suffices", {M('a', 0, 1, true), M('a', 1, 1)}},
      {"second suffices", {M('a', 0, 1), M('r', 1, .02, true)}},
      {"both suffice", {M('a', 0, 1, true), M('a', 1, 1, true)}},
      {"first strict", {M('a', 0, 1, false, true), M('a', 1, 1)}},
      {"second strict, first suffices", {M('r', 0, .05, true), M('a', 1, 1, false, true)}},
      {"first strict and suffices", {M('a', 0, 1, true, true), M('a', 1, 1)}},
      {"residual and absolute", {M('q', 0, .5, true), M('a', 1, 1)}},
      {"same data twice", {M('a', 0, 1), M('q', 0, .5, true)}},
      {"abs-or-rel", {M('o', 0, 1e-6, false, false, .05), M('a', 1, 1, true)}},
  };
  auto two = [](Scenario &s, bool flip) {
    s.ex = {{0, 1, false, true, 1, 1, 'r'}, {1, 0, false, true, 1, 1, 'r'}};
    if (flip)
      s.second = 0;
  };
  const std::vector<Scheme> IMP = {Scheme::SI, Scheme::PI};

  stage("one-measure", 2 * 2 * MM.size() * ONE.size() * 64, [&](uint64_t i) {
    Digits   d(i);
    Scenario s;
    s.scheme    = d.pick(IMP);
    two(s, d(2));
    auto mm     = d.pick(MM);
    s.minIt     = mm.lo;
    s.maxIt     = mm.hi;
    auto ms     = d.pick(ONE);
    s.measures  = ms.m;
    uint64_t b  = d(64);
    // the same script for both data
    s.value     = level(b | b << 6, 2, 3);
    if (s.maxIt < 0)
      for (auto &m : s.measures) {
        m.strict = false;
        if (m.type == 'q')
          m.type = 'a', m.limit = 1; // otherwise it need not ever converge
      }
    s.maxWindows = 2;
    return s;
  });
  {
    int K = big ? 3 : 2;
    uint64_t nb = 1ull << (4 * K);
    stage("two-measures", 2 * (big ? 2 : 1) * (big ? MM.size() : 5) * TWO.size() * nb, [&, K, nb](uint64_t i) {
      Digits   d(i);
      Scenario s;
      s.scheme   = d.pick(IMP);
      two(s, big ? d(2) : i / 2 % 3 == 0);
      auto mm    = MM[big ? d(MM.size()) : std::vector<int>{0, 1, 3, 6, 7}[d(5)]];
      s.minIt    = mm.lo;
      s.maxIt    = mm.hi;
      auto ms    = d.pick(TWO);
      s.measures = ms.m;
      uint64_t b = d(nb);
      s.value    = level(b, 2, K);
      if (s.maxIt < 0)
        for (auto &m : s.measures) {
          m.strict = false;
          if (m.type == 'q')
            m.type = 'a', m.limit = 1;
        }
      s.maxWindows = 2;
      return s;
    });
  }
  // three data: all combinations of suffices/strict of three measures x which of them converge
  stage("three-measures", 2 * 64 * 64, [&](uint64_t i) {
    Digits   d(i);
    Scenario s;
    s.scheme = d.pick(IMP);
    s.ex     = {{0, 1, false, true, 1, 1, 'r'}, {1, 0, false, true, 1, 1, 'r'}, {0, 1, false, true, 1, 1, 'r'}};
    int flags = d(64);
    for (int m = 0; m < 3; ++m)
      s.measures.push_back(M('a', m, 1, flags >> (2 * m) & 1, flags >> (2 * m + 1) & 1));
    uint64_t b   = d(64);
    s.maxIt      = 3;
    s.maxWindows = 1;
    s.value      = [=](int e, int, int k, int, int v, int, const Vec &) {
      bool up = k == 1 ? true : (b >> (e * 2 + std::min(k, 3) - 2) & 1);
      return 100.0 * (e + 1) + (up ? 10.0 : 0.0) + v * 0.125;
    };
    return s;
  });
  // multi coupling: the controller measures data of every participant
  const std::vector<MeasureSet> MUL = {
      {"to", {M('a', 0, 1)}},
      {"from", {M('a', 1, 1)}},
      {"two received", {M('a', 1, 1), M('a', 3, 1)}},
      {"received, sent", {M('a', 1, 1), M('a', 2, 1)}},
      {"suffices", {M('a', 1, 1, true), M('a', 3, 1)}},
      {"strict", {M('a', 0, 1, true), M('a', 3, 1, false, true)}},
  };
  stage("multi", 3 * 4 * MUL.size() * 256, [&](uint64_t i) {
    Digits   d(i);
    Scenario s;
    s.scheme     = Scheme::Multi;
    s.nParts     = 3;
    s.ranks      = {1, 1, 1};
    s.controller = d(3);
    auto mm      = d.pick<MinMax>({{1, 3}, {2, 3}, {2, 2}, {1, 2}});
    s.minIt      = mm.lo;
    s.maxIt      = mm.hi;
    s.measures   = d.pick(MUL).m;
    uint64_t b   = d(256);
    int      c0 = s.controller, c1 = (c0 + 1) % 3, c2 = (c0 + 2) % 3;
    s.ex         = {{c0, c1, false, true, 1, 1, 'r'}, {c1, c0, false, true, 1, 1, 'r'}, {c0, c2, false, true, 1, 1, 'r'}, {c2, c0, false, true, 1, 1, 'r'}};
    s.maxWindows = 2;
    auto l       = level(b, 2, 2);
    s.value      = [l](int e, int w, int k, int st, int v, int cc, const Vec &r) { return l(e < 2 ? 0 : 1, w, k, st, v, cc, r); };
    return s;
  });
  // distributed participants: the change is at vertices of some ranks only
  stage("ranks", 2 * 4 * 6 * 7 * 16 * 2, [&](uint64_t i) {
    Digits   d(i);
    Scenario s;
    s.scheme     = d.pick(IMP);
    s.ranks      = d.pick<std::vector<int>>({{1, 2}, {2, 2}, {2, 1}, {1, 3}});
    auto t       = d.pick<Measure>({M('a', 0, 1), M('a', 1, 1), M('r', 0, .05), M('r', 1, .02), M('q', 0, .5), M('o', 1, 1)});
    int  mask    = 1 + static_cast<int>(d(7));
    uint64_t b   = d(16);
    s.emptyRanks = d(2);
    s.ex         = {{0, 1, false, true, 1, 2, 'r'}, {1, 0, false, true, 1, 1, 'w'}};
    s.measures   = {t};
    s.V          = 3;
    s.maxIt      = 3;
    s.maxWindows = 2;
    s.value      = [=](int e, int w, int k, int, int v, int, const Vec &) {
      bool up = (mask >> v & 1) && (b >> ((std::min(w, 2) - 1) * 2 + std::min(k, 2) - 1) & 1);
      return 10.0 * (e + 1) + (up ? 10.0 : 0.0) + 0.01 * k;
    };
    return s;
  });
  // values at the limits of the measures
  const std::vector<double> DIFF = {0, .125, .25 - 1. / 1024, .25, .25 + 1. / 1024, .5, 1, 4};
  stage("limits", 2 * 2 * 5 * 8 * 8 * 2, [&](uint64_t i) {
    Digits   d(i);
    Scenario s;
    s.scheme  = d.pick(IMP);
    int  ex   = d(2);
    int  type = d(5);
    double d1 = d.pick(DIFF), d2 = d.pick(DIFF);
    bool down = d(2);
    s.ex      = {{0, 1, false, true, 1, 1, 'r'}, {1, 0, false, true, 1, 1, 'r'}};
    s.V       = 1;
    s.maxWindows = 1;
    s.maxIt   = 4;
    // abs limit .25; rel: values 1 -> limit .25; residual: first residual 1, limit .25
    double base = 1;
    switch (type) {
    case 0:
      s.measures = {M('a', ex, .25)};
      break;
    case 1:
      s.measures = {M('r', ex, .25)};
      break;
    case 2:
      s.measures = {M('q', ex, .25)};
      break;
    case 3:
      s.measures = {M('o', ex, .25, false, false, 1e-5)};
      break;
    default:
      s.measures = {M('o', ex, 1e-5, false, false, .25)};
    }
    s.value = [=](int, int, int k, int, int, int, const Vec &) {
      double sg = down ? -1 : 1;
      if (k == 1)
        return base;
      if (k == 2)
        return base + sg * d1;
      if (k == 3)
        return base + sg * d1 + d2;
      return base + sg * d1 + d2 + 7;
    };
    return s;
  });
  // substeps and initial data: the measure looks at the end of the window
  stage("substeps", 2 * 2 * 4 * 4 * 16 * 3, [&](uint64_t i) {
    Digits   d(i);
    Scenario s;
    s.scheme  = d.pick(IMP);
    s.second  = d(2);
    int  in   = d(4);
    int  sb   = d(4);
    uint64_t b = d(16);
    int  pl   = d(3);
    s.ex      = {{0, 1, bool(in & 1), bool(sb & 1), 1, 1, 'r'}, {1, 0, bool(in & 2), bool(sb & 2), 1, 1, 'r'}};
    s.measures = {M('a', 0, 1), M('a', 1, 1)};
    s.maxIt    = 3;
    s.maxWindows = 2;
    s.plan     = [=](int p, int w, int k) {
      if (pl == 0)
        return std::vector<double>{1.0};
      if (pl == 1)
        return p == 0 ? std::vector<double>{.5, .5} : std::vector<double>{1.0};
      return (w + k) % 2 ? std::vector<double>{.25, .5, .25} : std::vector<double>{.5, .5};
    };
    s.initial  = [](int e, int v, int) { return 100.0 * (e + 1) + v * .125; };
    s.value    = [=](int e, int w, int k, int st, int v, int, const Vec &) {
      int  kk = std::min(k, 2);
      bool up = b >> ((std::min(w, 2) - 1) * 2 + kk - 1) & 1;
      // the last step of the window decides; inner steps always move
      auto n  = pl == 0 ? 1 : pl == 1 ? (e == 0 ? 2 : 1) : ((w + k) % 2 ? 3 : 2);
      bool last = st + 1 == n;
      return 100.0 * (e + 1) + v * .125 + (last ? (up ? 10.0 : 0.0) : 40.0 * k);
    };
    return s;
  });
  return c.finish();
}
