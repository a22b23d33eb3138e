// C01: every execution completes and all ranks of all participants agree on its course, under every
// schedule.  Each scenario is run (a) under fixed policies: buffered and rendezvous transport, three orders
// of scheduling; (b) under every schedule and every answer of pending requests that departs from the default
// in a bounded number of places.
#include "couple.hpp"
using namespace verif;

namespace {
const std::vector<std::vector<double>> PLANS{{1.0}, {.5, 1}, {.25, .5, 1}};
const std::vector<Scheme>              BI{Scheme::SE, Scheme::PE, Scheme::SI, Scheme::PI};
const std::vector<std::string>         M2N{"", "enforce-gather-scatter=\"true\"", "use-two-level-initialization=\"true\""};
const std::vector<std::vector<int>>    RANKS{{1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 1}, {1, 3}, {3, 2}, {2, 3}, {3, 3}};

// two-level initialization requires parallel participants; what it does not support is explored separately
std::string m2nFor(int m, const std::vector<int> &ranks)
{
  for (int r : ranks)
    if (m == 2 && (r != 2 || ranks.size() > 2))
      return "enforce-gather-scatter=\"false\"";
  return M2N[m];
}
Scenario two(Scheme sc, const std::vector<int> &ranks, int m2n, bool acc, bool empty, int mode, bool both)
{
  Scenario s;
  s.scheme     = sc;
  s.ranks      = ranks;
  s.m2nExtra   = m2nFor(m2n, ranks);
  s.acceptor   = acc;
  s.emptyRanks = empty;
  s.V          = 4;
  s.ex         = {{0, 1, both, true, 1, 1, mode & 1 ? 'r' : 'w'}};
  if (both || isImplicit(sc))
    s.ex.push_back({1, 0, !both, false, 1, 2, mode & 2 ? 'r' : 'w'});
  s.maxWindows = 2;
  s.maxIt      = 2;
  s.plan       = [](int p, int w, int k) { return PLANS[(p + w + k) % 3]; };
  return s;
}
Scenario multi(int n, int ctl, int rk, int m2n, bool acc, bool empty)
{
  Scenario s;
  s.scheme     = Scheme::Multi;
  s.nParts     = n;
  s.controller = ctl;
  s.acceptor   = acc;
  s.emptyRanks = empty;
  s.V          = 3;
  s.ranks.clear();
  for (int p = 0; p < n; ++p)
    s.ranks.push_back(rk >> p & 1 ? 2 : 1);
  s.m2nExtra = m2nFor(m2n, s.ranks);
  for (int p = 0; p < n; ++p)
    if (p != ctl) {
      s.ex.push_back({ctl, p, p % 2 == 0, true, 1, 1, 'r'});
      s.ex.push_back({p, ctl, p % 2 == 1, false, 1, 1, 'w'});
    }
  s.maxWindows = 2;
  s.maxIt      = 2;
  s.plan       = [](int p, int w, int k) { return PLANS[(p + w + k) % 3]; };
  return s;
}
Scenario chain(int kinds, int rk, int m2n, bool acc)
{
  Scenario s;
  s.nParts   = 3;
  s.ranks    = {1 + (rk & 1), 1 + (rk >> 1 & 1), 1 + (rk >> 2 & 1)};
  s.m2nExtra = M2N[m2n];
  s.m2nExtra = m2nFor(m2n, s.ranks);
  s.acceptor = acc;
  s.V        = 3;
  Scheme a   = BI[kinds % 4], b = BI[kinds / 4 % 2];
  s.subs     = {{a, 0, 1, {}, -1}, {b, 1, 2, {}, -1}};
  if (kinds / 8)
    for (auto &x : s.subs)
      std::swap(x.first, x.second);
  s.ex = {{0, 1, true, true, 1, 1, 'r', 0}, {1, 0, false, false, 1, 1, 'r', 0}, {1, 2, false, true, 1, 1, 'w', 1}, {2, 1, true, false, 1, 1, 'r', 1}};
  s.maxWindows = 2;
  s.maxIt      = 2;
  s.plan       = [](int p, int w, int k) { return PLANS[(p + w + k) % 3]; };
  return s;
}
} // namespace

int main(int argc, char **argv)
{
  Campaign c("C01", argc, argv);
  c.rule = "an execution is one scenario under one schedule; distinct executions are those with different observations or a different number of context switches and messages";
  Sched sched;
  RankLibs::get().load(c.lib, c.scratchDir(), 8, &sched);
  bool big = c.thorough();

  auto once = [&](CaseCtx &ctx, const Scenario &s, const Expectation &e, const Policy &p) {
    CoupleRunner r(s, sched, ctx.dir);
    r.run(p);
    compare(ctx, s, e, r);
    if (s.wait) { // connected participants leave finalize() together
      auto primary = [&](int p) {
        for (size_t i = 0; i < r.who.size(); ++i)
          if (r.who[i] == std::pair<int, int>{p, 0})
            return i;
        return r.who.size();
      };
      for (auto &x : s.ex) {
        auto &a = r.result[primary(x.from)], &b = r.result[primary(x.to)];
        if (a.completed && b.completed && (a.ended < b.ending || b.ended < a.ending))
          ctx.fail("did not wait in finalize", "connected " + Scenario::pname(x.from) + " and " + Scenario::pname(x.to) + ": calls " + std::to_string(a.ending) + " " + std::to_string(b.ending) + ", returns " + std::to_string(a.ended) + " " + std::to_string(b.ended));
        ctx.count("pairs that waited for each other");
      }
    }
    ctx.outcome(mix(mix(ctx.digest, static_cast<uint64_t>(r.out.switches)), static_cast<uint64_t>(r.out.messages)));
    return r.out;
  };
  auto policies = [&](const std::string &name, uint64_t n, std::function<Scenario(uint64_t)> make) {
    c.stage(name, n * 6, [=](uint64_t i) { return describe(make(i / 6)) + (i % 2 ? " rendezvous" : " buffered") + " order " + std::to_string(i / 2 % 3); },
            [&, make](CaseCtx &ctx, uint64_t i) {
              Scenario s = make(i / 6);
              Policy   p;
              p.rendezvous = i % 2;
              p.order      = static_cast<int>(i / 2 % 3);
              once(ctx, s, Model(s).run(), p);
            });
  };
  policies("two", 4 * 9 * 3 * 2 * 2 * 4 * 2, [](uint64_t i) {
    Digits d(i);
    auto   sc = d.pick(BI);
    auto   rk = d.pick(RANKS);
    int    m = d(3), a = d(2), e = d(2), mo = d(4), bo = d(2);
    return two(sc, rk, m, a, e, mo, bo);
  });
  policies("multi3", 3 * 8 * 3 * 2 * 2, [](uint64_t i) {
    Digits d(i);
    int    ct = d(3), rk = d(8), m = d(3), a = d(2), e = d(2);
    return multi(3, ct, rk, m, a, e);
  });
  policies("multi-graphs", 27 * 3 * 8 * 3, [](uint64_t i) {
    Digits   d(i);
    Scenario s;
    s.scheme     = Scheme::Multi;
    s.nParts     = 3;
    s.controller = d(3);
    int rk = d(8), m = d(3);
    s.ranks = {1 + (rk & 1), 1 + (rk >> 1 & 1), 1 + (rk >> 2)};
    s.V     = 3;
    for (int p = 0; p < 3; ++p) {
      int to = 1 + d(3); // whom it sends to
      for (int k = 0; k < 2; ++k)
        if (to >> k & 1)
          s.ex.push_back({p, (p + 1 + k) % 3, (p + k + rk) % 2 == 0, (p + k) % 2 == 1, 1, 1, (p + k + m) & 1 ? 'w' : 'r'});
    }
    s.m2nExtra   = m2nFor(m, s.ranks);
    s.maxWindows = 2;
    s.maxIt      = 2;
    s.plan       = [](int p, int w, int k) { return PLANS[(p + w + k) % 3]; };
    return s;
  });
  policies("multi4", 4 * 16 * 3 * 2, [](uint64_t i) {
    Digits d(i);
    int    ct = d(4), rk = d(16), m = d(3), a = d(2);
    return multi(4, ct, rk, m, a, false);
  });
  policies("chain", 16 * 8 * 3 * 2, [](uint64_t i) {
    Digits d(i);
    int    k = d(16), rk = d(8), m = d(3), a = d(2);
    return chain(k, rk, m, a);
  });

  // wait-in-finalize
  policies("finalize", 4 * 4 * 2 * 3 * 4, [](uint64_t i) {
    Digits d(i);
    int    shape = d(4), rk = d(4), acc = d(2), m = d(3), end = d(4);
    int    second = rk >> 1 & 1;
    Scenario s;
    if (shape < 2)
      s = two(shape ? Scheme::PE : Scheme::SE, {1 + (rk & 1), 1 + second}, m, acc, false, m, false);
    else if (shape == 2)
      s = multi(3, second, (rk & 1) * 5, m, acc, false);
    else
      s = chain(second * 8, (rk & 1) * 3, m, acc);
    s.wait        = true;
    s.implicitEnd = end == 3 ? 7 : end;
    return s;
  });
  // limits of the two-level initialization: listed findings
  policies("two-level-limits", 4, [](uint64_t i) {
    Scenario s = i < 2 ? two(BI[i], {2, 3}, 0, false, false, 3, true) : multi(3, 0, 7, 0, i == 2, false);
    s.m2nExtra = M2N[2];
    s.tag      = i < 2 ? "two-level initialization over sockets with three ranks" : "two-level initialization of a mesh received by several participants";
    s.onlyTag  = true;
    return s;
  });
  // bounded deviations
  auto deviations = [&](const std::string &name, int bound, std::vector<Scenario> list, bool tests, bool scheds) {
    c.stage(name, list.size() * 2, [=](uint64_t i) { return describe(list[i / 2]) + (i % 2 ? " rendezvous" : " buffered") + ": all executions with at most " + std::to_string(bound) + " deviations"; },
            [&, list, bound, tests, scheds](CaseCtx &ctx, uint64_t i) {
              const Scenario &s = list[i / 2];
              auto            e = Model(s).run();
              Policy          p;
              p.rendezvous       = i % 2;
              p.exploreTests     = tests;
              p.exploreSchedules = scheds;
              std::vector<int> bad;
              long             n = exploreDeviations(
                  bound,
                  [&](const std::vector<int> &prefix) {
                    p.prefix  = prefix;
                    auto   v0 = ctx.violations.size();
                    auto   o  = once(ctx, s, e, p);
                    if (ctx.violations.size() > v0) {
                      std::string t = " schedule:";
                      for (size_t k = 0; k < prefix.size(); ++k)
                        if (prefix[k])
                          t += " " + o.choices[k].what + "@" + std::to_string(k) + "->" + std::to_string(prefix[k]);
                      for (size_t k = v0; k < ctx.violations.size(); ++k)
                        ctx.violations[k].second += t;
                    }
                    if (prefix.empty())
                      ctx.count("choice points on default schedules", static_cast<long>(o.choices.size()));
                    return o;
                  },
                  [&] { return ctx.violations.empty(); });
              ctx.count("schedules explored by deviation", n);
            });
  };
  std::vector<Scenario> tiny, small, more;
  auto                  shorten = [](Scenario s, int windows) {
    s.maxWindows = windows;
    s.V          = 3;
    return s;
  };
  for (auto sc : BI)
    for (int m = 0; m < 3; ++m) {
      tiny.push_back(shorten(two(sc, {1, 1}, m, false, false, 1, true), 1));
      for (auto rk : std::vector<std::vector<int>>{{2, 1}, {1, 2}, {2, 2}})
        small.push_back(shorten(two(sc, rk, m, m == 1, false, 1, true), 1));
      for (auto rk : std::vector<std::vector<int>>{{2, 2}, {3, 2}, {2, 3}})
        for (int em = 0; em < 2; ++em)
          more.push_back(shorten(two(sc, rk, m, m != 1, em, 2, true), 2));
    }
  for (int ct = 0; ct < 3; ++ct)
    small.push_back(shorten(multi(3, ct, ct, 0, false, false), 1));
  for (int k = 0; k < 16; ++k)
    (big ? more : small).push_back(shorten(chain(k, k % 8, k % 2, false), 1));
  std::vector<Scenario> waiting;
  for (auto sc : {Scheme::SE, Scheme::PE, Scheme::SI})
    for (int k = 0; k < 4; ++k) {
      waiting.push_back(shorten(two(sc, {1 + k % 2, 1 + k / 2}, 0, k == 1, false, 1, false), 1));
      waiting.back().wait = true;
    }
  deviations("finalize-schedules", 1, waiting, true, true);
  deviations("tests", 2, tiny, true, false);
  deviations("tests-ranks", 1, small, true, false);
  deviations("schedules", 1, small, false, true);
  deviations("schedules-tiny", big ? 2 : 1, tiny, true, true);
  if (big) {
    deviations("schedules-more", 1, more, true, true);
    std::vector<Scenario> few(small.begin(), small.begin() + 12);
    deviations("tests-ranks-2", 2, few, true, false);
  }
  return c.finish();
}
