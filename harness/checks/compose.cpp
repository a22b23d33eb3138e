// C06: compositions of several coupling schemes.  Every execution of the space below is run on the real
// library; control flow, step sizes and every value read are compared with the reference model.
#include "couple.hpp"
using namespace verif;

namespace {
const std::vector<std::vector<double>> PLANS{{1.0}, {.5, 1}, {.25, 1}, {.3, .3, .3, 1}, {.1, .1, .1, .1, .1, .1, .1, .1, .1, 1}};
struct DS {
  int  degree;
  bool substeps;
};
const std::vector<DS> DSS{{0, false}, {1, false}, {1, true}, {3, true}};
// kinds of a scheme between a and b
Sub kind(int k, int a, int b)
{
  switch (k) {
  case 0:
    return {Scheme::SE, a, b, {}, -1};
  case 1:
    return {Scheme::SE, b, a, {}, -1};
  case 2:
    return {Scheme::PE, a, b, {}, -1};
  case 3:
    return {Scheme::SI, a, b, {}, -1};
  case 4:
    return {Scheme::SI, b, a, {}, -1};
  default:
    return {Scheme::PI, a, b, {}, -1};
  }
}
// all assignments of kinds to a list of pairs with at most one implicit scheme and no serial cycle
std::vector<std::vector<int>> assignments(const std::vector<std::pair<int, int>> &pairs, int n)
{
  std::vector<std::vector<int>> out;
  std::vector<int>              k(pairs.size(), 0);
  while (true) {
    int imp = 0;
    for (int x : k)
      imp += x >= 3;
    if (imp <= 1) {
      // acyclic? groups: participants of the implicit scheme are one node
      std::vector<int> g(n);
      for (int i = 0; i < n; ++i)
        g[i] = i;
      for (size_t i = 0; i < k.size(); ++i)
        if (k[i] >= 3)
          g[pairs[i].second] = g[pairs[i].first];
      std::vector<std::vector<int>> reach(n, std::vector<int>(n, 0));
      bool                          ok = true;
      for (size_t i = 0; i < k.size(); ++i)
        if (k[i] < 2) {
          auto s = kind(k[i], pairs[i].first, pairs[i].second);
          if (g[s.first] == g[s.second])
            ok = false;
          reach[g[s.first]][g[s.second]] = 1;
        } else if (k[i] == 2 && g[pairs[i].first] == g[pairs[i].second])
          ok = false;
      for (int m = 0; m < n; ++m)
        for (int a = 0; a < n; ++a)
          for (int b = 0; b < n; ++b)
            reach[a][b] |= reach[a][m] && reach[m][b];
      for (int a = 0; a < n; ++a)
        ok = ok && !reach[a][a];
      if (ok)
        out.push_back(k);
    }
    size_t i = 0;
    while (i < k.size() && ++k[i] == 6)
      k[i++] = 0;
    if (i == k.size())
      return out;
  }
}
// known limits of the implementation become part of the key of a violation
void tagCycle(Scenario &s)
{
  std::vector<int> g(s.nParts);
  for (int i = 0; i < s.nParts; ++i)
    g[i] = i;
  for (auto &b : s.subs) {
    if (b.scheme == Scheme::Multi)
      continue;
    if (g[b.first] == g[b.second])
      s.tag = "ring";
    int o = g[b.second], n = g[b.first];
    for (auto &x : g)
      if (x == o)
        x = n;
  }
  for (auto &e : s.ex)
    if (e.data >= 0 && e.substeps && isImplicit(s.subs[e.sub].scheme) != isImplicit(s.subs[s.ex[e.data].sub].scheme))
      s.tag = "substeps of one data item in an implicit and an explicit scheme";
}

/// Explicit schemes of different window sizes.  A participant synchronizes at the ends of the windows of all its
/// schemes; what it reads belongs to the window of the scheme the data is exchanged in.
Expectation mixed(const Scenario &sc)
{
  struct Step {
    double t, dt, maxdt;
    int    w, s;
    bool   end;
  };
  Expectation out;
  out.part.resize(sc.nParts);
  auto close = [](double a, double b) { return std::fabs(a - b) < 1e-12; };
  auto inSub = [&](const Sub &b, int p) { return b.first == p || b.second == p; };
  auto bound = [&](const Sub &b, double t, double &lo, double &hi) { // the window of the scheme at time t
    int n = static_cast<int>(std::floor(t / b.size + 1e-9));
    lo    = n * b.size;
    hi    = std::min(lo + b.size, sc.maxTime);
  };
  std::vector<std::vector<Step>> steps(sc.nParts);
  for (int p = 0; p < sc.nParts; ++p) {
    double t = 0;
    int    w = 1, s = 0;
    while (!close(t, sc.maxTime)) {
      double next = sc.maxTime, lo, hi;
      for (auto &b : sc.subs)
        if (inSub(b, p)) {
          bound(b, t, lo, hi);
          next = std::min(next, hi);
        }
      auto   plan  = sc.plan(p, w, 1);
      double maxdt = next - t;
      double dt    = s + 1 < static_cast<int>(plan.size()) ? std::min(plan[s] * sc.size, maxdt) : maxdt;
      bool   end   = close(dt, maxdt);
      steps[p].push_back({t, dt, maxdt, w, s, end});
      t = end ? next : t + dt;
      ++s;
      if (end)
        ++w, s = 0;
    }
  }
  // samples a participant stores for the data it writes
  std::vector<std::vector<std::pair<double, Vec>>> written(sc.ex.size());
  auto dims = [&](int e) { return sc.ex[e].dims == 1 ? 1 : sc.xdim; };
  for (size_t e = 0; e < sc.ex.size(); ++e) {
    int  p   = sc.ex[e].from;
    bool sub = false;
    for (auto &x : sc.ex)
      sub = sub || (x.from == p && x.substeps);
    Vec v(sc.V * dims(e), 0.0);
    if (sc.ex[e].init)
      for (size_t i = 0; i < v.size(); ++i)
        v[i] = sc.initial(e, i / dims(e), i % dims(e));
    written[e].push_back({0.0, v});
    for (auto &st : steps[p]) {
      if (!st.end && !sub)
        continue;
      for (size_t i = 0; i < v.size(); ++i)
        v[i] = sc.value(e, st.w, 1, st.s, i / dims(e), i % dims(e), {});
      written[e].push_back({st.t + st.dt, v});
    }
  }
  auto waveAt = [&](size_t e, double t) {
    auto  &x = sc.ex[e];
    auto  &b = sc.subs[x.sub];
    double lo, hi;
    bound(b, t, lo, hi);
    bool final = close(t, sc.maxTime);
    if (final)
      lo = sc.maxTime;
    Wave w;
    w.degree = x.degree;
    for (auto &[ts, v] : written[e]) {
      if (close(ts, lo))
        w.s = {{ts, v}};
      else if (!final && ts > lo && ts < hi + 1e-12 && b.scheme == Scheme::SE && x.to == b.second && (x.substeps || close(ts, hi)))
        w.put(ts, v);
    }
    return w;
  };
  auto num   = [&](int p, const std::string &what, double v) { out.part[p].push_back({what, v, {}, false}); };
  auto reads = [&](int p, double t, double rel, const std::string &what) {
    for (size_t e = 0; e < sc.ex.size(); ++e)
      if (sc.ex[e].to == p)
        out.part[p].push_back({"read " + sc.dn(e) + " " + what, 0, waveAt(e, t).at(t + rel), true});
  };
  for (int p = 0; p < sc.nParts; ++p) {
    bool need = false;
    for (auto &e : sc.ex)
      need = need || (e.from == p && e.init);
    num(p, "requiresInitialData", need);
    num(p, "ongoing", 1);
    num(p, "timeWindowComplete", 0);
    num(p, "writeCheckpoint", 0);
    for (auto &st : steps[p]) {
      num(p, "maxdt", st.maxdt);
      reads(p, st.t, 0, "begin");
      reads(p, st.t, st.dt / 2, "mid");
      reads(p, st.t, st.dt, "stepend");
      reads(p, st.t, st.maxdt, "windowend");
      num(p, "readCheckpoint", 0);
      num(p, "timeWindowComplete", st.end);
      num(p, "ongoing", !close(st.t + st.dt, sc.maxTime));
      num(p, "writeCheckpoint", 0);
      out.iterations++;
      out.states.push_back(mix(mix(mix(17, uint64_t(p)), st.t), uint64_t(sc.subs.size())));
    }
    num(p, "maxdt", 0);
    reads(p, sc.maxTime, 0, "end");
    out.windows += steps[p].back().w;
  }
  return out;
}
} // namespace

int main(int argc, char **argv)
{
  Campaign c("C06", argc, argv);
  c.maxViolations = 100000;
  c.rule = "every combination of the listed scenario dimensions is executed on the real library; an execution is counted as distinct if the sequence of observations of the solvers differs";
  Sched sched;
  RankLibs::get().load(c.lib, c.scratchDir(), 6, &sched);
  auto stage = [&](const std::string &name, uint64_t n, std::function<Scenario(uint64_t)> make) {
    c.stage(name, n, [=](uint64_t i) { return describe(make(i)); }, [&, make](CaseCtx &ctx, uint64_t i) {
      Scenario     s = make(i);
      tagCycle(s);
      CoupleRunner r(s, sched, ctx.dir);
      Policy       p;
      p.rendezvous = i % 2;
      p.order      = static_cast<int>(i / 2 % 3);
      r.run(p);
      auto e = s.subs[0].size > 0 ? mixed(s) : Model(s).run();
      compare(ctx, s, e, r);
    });
  };
  auto build = [](Scenario &s, const std::vector<std::pair<int, int>> &pairs, const std::vector<int> &kinds, bool reverse, const DS &a, const DS &b, int init, int dir) {
    std::vector<size_t> idx;
    for (size_t i = 0; i < pairs.size(); ++i)
      idx.push_back(reverse ? pairs.size() - 1 - i : i);
    for (size_t q = 0; q < idx.size(); ++q) {
      auto [x, y] = pairs[idx[q]];
      s.subs.push_back(kind(kinds[idx[q]], x, y));
      int sub = static_cast<int>(q);
      if (dir != 2 || kinds[idx[q]] >= 3)
        s.ex.push_back({x, y, bool(init & 1), a.substeps, a.degree, 1, 'r', sub, -1});
      if (dir != 1 || kinds[idx[q]] >= 3)
        s.ex.push_back({y, x, bool(init & 2), b.substeps, b.degree, 2, q % 2 ? 'w' : 'r', sub, -1});
    }
  };
  const std::vector<std::vector<std::pair<int, int>>> TOP{{{0, 1}, {1, 2}}, {{0, 1}, {0, 2}}, {{0, 1}, {1, 2}, {0, 2}}};
  const std::vector<std::vector<std::pair<int, int>>> TOP4{{{0, 1}, {1, 2}, {2, 3}}, {{0, 1}, {0, 2}, {0, 3}}, {{0, 1}, {1, 2}, {2, 3}, {3, 0}}};
  bool big = c.thorough();

  for (size_t t = 0; t < TOP.size(); ++t) {
    auto pairs = TOP[t];
    auto as    = assignments(pairs, 3);
    stage("three-" + std::to_string(t), as.size() * 2 * (big || t < 2 ? 4 * 4 : 2 * 2) * 5 * (big ? 12 : 1), [=](uint64_t i) {
      Digits   d(i);
      Scenario s;
      s.nParts   = 3;
      s.ranks    = {1, 1, 1};
      auto k     = d.pick(as);
      bool rev   = d(2);
      bool all   = big || t < 2;
      auto a     = DSS[all ? d(4) : 2 * d(2)];
      int  init  = all ? d(4) : 3 * d(2);
      int  pl    = d(5);
      int  more  = big ? d(12) : static_cast<int>((init + pl) % 12);
      build(s, pairs, k, rev, a, DSS[(i / 7) % 4], init, more % 3);
      s.maxWindows = 2 + more % 2;
      s.maxIt      = 1 + more % 3;
      s.size       = more % 4 == 3 ? 0.3 : 1.0;
      s.plan       = [=](int p, int w, int k) { return PLANS[(pl + p + w * 2 + k * 3) % 5]; };
      return s;
    });
  }
  // one data item of a participant goes to several receivers in different schemes; the ranks vary
  {
    auto pairs = TOP[1];
    auto as    = assignments(pairs, 3);
    stage("shared", as.size() * 2 * 3 * 2 * 5 * 4, [=](uint64_t i) {
      Digits   d(i);
      Scenario s;
      s.nParts  = 3;
      auto k    = d.pick(as);
      bool rev  = d(2);
      auto a    = d.pick<DS>({{1, false}, {1, true}, {2, true}});
      bool init = d(2);
      int  pl   = d(5);
      int  rk   = d(4);
      s.ranks   = {1 + (rk & 1), 1, 1 + (rk >> 1)};
      s.V       = 3;
      for (int q = 0; q < 2; ++q) {
        auto [x, y] = pairs[rev ? 1 - q : q];
        s.subs.push_back(kind(k[rev ? 1 - q : q], x, y));
        s.ex.push_back({x, y, init, a.substeps, a.degree, 1, 'r', q, q == 0 ? -1 : 0});
        s.ex.push_back({y, x, false, false, 1, 1, 'r', q, -1});
      }
      s.maxWindows = 2;
      s.maxIt      = 2;
      s.plan       = [=](int p, int w, int k) { return PLANS[(pl + p + w * 2 + k * 3) % 5]; };
      return s;
    });
  }
  // window sizes whose sums are not exact, cut by max-time
  {
    auto pairs = TOP[0];
    auto as    = assignments(pairs, 3);
    stage("times", as.size() * 6 * 4 * 5 * 2, [=](uint64_t i) {
      Digits   d(i);
      Scenario s;
      s.nParts  = 3;
      s.ranks   = {1, 1, 1};
      auto k    = d.pick(as);
      s.size    = d.pick<double>({0.1, 0.3, 1. / 3, 0.7, 1e-3, 10});
      int mt    = d(4);
      if (mt == 3)
        s.maxWindows = 5;
      else
        s.maxTime = s.size * std::vector<double>{0.6, 2.5, 3.0}[mt];
      int  pl   = d(5);
      bool rev  = d(2);
      build(s, pairs, k, rev, DSS[2], DSS[1], 1, 0);
      s.maxIt = 2;
      s.plan  = [=](int p, int w, int k) { return PLANS[(pl + p + w * 2 + k * 3) % 5]; };
      return s;
    });
  }
  for (size_t t = 0; t < TOP4.size(); ++t) {
    auto pairs = TOP4[t];
    auto as    = assignments(pairs, 4);
    stage("four-" + std::to_string(t), as.size() * 2 * (big ? 10 : 1), [=](uint64_t i) {
      Digits   d(i);
      Scenario s;
      s.nParts  = 4;
      s.ranks   = {1, 1, 1, 1};
      auto k    = d.pick(as);
      bool rev  = d(2);
      int  pl   = big ? d(10) : static_cast<int>(i % 5);
      build(s, pairs, k, rev, DSS[pl % 4], DSS[(pl + 1) % 4], pl % 4, 0);
      s.maxWindows = 2;
      s.maxIt      = 2;
      s.plan       = [=](int p, int w, int k) { return PLANS[(pl + p + w * 2 + k * 3) % 5]; };
      return s;
    });
  }
  // a multi scheme next to explicit schemes
  stage("multi", 3 * 3 * 4 * 3 * 2 * 4 * 5, [=](uint64_t i) {
    Digits   d(i);
    Scenario s;
    s.nParts  = 4;
    s.ranks   = {1, 1, 1, 1};
    int  ctl  = d(3);
    int  with = d(3);
    auto a    = d.pick(DSS);
    int  kd   = d(3);
    bool rev  = d(2);
    int  init = d(4);
    int  pl   = d(5);
    Sub  m{Scheme::Multi, 0, 0, {0, 1, 2}, ctl}, e = kind(kd, with, 3);
    s.subs = rev ? std::vector<Sub>{e, m} : std::vector<Sub>{m, e};
    int im = rev ? 1 : 0, ie = 1 - im;
    for (int q = 0; q < 3; ++q)
      if (q != ctl) {
        s.ex.push_back({ctl, q, bool(init & 1), a.substeps, a.degree, 1, 'r', im, -1});
        s.ex.push_back({q, ctl, bool(init & 2), false, 1, 2, 'w', im, -1});
      }
    s.ex.push_back({with, 3, bool(init & 1), a.substeps, a.degree, 1, 'r', ie, -1});
    s.ex.push_back({3, with, bool(init & 2), true, 1, 1, 'r', ie, -1});
    s.maxWindows = 2;
    s.maxIt      = 2;
    s.plan       = [=](int p, int w, int k) { return PLANS[(pl + p + w * 2 + k * 3) % 5]; };
    return s;
  });
  // explicit schemes of different window sizes
  const std::vector<std::vector<double>> SIZES{{1, 2, 4}, {2, 1, 1}, {2, 3, 1}, {3, 2, 2}, {1, 0.5, 0.75}, {0.75, 0.5, 1}};
  std::vector<std::vector<std::pair<int, int>>> TREES{TOP[0], TOP[1], TOP4[0], TOP4[1]};
  for (size_t t = 0; t < TREES.size(); ++t) {
    auto                          pairs = TREES[t];
    std::vector<std::vector<int>> as;
    int                           n = t < 2 ? 3 : 4;
    for (auto &a : assignments(pairs, n))
      if (std::all_of(a.begin(), a.end(), [](int k) { return k < 3; }))
        as.push_back(a);
    stage("sizes-" + std::to_string(t), as.size() * SIZES.size() * 2 * 3 * 5 * (t < 2 ? 3 * 2 * 2 : 1), [=](uint64_t i) {
      Digits   d(i);
      Scenario s;
      s.nParts   = n;
      s.ranks    = std::vector<int>(n, 1);
      auto k     = d.pick(as);
      auto sizes = d.pick(SIZES);
      bool rev   = d(2);
      s.maxTime  = d.pick<double>({6, 2.5, 0.75});
      int pl     = d(5);
      int a = t < 2 ? d(3) : i % 3, in = t < 2 ? d(2) : i / 3 % 2, m = t < 2 ? d(2) : i / 5 % 2;
      std::vector<DS> ds{{1, false}, {1, true}, {1, i % 2 == 0}};
      build(s, pairs, k, rev, ds[a], ds[(a + m) % 3], in ? 3 : 0, 0);
      if (m && rev)
        std::swap(s.ranks[0], s.ranks[1]), s.ranks[1] = 2;
      for (size_t q = 0; q < s.subs.size(); ++q)
        s.subs[q].size = sizes[q];
      s.plan = [=](int p, int w, int k) { return PLANS[(pl + p + w * 2 + k * 3) % 5]; };
      return s;
    });
  }
  return c.finish();
}
