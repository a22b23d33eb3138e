// C02: the time-stepping contract
#include "../src/session.hpp"
using namespace verif;

namespace {
const char *TAGS[] = {"serial-explicit", "parallel-explicit", "serial-implicit", "parallel-implicit"};

struct Case {
  int    scheme = 0;
  double size   = 1;
  int    maxWindows = -1;
  double maxTime    = -1;
  double sdt[2]     = {1, 1}; // step size the solver would like to use
  int    second     = 1;
  int    iterations = 2;
  bool   first      = false; // first-participant method
  std::vector<double> sizes; // windows of the first participant
  int    ranks[2] = {1, 1};
};

std::string xml(const Case &c)
{
  std::ostringstream o;
  o.precision(17);
  o << "<precice-configuration><log enabled=\"false\"/><profiling mode=\"off\"/><data:scalar name=\"X\" waveform-degree=\"1\"/><data:scalar name=\"Y\" waveform-degree=\"1\"/>"
       "<mesh name=\"MA\" dimensions=\"2\"><use-data name=\"X\"/><use-data name=\"Y\"/></mesh><mesh name=\"MB\" dimensions=\"2\"><use-data name=\"X\"/><use-data name=\"Y\"/></mesh>"
       "<participant name=\"A\"><provide-mesh name=\"MA\"/><write-data name=\"X\" mesh=\"MA\"/><read-data name=\"Y\" mesh=\"MA\"/></participant>"
       "<participant name=\"B\"><provide-mesh name=\"MB\"/><receive-mesh name=\"MA\" from=\"A\"/><mapping:nearest-neighbor direction=\"read\" from=\"MA\" to=\"MB\" constraint=\"consistent\"/>"
       "<mapping:nearest-neighbor direction=\"write\" from=\"MB\" to=\"MA\" constraint=\"conservative\"/><write-data name=\"Y\" mesh=\"MB\"/><read-data name=\"X\" mesh=\"MB\"/></participant>"
       "<m2n:sockets acceptor=\"A\" connector=\"B\"/><coupling-scheme:"
    << TAGS[c.scheme] << "><participants first=\"" << (c.second ? "A" : "B") << "\" second=\"" << (c.second ? "B" : "A") << "\"/>";
  if (c.maxTime > 0)
    o << "<max-time value=\"" << c.maxTime << "\"/>";
  if (c.maxWindows > 0)
    o << "<max-time-windows value=\"" << c.maxWindows << "\"/>";
  if (c.first)
    o << "<time-window-size method=\"first-participant\"/>";
  else
    o << "<time-window-size value=\"" << c.size << "\"/>";
  o << "<exchange data=\"X\" mesh=\"MA\" from=\"A\" to=\"B\"/><exchange data=\"Y\" mesh=\"MA\" from=\"B\" to=\"A\"/>";
  if (c.scheme >= 2)
    o << "<max-iterations value=\"" << c.iterations << "\"/>";
  o << "</coupling-scheme:" << TAGS[c.scheme] << "></precice-configuration>";
  return o.str();
}
std::string show(const Case &c)
{
  std::ostringstream o;
  o.precision(17);
  o << TAGS[c.scheme] << (c.first ? " first-participant windows " + verif::show(c.sizes) : " size=" + num(c.size)) << " max-time-windows=" << c.maxWindows << " max-time=" << c.maxTime << " steps A " << c.sdt[0] << " B " << c.sdt[1] << " second=" << (c.second ? "B" : "A") << " iterations=" << c.iterations << " ranks=" << c.ranks[0] << "," << c.ranks[1];
  return o.str();
}
/// lengths of the time windows
std::vector<double> windows(const Case &c)
{
  std::vector<double> w;
  long double         t = 0;
  for (int k = 0; c.maxWindows < 0 || k < c.maxWindows; ++k) {
    long double s = c.first ? c.sizes[k % c.sizes.size()] : c.size;
    if (c.maxTime > 0) {
      long double rem = c.maxTime - t;
      if (rem < 1e-13L)
        break;
      if (s > rem + 1e-13L)
        s = rem;
    }
    w.push_back(static_cast<double>(s));
    t += s;
  }
  return w;
}
} // namespace

int main(int argc, char **argv)
{
  Campaign c("C02", argc, argv);
  c.rule = "a case is a configuration of window sizes, ends and step sizes of both solvers; distinct by the sequence of all maximum step sizes and flags";
  Sched sched;
  RankLibs::get().load(c.lib, c.scratchDir(), 4, &sched);
  bool big = c.thorough();

  auto stage = [&](const std::string &name, uint64_t n, std::function<Case(uint64_t)> make) {
    c.stage(
        name, n, [make](uint64_t i) { return show(make(i)); },
        [&, make](CaseCtx &ctx, uint64_t i) {
          Case k  = make(i);
          auto ws = windows(k);
          writeFile(ctx.dir + "/c.xml", xml(k));
          Session s(sched);
          int     nr   = k.ranks[0] + k.ranks[1];
          int     iter = k.scheme >= 2 ? k.iterations : 1;
          std::vector<std::string> bad(nr);
          std::vector<uint64_t>    dig(nr, 5);
          s.run(nr, [&](int slot, Api &a) {
            int p = slot >= k.ranks[0], rk = p ? slot - k.ranks[0] : slot;
            a.create(p ? "B" : "A", ctx.dir + "/c.xml", rk, k.ranks[p]);
            a.setMeshVertex(p ? "MB" : "MA", {0, 0});
            a.initialize();
            bool dictates = k.first && p != k.second;
            auto err      = [&](const std::string &m) {
              if (bad[slot].empty())
                bad[slot] = m;
            };
            long double t = 0;
            for (size_t w = 0; w < ws.size(); ++w) {
              int n = dictates ? 1 : std::max(1, static_cast<int>(std::ceil(ws[w] / k.sdt[p] - 1e-9)));
              for (int it = 0; it < iter; ++it)
                for (int st = 0; st < n; ++st) {
                  auto at = [&] { return std::string(p ? "B" : "A") + " window " + std::to_string(w + 1) + " iteration " + std::to_string(it + 1) + " step " + std::to_string(st + 1) + ": "; };
                  if (!a.isCouplingOngoing())
                    err(at() + "the coupling is not ongoing");
                  double mx  = a.getMaxTimeStepSize();
                  double exp = static_cast<double>((long double) ws[w] - (long double) st * k.sdt[p]);
                  if (dictates)
                    exp = k.maxTime > 0 ? static_cast<double>(k.maxTime - t) : std::numeric_limits<double>::max();
                  if (!(mx > 0))
                    err(at() + "maximum time step size " + num(mx) + " is not positive");
                  if (!(mx == exp || std::fabs(mx - exp) < 1e-12))
                    err(at() + "maximum time step size " + num(mx) + " expected " + num(exp));
                  dig[slot] = mix(dig[slot], mx);
                  if (k.scheme >= 2 && st == 0 && it == 0 && !a.requiresWritingCheckpoint())
                    err(at() + "no checkpoint is required at the beginning of the window");
                  double want = dictates ? (k.first ? k.sizes[w % k.sizes.size()] : 0) : k.sdt[p];
                  a.advance(std::min(want, mx));
                  bool rc  = a.requiresReadingCheckpoint();
                  bool tw  = a.isTimeWindowComplete();
                  bool end = st + 1 == n, con = it + 1 == iter;
                  if (tw != (end && con))
                    err(at() + "time window complete is " + std::to_string(tw) + " after a step of " + num(std::min(want, mx)));
                  if (rc != (end && !con))
                    err(at() + "reading a checkpoint required is " + std::to_string(rc));
                  if (!bad[slot].empty())
                    throw std::runtime_error("stop");
                }
              t += ws[w];
            }
            if (a.isCouplingOngoing())
              err(std::string(p ? "B" : "A") + " the coupling is still ongoing after " + std::to_string(ws.size()) + " windows, t=" + num(static_cast<double>(t)) + ", maximum step size " + num(a.getMaxTimeStepSize()));
            if (a.getMaxTimeStepSize() != 0)
              err("the maximum step size after the end is " + num(a.getMaxTimeStepSize()));
            if (!bad[slot].empty())
              throw std::runtime_error("stop");
            a.finalize();
            a.destroy();
          }, policy(i));
          bool any = false;
          for (int q = 0; q < nr; ++q) {
            if (!bad[q].empty()) {
              ctx.fail("step", bad[q]);
              any = true;
            }
            ctx.observe(dig[q]);
          }
          if (any)
            ctx.taint = true;
          else
            s.clean(ctx);
          ctx.count("executions");
          ctx.count("windows", static_cast<long>(ws.size()));
          long double t = 0;
          for (size_t w = 0; w < ws.size(); ++w) {
            for (int it = 0; it < iter; ++it) {
              uint64_t h = mix(mix(mix(3, static_cast<double>(t)), uint64_t(it)), uint64_t(k.scheme));
              for (int p = 0; p < 2; ++p) {
                int n = std::max(1, static_cast<int>(std::ceil(ws[w] / k.sdt[p] - 1e-9)));
                for (int st = 0; st < n; ++st) {
                  h = mix(mix(h, uint64_t(p)), double(ws[w] - st * k.sdt[p]));
                  ctx.state(h);
                  ctx.count("transitions");
                }
              }
            }
            t += ws[w];
          }
        });
  };

  const std::vector<double> SIZES = {1, 0.1, 0.2, 0.3, 1. / 3, 0.7, 2.5, 0.025, 1e-3, 1e-6, 10, 3.14159265358979};
  // n equal steps of both solvers in every window
  stage("equal-steps", 4 * 2 * SIZES.size() * 10 * 10 * (big ? 3 : 1), [&](uint64_t i) {
    Digits d(i);
    Case   k;
    k.scheme     = d(4);
    k.second     = d(2);
    k.size       = d.pick(SIZES);
    k.sdt[0]     = k.size / (1 + d(10));
    k.sdt[1]     = k.size / (1 + d(10));
    k.maxWindows = 6;
    k.iterations = 1 + static_cast<int>(d(big ? 3 : 1)) + (big ? 0 : 1);
    return k;
  });
  // steps that do not divide the window
  const std::vector<double> FR = {0.3, 0.4, 0.7, 0.15, 0.999, 1.0, 1.5, 1e30, 1. / 3 + 1e-3};
  stage("uneven-steps", 4 * SIZES.size() * FR.size() * FR.size() * 3, [&](uint64_t i) {
    Digits d(i);
    Case   k;
    k.scheme = d(4);
    k.size   = d.pick(SIZES);
    k.sdt[0] = k.size * d.pick(FR);
    k.sdt[1] = k.size * d.pick(FR);
    int e    = d(3);
    k.maxWindows = e == 0 ? 3 : e == 1 ? -1 : 2;
    if (e == 1)
      k.maxTime = k.size * 2.45;
    if (e == 2)
      k.maxTime = k.size * 3.3; // the number of windows ends the simulation
    return k;
  });
  // the end of the simulation by time: all multiples and fractions
  const std::vector<double> ENDS = {0.5, 1, 1.5, 2, 2.25, 3, 3.9, 4, 5, 6, 7, 7.001, 9.999, 10, 12};
  stage("max-time", 4 * 2 * SIZES.size() * ENDS.size() * 5 * 5, [&](uint64_t i) {
    Digits d(i);
    Case   k;
    k.scheme  = d(4);
    k.second  = d(2);
    k.size    = d.pick(SIZES);
    k.maxTime = k.size * d.pick(ENDS);
    const int N[] = {1, 2, 3, 7, 10};
    k.sdt[0]  = k.size / N[d(5)];
    k.sdt[1]  = k.size / N[d(5)];
    k.iterations = 2;
    return k;
  });
  // max-time given in decimals, as users do
  stage("decimal-max-time", 4 * 20 * 10, [&](uint64_t i) {
    Digits d(i);
    Case   k;
    k.scheme = d(4);
    int n    = 1 + static_cast<int>(d(20));
    const double S[] = {0.1, 0.2, 0.3, 0.05, 0.01, 0.7, 0.025, 1e-3, 0.6, 0.15};
    const double T[] = {1, 2, 3, 1, 0.3, 7, 1, 0.05, 6, 1.5};
    int          q   = d(10);
    k.size    = S[q];
    k.maxTime = T[q];
    k.sdt[0]  = k.size / n;
    k.sdt[1]  = k.size / (21 - n);
    return k;
  });
  // long simulations: no drift
  stage("long", 4 * SIZES.size() * 6 * 2, [&](uint64_t i) {
    Digits d(i);
    Case   k;
    k.scheme = d(4);
    k.size   = d.pick(SIZES);
    const int N[] = {1, 2, 3, 5, 7, 10};
    int       n   = N[d(6)];
    k.sdt[0] = k.size / n;
    k.sdt[1] = k.size;
    int W    = big ? 2000 : 200;
    if (d(2))
      k.maxWindows = W;
    else
      k.maxTime = k.size * W;
    k.iterations = 1;
    if (k.size * W > 900) { // the resolution of doubles against the tolerance of 1e-14
      W = static_cast<int>(900 / k.size);
      if (k.maxTime > 0)
        k.maxTime = k.size * W;
      else
        k.maxWindows = W;
    }
    return k;
  });
  // the first participant chooses the size of every window
  stage("first-participant", 2 * 2 * 5 * 6 * 10 * 3, [&](uint64_t i) {
    Digits d(i);
    Case   k;
    k.first  = true;
    k.scheme = d(2) ? 0 : 2;
    k.second = d(2);
    k.sizes  = d.pick<std::vector<double>>({{1}, {0.1, 0.2, 0.3}, {0.5, 1. / 3, 0.01, 2}, {0.7}, {1, 0.1}});
    const double E[] = {1, 0.95, 2.5, 3, 0.05, 1.1};
    double       t = E[d(6)];
    k.sdt[0] = k.sdt[1] = 1. / (1 + d(10));
    switch (d(3)) {
    case 0:
      k.maxWindows = 5;
      break;
    case 1:
      k.maxTime = t;
      break;
    default:
      k.maxTime    = t;
      k.maxWindows = 4;
    }
    return k;
  });
  stage("ranks", 4 * 4 * 6 * 3 * 3, [&](uint64_t i) {
    Digits d(i);
    Case   k;
    k.scheme    = d(4);
    int r       = d(4);
    k.ranks[0]  = r == 3 ? 2 : 1 + (r & 1);
    k.ranks[1]  = r == 3 ? 2 : 1 + (r >> 1);
    k.size      = SIZES[d(6)];
    k.sdt[0]    = k.size / (1 + d(3));
    k.sdt[1]    = k.size / (1 + d(3));
    k.maxTime   = k.size * 2.5;
    return k;
  });

  // steps that must be refused, at every position
  struct Bad {
    const char *what;
    double      abs, rel;
  };
  const double            INF = std::numeric_limits<double>::infinity();
  const std::vector<Bad> BAD = {{"zero", 0, 0}, {"minus zero", -0.0, 0}, {"negative", -1, 0}, {"tiny negative", -1e-3, 0}, {"minus the maximum", 0, -1}, {"NaN", NAN, 0}, {"infinity", INF, 0}, {"minus infinity", -INF, 0}, {"one percent too large", 0, 1.01}, {"twice", 0, 2}, {"barely too large", 1e-12, 1}, {"largest double", std::numeric_limits<double>::max(), 0}};
  c.stage(
      "refused", 4 * 2 * 2 * BAD.size() * 4 * 3, [&](uint64_t i) {
        Digits d(i);
        std::string s = TAGS[d(4)];
        int second = d(2), who = d(2);
        s += second ? " second=B" : " second=A";
        s += who ? " B" : " A";
        s += std::string(" steps ") + BAD[d(BAD.size())].what;
        s += " at position " + std::to_string(d(4));
        return s; },
      [&](CaseCtx &ctx, uint64_t i) {
        Digits d(i);
        Case   k;
        k.scheme = d(4);
        k.second = d(2);
        int  who = d(2);
        auto b   = d.pick(BAD);
        int  pos = d(4);
        k.size   = d.pick<double>({1, 0.3, 0.01});
        k.maxWindows = 4;
        k.iterations = 1;
        writeFile(ctx.dir + "/c.xml", xml(k));
        Session     s(sched);
        std::string accepted;
        s.run(2, [&](int p, Api &a) {
          a.create(p ? "B" : "A", ctx.dir + "/c.xml", 0, 1);
          a.setMeshVertex(p ? "MB" : "MA", {0, 0});
          a.initialize();
          int n = 0;
          while (a.isCouplingOngoing()) {
            a.requiresWritingCheckpoint();
            double mx = a.getMaxTimeStepSize(), dt = std::min(mx, k.size / 2);
            if (p == who && n++ == pos) {
              double v = std::isnan(b.abs) || std::isinf(b.abs) || b.rel == 0 ? b.abs : b.rel * mx + b.abs;
              a.advance(v);
              accepted = "a step of " + num(v) + " with a maximum of " + num(mx) + " was accepted";
              return;
            }
            a.advance(dt);
            a.requiresReadingCheckpoint();
          }
        }, policy(i));
        ctx.taint = true;
        if (!accepted.empty())
          ctx.fail("refused", accepted);
        else if (s.error[who].find("advance") == std::string::npos)
          ctx.fail("refused", "the error is not about the time step: " + s.error[who]);
        if (!s.out.deadlock.empty())
          ctx.fail("deadlock", s.out.deadlock);
        for (char ch : s.error[who])
          ctx.observe(static_cast<uint64_t>(ch));
        ctx.count("executions");
        ctx.count("refused steps");
      });
  return c.finish();
}
