// C04: data exchange in time.  Every execution of the space below is run on the real library and every
// value read at every sampled time is compared with the reference model.
#include "couple.hpp"
using namespace verif;

namespace {
const std::vector<std::vector<double>> PLANS{{1.0}, {.5, 1}, {.25, 1}, {.75, 1}, {.25, .25, 1}, {.3, .3, .3, 1}, {.125, .5, 1}, {.2, .2, .2, .2, 1}};
// steps that are very small compared to the time window
const std::vector<std::vector<double>> TINY{{1. / 4096, 1}, {1 - 1. / 4096, 1}, {.5, .5 - 1. / 1048576, 1}, {1. / 1048576, 1}, {.25, 1. / 65536, 1}, {1. / 1024, 1. / 1024, 1}, {1}};
struct DS {
  int  degree;
  bool substeps;
};
// the configuration demands: degree 0 without substeps, degree >= 2 with substeps
const std::vector<DS>     DSS{{0, false}, {1, false}, {1, true}, {2, true}, {3, true}};
const std::vector<Scheme> BI{Scheme::SE, Scheme::PE, Scheme::SI, Scheme::PI};
} // namespace

int main(int argc, char **argv)
{
  Campaign c("C04", argc, argv);
  c.rule = "every combination of the listed scenario dimensions is executed on the real library; an execution is counted as distinct if the sequence of values observed by the solvers differs";
  Sched sched;
  RankLibs::get().load(c.lib, c.scratchDir(), 6, &sched);
  auto body = [&](std::function<Scenario(uint64_t)> make) {
    return [&, make](CaseCtx &ctx, uint64_t i) {
      Scenario     s = make(i);
      CoupleRunner r(s, sched, ctx.dir);
      Policy       p;
      p.rendezvous = i % 2;
      p.order      = static_cast<int>(i / 2 % 3);
      r.run(p);
      Model        m(s);
      auto         e = m.run();
      CheckOptions o;
      compare(ctx, s, e, r, o);
    };
  };
  auto stage = [&](const std::string &name, uint64_t n, std::function<Scenario(uint64_t)> make) {
    c.stage(name, n, [&, make](uint64_t i) { return describe(make(i)); }, body(make));
  };
  bool big = c.thorough();

  // all schemes x substep plans of both participants x waveform degree x initial data x order
  stage("plans", 4 * 64 * 5 * 4 * 2, [&](uint64_t i) {
    Digits   d(i);
    Scenario s;
    s.scheme     = d.pick(BI);
    int  pa = d(8), pb = d(8);
    auto ds  = d.pick(DSS);
    bool in0 = d(2), in1 = d(2);
    s.second     = d(2) ? 0 : 1;
    s.ex         = {{0, 1, in0, ds.substeps, ds.degree, 1, 'r'}, {1, 0, in1, ds.substeps, ds.degree, 2, 'w'}};
    s.maxWindows = 3;
    s.maxIt      = 2;
    // plans change between windows and iterations
    s.plan = [=](int p, int w, int k) { return PLANS[((p == 0 ? pa : pb) + (w - 1) * 3 + (k - 1) * 5) % 8]; };
    return s;
  });
  stage("tiny", 4 * 49 * 5 * 4, [&](uint64_t i) {
    Digits   d(i);
    Scenario s;
    s.scheme     = d.pick(BI);
    int  pa = d(7), pb = d(7);
    auto ds  = d.pick(DSS);
    bool in0 = d(2), in1 = d(2);
    s.ex         = {{0, 1, in0, ds.substeps, ds.degree, 1, 'r'}, {1, 0, in1, ds.substeps, ds.degree, 2, 'w'}};
    s.maxWindows = 3;
    s.maxIt      = 2;
    s.plan = [=](int p, int w, int k) { return TINY[((p == 0 ? pa : pb) + (w - 1) * 3 + (k - 1) * 5) % 7]; };
    return s;
  });
  // several data per direction with different settings
  stage("mixed", 4 * 125 * 2 * 8 * 3, [&](uint64_t i) {
    Digits   d(i);
    Scenario s;
    s.scheme = d.pick(BI);
    auto a = d.pick(DSS), b = d.pick(DSS), e = d.pick(DSS);
    bool flip = d(2);
    int  in   = d(8);
    int  pl   = d(3);
    s.ex      = {{0, 1, bool(in & 1), a.substeps, a.degree, 1, 'r'}, {0, 1, bool(in & 2), b.substeps, b.degree, 2, 'r'}, {1, 0, bool(in & 4), e.substeps, e.degree, 1, 'r'}};
    if (flip)
      for (auto &x : s.ex)
        std::swap(x.from, x.to);
    s.maxWindows = 2;
    s.maxIt      = 2;
    s.plan       = [=](int p, int w, int k) { return PLANS[(pl * 3 + p * 2 + w + k) % 8]; };
    return s;
  });
  // one-directional coupling
  stage("oneway", 4 * 2 * 2 * 5 * 2 * 8 * 2, [&](uint64_t i) {
    Digits   d(i);
    Scenario s;
    s.scheme   = d.pick(BI);
    bool back  = d(2);
    s.second   = d(2);

    auto ds    = d.pick(DSS);
    bool in    = d(2);
    int  pl    = d(8);
    char mode  = d(2) ? 'w' : 'r';
    s.ex       = {{back ? 1 : 0, back ? 0 : 1, in, ds.substeps, ds.degree, 2, mode}};
    if (isImplicit(s.scheme)) // an implicit scheme requires data in both directions
      s.ex.push_back({back ? 0 : 1, back ? 1 : 0, false, false, 0, 1, 'r'});
    s.maxWindows = 3;
    s.maxIt      = 2;
    s.plan       = [=](int p, int w, int k) { return PLANS[(pl + p + w + k) % 8]; };
    return s;
  });
  // ranks and the direction of the mapping
  stage("ranks", 4 * 5 * 4 * 5 * 4 * 2 * 2, [&](uint64_t i) {
    Digits   d(i);
    Scenario s;
    s.scheme = d.pick(BI);
    s.ranks  = d.pick<std::vector<int>>({{1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}});
    int  m   = d(4);
    auto ds  = d.pick(DSS);
    int  in  = d(4);
    s.emptyRanks = d(2);
    s.acceptor   = d(2);
    s.ex         = {{0, 1, bool(in & 1), ds.substeps, ds.degree, 1, m & 1 ? 'r' : 'w'}, {1, 0, bool(in & 2), ds.substeps, ds.degree, 2, m & 2 ? 'r' : 'w'}};
    s.V          = 3;
    s.maxWindows = 2;
    s.maxIt      = 2;
    s.plan       = [=](int p, int w, int k) { return PLANS[(p * 2 + w + k) % 8]; };
    return s;
  });
  // the end of the simulation cuts the last window
  stage("maxtime", 4 * 4 * 4 * 5 * 4 * 8 * 2, [&](uint64_t i) {
    Digits   d(i);
    Scenario s;
    s.scheme  = d.pick(BI);
    s.size    = d.pick<double>({1.0, 0.5, 0.75, 0.3});
    s.maxTime = d.pick<double>({0.7, 1.25, 1.5, 1.6});
    auto ds   = d.pick(DSS);
    int  in   = d(4);
    int  pl   = d(8);
    s.second  = d(2);
    s.ex      = {{0, 1, bool(in & 1), ds.substeps, ds.degree, 1, 'r'}, {1, 0, bool(in & 2), ds.substeps, ds.degree, 1, 'r'}};
    s.maxIt   = 2;
    s.plan    = [=](int p, int w, int k) { return PLANS[(pl + p * 2 + w + k) % 8]; };
    return s;
  });
  // the first participant prescribes the window size
  stage("firstparticipant", 2 * 4 * 5 * 4 * 8 * 2 * 2, [&](uint64_t i) {
    Digits   d(i);
    Scenario s;
    s.scheme      = d(2) ? Scheme::SE : Scheme::SI;
    s.firstMethod = true;
    auto sizes    = d.pick<std::vector<double>>({{1, 1, 1, 1}, {.5, 1, .25, 1}, {1, .5, 2, 1}, {.3, .2, .7, .4}});
    auto ds       = d.pick(DSS);
    int  in       = d(4);
    int  pl       = d(8);
    s.second      = d(2);
    if (d(2))
      s.maxWindows = 3;
    else
      s.maxTime = 2;
    s.firstSize = [=](int w) { return sizes[(w - 1) % 4]; };
    s.ex        = {{0, 1, bool(in & 1), ds.substeps, ds.degree, 1, 'r'}, {1, 0, bool(in & 2), ds.substeps, ds.degree, 1, 'w'}};
    s.maxIt     = 2;
    s.plan      = [=](int p, int w, int k) { return PLANS[(pl + p * 2 + w + k) % 8]; };
    return s;
  });
  // three participants, multi coupling around a controller
  stage("multi", 3 * 5 * 5 * 16 * 4 * (big ? 4 : 1), [&](uint64_t i) {
    Digits   d(i);
    Scenario s;
    s.scheme     = Scheme::Multi;
    s.nParts     = 3;
    s.controller = d(3);
    auto a = d.pick(DSS), b = d.pick(DSS);
    int  in = d(16);
    int  pl = d(4);
    int  rk = d(big ? 4 : 1);
    s.ranks = {1 + (rk & 1), 1, 1 + (rk >> 1)};
    int c0 = s.controller, c1 = (c0 + 1) % 3, c2 = (c0 + 2) % 3;
    s.ex = {{c0, c1, bool(in & 1), a.substeps, a.degree, 1, 'r'}, {c1, c0, bool(in & 2), b.substeps, b.degree, 1, 'r'}, {c0, c2, bool(in & 4), b.substeps, b.degree, 2, 'w'}, {c2, c0, bool(in & 8), a.substeps, a.degree, 1, 'w'}};
    s.maxWindows = 2;
    s.maxIt      = 2;
    s.plan       = [=](int p, int w, int k) { return PLANS[(pl * 2 + p * 3 + w + k) % 8]; };
    return s;
  });
  // three participants, any exchange of data between them
  stage("multi-graphs", 27 * 3 * 8 * 4 * 2, [&](uint64_t i) {
    Digits   d(i);
    Scenario s;
    s.scheme     = Scheme::Multi;
    s.nParts     = 3;
    s.ranks      = {1, 1, 1};
    s.controller = d(3);
    int in       = d(8);
    int pl       = d(4);
    int ro       = d(2);
    for (int p = 0; p < 3; ++p) {
      int to = 1 + d(3); // whom it sends to
      for (int k = 0; k < 2; ++k)
        if (to >> k & 1)
          s.ex.push_back({p, (p + 1 + k) % 3, bool(in >> p & 1), bool((pl + p + k) & 1), (pl + p + k) & 1 ? 1 : 0, 1 + k, (p + k) & 1 ? 'w' : 'r'});
    }
    if (ro)
      std::reverse(s.ex.begin(), s.ex.end());
    s.maxWindows = 2;
    s.maxIt      = 2;
    s.plan       = [=](int p, int w, int k) { return PLANS[(pl * 2 + p * 3 + w + k) % 8]; };
    return s;
  });
  // one data that goes to two participants, mapped by the sender, by the receivers or both
  stage("shared", 3 * 5 * 4 * 4 * 4 * 2, [&](uint64_t i) {
    Digits   d(i);
    Scenario s;
    s.scheme     = Scheme::Multi;
    s.nParts     = 3;
    s.ranks      = {1, 1, 1};
    s.controller = d(3);
    auto a  = d.pick(DSS);
    int  m  = d(4);
    int  in = d(4);
    int  pl = d(4);
    int  c0 = s.controller, c1 = (c0 + 1) % 3, c2 = (c0 + 2) % 3;
    int  dims = 1 + d(2);
    s.ex = {{c0, c1, bool(in & 1), a.substeps, a.degree, dims, m & 1 ? 'w' : 'r'}, {c0, c2, bool(in & 1), a.substeps, a.degree, dims, m & 2 ? 'w' : 'r', 0, 0}, {c1, c0, bool(in & 2), a.substeps, a.degree, 1, 'r'}, {c2, c0, false, a.substeps, a.degree, 1, 'r'}};
    s.maxWindows = 2;
    s.maxIt      = 2;
    s.plan       = [=](int p, int w, int k) { return PLANS[(pl * 2 + p * 3 + w + k) % 8]; };
    return s;
  });
  return c.finish();
}
