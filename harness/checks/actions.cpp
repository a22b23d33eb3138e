// C24: data actions.  Every coupling of the space below is run on the real library; what the solvers read has to
// be what they would read without the action, transformed exactly once.
#include "couple.hpp"
using namespace verif;

namespace {
const std::vector<std::vector<double>> PLANS{{1.0}, {.5, 1}, {.25, .25, 1}, {.75, 1}};

enum Op { Multiply,
          Divide,
          MultiplyDivide,
          MultiplyTwice,
          Sum,
          SumOne,
          SumScaled };
const char *OPS[] = {"multiply", "divide", "multiply+divide", "multiply twice", "sum", "sum of one", "sum then multiply"};

struct Case {
  Scenario s;
  Op       op    = Multiply;
  bool     write = true; // write-mapping-post at A, otherwise read-mapping-post at B
  std::string describe() const { return std::string(OPS[op]) + (write ? " write-mapping-post" : " read-mapping-post") + " dims=" + std::to_string(s.xdim) + " " + verif::describe(s); }
};

std::string tag(const std::string &kind, bool write, const std::string &mesh, const std::vector<std::string> &sources, const std::string &target)
{
  std::string t = "<action:" + kind + " mesh=\"" + mesh + "\" timing=\"" + (write ? "write" : "read") + "-mapping-post\">";
  for (auto &s : sources)
    t += "<source-data name=\"" + s + "\"/>";
  return t + "<target-data name=\"" + target + "\"/></action:" + kind + ">\n";
}
bool sums(Op o) { return o >= Sum; }

/// data 0 (and 1, 2 for sums) go from A to B, the last data back
void finish(Case &k)
{
  auto       &s     = k.s;
  std::string mesh  = Scenario::mname(k.write ? s.exMesh(0) : 1);
  Op          op    = k.op;
  bool        write = k.write;
  s.connectivity    = true;
  s.extra           = [=](int p) -> std::string {
    if (p != (write ? 0 : 1))
      return "";
    switch (op) {
    case Multiply:
      return tag("multiply-by-area", write, mesh, {}, "D0");
    case Divide:
      return tag("divide-by-area", write, mesh, {}, "D0");
    case MultiplyDivide:
      return tag("multiply-by-area", write, mesh, {}, "D0") + tag("divide-by-area", write, mesh, {}, "D0");
    case MultiplyTwice:
      return tag("multiply-by-area", write, mesh, {}, "D0") + tag("multiply-by-area", write, mesh, {}, "D0");
    case Sum:
      return tag("summation", write, mesh, {"D1", "D2"}, "D0");
    case SumOne:
      return tag("summation", write, mesh, {"D2"}, "D0");
    default:
      return tag("summation", write, mesh, {"D2", "D1"}, "D0") + tag("multiply-by-area", write, mesh, {}, "D0");
    }
  };
}

/// what B reads of the target
void transform(const Case &k, Expectation &ex)
{
  auto &s    = k.s;
  Vec   area = s.areas(k.write && s.ex[0].mode == 'r' ? 0 : 1);
  auto &obs  = ex.part[1];
  for (size_t i = 0; i < obs.size(); ++i) {
    if (!obs[i].isField || obs[i].what.rfind("read D0 ", 0) != 0)
      continue;
    std::string at = obs[i].what.substr(8);
    auto        of = [&](const char *d) -> const Vec & {
      for (size_t j = i; j < obs.size(); ++j)
        if (obs[j].what == std::string("read ") + d + " " + at)
          return obs[j].v;
      throw std::runtime_error("no such observation");
    };
    Vec   &v = obs[i].v;
    size_t d = v.size() / s.V;
    for (size_t q = 0; q < v.size(); ++q) {
      double a = area[q / d];
      switch (k.op) {
      case Multiply:
        v[q] *= a;
        break;
      case Divide:
        v[q] /= a;
        break;
      case MultiplyDivide:
        break;
      case MultiplyTwice:
        v[q] *= a * a;
        break;
      case Sum:
        v[q] = of("D1")[q] + of("D2")[q];
        break;
      case SumOne:
        v[q] = of("D2")[q];
        break;
      case SumScaled:
        v[q] = (of("D1")[q] + of("D2")[q]) * a;
      }
    }
  }
}

/// Known finding: the sample at the start of the window is transformed again whenever the action is performed.
/// Reports the values which are exactly that and replaces them in the expectation.
void rescaled(CaseCtx &ctx, const Case &k, Expectation &ex, const std::map<size_t, Vec> &start, const CoupleRunner &run)
{
  auto &s    = k.s;
  Vec   area = s.areas(k.write && s.ex[0].mode == 'r' ? 0 : 1);
  auto &exp  = ex.part[1];
  for (auto &[at, contribution] : start) {
    if (exp[at].what.rfind("read D0 ", 0) != 0)
      continue;
    Vec    seen = exp[at].v;
    size_t d    = seen.size() / s.V;
    for (size_t i = 0; i < run.result.size(); ++i) {
      auto [p, rk] = run.who[i];
      if (p != 1 || run.result[i].obs.size() <= at)
        continue;
      auto  &g = run.result[i].obs[at];
      size_t n = 0;
      for (int v = 0; v < s.V; ++v)
        if (s.owner(p, v) == rk)
          for (size_t q = 0; q < d && n < g.v.size(); ++q)
            seen[v * d + q] = g.v[n++];
    }
    auto same = [&](const Vec &v) {
      for (size_t q = 0; q < v.size(); ++q)
        if (!near(v[q], seen[q], 1e-9))
          return false;
      return true;
    };
    if (same(exp[at].v))
      continue;
    for (int times = 1; times <= 8; ++times) {
      Vec v = exp[at].v;
      for (size_t q = 0; q < v.size(); ++q) {
        double f = k.op == Multiply ? area[q / d] : k.op == Divide ? 1 / area[q / d] : area[q / d] * area[q / d];
        v[q] += contribution[q] * f * (std::pow(f, times) - 1);
      }
      if (same(v)) {
        ctx.fail("window-start scaled again", exp[at].what + " of observation " + std::to_string(at) + " uses the value at the start of the window transformed " + std::to_string(times + 1) + " times: " + std::to_string(seen[0]) + " instead of " + std::to_string(exp[at].v[0]));
        exp[at].v = v;
        break;
      }
    }
  }
}
} // namespace

int main(int argc, char **argv)
{
  Campaign c("C24", argc, argv);
  c.rule = "every combination of the listed scenario dimensions is executed on the real library; an execution is counted as distinct if the sequence of values observed by the solvers differs";
  Sched sched;
  RankLibs::get().load(c.lib, c.scratchDir(), 6, &sched);
  auto stage = [&](const std::string &name, uint64_t n, std::function<Case(uint64_t)> make) {
    c.stage(name, n, [=](uint64_t i) { return make(i).describe(); }, [&, make](CaseCtx &ctx, uint64_t i) {
      Case         k = make(i);
      CoupleRunner r(k.s, sched, ctx.dir);
      Policy       p;
      p.rendezvous = i % 2;
      p.order      = static_cast<int>(i / 2 % 3);
      r.run(p);
      Model              m(k.s);
      std::map<size_t, Vec> start; // what the sample at the start of the window contributes to a value
      m.onRead = [&](int q, size_t at, const Wave &w, double t) {
        if (q != 1 || (w.s.size() < 2 && !(isSerial(k.s.scheme) && !k.write)))
          return;
        Wave z = w;
        for (auto &d : z.s.front().second)
          d = 0;
        Vec with = w.at(t), without = z.at(t);
        for (size_t j = 0; j < with.size(); ++j)
          with[j] -= without[j];
        start[at] = with;
      };
      auto e = m.run();
      transform(k, e);
      if (k.op == Multiply || k.op == Divide || k.op == MultiplyTwice)
        rescaled(ctx, k, e, start, r);
      compare(ctx, k.s, e, r);
    });
  };
  auto exchanges = [](Case &k, int in, bool substeps, int degree, int dims, char mode) {
    bool any = in & 1;
    k.s.ex.push_back({0, 1, any, substeps, degree, dims, mode});
    if (sums(k.op)) {
      k.s.ex.push_back({0, 1, any, substeps, degree, dims, mode});
      k.s.ex.push_back({0, 1, any, substeps, degree, dims, mode});
    }
    k.s.ex.push_back({1, 0, bool(in & 2), substeps, degree, 1, 'r'});
  };
  // all schemes x actions x timing x substeps x mapping direction x initial data x plans x dimensions
  stage("two", 4 * 7 * 2 * 2 * 2 * 4 * 4 * 2 * 2, [&](uint64_t i) {
    Digits d(i);
    Case   k;
    k.s.scheme   = d.pick<Scheme>({Scheme::SE, Scheme::PE, Scheme::SI, Scheme::PI});
    k.op         = static_cast<Op>(d(7));
    k.write      = d(2);
    bool sub     = d(2);
    char mode    = d(2) ? 'w' : 'r';
    int  in      = d(4);
    int  pl      = d(4);
    k.s.xdim     = d(2) ? 3 : 2;
    int dims     = d(2) ? 2 : 1;
    exchanges(k, in, sub, 1, dims, mode);
    k.s.V          = 3;
    k.s.maxWindows = 3;
    k.s.maxIt      = 2;
    k.s.plan       = [=](int p, int w, int it) { return PLANS[(pl + p + w * 2 + it) % 4]; };
    finish(k);
    return k;
  });
  // parallel participants: the area is the one of the elements the rank knows; ranks may be empty
  stage("ranks", 4 * 7 * 2 * 2 * 2 * 4 * 2 * 2, [&](uint64_t i) {
    Digits d(i);
    Case   k;
    k.s.scheme = d.pick<Scheme>({Scheme::SE, Scheme::PE, Scheme::SI, Scheme::PI});
    k.op       = static_cast<Op>(d(7));
    k.write    = d(2);
    bool sub   = d(2);
    char mode  = d(2) ? 'w' : 'r';
    k.s.ranks  = d.pick<std::vector<int>>({{1, 2}, {2, 1}, {2, 2}, {3, 2}});
    k.s.xdim   = d(2) ? 3 : 2;
    bool last  = d(2);
    if (mode == 'w' && k.write)
      k.s.ranks[0] = 1; // a rank receives only the elements it needs
    // without empty ranks every rank owns an element
    k.s.V          = last ? 4 : std::max(k.s.ranks[0], k.s.ranks[1]) * k.s.xdim;
    k.s.emptyRanks = last;
    exchanges(k, 1, sub, 1, 1, mode);
    k.s.maxWindows = 2;
    k.s.maxIt      = 2;
    k.s.plan       = [=](int p, int w, int it) { return PLANS[(p + w * 2 + it) % 4]; };
    finish(k);
    return k;
  });
  // waveforms of degree 0, 2 and 3, other window sizes, the first participant prescribes the size
  stage("waveforms", 4 * 7 * 2 * 3 * 2 * 4 * 3 * 2, [&](uint64_t i) {
    Digits d(i);
    Case   k;
    k.s.scheme = d.pick<Scheme>({Scheme::SE, Scheme::PE, Scheme::SI, Scheme::PI});
    k.op       = static_cast<Op>(d(7));
    k.write    = d(2);
    int  deg   = d.pick<int>({0, 2, 3});
    char mode  = d(2) ? 'w' : 'r';
    int  pl    = d(4);
    int  size  = d(3);
    k.s.second = d(2);
    exchanges(k, 1, deg > 0, deg, 1, mode);
    k.s.V          = 3;
    k.s.maxIt      = 2;
    if (size == 0)
      k.s.maxWindows = 3;
    else if (size == 1) {
      k.s.size    = 0.5;
      k.s.maxTime = 1.25;
    } else {
      k.s.maxWindows  = 3;
      k.s.firstMethod = isSerial(k.s.scheme);
      k.s.firstSize   = [](int w) { return w == 2 ? 0.5 : 1.0; };
    }
    k.s.plan = [=](int p, int w, int it) { return PLANS[(pl + p + w * 2 + it) % 4]; };
    finish(k);
    return k;
  });
  // convergence measures and acceleration see the transformed data
  stage("implicit", 3 * 7 * 2 * 2 * 2 * 4 * 4, [&](uint64_t i) {
    Digits d(i);
    Case   k;
    k.s.scheme = d.pick<Scheme>({Scheme::SI, Scheme::PI, Scheme::Multi});
    k.op       = static_cast<Op>(d(7));
    k.write    = d(2);
    bool sub   = d(2);
    char mode  = d(2) ? 'w' : 'r';
    int  acc   = d(4);
    int  pl    = d(4);
    if (k.s.scheme == Scheme::Multi) {
      k.s.controller = acc & 1;
    } else
      k.s.second = acc & 1;
    exchanges(k, 1, sub, 1, 1, mode);
    k.s.V          = 3;
    k.s.maxWindows = 2;
    k.s.maxIt      = 4;
    if (acc & 2) {
      k.s.accel.type  = 'c';
      k.s.accel.omega = 0.5;
    }
    // the steps are the same in all iterations: the previous iterate is not interpolated from the start of the window
    k.s.plan = [=](int p, int w, int) { return PLANS[(pl + p + w * 2) % 4]; };
    finish(k);
    return k;
  });
  return c.finish();
}
