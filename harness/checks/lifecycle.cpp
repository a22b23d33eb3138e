// C13: order of calls.  Every sequence of calls up to a length, from several states of the simulation, is
// executed; in every state all calls that the documentation forbids are tried and have to be refused with
// an error and without effect, all others have to work and return what the model says.
#include "session.hpp"
#include <deque>
using namespace verif;

namespace {
struct Cfg {
  bool parallelImplicit, aFirst, initData, experimental, remeshing;
};
std::string xml(const Cfg &c)
{
  const std::string wdc = c.remeshing ? "" : "<write-data name=\"Dc\" mesh=\"MB\"/>", rdc = c.remeshing ? "" : "<read-data name=\"Dc\" mesh=\"MB\"/>",
                    xdc = c.remeshing ? "" : "<exchange data=\"Dc\" mesh=\"MB\" from=\"A\" to=\"B\"/>";
  std::string s = "<precice-configuration";
  if (c.experimental)
    s += " experimental=\"true\"";
  if (c.remeshing)
    s += " allow-remeshing=\"true\"";
  s += std::string(">\n<data:scalar name=\"Da\"/><data:vector name=\"Db\"/><data:scalar name=\"Dc\"/><data:vector name=\"Dd\"/><data:scalar name=\"Dx\"/>\n"
       "<mesh name=\"MA\" dimensions=\"2\"><use-data name=\"Da\"/><use-data name=\"Db\"/></mesh>\n"
       "<mesh name=\"MB\" dimensions=\"2\"><use-data name=\"Da\"/><use-data name=\"Db\"/><use-data name=\"Dc\"/><use-data name=\"Dd\"/></mesh>\n"
       "<mesh name=\"MX\" dimensions=\"3\"><use-data name=\"Dx\"/></mesh>\n"
       "<participant name=\"A\"><provide-mesh name=\"MA\"/><receive-mesh name=\"MB\" from=\"B\" api-access=\"true\" geometric-filter=\"no-filter\"/>\n"
       "<write-data name=\"Da\" mesh=\"MA\"/><read-data name=\"Db\" mesh=\"MA\"/>"+wdc+"<read-data name=\"Dd\" mesh=\"MB\"/>\n"
       "<mapping:nearest-neighbor direction=\"read\" from=\"MB\" to=\"MA\" constraint=\"consistent\"/></participant>\n"
       "<participant name=\"B\"><provide-mesh name=\"MB\"/><provide-mesh name=\"MX\"/><receive-mesh name=\"MA\" from=\"A\"/>\n"
       "<mapping:nearest-projection direction=\"read\" from=\"MA\" to=\"MB\" constraint=\"consistent\"/>\n"
       "<read-data name=\"Da\" mesh=\"MB\"/><write-data name=\"Db\" mesh=\"MB\"/>"+rdc+"<write-data name=\"Dd\" mesh=\"MB\"/></participant>\n"
       "<m2n:sockets acceptor=\"A\" connector=\"B\"/>\n");
  std::string k = c.parallelImplicit ? "parallel-implicit" : "serial-explicit";
  s += "<coupling-scheme:" + k + "><participants first=\"" + (c.aFirst ? "A" : "B") + "\" second=\"" + (c.aFirst ? "B" : "A") + "\"/>";
  s += "<max-time-windows value=\"2\"/><time-window-size value=\"1\"/>";
  if (c.parallelImplicit)
    s += "<max-iterations value=\"2\"/>";
  s += std::string("<exchange data=\"Da\" mesh=\"MA\" from=\"A\" to=\"B\" initialize=\"") + (c.initData ? "yes" : "no") + "\"/>";
  s += xdc + "<exchange data=\"Db\" mesh=\"MB\" from=\"B\" to=\"A\"/><exchange data=\"Dd\" mesh=\"MB\" from=\"B\" to=\"A\"/>";
  s += "</coupling-scheme:" + k + "></precice-configuration>\n";
  return s;
}

enum Phase { Constructed,
             Running,
             Over,
             Finalized };
struct State {
  Phase phase    = Constructed;
  int   vertices = 0; // of MA
  bool  region = false, locked = false;
  int   sections = 0;
  bool  needInit = false, initAsked = false;
  int   window = 0, iteration = 0; // completed windows, iterations of the current one
  double t = 0;                    // within the window
  bool  complete = false;          // isTimeWindowComplete
  bool  wcp = false, rcp = false;  // checkpoint actions pending
  bool  wasReset = false, dead = false, extent = false;
  auto  key() const { return std::make_tuple(int(phase), vertices, region, locked, sections, needInit, initAsked, window, iteration, t, complete, wcp, rcp, wasReset, dead, extent); }
};

/// what a call returns, printable
struct Call {
  std::string                                                   name;
  std::function<std::string(const Cfg &, const State &, State &)> model; ///< "!" = refused, "?" = not tried, else the value
  std::function<std::string(Api &)>                             run;
};
const std::string NO = "!", SKIP = "?";

std::string b(bool v) { return v ? "true" : "false"; }

std::vector<Call> alphabet()
{
  std::vector<Call> l;
  auto add = [&](std::string n, auto m, auto r) { l.push_back({n, m, r}); };
  using C  = const Cfg &;
  using S  = const State &;
  using T  = State &;
  const double nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
  auto up = [](S s) { return s.phase == Running || s.phase == Over; };

  // steering
  add("initialize()", [](C c, S s, T n) {
    if (s.phase != Constructed || s.sections || s.needInit)
      return NO;
    if (s.vertices == 0) {
      n.dead = true;
      return NO;
    }
    if (!s.extent && !s.region)
      return SKIP; // nothing of the received mesh would be accessible
    n.phase = Running;
    n.locked = true;
    n.window = n.iteration = 0;
    n.t = 0;
    n.complete = false;
    n.wcp      = c.parallelImplicit;
    return std::string("ok"); }, [](Api &a) { a.initialize(); return std::string("ok"); });
  auto adv = [&](double dt) {
    add("advance(" + num(dt) + ")", [dt](C c, S s, T n) {
      if (s.phase != Running || s.sections || !(dt > 0) || !std::isfinite(dt))
        return NO;
      if (s.t + dt > 1 + 1e-12) {
        n.dead = true;
        return NO;
      }
      // checkpoints have to be dealt with at the end of a window
      if (s.wcp || s.rcp) { // the time has advanced by then: nothing is said about further calls
        n.dead = true;
        return NO;
      }
      if (s.wasReset && (s.vertices == 0 || s.t + dt < 1 - 1e-12)) {
        n.dead = true;
        return NO;
      }
      n.locked = true;
      n.wasReset = false;
      n.t      = s.t + dt;
      n.complete = false;
      if (n.t < 1 - 1e-12)
        return std::string("ok");
      n.t = 0;
      if (c.parallelImplicit && s.iteration == 0) {
        n.iteration = 1;
        n.rcp       = true;
        return std::string("ok");
      }
      n.iteration = 0;
      n.complete  = true;
      ++n.window;
      if (n.window == 2)
        n.phase = Over;
      else
        n.wcp = c.parallelImplicit;
      return std::string("ok"); }, [dt](Api &a) { a.advance(dt); return std::string("ok"); });
  };
  adv(1);
  adv(.5);
  adv(0);
  adv(-.5);
  adv(1.5);
  adv(nan);
  adv(inf);
  add("finalize()", [](C, S s, T n) {
    if (s.phase == Finalized)
      return NO;
    n        = State{};
    n.phase  = Finalized;
    n.locked = true;
    return std::string("ok"); }, [](Api &a) { a.finalize(); return std::string("ok"); });
  add("requiresInitialData()", [](C c, S s, T n) {
    if (s.phase != Constructed)
      return NO;
    n.needInit  = false;
    n.initAsked = true;
    return b(c.initData); }, [](Api &a) { return b(a.requiresInitialData()); });
  add("requiresWritingCheckpoint()", [up](C, S s, T n) {
    if (!up(s))
      return NO;
    n.wcp = false;
    return b(s.wcp); }, [](Api &a) { return b(a.requiresWritingCheckpoint()); });
  add("requiresReadingCheckpoint()", [up](C, S s, T n) {
    if (!up(s))
      return NO;
    n.rcp = false;
    return b(s.rcp); }, [](Api &a) { return b(a.requiresReadingCheckpoint()); });
  add("isCouplingOngoing()", [up](C, S s, T) { return up(s) ? b(s.phase == Running) : NO; }, [](Api &a) { return b(a.isCouplingOngoing()); });
  add("isTimeWindowComplete()", [up](C, S s, T) { return up(s) ? b(s.complete) : NO; }, [](Api &a) { return b(a.isTimeWindowComplete()); });
  add("getMaxTimeStepSize()", [up](C, S s, T) { return up(s) ? num(s.phase == Over ? 0 : 1 - s.t) : NO; }, [](Api &a) { return num(a.getMaxTimeStepSize()); });

  // queries
  auto q = [&](std::string n, std::function<std::string(C, S)> m, std::function<std::string(Api &)> r) {
    add(n, [m](C c, S s, T) { return s.phase == Finalized ? NO : m(c, s); }, r);
  };
  for (auto &[m, d] : std::vector<std::pair<std::string, std::string>>{{"MA", "2"}, {"MB", "2"}, {"MX", NO}, {"M?", NO}, {"", NO}}) {
    std::string mm = m, dd = d;
    q("getMeshDimensions(" + m + ")", [dd](C, S) { return dd; }, [mm](Api &a) { return num(a.getMeshDimensions(mm)); });
    q("requiresMeshConnectivityFor(" + m + ")", [mm, dd](C, S) { return dd == NO ? NO : b(mm == "MA"); }, [mm](Api &a) { return b(a.requiresMeshConnectivityFor(mm)); });
  }
  for (auto &[m, da, d] : std::vector<std::tuple<std::string, std::string, std::string>>{{"MA", "Da", "1"}, {"MA", "Db", "2"}, {"MB", "Dc", "1"}, {"MB", "Dd", "2"}, {"MA", "Dc", NO}, {"MA", "Dd", NO}, {"MA", "Dx", NO}, {"MA", "D?", NO}, {"MB", "Dx", NO}, {"MX", "Dx", NO}, {"M?", "Da", NO}, {"Da", "MA", NO}}) {
    std::string mm = m, dd = da, e = d;
    q("getDataDimensions(" + m + "," + da + ")", [e](C, S) { return e; }, [mm, dd](Api &a) { return num(a.getDataDimensions(mm, dd)); });
    q("requiresGradientDataFor(" + m + "," + da + ")", [e](C, S) { return e == NO ? NO : b(false); }, [mm, dd](Api &a) { return b(a.requiresGradientDataFor(mm, dd)); });
  }
  q("getMeshVertexSize(MA)", [](C, S s) { return num(s.vertices); }, [](Api &a) { return num(a.getMeshVertexSize("MA")); });
  q("getMeshVertexSize(MB)", [up](C, S s) { return up(s) ? num(3) : NO; }, [](Api &a) { return num(a.getMeshVertexSize("MB")); });
  q("getMeshVertexSize(MX)", [](C, S) { return NO; }, [](Api &a) { return num(a.getMeshVertexSize("MX")); });
  q("getMeshVertexSize(M?)", [](C, S) { return NO; }, [](Api &a) { return num(a.getMeshVertexSize("M?")); });

  // mesh definition
  auto vtx = [&](std::string m, Api::VD pos) {
    add("setMeshVertex(" + m + "," + num(pos.size()) + ")", [m, pos](C, S s, T n) {
      if (s.phase == Finalized || m != "MA" || s.locked || pos.size() != 2)
        return NO;
      if (s.vertices >= 4)
        return SKIP;
      ++n.vertices;
      return num(s.vertices); }, [m, pos](Api &a) { return num(a.setMeshVertex(m, pos)); });
  };
  vtx("MA", {0.25, 0.25});
  vtx("MA", {0.25});
  vtx("MA", {0.25, 0.25, 0.});
  vtx("MA", {});
  vtx("MB", {0.25, 0.25});
  vtx("MX", {0.25, 0.25, 0.});
  vtx("M?", {0.25, 0.25});
  auto vtcs = [&](std::string m, Api::VD pos, int k) {
    add("setMeshVertices(" + m + "," + num(pos.size()) + "," + num(k) + ")", [m, pos, k](C, S s, T n) {
      if (s.phase == Finalized || m != "MA" || s.locked || static_cast<int>(pos.size()) != 2 * k)
        return NO;
      if (s.vertices >= 4)
        return SKIP;
      n.vertices += k;
      n.extent = n.extent || k > 1;
      Api::VD ids;
      for (int i = 0; i < k; ++i)
        ids.push_back(s.vertices + i);
      return show(ids); }, [m, pos, k](Api &a) { auto v = a.setMeshVertices(m, pos, k); return show(v); });
  };
  vtcs("MA", {0, 0, 1, 0}, 2);
  vtcs("MA", {0, 0, 1}, 2);
  vtcs("MA", {0, 0, 1, 0, 1, 1}, 2);
  vtcs("MA", {}, 0);
  vtcs("MA", {}, 1);
  vtcs("MB", {0, 0}, 1);
  vtcs("M?", {0, 0}, 1);
  auto conn = [&](std::string n, int maxId, bool valid, std::function<void(Api &)> f) {
    add(n, [maxId, valid](C, S s, T) {
      if (s.phase == Finalized || s.locked || !valid || maxId >= s.vertices)
        return NO;
      return std::string("ok"); }, [f](Api &a) { f(a); return std::string("ok"); });
  };
  conn("setMeshEdge(MA,0,1)", 1, true, [](Api &a) { a.setMeshEdge("MA", 0, 1); });
  conn("setMeshEdge(MA,0,-1)", 1, false, [](Api &a) { a.setMeshEdge("MA", 0, -1); });
  conn("setMeshEdge(MB,0,1)", 1, false, [](Api &a) { a.setMeshEdge("MB", 0, 1); });
  conn("setMeshEdges(MA,{0,1})", 1, true, [](Api &a) { a.setMeshEdges("MA", {0, 1}); });
  conn("setMeshEdges(MA,{0})", 1, false, [](Api &a) { a.setMeshEdges("MA", {0}); });
  conn("setMeshEdges(MA,{})", -1, true, [](Api &a) { a.setMeshEdges("MA", {}); });
  conn("setMeshTriangle(MA,0,1,1)", 1, false, [](Api &a) { a.setMeshTriangle("MA", 0, 1, 1); });
  conn("setMeshTriangle(MA,0,1,2)", 2, true, [](Api &a) { a.setMeshTriangle("MA", 0, 1, 2); });
  conn("setMeshTriangles(MA,{0,1})", 2, false, [](Api &a) { a.setMeshTriangles("MA", {0, 1}); });
  conn("setMeshTriangles(MA,{0,1,77})", 2, false, [](Api &a) { a.setMeshTriangles("MA", {0, 1, 77}); });
  conn("setMeshQuad(MA,0,1,2,2)", 2, false, [](Api &a) { a.setMeshQuad("MA", 0, 1, 2, 2); });
  conn("setMeshQuads(MA,{0,1,2})", 2, false, [](Api &a) { a.setMeshQuads("MA", {0, 1, 2}); });
  conn("setMeshTetrahedron(MA,0,1,2,3)", 2, false, [](Api &a) { a.setMeshTetrahedron("MA", 0, 1, 2, 3); });
  conn("setMeshTetrahedra(MA,{0,1,2,3})", 2, false, [](Api &a) { a.setMeshTetrahedra("MA", {0, 1, 2, 3}); });

  // access region
  auto region = [&](std::string m, Api::VD bb, bool valid) {
    add("setMeshAccessRegion(" + m + "," + show(bb) + ")", [m, bb, valid](C, S s, T n) {
      if (s.phase != Constructed || m != "MB" || s.region || !valid)
        return NO;
      n.region = true;
      return std::string("ok"); }, [m, bb](Api &a) { a.setMeshAccessRegion(m, bb); return std::string("ok"); });
  };
  region("MB", {0, 1, 1, 0}, false);
  region("MB", {0, 1}, false);
  region("MB", {0, 1, 0, 1, 0, 1}, false);
  region("MB", {-1, 2, -1, 2}, true);
  region("MA", {-1, 2, -1, 2}, true);
  region("M?", {-1, 2, -1, 2}, true);

  // data
  auto wr = [&](std::string m, std::string d, Api::VI ids, Api::VD v, bool valid) {
    add("writeData(" + m + "," + d + "," + show(ids) + "," + show(v) + ")", [m, d, ids, v, valid](C c, S s, T) {
      if (m == "MB" && c.remeshing)
        return NO;
      if ((s.phase != Constructed && s.phase != Running) || !valid)
        return NO;
      int have = m == "MA" ? s.vertices : s.phase == Running ? 3 : 0;
      for (int i : ids)
        if (i < 0 || i >= have)
          return NO;
      if (s.wasReset && m == "MA" && s.vertices == 0 && !ids.empty())
        return NO;
      return std::string("ok"); }, [=](Api &a) { a.writeData(m, d, ids, v); return std::string("ok"); });
  };
  wr("MA", "Da", {0}, {1}, true);
  wr("MA", "Da", {}, {}, true);
  wr("MA", "Da", {0}, {1, 2}, false);
  wr("MA", "Da", {0, 0}, {1}, false);
  wr("MA", "Da", {}, {1}, false);
  wr("MA", "Da", {0}, {}, false);
  wr("MA", "Da", {-1}, {1}, false);
  wr("MA", "Da", {9}, {1}, false);
  wr("MA", "Da", {0}, {nan}, false);
  wr("MA", "Da", {0}, {inf}, false);
  wr("MA", "Db", {0}, {1, 2}, false);
  wr("MA", "Db", {}, {}, false);
  wr("MA", "Dc", {0}, {1}, false);
  wr("MA", "D?", {0}, {1}, false);
  wr("MB", "Dc", {2}, {1}, true);
  wr("MB", "Dc", {3}, {1}, false);
  wr("MB", "Da", {0}, {1}, false);
  wr("MB", "Dd", {0}, {1, 1}, false);
  wr("MX", "Dx", {0}, {1}, false);
  wr("M?", "Da", {0}, {1}, false);
  auto rd = [&](std::string m, std::string d, Api::VI ids, double t, int k, bool valid) { // t<0: beyond the end
    add("readData(" + m + "," + d + "," + show(ids) + "," + num(t) + "," + num(k) + ")", [=](C, S s, T) {
      if (!up(s) || !valid || !(t >= 0) || !std::isfinite(t))
        return NO;
      double maxdt = s.phase == Over ? 0 : 1 - s.t;
      if (t > maxdt + 1e-12)
        return NO;
      if (s.wasReset && m == "MA")
        return NO;
      for (int i : ids)
        if (i < 0 || i >= (m == "MA" ? s.vertices : 3))
          return NO;
      return num(k); }, [=](Api &a) { return num(a.readData(m, d, ids, t, k).size()); });
  };
  for (double t : {0., .5, 1., 1.25, -.25, -1e-3, inf, nan})
    rd("MA", "Db", {0}, t, 2, true);
  rd("MA", "Db", {}, 0, 0, true);
  rd("MA", "Db", {0}, 0, 1, false);
  rd("MA", "Db", {0}, 0, 3, false);
  rd("MA", "Db", {}, 0, 2, false);
  rd("MA", "Db", {-1}, 0, 2, false);
  rd("MA", "Db", {9}, 0, 2, false);
  rd("MA", "Da", {0}, 0, 1, false);
  rd("MA", "Dd", {0}, 0, 2, false);
  rd("MA", "D?", {0}, 0, 2, false);
  rd("MB", "Dd", {2}, 0, 2, true);
  rd("MB", "Dd", {3}, 0, 2, false);
  rd("MB", "Db", {0}, 0, 2, false);
  rd("MX", "Dx", {0}, 0, 1, false);
  rd("M?", "Da", {0}, 0, 1, false);
  auto ver = [&](std::string m, int k, int dims, bool valid) {
    add("getMeshVertexIDsAndCoordinates(" + m + "," + num(k) + "," + num(dims) + ")", [=](C, S s, T) { return up(s) && valid ? num(k) : NO; }, [=](Api &a) {
      Api::VI i(k);
      Api::VD x(k * dims);
      a.getMeshVertexIDsAndCoordinates(m, i, x);
      return num(k); });
  };
  ver("MB", 3, 2, true);
  ver("MB", 0, 2, true);
  ver("MB", 2, 2, false);
  ver("MB", 4, 2, false);
  ver("MB", 3, 3, false);
  ver("MA", 3, 2, false);
  ver("MX", 3, 3, false);
  ver("M?", 3, 2, false);

  // experimental functions
  add("resetMesh(MA)", [](C c, S s, T n) {
    if (!c.experimental || !c.remeshing || s.phase != Running || !s.complete)
      return NO;
    if (s.wasReset)
      return SKIP;
    n.vertices = 0;
    n.locked   = false;
    n.wasReset = true;
    return std::string("ok"); }, [](Api &a) { a.resetMesh("MA"); return std::string("ok"); });
  add("resetMesh(M?)", [](C, S, T) { return NO; }, [](Api &a) { a.resetMesh("M?"); return std::string("ok"); });
  add("writeAndMapData(MB,Dc)", [](C, S, T) { return NO; }, [](Api &a) { a.writeAndMapData("MB", "Dc", {0, 0}, {1}); return std::string("ok"); });
  add("writeAndMapData(MA,Da)", [](C, S, T) { return NO; }, [](Api &a) { a.writeAndMapData("MA", "Da", {0, 0}, {1}); return std::string("ok"); });
  add("mapAndReadData(MB,Dd)", [](C, S, T) { return NO; }, [](Api &a) { a.mapAndReadData("MB", "Dd", {0, 0}, 0, 2); return std::string("ok"); });
  add("mapAndReadData(MA,Db)", [](C, S, T) { return NO; }, [](Api &a) { a.mapAndReadData("MA", "Db", {0, 0}, 0, 2); return std::string("ok"); });
  auto grad = [&](std::string m, std::string d, Api::VI ids, Api::VD v, bool valid) {
    add("writeGradientData(" + m + "," + d + "," + show(ids) + ")", [=](C c, S s, T) {
      if (s.phase == Finalized || !c.experimental || !valid)
        return NO;
      if (s.phase == Over)
        return SKIP; // not specified
      return std::string("ok"); }, [=](Api &a) { a.writeGradientData(m, d, ids, v); return std::string("ok"); });
  };
  grad("MA", "Da", {}, {}, true);
  grad("MA", "Db", {0}, {1, 2, 3, 4}, false);
  grad("MA", "D?", {0}, {1, 2}, false);
  grad("M?", "Da", {0}, {1, 2}, false);

  // profiling
  add("startProfilingSection(x)", [](C, S s, T n) {
    if (s.phase == Finalized || s.sections >= 2)
      return SKIP;
    ++n.sections;
    return std::string("ok"); }, [](Api &a) { a.startProfilingSection("x"); return std::string("ok"); });
  add("startProfilingSection(x/y)", [](C, S, T) { return NO; }, [](Api &a) { a.startProfilingSection("x/y"); return std::string("ok"); });
  add("stopLastProfilingSection()", [](C, S s, T n) {
    if (s.sections == 0)
      return NO;
    --n.sections;
    return std::string("ok"); }, [](Api &a) { a.stopLastProfilingSection(); return std::string("ok"); });
  return l;
}

State start(const Cfg &c)
{
  State s;
  s.needInit = c.initData;
  return s;
}

struct Plan {
  int              cfg;
  std::vector<int> calls;
};
} // namespace

int main(int argc, char **argv)
{
  Campaign c("C13", argc, argv);
  c.rule = "every sequence of effective calls up to the stated length from the stated histories; before and after each of them all other calls are tried; executions are distinct by the sequence of effective calls, configuration and results";
  Sched sched;
  RankLibs::get().load(c.lib, c.scratchDir(), 2, &sched);
  const auto calls = alphabet();
  std::vector<Cfg> cfgs;
  for (int e = 0; e < 3; ++e)
    for (int p = e == 2; p < 2; ++p)
      for (int f = 0; f < 2; ++f)
        for (int i = 0; i < 2; ++i)
          cfgs.push_back({bool(p), bool(f), bool(i), e > 0, e > 1});
  auto idx = [&](const std::string &n) {
    for (size_t i = 0; i < calls.size(); ++i)
      if (calls[i].name == n)
        return static_cast<int>(i);
    abort();
  };

  auto body = [&](const Plan &plan) {
    return [&, plan](CaseCtx &ctx, uint64_t no) {
      const Cfg  &cfg = cfgs[plan.cfg];
      std::string f   = ctx.dir + "/precice-config.xml";
      writeFile(f, xml(cfg));
      // does A ever initialize?
      bool  init = false;
      State m    = start(cfg);
      for (int k : plan.calls) {
        State n = m;
        calls[k].model(cfg, m, n);
        if (calls[k].name == "initialize()" && m.phase == Constructed && (n.phase == Running || n.dead))
          init = true;
        m = n;
      }
      Session s(sched);
      auto one = [&](Api &a, const Call &k, const State &st, State &next) {
        std::string want = k.model(cfg, st, next), got, msg;
        if (want == SKIP)
          return true;
        if (ctx.verbose)
          std::cerr << "  " << k.name << " -> " << want << "\n";
        try {
          got = k.run(a);
        } catch (const ApiError &e) {
          got = NO;
          msg = e.what();
          ctx.require(!msg.empty(), k.name + ": empty message", [&] { return k.name; });
        }
        ctx.count("transitions");
        ctx.observe(got);
        if (got != want) {
          ctx.fail(k.name + (want == NO ? ": not refused" : got == NO ? ": refused" : ": result"), "phase " + num(st.phase) + " vertices " + num(st.vertices) + " window " + num(st.window) + " t " + num(st.t) + ": " + k.name + " gives " + (got == NO ? "error " + msg : got) + ", expected " + (want == NO ? "an error" : want));
          ctx.taint = true;
          return false;
        }
        return true;
      };
      s.run(2, [&](int slot, Api &a) {
        if (slot == 0) {
          a.create("A", f, 0, 1);
          State st = start(cfg), st2;
          auto  probe = [&] {
            for (size_t k = 0; k < calls.size(); ++k) {
              State n = st;
              auto  w = calls[k].model(cfg, st, n);
              if (w == SKIP || n.key() != st.key())
                continue;
              if (calls[k].name.rfind("requires", 0) == 0 && calls[k].name.find("()") != std::string::npos && w != NO)
                continue;
              if (!one(a, calls[k], st, n))
                return false;
            }
            ctx.state(mix(mix(static_cast<uint64_t>(plan.cfg), double(st.phase * 100 + st.vertices * 10 + st.sections)), double(st.window * 1000 + st.iteration * 100 + st.region * 10 + st.locked * 4 + st.wcp * 2 + st.rcp) + st.t / 2));
            return true;
          };
          bool good = true;
          for (int k : plan.calls) {
            State n;
            if (st.phase != Finalized)
              st2 = st;
            good = good && probe();
            n    = st;
            good = good && one(a, calls[k], st, n);
            st   = n;
          }
          if (good && !st.dead)
            good = probe();
          if (!init && good && !st.dead)
            a.destroy();
          else if (!good || st.dead || st.phase != Finalized || st2.window < 2) {
            ctx.taint = true;
            sched.processExit();
          }
        } else if (init) {
          a.create("B", f, 0, 1);
          auto ids = a.setMeshVertices("MB", {0, 0, 1, 0, 0, 1}, 3);
          a.setMeshVertices("MX", {0, 0, 0}, 1);
          a.requiresInitialData();
          a.initialize();
          while (a.isCouplingOngoing()) {
            a.requiresWritingCheckpoint();
            a.writeData("MB", "Db", ids, {1, 2, 3, 4, 5, 6});
            a.advance(a.getMaxTimeStepSize());
            a.requiresReadingCheckpoint();
          }
          a.finalize();
          a.destroy();
        }
      },
            policy(no));
      ctx.require(s.error[0].empty(), "A", [&] { return s.error[0]; });
      ctx.require(s.out.deadlock.empty(), "deadlock", [&] { return s.out.deadlock; });
      ctx.outcome(ctx.digest);
      ctx.count("executions");
    };
  };
  auto describe = [&](const Plan &p) {
    const Cfg  &k = cfgs[p.cfg];
    std::string s = std::string(k.parallelImplicit ? "PI" : "SE") + (k.aFirst ? " A first" : " B first") + (k.initData ? " initial data" : "") + (k.experimental ? " experimental" : "") + (k.remeshing ? " remeshing" : "");
    for (int i : p.calls)
      s += " " + calls[i].name;
    return s;
  };
  auto stage = [&](const std::string &name, std::vector<Plan> plans) {
    c.stage(name, plans.size(), [&](uint64_t i) { return describe(plans[i]); }, [&](CaseCtx &ctx, uint64_t i) { body(plans[i])(ctx, i); });
  };
  // all sequences of effective calls from a history
  auto extend = [&](std::vector<Plan> &out, int cfg, std::vector<int> prefix, int depth, const std::set<int> &letters) {
    std::function<void(const State &, std::vector<int> &, int)> rec = [&](const State &s, std::vector<int> &seq, int left) {
      bool leaf = true;
      if (left > 0 && s.phase != Finalized && !s.dead)
        for (int k : letters) {
          State n = s;
          auto  w = calls[k].model(cfgs[cfg], s, n);
          if ((w == NO && !n.dead) || w == SKIP)
            continue;
          if (n.key() == s.key() && calls[k].name.rfind("writeData", 0) != 0 && calls[k].name.rfind("setMesh", 0) != 0)
            continue;
          leaf = false;
          seq.push_back(k);
          rec(n, seq, left - 1);
          seq.pop_back();
        }
      if (leaf)
        out.push_back({cfg, seq});
    };
    State s = start(cfgs[cfg]);
    for (int k : prefix) {
      State n = s;
      auto  w = calls[k].model(cfgs[cfg], s, n);
      if (w == NO || w == SKIP)
        return;
      s = n;
    }
    rec(s, prefix, depth);
  };
  std::set<int> letters;
  for (size_t k = 0; k < calls.size(); ++k) {
    const auto &n = calls[k].name;
    if (n.rfind("get", 0) == 0 || n.rfind("is", 0) == 0 || n.rfind("readData", 0) == 0 || n.rfind("requiresMesh", 0) == 0 || n.rfind("requiresGrad", 0) == 0)
      continue;
    if (n == "writeData(MA,Da,(),())" || n == "setMeshEdges(MA,{})" || n.rfind("setMeshVertices(MA,0,0", 0) == 0 || n == "setMeshEdges(MA,{0,1})" || n.rfind("writeGrad", 0) == 0)
      continue;
    letters.insert(static_cast<int>(k));
  }
  int I = idx("initialize()"), V = idx("setMeshVertices(MA,4,2)"), Q = idx("requiresInitialData()"), W = idx("requiresWritingCheckpoint()"), R = idx("requiresReadingCheckpoint()"), A1 = idx("advance(1)"), A5 = idx("advance(0.5)"), F = idx("finalize()"), X = idx("setMeshAccessRegion(MB,(-1 2 -1 2 ))");
  const bool big = c.thorough();
  {
    std::vector<Plan> p;
    for (size_t k = 0; k < cfgs.size(); ++k)
      extend(p, k, {}, big ? 5 : 4, letters);
    stage("from-start", p);
  }
  {
    std::vector<Plan> p;
    for (size_t k = 0; k < cfgs.size(); ++k) {
      for (auto &pre : std::vector<std::vector<int>>{{V, Q, I}, {V, Q, I, W, A5}, {V, Q, X, I, W, A1}, {V, Q, I, W, A1, R}})
        extend(p, k, pre, big ? 4 : 3, letters);
    }
    stage("running", p);
  }
  {
    std::vector<Plan> p;
    for (size_t k = 0; k < cfgs.size(); ++k) {
      std::vector<int> whole;
      if (cfgs[k].parallelImplicit)
        whole = {V, Q, I, W, A1, R, A1, R, W, A1, R};
      else
        whole = {V, Q, I, W, A1, A5};
      extend(p, k, whole, big ? 5 : 3, letters);
      std::vector<int> end = whole;
      end.push_back(cfgs[k].parallelImplicit ? A1 : A5);
      extend(p, k, end, 3, letters);
      end.push_back(F);
      extend(p, k, end, 3, letters);
      extend(p, k, {F}, 3, letters);
      extend(p, k, {V, Q, F}, 3, letters);
    }
    stage("end", p);
  }
  return c.finish();
}
