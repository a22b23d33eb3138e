// C17: coupled runs over the real socket transport, and the death of ranks at any point.
#include "../src/world.hpp"
#include "../src/campaign.hpp"
#include "../src/couple.hpp"
#include <fstream>
#include <sstream>
#include <sys/wait.h>
using namespace verif;

namespace {
World world;

struct Rank {
  std::vector<std::string> log;
  std::string              error;
  bool                     ended = false;
};
struct Run {
  WorldOutcome      out;
  std::vector<Rank> ranks;
};

// ---- transfer of the result from the process that runs it
void put(std::string &b, const std::string &s)
{
  b += std::to_string(s.size()) + ":" + s;
}
void put(std::string &b, long v) { put(b, std::to_string(v)); }
struct In {
  const std::string &b;
  size_t             at = 0;
  std::string        s()
  {
    size_t c = b.find(':', at);
    if (c == std::string::npos)
      throw std::runtime_error("truncated result");
    size_t n = std::stoul(b.substr(at, c - at));
    at       = c + 1 + n;
    return b.substr(c + 1, n);
  }
  long l() { return std::stol(s()); }
};
std::string pack(const Run &r)
{
  std::string b;
  put(b, r.out.finished);
  put(b, r.out.deadlock);
  put(b, r.out.killed);
  put(b, static_cast<long>(r.out.faults.size()));
  for (auto &f : r.out.faults)
    put(b, f);
  put(b, static_cast<long>(r.out.choices.size()));
  for (auto &c : r.out.choices)
    put(b, c.n);
  put(b, r.out.switches);
  put(b, static_cast<long>(r.ranks.size()));
  for (size_t i = 0; i < r.ranks.size(); ++i) {
    put(b, r.out.ops[i]);
    put(b, r.out.visible[i]);
    put(b, r.ranks[i].error);
    put(b, r.ranks[i].ended);
    put(b, static_cast<long>(r.ranks[i].log.size()));
    for (auto &l : r.ranks[i].log)
      put(b, l);
  }
  return b;
}
Run unpack(const std::string &b)
{
  In  in{b};
  Run r;
  r.out.finished = in.l();
  r.out.deadlock = in.s();
  r.out.killed   = in.l();
  for (long n = in.l(); n > 0; --n)
    r.out.faults.push_back(in.s());
  for (long n = in.l(); n > 0; --n)
    r.out.choices.push_back({"", static_cast<int>(in.l()), 0});
  r.out.switches = in.l();
  r.ranks.resize(in.l());
  for (auto &k : r.ranks) {
    r.out.ops.push_back(in.l());
    r.out.visible.push_back(in.l());
    k.error = in.s();
    k.ended = in.l();
    for (long n = in.l(); n > 0; --n)
      k.log.push_back(in.s());
  }
  return r;
}
std::string num(double d)
{
  char b[40];
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}
} // namespace

int main(int argc, char **argv)
{
  Campaign c("C17", argc, argv);
  c.technique   = "stateless model checking of complete coupled runs over the real socket transport in a simulated operating system: all schedules up to a bound of deviations, all crash points of all ranks";
  c.rule        = "a case is a scenario with a policy and a rank that dies; distinct are the outcomes of its executions";
  c.assumptions = {"system calls behave as the simulated operating system does (POSIX semantics of stream sockets, epoll, files)", "a process that dies loses its sockets at once", "a solver stops when it gets an error: its process ends, with or without destroying the participant"};
  const bool big = c.thorough();

  struct Case {
    std::string name;
    Scenario    s;
  };
  std::vector<Case> cases;
  auto ex = [](int a, int b, bool init = false) {
    Exchange e;
    e.from = a;
    e.to   = b;
    e.init = init;
    return e;
  };
  auto two = [&](const std::string &name, Scheme sch, int ra, int rb, const std::string &extra, bool both = true) {
    Scenario s;
    s.scheme = sch;
    s.ranks  = {ra, rb};
    s.ex     = {ex(0, 1, sch == Scheme::PI || sch == Scheme::SE)};
    if (both)
      s.ex.push_back(ex(1, 0, sch == Scheme::SI));
    s.maxWindows = 2;
    s.maxIt      = 2;
    if (isImplicit(sch)) {
      Measure m;
      m.limit    = 1e-9;
      s.measures = {m};
    }
    s.m2nExtra = extra;
    cases.push_back({name + (both ? "" : ", one way") + ", " + std::to_string(ra) + "x" + std::to_string(rb) + (extra.empty() ? "" : ", " + extra), s});
  };
  const std::string gs = "enforce-gather-scatter=\"true\"", tl = "use-two-level-initialization=\"true\"";
  two("serial-explicit", Scheme::SE, 1, 1, "");
  two("parallel-explicit", Scheme::PE, 1, 1, "");
  two("serial-implicit", Scheme::SI, 1, 1, "");
  two("parallel-implicit", Scheme::PI, 1, 1, gs);
  two("serial-explicit", Scheme::SE, 1, 1, "", false);
  two("serial-explicit", Scheme::SE, 1, 1, gs, false);
  two("serial-explicit", Scheme::SE, 2, 1, "");
  two("parallel-implicit", Scheme::PI, 1, 2, "");
  two("serial-implicit", Scheme::SI, 2, 1, gs);
  two("parallel-explicit", Scheme::PE, 2, 2, "");
  two("serial-explicit", Scheme::SE, 2, 2, tl, false);
  two("parallel-explicit", Scheme::PE, 1, 3, gs, false);
  {
    Scenario s;
    s.scheme     = Scheme::Multi;
    s.nParts     = 3;
    s.controller = 1;
    s.ranks      = {1, 1, 1};
    s.ex         = {ex(0, 1), ex(1, 0), ex(2, 1), ex(1, 2)};
    s.maxWindows = 2;
    Measure m;
    m.limit    = 1e-9;
    s.measures = {m};
    cases.push_back({"multi, 1x1x1", s});
  }
  {
    Scenario s;
    s.nParts     = 3;
    s.ranks      = {1, 1, 1};
    s.ex         = {ex(0, 1), ex(1, 2)};
    s.ex[1].sub  = 1;
    s.subs       = {{Scheme::SE, 0, 1, {}, -1}, {Scheme::PE, 1, 2, {}, -1}};
    s.maxWindows = 2;
    cases.push_back({"chain of explicit schemes, 1x1x1", s});
  }
  const int ends = 2; // after an error: the process ends at once, or destroys the participant first

  // ---- the solvers
  auto solver = [](const Scenario &s, int p, int r, Api &api, Rank &me, const std::string &config, int how) {
    try {
      auto note = [&](const std::string &t) { me.log.push_back(t); };
      api.create(Scenario::pname(p), config, r, s.ranks[p]);
      note("created");
      std::vector<double> coords;
      std::vector<int>    mine;
      for (int v = 0; v < s.V; ++v)
        if (s.owner(p, v) == r) {
          mine.push_back(v);
          coords.push_back(v);
          coords.push_back(0);
        }
      auto ids = api.setMeshVertices(Scenario::mname(p), coords, static_cast<int>(mine.size()));
      auto write = [&](int e, double base) {
        std::vector<double> v;
        for (int k : mine)
          v.push_back(base + k);
        api.writeData(Scenario::mname(p), s.dn(e), ids, v);
      };
      if (api.requiresInitialData())
        for (size_t e = 0; e < s.ex.size(); ++e)
          if (s.ex[e].from == p)
            write(static_cast<int>(e), -100.0 * (e + 1));
      api.initialize();
      note("initialized");
      for (int k = 1; api.isCouplingOngoing(); ++k) {
        note("ongoing");
        if (api.requiresWritingCheckpoint())
          note("write checkpoint");
        double dt  = api.getMaxTimeStepSize();
        double sum = 0;
        for (size_t e = 0; e < s.ex.size(); ++e)
          if (s.ex[e].to == p)
            for (double t : {0.0, dt}) {
              std::string line = "read";
              for (double d : api.readData(Scenario::mname(p), s.dn(static_cast<int>(e)), ids, t, static_cast<int>(ids.size()))) {
                line += " " + num(d);
                sum += d;
              }
              note(line);
            }
        for (size_t e = 0; e < s.ex.size(); ++e)
          if (s.ex[e].from == p)
            write(static_cast<int>(e), 1000.0 * (p + 1) + 100 * k + 10.0 * e + sum / 1024);
        api.advance(dt);
        note("advanced " + num(dt));
        if (api.requiresReadingCheckpoint())
          note("read checkpoint");
        if (api.isTimeWindowComplete())
          note("window complete");
      }
      api.finalize();
      note("finalized");
      api.destroy();
      me.ended = true;
    } catch (const std::exception &e) {
      me.error = e.what();
      if (me.error.empty())
        me.error = "(no message)";
      if (how == 1)
        try {
          api.destroy();
        } catch (const std::exception &f) {
          me.error += std::string("; destroying: ") + f.what();
        }
      world.processExit();
    }
  };
  auto run = [&](CaseCtx &ctx, const Scenario &s, const WorldPolicy &p, int how, const std::vector<std::string> &configs) {
    int n = 0;
    for (int r : s.ranks)
      n += r;
    WorldLibs::pin(ctx.dir);
    WorldLibs::get().load(c.lib, c.scratchDir(), n, &world);
    std::filesystem::remove_all("precice-run");
    int fd[2];
    if (pipe(fd))
      throw std::runtime_error("pipe");
    pid_t pid = fork();
    if (pid == 0) {
      close(fd[0]);
      auto                              *r = new Run;
      std::vector<std::function<void()>> mains;
      r->ranks.resize(n);
      int g = 0;
      for (int q = 0; q < s.nParts; ++q)
        for (int k = 0; k < s.ranks[q]; ++k, ++g)
          mains.push_back([&, q, k, g] { solver(s, q, k, WorldLibs::get().api(g), r->ranks[g], configs[q], how); });
      r->out        = world.run(std::move(mains), p);
      std::string b = pack(*r);
      for (size_t at = 0; at < b.size();) {
        ssize_t w = write(fd[1], b.data() + at, b.size() - at);
        if (w <= 0)
          break;
        at += static_cast<size_t>(w);
      }
      _exit(0);
    }
    close(fd[1]);
    std::string b;
    char        buf[1 << 14];
    for (ssize_t k; (k = read(fd[0], buf, sizeof buf)) > 0;)
      b.append(buf, static_cast<size_t>(k));
    close(fd[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    if (WIFSIGNALED(status)) {
      signal(WTERMSIG(status), SIG_DFL);
      raise(WTERMSIG(status)); // as if it had happened here
    }
    auto r = unpack(b);
    ctx.count("executions");
    for (auto o : r.out.ops)
      ctx.count("transitions", o);
    if (ctx.verbose) {
      std::cerr << "finished " << r.out.finished << " killed " << r.out.killed << " deadlock " << r.out.deadlock << " choices " << r.out.choices.size() << " visible";
      for (auto o : r.out.visible)
        std::cerr << " " << o;
      for (size_t i = 0; i < r.ranks.size(); ++i)
        std::cerr << "\n  rank " << i << (r.ranks[i].ended ? " ended" : "") << " after " << (r.ranks[i].log.empty() ? "nothing" : r.ranks[i].log.back()) << " " << r.ranks[i].error;
      std::cerr << "\n";
    }
    for (auto &f : r.out.faults)
      ctx.fail("fault", f);
    return r;
  };
  auto writeConfig = [&](const std::string &file, const std::string &xml) {
    std::ofstream(file) << xml;
    return file;
  };
  auto policy = [&](uint64_t k) {
    WorldPolicy p;
    p.order = static_cast<int>(k % 3);
    if (k / 3) {
      p.capacity = 64;
      p.chunk    = 5;
    }
    return p;
  };
  // the run as it should be
  auto reference = [&](CaseCtx &ctx, const Scenario &s, const WorldPolicy &p, const std::vector<std::string> &configs) {
    auto r = run(ctx, s, p, 0, configs);
    ctx.require(r.out.deadlock.empty(), "hangs", [&] { return r.out.deadlock; });
    for (size_t k = 0; k < r.ranks.size() && r.out.deadlock.empty(); ++k)
      ctx.require(r.ranks[k].ended, "fails", [&] { return "rank " + std::to_string(k) + " fails: " + r.ranks[k].error; });
    return r;
  };

  // ---- schedules
  const int slices = 8;
  c.stage(
      "schedules", cases.size() * 6 * slices, [&](uint64_t i) { return cases[i / 6 / slices].name + ", policy " + std::to_string(i / slices % 6) + ", slice " + std::to_string(i % slices); },
      [&](CaseCtx &ctx, uint64_t i) {
        auto                    &s = cases[i / 6 / slices].s;
        std::vector<std::string> configs(s.nParts, writeConfig("config.xml", s.xml()));
        auto                     ref = reference(ctx, s, policy(0), configs);
        if (!ctx.violations.empty())
          return;
        auto p    = policy(i / slices % 6);
        p.explore = true;
        p.lockPoints = big;
        auto same = [&](const Run &r) {
          ctx.count("schedules");
          ctx.require(r.out.deadlock.empty(), "hangs", [&] { return r.out.deadlock; });
          if (!r.out.deadlock.empty())
            return;
          for (size_t k = 0; k < r.ranks.size(); ++k) {
            ctx.require(r.ranks[k].error.empty(), "fails", [&] { return "rank " + std::to_string(k) + " fails: " + r.ranks[k].error; });
            ctx.require(r.ranks[k].log == ref.ranks[k].log, "results depend on the schedule", [&] { return "rank " + std::to_string(k); });
          }
          ctx.outcome(mix(mix(1, i), static_cast<uint64_t>(r.out.switches)));
        };
        auto base = run(ctx, s, p, 0, configs);
        same(base);
        long k = 0;
        const long every = big ? 1 : 16; // the quick tier takes a fixed part of the choices
        for (size_t at = 0; at < base.out.choices.size(); ++at)
          for (int alt = 1; alt < base.out.choices[at].n; ++alt) {
            if (k++ % (slices * every) != static_cast<long>(i % slices) * every)
              continue;
            p.prefix.assign(at, 0);
            p.prefix.push_back(alt);
            same(run(ctx, s, p, 0, configs));
            if (!ctx.violations.empty())
              return;
          }
      });

  // ---- a rank dies
  struct Victim {
    size_t k;
    int    rank;
  };
  std::vector<Victim> victims;
  for (size_t k = 0; k < cases.size(); ++k) {
    int n = 0;
    for (int r : cases[k].s.ranks)
      n += r;
    for (int r = 0; r < n; ++r)
      victims.push_back({k, r});
  }
  const uint64_t W = big ? 12 : 2, P = big ? W * ends : W; // policies; ends
  const auto     endOf = [=](uint64_t i) { return static_cast<int>(i % ends); };
  const auto     policyOf = [=](uint64_t i) { return big ? i / ends % W : i % W; };
  c.stage(
      "crash", victims.size() * P, [&](uint64_t i) { return cases[victims[i / P].k].name + ", rank " + std::to_string(victims[i / P].rank) + " dies, policy " + std::to_string(policyOf(i)) + (endOf(i) ? ", survivors destroy the participant" : ""); },
      [&](CaseCtx &ctx, uint64_t i) {
        auto                    &s = cases[victims[i / P].k].s;
        std::vector<std::string> configs(s.nParts, writeConfig("config.xml", s.xml()));
        uint64_t                 w = policyOf(i);
        auto                     p = big ? policy(w % 6) : policy(w ? 4 : 0);
        p.swallow                  = big ? w < 6 : w % 2;
        auto ref                   = reference(ctx, s, p, configs);
        if (!ctx.violations.empty())
          return;
        p.killRank  = victims[i / P].rank;
        const int how = endOf(i);
        for (p.killAt = 1;; ++p.killAt) {
          auto r = run(ctx, s, p, how, configs);
          if (!r.out.killed)
            break;
          ctx.count("crash points");
          auto where = [&] { return " (operation " + std::to_string(p.killAt) + ")"; };
          if (!r.out.deadlock.empty()) {
            bool may = r.out.deadlock.find("waits in accept") != std::string::npos || r.out.deadlock.find("waits in sleep") != std::string::npos;
            ctx.require(may, "crash: hangs", [&] { return r.out.deadlock + where(); });
            ctx.count("survivors wait for a partner to connect");
          }
          for (size_t k = 0; k < r.ranks.size(); ++k)
            if (static_cast<int>(k) != p.killRank) {
              auto &got = r.ranks[k], &want = ref.ranks[k];
              bool  prefix = got.log.size() <= want.log.size() && std::equal(got.log.begin(), got.log.end(), want.log.begin());
              ctx.require(prefix, "crash: wrong results", [&] {
                size_t d = 0;
                while (d < got.log.size() && d < want.log.size() && got.log[d] == want.log[d])
                  ++d;
                return "rank " + std::to_string(k) + " sees " + (d < got.log.size() ? got.log[d] : "") + " instead of " + (d < want.log.size() ? want.log[d] : "") + where();
              });
              ctx.require(!got.ended || got.log.size() == want.log.size(), "crash: ends early", [&] { return "rank " + std::to_string(k) + where(); });
              ctx.count(got.ended ? "survivors that end" : got.error.empty() ? "survivors that wait" : "survivors that get an error");
              ctx.outcome(mix(mix(mix(2, got.error), static_cast<uint64_t>(got.log.size())), i));
            }
          if (!ctx.violations.empty())
            return;
        }
      });
  return c.finish();
}
