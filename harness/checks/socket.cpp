// C18: the socket transport.  The real transport runs in a world in which every system call, every file
// operation and every lock is a scheduling point.
#include "../src/world.hpp"
#include "../src/campaign.hpp"
#include <numeric>
#include <sstream>
using namespace verif;

namespace {
using VI = std::vector<int>;
using VD = std::vector<double>;
World world;

struct Rank {
  std::function<void(CommApi &)> script;
  std::string                    error;
  bool                           ended = false;
};
struct Run {
  WorldOutcome      out;
  std::vector<Rank> ranks;
  bool              anyError() const
  {
    for (auto &r : ranks)
      if (!r.error.empty())
        return true;
    return false;
  }
  std::string errors() const
  {
    std::string s;
    for (size_t i = 0; i < ranks.size(); ++i)
      if (!ranks[i].error.empty())
        s += "rank " + std::to_string(i) + ": " + ranks[i].error + "; ";
    return s;
  }
};
} // namespace

int main(int argc, char **argv)
{
  Campaign c("C18", argc, argv);
  c.technique   = "stateless model checking of the real socket transport: all schedules of its threads and all ranks at system calls, file operations and locks up to a bound of deviations, in a simulated operating system";
  c.rule        = "a case is a scenario with a policy; distinct are the outcomes of its executions";
  c.assumptions = {"system calls behave as the simulated operating system does (POSIX semantics of stream sockets, epoll, files)", "the resolver is only used for numeric addresses"};
  const bool big = c.thorough();

  auto run = [&](CaseCtx &ctx, std::vector<std::function<void(CommApi &)>> scripts, const WorldPolicy &p, bool fresh = true) {
    WorldLibs::pin(ctx.dir);
    WorldLibs::get().load(c.lib, c.scratchDir() , static_cast<int>(scripts.size()), &world);
    if (fresh)
      std::filesystem::remove_all(ctx.dir + "/precice-run");
    auto r = std::make_shared<Run>(); // stays alive if threads are lost
    r->ranks.resize(scripts.size());
    std::vector<std::function<void()>> mains;
    for (size_t i = 0; i < scripts.size(); ++i) {
      r->ranks[i].script = scripts[i];
      mains.push_back([r, i, dir = ctx.dir] {
        auto *comm = WorldLibs::get().comm(static_cast<int>(i));
        comm->create(dir);
        try {
          r->ranks[i].script(*comm);
          r->ranks[i].ended = true;
        } catch (const std::exception &e) {
          r->ranks[i].error = e.what();
        }
        try {
          comm->destroy();
        } catch (const std::exception &e) {
          r->ranks[i].error += std::string(" destroy: ") + e.what();
        }
        delete comm;
      });
    }
    r->out = world.run(std::move(mains), p);
    static int lost = 0; // threads of dead ranks stay behind in the worker
    if (!r->out.finished || r->out.killed)
      if (++lost > 200)
        ctx.taint = true;
    ctx.count("executions");
    ctx.count("transitions", std::accumulate(r->out.ops.begin(), r->out.ops.end(), 0L));
    std::string seen = r->errors() + r->out.deadlock;
    for (size_t at; (at = seen.find(ctx.dir)) != std::string::npos;)
      seen.erase(at, ctx.dir.size());
    ctx.observe(seen);
    if (ctx.verbose) {
      std::cerr << "finished " << r->out.finished << " deadlock " << r->out.deadlock << " choices " << r->out.choices.size() << " switches " << r->out.switches << " connects " << r->out.connects << " refused " << r->out.refused << " errors " << r->errors() << " ops";
      for (auto o : r->out.ops)
        std::cerr << " " << o;
      std::cerr << "\n";
    }
    return r;
  };
  auto sound = [&](CaseCtx &ctx, const Run &r, const std::string &what) {
    for (auto &f : r.out.faults)
      ctx.fail(what + ": fault", f);
    if (!r.out.deadlock.empty())
      ctx.fail(what + ": hangs", r.out.deadlock);
    if (r.anyError())
      ctx.fail(what + ": error", r.errors());
  };

  // explores all executions of a scenario within a number of deviations; a slice of the first ones
  using Build = std::function<std::vector<std::function<void(CommApi &)>>()>;
  using Judge = std::function<void(const Run &)>;
  auto explore = [&](CaseCtx &ctx, WorldPolicy p, int bound, int slice, int slices, const Build &build, const Judge &judge) {
    p.explore = true;
    std::function<void(std::vector<int>, int)> go = [&](std::vector<int> prefix, int cost) {
      if (ctx.taint || !ctx.violations.empty())
        return;
      p.prefix = prefix;
      auto r   = run(ctx, build(), p);
      ctx.count("schedules");
      judge(*r);
      ctx.outcome(mix(mix(1, r->errors()), r->out.deadlock));
      if (cost == bound)
        return;
      auto choices = r->out.choices;
      r.reset();
      long k = 0;
      for (size_t i = prefix.size(); i < choices.size(); ++i)
        for (int alt = 1; alt < choices[i].n; ++alt) {
          if (cost == 0 && k++ % slices != slice)
            continue;
          auto q = prefix;
          q.resize(i, 0);
          q.push_back(alt);
          go(q, cost + 1);
        }
    };
    go({}, 0);
  };

  // ---- connecting
  struct Scenario {
    std::string name;
    int         ranks;
    // scripts report into the vector
    std::function<std::vector<std::function<void(CommApi &)>>(std::shared_ptr<std::vector<double>>)> build;
    std::vector<double>                                                                              expected;
    std::vector<int>                                                                                 owner; ///< the rank that receives the value
  };
  std::vector<Scenario> scenarios;
  for (int n = 1; n <= 3; ++n)
    for (int offset : {0, 1}) {
      Scenario s{"accept " + std::to_string(n) + " requesters, offset " + std::to_string(offset), n + 1, nullptr, {}};
      s.build = [=](std::shared_ptr<std::vector<double>> got) {
        std::vector<std::function<void(CommApi &)>> f;
        f.push_back([=](CommApi &a) {
          a.prepare("A", "B");
          a.accept("A", "B", "T", 0, offset);
          a.cleanup("A", "B");
          (*got)[2 * n] = a.remoteSize();
          for (int k = 0; k < n; ++k)
            a.sendI(100 + k, k + offset);
          for (int k = 0; k < n; ++k)
            (*got)[k] = a.recvI(k + offset);
        });
        for (int k = 0; k < n; ++k)
          f.push_back([=](CommApi &a) {
            a.request("A", "B", "T", k, n);
            (*got)[n + k] = a.recvI(0);
            a.sendI(k + 10, 0);
          });
        return f;
      };
      for (int k = 0; k < n; ++k)
        s.expected.push_back(k + 10), s.owner.push_back(0);
      for (int k = 0; k < n; ++k)
        s.expected.push_back(100 + k), s.owner.push_back(1 + k);
      s.expected.push_back(n), s.owner.push_back(0);
      scenarios.push_back(s);
    }
  // servers and clients, all graphs of up to 2 x 2 ranks
  for (int g = 1; g < 16; ++g) {
    Scenario s{"servers and clients, graph " + std::to_string(g), 4, nullptr, {}};
    auto     edge = [=](int a, int b) { return (g >> (2 * a + b)) & 1; };
    s.build       = [=](std::shared_ptr<std::vector<double>> got) {
      std::vector<std::function<void(CommApi &)>> f;
      for (int a = 0; a < 2; ++a)
        f.push_back([=](CommApi &m) {
          m.prepare("A", "B");
          int n = edge(a, 0) + edge(a, 1);
          m.acceptServer("A", "B", "M", a, n);
          if (n)
            (*got)[8 + a] = m.remoteSize();
          for (int b = 0; b < 2; ++b)
            if (edge(a, b))
              m.wait(m.aSendVD({10.0 * a + b, 1, 2}, b));
          for (int b = 0; b < 2; ++b)
            if (edge(a, b))
              (*got)[2 * a + b] = m.wait(m.aRecvVD(2, b))[1];
        });
      for (int b = 0; b < 2; ++b)
        f.push_back([=](CommApi &m) {
          std::set<int> to;
          for (int a = 0; a < 2; ++a)
            if (edge(a, b))
              to.insert(a);
          if (to.empty()) // nobody calls it then
            return;
          m.requestClient("A", "B", "M", to, b);
          (*got)[10 + b] = m.remoteSize();
          for (int a : to)
            (*got)[4 + 2 * a + b] = m.wait(m.aRecvVD(3, a))[0];
          for (int a : to)
            m.wait(m.aSendVD({3, 70.0 + 10 * a + b}, a));
        });
      return f;
    };
    s.expected.assign(12, -1);
    s.owner = {0, 0, 1, 1, 2, 3, 2, 3, 0, 1, 2, 3};
    for (int a = 0; a < 2; ++a)
      for (int b = 0; b < 2; ++b)
        if (edge(a, b)) {
          s.expected[2 * a + b]     = 70 + 10 * a + b;
          s.expected[4 + 2 * a + b] = 10 * a + b;
          s.expected[8 + a]         = edge(a, 0) + edge(a, 1);
          s.expected[10 + b]        = edge(0, b) + edge(1, b);
        }
    scenarios.push_back(s);
  }
  for (int n = 1; n <= 4; ++n) {
    Scenario s{"ranks of a participant " + std::to_string(n), n, nullptr, {}};
    s.build = [=](std::shared_ptr<std::vector<double>> got) {
      std::vector<std::function<void(CommApi &)>> f;
      for (int k = 0; k < n; ++k)
        f.push_back([=](CommApi &m) {
          m.intra("A", "", k, n);
          if (n == 1)
            return;
          auto v          = m.reduceSum({1.0 + k, 10}, k == 0, true);
          (*got)[2 * k]     = v[0];
          (*got)[2 * k + 1] = m.broadcastI(k == 0 ? VI{4, 5, 6} : VI{}, k == 0)[1];
        });
      return f;
    };
    for (int k = 0; k < n; ++k) {
      s.expected.push_back(n == 1 ? -1 : n * (n + 1) / 2);
      s.expected.push_back(n == 1 ? -1 : 5);
      s.owner.insert(s.owner.end(), 2, k);
    }
    scenarios.push_back(s);
  }
  for (bool other : {false, true}) {
    // the same participants connect twice (tags), or chains of participants
    Scenario s{other ? "chain A-B-C" : "two tags", other ? 3 : 4, nullptr, {}};
    s.build = [=](std::shared_ptr<std::vector<double>> got) {
      std::vector<std::function<void(CommApi &)>> f;
      if (!other) {
        for (int k = 0; k < 2; ++k) {
          f.push_back([=](CommApi &m) {
            m.accept("A", "B", k ? "T" : "S", 0, 0);
            m.sendI(7 + k, 0);
          });
          f.push_back([=](CommApi &m) {
            m.request("A", "B", k ? "T" : "S", 0, 1);
            (*got)[k] = m.recvI(0);
          });
        }
        return f;
      }
      f.push_back([=](CommApi &m) {
        m.accept("A", "B", "T", 0, 0);
        (*got)[0] = m.recvD(0);
      });
      f.push_back([=](CommApi &m) {
        m.request("A", "B", "T", 0, 1);
        m.sendD(2.5, 0);
        std::unique_ptr<CommApi> other(WorldLibs::get().comm(1)); // a second connection at the same time
        other->create("");
        other->accept("B", "C", "T", 0, 0);
        other->sendS("chain", 0);
        other->destroy();
      });
      f.push_back([=](CommApi &m) {
        m.request("B", "C", "T", 0, 1);
        (*got)[1] = m.recvS(0) == "chain" ? 1 : 0;
      });
      return f;
    };
    s.expected = other ? std::vector<double>{2.5, 1} : std::vector<double>{7, 8};
    s.owner    = other ? std::vector<int>{0, 2} : std::vector<int>{1, 3};
    scenarios.push_back(s);
  }
  const int slices = 16;
  auto connectPolicy = [&](uint64_t k) {
    WorldPolicy p;
    p.order = static_cast<int>(k % 3);
    if (k / 3) {
      p.capacity = 3;
      p.chunk    = 1;
    }
    return p;
  };
  c.stage(
      "connect", scenarios.size() * 6 * slices, [&](uint64_t i) { return scenarios[i / 6 / slices].name + ", policy " + std::to_string(i / slices % 6) + ", slice " + std::to_string(i % slices); },
      [&](CaseCtx &ctx, uint64_t i) {
        auto &s     = scenarios[i / 6 / slices];
        auto  got   = std::make_shared<std::vector<double>>();
        auto  pol   = connectPolicy(i / slices % 6);
        int   bound = big ? (s.ranks <= 2 ? 3 : 2) : (s.ranks <= 2 && pol.order == static_cast<int>(i / slices / 6 % 3) ? 2 : 1);
        explore(
            ctx, pol, bound, static_cast<int>(i % slices), slices, [&] {
              got = std::make_shared<std::vector<double>>(s.expected.size(), -1);
              return s.build(got);
            },
            [&](const Run &r) {
              sound(ctx, r, "connect");
              if (r.out.finished && std::filesystem::exists(ctx.dir + "/precice-run"))
                for (auto &e : std::filesystem::recursive_directory_iterator(ctx.dir + "/precice-run"))
                  ctx.require(!e.is_regular_file(), "connect: connection file", [&] { return e.path().filename().string() + " is left"; });
              if (!r.anyError() && r.out.deadlock.empty())
                for (size_t k = 0; k < got->size(); ++k)
                  ctx.require((*got)[k] == s.expected[k], "connect: value", [&] { return "value " + std::to_string(k) + ": " + std::to_string((*got)[k]) + " instead of " + std::to_string(s.expected[k]); });
            });
      });

  // ---- streams
  struct Op {
    bool back;
    char kind; // i d b s I D r R (ranges)
    int  size;
    bool as, ar;
  };
  std::vector<Op> ops;
  for (bool back : {false, true}) {
    for (char k : {'i', 'd', 'b'})
      for (int m = 0; m < 4; ++m)
        ops.push_back({back, k, 1, (m & 1) != 0, (m & 2) != 0});
    for (int n : {1, 3})
      for (bool as : {false, true})
        ops.push_back({back, 'I', n, as, false});
    for (int n : {0, 1, 3})
      for (int m = 0; m < 4; ++m)
        ops.push_back({back, 'D', n, (m & 1) != 0, (m & 2) != 0});
    for (char k : {'s', 'r', 'R'})
      for (int n : {0, 2})
        ops.push_back({back, k, n, false, false});
  }
  auto show = [](const Op &o) {
    return std::string(o.back ? "B->A " : "A->B ") + o.kind + std::to_string(o.size) + (o.as ? " async" : " sync") + (o.ar ? "/async" : "/sync");
  };
  // one end; values are functions of the position
  using Res = std::shared_ptr<std::vector<std::string>>;
  auto text = [](const VD &v) {
    std::string t;
    for (double d : v)
      t += std::to_string(d) + " ";
    return t;
  };
  auto vd = [](int k, int n) {
    VD v;
    for (int j = 0; j < n; ++j)
      v.push_back(1.5 * k + j + 0.25);
    return v;
  };
  auto vi = [](int k, int n) {
    VI v;
    for (int j = 0; j < n; ++j)
      v.push_back(100 * k + j + 1);
    return v;
  };
  auto expectOf = [=](const Op &o, int k) {
    switch (o.kind) {
    case 'i':
      return text({100.0 * k + 1});
    case 'd':
      return text({1.5 * k + 0.25});
    case 'b':
      return text({k % 2 ? 1.0 : 0.0});
    case 's':
      return std::string(o.size, static_cast<char>('a' + k));
    case 'I':
    case 'r': {
      auto w = vi(k, o.size);
      return text(VD(w.begin(), w.end()));
    }
    default:
      return text(vd(k, o.size));
    }
  };
  auto drive = [=](CommApi &m, bool b, const std::vector<Op> &script, Res got, bool reverse, int peer) {
    std::vector<int>                 sends;
    std::vector<std::pair<int, int>> recv; // request, position; one outstanding at most
    auto settle = [&] {
      for (auto &[q, k] : recv)
        (*got)[k] = text(m.wait(q));
      recv.clear();
    };
    auto flush = [&] {
      if (reverse)
        std::reverse(sends.begin(), sends.end());
      for (int q : sends)
        m.wait(q);
      sends.clear();
    };
    for (size_t k = 0; k < script.size(); ++k) {
      auto &o = script[k];
      int   j = static_cast<int>(k);
      if (o.back == b) { // this end sends
        if (!o.as)
          flush();
        switch (o.kind) {
        case 'i':
          o.as ? sends.push_back(m.aSendI(100 * j + 1, peer)) : m.sendI(100 * j + 1, peer);
          break;
        case 'd':
          o.as ? sends.push_back(m.aSendD(1.5 * j + 0.25, peer)) : m.sendD(1.5 * j + 0.25, peer);
          break;
        case 'b':
          o.as ? sends.push_back(m.aSendB(j % 2, peer)) : m.sendB(j % 2, peer);
          break;
        case 's':
          m.sendS(std::string(o.size, static_cast<char>('a' + j)), peer);
          break;
        case 'I':
          o.as ? sends.push_back(m.aSendVI(vi(j, o.size), peer)) : m.sendVI(vi(j, o.size), peer);
          break;
        case 'D':
          o.as ? sends.push_back(m.aSendVD(vd(j, o.size), peer)) : m.sendVD(vd(j, o.size), peer);
          break;
        case 'r':
          m.sendRI(vi(j, o.size), peer);
          break;
        default:
          m.sendRD(vd(j, o.size), peer);
        }
      } else {
        settle();
        auto d = [&](const VI &v) { return text(VD(v.begin(), v.end())); };
        if (o.ar) {
          int q = o.kind == 'i' ? m.aRecvI(peer) : o.kind == 'd' ? m.aRecvD(peer) : o.kind == 'b' ? m.aRecvB(peer) : m.aRecvVD(o.size, peer);
          recv.emplace_back(q, j);
        } else
          switch (o.kind) {
          case 'i':
            (*got)[k] = text({double(m.recvI(peer))});
            break;
          case 'd':
            (*got)[k] = text({m.recvD(peer)});
            break;
          case 'b':
            (*got)[k] = text({double(m.recvB(peer))});
            break;
          case 's':
            (*got)[k] = m.recvS(peer);
            break;
          case 'I':
            (*got)[k] = d(m.recvVI(o.size, peer));
            break;
          case 'D':
            (*got)[k] = text(m.recvVD(o.size, peer));
            break;
          case 'r':
            (*got)[k] = d(m.recvRI(peer));
            break;
          default:
            (*got)[k] = text(m.recvRD(peer));
          }
      }
    }
    if (reverse) {
      flush();
      settle();
    } else {
      settle();
      flush();
    }
  };
  auto pair = [=](const std::vector<Op> &script, Res got, bool reverse) {
    std::vector<std::function<void(CommApi &)>> f;
    f.push_back([=](CommApi &m) {
      m.accept("A", "B", "T", 0, 0);
      drive(m, false, script, got, reverse, 0);
    });
    f.push_back([=](CommApi &m) {
      m.request("A", "B", "T", 0, 1);
      drive(m, true, script, got, reverse, 0);
    });
    return f;
  };
  struct Mode {
    size_t capacity, chunk;
    int    order;
    bool   reverse;
  };
  std::vector<Mode> modes;
  for (int order = 0; order < 3; ++order)
    for (size_t cap : {size_t(1), size_t(7), size_t(65536)})
      for (size_t chunk : {size_t(0), size_t(1)})
        if (chunk == 0 || cap == 65536)
          modes.push_back({cap, chunk, order, (order + cap + chunk) % 2 == 0});
  auto policyOf = [&](const Mode &m) {
    WorldPolicy p;
    p.order    = m.order;
    p.capacity = m.capacity;
    p.chunk    = m.chunk;
    return p;
  };
  auto judge = [&](CaseCtx &ctx, const Run &r, const std::vector<Op> &script, const Res &got) {
    sound(ctx, r, "stream");
    if (!r.anyError() && r.out.deadlock.empty())
      for (size_t k = 0; k < script.size(); ++k)
        ctx.require((*got)[k] == expectOf(script[k], static_cast<int>(k)), "stream: value", [&] { return show(script[k]) + " delivers " + (*got)[k]; });
  };
  const uint64_t N = ops.size();
  c.stage(
      "stream", N * N, [&](uint64_t i) { return show(ops[i % N]) + "; " + show(ops[i / N]); }, [&](CaseCtx &ctx, uint64_t i) {
        std::vector<Op> script{ops[i % N], ops[i / N]};
        for (size_t k = 0; k < modes.size(); ++k) {
          if (!big && k % 3 != i % 3)
            continue;
          auto got = std::make_shared<std::vector<std::string>>(2, "nothing");
          auto r   = run(ctx, pair(script, got, modes[k].reverse), policyOf(modes[k]));
          judge(ctx, *r, script, got);
          ctx.outcome(mix(mix(mix(2, (*got)[0]), (*got)[1]), static_cast<uint64_t>(r->out.switches)));
          if (ctx.taint)
            return;
        }
      });
  // interleavings of the threads
  c.stage(
      "interleavings", N * N, [&](uint64_t i) { return show(ops[i % N]) + "; " + show(ops[i / N]); }, [&](CaseCtx &ctx, uint64_t i) {
        std::vector<Op> script{ops[i % N], ops[i / N]};
        auto           &m = modes[(i + i / N) % modes.size()];
        if (!big && ((i % N) / 2 + i / N / 2) % 4)
          return ctx.count("left to the thorough tier");
        auto got = std::make_shared<std::vector<std::string>>();
        explore(
            ctx, policyOf(m), 1, 0, 1, [&] {
              got = std::make_shared<std::vector<std::string>>(2, "nothing");
              return pair(script, got, m.reverse);
            },
            [&](const Run &r) { judge(ctx, r, script, got); });
      });
  // ---- collectives
  struct Coll {
    int  kind; // 0 reduce, 1 all-reduce of vectors, 2 reduce, 3 all-reduce of an integer, 4 broadcast of doubles, 5 of integers
    int  n;
  };
  std::vector<Coll> colls;
  for (int k = 0; k < 6; ++k)
    for (int n : {0, 1, 3})
      if (n == 1 || (k != 2 && k != 3))
        colls.push_back({k, n});
  const uint64_t K = colls.size();
  c.stage(
      "collectives", 3 * K * K, [&](uint64_t i) { return std::to_string(2 + i % 3) + " ranks, " + std::to_string(colls[i / 3 % K].kind) + "/" + std::to_string(colls[i / 3 % K].n) + ", " + std::to_string(colls[i / 3 / K].kind) + "/" + std::to_string(colls[i / 3 / K].n); }, [&](CaseCtx &ctx, uint64_t i) {
        int                       n = 2 + static_cast<int>(i % 3);
        std::array<const Coll *, 2> seq{&colls[i / 3 % K], &colls[i / 3 / K]};
        for (size_t k = 0; k < modes.size(); ++k) {
          if (!big && k % 3 != i / 3 % 3)
            continue;
          auto got = std::make_shared<std::vector<VD>>(2 * n);
          std::vector<std::function<void(CommApi &)>> f;
          for (int r = 0; r < n; ++r)
            f.push_back([=](CommApi &m) {
              m.intra("A", "", r, n);
              for (int j = 0; j < 2; ++j) {
                VD mine;
                VI ints;
                for (int e = 0; e < seq[j]->n; ++e)
                  mine.push_back(0.5 + r + 10 * j + 100 * e), ints.push_back(r + 10 * j + 100 * e);
                auto &g = (*got)[2 * r + j];
                switch (seq[j]->kind) {
                case 0:
                case 1:
                  g = m.reduceSum(mine, r == 0, seq[j]->kind == 1);
                  break;
                case 2:
                case 3:
                  g = {double(m.reduceSumI(r + 1 + j, r == 0, seq[j]->kind == 3))};
                  break;
                case 4:
                  g = m.broadcastD(r == 0 ? mine : VD{}, r == 0);
                  break;
                default: {
                  auto b = m.broadcastI(r == 0 ? ints : VI{}, r == 0);
                  g.assign(b.begin(), b.end());
                }
                }
              }
            });
          auto r = run(ctx, f, policyOf(modes[k]));
          sound(ctx, *r, "collectives");
          for (int q = 0; q < n && !r->anyError() && r->out.finished; ++q)
            for (int j = 0; j < 2; ++j) {
              VD  want;
              int kind = seq[j]->kind;
              if ((kind == 0 || kind == 2) && q > 0)
                continue; // only the primary rank gets the result
              double ranks = n, sum = n * (n - 1) / 2;
              if (kind <= 1)
                for (int e = 0; e < seq[j]->n; ++e)
                  want.push_back(ranks * (0.5 + 10 * j + 100 * e) + sum);
              else if (kind <= 3)
                want = {sum + ranks * (1 + j)};
              else
                for (int e = 0; e < seq[j]->n; ++e)
                  want.push_back((kind == 4 ? 0.5 : 0.0) + 10 * j + 100 * e);
              ctx.require((*got)[2 * q + j] == want, "collectives: value", [&] { return "rank " + std::to_string(q) + ", operation " + std::to_string(j) + ": " + text((*got)[2 * q + j]) + " instead of " + text(want); });
            }
          ctx.outcome(mix(mix(3, i), static_cast<uint64_t>(r->out.switches)));
          if (ctx.taint)
            return;
        }
      });

  // ---- leftovers of earlier runs must be reported, naming the file
  c.stage(
      "leftover", 2 * 2 * 2 * 6, [&](uint64_t i) { return std::string(i % 2 ? "temporary " : "") + "connection file of " + (i / 2 % 2 ? "the ranks of a participant" : i / 4 % 2 ? "a server" : "an acceptor") + ", policy " + std::to_string(i / 8); }, [&](CaseCtx &ctx, uint64_t i) {
        const bool temporary = i % 2, intra = i / 2 % 2, server = i / 4 % 2;
        auto       file      = std::make_shared<std::string>();
        auto       p         = connectPolicy(i / 8);
        std::filesystem::remove_all(ctx.dir + "/precice-run");
        // a rank dies as soon as its file appears
        bool left = false;
        for (p.killAt = 1; !left && p.killAt < 200; ++p.killAt) {
          p.killRank = 0;
          std::filesystem::remove_all(ctx.dir + "/precice-run");
          auto r = run(ctx, {[=](CommApi &m) {
            m.prepare(intra ? "APrimary" : "A", intra ? "ASecondary" : "B");
            if (intra)
              m.intra("A", "T", 0, 2);
            else if (server)
              m.acceptServer("A", "B", "T", 0, 1);
            else
              m.accept("A", "B", "T", 0, 0);
          }}, p, false);
          if (std::filesystem::exists(ctx.dir + "/precice-run"))
            for (auto &e : std::filesystem::recursive_directory_iterator(ctx.dir + "/precice-run"))
              if (e.is_regular_file() && (e.path().string().back() == '~') == temporary)
                left = true, *file = e.path().string();
        }
        ctx.require(left, "leftover: no such file", [] { return "no crash leaves such a file"; });
        if (!left)
          return;
        p.killRank = -1;
        p.killAt   = -1;
        auto r     = run(ctx, {[=](CommApi &m) {
          if (intra)
            m.intra("A", "T", 0, 2);
          else if (server)
            m.acceptServer("A", "B", "T", 0, 1);
          else
            m.accept("A", "B", "T", 0, 0);
        }}, p, false);
        for (auto &f : r->out.faults)
          ctx.fail("leftover: fault", f);
        // the ranks of a participant remove them
        bool named = r->errors().find(*file) != std::string::npos;
        ctx.require(named, "leftover: not reported", [&] { return "with " + *file + ": " + (r->anyError() ? r->errors() : r->out.deadlock); });
        ctx.outcome(mix(mix(5, i), static_cast<uint64_t>(named)));
      });

  // ---- a rank dies
  auto dying = [&](CaseCtx &ctx, WorldPolicy p, int victim, const std::function<std::vector<std::function<void(CommApi &)>>()> &build, const std::function<std::string(int)> &check) {
    for (p.killAt = 1;; ++p.killAt) {
      p.killRank = victim;
      auto r     = run(ctx, build(), p);
      if (!r->out.killed && r->out.finished)
        return;
      ctx.count("crash points");
      for (auto &f : r->out.faults)
        ctx.fail("crash: fault", f + " (operation " + std::to_string(p.killAt) + ")");
      if (!r->out.deadlock.empty()) {
        // survivors may wait for a partner that never connects, and others for those
        bool may = r->out.deadlock.find("waits in accept") != std::string::npos || r->out.deadlock.find("waits in sleep") != std::string::npos;
        ctx.require(may, "crash: hangs", [&] { return r->out.deadlock + "(operation " + std::to_string(p.killAt) + ")"; });
        ctx.count(may ? "waits for a partner" : "hangs");
      }
      for (size_t k = 0; k < r->ranks.size(); ++k)
        if (static_cast<int>(k) != victim && r->ranks[k].ended) {
          auto bad = check(static_cast<int>(k));
          ctx.require(bad.empty(), "crash: value", [&] { return "rank " + std::to_string(k) + " ends without an error, but " + bad + " (operation " + std::to_string(p.killAt) + ")"; });
        }
      ctx.outcome(mix(mix(mix(4, r->errors()), r->out.deadlock), static_cast<uint64_t>(p.killAt)));
      if (!ctx.violations.empty() || ctx.taint)
        return;
    }
  };
  std::vector<std::pair<size_t, int>> victims;
  for (size_t k = 0; k < scenarios.size(); ++k)
    for (int r = 0; r < scenarios[k].ranks; ++r)
      if (scenarios[k].ranks > 1)
        victims.emplace_back(k, r);
  c.stage(
      "crash while connecting", victims.size() * 12, [&](uint64_t i) { return scenarios[victims[i / 12].first].name + ", rank " + std::to_string(victims[i / 12].second) + " dies, policy " + std::to_string(i % 12); },
      [&](CaseCtx &ctx, uint64_t i) {
        auto &s   = scenarios[victims[i / 12].first];
        auto  p   = connectPolicy(i % 6);
        p.swallow = i % 12 < 6;
        auto got  = std::make_shared<std::vector<double>>();
        dying(
            ctx, p, victims[i / 12].second, [&] {
              got = std::make_shared<std::vector<double>>(s.expected.size(), -1);
              return s.build(got);
            },
            [&](int rank) {
              for (size_t k = 0; k < s.expected.size(); ++k)
                if (s.owner[k] == rank && (*got)[k] != s.expected[k])
                  return "value " + std::to_string(k) + " is " + std::to_string((*got)[k]) + " instead of " + std::to_string(s.expected[k]);
              return std::string();
            });
      });
  c.stage(
      "crash of a partner", N * modes.size() * 4, [&](uint64_t i) { return show(ops[i / 4 % N]) + ", mode " + std::to_string(i / 4 / N) + (i % 2 ? ", B dies" : ", A dies") + (i / 2 % 2 ? ", data to the dead is lost" : ""); },
      [&](CaseCtx &ctx, uint64_t i) {
        auto &m   = modes[i / 4 / N];
        // the operation in question comes second
        std::vector<Op> script{ops[(i / 4 % N) * 7 % N], ops[i / 4 % N]};
        auto  p   = policyOf(m);
        p.swallow = i / 2 % 2;
        auto got  = std::make_shared<std::vector<std::string>>();
        dying(
            ctx, p, static_cast<int>(i % 2), [&] {
              got = std::make_shared<std::vector<std::string>>(2, "nothing");
              return pair(script, got, m.reverse);
            },
            [&](int rank) {
              for (size_t k = 0; k < script.size(); ++k)
                if ((script[k].back ? 0 : 1) == rank && (*got)[k] != expectOf(script[k], static_cast<int>(k)))
                  return show(script[k]) + " delivers " + (*got)[k];
              return std::string();
            });
      });
  return c.finish();
}
