// Controlled scheduler: every rank of every participant is a fiber of one OS thread; the only
// communication between ranks goes through the in-memory transport, every operation of which is a
// scheduling point owned by the explorer.
#pragma once
#include "api.hpp"
#include "hostapi.hpp"
#include <cxxabi.h>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <functional>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#include <vector>

namespace verif {

struct Choice {
  std::string what;
  int         n, taken;
};

/// How one execution is scheduled
struct Policy {
  bool rendezvous = false;
  /// 0 round robin, 1 always lowest index runnable, 2 always highest index runnable
  int order = 0;
  /// test() on requests: 0 = answers truthfully, 1 = explored choices
  bool exploreTests = false;
  /// every transport operation is a choice point: continue, or switch to another runnable rank; when a
  /// rank blocks or ends, which runnable rank goes next is a choice as well
  bool exploreSchedules = false;
  /// prefix of choices to replay; afterwards 0 is taken
  std::vector<int> prefix;
  /// fault: fiber index which dies at its k-th transport operation (-1: none)
  int  killFiber = -1;
  long killAt    = -1;
};

struct Outcome {
  bool                     finished = false;
  std::string              deadlock; // non-empty: nobody could run
  std::vector<std::string> protocolErrors;
  std::vector<Choice>      choices;
  std::vector<long>        ops; // transport operations per fiber
  long                     messages = 0, bytes = 0, switches = 0;
  bool                     killed = false;
};

class Sched : public Host {
  struct Fiber {
    ucontext_t                   ctx{};
    std::function<void()>        main;
    std::function<bool()>        pred;
    const char                  *what = "";
    bool                         done = false, dead = false;
    std::string                  eh; // saved __cxa_eh_globals
    long                         ops = 0, pollEpoch = -1;
    int                          spin = 0;
    void                        *stack = nullptr;
    std::vector<std::pair<std::shared_ptr<Link>, bool>> ends;
  };
  static constexpr size_t STACK = 4u << 20;

public:
  Outcome run(std::vector<std::function<void()>> mains, const Policy &p)
  {
    pol        = p;
    rendezvous = p.rendezvous;
    listeners.clear();
    out      = Outcome{};
    messages = bytes = 0;
    fibers.clear();
    fibers.resize(mains.size());
    for (size_t i = 0; i < mains.size(); ++i) {
      auto &f = fibers[i];
      f.main  = std::move(mains[i]);
      f.stack = getStack();
      getcontext(&f.ctx);
      f.ctx.uc_stack.ss_sp   = f.stack;
      f.ctx.uc_stack.ss_size = STACK;
      f.ctx.uc_link          = nullptr;
      self()                 = this;
      makecontext(&f.ctx, reinterpret_cast<void (*)()>(&Sched::entry), 1, static_cast<int>(i));
      f.eh.assign(16, '\0');
    }
    last = -1;
    while (true) {
      std::vector<int> r = runnable();
      bool             allDone = true;
      for (auto &f : fibers)
        allDone = allDone && (f.done || f.dead);
      if (allDone) {
        out.finished = true;
        break;
      }
      if (r.empty()) {
        for (size_t i = 0; i < fibers.size(); ++i)
          if (!fibers[i].done && !fibers[i].dead)
            out.deadlock += "rank-fiber " + std::to_string(i) + " waits in " + fibers[i].what + "; ";
        break;
      }
      resume(pick(r));
    }
    for (auto &f : fibers) {
      out.ops.push_back(f.ops);
      if (f.done)
        freeStacks.push_back(f.stack); // stacks of unfinished fibers are leaked
    }
    out.messages = messages;
    out.bytes    = bytes;
    return out;
  }

  void waitUntil(const char *what, const std::function<bool()> &pred) override
  {
    if (pred())
      return;
    auto &f = fibers[cur];
    f.pred  = pred;
    f.what  = what;
    yield();
    f.pred = nullptr;
  }
  int choose(const char *what, int n) override
  {
    if (!pol.exploreTests && !strcmp(what, "test"))
      return 0;
    int c = 0;
    if (out.choices.size() < pol.prefix.size())
      c = pol.prefix[out.choices.size()];
    if (c >= n) {
      out.protocolErrors.push_back("replay divergence: choice " + std::to_string(out.choices.size()));
      c = 0;
    }
    out.choices.push_back({what, n, c});
    return c;
  }
  void commPoint(const char *what) override
  {
    auto &f = fibers[cur];
    ++f.ops;
    if (cur == pol.killFiber && f.ops == pol.killAt) {
      out.killed = true;
      processExit(); // never comes back
    }
    if (strstr(what, ".test")) {
      // polling loop: after many fruitless polls of an unchanged transport block until it changes
      if (f.pollEpoch != epoch) {
        f.pollEpoch = epoch;
        f.spin      = 0;
      }
      if (++f.spin > 20) {
        long seen = epoch;
        waitUntil(what, [this, seen] { return epoch != seen; });
        f.spin = 0;
      }
    } else
      f.spin = 0;
    if (pol.exploreSchedules) {
      auto r = runnable();
      // canonical order: current first, then ascending
      std::vector<int> alt{cur};
      for (int i : r)
        if (i != cur)
          alt.push_back(i);
      if (alt.size() > 1) {
        int c = choose("sched", static_cast<int>(alt.size()));
        if (c > 0) {
          forced  = alt[c];
          f.pred  = nullptr;
          f.what  = "preempted";
          yield();
        }
      }
    }
  }
  void protocolError(const std::string &s) override { out.protocolErrors.push_back("fiber " + std::to_string(cur) + ": " + s); }

  void connected(std::shared_ptr<Link> l, bool acceptor) override { fibers[cur].ends.emplace_back(std::move(l), acceptor); }

  int current() const { return cur; }
  /// the calling rank's process ends here without any clean-up; the operating system closes its connections
  void processExit()
  {
    auto &f = fibers[cur];
    f.dead  = true;
    for (auto &[l, acc] : f.ends) {
      auto &o = acc ? l->toRequester : l->toAcceptor;
      auto &i = acc ? l->toAcceptor : l->toRequester;
      o.writerClosed = true;
      i.readerClosed = true;
      if (rendezvous)
        o.q.clear();
    }
    ++epoch;
    yield();
  }

private:
  std::vector<int> runnable()
  {
    std::vector<int> r;
    for (size_t i = 0; i < fibers.size(); ++i) {
      auto &f = fibers[i];
      if (f.done || f.dead)
        continue;
      if (!f.pred || f.pred())
        r.push_back(static_cast<int>(i));
    }
    return r;
  }
  int pick(const std::vector<int> &r)
  {
    if (forced >= 0) {
      int f  = forced;
      forced = -1;
      return f;
    }
    size_t k = 0; // position of the default in r
    switch (pol.order) {
    case 1:
      break;
    case 2:
      k = r.size() - 1;
      break;
    default:
      for (size_t i = 0; i < r.size(); ++i)
        if (r[i] > last) {
          k = i;
          break;
        }
    }
    if (pol.exploreSchedules && r.size() > 1)
      k = (k + choose("next", static_cast<int>(r.size()))) % r.size();
    return r[k];
  }
  void resume(int i)
  {
    cur = last = i;
    out.switches++;
    auto *g = reinterpret_cast<char *>(abi::__cxa_get_globals());
    std::string mine(g, 16);
    std::memcpy(g, fibers[i].eh.data(), 16);
    swapcontext(&mainCtx, &fibers[i].ctx);
    fibers[i].eh.assign(g, 16);
    std::memcpy(g, mine.data(), 16);
  }
  void yield() { swapcontext(&fibers[cur].ctx, &mainCtx); }
  static Sched *&self()
  {
    static Sched *s = nullptr;
    return s;
  }
  static void entry(int i)
  {
    Sched *s = self();
    s->fibers[i].main();
    s->fibers[i].done = true;
    s->epoch++;
    s->yield();
  }
  void *getStack()
  {
    if (!freeStacks.empty()) {
      void *s = freeStacks.back();
      freeStacks.pop_back();
      return s;
    }
    char *m = static_cast<char *>(mmap(nullptr, STACK + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (m == MAP_FAILED)
      throw std::runtime_error("stack");
    mprotect(m, 4096, PROT_NONE);
    return m + 4096;
  }
  Policy              pol;
  Outcome             out;
  std::vector<Fiber>  fibers;
  std::vector<void *> freeStacks;
  ucontext_t          mainCtx{};
  int                 cur = -1, last = -1, forced = -1;
};

/// Explores all executions with at most `bound` deviations from the default schedule and answers.
/// exec(prefix) runs one execution and returns its outcome (choices taken) after checking it.
/// Returns the number of executions; stops early when keepGoing() is false.
template <typename Exec, typename Go>
long exploreDeviations(int bound, Exec &&exec, Go &&keepGoing, std::vector<int> prefix = {})
{
  if (!keepGoing())
    return 0;
  Outcome o    = exec(prefix);
  long    n    = 1;
  int     cost = 0;
  for (int c : prefix)
    cost += c != 0;
  if (cost >= bound)
    return n;
  for (size_t i = prefix.size(); i < o.choices.size(); ++i)
    for (int alt = 1; alt < o.choices[i].n; ++alt) {
      std::vector<int> p = prefix;
      p.resize(i, 0);
      p.push_back(alt);
      n += exploreDeviations(bound, exec, keepGoing, p);
    }
  return n;
}

/// The dlopen'ed copies of the rank library.
class RankLibs {
public:
  static RankLibs &get()
  {
    static RankLibs l;
    return l;
  }
  void load(const std::string &lib, const std::string &dir, int n, Host *h)
  {
    while (static_cast<int>(apis.size()) < n) {
      std::string copy = dir + "/rank" + std::to_string(apis.size()) + ".so";
      if (link_or_copy(lib, copy) != 0)
        throw std::runtime_error("cannot copy " + lib);
      void *d = dlopen(copy.c_str(), RTLD_NOW | RTLD_LOCAL);
      if (!d)
        throw std::runtime_error(dlerror());
      reinterpret_cast<void (*)(Host *)>(dlsym(d, "verif_set_host"))(h);
      auto mk = reinterpret_cast<Api *(*)()>(dlsym(d, "verif_new_api"));
      apis.push_back(mk());
      unlink(copy.c_str());
    }
  }
  Api &api(int i) { return *apis.at(i); }
  int  count() const { return static_cast<int>(apis.size()); }

private:
  static int link_or_copy(const std::string &a, const std::string &b)
  {
    FILE *in = fopen(a.c_str(), "rb"), *o = fopen(b.c_str(), "wb");
    if (!in || !o)
      return 1;
    std::string buf(1 << 20, '\0');
    size_t      n;
    while ((n = fread(buf.data(), 1, buf.size(), in)) > 0)
      fwrite(buf.data(), 1, n, o);
    fclose(in);
    fclose(o);
    return 0;
  }
  std::vector<Api *> apis;
};

} // namespace verif
