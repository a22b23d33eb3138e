// The world of the socket checks: every rank runs the real socket transport (io thread, asio reactor,
// files with addresses); one thread runs at a time, and every system call and thread primitive is a
// scheduling point owned by the explorer.
#pragma once
#include "oshost.hpp"
#include "sched.hpp"
#include <arpa/inet.h>
#include <atomic>
#include <cerrno>
#include <deque>
#include <filesystem>
#include <fcntl.h>
#include <iostream>
#include <map>
#include <mutex>
#include <net/if.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/ioctl.h>
#include <thread>

namespace verif {

struct WorldPolicy {
  int              order    = 0;     ///< who goes on if a thread blocks: 0 round robin, 1 the lowest, 2 the highest
  size_t           capacity = 65536; ///< bytes in flight per direction of a connection
  size_t           chunk    = 0;     ///< bytes a system call transfers at most (0: all)
  bool             swallow  = true;  ///< the first send to a peer that is gone succeeds
  bool             explore  = false; ///< choices of schedules follow the prefix and are recorded
  bool             lockPoints = true; ///< locks are choice points as well
  std::vector<int> prefix;
  int              killRank = -1;
  long             killAt   = -1;   ///< number of the visible operation at which the rank dies
  long             maxOps   = 200000;
};

struct WorldOutcome {
  bool                     finished = false;
  std::string              deadlock; ///< not empty: nobody could go on, or too many operations
  std::vector<std::string> faults;   ///< misuse that is an error in any case
  std::vector<Choice>      choices;
  std::vector<long>        ops;      ///< per rank
  std::vector<long>        visible;  ///< per rank, those that others may observe or by which they may be observed
  long                     switches = 0, connects = 0, refused = 0, bytes = 0;
  bool                     killed   = false;
};

class World : public OsHost {
public:
  using Policy  = WorldPolicy;
  using Outcome = WorldOutcome;

  Outcome run(std::vector<std::function<void()>> mains, const Policy &p)
  {
    pol   = p;
    out   = Outcome{};
    nRank = static_cast<int>(mains.size());
    threads.clear();
    threads.reserve(1024); // threads that start look at it
    fds.clear();
    mutexes.clear();
    nextFd   = firstFd;
    nextPort = 40000;
    epoch.assign(nRank, 0);
    out.ops.assign(nRank, 0);
    out.visible.assign(nRank, 0);
    over   = false;
    yields = 0;
    spins  = 0;
    last = -1;
    std::vector<std::thread> os;
    for (int i = 0; i < nRank; ++i) {
      threads.push_back(std::make_unique<Thread>());
      threads.back()->rank = i;
      threads.back()->seen = 0;
    }
    sem_init(&control, 0, 0);
    sem_init(&started, 0, 0);
    for (int i = 0; i < nRank; ++i)
      os.emplace_back([this, i, main = std::move(mains[i])] {
        me() = i;
        self() = this;
        auto &s = threads[i]->sem;
        sem_post(&started);
        down(s);
        main();
        finish(i);
      });
    for (int i = 0; i < nRank; ++i)
      down(started);
    cur = -1;
    pass();
    down(control);
    for (int i = 0; i < nRank; ++i)
      if (threads[i]->done)
        os[i].join();
      else
        os[i].detach(); // lost with the process
    if (!out.finished || out.killed)
      new std::vector<std::unique_ptr<Thread>>(std::move(threads)); // semaphores others wait at
    return out;
  }
  /// the process of the calling rank ends here
  [[noreturn]] void processExit()
  {
    int r = threads[cur]->rank;
    for (auto &t : threads)
      if (t->rank == r && !t->done)
        t->dead = true;
    std::vector<int> mine;
    for (auto &[n, f] : fds)
      if (f->rank == r)
        mine.push_back(n);
    for (int n : mine)
      release(n);
    change();
    pass();
    park();
  }
  int  rank() const { return threads[cur]->rank; }
  long ops(int r) const { return out.ops[r]; }
  void fault(const std::string &s) { out.faults.push_back("rank " + std::to_string(rank()) + ": " + s); }

  // ---------------------------------------------------------------- host
  bool inside() override { return me() >= 0 && self() == this; }

  int socket(int domain, int type, int) override
  {
    if (domain != AF_INET || (type & 0xf) != SOCK_STREAM)
      return fail(EAFNOSUPPORT);
    auto f  = std::make_shared<Fd>();
    f->kind = Fd::Tcp;
    return add(f);
  }
  int bind(int fd, const sockaddr *a, socklen_t) override
  {
    auto f = get(fd);
    int  p = ntohs(reinterpret_cast<const sockaddr_in *>(a)->sin_port);
    if (p == 0)
      p = nextPort++;
    for (auto &[n, o] : fds)
      if (o != f && o->kind == Fd::Tcp && o->port == p && o->listening)
        return fail(EADDRINUSE);
    f->port = p;
    return 0;
  }
  int listen(int fd, int) override
  {
    point("listen");
    auto f       = get(fd);
    f->listening = true;
    if (f->port == 0)
      f->port = nextPort++;
    change();
    return 0;
  }
  int accept(int fd, sockaddr *a, socklen_t *n) override
  {
    point("accept");
    auto f = get(fd);
    if (!f->listening)
      return fail(EINVAL);
    if (f->backlog.empty()) {
      if (f->nonblock)
        return fail(EAGAIN);
      until("accept", [f] { return !f->backlog.empty(); });
    }
    auto s  = std::make_shared<Fd>();
    s->kind = Fd::Tcp;
    s->conn = f->backlog.front();
    s->side = 1;
    s->port = f->port;
    f->backlog.pop_front();
    if (a)
      name(s->conn->port, a, n);
    change();
    return add(s);
  }
  int connect(int fd, const sockaddr *a, socklen_t) override
  {
    point("connect");
    auto  f = get(fd);
    auto *i = reinterpret_cast<const sockaddr_in *>(a);
    if (f->conn)
      return fail(EISCONN);
    for (auto &[n, l] : fds)
      if (l->kind == Fd::Tcp && l->listening && l->port == ntohs(i->sin_port)) {
        f->conn       = std::make_shared<Conn>();
        f->conn->port = nextPort++;
        f->conn->to   = l->port;
        f->side       = 0;
        l->backlog.push_back(f->conn);
        bump(*l);
        bump(*f);
        ++out.connects;
        change();
        return 0;
      }
    ++out.refused;
    return fail(ECONNREFUSED);
  }
  int getname(int fd, bool peer, sockaddr *a, socklen_t *n) override
  {
    auto f = get(fd);
    if (peer && !f->conn)
      return fail(ENOTCONN);
    if (!f->conn)
      name(f->port, a, n);
    else
      name((f->side == 0) == peer ? f->conn->to : f->conn->port, a, n);
    return 0;
  }
  int getsockopt(int, int, int, void *v, socklen_t *n) override
  {
    std::memset(v, 0, *n);
    return 0;
  }
  int     setsockopt(int, int, int, const void *, socklen_t) override { return 0; }
  ssize_t send(int fd, const iovec *v, size_t n, int flags) override
  {
    point("send");
    auto f = get(fd);
    if (!f->conn)
      return fail(ENOTCONN);
    auto  c = f->conn;
    auto &s = c->dir[f->side];
    if (s.finished)
      return broken(flags);
    auto room = [&] { return s.readerGone || c->reset || s.data.size() < pol.capacity; };
    if (!room()) {
      if (f->nonblock || (flags & MSG_DONTWAIT)) {
        s.wantRoom = true;
        return fail(EAGAIN);
      }
      until("send", room);
    }
    size_t total = 0;
    for (size_t k = 0; k < n; ++k)
      total += v[k].iov_len;
    if (s.readerGone || c->reset) {
      if (pol.swallow && !s.swallowed) {
        s.swallowed = true;
        c->reset    = true;
        touch(*c);
        return static_cast<ssize_t>(total);
      }
      return broken(flags);
    }
    size_t todo = std::min(total, pol.capacity - s.data.size());
    if (pol.chunk)
      todo = std::min(todo, pol.chunk);
    size_t left = todo;
    for (size_t k = 0; k < n && left; ++k) {
      size_t m = std::min(left, v[k].iov_len);
      s.data.append(static_cast<const char *>(v[k].iov_base), m);
      left -= m;
    }
    out.bytes += static_cast<long>(todo);
    if (todo < total)
      s.wantRoom = true;
    touch(*c, 1 - f->side);
    change();
    return static_cast<ssize_t>(todo);
  }
  ssize_t recv(int fd, const iovec *v, size_t n, int flags) override
  {
    point("recv");
    auto f = get(fd);
    if (!f->conn)
      return fail(ENOTCONN);
    auto  c     = f->conn;
    auto &s     = c->dir[1 - f->side];
    auto  ready = [&] { return !s.data.empty() || s.finished || c->reset; };
    if (!ready()) {
      if (f->nonblock || (flags & MSG_DONTWAIT))
        return fail(EAGAIN);
      until("recv", ready);
    }
    if (s.data.empty())
      return c->reset ? fail(ECONNRESET) : 0;
    size_t total = 0;
    for (size_t k = 0; k < n; ++k) {
      size_t m = std::min(v[k].iov_len, s.data.size() - total);
      if (pol.chunk)
        m = std::min(m, pol.chunk - total);
      std::memcpy(v[k].iov_base, s.data.data() + total, m);
      total += m;
    }
    if (!(flags & MSG_PEEK)) {
      s.data.erase(0, total);
      if (s.wantRoom) {
        s.wantRoom = false;
        touch(*c, 1 - f->side);
      }
      change();
    }
    return static_cast<ssize_t>(total);
  }
  int poll(pollfd *p, nfds_t n, int timeout) override
  {
    point("poll");
    auto look = [&] {
      int r = 0;
      for (nfds_t i = 0; i < n; ++i) {
        p[i].revents = static_cast<short>(events(*get(p[i].fd)) & (p[i].events | POLLERR | POLLHUP));
        r += p[i].revents != 0;
      }
      return r;
    };
    int r = look();
    if (r || timeout == 0)
      return r;
    until("poll", [&] { return look() > 0; });
    return look();
  }
  int epollCreate() override
  {
    auto f  = std::make_shared<Fd>();
    f->kind = Fd::Epoll;
    return add(f);
  }
  int epollCtl(int ep, int op, int fd, epoll_event *e) override
  {
    point("epoll_ctl", true);
    auto p = get(ep), f = get(fd);
    if (op == EPOLL_CTL_DEL)
      return p->regs.erase(fd) ? 0 : fail(ENOENT);
    if (op == EPOLL_CTL_ADD && p->regs.count(fd))
      return fail(EEXIST);
    if (op == EPOLL_CTL_MOD && !p->regs.count(fd))
      return fail(ENOENT);
    p->regs[fd] = {e->events, e->data, -1};
    return 0;
  }
  int epollWait(int ep, epoll_event *e, int max, int timeout) override
  {
    point("epoll_wait", true);
    auto p    = get(ep);
    auto look = [&](bool take) {
      int r = 0;
      for (auto &[n, g] : p->regs) {
        auto it = fds.find(n);
        if (it == fds.end() || r == max)
          continue;
        uint32_t ev = events(*it->second) & (g.events | EPOLLERR | EPOLLHUP);
        if (!ev || ((g.events & EPOLLET) && g.seen == it->second->gen))
          continue;
        if (take) {
          g.seen      = it->second->gen;
          e[r].events = ev;
          e[r].data   = g.data;
        }
        ++r;
      }
      return r;
    };
    if (!look(false)) {
      if (timeout == 0)
        return 0;
      until("epoll_wait", [&] { return look(false) > 0; });
    }
    return look(true);
  }
  int eventfd(unsigned v, int) override
  {
    auto f   = std::make_shared<Fd>();
    f->kind  = Fd::Event;
    f->count = v;
    return add(f);
  }
  int timerfd() override
  {
    auto f  = std::make_shared<Fd>();
    f->kind = Fd::Timer;
    return add(f);
  }
  ssize_t read(int fd, void *p, size_t n) override
  {
    auto f = get(fd);
    if (f->kind == Fd::Tcp) {
      iovec v{p, n};
      return recv(fd, &v, 1, 0);
    }
    if (f->count == 0)
      return fail(EAGAIN);
    std::memcpy(p, &f->count, sizeof f->count);
    f->count = 0;
    return sizeof f->count;
  }
  ssize_t write(int fd, const void *p, size_t n) override
  {
    auto f = get(fd);
    if (f->kind == Fd::Tcp) {
      iovec v{const_cast<void *>(p), n};
      return send(fd, &v, 1, 0);
    }
    uint64_t k;
    std::memcpy(&k, p, sizeof k);
    f->count += k;
    bump(*f);
    return sizeof k;
  }
  int close(int fd) override
  {
    auto f = get(fd);
    if (f->kind == Fd::Tcp && (f->conn || f->listening))
      point("close");
    bool seen = f->kind == Fd::Tcp && (f->conn || f->listening);
    release(fd);
    if (seen)
      change();
    return 0;
  }
  int ioctl(int fd, unsigned long req, void *arg) override
  {
    auto f = get(fd);
    if (req == FIONBIO) {
      f->nonblock = *static_cast<int *>(arg) != 0;
      return 0;
    }
    if (req == SIOCGIFADDR) {
      auto *r = static_cast<ifreq *>(arg);
      if (strcmp(r->ifr_name, "lo"))
        return fail(ENODEV);
      socklen_t n = sizeof(sockaddr_in);
      name(0, &r->ifr_addr, &n);
      return 0;
    }
    if (req == FIONREAD) {
      *static_cast<int *>(arg) = f->conn ? static_cast<int>(f->conn->dir[1 - f->side].data.size()) : 0;
      return 0;
    }
    return fail(ENOTTY);
  }
  int fcntl(int fd, int cmd, long arg) override
  {
    auto f = get(fd);
    if (cmd == F_GETFL)
      return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL)
      f->nonblock = arg & O_NONBLOCK;
    return 0;
  }
  int shutdown(int fd, int how) override
  {
    point("shutdown");
    auto f = get(fd);
    if (!f->conn)
      return fail(ENOTCONN);
    if (how != SHUT_RD) {
      f->conn->dir[f->side].finished = true;
      touch(*f->conn);
    }
    change();
    return 0;
  }
  void sleep() override
  {
    point("sleep");
    auto &t     = *threads[cur];
    auto  other = [this, r = t.rank] {
      long s = 0;
      for (int i = 0; i < nRank; ++i)
        s += i == r ? 0 : epoch[i];
      return s;
    };
    until("sleep", [&] { return other() != t.seen; });
    t.seen = other();
  }
  void yield() override
  {
    point("yield");
    auto &t   = *threads[cur];
    t.yielded = ++yields;
    int who   = next(); // those that spin go on if nobody else can, the one that waits longest first
    if (who < 0)
      stop();
    if (who != cur)
      go(who);
    t.yielded = 0;
  }
  void filePoint(const char *what, bool changes) override
  {
    point(what);
    if (changes)
      change();
  }
  // threads
  int threadNew() override
  {
    auto t  = std::make_unique<Thread>();
    t->rank = rank();
    t->seen = 0;
    threads.push_back(std::move(t));
    return static_cast<int>(threads.size()) - 1;
  }
  void threadBegin(int t) override
  {
    me()   = t;
    self() = this;
    auto &s = threads[t]->sem;
    sem_post(&started);
    down(s);
  }
  void threadStarted() override { down(started); }
  void threadEnd(int t) override { finish(t); }
  void threadJoin(int t) override
  {
    until("join", [&] { return threads[t]->done; });
  }
  void lock(void *m) override
  {
    if (pol.lockPoints)
      point("lock", true);
    const std::pair<int, void *> key{rank(), m};
    if (auto it = mutexes.find(key); it != mutexes.end() && it->second == cur + 1)
      return fault("locks a mutex it holds");
    until("lock", [&] { return mutexes.count(key) == 0; });
    mutexes[key] = cur + 1;
  }
  bool tryLock(void *m) override
  {
    return mutexes.emplace(std::pair<int, void *>{rank(), m}, cur + 1).second;
  }
  void unlock(void *m) override
  {
    auto it = mutexes.find({rank(), m});
    if (it == mutexes.end() || it->second != cur + 1)
      return fault("unlocks a mutex it does not hold");
    mutexes.erase(it);
  }
  void wait(void *c, void *m) override
  {
    auto &t    = *threads[cur];
    t.waits    = c;
    t.signaled = false;
    unlock(m);
    until("condition", [&] { return t.signaled; });
    t.waits = nullptr;
    lock(m);
  }
  void signal(void *c, bool all) override
  {
    for (auto &t : threads)
      if (t->rank == rank() && t->waits == c && !t->signaled) {
        t->signaled = true;
        if (!all)
          return;
      }
  }

private:
  struct Thread {
    Thread() { sem_init(&sem, 0, 0); }
    sem_t                 sem;
    int                   rank = 0;
    std::function<bool()> pred;
    const char           *what = "";
    bool                  done = false, dead = false, signaled = false;
    void                 *waits = nullptr;
    long                  yielded = 0;
    long                  seen  = 0;
  };
  struct Stream {
    std::string data;
    bool        finished = false, readerGone = false, wantRoom = false, swallowed = false;
  };
  struct Conn {
    Stream dir[2]; ///< by the side that writes
    int    port = 0, to = 0;
    bool   reset = false;
  };
  struct Reg {
    uint32_t     events;
    epoll_data_t data;
    long         seen;
  };
  struct Fd {
    enum Kind { Tcp,
                Epoll,
                Event,
                Timer } kind = Tcp;
    int                               rank = 0, port = 0, side = 0;
    bool                              nonblock = false, listening = false;
    std::shared_ptr<Conn>             conn;
    std::deque<std::shared_ptr<Conn>> backlog;
    uint64_t                          count = 0;
    long                              gen   = 0;
    std::map<int, Reg>                regs;
  };

  static int &me()
  {
    static thread_local int i = -1;
    return i;
  }
  static World *&self()
  {
    static thread_local World *w = nullptr;
    return w;
  }
  static void down(sem_t &s)
  {
    while (sem_wait(&s) != 0)
      ;
  }
  static int fail(int e)
  {
    errno = e;
    return -1;
  }
  int broken(int flags)
  {
    if (!(flags & MSG_NOSIGNAL))
      fault("SIGPIPE");
    return fail(EPIPE);
  }
  void change() { ++epoch[rank()]; }
  int  add(std::shared_ptr<Fd> f)
  {
    f->rank      = rank();
    fds[nextFd] = std::move(f);
    return nextFd++;
  }
  std::shared_ptr<Fd> get(int fd)
  {
    auto it = fds.find(fd);
    if (it == fds.end()) {
      fault("uses a closed descriptor");
      return std::make_shared<Fd>();
    }
    return it->second;
  }
  static void bump(Fd &f) { ++f.gen; }
  /// wakes those that watch the connection (side -1: both)
  void touch(Conn &c, int side = -1)
  {
    for (auto &[n, f] : fds)
      if (f->conn.get() == &c && (side < 0 || f->side == side))
        bump(*f);
  }
  void drop(Conn &c, int side)
  {
    if (!c.dir[1 - side].data.empty())
      c.reset = true;
    c.dir[side].finished       = true;
    c.dir[1 - side].readerGone = true;
    touch(c);
  }
  void release(int fd)
  {
    auto f = get(fd);
    fds.erase(fd);
    if (f->conn)
      drop(*f->conn, f->side);
    for (auto &c : f->backlog) {
      c->reset = true;
      drop(*c, 1);
    }
  }
  uint32_t events(const Fd &f) const
  {
    uint32_t e = 0;
    switch (f.kind) {
    case Fd::Event:
      return f.count ? EPOLLIN | EPOLLOUT : EPOLLOUT;
    case Fd::Tcp:
      if (f.listening)
        return f.backlog.empty() ? 0 : EPOLLIN;
      if (!f.conn)
        return EPOLLOUT | EPOLLHUP;
      {
        auto &in = f.conn->dir[1 - f.side], &o = f.conn->dir[f.side];
        if (!in.data.empty() || in.finished || f.conn->reset)
          e |= EPOLLIN;
        if (o.data.size() < pol.capacity || o.readerGone || f.conn->reset)
          e |= EPOLLOUT;
        if (in.finished)
          e |= EPOLLRDHUP;
        if ((in.finished && o.finished) || f.conn->reset)
          e |= EPOLLHUP;
        if (f.conn->reset)
          e |= EPOLLERR;
      }
      return e;
    default:
      return 0;
    }
  }
  static void name(int port, sockaddr *a, socklen_t *n)
  {
    sockaddr_in i{};
    i.sin_family      = AF_INET;
    i.sin_port        = htons(static_cast<uint16_t>(port));
    i.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    std::memcpy(a, &i, std::min<size_t>(*n, sizeof i));
    *n = sizeof i;
  }
  bool runs(Thread &t) { return !t.done && !t.dead && (!t.pred || t.pred()); }
  int  choose(const char *what, int n)
  {
    if (!pol.explore || n < 2)
      return 0;
    int c = 0;
    if (out.choices.size() < pol.prefix.size())
      c = pol.prefix[out.choices.size()];
    if (c >= n) {
      out.faults.push_back("replay divergence: choice " + std::to_string(out.choices.size()));
      c = 0;
    }
    out.choices.push_back({what, n, c});
    return c;
  }
  /// something others may observe, or by which they may be observed, comes next
  void point(const char *what, bool local = false)
  {
    auto &t = *threads[cur];
    static const bool trace = getenv("VERIF_TRACE") != nullptr;
    if (trace)
      std::cerr << "    thread " << cur << " of rank " << t.rank << " operation " << out.ops[t.rank] + 1 << ": " << what << "\n";
    ++out.ops[t.rank];
    if (!local && ++out.visible[t.rank] == pol.killAt && t.rank == pol.killRank) {
      out.killed = true;
      processExit();
    }
    if (out.ops[t.rank] > pol.maxOps) {
      out.deadlock = "rank " + std::to_string(t.rank) + " does not come to an end (" + what + "); ";
      describe();
      stop();
    }
    if (!pol.explore)
      return;
    std::vector<int> alt;
    for (size_t i = 0; i < threads.size(); ++i)
      if (static_cast<int>(i) != cur && (!local || threads[i]->rank == t.rank) && runs(*threads[i]))
        alt.push_back(static_cast<int>(i));
    int c = choose(what, static_cast<int>(alt.size()) + 1);
    if (c > 0) {
      t.pred = nullptr;
      t.what = "preempted";
      go(alt[c - 1]);
    }
  }
  void until(const char *what, const std::function<bool()> &pred)
  {
    if (pred())
      return;
    auto &t = *threads[cur];
    t.pred  = pred;
    t.what  = what;
    int who = next();
    if (who < 0)
      stop();
    go(who);
    t.pred = nullptr;
  }
  void describe()
  {
    for (size_t i = 0; i < threads.size(); ++i)
      if (!threads[i]->done && !threads[i]->dead && !runs(*threads[i]))
        out.deadlock += "thread " + std::to_string(i) + " of rank " + std::to_string(threads[i]->rank) + " waits in " + threads[i]->what + "; ";
  }
  int next()
  {
    std::vector<int> r;
    for (size_t i = 0; i < threads.size(); ++i)
      if (runs(*threads[i]))
        r.push_back(static_cast<int>(i));
    bool spinning = !r.empty();
    for (int i : r)
      spinning = spinning && threads[i]->yielded;
    if (spinning && ++spins > 1000) {
      out.deadlock = "thread " + std::to_string(r[0]) + " of rank " + std::to_string(threads[r[0]]->rank) + " spins; ";
      describe();
      return -1;
    }
    if (spinning)
      return *std::min_element(r.begin(), r.end(), [&](int a, int b) { return threads[a]->yielded < threads[b]->yielded; });
    spins = 0;
    r.erase(std::remove_if(r.begin(), r.end(), [&](int i) { return threads[i]->yielded != 0; }), r.end());
    if (r.empty()) {
      bool end = true;
      for (auto &t : threads)
        end = end && (t->done || t->dead);
      if (end)
        out.finished = true;
      else
        describe();
      return -1;
    }
    size_t k = 0;
    if (pol.order == 2)
      k = r.size() - 1;
    if (pol.order == 0)
      for (size_t i = 0; i < r.size(); ++i)
        if (r[i] > last) {
          k = i;
          break;
        }
    k = (k + choose("next", static_cast<int>(r.size()))) % r.size();
    return r[k];
  }
  void go(int who)
  {
    int mine = cur;
    if (who == mine)
      return;
    cur = last = who;
    ++out.switches;
    auto &s = threads[mine]->sem;
    sem_post(&threads[who]->sem);
    down(s);
  }
  /// the calling thread is not going to go on: somebody else, or the end
  void pass()
  {
    int who = next();
    if (who < 0) {
      sem_post(&control);
      return;
    }
    cur = last = who;
    ++out.switches;
    sem_post(&threads[who]->sem);
  }
  [[noreturn]] void park()
  {
    static sem_t never = [] { sem_t s; sem_init(&s, 0, 0); return s; }();
    while (true)
      down(never);
  }
  [[noreturn]] void stop()
  {
    sem_post(&control);
    park();
  }
  void finish(int t)
  {
    threads[t]->done = true;
    ++epoch[threads[t]->rank];
    me() = -1;
    pass();
  }

  Policy                                 pol;
  Outcome                                out;
  int                                    nRank = 0;
  std::vector<std::unique_ptr<Thread>>   threads;
  std::map<int, std::shared_ptr<Fd>>     fds;
  std::map<std::pair<int, void *>, int>  mutexes;
  std::vector<long>                      epoch;
  int                                    nextFd = firstFd, nextPort = 40000, cur = -1, last = -1;
  bool                                   over   = false;
  long                                   yields = 0, spins = 0;
  sem_t                                  control, started;
};

/// The dlopen'ed copies of the socket rank library, one per rank.
class WorldLibs {
public:
  static WorldLibs &get()
  {
    static WorldLibs l;
    return l;
  }
  /// one thread runs at a time: keeps all of a worker at one processor
  static void pin(const std::string &workerDir)
  {
    static bool done = false;
    if (done)
      return;
    done      = true;
    auto name = std::filesystem::path(workerDir).filename().string();
    cpu_set_t all, one;
    if (name.size() < 2 || name[0] != 'w' || !isdigit(name[1]) || sched_getaffinity(0, sizeof all, &all))
      return;
    int k = std::stoi(name.substr(1)) % std::max(1, CPU_COUNT(&all));
    CPU_ZERO(&one);
    for (int i = 0; i < CPU_SETSIZE; ++i)
      if (CPU_ISSET(i, &all) && k-- == 0)
        CPU_SET(i, &one);
    sched_setaffinity(0, sizeof one, &one);
  }
  void load(const std::string &lib, const std::string &dir, int n, OsHost *h)
  {
    while (static_cast<int>(apis.size()) < n) {
      std::string copy = dir + "/rank" + std::to_string(getpid()) + "-" + std::to_string(apis.size()) + ".so";
      std::filesystem::copy_file(lib, copy);
      void *d = dlopen(copy.c_str(), RTLD_NOW | RTLD_LOCAL);
      if (!d)
        throw std::runtime_error(dlerror());
      std::filesystem::remove(copy);
      sets.push_back(reinterpret_cast<void (*)(OsHost *)>(dlsym(d, "verif_set_os")));
      sets.back()(h);
      apis.push_back(reinterpret_cast<Api *(*)()>(dlsym(d, "verif_new_api"))());
      comms.push_back(reinterpret_cast<CommApi *(*)()>(dlsym(d, "verif_new_comm")));
    }
  }
  Api     &api(int i) { return *apis.at(i); }
  CommApi *comm(int i) { return comms.at(i)(); }

private:
  std::vector<Api *>                  apis;
  std::vector<CommApi *(*) ()>        comms;
  std::vector<void (*)(OsHost *)>     sets;
};

/// explores all executions with at most `bound` deviations
template <typename Exec, typename Go>
long exploreWorld(int bound, Exec &&exec, Go &&keepGoing, std::vector<int> prefix = {})
{
  if (!keepGoing())
    return 0;
  auto o    = exec(prefix);
  long n    = 1;
  int  cost = 0;
  for (int c : prefix)
    cost += c != 0;
  if (cost >= bound)
    return n;
  for (size_t i = prefix.size(); i < o.choices.size(); ++i)
    for (int alt = 1; alt < o.choices[i].n; ++alt) {
      std::vector<int> p = prefix;
      p.resize(i, 0);
      p.push_back(alt);
      n += exploreWorld(bound, exec, keepGoing, p);
    }
  return n;
}

} // namespace verif
