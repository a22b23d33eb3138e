// Linked into the socket rank library with --wrap: system calls, thread primitives and the steps of the
// file-based exchange of addresses go to the world of the model checker.
#include "oshost.hpp"
#include <cerrno>
#include <condition_variable>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <filesystem>
#include <fcntl.h>
#include <mutex>
#include <net/if.h>
#include <sys/select.h>
#include <sys/timerfd.h>
#include <thread>
#include <unistd.h>

namespace verif {
static OsHost *os = nullptr;
}
using verif::os;
extern "C" __attribute__((visibility("default"))) void verif_set_os(verif::OsHost *h)
{
  os = h;
}
static bool ours() { return os && os->inside(); }
static bool fake(int fd) { return fd >= verif::OsHost::firstFd; }

#define WRAP(ret, name, args) \
  ret __real_##name args;     \
  ret __wrap_##name args
extern "C" {
WRAP(int, socket, (int d, int t, int p)) { return ours() ? os->socket(d, t, p) : __real_socket(d, t, p); }
WRAP(int, bind, (int f, const sockaddr *a, socklen_t n)) { return fake(f) ? os->bind(f, a, n) : __real_bind(f, a, n); }
WRAP(int, listen, (int f, int b)) { return fake(f) ? os->listen(f, b) : __real_listen(f, b); }
WRAP(int, accept, (int f, sockaddr *a, socklen_t *n)) { return fake(f) ? os->accept(f, a, n) : __real_accept(f, a, n); }
WRAP(int, connect, (int f, const sockaddr *a, socklen_t n)) { return fake(f) ? os->connect(f, a, n) : __real_connect(f, a, n); }
WRAP(int, getsockname, (int f, sockaddr *a, socklen_t *n)) { return fake(f) ? os->getname(f, false, a, n) : __real_getsockname(f, a, n); }
WRAP(int, getpeername, (int f, sockaddr *a, socklen_t *n)) { return fake(f) ? os->getname(f, true, a, n) : __real_getpeername(f, a, n); }
WRAP(int, getsockopt, (int f, int l, int o, void *v, socklen_t *n)) { return fake(f) ? os->getsockopt(f, l, o, v, n) : __real_getsockopt(f, l, o, v, n); }
WRAP(int, setsockopt, (int f, int l, int o, const void *v, socklen_t n)) { return fake(f) ? os->setsockopt(f, l, o, v, n) : __real_setsockopt(f, l, o, v, n); }
WRAP(ssize_t, send, (int f, const void *p, size_t n, int fl))
{
  if (!fake(f))
    return __real_send(f, p, n, fl);
  iovec v{const_cast<void *>(p), n};
  return os->send(f, &v, 1, fl);
}
WRAP(ssize_t, recv, (int f, void *p, size_t n, int fl))
{
  if (!fake(f))
    return __real_recv(f, p, n, fl);
  iovec v{p, n};
  return os->recv(f, &v, 1, fl);
}
WRAP(ssize_t, sendmsg, (int f, const msghdr *m, int fl)) { return fake(f) ? os->send(f, m->msg_iov, m->msg_iovlen, fl) : __real_sendmsg(f, m, fl); }
WRAP(ssize_t, recvmsg, (int f, msghdr *m, int fl)) { return fake(f) ? os->recv(f, m->msg_iov, m->msg_iovlen, fl) : __real_recvmsg(f, m, fl); }
WRAP(ssize_t, readv, (int f, const iovec *v, int n)) { return fake(f) ? os->recv(f, v, n, 0) : __real_readv(f, v, n); }
WRAP(ssize_t, writev, (int f, const iovec *v, int n)) { return fake(f) ? os->send(f, v, n, 0) : __real_writev(f, v, n); }
WRAP(int, poll, (pollfd * p, nfds_t n, int t)) { return n && fake(p[0].fd) ? os->poll(p, n, t) : __real_poll(p, n, t); }
WRAP(int, select, (int n, fd_set *r, fd_set *w, fd_set *e, timeval *t))
{
  if (ours() && n == 0) {
    os->sleep();
    return 0;
  }
  return __real_select(n, r, w, e, t);
}
WRAP(int, nanosleep, (const timespec *a, timespec *b))
{
  if (ours()) {
    os->sleep();
    return 0;
  }
  return __real_nanosleep(a, b);
}
WRAP(int, clock_nanosleep, (clockid_t c, int f, const timespec *a, timespec *b))
{
  if (ours()) {
    os->sleep();
    return 0;
  }
  return __real_clock_nanosleep(c, f, a, b);
}
WRAP(int, sched_yield, ())
{
  if (!ours())
    return __real_sched_yield();
  os->yield();
  return 0;
}
WRAP(int, epoll_create, (int n)) { return ours() ? os->epollCreate() : __real_epoll_create(n); }
WRAP(int, epoll_create1, (int n)) { return ours() ? os->epollCreate() : __real_epoll_create1(n); }
WRAP(int, epoll_ctl, (int p, int o, int f, epoll_event *e)) { return fake(p) ? os->epollCtl(p, o, f, e) : __real_epoll_ctl(p, o, f, e); }
WRAP(int, epoll_wait, (int p, epoll_event *e, int n, int t)) { return fake(p) ? os->epollWait(p, e, n, t) : __real_epoll_wait(p, e, n, t); }
WRAP(int, eventfd, (unsigned v, int fl)) { return ours() ? os->eventfd(v, fl) : __real_eventfd(v, fl); }
WRAP(int, timerfd_create, (int c, int fl)) { return ours() ? os->timerfd() : __real_timerfd_create(c, fl); }
WRAP(int, timerfd_settime, (int f, int fl, const itimerspec *a, itimerspec *b)) { return fake(f) ? 0 : __real_timerfd_settime(f, fl, a, b); }
WRAP(ssize_t, read, (int f, void *p, size_t n)) { return fake(f) ? os->read(f, p, n) : __real_read(f, p, n); }
WRAP(ssize_t, write, (int f, const void *p, size_t n)) { return fake(f) ? os->write(f, p, n) : __real_write(f, p, n); }
WRAP(int, close, (int f)) { return fake(f) ? os->close(f) : __real_close(f); }
WRAP(int, shutdown, (int f, int how)) { return fake(f) ? os->shutdown(f, how) : __real_shutdown(f, how); }
int __real_ioctl(int f, unsigned long r, ...);
int __wrap_ioctl(int f, unsigned long r, ...)
{
  va_list l;
  va_start(l, r);
  void *a = va_arg(l, void *);
  va_end(l);
  return fake(f) ? os->ioctl(f, r, a) : __real_ioctl(f, r, a);
}
int __real_fcntl(int f, int c, ...);
int __wrap_fcntl(int f, int c, ...)
{
  va_list l;
  va_start(l, c);
  long a = va_arg(l, long);
  va_end(l);
  return fake(f) ? os->fcntl(f, c, a) : __real_fcntl(f, c, a);
}
WRAP(struct if_nameindex *, if_nameindex, ())
{
  if (!ours())
    return __real_if_nameindex();
  static char                name[] = "lo";
  static struct if_nameindex list[] = {{1, name}, {0, nullptr}};
  return list;
}
WRAP(void, if_freenameindex, (struct if_nameindex * p))
{
  if (!ours())
    __real_if_freenameindex(p);
}

WRAP(int, pthread_mutex_lock, (pthread_mutex_t * m))
{
  if (!ours())
    return __real_pthread_mutex_lock(m);
  os->lock(m);
  return 0;
}
WRAP(int, pthread_mutex_trylock, (pthread_mutex_t * m))
{
  if (!ours())
    return __real_pthread_mutex_trylock(m);
  return os->tryLock(m) ? 0 : EBUSY;
}
WRAP(int, pthread_mutex_unlock, (pthread_mutex_t * m))
{
  if (!ours())
    return __real_pthread_mutex_unlock(m);
  os->unlock(m);
  return 0;
}
WRAP(int, pthread_cond_wait, (pthread_cond_t * c, pthread_mutex_t *m))
{
  if (!ours())
    return __real_pthread_cond_wait(c, m);
  os->wait(c, m);
  return 0;
}
WRAP(int, pthread_cond_timedwait, (pthread_cond_t * c, pthread_mutex_t *m, const timespec *t))
{
  if (!ours())
    return __real_pthread_cond_timedwait(c, m, t);
  os->wait(c, m);
  return 0;
}
WRAP(int, pthread_cond_signal, (pthread_cond_t * c))
{
  if (!ours())
    return __real_pthread_cond_signal(c);
  os->signal(c, false);
  return 0;
}
WRAP(int, pthread_cond_broadcast, (pthread_cond_t * c))
{
  if (!ours())
    return __real_pthread_cond_broadcast(c);
  os->signal(c, true);
  return 0;
}
WRAP(int, pthread_create, (pthread_t * t, const pthread_attr_t *a, void *(*f)(void *), void *p))
{
  if (ours()) {
    fprintf(stderr, "verif: unexpected thread\n");
    abort();
  }
  return __real_pthread_create(t, a, f, p);
}

// ---- C++ threads and condition variables (in libstdc++)
using StatePtr = std::unique_ptr<std::thread::_State>;
struct Running : std::thread::_State {
  StatePtr inner;
  int      id;
  Running(StatePtr s, int i)
      : inner(std::move(s)), id(i) {}
  void _M_run() override
  {
    os->threadBegin(id);
    inner->_M_run();
    inner.reset();
    os->threadEnd(id);
  }
};
} // extern "C"
#include <map>
static std::map<std::thread *, int> &started()
{
  static std::map<std::thread *, int> m;
  return m;
}
extern "C" {
void __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(std::thread *, StatePtr, void (*)());
void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(std::thread *t, StatePtr s, void (*d)())
{
  if (!ours())
    return __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(t, std::move(s), d);
  int id = os->threadNew();
  __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(t, StatePtr(new Running(std::move(s), id)), d);
  os->threadStarted();
  // the std::thread object may be moved: the native id identifies it
  started()[reinterpret_cast<std::thread *>(t->native_handle())] = id;
}
void __real__ZNSt6thread4joinEv(std::thread *);
void __wrap__ZNSt6thread4joinEv(std::thread *t)
{
  auto it = started().find(reinterpret_cast<std::thread *>(t->native_handle()));
  if (ours() && it != started().end()) {
    os->threadJoin(it->second);
    started().erase(it);
  }
  __real__ZNSt6thread4joinEv(t);
}
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable *, std::unique_lock<std::mutex> &);
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable *c, std::unique_lock<std::mutex> &l)
{
  if (!ours())
    return __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(c, l);
  os->wait(c->native_handle(), l.mutex()->native_handle());
}
void __real__ZNSt18condition_variable10notify_oneEv(std::condition_variable *);
void __wrap__ZNSt18condition_variable10notify_oneEv(std::condition_variable *c)
{
  if (!ours())
    return __real__ZNSt18condition_variable10notify_oneEv(c);
  os->signal(c->native_handle(), false);
}
void __real__ZNSt18condition_variable10notify_allEv(std::condition_variable *);
void __wrap__ZNSt18condition_variable10notify_allEv(std::condition_variable *c)
{
  if (!ours())
    return __real__ZNSt18condition_variable10notify_allEv(c);
  os->signal(c->native_handle(), true);
}

// ---- the file system: every step is a point where others may go on
using Path = std::filesystem::path;
using Stat = std::filesystem::file_status;
void __real__ZNSt10filesystem6renameERKNS_7__cxx114pathES3_(const Path &, const Path &);
void __wrap__ZNSt10filesystem6renameERKNS_7__cxx114pathES3_(const Path &a, const Path &b)
{
  if (ours())
    os->filePoint("rename", true);
  __real__ZNSt10filesystem6renameERKNS_7__cxx114pathES3_(a, b);
}
bool __real__ZNSt10filesystem6removeERKNS_7__cxx114pathE(const Path &);
bool __wrap__ZNSt10filesystem6removeERKNS_7__cxx114pathE(const Path &a)
{
  if (ours())
    os->filePoint("remove", true);
  return __real__ZNSt10filesystem6removeERKNS_7__cxx114pathE(a);
}
uintmax_t __real__ZNSt10filesystem10remove_allERKNS_7__cxx114pathE(const Path &);
uintmax_t __wrap__ZNSt10filesystem10remove_allERKNS_7__cxx114pathE(const Path &a)
{
  if (ours())
    os->filePoint("remove_all", true);
  return __real__ZNSt10filesystem10remove_allERKNS_7__cxx114pathE(a);
}
bool __real__ZNSt10filesystem18create_directoriesERKNS_7__cxx114pathE(const Path &);
bool __wrap__ZNSt10filesystem18create_directoriesERKNS_7__cxx114pathE(const Path &a)
{
  if (ours())
    os->filePoint("create_directories", true);
  return __real__ZNSt10filesystem18create_directoriesERKNS_7__cxx114pathE(a);
}
Stat __real__ZNSt10filesystem6statusERKNS_7__cxx114pathE(const Path &);
Stat __wrap__ZNSt10filesystem6statusERKNS_7__cxx114pathE(const Path &a)
{
  if (ours())
    os->filePoint("status", false);
  Stat s = __real__ZNSt10filesystem6statusERKNS_7__cxx114pathE(a);
  if (ours())
    os->filePoint("seen", false);
  return s;
}
} // extern "C"
