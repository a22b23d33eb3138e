// Interface between the socket rank library (the code under test with its real socket transport, whose
// system calls and thread primitives are redirected) and the world in the check that implements them.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <set>
#include <stdexcept>
#include <string>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <vector>

namespace verif {

struct OsHost {
  virtual ~OsHost() = default;
  /// whether the calling thread belongs to the world
  virtual bool inside() = 0;
  // -1 and errno on errors
  virtual int     socket(int domain, int type, int protocol)                         = 0;
  virtual int     bind(int fd, const sockaddr *a, socklen_t n)                       = 0;
  virtual int     listen(int fd, int backlog)                                        = 0;
  virtual int     accept(int fd, sockaddr *a, socklen_t *n)                          = 0;
  virtual int     connect(int fd, const sockaddr *a, socklen_t n)                    = 0;
  virtual int     getname(int fd, bool peer, sockaddr *a, socklen_t *n)              = 0;
  virtual int     getsockopt(int fd, int level, int name, void *v, socklen_t *n)     = 0;
  virtual int     setsockopt(int fd, int level, int name, const void *v, socklen_t)  = 0;
  virtual ssize_t send(int fd, const iovec *v, size_t n, int flags)                  = 0;
  virtual ssize_t recv(int fd, const iovec *v, size_t n, int flags)                  = 0;
  virtual int     poll(pollfd *p, nfds_t n, int timeout)                             = 0;
  virtual int     epollCreate()                                                      = 0;
  virtual int     epollCtl(int ep, int op, int fd, epoll_event *e)                   = 0;
  virtual int     epollWait(int ep, epoll_event *e, int max, int timeout)            = 0;
  virtual int     eventfd(unsigned v, int flags)                                     = 0;
  virtual int     timerfd()                                                          = 0;
  virtual ssize_t read(int fd, void *p, size_t n)                                    = 0;
  virtual ssize_t write(int fd, const void *p, size_t n)                             = 0;
  virtual int     close(int fd)                                                      = 0;
  virtual int     ioctl(int fd, unsigned long req, void *arg)                        = 0;
  virtual int     fcntl(int fd, int cmd, long arg)                                   = 0;
  virtual int     shutdown(int fd, int how)                                          = 0;
  virtual void    sleep()                                                            = 0;
  virtual void    yield()                                                            = 0;
  /// an operation on the file system that others may observe
  virtual void filePoint(const char *what, bool change) = 0;
  // threads
  virtual int  threadNew()        = 0;
  virtual void threadBegin(int t) = 0;
  virtual void threadStarted()    = 0; ///< called by the creator: waits until the thread has begun
  virtual void threadEnd(int t)   = 0;
  virtual void threadJoin(int t)  = 0;
  // mutexes and condition variables
  virtual void lock(void *m)              = 0;
  virtual bool tryLock(void *m)           = 0;
  virtual void unlock(void *m)            = 0;
  virtual void wait(void *c, void *m)     = 0;
  virtual void signal(void *c, bool all)  = 0;
  static constexpr int firstFd = 1000000;
};

/// one end of the real communication class
struct CommApi {
  using S  = std::string;
  using VD = std::vector<double>;
  using VI = std::vector<int>;
  virtual ~CommApi()                                                                         = default;
  virtual void   create(const S &dir)                                                        = 0;
  virtual void   destroy()                                                                   = 0;
  virtual void   accept(const S &a, const S &r, const S &tag, int rank, int offset)          = 0;
  virtual void   acceptServer(const S &a, const S &r, const S &tag, int rank, int n)         = 0;
  virtual void   request(const S &a, const S &r, const S &tag, int rank, int n)              = 0;
  virtual void   requestClient(const S &a, const S &r, const S &tag, std::set<int> ranks, int rank) = 0;
  virtual void   intra(const S &name, const S &tag, int rank, int size)                      = 0;
  virtual void   prepare(const S &a, const S &r)                                             = 0;
  virtual void   cleanup(const S &a, const S &r)                                             = 0;
  virtual void   close()                                                                     = 0;
  virtual bool   connected()                                                                 = 0;
  virtual int    remoteSize()                                                                = 0;
  virtual void   sendI(int v, int rank)                                                      = 0;
  virtual void   sendD(double v, int rank)                                                   = 0;
  virtual void   sendB(bool v, int rank)                                                     = 0;
  virtual void   sendS(const S &v, int rank)                                                 = 0;
  virtual void   sendVI(const VI &v, int rank)                                               = 0;
  virtual void   sendVD(const VD &v, int rank)                                               = 0;
  virtual void   sendRI(const VI &v, int rank)                                               = 0;
  virtual void   sendRD(const VD &v, int rank)                                               = 0;
  virtual int    recvI(int rank)                                                             = 0;
  virtual double recvD(int rank)                                                             = 0;
  virtual bool   recvB(int rank)                                                             = 0;
  virtual S      recvS(int rank)                                                             = 0;
  virtual VI     recvVI(int n, int rank)                                                     = 0;
  virtual VD     recvVD(int n, int rank)                                                     = 0;
  virtual VI     recvRI(int rank)                                                            = 0;
  virtual VD     recvRD(int rank)                                                            = 0;
  /// the buffers live until the request has been waited for
  virtual int aSendVD(const VD &v, int rank) = 0;
  virtual int aSendVI(const VI &v, int rank) = 0;
  virtual int aSendI(int v, int rank)        = 0;
  virtual int aSendD(double v, int rank)     = 0;
  virtual int aSendB(bool v, int rank)       = 0;
  virtual int aRecvVD(int n, int rank)       = 0;
  virtual int aRecvI(int rank)               = 0;
  virtual int aRecvD(int rank)               = 0;
  virtual int aRecvB(int rank)               = 0;
  /// returns what a receive delivered, as doubles
  virtual VD   wait(int request) = 0;
  virtual bool test(int request) = 0;
  // collectives over the intra-participant communication
  virtual VD reduceSum(const VD &v, bool primary, bool all)   = 0;
  virtual int reduceSumI(int v, bool primary, bool all)       = 0;
  virtual VD broadcastD(const VD &v, bool primary)            = 0; // vector<double>
  virtual VI broadcastI(const VI &v, bool primary)            = 0;
};

} // namespace verif
