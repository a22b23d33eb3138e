// Interface between the host (scheduler, transport state; one per process) and the rank libraries
// (one dlopen'ed copy of the code under test per rank).  Plain C++ types: both sides are built by the
// same compiler and share libstdc++.
#pragma once
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace verif {

struct Msg {
  char                  type; // 'i','d','b','s'
  std::string           bytes;
  std::shared_ptr<bool> consumed;
  /// rendezvous: the transport looks at the sender's buffer only when the receiver takes the message
  const char *buffer = nullptr;
  size_t      n      = 0;
  const char *data() const { return buffer ? buffer : bytes.data(); }
};

/// One direction of a connection: a FIFO of messages.
struct Pipe {
  std::deque<Msg> q;
  /// rendezvous: receives posted and not yet matched; matched in order with the messages
  std::deque<std::function<void(Msg &)>> posted;
  void                                   match()
  {
    while (!q.empty() && !posted.empty()) {
      auto m = std::move(q.front());
      q.pop_front();
      auto f = std::move(posted.front());
      posted.pop_front();
      f(m);
    }
  }
  bool            writerClosed = false;
  bool            readerClosed = false;
  long            sent = 0, received = 0;
};

struct Link {
  Pipe toAcceptor, toRequester;
  int  requesterRank = -1;
  int  requesterSize = -1;
  bool accepted      = false;
  int  acceptorRank  = -1;
};

struct Listener { // published acceptor
  std::deque<std::shared_ptr<Link>> pending;
};

/// Services of the host.  All calls come from the fiber of a rank.
struct Host {
  virtual ~Host() = default;
  /// suspends the calling rank until pred() holds. Returns false if the execution is being torn down.
  virtual void waitUntil(const char *what, const std::function<bool()> &pred) = 0;
  /// environment choice in [0,n); 0 is the default answer
  virtual int choose(const char *what, int n) = 0;
  /// called before each transport operation: may inject a fault (throws verif::Killed) or reschedule
  virtual void commPoint(const char *what) = 0;
  /// a transport-level inconsistency (framing mismatch) - always a violation
  virtual void protocolError(const std::string &) = 0;
  /// the calling rank owns one end of this link
  virtual void connected(std::shared_ptr<Link>, bool acceptor) = 0;

  std::map<std::string, std::shared_ptr<Listener>> listeners;
  /// true: a send completes only when the receiver has taken the message
  bool rendezvous = false;
  long messages = 0, bytes = 0;
  /// counts changes of the transport state (what a poller waits for)
  long epoch = 0;
};

/// thrown through a rank's stack when the execution is being torn down / the rank is killed
struct Killed {
};

} // namespace verif
