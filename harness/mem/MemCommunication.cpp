#include "com/SocketCommunication.hpp"
#include "com/Request.hpp"
#include "logging/LogMacros.hpp"
#include "precice/Exceptions.hpp"
#include <cstring>

namespace verif {
Host *theHost = nullptr;
}
extern "C" __attribute__((visibility("default"))) void verif_set_host(verif::Host *h)
{
  verif::theHost = h;
}

namespace precice::com {
using verif::theHost;

namespace {
[[noreturn]] void commError(const char *what)
{
  // the text does not matter; the type does: the real transport raises precice::Error as well
  throw ::precice::Error(std::string("verif-transport: ") + what + " failed: the other participant exited");
}

class SendRequest : public Request {
public:
  SendRequest(std::shared_ptr<MemCommunication::End> e, std::shared_ptr<bool> c)
      : _e(std::move(e)), _c(std::move(c)) {}
  bool done() const { return *_c; }
  bool test() override
  {
    theHost->commPoint("send.test");
    if (!done() && !_e->out().readerClosed)
      return false;
    return theHost->choose("test", 2) == 0;
  }
  void wait() override
  {
    theHost->commPoint("send.wait");
    theHost->waitUntil("send.wait", [this] { return done() || _e->out().readerClosed; });
    if (!done())
      commError("sending");
  }

private:
  std::shared_ptr<MemCommunication::End> _e;
  std::shared_ptr<bool>                  _c;
};

/// state of a posted receive
struct Recv {
  char   type;
  void  *data;
  size_t n;
  bool   done = false, bad = false;
  void   take(verif::Msg &m, verif::Pipe &p)
  {
    done = true;
    p.received++;
    *m.consumed = true;
    theHost->epoch++;
    if (m.type != type || m.n != n) {
      theHost->protocolError(std::string("message mismatch: received ") + type + "x" + std::to_string(n) + " bytes, sent " + m.type + "x" + std::to_string(m.n) + " bytes");
      bad = true;
      return;
    }
    std::memcpy(data, m.data(), n);
  }
};

/// Buffered transport: the message is delivered when the receiver waits or tests.  Rendezvous: as soon as
/// both the send and the receive have been posted.
class RecvRequest : public Request {
public:
  RecvRequest(std::shared_ptr<MemCommunication::End> e, char type, void *data, size_t n)
      : _e(std::move(e)), _r(std::make_shared<Recv>(Recv{type, data, n})), _seq(_e->posted++)
  {
    if (n == 0)
      return;
    if (theHost->rendezvous) {
      auto  r = _r;
      auto *p = &_e->in();
      p->posted.push_back([r, p](verif::Msg &m) { r->take(m, *p); });
      p->match();
    }
  }
  bool ready()
  {
    if (_r->done)
      return true;
    if (theHost->rendezvous && _r->n != 0)
      return false;
    return _e->completed == _seq && (_r->n == 0 || !_e->in().q.empty());
  }
  void take()
  {
    if (!_taken) {
      _taken = true;
      _e->completed++;
      if (!_r->done) {
        if (_r->n == 0) {
          _r->done = true;
          return;
        }
        auto &p = _e->in();
        auto  m = std::move(p.q.front());
        p.q.pop_front();
        _r->take(m, p);
      }
    }
    if (_r->bad)
      commError("receiving");
  }
  bool test() override
  {
    theHost->commPoint("recv.test");
    if (!ready())
      return false;
    if (theHost->choose("test", 2) != 0)
      return false;
    take();
    return true;
  }
  void wait() override
  {
    theHost->commPoint("recv.wait");
    theHost->waitUntil("recv.wait", [this] { return ready() || (_e->in().writerClosed && _e->in().q.empty()); });
    if (!ready())
      commError("receiving");
    take();
  }

private:
  std::shared_ptr<MemCommunication::End> _e;
  std::shared_ptr<Recv>                  _r;
  long                                   _seq;
  bool                                   _taken = false;
};
} // namespace

MemCommunication::MemCommunication(unsigned short, bool, std::string, std::string addressDirectory)
    : _addressDirectory(addressDirectory.empty() ? std::string(".") : std::move(addressDirectory)) {}

MemCommunication::MemCommunication(std::string const &addressDirectory)
    : MemCommunication(0, false, "lo", addressDirectory) {}

MemCommunication::~MemCommunication()
{
  closeConnection();
}

std::string MemCommunication::key(std::string const &a, std::string const &r, std::string const &tag, int rank) const
{
  return _addressDirectory + "|" + a + "|" + r + "|" + tag + "|" + std::to_string(rank);
}

std::shared_ptr<MemCommunication::End> MemCommunication::end(Rank r)
{
  r       = adjustRank(r);
  auto it = _ends.find(r);
  if (!_isConnected || it == _ends.end()) {
    theHost->protocolError("transport used for rank " + std::to_string(r) + " without a connection to it");
    commError("addressing");
  }
  return it->second;
}

size_t MemCommunication::getRemoteCommunicatorSize()
{
  return _ends.size();
}

void MemCommunication::acceptConnection(std::string const &acceptorName, std::string const &requesterName, std::string const &tag, int acceptorRank, int rankOffset)
{
  setRankOffset(rankOffset);
  auto k = key(acceptorName, requesterName, tag, -1);
  theHost->commPoint("accept");
  auto l = std::make_shared<verif::Listener>();
  if (theHost->listeners.count(k))
    theHost->protocolError("two acceptors for " + k);
  theHost->listeners[k] = l;
  int n = -1, i = 0;
  do {
    theHost->waitUntil("accept", [&] { return !l->pending.empty(); });
    auto link = l->pending.front();
    l->pending.pop_front();
    if (_ends.count(link->requesterRank))
      theHost->protocolError("duplicate requester rank in " + k);
    auto e                     = std::make_shared<End>();
    e->link                    = link;
    e->acceptor                = true;
    _ends[link->requesterRank] = e;
    link->acceptorRank         = acceptorRank;
    link->accepted             = true;
    theHost->connected(link, true);
    n                          = link->requesterSize;
  } while (++i < n);
  theHost->listeners.erase(k);
  _isConnected = true;
}

void MemCommunication::acceptConnectionAsServer(std::string const &acceptorName, std::string const &requesterName, std::string const &tag, int acceptorRank, int requesterCommunicatorSize)
{
  if (requesterCommunicatorSize == 0) {
    _isConnected = true;
    return;
  }
  auto k = key(acceptorName, requesterName, tag, acceptorRank);
  theHost->commPoint("acceptAsServer");
  auto l = std::make_shared<verif::Listener>();
  if (theHost->listeners.count(k))
    theHost->protocolError("two acceptors for " + k);
  theHost->listeners[k] = l;
  for (int i = 0; i < requesterCommunicatorSize; ++i) {
    theHost->waitUntil("acceptAsServer", [&] { return !l->pending.empty(); });
    auto link = l->pending.front();
    l->pending.pop_front();
    auto e                     = std::make_shared<End>();
    e->link                    = link;
    e->acceptor                = true;
    _ends[link->requesterRank] = e;
    link->accepted             = true;
    theHost->connected(link, true);
  }
  theHost->listeners.erase(k);
  _isConnected = true;
}

void MemCommunication::requestConnection(std::string const &acceptorName, std::string const &requesterName, std::string const &tag, int requesterRank, int requesterCommunicatorSize)
{
  auto k = key(acceptorName, requesterName, tag, -1);
  theHost->commPoint("request");
  theHost->waitUntil("request", [&] { return theHost->listeners.count(k) > 0; });
  auto link           = std::make_shared<verif::Link>();
  link->requesterRank = requesterRank;
  link->requesterSize = requesterCommunicatorSize;
  theHost->listeners[k]->pending.push_back(link);
  theHost->waitUntil("request.accepted", [&] { return link->accepted; });
  auto e       = std::make_shared<End>();
  e->link      = link;
  theHost->connected(link, false);
  _ends[0]     = e;
  _isConnected = true;
}

void MemCommunication::requestConnectionAsClient(std::string const &acceptorName, std::string const &requesterName, std::string const &tag, std::set<int> const &acceptorRanks, int requesterRank)
{
  for (int a : acceptorRanks) {
    auto k = key(acceptorName, requesterName, tag, a);
    theHost->commPoint("requestAsClient");
    theHost->waitUntil("requestAsClient", [&] { return theHost->listeners.count(k) > 0; });
    auto link           = std::make_shared<verif::Link>();
    link->requesterRank = requesterRank;
    theHost->listeners[k]->pending.push_back(link);
    auto e   = std::make_shared<End>();
    e->link  = link;
    theHost->connected(link, false);
    _ends[a] = e;
  }
  // like the socket implementation: with no acceptor there is nothing to connect to
  _isConnected = !acceptorRanks.empty();
}

void MemCommunication::closeConnection()
{
  if (!_isConnected)
    return;
  for (auto &[r, e] : _ends) {
    e->out().writerClosed = true;
    e->in().readerClosed  = true;
    if (theHost->rendezvous) // what has not been handed over is lost
      e->out().q.clear();
  }
  theHost->epoch++;
  _isConnected = false;
}

std::shared_ptr<bool> MemCommunication::put(char type, const void *data, size_t n, Rank receiver)
{
  theHost->commPoint("send");
  auto e    = end(receiver);
  auto done = std::make_shared<bool>(!theHost->rendezvous);
  if (n == 0) { // no bytes: nothing travels on a byte stream
    *done = true;
    return done;
  }
  if (e->out().readerClosed)
    commError("sending");
  auto *b = static_cast<const char *>(data);
  if (theHost->rendezvous)
    e->out().q.push_back({type, {}, done, b, n});
  else
    e->out().q.push_back({type, std::string(b, n), done, nullptr, n});
  e->out().sent++;
  e->out().match();
  theHost->messages++;
  theHost->epoch++;
  theHost->bytes += n;
  return done;
}

void MemCommunication::putBlocking(char type, const void *data, size_t n, Rank receiver)
{
  auto e    = end(receiver);
  auto done = put(type, data, n, receiver);
  theHost->waitUntil("send", [&] { return *done || e->out().readerClosed; });
  if (!*done)
    commError("sending");
}

PtrRequest MemCommunication::post(char type, void *data, size_t n, Rank sender)
{
  return std::make_shared<RecvRequest>(end(sender), type, data, n);
}

void MemCommunication::send(std::string const &s, Rank r)
{
  auto e = end(r);
  putBlocking('s', s.c_str(), s.size() + 1, r);
}
void MemCommunication::receive(std::string &s, Rank r)
{
  theHost->commPoint("recv");
  auto e = end(r);
  auto &p = e->in();
  theHost->waitUntil("recv", [&] { return !p.q.empty() || p.writerClosed; });
  if (p.q.empty())
    commError("receiving");
  auto m = std::move(p.q.front());
  p.q.pop_front();
  p.received++;
  *m.consumed = true;
  theHost->epoch++;
  if (m.type != 's') {
    theHost->protocolError(std::string("message mismatch: received string, sent ") + m.type);
    commError("receiving");
  }
  s.assign(m.data(), m.n - 1);
}

void       MemCommunication::send(precice::span<const int> v, Rank r) { putBlocking('i', v.data(), v.size() * sizeof(int), r); }
PtrRequest MemCommunication::aSend(precice::span<const int> v, Rank r) { auto e = end(r); return std::make_shared<SendRequest>(e, put('i', v.data(), v.size() * sizeof(int), r)); }
void       MemCommunication::send(precice::span<const double> v, Rank r) { putBlocking('d', v.data(), v.size() * sizeof(double), r); }
PtrRequest MemCommunication::aSend(precice::span<const double> v, Rank r) { auto e = end(r); return std::make_shared<SendRequest>(e, put('d', v.data(), v.size() * sizeof(double), r)); }
void       MemCommunication::send(double v, Rank r) { putBlocking('d', &v, sizeof v, r); }
PtrRequest MemCommunication::aSend(const double &v, Rank r) { auto e = end(r); return std::make_shared<SendRequest>(e, put('d', &v, sizeof v, r)); }
void       MemCommunication::send(int v, Rank r) { putBlocking('i', &v, sizeof v, r); }
PtrRequest MemCommunication::aSend(const int &v, Rank r) { auto e = end(r); return std::make_shared<SendRequest>(e, put('i', &v, sizeof v, r)); }
void       MemCommunication::send(bool v, Rank r) { putBlocking('b', &v, sizeof v, r); }
PtrRequest MemCommunication::aSend(const bool &v, Rank r) { auto e = end(r); return std::make_shared<SendRequest>(e, put('b', &v, sizeof v, r)); }

void       MemCommunication::receive(precice::span<int> v, Rank r) { post('i', v.data(), v.size() * sizeof(int), r)->wait(); }
void       MemCommunication::receive(precice::span<double> v, Rank r) { post('d', v.data(), v.size() * sizeof(double), r)->wait(); }
PtrRequest MemCommunication::aReceive(precice::span<double> v, int r) { return post('d', v.data(), v.size() * sizeof(double), r); }
void       MemCommunication::receive(double &v, Rank r) { post('d', &v, sizeof v, r)->wait(); }
PtrRequest MemCommunication::aReceive(double &v, Rank r) { return post('d', &v, sizeof v, r); }
void       MemCommunication::receive(int &v, Rank r) { post('i', &v, sizeof v, r)->wait(); }
PtrRequest MemCommunication::aReceive(int &v, Rank r) { return post('i', &v, sizeof v, r); }
void       MemCommunication::receive(bool &v, Rank r) { post('b', &v, sizeof v, r)->wait(); }
PtrRequest MemCommunication::aReceive(bool &v, Rank r) { return post('b', &v, sizeof v, r); }
} // namespace precice::com
