// Linked into the socket rank library: the communication class behind an abstract interface.
#include "api.hpp"
#include "com/Request.hpp"
#include "com/SocketCommunication.hpp"
#include "oshost.hpp"
#include "precice/Exceptions.hpp"
#include "utils/networking.hpp"
#include <map>

namespace {
using namespace verif;
template <typename F>
auto guard(F &&f) -> decltype(f())
{
  try {
    return f();
  } catch (const ::precice::Error &e) {
    throw ApiError(e.what());
  }
}
struct Impl : CommApi {
  std::unique_ptr<precice::com::SocketCommunication> c;
  struct Pending {
    precice::com::PtrRequest r;
    VD                       vd;
    VI                       vi;
    double                   d = -7.25e77;
    int                      i = -77777;
    bool                     b = false;
    char                     kind = 's'; // what a receive fills
  };
  std::map<int, std::unique_ptr<Pending>> pending;
  int                                     next = 0;

  void create(const S &dir) override
  {
    guard([&] { c = std::make_unique<precice::com::SocketCommunication>(0, false, precice::utils::networking::loopbackInterfaceName(), dir); });
  }
  void destroy() override
  {
    guard([&] { c.reset(); });
    pending.clear();
  }
  void accept(const S &a, const S &r, const S &t, int rank, int offset) override { guard([&] { c->acceptConnection(a, r, t, rank, offset); }); }
  void acceptServer(const S &a, const S &r, const S &t, int rank, int n) override { guard([&] { c->acceptConnectionAsServer(a, r, t, rank, n); }); }
  void request(const S &a, const S &r, const S &t, int rank, int n) override { guard([&] { c->requestConnection(a, r, t, rank, n); }); }
  void requestClient(const S &a, const S &r, const S &t, std::set<int> ranks, int rank) override { guard([&] { c->requestConnectionAsClient(a, r, t, ranks, rank); }); }
  void intra(const S &n, const S &t, int rank, int size) override { guard([&] { c->connectIntraComm(n, t, rank, size); }); }
  void prepare(const S &a, const S &r) override { guard([&] { c->prepareEstablishment(a, r); }); }
  void cleanup(const S &a, const S &r) override { guard([&] { c->cleanupEstablishment(a, r); }); }
  void close() override { guard([&] { c->closeConnection(); }); }
  bool connected() override { return c->isConnected(); }
  int  remoteSize() override { return guard([&] { return static_cast<int>(c->getRemoteCommunicatorSize()); }); }
  void sendI(int v, int k) override { guard([&] { c->send(v, k); }); }
  void sendD(double v, int k) override { guard([&] { c->send(v, k); }); }
  void sendB(bool v, int k) override { guard([&] { c->send(v, k); }); }
  void sendS(const S &v, int k) override { guard([&] { c->send(v, k); }); }
  void sendVI(const VI &v, int k) override { guard([&] { c->send(precice::span<const int>{v}, k); }); }
  void sendVD(const VD &v, int k) override { guard([&] { c->send(precice::span<const double>{v}, k); }); }
  void sendRI(const VI &v, int k) override { guard([&] { c->sendRange(precice::span<const int>{v}, k); }); }
  void sendRD(const VD &v, int k) override { guard([&] { c->sendRange(precice::span<const double>{v}, k); }); }
  int  recvI(int k) override
  {
    int v = -77777;
    guard([&] { c->receive(v, k); });
    return v;
  }
  double recvD(int k) override
  {
    double v = -7.25e77;
    guard([&] { c->receive(v, k); });
    return v;
  }
  bool recvB(int k) override
  {
    bool v = false;
    guard([&] { c->receive(v, k); });
    return v;
  }
  S recvS(int k) override
  {
    S v = "nothing";
    guard([&] { c->receive(v, k); });
    return v;
  }
  VI recvVI(int n, int k) override
  {
    VI v(n, -77777);
    guard([&] { c->receive(precice::span<int>{v}, k); });
    return v;
  }
  VD recvVD(int n, int k) override
  {
    VD v(n, -7.25e77);
    guard([&] { c->receive(precice::span<double>{v}, k); });
    return v;
  }
  VI recvRI(int k) override
  {
    return guard([&] { return c->receiveRange(k, precice::com::asVector<int>); });
  }
  VD recvRD(int k) override
  {
    return guard([&] { return c->receiveRange(k, precice::com::asVector<double>); });
  }
  template <typename F>
  int post(char kind, F &&f)
  {
    auto p  = std::make_unique<Pending>();
    p->kind = kind;
    guard([&] { p->r = f(*p); });
    pending[next] = std::move(p);
    return next++;
  }
  int aSendVD(const VD &v, int k) override
  {
    return post('s', [&](Pending &p) { p.vd = v; return c->aSend(precice::span<const double>{p.vd}, k); });
  }
  int aSendVI(const VI &v, int k) override
  {
    return post('s', [&](Pending &p) { p.vi = v; return c->aSend(precice::span<const int>{p.vi}, k); });
  }
  int aSendI(int v, int k) override
  {
    return post('s', [&](Pending &p) { p.i = v; return c->aSend(p.i, k); });
  }
  int aSendD(double v, int k) override
  {
    return post('s', [&](Pending &p) { p.d = v; return c->aSend(p.d, k); });
  }
  int aSendB(bool v, int k) override
  {
    return post('s', [&](Pending &p) { p.b = v; return c->aSend(p.b, k); });
  }
  int aRecvVD(int n, int k) override
  {
    return post('v', [&](Pending &p) { p.vd.assign(n, -7.25e77); return c->aReceive(precice::span<double>{p.vd}, k); });
  }
  int aRecvI(int k) override
  {
    return post('i', [&](Pending &p) { return c->aReceive(p.i, k); });
  }
  int aRecvD(int k) override
  {
    return post('d', [&](Pending &p) { return c->aReceive(p.d, k); });
  }
  int aRecvB(int k) override
  {
    return post('b', [&](Pending &p) { return c->aReceive(p.b, k); });
  }
  VD wait(int q) override
  {
    auto &p = *pending.at(q);
    guard([&] { p.r->wait(); });
    VD r;
    if (p.kind == 'v')
      r = p.vd;
    if (p.kind == 'i')
      r = {double(p.i)};
    if (p.kind == 'd')
      r = {p.d};
    if (p.kind == 'b')
      r = {double(p.b)};
    pending.erase(q);
    return r;
  }
  bool test(int q) override
  {
    return guard([&] { return pending.at(q)->r->test(); });
  }
  VD reduceSum(const VD &v, bool primary, bool all) override
  {
    VD r(v.size(), -7.25e77);
    guard([&] {
      precice::span<const double> in{v};
      precice::span<double>       out{r};
      if (primary)
        all ? c->allreduceSum(in, out) : c->reduceSum(in, out);
      else
        all ? c->allreduceSum(in, out, 0) : c->reduceSum(in, out, 0);
    });
    return r;
  }
  int reduceSumI(int v, bool primary, bool all) override
  {
    int r = -77777;
    guard([&] {
      if (primary)
        all ? c->allreduceSum(v, r) : c->reduceSum(v, r);
      else
        all ? c->allreduceSum(v, r, 0) : c->reduceSum(v, r, 0);
    });
    return r;
  }
  VD broadcastD(const VD &v, bool primary) override
  {
    VD r = v;
    guard([&] { primary ? c->broadcast(static_cast<const VD &>(r)) : c->broadcast(r, 0); });
    return r;
  }
  VI broadcastI(const VI &v, bool primary) override
  {
    VI r = v;
    guard([&] { primary ? c->broadcast(static_cast<const VI &>(r)) : c->broadcast(r, 0); });
    return r;
  }
};
} // namespace
extern "C" __attribute__((visibility("default"))) verif::CommApi *verif_new_comm()
{
  return new Impl();
}
