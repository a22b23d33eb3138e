// Shadows /repo/src/com/SocketCommunication.hpp in the system library: the code under test creates its
// connections through this name, and gets the in-memory transport driven by the model checker.
#pragma once
#include "com/Communication.hpp"
#include "com/SharedPointer.hpp"
#include "precice/impl/Types.hpp"
#include "utils/networking.hpp"
#include <map>
#include <memory>
#include <set>
#include <string>

#include "hostapi.hpp"

namespace precice::com {
class MemCommunication : public Communication {
public:
  MemCommunication(unsigned short portNumber       = 0,
                   bool           reuseAddress     = false,
                   std::string    networkName      = utils::networking::loopbackInterfaceName(),
                   std::string    addressDirectory = ".");
  explicit MemCommunication(std::string const &addressDirectory);
  ~MemCommunication() override;

  size_t getRemoteCommunicatorSize() override;
  void   acceptConnection(std::string const &acceptorName, std::string const &requesterName, std::string const &tag, int acceptorRank, int rankOffset = 0) override;
  void   acceptConnectionAsServer(std::string const &acceptorName, std::string const &requesterName, std::string const &tag, int acceptorRank, int requesterCommunicatorSize) override;
  void   requestConnection(std::string const &acceptorName, std::string const &requesterName, std::string const &tag, int requesterRank, int requesterCommunicatorSize) override;
  void   requestConnectionAsClient(std::string const &acceptorName, std::string const &requesterName, std::string const &tag, std::set<int> const &acceptorRanks, int requesterRank) override;
  void   closeConnection() override;

  void       send(std::string const &itemToSend, Rank rankReceiver) override;
  void       send(precice::span<const int> itemsToSend, Rank rankReceiver) override;
  PtrRequest aSend(precice::span<const int> itemsToSend, Rank rankReceiver) override;
  void       send(precice::span<const double> itemsToSend, Rank rankReceiver) override;
  PtrRequest aSend(precice::span<const double> itemsToSend, Rank rankReceiver) override;
  void       send(double itemToSend, Rank rankReceiver) override;
  PtrRequest aSend(const double &itemToSend, Rank rankReceiver) override;
  void       send(int itemToSend, Rank rankReceiver) override;
  PtrRequest aSend(const int &itemToSend, Rank rankReceiver) override;
  void       send(bool itemToSend, Rank rankReceiver) override;
  PtrRequest aSend(const bool &itemToSend, Rank rankReceiver) override;

  void       receive(std::string &itemToReceive, Rank rankSender) override;
  void       receive(precice::span<int> itemsToReceive, Rank rankSender) override;
  void       receive(precice::span<double> itemsToReceive, Rank rankSender) override;
  PtrRequest aReceive(precice::span<double> itemsToReceive, int rankSender) override;
  void       receive(double &itemToReceive, Rank rankSender) override;
  PtrRequest aReceive(double &itemToReceive, Rank rankSender) override;
  void       receive(int &itemToReceive, Rank rankSender) override;
  PtrRequest aReceive(int &itemToReceive, Rank rankSender) override;
  void       receive(bool &itemToReceive, Rank rankSender) override;
  PtrRequest aReceive(bool &itemToReceive, Rank rankSender) override;

  struct End {
    std::shared_ptr<verif::Link> link;
    bool                         acceptor = false;
    verif::Pipe                 &out() { return acceptor ? link->toRequester : link->toAcceptor; }
    verif::Pipe                 &in() { return acceptor ? link->toAcceptor : link->toRequester; }
    // receives must complete in posting order
    long posted = 0, completed = 0;
  };

private:
  std::string                          _addressDirectory;
  std::map<int, std::shared_ptr<End>> _ends;

  std::string              key(std::string const &a, std::string const &r, std::string const &tag, int rank) const;
  std::shared_ptr<End>     end(Rank r);
  std::shared_ptr<bool>    put(char type, const void *data, size_t n, Rank receiver);
  void                     putBlocking(char type, const void *data, size_t n, Rank receiver);
  PtrRequest               post(char type, void *data, size_t n, Rank sender);
};
using SocketCommunication = MemCommunication;
} // namespace precice::com
