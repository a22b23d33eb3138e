#pragma once
#include "com/CommunicationFactory.hpp"
#include "com/SharedPointer.hpp"
#include "com/SocketCommunication.hpp"
#include "utils/networking.hpp"
#include <string>

namespace precice::com {
class MemCommunicationFactory : public CommunicationFactory {
public:
  MemCommunicationFactory(unsigned short portNumber       = 0,
                          bool           reuseAddress     = false,
                          std::string    networkName      = utils::networking::loopbackInterfaceName(),
                          std::string    addressDirectory = ".")
      : _addressDirectory(addressDirectory.empty() ? std::string(".") : std::move(addressDirectory)) {}
  explicit MemCommunicationFactory(std::string const &addressDirectory)
      : MemCommunicationFactory(0, false, utils::networking::loopbackInterfaceName(), addressDirectory) {}
  PtrCommunication newCommunication() override
  {
    return std::make_shared<MemCommunication>(0, false, "lo", _addressDirectory);
  }
  std::string addressDirectory() override { return _addressDirectory; }

private:
  std::string _addressDirectory;
};
using SocketCommunicationFactory = MemCommunicationFactory;
} // namespace precice::com
