// Linked into every rank library: the public API behind an abstract interface.
#include "api.hpp"
#include "precice/precice.hpp"
#include "precice/Tooling.hpp"
#include <memory>
#include <sstream>

namespace {
using namespace verif;
template <typename F>
auto guard(F &&f) -> decltype(f())
{
  try {
    return f();
  } catch (const ::precice::Error &e) {
    throw ApiError(e.what());
  }
}
struct Impl : Api {
  std::unique_ptr<precice::Participant> p;
  using View = precice::span<const double>;
  static precice::string_view s(const S &x) { return precice::string_view(x.data(), x.size()); }

  void create(const S &name, const S &config, int rank, int size) override
  {
    guard([&] { p = std::make_unique<precice::Participant>(s(name), s(config), rank, size); });
  }
  void   destroy() override { p.reset(); }
  bool   exists() const override { return static_cast<bool>(p); }
  void   initialize() override { guard([&] { p->initialize(); }); }
  void   advance(double dt) override { guard([&] { p->advance(dt); }); }
  void   finalize() override { guard([&] { p->finalize(); }); }
  bool   requiresWritingCheckpoint() override { return guard([&] { return p->requiresWritingCheckpoint(); }); }
  bool   requiresReadingCheckpoint() override { return guard([&] { return p->requiresReadingCheckpoint(); }); }
  int    getMeshDimensions(const S &m) override { return guard([&] { return p->getMeshDimensions(s(m)); }); }
  int    getDataDimensions(const S &m, const S &d) override { return guard([&] { return p->getDataDimensions(s(m), s(d)); }); }
  bool   isCouplingOngoing() override { return guard([&] { return p->isCouplingOngoing(); }); }
  bool   isTimeWindowComplete() override { return guard([&] { return p->isTimeWindowComplete(); }); }
  double getMaxTimeStepSize() override { return guard([&] { return p->getMaxTimeStepSize(); }); }
  bool   requiresMeshConnectivityFor(const S &m) override { return guard([&] { return p->requiresMeshConnectivityFor(s(m)); }); }
  void   resetMesh(const S &m) override { guard([&] { p->resetMesh(s(m)); }); }
  int    setMeshVertex(const S &m, const VD &c) override { return guard([&] { return p->setMeshVertex(s(m), c); }); }
  int    getMeshVertexSize(const S &m) override { return guard([&] { return p->getMeshVertexSize(s(m)); }); }
  VI     setMeshVertices(const S &m, const VD &c, int n) override
  {
    VI ids(n, -1);
    guard([&] { p->setMeshVertices(s(m), c, ids); });
    return ids;
  }
  void setMeshEdge(const S &m, int a, int b) override { guard([&] { p->setMeshEdge(s(m), a, b); }); }
  void setMeshEdges(const S &m, const VI &v) override { guard([&] { p->setMeshEdges(s(m), v); }); }
  void setMeshTriangle(const S &m, int a, int b, int c) override { guard([&] { p->setMeshTriangle(s(m), a, b, c); }); }
  void setMeshTriangles(const S &m, const VI &v) override { guard([&] { p->setMeshTriangles(s(m), v); }); }
  void setMeshQuad(const S &m, int a, int b, int c, int d) override { guard([&] { p->setMeshQuad(s(m), a, b, c, d); }); }
  void setMeshQuads(const S &m, const VI &v) override { guard([&] { p->setMeshQuads(s(m), v); }); }
  void setMeshTetrahedron(const S &m, int a, int b, int c, int d) override { guard([&] { p->setMeshTetrahedron(s(m), a, b, c, d); }); }
  void setMeshTetrahedra(const S &m, const VI &v) override { guard([&] { p->setMeshTetrahedra(s(m), v); }); }
  bool requiresInitialData() override { return guard([&] { return p->requiresInitialData(); }); }
  void writeData(const S &m, const S &d, const VI &ids, const VD &v) override { guard([&] { p->writeData(s(m), s(d), ids, v); }); }
  VD   readData(const S &m, const S &d, const VI &ids, double t, int n) override
  {
    VD v(n, -7.25e77);
    guard([&] { p->readData(s(m), s(d), ids, t, v); });
    return v;
  }
  void writeAndMapData(const S &m, const S &d, const VD &c, const VD &v) override { guard([&] { p->writeAndMapData(s(m), s(d), c, v); }); }
  VD   mapAndReadData(const S &m, const S &d, const VD &c, double t, int n) override
  {
    VD v(n, -7.25e77);
    guard([&] { p->mapAndReadData(s(m), s(d), c, t, v); });
    return v;
  }
  void setMeshAccessRegion(const S &m, const VD &bb) override { guard([&] { p->setMeshAccessRegion(s(m), bb); }); }
  void getMeshVertexIDsAndCoordinates(const S &m, VI &ids, VD &c) override { guard([&] { p->getMeshVertexIDsAndCoordinates(s(m), ids, c); }); }
  bool requiresGradientDataFor(const S &m, const S &d) override { return guard([&] { return p->requiresGradientDataFor(s(m), s(d)); }); }
  void writeGradientData(const S &m, const S &d, const VI &ids, const VD &g) override { guard([&] { p->writeGradientData(s(m), s(d), ids, g); }); }
  void startProfilingSection(const S &n) override { guard([&] { p->startProfilingSection(s(n)); }); }
  void stopLastProfilingSection() override { guard([&] { p->stopLastProfilingSection(); }); }
  void checkConfiguration(const S &f, const S &part, int size) override { guard([&] { precice::tooling::checkConfiguration(f, part, size); }); }
  S    configReference(int t) override
  {
    std::ostringstream os;
    precice::tooling::printConfigReference(os, static_cast<precice::tooling::ConfigReferenceType>(t));
    return os.str();
  }
};
} // namespace
extern "C" __attribute__((visibility("default"))) verif::Api *verif_new_api()
{
  return new Impl();
}
