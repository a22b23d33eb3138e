// The public API of precice::Participant as seen by the harnesses (implemented inside each rank library).
#pragma once
#include <stdexcept>
#include <string>
#include <vector>

namespace verif {

/// precice::Error, translated at the library boundary
struct ApiError : std::runtime_error {
  using std::runtime_error::runtime_error;
};

struct Api {
  virtual ~Api() = default;
  using VI       = std::vector<int>;
  using VD       = std::vector<double>;
  using S        = std::string;
  virtual void create(const S &name, const S &config, int rank, int size) = 0;
  virtual void destroy()                                                  = 0;
  virtual bool exists() const                                             = 0;

  virtual void   initialize()                                          = 0;
  virtual void   advance(double dt)                                    = 0;
  virtual void   finalize()                                            = 0;
  virtual bool   requiresWritingCheckpoint()                           = 0;
  virtual bool   requiresReadingCheckpoint()                           = 0;
  virtual int    getMeshDimensions(const S &mesh)                      = 0;
  virtual int    getDataDimensions(const S &mesh, const S &data)       = 0;
  virtual bool   isCouplingOngoing()                                   = 0;
  virtual bool   isTimeWindowComplete()                                = 0;
  virtual double getMaxTimeStepSize()                                  = 0;
  virtual bool   requiresMeshConnectivityFor(const S &mesh)            = 0;
  virtual void   resetMesh(const S &mesh)                              = 0;
  virtual int    setMeshVertex(const S &mesh, const VD &pos)           = 0;
  virtual int    getMeshVertexSize(const S &mesh)                      = 0;
  virtual VI     setMeshVertices(const S &mesh, const VD &c, int n)    = 0;
  virtual void   setMeshEdge(const S &mesh, int a, int b)              = 0;
  virtual void   setMeshEdges(const S &mesh, const VI &ids)            = 0;
  virtual void   setMeshTriangle(const S &mesh, int a, int b, int c)   = 0;
  virtual void   setMeshTriangles(const S &mesh, const VI &ids)        = 0;
  virtual void   setMeshQuad(const S &mesh, int a, int b, int c, int d) = 0;
  virtual void   setMeshQuads(const S &mesh, const VI &ids)            = 0;
  virtual void   setMeshTetrahedron(const S &mesh, int a, int b, int c, int d) = 0;
  virtual void   setMeshTetrahedra(const S &mesh, const VI &ids)       = 0;
  virtual bool   requiresInitialData()                                 = 0;
  virtual void   writeData(const S &mesh, const S &data, const VI &ids, const VD &v) = 0;
  virtual VD     readData(const S &mesh, const S &data, const VI &ids, double t, int nvalues) = 0;
  virtual void   writeAndMapData(const S &mesh, const S &data, const VD &c, const VD &v) = 0;
  virtual VD     mapAndReadData(const S &mesh, const S &data, const VD &c, double t, int nvalues) = 0;
  virtual void   setMeshAccessRegion(const S &mesh, const VD &bb)      = 0;
  virtual void   getMeshVertexIDsAndCoordinates(const S &mesh, VI &ids, VD &c) = 0;
  virtual bool   requiresGradientDataFor(const S &mesh, const S &data) = 0;
  virtual void   writeGradientData(const S &mesh, const S &data, const VI &ids, const VD &g) = 0;
  virtual void   startProfilingSection(const S &)                      = 0;
  virtual void   stopLastProfilingSection()                            = 0;

  virtual void checkConfiguration(const S &file, const S &participant, int size) = 0;
  virtual S    configReference(int type)                                         = 0;
};
} // namespace verif
