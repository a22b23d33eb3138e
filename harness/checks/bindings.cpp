// C26: the C and Fortran bindings do what the C++ interface does.  The bindings are linked with a recording model
// of precice::Participant: every call that reaches it is noted with all arguments, and its results are functions of
// the arguments.  Every function of the bindings is called with all combinations of a catalogue of arguments in
// every state of the binding; what reaches the participant and what comes back is compared with a direct call.
#include "campaign.hpp"
extern "C" {
#include "precice/preciceC.h"
}
#include "precice/preciceFortran.hpp"
#include "precice/precice.hpp"
#include <cstring>
#include <sys/mman.h>
namespace std {
[[noreturn]] void verif_abort(); // see bind/abort.hpp
}
using namespace verif;

namespace {
using VI = std::vector<int>;
using VD = std::vector<double>;
using S  = std::string;

struct Aborted {
};

// ---------------------------------------------------------------- the recording model
struct Journal {
  std::vector<S> lines;
  S              fail; // this function reports an error
} journal;

S str(const S &s) { return "'" + s + "'"; }
S str(int v) { return std::to_string(v); }
S str(double v)
{
  char b[40];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}
template <typename T>
S str(const std::vector<T> &v)
{
  S s = "[";
  for (auto &x : v)
    s += (s.size() > 1 ? " " : "") + str(x);
  return s + "]";
}
/// notes a call that has an effect
template <typename... A>
void note(const char *f, const A &...a)
{
  S l = f;
  ((l += " " + str(a)), ...);
  journal.lines.push_back(l);
  if (journal.fail == f)
    throw precice::Error("refused");
}
void query(const char *f)
{
  if (journal.fail == f)
    throw precice::Error("refused");
}
uint64_t hashOf(const S &s)
{
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s)
    h = (h ^ c) * 1099511628211ull;
  return h;
}
template <typename... A>
double valueOf(const A &...a)
{
  S l;
  ((l += " " + str(a)), ...);
  return static_cast<double>(hashOf(l) % 1000003) / 64;
}
template <typename... A>
int numberOf(const A &...a)
{
  S l;
  ((l += " " + str(a)), ...);
  return static_cast<int>(hashOf(l) % 100003);
}
// the third character tells the dimensions
int  meshDims(const S &m) { return m.size() > 1 && m[1] == '3' ? 3 : 2; }
int  dataDims(const S &m, const S &d) { return !d.empty() && d[0] == 'V' ? meshDims(m) : 1; }
bool truth; // of the queries without arguments
int  queries;

namespace model {
void create(const S &n, const S &c, int r, int s, const void *comm) { note("create", n, c, r, s, S(comm ? "communicator" : "")); }
int  getMeshDimensions(const S &m)
{
  query("getMeshDimensions");
  return meshDims(m);
}
int getDataDimensions(const S &m, const S &d)
{
  query("getDataDimensions");
  return dataDims(m, d);
}
bool flag(const char *f)
{
  if (!strncmp(f, "requires", 8))
    note(f); // has an effect on what is allowed later
  else
    query(f);
  return truth ^ (hashOf(f) & 1);
}
double getMaxTimeStepSize()
{
  query("getMaxTimeStepSize");
  return truth ? 0.0625 : 1e300;
}
bool requiresMeshConnectivityFor(const S &m)
{
  query("requiresMeshConnectivityFor");
  return truth ^ (hashOf(m) & 1);
}
bool requiresGradientDataFor(const S &m, const S &d)
{
  query("requiresGradientDataFor");
  return truth ^ (hashOf(m + d) & 1);
}
int getMeshVertexSize(const S &m)
{
  query("getMeshVertexSize");
  return numberOf(m);
}
int setMeshVertex(const S &m, const VD &c)
{
  note("setMeshVertex", m, c);
  return numberOf(m, c);
}
VI setMeshVertices(const S &m, const VD &c, size_t n)
{
  note("setMeshVertices", m, c, static_cast<int>(n));
  VI ids;
  for (size_t i = 0; i < n; ++i)
    ids.push_back(numberOf(m, c, static_cast<int>(i)));
  return ids;
}
VD readData(const S &m, const S &d, const VI &ids, double t, size_t n)
{
  query("readData");
  VD v;
  for (size_t i = 0; i < n; ++i)
    v.push_back(valueOf(S("read"), m, d, ids, t, static_cast<int>(i)));
  return v;
}
VD mapAndReadData(const S &m, const S &d, const VD &c, double t, size_t n)
{
  query("mapAndReadData");
  VD v;
  for (size_t i = 0; i < n; ++i)
    v.push_back(valueOf(S("map"), m, d, c, t, static_cast<int>(i)));
  return v;
}
void getMeshVertexIDsAndCoordinates(const S &m, size_t n, size_t k, VI &ids, VD &c)
{
  query("getMeshVertexIDsAndCoordinates");
  for (size_t i = 0; i < n; ++i)
    ids.push_back(numberOf(m, static_cast<int>(n), static_cast<int>(k), static_cast<int>(i)));
  for (size_t i = 0; i < k; ++i)
    c.push_back(valueOf(S("coordinates"), m, static_cast<int>(n), static_cast<int>(k), static_cast<int>(i)));
}
} // namespace model

template <typename V>
S toS(const V &v) { return S(v.data(), v.size()); }
template <typename T>
std::vector<std::remove_const_t<T>> toV(precice::span<T> s) { return {s.begin(), s.end()}; }
} // namespace

namespace precice {
namespace impl {
class ParticipantImpl {
};
} // namespace impl
using str_t = ::precice::string_view;
Participant::Participant(str_t n, str_t c, int r, int s) { model::create(toS(n), toS(c), r, s, nullptr); }
Participant::Participant(str_t n, str_t c, int r, int s, void *comm) { model::create(toS(n), toS(c), r, s, comm); }
Participant::~Participant() { journal.lines.push_back("destroy"); }
void     Participant::initialize() { note("initialize"); }
void     Participant::advance(double dt) { note("advance", dt); }
void     Participant::finalize() { note("finalize"); }
bool     Participant::requiresWritingCheckpoint() { return model::flag("requiresWritingCheckpoint"); }
bool     Participant::requiresReadingCheckpoint() { return model::flag("requiresReadingCheckpoint"); }
int      Participant::getMeshDimensions(str_t m) const { return model::getMeshDimensions(toS(m)); }
int      Participant::getDataDimensions(str_t m, str_t d) const { return model::getDataDimensions(toS(m), toS(d)); }
bool     Participant::isCouplingOngoing() const { return model::flag("isCouplingOngoing"); }
bool     Participant::isTimeWindowComplete() const { return model::flag("isTimeWindowComplete"); }
double   Participant::getMaxTimeStepSize() const { return model::getMaxTimeStepSize(); }
bool     Participant::requiresMeshConnectivityFor(str_t m) const { return model::requiresMeshConnectivityFor(toS(m)); }
void     Participant::resetMesh(str_t m) { note("resetMesh", toS(m)); }
VertexID Participant::setMeshVertex(str_t m, span<const double> c) { return model::setMeshVertex(toS(m), toV(c)); }
int      Participant::getMeshVertexSize(str_t m) const { return model::getMeshVertexSize(toS(m)); }
void     Participant::setMeshVertices(str_t m, span<const double> c, span<VertexID> ids)
{
  auto r = model::setMeshVertices(toS(m), toV(c), ids.size());
  std::copy(r.begin(), r.end(), ids.begin());
}
void Participant::setMeshEdge(str_t m, VertexID a, VertexID b) { note("setMeshEdge", toS(m), a, b); }
void Participant::setMeshEdges(str_t m, span<const VertexID> v) { note("setMeshEdges", toS(m), toV(v)); }
void Participant::setMeshTriangle(str_t m, VertexID a, VertexID b, VertexID c) { note("setMeshTriangle", toS(m), a, b, c); }
void Participant::setMeshTriangles(str_t m, span<const VertexID> v) { note("setMeshTriangles", toS(m), toV(v)); }
void Participant::setMeshQuad(str_t m, VertexID a, VertexID b, VertexID c, VertexID d) { note("setMeshQuad", toS(m), a, b, c, d); }
void Participant::setMeshQuads(str_t m, span<const VertexID> v) { note("setMeshQuads", toS(m), toV(v)); }
void Participant::setMeshTetrahedron(str_t m, VertexID a, VertexID b, VertexID c, VertexID d) { note("setMeshTetrahedron", toS(m), a, b, c, d); }
void Participant::setMeshTetrahedra(str_t m, span<const VertexID> v) { note("setMeshTetrahedra", toS(m), toV(v)); }
bool Participant::requiresInitialData() { return model::flag("requiresInitialData"); }
void Participant::writeData(str_t m, str_t d, span<const VertexID> ids, span<const double> v) { note("writeData", toS(m), toS(d), toV(ids), toV(v)); }
void Participant::readData(str_t m, str_t d, span<const VertexID> ids, double t, span<double> v) const
{
  auto r = model::readData(toS(m), toS(d), toV(ids), t, v.size());
  std::copy(r.begin(), r.end(), v.begin());
}
void Participant::writeAndMapData(str_t m, str_t d, span<const double> c, span<const double> v) { note("writeAndMapData", toS(m), toS(d), toV(c), toV(v)); }
void Participant::mapAndReadData(str_t m, str_t d, span<const double> c, double t, span<double> v) const
{
  auto r = model::mapAndReadData(toS(m), toS(d), toV(c), t, v.size());
  std::copy(r.begin(), r.end(), v.begin());
}
void Participant::setMeshAccessRegion(str_t m, span<const double> b) const { note("setMeshAccessRegion", toS(m), toV(b)); }
void Participant::getMeshVertexIDsAndCoordinates(str_t m, span<VertexID> ids, span<double> c) const
{
  VI i;
  VD x;
  model::getMeshVertexIDsAndCoordinates(toS(m), ids.size(), c.size(), i, x);
  std::copy(i.begin(), i.end(), ids.begin());
  std::copy(x.begin(), x.end(), c.begin());
}
bool Participant::requiresGradientDataFor(str_t m, str_t d) const { return model::requiresGradientDataFor(toS(m), toS(d)); }
void Participant::writeGradientData(str_t m, str_t d, span<const VertexID> ids, span<const double> g) { note("writeGradientData", toS(m), toS(d), toV(ids), toV(g)); }
void Participant::startProfilingSection(str_t n) { note("startProfilingSection", toS(n)); }
void Participant::stopLastProfilingSection() { note("stopLastProfilingSection"); }
} // namespace precice

[[noreturn]] void std::verif_abort() { throw Aborted{}; }

// deprecated names of the Fortran binding
extern "C" {
void precicef_set_vertex_(const char *, const double *, int *, int) __attribute__((weak));
void precicef_set_vertices_(const char *, const int *, double *, int *, int) __attribute__((weak));
void precicef_set_edge_(const char *, const int *, const int *, int) __attribute__((weak));
void precicef_set_triangle_(const char *, const int *, const int *, const int *, int) __attribute__((weak));
void precicef_set_quad_(const char *, const int *, const int *, const int *, const int *, int) __attribute__((weak));
void precicef_set_tetrahedron_(const char *, const int *, const int *, const int *, const int *, int) __attribute__((weak));
}

namespace {
enum Function { Create,
                CreateComm,
                Initialize,
                Advance,
                Finalize,
                WritingCheckpoint,
                ReadingCheckpoint,
                MeshDimensions,
                DataDimensions,
                Ongoing,
                WindowComplete,
                MaxTimeStep,
                Connectivity,
                ResetMesh,
                Vertex,
                VertexSize,
                Vertices,
                Edge,
                Edges,
                Triangle,
                Triangles,
                Quad,
                Quads,
                Tetrahedron,
                Tetrahedra,
                InitialData,
                Write,
                Read,
                WriteAndMap,
                MapAndRead,
                AccessRegion,
                IdsAndCoordinates,
                NeedsGradient,
                WriteGradient,
                StartSection,
                StopSection,
                FUNCTIONS };
const char *NAMES[] = {"create", "createWithCommunicator", "initialize", "advance", "finalize", "requiresWritingCheckpoint", "requiresReadingCheckpoint", "getMeshDimensions", "getDataDimensions", "isCouplingOngoing", "isTimeWindowComplete", "getMaxTimeStepSize", "requiresMeshConnectivityFor", "resetMesh", "setMeshVertex", "getMeshVertexSize", "setMeshVertices", "setMeshEdge", "setMeshEdges", "setMeshTriangle", "setMeshTriangles", "setMeshQuad", "setMeshQuads", "setMeshTetrahedron", "setMeshTetrahedra", "requiresInitialData", "writeData", "readData", "writeAndMapData", "mapAndReadData", "setMeshAccessRegion", "getMeshVertexIDsAndCoordinates", "requiresGradientDataFor", "writeGradientData", "startProfilingSection", "stopLastProfilingSection"};

struct Call {
  Function f = Create;
  S        mesh, data; // also names of the participant and the file
  int      n  = 0;
  double   t  = 0;
  int      salt = 0;
  bool     old  = false; // the deprecated name of the Fortran function
  S        pad;         // Fortran: what follows the names
};
struct Result {
  bool aborted = false;
  VI   ints;
  VD   values;
  bool operator==(const Result &o) const { return aborted == o.aborted && (aborted || (ints == o.ints && values == o.values)); }
};
S show(const Result &r) { return r.aborted ? S("abort") : str(r.ints) + " " + str(r.values); }

/// arguments of a call
struct Args {
  int dims, comps;
  VI  ids, cells[5];
  VD  coords, values, gradients, box;
  int a, b, c, d;
  explicit Args(const Call &k)
  {
    dims = meshDims(k.mesh), comps = dataDims(k.mesh, k.data);
    auto num = [&](int i) { return (k.salt * 31 + i * 7) % 1009; };
    auto val = [&](int i) { return i == 2 ? -1e-300 : k.salt * 3.25 + i * 0.375 - 4; };
    for (int i = 0; i < k.n; ++i)
      ids.push_back(num(i));
    for (int s = 2; s <= 4; ++s)
      for (int i = 0; i < s * k.n; ++i)
        cells[s].push_back(num(i + s));
    for (int i = 0; i < k.n * dims; ++i)
      coords.push_back(val(i));
    for (int i = 0; i < k.n * comps; ++i)
      values.push_back(val(i + 5));
    for (int i = 0; i < k.n * comps * dims; ++i)
      gradients.push_back(val(i + 9));
    for (int i = 0; i < 2 * dims; ++i)
      box.push_back(val(i + 1));
    a = num(11), b = num(12), c = num(13), d = num(14);
  }
};
/// memory that ends with canaries
template <typename T>
struct Buffer {
  std::vector<T> v;
  size_t         n;
  static T       canary(size_t i) { return static_cast<T>(77000 + i); }
  explicit Buffer(size_t n)
      : v(n + 8), n(n)
  {
    for (size_t i = 0; i < v.size(); ++i)
      v[i] = canary(i);
  }
  explicit Buffer(const std::vector<T> &in)
      : Buffer(in.size()) { std::copy(in.begin(), in.end(), v.begin()); }
  T             *data() { return v.data(); }
  std::vector<T> out() const { return {v.begin(), v.begin() + n}; }
  bool           intact() const
  {
    for (size_t i = n; i < v.size(); ++i)
      if (v[i] != canary(i))
        return false;
    return true;
  }
};

const S CONFIG = "conf/a b.xml";
/// what the C++ interface does; exists: there is a participant
Result direct(const Call &k, bool &exists)
{
  Result r;
  Args   x(k);
  if (k.f == Create || k.f == CreateComm) {
    static int comm;
    try {
      model::create(k.mesh, k.data, k.salt, k.n, k.f == CreateComm ? &comm : nullptr);
      exists = true;
    } catch (const precice::Error &) {
      r.aborted = true;
    }
    return r;
  }
  if (!exists) {
    r.aborted = true;
    return r;
  }
  try {
    switch (k.f) {
    case Initialize:
      note("initialize");
      break;
    case Advance:
      note("advance", k.t);
      break;
    case Finalize:
      note("finalize");
      journal.lines.push_back("destroy");
      exists = false;
      break;
    case WritingCheckpoint:
    case ReadingCheckpoint:
    case Ongoing:
    case WindowComplete:
    case InitialData:
      r.ints = {model::flag(NAMES[k.f])};
      break;
    case MeshDimensions:
      r.ints = {model::getMeshDimensions(k.mesh)};
      break;
    case DataDimensions:
      r.ints = {model::getDataDimensions(k.mesh, k.data)};
      break;
    case MaxTimeStep:
      r.values = {model::getMaxTimeStepSize()};
      break;
    case Connectivity:
      r.ints = {model::requiresMeshConnectivityFor(k.mesh)};
      break;
    case NeedsGradient:
      r.ints = {model::requiresGradientDataFor(k.mesh, k.data)};
      break;
    case ResetMesh:
      note("resetMesh", k.mesh);
      break;
    case Vertex:
      r.ints = {model::setMeshVertex(k.mesh, VD(x.box.begin(), x.box.begin() + x.dims))};
      break;
    case VertexSize:
      r.ints = {model::getMeshVertexSize(k.mesh)};
      break;
    case Vertices:
      r.ints = model::setMeshVertices(k.mesh, x.coords, k.n);
      break;
    case Edge:
      note("setMeshEdge", k.mesh, x.a, x.b);
      break;
    case Triangle:
      note("setMeshTriangle", k.mesh, x.a, x.b, x.c);
      break;
    case Quad:
      note("setMeshQuad", k.mesh, x.a, x.b, x.c, x.d);
      break;
    case Tetrahedron:
      note("setMeshTetrahedron", k.mesh, x.a, x.b, x.c, x.d);
      break;
    case Edges:
      note("setMeshEdges", k.mesh, x.cells[2]);
      break;
    case Triangles:
      note("setMeshTriangles", k.mesh, x.cells[3]);
      break;
    case Quads:
      note("setMeshQuads", k.mesh, x.cells[4]);
      break;
    case Tetrahedra:
      note("setMeshTetrahedra", k.mesh, x.cells[4]);
      break;
    case Write:
      note("writeData", k.mesh, k.data, x.ids, x.values);
      break;
    case Read:
      r.values = model::readData(k.mesh, k.data, x.ids, k.t, x.values.size());
      break;
    case WriteAndMap:
      note("writeAndMapData", k.mesh, k.data, x.coords, x.values);
      break;
    case MapAndRead:
      r.values = model::mapAndReadData(k.mesh, k.data, x.coords, k.t, x.values.size());
      break;
    case AccessRegion:
      note("setMeshAccessRegion", k.mesh, x.box);
      break;
    case IdsAndCoordinates:
      model::getMeshVertexIDsAndCoordinates(k.mesh, k.n, static_cast<size_t>(k.n) * x.dims, r.ints, r.values);
      break;
    case WriteGradient:
      note("writeGradientData", k.mesh, k.data, x.ids, x.gradients);
      break;
    case StartSection:
      note("startProfilingSection", k.mesh);
      break;
    case StopSection:
      note("stopLastProfilingSection");
      break;
    default:;
    }
  } catch (const precice::Error &) {
    r.aborted = true;
  }
  return r;
}

struct Memory {
  bool bad = false;
  template <typename T>
  void operator()(const Buffer<T> &b) { bad = bad || !b.intact(); }
};

Result viaC(const Call &k, bool &overrun)
{
  Result      r;
  Args        x(k);
  Memory      mem;
  const char *m = k.mesh.c_str(), *d = k.data.c_str();
  Buffer<int>    ids(x.ids), newIds(k.n), c2(x.cells[2]), c3(x.cells[3]), c4(x.cells[4]);
  Buffer<double> co(x.coords), va(x.values), gr(x.gradients), box(x.box), out(x.values.size()), oco(x.coords.size());
  static int     comm;
  try {
    switch (k.f) {
    case Create:
      precicec_createParticipant(m, d, k.salt, k.n);
      break;
    case CreateComm:
      precicec_createParticipant_withCommunicator(m, d, k.salt, k.n, &comm);
      break;
    case Initialize:
      precicec_initialize();
      break;
    case Advance:
      precicec_advance(k.t);
      break;
    case Finalize:
      precicec_finalize();
      break;
    case WritingCheckpoint:
      r.ints = {precicec_requiresWritingCheckpoint()};
      break;
    case ReadingCheckpoint:
      r.ints = {precicec_requiresReadingCheckpoint()};
      break;
    case Ongoing:
      r.ints = {precicec_isCouplingOngoing()};
      break;
    case WindowComplete:
      r.ints = {precicec_isTimeWindowComplete()};
      break;
    case InitialData:
      r.ints = {precicec_requiresInitialData()};
      break;
    case MeshDimensions:
      r.ints = {precicec_getMeshDimensions(m)};
      break;
    case DataDimensions:
      r.ints = {precicec_getDataDimensions(m, d)};
      break;
    case MaxTimeStep:
      r.values = {precicec_getMaxTimeStepSize()};
      break;
    case Connectivity:
      r.ints = {precicec_requiresMeshConnectivityFor(m)};
      break;
    case NeedsGradient:
      r.ints = {precicec_requiresGradientDataFor(m, d)};
      break;
    case ResetMesh:
      precicec_resetMesh(m);
      break;
    case Vertex:
      r.ints = {precicec_setMeshVertex(m, box.data())};
      break;
    case VertexSize:
      r.ints = {precicec_getMeshVertexSize(m)};
      break;
    case Vertices:
      precicec_setMeshVertices(m, k.n, co.data(), newIds.data());
      r.ints = newIds.out();
      break;
    case Edge:
      precicec_setMeshEdge(m, x.a, x.b);
      break;
    case Triangle:
      precicec_setMeshTriangle(m, x.a, x.b, x.c);
      break;
    case Quad:
      precicec_setMeshQuad(m, x.a, x.b, x.c, x.d);
      break;
    case Tetrahedron:
      precicec_setMeshTetrahedron(m, x.a, x.b, x.c, x.d);
      break;
    case Edges:
      precicec_setMeshEdges(m, k.n, c2.data());
      break;
    case Triangles:
      precicec_setMeshTriangles(m, k.n, c3.data());
      break;
    case Quads:
      precicec_setMeshQuads(m, k.n, c4.data());
      break;
    case Tetrahedra:
      precicec_setMeshTetrahedra(m, k.n, c4.data());
      break;
    case Write:
      precicec_writeData(m, d, k.n, ids.data(), va.data());
      break;
    case Read:
      precicec_readData(m, d, k.n, ids.data(), k.t, out.data());
      r.values = out.out();
      break;
    case WriteAndMap:
      precicec_writeAndMapData(m, d, k.n, co.data(), va.data());
      break;
    case MapAndRead:
      precicec_mapAndReadData(m, d, k.n, co.data(), k.t, out.data());
      r.values = out.out();
      break;
    case AccessRegion:
      precicec_setMeshAccessRegion(m, box.data());
      break;
    case IdsAndCoordinates:
      precicec_getMeshVertexIDsAndCoordinates(m, k.n, newIds.data(), oco.data());
      r.ints   = newIds.out();
      r.values = oco.out();
      break;
    case WriteGradient:
      precicec_writeGradientData(m, d, k.n, ids.data(), gr.data());
      break;
    case StartSection:
      precicec_startProfilingSection(m);
      break;
    case StopSection:
      precicec_stopLastProfilingSection();
      break;
    default:;
    }
  } catch (const Aborted &) {
    r.aborted = true;
  }
  for (auto *b : {&ids, &newIds, &c2, &c3, &c4})
    mem(*b);
  for (auto *b : {&co, &va, &gr, &box, &out, &oco})
    mem(*b);
  overrun = mem.bad;
  return r;
}

/// a string as Fortran passes it, behind memory that nobody may read
struct FString {
  char *base;
  int   n;
  FString(const S &s, const S &pad)
      : n(static_cast<int>(s.size() + pad.size()))
  {
    base = static_cast<char *>(mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    mprotect(base, 4096, PROT_NONE);
    memset(p(), 'x', 4096);
    memcpy(p(), s.data(), s.size());
    memcpy(p() + s.size(), pad.data(), pad.size());
  }
  FString(const FString &) = delete;
  ~FString() { munmap(base, 8192); }
  char *p() { return base + 4096; }
};

/// returns false if there is no such function
bool viaFortran(const Call &k, Result &r, bool &overrun)
{
  Args           x(k);
  Memory         mem;
  FString        fm(k.mesh, k.pad), fd(k.data, k.pad);
  char          *m = fm.p(), *d = fd.p();
  int            ml = fm.n, dl = fd.n, n = k.n;
  Buffer<int>    ids(x.ids), newIds(k.n), c2(x.cells[2]), c3(x.cells[3]), c4(x.cells[4]), one(1);
  Buffer<double> co(x.coords), va(x.values), gr(x.gradients), box(x.box), out(x.values.size()), oco(x.coords.size()), oneD(1);
  int            comm = 0, salt = k.salt;
  double         t = k.t;
  bool           there = true;
  try {
    switch (k.f) {
    case Create:
      precicef_create_(m, d, &salt, &n, ml, dl);
      break;
    case CreateComm:
      precicef_create_with_communicator_(m, d, &salt, &n, &comm, ml, dl);
      break;
    case Initialize:
      precicef_initialize_();
      break;
    case Advance:
      precicef_advance_(&t);
      break;
    case Finalize:
      precicef_finalize_();
      break;
    case WritingCheckpoint:
      precicef_requires_writing_checkpoint_(one.data());
      r.ints = one.out();
      break;
    case ReadingCheckpoint:
      precicef_requires_reading_checkpoint_(one.data());
      r.ints = one.out();
      break;
    case Ongoing:
      precicef_is_coupling_ongoing_(one.data());
      r.ints = one.out();
      break;
    case WindowComplete:
      precicef_is_time_window_complete_(one.data());
      r.ints = one.out();
      break;
    case InitialData:
      precicef_requires_initial_data_(one.data());
      r.ints = one.out();
      break;
    case MeshDimensions:
      precicef_get_mesh_dimensions_(m, one.data(), ml);
      r.ints = one.out();
      break;
    case DataDimensions:
      precicef_get_data_dimensions_(m, d, one.data(), ml, dl);
      r.ints = one.out();
      break;
    case MaxTimeStep:
      precicef_get_max_time_step_size_(oneD.data());
      r.values = oneD.out();
      break;
    case Connectivity:
      precicef_requires_mesh_connectivity_for_(m, one.data(), ml);
      r.ints = one.out();
      break;
    case NeedsGradient:
      precicef_requires_gradient_data_for_(m, d, one.data(), ml, dl);
      r.ints = one.out();
      break;
    case ResetMesh:
      precicef_reset_mesh_(m, ml);
      break;
    case Vertex:
      if (k.old && !(there = precicef_set_vertex_))
        break;
      (k.old ? precicef_set_vertex_ : precicef_set_mesh_vertex_)(m, box.data(), one.data(), ml);
      r.ints = one.out();
      break;
    case VertexSize:
      precicef_get_mesh_vertex_size_(m, one.data(), ml);
      r.ints = one.out();
      break;
    case Vertices:
      if (k.old && !(there = precicef_set_vertices_))
        break;
      (k.old ? precicef_set_vertices_ : precicef_set_mesh_vertices_)(m, &n, co.data(), newIds.data(), ml);
      r.ints = newIds.out();
      break;
    case Edge:
      if (k.old && !(there = precicef_set_edge_))
        break;
      (k.old ? precicef_set_edge_ : precicef_set_mesh_edge_)(m, &x.a, &x.b, ml);
      break;
    case Triangle:
      if (k.old && !(there = precicef_set_triangle_))
        break;
      (k.old ? precicef_set_triangle_ : precicef_set_mesh_triangle_)(m, &x.a, &x.b, &x.c, ml);
      break;
    case Quad:
      if (k.old && !(there = precicef_set_quad_))
        break;
      (k.old ? precicef_set_quad_ : precicef_set_mesh_quad_)(m, &x.a, &x.b, &x.c, &x.d, ml);
      break;
    case Tetrahedron:
      if (k.old && !(there = precicef_set_tetrahedron_))
        break;
      (k.old ? precicef_set_tetrahedron_ : precicef_set_mesh_tetrahedron_)(m, &x.a, &x.b, &x.c, &x.d, ml);
      break;
    case Edges:
      precicef_set_mesh_edges_(m, &n, c2.data(), ml);
      break;
    case Triangles:
      precicef_set_mesh_triangles_(m, &n, c3.data(), ml);
      break;
    case Quads:
      precicef_set_mesh_quads_(m, &n, c4.data(), ml);
      break;
    case Tetrahedra:
      precicef_set_mesh_tetrahedra_(m, &n, c4.data(), ml);
      break;
    case Write:
      precicef_write_data_(m, d, &n, ids.data(), va.data(), ml, dl);
      break;
    case Read:
      precicef_read_data_(m, d, &n, ids.data(), &t, out.data(), ml, dl);
      r.values = out.out();
      break;
    case WriteAndMap:
      precicef_write_and_map_data_(m, d, &n, co.data(), va.data(), ml, dl);
      break;
    case MapAndRead:
      precicef_map_and_read_data_(m, d, &n, co.data(), &t, out.data(), ml, dl);
      r.values = out.out();
      break;
    case AccessRegion:
      precicef_set_mesh_access_region_(m, box.data(), ml);
      break;
    case IdsAndCoordinates:
      precicef_get_mesh_vertex_ids_and_coordinates_(m, &n, newIds.data(), oco.data(), ml);
      r.ints   = newIds.out();
      r.values = oco.out();
      break;
    case WriteGradient:
      precicef_write_gradient_data_(m, d, &n, ids.data(), gr.data(), ml, dl);
      break;
    case StartSection:
      precicef_start_profiling_section_(m, ml);
      break;
    case StopSection:
      precicef_stop_last_profiling_section_();
      break;
    default:;
    }
  } catch (const Aborted &) {
    r.aborted = true;
  }
  for (auto *b : {&ids, &newIds, &c2, &c3, &c4, &one})
    mem(*b);
  for (auto *b : {&co, &va, &gr, &box, &out, &oco, &oneD})
    mem(*b);
  overrun = mem.bad;
  return there;
}

S show(const Call &k)
{
  S s = NAMES[k.f];
  return s + (k.old ? " (deprecated name)" : "") + " " + str(k.mesh) + " " + str(k.data) + " n=" + str(k.n) + " t=" + str(k.t) + " padded by " + str(static_cast<int>(k.pad.size()));
}

/// executes the calls with the model and with a binding
void compare(CaseCtx &ctx, const std::vector<Call> &calls, bool fortran, bool flags, const S &fail)
{
  truth       = flags;
  S      lang = fortran ? "Fortran" : "C";
  bool   exists = false;
  struct Cleanup {
    bool fortran;
    ~Cleanup()
    {
      journal.fail.clear();
      try {
        fortran ? precicef_finalize_() : precicec_finalize();
      } catch (const Aborted &) {
      }
    }
  } cleanup{fortran};
  for (size_t i = 0; i < calls.size(); ++i) {
    auto &k = calls[i];
    // the C binding refuses a second participant
    journal.lines.clear();
    journal.fail = i + 1 == calls.size() ? fail : S();
    bool   had   = exists;
    Result want;
    if (!fortran && exists && (k.f == Create || k.f == CreateComm))
      want.aborted = true;
    else
      want = direct(k, exists);
    auto lines = journal.lines;
    journal.lines.clear();
    Result got;
    bool   overrun = false, there = true;
    if (fortran)
      there = viaFortran(k, got, overrun);
    else
      got = viaC(k, overrun);
    if (fortran && k.f == CreateComm) // the binding is compiled without MPI
      for (auto &l : lines)
        if (auto p = l.find(" 'communicator'"); p != S::npos)
          l.replace(p, S::npos, " ''");
    ctx.count("calls");
    S what = lang + " binding: " + NAMES[k.f] + (had ? "" : " without a participant");
    if (!there) {
      ctx.fail(what + ": the deprecated name does not exist", show(k));
      return;
    }
    if (overrun)
      ctx.fail(what + ": wrote outside of its arguments", show(k));
    if (!(got == want))
      ctx.fail(what + ": results differ", show(k) + ": " + show(got) + ", C++: " + show(want));
    if (journal.lines != lines) {
      S a, b;
      for (auto &l : journal.lines)
        a += l + "; ";
      for (auto &l : lines)
        b += l + "; ";
      ctx.fail(what + ": other calls of the participant", show(k) + ": " + a + " C++: " + b);
    }
    ctx.outcome(mix(hashOf(show(got)), hashOf(show(k))));
    if (want.aborted || got.aborted)
      return; // the process has ended
  }
}
} // namespace

int main(int argc, char **argv)
{
  Campaign c("C26", argc, argv);
  c.rule                      = "a case is a sequence of calls through a binding; distinct are the results";
  const std::vector<S> MESHES = {"M2", "M3", "", " M", "Mesh with inner  blanks", "M3-x"};
  const std::vector<S> DATA   = {"S", "V", "", "V a"};
  const std::vector<S> PADS   = {"", " ", "    ", S(1, '\0'), S(" \0 ", 3)};
  const std::vector<VD> TIMES = {{0, 0.5, 1e-14}};
  // every function once, in every state of the binding
  auto single = [=](uint64_t i, bool &fortran, bool &exists, bool &flags, bool &fail) {
    Digits d(i);
    Call   k;
    k.f     = static_cast<Function>(d(FUNCTIONS));
    k.mesh  = d.pick(MESHES);
    k.data  = d.pick(DATA);
    k.n     = d(4);
    k.t     = TIMES[0][k.n % 3];
    k.salt  = 3 + static_cast<int>(i % 17);
    int lang = d(1 + 2 * PADS.size());
    fortran  = lang > 0;
    if (fortran) {
      k.pad = PADS[(lang - 1) / 2];
      k.old = (lang - 1) % 2;
    }
    exists = d(3) > 0 && !(fortran && k.f <= CreateComm); // see below
    flags  = d(2);
    fail   = d(2);
    return k;
  };
  c.stage("calls", uint64_t(FUNCTIONS) * MESHES.size() * DATA.size() * 4 * (1 + 2 * PADS.size()) * 3 * 2 * 2,
          [=](uint64_t i) {
            bool fortran, exists, flags, fail;
            auto k = single(i, fortran, exists, flags, fail);
            return S(fortran ? "Fortran " : "C ") + show(k) + (exists ? "" : " without a participant") + (fail ? " refused" : "");
          },
          [=](CaseCtx &ctx, uint64_t i) {
            bool              fortran, exists, flags, fail;
            auto              k = single(i, fortran, exists, flags, fail);
            std::vector<Call> calls;
            if (exists) {
              Call first;
              first.mesh = "A", first.data = CONFIG, first.n = 1;
              calls.push_back(first);
            }
            calls.push_back(k);
            static const char *RECORDED[] = {"create", "create"};
            compare(ctx, calls, fortran, flags, fail ? S(k.f <= CreateComm ? RECORDED[k.f] : NAMES[k.f]) : S());
          });
  // sequences: a participant is created, used, finalized and created again
  const std::vector<Function> ALPHABET = {Create, Initialize, Advance, Finalize, Ongoing, MaxTimeStep, Write, Read, Vertices, AccessRegion, IdsAndCoordinates, StartSection, StopSection};
  const int                   depth    = c.thorough() ? 6 : 4;
  uint64_t                    total    = 2;
  for (int i = 0; i < depth; ++i)
    total *= ALPHABET.size();
  auto sequence = [=](uint64_t i, bool &fortran) {
    Digits d(i);
    fortran = d(2);
    std::vector<Call> calls;
    for (int s = 0; s < depth; ++s) {
      Call k;
      k.f    = d.pick(ALPHABET);
      k.mesh = s % 2 ? "M3" : "M2";
      k.data = s % 3 ? "V" : "S";
      k.n    = 1 + s % 3;
      k.t    = 0.25 * s;
      k.salt = s;
      if (fortran)
        k.pad = PADS[s % PADS.size()];
      // what a second participant does to the first one is not settled for Fortran
      if (fortran && k.f == Create) {
        bool open = false;
        for (auto &p : calls)
          open = p.f == Create || (open && p.f != Finalize);
        if (open)
          break;
      }
      calls.push_back(k);
    }
    return calls;
  };
  c.stage("sequences", total,
          [=](uint64_t i) {
            bool fortran;
            auto s = sequence(i, fortran);
            S    o = fortran ? "Fortran:" : "C:";
            for (auto &k : s)
              o += S(" ") + NAMES[k.f];
            return o;
          },
          [=](CaseCtx &ctx, uint64_t i) {
            bool fortran;
            auto s = sequence(i, fortran);
            compare(ctx, s, fortran, i % 2, "");
          });
  return c.finish();
}
