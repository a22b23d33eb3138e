From c61c1674ddf44f161a6fa8488916df4587f40d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 01/64] fix: receive data of a time window truncated by
 max-time at its actual end

In serial coupling without substeps, the second participant stored the data
received for a final window cut by max-time at the end of the full window.
Reading with waveform interpolation then returned wrong values and implicit
coupling aborted as the samples were no longer ordered in time.
---
 src/cplscheme/BaseCouplingScheme.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cplscheme/BaseCouplingScheme.cpp b/src/cplscheme/BaseCouplingScheme.cpp
index 5ea18b9..0f21bc2 100644
--- a/src/cplscheme/BaseCouplingScheme.cpp
+++ b/src/cplscheme/BaseCouplingScheme.cpp
@@ -209,7 +209,8 @@ void BaseCouplingScheme::receiveDataForWindowEnd(const m2n::PtrM2N &m2n, const D
   // buffer current time
   const impl::TimeHandler oldTime = _time;
   // set _time state to point to end of this window such that _time in receiveData is at end of window
-  _time.progressBy(_nextTimeWindowSize);
+  // The final time window may be truncated by max-time
+  _time.progressBy(std::min(_nextTimeWindowSize, _time.untilEnd()));
   // receive data for end of window
   this->receiveData(m2n, receiveData);
   // reset time state;
-- 
2.43.0


From 86e7b481214dab7044ef6b0c596f97de9e7cdd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:26 +0000
Subject: [PATCH 02/64] fix: decide by state if the implicit scheme of a
 composition is still iterating

The times of the implicit and the explicit schemes accumulate different rounding errors,
so comparing them could leave the explicit schemes on hold or in the previous time window.
---
 src/cplscheme/CompositionalCouplingScheme.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cplscheme/CompositionalCouplingScheme.cpp b/src/cplscheme/CompositionalCouplingScheme.cpp
index e7da458..7c1d974 100644
--- a/src/cplscheme/CompositionalCouplingScheme.cpp
+++ b/src/cplscheme/CompositionalCouplingScheme.cpp
@@ -203,9 +203,8 @@ void CompositionalCouplingScheme::secondExchange()
   // First complete the time window of the implicit scheme to determine if the scheme has converged
   _implicitScheme->secondExchange();
 
-  double implicitTime = _implicitScheme->getTime();
-  double explicitTime = _explicitSchemes.front()->getTime();
-  bool   iterating    = implicitTime < explicitTime; // TODO numeric check?
+  // Comparing the times of the schemes is not reliable here as they accumulate different rounding errors
+  bool iterating = _explicitOnHold && !_implicitScheme->hasConverged();
 
   if (iterating) {
     PRECICE_DEBUG("Implicit scheme hasn't converged. Explicit schemes remain on hold.");
-- 
2.43.0


From 8f933a7aba5a11ae1ad8bca400951a3f56c8a09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 03/64] fix: zero the received values of ranks without any
 connected remote rank

Such ranks returned early from receive() and left the values uninitialized.
---
 src/m2n/PointToPointCommunication.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/m2n/PointToPointCommunication.cpp b/src/m2n/PointToPointCommunication.cpp
index cd3392c..ea96625 100644
--- a/src/m2n/PointToPointCommunication.cpp
+++ b/src/m2n/PointToPointCommunication.cpp
@@ -630,12 +630,13 @@ void PointToPointCommunication::send(precice::span<double const> itemsToSend, in
 
 void PointToPointCommunication::receive(precice::span<double> itemsToReceive, int valueDimension)
 {
+  // Vertices not contained in any mapping receive zero
+  std::fill(itemsToReceive.begin(), itemsToReceive.end(), 0.0);
+
   if (_mappings.empty() || itemsToReceive.empty()) {
     return;
   }
 
-  std::fill(itemsToReceive.begin(), itemsToReceive.end(), 0.0);
-
   for (auto &mapping : _mappings) {
     mapping.recvBuffer.resize(mapping.indices.size() * valueDimension);
     mapping.request = _communication->aReceive(span<double>{mapping.recvBuffer}, mapping.remoteRank);
-- 
2.43.0


From b10ced6a96aa8d0de52e189a83aedb32193f5670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:41 +0000
Subject: [PATCH 04/64] fix: check the state in advance() before using the
 solver event

advance() before initialize() or after finalize() dereferenced a null pointer instead of reporting the error.
---
 src/precice/impl/ParticipantImpl.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/precice/impl/ParticipantImpl.cpp b/src/precice/impl/ParticipantImpl.cpp
index f57d477..060dabe 100644
--- a/src/precice/impl/ParticipantImpl.cpp
+++ b/src/precice/impl/ParticipantImpl.cpp
@@ -395,15 +395,6 @@ void ParticipantImpl::advance(
 
   PRECICE_TRACE(computedTimeStepSize);
 
-  // Enforce that all user-created events are stopped to prevent incorrect nesting.
-  PRECICE_CHECK(_userEvents.empty(), "There are unstopped user defined events. Please stop them using stopLastProfilingSection() before calling advance().");
-
-  // Events for the solver time, stopped when we enter, restarted when we leave advance
-  PRECICE_ASSERT(_solverAdvanceEvent, "The advance event is created in initialize");
-  _solverAdvanceEvent->stop();
-
-  Event e("advance", profiling::Fundamental, profiling::Synchronize);
-
   PRECICE_CHECK(_state != State::Constructed, "initialize() has to be called before advance().");
   PRECICE_CHECK(_state != State::Finalized, "advance() cannot be called after finalize().");
   PRECICE_CHECK(_state == State::Initialized, "initialize() has to be called before advance().");
@@ -415,6 +406,15 @@ void ParticipantImpl::advance(
   PRECICE_CHECK(!math::equals(computedTimeStepSize, 0.0), "advance() cannot be called with a time step size of 0.");
   PRECICE_CHECK(computedTimeStepSize > 0.0, "advance() cannot be called with a negative time step size {}.", computedTimeStepSize);
 
+  // Enforce that all user-created events are stopped to prevent incorrect nesting.
+  PRECICE_CHECK(_userEvents.empty(), "There are unstopped user defined events. Please stop them using stopLastProfilingSection() before calling advance().");
+
+  // Events for the solver time, stopped when we enter, restarted when we leave advance
+  PRECICE_ASSERT(_solverAdvanceEvent, "The advance event is created in initialize");
+  _solverAdvanceEvent->stop();
+
+  Event e("advance", profiling::Fundamental, profiling::Synchronize);
+
   _numberAdvanceCalls++;
 
 #ifndef NDEBUG
-- 
2.43.0


From e9c2685632ed71c2a127df549cdf03b49393009b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 05/64] fix: look for data in the given mesh only when
 validating data names

getDataDimensions() and requiresGradientDataFor() accepted the data of any other mesh and then dereferenced an end iterator. Unknown meshes and meshes without data crashed when composing the error message.
---
 src/precice/impl/ParticipantImpl.cpp  | 1 +
 src/precice/impl/ParticipantState.cpp | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/precice/impl/ParticipantImpl.cpp b/src/precice/impl/ParticipantImpl.cpp
index 060dabe..e942adb 100644
--- a/src/precice/impl/ParticipantImpl.cpp
+++ b/src/precice/impl/ParticipantImpl.cpp
@@ -727,6 +727,7 @@ bool ParticipantImpl::requiresMeshConnectivityFor(std::string_view meshName) con
 bool ParticipantImpl::requiresGradientDataFor(std::string_view meshName,
                                               std::string_view dataName) const
 {
+  PRECICE_VALIDATE_MESH_NAME(meshName);
   PRECICE_VALIDATE_DATA_NAME(meshName, dataName);
   // Read data never requires gradients
   if (!_accessor->isDataWrite(meshName, dataName))
diff --git a/src/precice/impl/ParticipantState.cpp b/src/precice/impl/ParticipantState.cpp
index 75d3862..5f4374a 100644
--- a/src/precice/impl/ParticipantState.cpp
+++ b/src/precice/impl/ParticipantState.cpp
@@ -169,7 +169,10 @@ bool ParticipantState::hasData(std::string_view mesh, std::string_view data) con
 {
   return std::any_of(
       _meshContexts.begin(), _meshContexts.end(),
-      [data](const auto &mckv) {
+      [mesh, data](const auto &mckv) {
+        if (mckv.first != mesh) {
+          return false;
+        }
         const auto &meshData = mckv.second->mesh->data();
         return std::any_of(meshData.begin(), meshData.end(), [data](const auto &dptr) {
           return dptr->getName() == data;
@@ -484,6 +487,10 @@ std::string ParticipantState::hintForMeshData(std::string_view mesh, std::string
   // Is there other data in the given mesh?
   auto localData = meshContext(mesh).mesh->availableData();
 
+  if (localData.empty()) {
+    return " This mesh has no data.";
+  }
+
   if (localData.size() == 1) {
     return " This mesh only knows data \"" + localData.front() + "\".";
   }
-- 
2.43.0


From 03faa1ffd54811df9b0831d5addf54cbcff21d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 06/64] fix: refuse calls concerning meshes after finalize()
 with an error

They dereferenced the already released state of the participant.
---
 src/precice/impl/ValidationMacros.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/precice/impl/ValidationMacros.hpp b/src/precice/impl/ValidationMacros.hpp
index 5228d9e..ba3f997 100644
--- a/src/precice/impl/ValidationMacros.hpp
+++ b/src/precice/impl/ValidationMacros.hpp
@@ -16,6 +16,9 @@
  */
 #include "utils/stacktrace.hpp"
 #define PRECICE_VALIDATE_MESH_NAME_IMPL(name)                     \
+  PRECICE_CHECK(_state != State::Finalized,                       \
+                "{}() cannot be called after finalize().",        \
+                __func__);                                        \
   PRECICE_CHECK(_accessor->hasMesh(name),                         \
                 "The mesh named \"{}\" is unknown to preCICE.{}", \
                 name, _accessor->hintForMesh(name));
-- 
2.43.0


From a2970c57a50682e7f96ff64d01c028a11d3becb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:07 +0000
Subject: [PATCH 07/64] fix: report empty provided meshes of serial
 participants with the intended error

The assertion on the vertex distribution failed before the check was reached.
---
 src/partition/ProvidedPartition.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/partition/ProvidedPartition.cpp b/src/partition/ProvidedPartition.cpp
index d48b881..333fd5b 100644
--- a/src/partition/ProvidedPartition.cpp
+++ b/src/partition/ProvidedPartition.cpp
@@ -209,8 +209,9 @@ void ProvidedPartition::prepare()
     // The only rank of the participant contains all vertices
     _mesh->setVertexDistribution([&] {
       mesh::Mesh::VertexDistribution vertexDistribution;
+      auto                          &localIds = vertexDistribution[0];
       for (int i = 0; i < numberOfVertices; i++) {
-        vertexDistribution[0].push_back(i);
+        localIds.push_back(i);
         _mesh->vertex(i).setGlobalIndex(i);
       }
       return vertexDistribution;
@@ -225,7 +226,9 @@ void ProvidedPartition::prepare()
     v.setOwner(true);
   }
 
-  PRECICE_ASSERT(_mesh->getGlobalNumberOfVertices() > 0);
+  PRECICE_CHECK(_m2ns.empty() || _mesh->getGlobalNumberOfVertices() > 0,
+                "The provided mesh \"{}\" is empty. Please set the mesh using setMeshVertex()/setMeshVertices() prior to calling initialize().",
+                _mesh->getName());
   PRECICE_ASSERT(!_mesh->getVertexOffsets().empty());
 }
 
-- 
2.43.0


From 1bb55ac3014b357d5c31aae61463f04185e612d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:07 +0000
Subject: [PATCH 08/64] fix: respect the order of the 1D vertices in radial
 geometric multiscale mappings

---
 src/mapping/RadialGeoMultiscaleMapping.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mapping/RadialGeoMultiscaleMapping.cpp b/src/mapping/RadialGeoMultiscaleMapping.cpp
index 30a18ee..099922d 100644
--- a/src/mapping/RadialGeoMultiscaleMapping.cpp
+++ b/src/mapping/RadialGeoMultiscaleMapping.cpp
@@ -50,7 +50,7 @@ void RadialGeoMultiscaleMapping::computeMapping()
       // Compute the midpoints of the 1D input mesh
       for (size_t i = 0; i < (inSize - 1); i++) {
         auto axisPositionCurrent = inputVerticesRef[ordered_vertex_indices[i]].coord(effectiveCoordinate);
-        auto axisPositionNext    = inputVerticesRef[ordered_vertex_indices[i] + 1].coord(effectiveCoordinate);
+        auto axisPositionNext    = inputVerticesRef[ordered_vertex_indices[i + 1]].coord(effectiveCoordinate);
         axisMidpoints(i)         = (axisPositionCurrent + axisPositionNext) / 2;
       }
       axisMidpoints(inSize - 1) = std::numeric_limits<double>::max(); // large number, such that vertices after the last midpoint are still assigned
@@ -68,7 +68,7 @@ void RadialGeoMultiscaleMapping::computeMapping()
           PRECICE_ASSERT(index + 1 < inSize);
           ++index;
         }
-        _vertexIndicesSpread.push_back(index);
+        _vertexIndicesSpread.push_back(ordered_vertex_indices[index]);
       }
     } else {
       PRECICE_ASSERT(_type == MultiscaleType::COLLECT);
@@ -90,8 +90,8 @@ void RadialGeoMultiscaleMapping::computeMapping()
                        });
       // Compute the midpoints of the 1D output mesh
       for (size_t i = 0; i < (outSize - 1); i++) {
-        auto axisPositionCurrent = output()->vertex(i).coord(effectiveCoordinate);
-        auto axisPositionNext    = output()->vertex(i + 1).coord(effectiveCoordinate);
+        auto axisPositionCurrent = outputVerticesRef[ordered_vertex_indices[i]].coord(effectiveCoordinate);
+        auto axisPositionNext    = outputVerticesRef[ordered_vertex_indices[i + 1]].coord(effectiveCoordinate);
         axisMidpoints(i)         = (axisPositionCurrent + axisPositionNext) / 2;
       }
       axisMidpoints(outSize - 1) = std::numeric_limits<double>::max(); // large number, such that vertices after the last midpoint are still assigned
@@ -108,8 +108,8 @@ void RadialGeoMultiscaleMapping::computeMapping()
           PRECICE_ASSERT(index + 1 < outSize);
           ++index;
         }
-        _vertexIndicesCollect.push_back(index);
-        counters[index] += 1;
+        _vertexIndicesCollect.push_back(ordered_vertex_indices[index]);
+        counters[ordered_vertex_indices[index]] += 1;
       }
       _vertexCounter = std::move(counters);
     }
-- 
2.43.0


From c6d21bfac9177c80d736df7a3b7983c1b9306177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:07 +0000
Subject: [PATCH 09/64] fix: do not divide by zero in radial collect mappings
 without any vertex to collect from

---
 src/mapping/RadialGeoMultiscaleMapping.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mapping/RadialGeoMultiscaleMapping.cpp b/src/mapping/RadialGeoMultiscaleMapping.cpp
index 099922d..c626895 100644
--- a/src/mapping/RadialGeoMultiscaleMapping.cpp
+++ b/src/mapping/RadialGeoMultiscaleMapping.cpp
@@ -181,7 +181,9 @@ void RadialGeoMultiscaleMapping::mapConsistent(const time::Sample &inData, Eigen
       outputValues(_vertexIndicesCollect[i] * outDataDimensions) += inputValues(i * inDataDimensions);
     }
     for (size_t i = 0; i < outSize; i++) {
-      outputValues(i * outDataDimensions) = outputValues(i * outDataDimensions) / _vertexCounter[i];
+      if (_vertexCounter[i] > 0) { // there may be no 3D vertex in the vicinity
+        outputValues(i * outDataDimensions) = outputValues(i * outDataDimensions) / _vertexCounter[i];
+      }
     }
   }
 }
-- 
2.43.0


From a73a00e4eac4841f3b5a54b6bc876342c351ae15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:33 +0000
Subject: [PATCH 10/64] fix: compute distances for axial 1D-2D mappings with
 any cross section

---
 src/mapping/AxialGeoMultiscaleMapping.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mapping/AxialGeoMultiscaleMapping.cpp b/src/mapping/AxialGeoMultiscaleMapping.cpp
index c28b1ff..7e95703 100644
--- a/src/mapping/AxialGeoMultiscaleMapping.cpp
+++ b/src/mapping/AxialGeoMultiscaleMapping.cpp
@@ -59,7 +59,8 @@ void AxialGeoMultiscaleMapping::computeMapping()
         // compute distances between 1D vertex and 3D vertices
         mesh::Vertex    &v0                           = input()->vertex(0);
         constexpr double distance_to_radius_threshold = 1.05;
-        if (_crossSection == MultiscaleCrossSection::CIRCLE) {
+        // The cross section of a 2D domain is a line
+        if (_crossSection == MultiscaleCrossSection::CIRCLE || _dimension == MultiscaleDimension::D1D2) {
           _vertexDistances.clear();
           _vertexDistances.reserve(output()->nVertices());
 
-- 
2.43.0


From dd06b1fdd958fac719b300d38aacbfdd474e9d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:01 +0000
Subject: [PATCH 11/64] fix: look for the enclosing triangle among all
 triangles in linear cell interpolation

---
 src/query/Index.cpp | 18 +++++++++++++++---
 src/query/Index.hpp |  3 +++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/query/Index.cpp b/src/query/Index.cpp
index 5619f0c..d7ccc4d 100644
--- a/src/query/Index.cpp
+++ b/src/query/Index.cpp
@@ -262,6 +262,18 @@ std::vector<VertexID> Index::getVerticesInsideBox(const mesh::BoundingBox &bb)
   return matches;
 }
 
+std::vector<TriangleID> Index::getEnclosingTriangles(const Eigen::VectorXd &location)
+{
+  PRECICE_TRACE();
+  const auto &rtree = _pimpl->getTriangleRTree(*_mesh);
+
+  std::vector<TriangleID> matches;
+  rtree->query(bgi::covers(location), boost::make_function_output_iterator([&](TriangleTraits::IndexType const &match) {
+                 matches.emplace_back(match.second);
+               }));
+  return matches;
+}
+
 std::vector<TetrahedronID> Index::getEnclosingTetrahedra(const Eigen::VectorXd &location)
 {
   PRECICE_TRACE();
@@ -286,9 +298,9 @@ ProjectionMatch Index::findNearestProjection(const Eigen::VectorXd &location, in
 ProjectionMatch Index::findCellOrProjection(const Eigen::VectorXd &location, int n)
 {
   if (_mesh->getDimensions() == 2) {
-    auto matchedTriangles = getClosestTriangles(location, n);
-    for (const auto &match : matchedTriangles) {
-      auto polation = mapping::Polation(location, _mesh->triangles()[match.index]);
+    // Find correct triangle, or fall back to NP
+    for (const auto &match : getEnclosingTriangles(location)) {
+      auto polation = mapping::Polation(location, _mesh->triangles()[match]);
       if (polation.isInterpolation()) {
         return {std::move(polation)};
       }
diff --git a/src/query/Index.hpp b/src/query/Index.hpp
index 11c9169..26091f9 100644
--- a/src/query/Index.hpp
+++ b/src/query/Index.hpp
@@ -89,6 +89,9 @@ public:
   /// Returns
   bool isAnyVertexInsideBox(const mesh::Vertex &centerVertex, double radius);
 
+  /// Return all the triangles whose axis-aligned bounding box contains a vertex
+  std::vector<TriangleID> getEnclosingTriangles(const Eigen::VectorXd &location);
+
   /// Return all the tetrahedra whose axis-aligned bounding box contains a vertex
   std::vector<TetrahedronID> getEnclosingTetrahedra(const Eigen::VectorXd &location);
 
-- 
2.43.0


From f4e3b4fbb105bf67743808529d820e71802bc4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:20 +0000
Subject: [PATCH 12/64] fix: report meshes without any connected rank in
 two-level initialization with no-filter

---
 src/partition/ReceivedPartition.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/partition/ReceivedPartition.cpp b/src/partition/ReceivedPartition.cpp
index 4b2c750..d7b71b2 100644
--- a/src/partition/ReceivedPartition.cpp
+++ b/src/partition/ReceivedPartition.cpp
@@ -375,6 +375,10 @@ void ReceivedPartition::filterByBoundingBox()
       }
     } else {
       PRECICE_ASSERT(_geometricFilter == NO_FILTER);
+      // The two-level initialization only connects ranks with overlapping bounding boxes
+      if (m2n().usesTwoLevelInitialization() && isAnyProvidedMeshNonEmpty()) {
+        PRECICE_CHECK(not _mesh->empty(), errorMeshFilteredOut(_mesh->getName(), utils::IntraComm::getRank()));
+      }
     }
   }
 }
-- 
2.43.0


From 05c2c440f3ddcf5849a69c65a7fa0903418c2266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 13/64] fix: determine the separate polynomial of RBF mappings
 with few vertices

The singular values of a wide matrix don't reveal that the least-squares
polynomial is underdetermined, so that constant fields were not reproduced
and sums not preserved by clusters or meshes with fewer vertices than
polynomial parameters.
---
 src/mapping/RadialBasisFctSolver.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mapping/RadialBasisFctSolver.hpp b/src/mapping/RadialBasisFctSolver.hpp
index 30ee5c9..d9d8b5f 100644
--- a/src/mapping/RadialBasisFctSolver.hpp
+++ b/src/mapping/RadialBasisFctSolver.hpp
@@ -392,8 +392,11 @@ RadialBasisFctSolver<RADIAL_BASIS_FUNCTION_T>::RadialBasisFctSolver(RADIAL_BASIS
       const double conditionNumber = svd.singularValues()(0) / std::max(svd.singularValues()(svd.singularValues().size() - 1), math::NUMERICAL_ZERO_DIFFERENCE);
       PRECICE_DEBUG("Condition number: {}", conditionNumber);
 
+      // The singular values of a wide matrix don't reveal that there are too few vertices to determine the polynomial
+      const bool underdetermined = _matrixQ.rows() < _matrixQ.cols();
+
       // Disable one axis
-      if (conditionNumber > 1e5) {
+      if (underdetermined || conditionNumber > 1e5) {
         reduceActiveAxis(inputMesh, inputIDs, _localActiveAxis);
         polyParams = getNumberOfPolynomials();
       } else {
-- 
2.43.0


From 1eda043742b8697404d8e007e6a483b9799f253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 14/64] fix: unique owners of vertices with two-level
 initialization and no geometric filter

Without geometric filter, vertices may be held by ranks whose bounding boxes
don't contain them. All of these ranks owned such a vertex, which made the
system of a global RBF mapping singular.
---
 src/partition/ReceivedPartition.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/partition/ReceivedPartition.cpp b/src/partition/ReceivedPartition.cpp
index d7b71b2..28efe38 100644
--- a/src/partition/ReceivedPartition.cpp
+++ b/src/partition/ReceivedPartition.cpp
@@ -619,8 +619,10 @@ void ReceivedPartition::createOwnerInformation()
     // remove the own bb from the map since we compare the own bb only with other ranks bb.
     localBBMap.erase(utils::IntraComm::getRank());
     // find and store local connected ranks
+    // without geometric filter, all ranks may share vertices independent of their bounding boxes
+    const bool filtered = _geometricFilter != NO_FILTER;
     for (const auto &localBB : localBBMap) {
-      if (_bb.overlapping(localBB.second)) {
+      if (!filtered || _bb.overlapping(localBB.second)) {
         localConnectedBBMap.emplace(localBB.first, localBB.second);
       }
     }
@@ -644,7 +646,7 @@ void ReceivedPartition::createOwnerInformation()
       if (_mesh->vertex(i).isTagged()) {
         bool vertexIsShared = false;
         for (const auto &neighborRank : localConnectedBBMap) {
-          if (neighborRank.second.contains(_mesh->vertex(i))) {
+          if (!filtered || neighborRank.second.contains(_mesh->vertex(i))) {
             vertexIsShared = true;
             sharedVerticesSendMap[neighborRank.first].push_back(globalIDs[i]);
           }
-- 
2.43.0


From f311585aecbb0258699334bd5c980204ae6b829e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 15/64] fix: size of global RBF mappings if some vertices
 aren't owned by any rank

Vertices outside the support of all ranks are not part of the system, which
nevertheless was filled and read using the global number of vertices.
---
 src/mapping/RadialBasisFctMapping.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/mapping/RadialBasisFctMapping.hpp b/src/mapping/RadialBasisFctMapping.hpp
index d7595bb..eaf4aa9 100644
--- a/src/mapping/RadialBasisFctMapping.hpp
+++ b/src/mapping/RadialBasisFctMapping.hpp
@@ -66,6 +66,12 @@ private:
   /// @copydoc RadialBasisFctBaseMapping::mapConsistent
   void mapConsistent(const time::Sample &inData, Eigen::VectorXd &outData) final override;
 
+  /// Number of vertices the interpolant is built on. In parallel, not every vertex of the mesh has to be owned by a rank.
+  Eigen::Index getNumberOfOwnedVertices() const
+  {
+    return _rbfSolver->getInputSize() - (_polynomial == Polynomial::ON ? this->getPolynomialParameters() : 0);
+  }
+
   /// Treatment of the polynomial
   Polynomial _polynomial;
 
@@ -261,9 +267,9 @@ void RadialBasisFctMapping<SOLVER_T, Args...>::mapConservative(const time::Sampl
     Eigen::MatrixXd in = MapToMatrix(globalInValues.data(), _rbfSolver->getOutputSize(), valueDim, Eigen::OuterStride(valueDim));
 
     // copy all output values without polynomial entries from col-major to row-major format
-    RowMatrixXd out = _rbfSolver->solveConservative(in, _polynomial).block(0, 0, this->output()->getGlobalNumberOfVertices(), valueDim);
+    RowMatrixXd out = _rbfSolver->solveConservative(in, _polynomial).block(0, 0, getNumberOfOwnedVertices(), valueDim);
 
-    Eigen::Map<Eigen::VectorXd> outputValues(out.data(), (this->output()->getGlobalNumberOfVertices()) * valueDim);
+    Eigen::Map<Eigen::VectorXd> outputValues(out.data(), out.size());
 
     // Data scattering to secondary ranks
     if (utils::IntraComm::isPrimary()) {
@@ -364,7 +370,8 @@ void RadialBasisFctMapping<SOLVER_T, Args...>::mapConsistent(const time::Sample
     // input matrix with polynomial entries that remain zero
     Eigen::MatrixXd in = Eigen::MatrixXd::Zero(_rbfSolver->getInputSize(), valueDim);
 
-    in.block(0, 0, this->input()->getGlobalNumberOfVertices(), valueDim) = MapToMatrix(globalInValues.data(), this->input()->getGlobalNumberOfVertices(), valueDim, Eigen::OuterStride(valueDim));
+    const auto ownedVertices                 = getNumberOfOwnedVertices();
+    in.block(0, 0, ownedVertices, valueDim) = MapToMatrix(globalInValues.data(), ownedVertices, valueDim, Eigen::OuterStride(valueDim));
 
     // copy all output values from col-major to row-major format
     RowMatrixXd out = _rbfSolver->solveConsistent(in, _polynomial);
-- 
2.43.0


From dad768878f56275c6a80bb83323daca74acaaf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 16/64] fix: determine the clusters of a vertex consistently in
 rbf-pum-direct mappings

---
 src/mapping/PartitionOfUnityMapping.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mapping/PartitionOfUnityMapping.hpp b/src/mapping/PartitionOfUnityMapping.hpp
index ccb536c..daf72cd 100644
--- a/src/mapping/PartitionOfUnityMapping.hpp
+++ b/src/mapping/PartitionOfUnityMapping.hpp
@@ -303,7 +303,8 @@ std::pair<std::vector<int>, std::vector<double>> PartitionOfUnityMapping<RADIAL_
   // Note: this could also be done on-the-fly in the map data phase for dynamic queries, which would require to make the mesh as well as the indexTree member variables.
 
   // Step 2a: get the relevant clusters for the output vertex
-  auto       clusterIDs            = clusterIndex.getVerticesInsideBox(vertex, _clusterRadius);
+  // Use the same safety margin as the clusters: vertices at the edge of a cluster don't belong to it
+  auto       clusterIDs            = clusterIndex.getVerticesInsideBox(vertex, _clusterRadius - math::NUMERICAL_ZERO_DIFFERENCE);
   const auto localNumberOfClusters = clusterIDs.size();
 
   // Consider the case where we didn't find any cluster (meshes don't match very well)
-- 
2.43.0


From 1906aa3a8fa3aa56f1c05f7bf350cbbdb575a929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 17/64] fix: aitken acceleration with a preconditioner aborted
 while reading the configuration

---
 src/acceleration/config/AccelerationConfiguration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acceleration/config/AccelerationConfiguration.cpp b/src/acceleration/config/AccelerationConfiguration.cpp
index 0bda69a..cdf8bf2 100644
--- a/src/acceleration/config/AccelerationConfiguration.cpp
+++ b/src/acceleration/config/AccelerationConfiguration.cpp
@@ -252,7 +252,7 @@ void AccelerationConfiguration::xmlTagCallback(
   } else if (callingTag.getName() == TAG_PRECONDITIONER) {
     _userDefinitions.definedPreconditionerType = true;
     _config.preconditionerType                 = callingTag.getStringAttributeValue(ATTR_TYPE);
-    _config.preconditionerUpdateOnThreshold    = callingTag.getBooleanAttributeValue(ATTR_PRECOND_UPDATE_ON_THRESHOLD);
+    _config.preconditionerUpdateOnThreshold    = callingTag.getBooleanAttributeValue(ATTR_PRECOND_UPDATE_ON_THRESHOLD, _defaultValuesIQNILS.preconditionerUpdateOnThreshold);
     _config.preconditionerNbNonConstTWindows   = callingTag.getIntAttributeValue(ATTR_PRECOND_NONCONST_TIME_WINDOWS);
   } else if (callingTag.getName() == TAG_IMVJRESTART) {
     _userDefinitions.defineRestartType = true;
-- 
2.43.0


From b6b8c0127c4090405f2422f05c8c7b80feba8e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:05 +0000
Subject: [PATCH 18/64] fix: scaling of data in an aitken acceleration with
 constant preconditioner was ignored

---
 src/acceleration/config/AccelerationConfiguration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acceleration/config/AccelerationConfiguration.cpp b/src/acceleration/config/AccelerationConfiguration.cpp
index cdf8bf2..12f57ae 100644
--- a/src/acceleration/config/AccelerationConfiguration.cpp
+++ b/src/acceleration/config/AccelerationConfiguration.cpp
@@ -205,7 +205,7 @@ void AccelerationConfiguration::xmlTagCallback(
     _meshName      = callingTag.getStringAttributeValue(ATTR_MESH);
     double scaling = 1.0;
 
-    if (_config.type == VALUE_IQNILS || _config.type == VALUE_IQNIMVJ) {
+    if (_config.type == VALUE_AITKEN || _config.type == VALUE_IQNILS || _config.type == VALUE_IQNIMVJ) {
       scaling = callingTag.getDoubleAttributeValue(ATTR_SCALING);
     }
 
-- 
2.43.0


From 12e23ca5777874c2e14af8bc3ec7e6cdd468b36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 19/64] fix: aitken acceleration turned data into NaN if the
 residual of two iterations was the same

---
 src/acceleration/AitkenAcceleration.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/acceleration/AitkenAcceleration.cpp b/src/acceleration/AitkenAcceleration.cpp
index d45ca52..c07c43a 100644
--- a/src/acceleration/AitkenAcceleration.cpp
+++ b/src/acceleration/AitkenAcceleration.cpp
@@ -95,7 +95,10 @@ void AitkenAcceleration::performAcceleration(
     // compute fraction of aitken factor with residuals and residual deltas
     double nominator   = utils::IntraComm::dot(_oldResiduals, residualDeltas);
     double denominator = utils::IntraComm::dot(residualDeltas, residualDeltas);
-    _aitkenFactor      = -_aitkenFactor * (nominator / denominator);
+    // Identical residuals carry no information, in which case we keep the current factor
+    if (denominator > 0.0) {
+      _aitkenFactor = -_aitkenFactor * (nominator / denominator);
+    }
   }
 
   PRECICE_DEBUG("AitkenFactor: {}", _aitkenFactor);
-- 
2.43.0


From 03fab91d93b0f4e9cd05d5658a3a76c50b9d4524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 20/64] fix: quasi-Newton acceleration aborted if the filter
 removed the newest or all columns

---
 src/acceleration/BaseQNAcceleration.cpp   | 5 +++--
 src/acceleration/IQNILSAcceleration.cpp   | 2 +-
 src/acceleration/impl/QRFactorization.cpp | 4 ++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/acceleration/BaseQNAcceleration.cpp b/src/acceleration/BaseQNAcceleration.cpp
index 59ce142..d3148d4 100644
--- a/src/acceleration/BaseQNAcceleration.cpp
+++ b/src/acceleration/BaseQNAcceleration.cpp
@@ -725,7 +725,7 @@ void BaseQNAcceleration::removeMatrixColumn(
 
   _nbDelCols++;
 
-  PRECICE_ASSERT(_matrixV.cols() > 1);
+  PRECICE_ASSERT(columnIndex >= 0 && columnIndex < _matrixV.cols(), columnIndex, _matrixV.cols());
   utils::removeColumnFromMatrix(_matrixV, columnIndex);
   utils::removeColumnFromMatrix(_matrixW, columnIndex);
 
@@ -737,7 +737,8 @@ void BaseQNAcceleration::removeMatrixColumn(
     if (cols > columnIndex) {
       PRECICE_ASSERT(*iter > 0);
       *iter -= 1;
-      if (*iter == 0) {
+      // always keep the counter of the current time window as further columns may be added to it
+      if (*iter == 0 && iter != _matrixCols.begin()) {
         _matrixCols.erase(iter);
       }
       break;
diff --git a/src/acceleration/IQNILSAcceleration.cpp b/src/acceleration/IQNILSAcceleration.cpp
index a10116e..e828220 100644
--- a/src/acceleration/IQNILSAcceleration.cpp
+++ b/src/acceleration/IQNILSAcceleration.cpp
@@ -131,7 +131,7 @@ void IQNILSAcceleration::specializedIterationsConverged(
 void IQNILSAcceleration::removeMatrixColumn(
     int columnIndex)
 {
-  PRECICE_ASSERT(_matrixV.cols() > 1);
+  PRECICE_ASSERT(columnIndex >= 0 && columnIndex < _matrixV.cols(), columnIndex, _matrixV.cols());
   BaseQNAcceleration::removeMatrixColumn(columnIndex);
 }
 } // namespace precice::acceleration
diff --git a/src/acceleration/impl/QRFactorization.cpp b/src/acceleration/impl/QRFactorization.cpp
index c420e87..b7db430 100644
--- a/src/acceleration/impl/QRFactorization.cpp
+++ b/src/acceleration/impl/QRFactorization.cpp
@@ -151,7 +151,7 @@ void QRFactorization::applyFilter(double singularityLimit, std::vector<int> &del
   } else if (_filter == Acceleration::QR3FILTER) {
     int index = cols() - 1;
     // Iterate from the last column to the 2nd column from the left
-    for (size_t i = index; i > 0; i--) {
+    for (int i = index; i > 0; i--) {
       Eigen::VectorXd v    = V.col(i);
       double          rho0 = utils::IntraComm::l2norm(v);
       if (std::fabs(_R(i, i)) < rho0 * singularityLimit) {
@@ -176,7 +176,7 @@ void QRFactorization::applyFilter(double singularityLimit, std::vector<int> &del
  */
 void QRFactorization::resetFilter(double singularityLimit, std::vector<int> &delIndices, Eigen::MatrixXd &V)
 {
-  _Q.resize(0, 0);
+  _Q.resize(V.rows(), 0);
   _R.resize(0, 0);
   _cols = 0;
   _rows = V.rows();
-- 
2.43.0


From 7b0c85b620f2b0c9cd84fe75ece2bd425ec56923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 21/64] fix: quasi-Newton acceleration lost track of columns
 that cannot be orthogonalized

---
 src/acceleration/BaseQNAcceleration.cpp   | 15 ++++++++++-----
 src/acceleration/impl/QRFactorization.cpp |  2 +-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/acceleration/BaseQNAcceleration.cpp b/src/acceleration/BaseQNAcceleration.cpp
index d3148d4..b3da450 100644
--- a/src/acceleration/BaseQNAcceleration.cpp
+++ b/src/acceleration/BaseQNAcceleration.cpp
@@ -428,8 +428,9 @@ void BaseQNAcceleration::performAcceleration(
 
     // the columns that fail to be inserted into the QR factorization while resetting need to be removed from V and W for consistency
     auto failAddedCols = _qrV.reset(_matrixV, getPrimaryLSSystemRows());
-    for (int i : failAddedCols) {
-      removeMatrixColumn(i);
+    // start with largest index as V,W matrices are shrunk and shifted
+    for (auto iter = failAddedCols.rbegin(); iter != failAddedCols.rend(); ++iter) {
+      removeMatrixColumn(*iter);
     }
     PRECICE_ASSERT(_matrixV.cols() == _qrV.cols(), _matrixV.cols(), _qrV.cols());
 
@@ -448,12 +449,16 @@ void BaseQNAcceleration::performAcceleration(
   // apply scaling to V, V' := P * V (only needed to reset the QR-dec of V)
   _preconditioner->apply(_matrixV);
 
-  if (_preconditioner->requireNewQR()) {
+  // The newest column may have failed to be inserted into the QR factorization
+  const bool inconsistentQR = _matrixV.cols() != _qrV.cols();
+
+  if (_preconditioner->requireNewQR() || inconsistentQR) {
     if (not(_filter == Acceleration::QR2FILTER || _filter == Acceleration::QR3FILTER)) { // for QR2 and QR3 filter, there is no need to do this twice
       auto failAddedCols = _qrV.reset(_matrixV, getPrimaryLSSystemRows());
       // the columns that fail to be inserted into the QR factorization while resetting need to be removed from V and W for consistency
-      for (int i : failAddedCols) {
-        removeMatrixColumn(i);
+      // start with largest index as V,W matrices are shrunk and shifted
+      for (auto iter = failAddedCols.rbegin(); iter != failAddedCols.rend(); ++iter) {
+        removeMatrixColumn(*iter);
       }
       PRECICE_ASSERT(_matrixV.cols() == _qrV.cols(), _matrixV.cols(), _qrV.cols());
     }
diff --git a/src/acceleration/impl/QRFactorization.cpp b/src/acceleration/impl/QRFactorization.cpp
index b7db430..36e1000 100644
--- a/src/acceleration/impl/QRFactorization.cpp
+++ b/src/acceleration/impl/QRFactorization.cpp
@@ -762,7 +762,7 @@ void QRFactorization::reset(
     double                 sigma)
 {
   PRECICE_TRACE();
-  _Q.resize(0, 0);
+  _Q.resize(A.rows(), 0);
   _R.resize(0, 0);
   _cols       = 0;
   _rows       = A.rows();
-- 
2.43.0


From 1825f5edc1824959fbeb19984cd21b91016b3dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 22/64] fix: bounds of data with substeps were checked and
 enforced for the wrong entries

---
 src/acceleration/BaseQNAcceleration.cpp | 18 +++++++++++++++---
 src/acceleration/BaseQNAcceleration.hpp |  6 ++++++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/acceleration/BaseQNAcceleration.cpp b/src/acceleration/BaseQNAcceleration.cpp
index b3da450..e4c9b89 100644
--- a/src/acceleration/BaseQNAcceleration.cpp
+++ b/src/acceleration/BaseQNAcceleration.cpp
@@ -114,6 +114,13 @@ void BaseQNAcceleration::initialize(
   _firstTimeWindow = true;
 }
 
+Eigen::Index BaseQNAcceleration::getSizeInValues(DataID id, const DataMap &cplData) const
+{
+  auto       iter   = _timeSlices.find(id);
+  const auto slices = iter == _timeSlices.end() ? 1 : iter->second;
+  return slices * cplData.at(id)->getSize();
+}
+
 std::vector<DataID> BaseQNAcceleration::checkBoundViolation(Eigen::VectorXd &data, DataMap &cplData) const
 {
   Eigen::Index        offset       = 0;
@@ -121,7 +128,7 @@ std::vector<DataID> BaseQNAcceleration::checkBoundViolation(Eigen::VectorXd &dat
 
   // check for bound violations
   for (auto id : _dataIDs) {
-    Eigen::Index size = cplData.at(id)->values().size();
+    Eigen::Index size = getSizeInValues(id, cplData);
 
     if (std::find(_idsWithBounds.begin(), _idsWithBounds.end(), id) == _idsWithBounds.end()) {
       offset += size;
@@ -152,7 +159,7 @@ void BaseQNAcceleration::onBoundViolationsClamp(Eigen::VectorXd &data, DataMap &
 {
   Eigen::Index offset = 0;
   for (auto id : _dataIDs) {
-    Eigen::Index size = cplData.at(id)->values().size();
+    Eigen::Index size = getSizeInValues(id, cplData);
 
     if (std::find(violatingIDs.begin(), violatingIDs.end(), id) == violatingIDs.end()) {
       offset += size;
@@ -179,7 +186,7 @@ void BaseQNAcceleration::onBoundViolationsScale(Eigen::VectorXd &data, DataMap &
   double       scaleStep = 0.0;
 
   for (auto id : _dataIDs) {
-    Eigen::Index size = cplData.at(id)->values().size();
+    Eigen::Index size = getSizeInValues(id, cplData);
 
     if (std::find(violatingIDs.begin(), violatingIDs.end(), id) == violatingIDs.end()) {
       offset += size;
@@ -861,6 +868,11 @@ void BaseQNAcceleration::initializeVectorsAndPreconditioner(const DataMap &cplDa
   _timeGrids.emplace(cplData, _dataIDs, false);
   _primaryTimeGrids.emplace(cplData, _primaryDataIDs, _reducedTimeGrid);
 
+  _timeSlices.clear();
+  for (auto id : _dataIDs) {
+    _timeSlices[id] = _timeGrids->getTimeGridAfter(id, windowStart).size();
+  }
+
   // Helper function
   auto addTimeSliceSize = [&](size_t sum, int id, precice::time::TimeGrids timeGrids) { return sum + timeGrids.getTimeGridAfter(id, windowStart).size() * cplData.at(id)->getSize(); };
 
diff --git a/src/acceleration/BaseQNAcceleration.hpp b/src/acceleration/BaseQNAcceleration.hpp
index 295589d..719ccd6 100644
--- a/src/acceleration/BaseQNAcceleration.hpp
+++ b/src/acceleration/BaseQNAcceleration.hpp
@@ -319,6 +319,12 @@ protected:
   int its = 0, tWindows = 0;
 
 private:
+  /// Returns the amount of entries of the given data in _values, which contains all time slices of the time window
+  Eigen::Index getSizeInValues(DataID id, const DataMap &cplData) const;
+
+  /// The amount of time slices per data in _values
+  std::map<DataID, Eigen::Index> _timeSlices;
+
   /// @brief Initializes the vectors, matrices and preconditioner
   /// This has to be done after the first iteration of the first time window, since everything in the QN-algorithm is sampled to the timegrid of the first waveform
   void initializeVectorsAndPreconditioner(const DataMap &cplData, double windowStart);
-- 
2.43.0


From ad02861688dd1f757290588bacaf379570c384dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:55 +0000
Subject: [PATCH 23/64] fix: scaling quasi-Newton steps to bounds aborted or
 overshot if results of the solver violate the bounds

---
 src/acceleration/BaseQNAcceleration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acceleration/BaseQNAcceleration.cpp b/src/acceleration/BaseQNAcceleration.cpp
index e4c9b89..9b2a830 100644
--- a/src/acceleration/BaseQNAcceleration.cpp
+++ b/src/acceleration/BaseQNAcceleration.cpp
@@ -260,8 +260,8 @@ double BaseQNAcceleration::computeShorteningFactor(Eigen::Map<Eigen::MatrixXd> &
     }
   }
   PRECICE_ASSERT(scaleStep >= 0.0);
-  PRECICE_ASSERT(scaleStep <= 1.0);
-  return scaleStep;
+  // The data may have violated its bounds before the update, which a shorter update cannot repair
+  return std::min(scaleStep, 1.0);
 }
 /** ---------------------------------------------------------------------------------------------
  *         updateDifferenceMatrices()
-- 
2.43.0


From 34f9b8c629c23152c1bd1fd286eec12b504c66f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 24/64] fix: quasi-Newton acceleration dropped columns missing
 in the QR factorization

---
 src/acceleration/BaseQNAcceleration.cpp | 31 ++++++++++++++++++-------
 src/acceleration/BaseQNAcceleration.hpp |  9 +++++++
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/acceleration/BaseQNAcceleration.cpp b/src/acceleration/BaseQNAcceleration.cpp
index 9b2a830..2e843de 100644
--- a/src/acceleration/BaseQNAcceleration.cpp
+++ b/src/acceleration/BaseQNAcceleration.cpp
@@ -335,7 +335,7 @@ void BaseQNAcceleration::updateDifferenceMatrices(
 
         // apply scaling here
         _preconditioner->apply(deltaR);
-        _qrV.pushFront(deltaR);
+        pushFrontQR(deltaR);
 
         _matrixCols.front()++;
       } else {
@@ -345,8 +345,8 @@ void BaseQNAcceleration::updateDifferenceMatrices(
         // inserts column deltaR at pos. 0 to the QR decomposition and deletes the last column
         // the QR decomposition of V is updated
         _preconditioner->apply(deltaR);
-        _qrV.pushFront(deltaR);
-        _qrV.popBack();
+        pushFrontQR(deltaR);
+        popBackQR();
 
         _matrixCols.front()++;
         _matrixCols.back()--;
@@ -456,10 +456,7 @@ void BaseQNAcceleration::performAcceleration(
   // apply scaling to V, V' := P * V (only needed to reset the QR-dec of V)
   _preconditioner->apply(_matrixV);
 
-  // The newest column may have failed to be inserted into the QR factorization
-  const bool inconsistentQR = _matrixV.cols() != _qrV.cols();
-
-  if (_preconditioner->requireNewQR() || inconsistentQR) {
+  if (_preconditioner->requireNewQR() || _qrOutdated) {
     if (not(_filter == Acceleration::QR2FILTER || _filter == Acceleration::QR3FILTER)) { // for QR2 and QR3 filter, there is no need to do this twice
       auto failAddedCols = _qrV.reset(_matrixV, getPrimaryLSSystemRows());
       // the columns that fail to be inserted into the QR factorization while resetting need to be removed from V and W for consistency
@@ -473,6 +470,7 @@ void BaseQNAcceleration::performAcceleration(
       _qrV.requireQR3Fallback();
     }
     _preconditioner->newQRfulfilled();
+    _qrOutdated = false;
   }
 
   if (_firstIteration) {
@@ -568,6 +566,23 @@ void BaseQNAcceleration::performAcceleration(
   _firstIteration = false;
 }
 
+void BaseQNAcceleration::pushFrontQR(const Eigen::VectorXd &column)
+{
+  const auto cols = _qrV.cols();
+  _qrV.pushFront(column);
+  if (_qrV.cols() == cols) {
+    _qrOutdated = true; // the column is linearly dependent
+  }
+}
+
+void BaseQNAcceleration::popBackQR()
+{
+  // Columns of V may be missing in an outdated QR factorization
+  if (_qrV.cols() > 0) {
+    _qrV.popBack();
+  }
+}
+
 void BaseQNAcceleration::applyFilter()
 {
   PRECICE_TRACE(_filter);
@@ -715,7 +730,7 @@ void BaseQNAcceleration::iterationsConverged(
       utils::removeColumnFromMatrix(_matrixV, _matrixV.cols() - 1);
       utils::removeColumnFromMatrix(_matrixW, _matrixW.cols() - 1);
       // also remove the corresponding columns from the dynamic QR-descomposition of _matrixV
-      _qrV.popBack();
+      popBackQR();
     }
     _matrixCols.pop_back();
   }
diff --git a/src/acceleration/BaseQNAcceleration.hpp b/src/acceleration/BaseQNAcceleration.hpp
index 719ccd6..1a0e281 100644
--- a/src/acceleration/BaseQNAcceleration.hpp
+++ b/src/acceleration/BaseQNAcceleration.hpp
@@ -319,6 +319,15 @@ protected:
   int its = 0, tWindows = 0;
 
 private:
+  /// Adds a column at the front of the QR factorization of V
+  void pushFrontQR(const Eigen::VectorXd &column);
+
+  /// Removes the last column of the QR factorization of V
+  void popBackQR();
+
+  /// True if columns of V failed to be inserted into its QR factorization, which thus has to be recomputed
+  bool _qrOutdated = false;
+
   /// Returns the amount of entries of the given data in _values, which contains all time slices of the time window
   Eigen::Index getSizeInValues(DataID id, const DataMap &cplData) const;
 
-- 
2.43.0


From 142908291a89ed06be95ef1992b42bd8f27dcde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 25/64] fix: only skip mapping samples that are zero

Samples that are mapped during initialization were skipped if the norm of
their values is below an absolute tolerance, regardless of their gradients.
This replaced small values by zero and dropped the contribution of gradients
in gradient-based mappings.  It concerns initial data and the first time
window of the second participant of a serial coupling scheme.
---
 src/precice/impl/DataContext.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/precice/impl/DataContext.cpp b/src/precice/impl/DataContext.cpp
index 19a51c8..477f4f8 100644
--- a/src/precice/impl/DataContext.cpp
+++ b/src/precice/impl/DataContext.cpp
@@ -107,6 +107,17 @@ bool DataContext::hasMapping() const
   return hasReadMapping() || hasWriteMapping();
 }
 
+namespace {
+/// Are all values and gradients of the sample exactly zero on all ranks?
+bool isGloballyZero(const time::Sample &sample)
+{
+  int local  = (sample.values.array() != 0.0).any() || (sample.gradients.array() != 0.0).any();
+  int global = 0;
+  utils::IntraComm::allreduceSum(local, global);
+  return global == 0;
+}
+} // namespace
+
 int DataContext::mapData(std::optional<double> after, bool skipZero)
 {
   PRECICE_TRACE(getMeshName(), getDataName());
@@ -149,8 +160,8 @@ int DataContext::mapData(std::optional<double> after, bool skipZero)
           dataDims,
           Eigen::VectorXd::Zero(dataDims * mapping.getOutputMesh()->nVertices())};
 
-      // Note that the l2norm is only computed during initialization due to short-circuit evaluation in C++
-      bool skipMapping = skipZero && (utils::IntraComm::l2norm(stample.sample.values) < math::NUMERICAL_ZERO_DIFFERENCE);
+      // Note that this is only computed during initialization due to short-circuit evaluation in C++
+      bool skipMapping = skipZero && isGloballyZero(stample.sample);
 
       PRECICE_INFO("Mapping \"{}\" for t={} from \"{}\" to \"{}\"{}",
                    getDataName(), stample.timestamp, mapping.getInputMesh()->getName(), mapping.getOutputMesh()->getName(),
-- 
2.43.0


From c669b14be96dbb73470a462d5c1a15b43f191c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:21 +0000
Subject: [PATCH 26/64] fix: reject edges, triangles and tetrahedra with
 repeated vertices

setMeshTriangle() and the functions for quads already do so.  Repeated
vertices otherwise lead to degenerate primitives, divisions by zero in
projections, or a failing assertion.
---
 src/precice/impl/ParticipantImpl.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/precice/impl/ParticipantImpl.cpp b/src/precice/impl/ParticipantImpl.cpp
index e942adb..34af144 100644
--- a/src/precice/impl/ParticipantImpl.cpp
+++ b/src/precice/impl/ParticipantImpl.cpp
@@ -863,6 +863,9 @@ void ParticipantImpl::setMeshEdge(
   using impl::errorInvalidVertexID;
   PRECICE_CHECK(mesh.isValidVertexID(first), errorInvalidVertexID(first));
   PRECICE_CHECK(mesh.isValidVertexID(second), errorInvalidVertexID(second));
+  PRECICE_CHECK(first != second,
+                "setMeshEdge() was called with repeated Vertex IDs ({}, {}).",
+                first, second);
   Event         e{fmt::format("setMeshEdge.{}", meshName), profiling::API};
   mesh::Vertex &v0 = mesh.vertex(first);
   mesh::Vertex &v1 = mesh.vertex(second);
@@ -901,6 +904,9 @@ void ParticipantImpl::setMeshEdges(
   for (unsigned long i = 0; i < vertices.size() / 2; ++i) {
     auto aid = vertices[2 * i];
     auto bid = vertices[2 * i + 1];
+    PRECICE_CHECK(aid != bid,
+                  "setMeshEdges() was called with repeated Vertex IDs ({}, {}) for edge nr {}.",
+                  aid, bid, i);
     mesh.createEdge(mesh.vertex(aid), mesh.vertex(bid));
   }
 }
@@ -967,6 +973,9 @@ void ParticipantImpl::setMeshTriangles(
     auto aid = vertices[3 * i];
     auto bid = vertices[3 * i + 1];
     auto cid = vertices[3 * i + 2];
+    PRECICE_CHECK(utils::unique_elements(utils::make_array(aid, bid, cid)),
+                  "setMeshTriangles() was called with repeated Vertex IDs ({}, {}, {}) for triangle nr {}.",
+                  aid, bid, cid, i);
     mesh.createTriangle(mesh.vertex(aid),
                         mesh.vertex(bid),
                         mesh.vertex(cid));
@@ -1116,6 +1125,9 @@ void ParticipantImpl::setMeshTetrahedron(
   PRECICE_CHECK(mesh.isValidVertexID(second), errorInvalidVertexID(second));
   PRECICE_CHECK(mesh.isValidVertexID(third), errorInvalidVertexID(third));
   PRECICE_CHECK(mesh.isValidVertexID(fourth), errorInvalidVertexID(fourth));
+  PRECICE_CHECK(utils::unique_elements(utils::make_array(first, second, third, fourth)),
+                "setMeshTetrahedron() was called with repeated Vertex IDs ({}, {}, {}, {}).",
+                first, second, third, fourth);
   mesh::Vertex &A = mesh.vertex(first);
   mesh::Vertex &B = mesh.vertex(second);
   mesh::Vertex &C = mesh.vertex(third);
@@ -1160,6 +1172,9 @@ void ParticipantImpl::setMeshTetrahedra(
     auto bid = vertices[4 * i + 1];
     auto cid = vertices[4 * i + 2];
     auto did = vertices[4 * i + 3];
+    PRECICE_CHECK(utils::unique_elements(utils::make_array(aid, bid, cid, did)),
+                  "setMeshTetrahedra() was called with repeated Vertex IDs ({}, {}, {}, {}) for tetrahedron nr {}.",
+                  aid, bid, cid, did, i);
     mesh.createTetrahedron(mesh.vertex(aid),
                            mesh.vertex(bid),
                            mesh.vertex(cid),
-- 
2.43.0


From d9fe70175b7ccfc91c3af8e90d264110e101ff21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 27/64] fix: export triangles of 2D meshes in the VTK legacy
 format

Only edges of 2D meshes were exported, in contrast to the VTU and VTP
formats, which dropped the cells of 2D volume coupling.
---
 src/io/ExportVTK.cpp | 93 ++++++++++++++++++--------------------------
 1 file changed, 38 insertions(+), 55 deletions(-)

diff --git a/src/io/ExportVTK.cpp b/src/io/ExportVTK.cpp
index 3db3ae9..5143f51 100644
--- a/src/io/ExportVTK.cpp
+++ b/src/io/ExportVTK.cpp
@@ -77,63 +77,46 @@ void ExportVTK::exportMesh(
   }
   outFile << '\n';
 
-  // Plot edges
-  if (mesh.getDimensions() == 2) {
-    outFile << "CELLS " << mesh.edges().size() << ' ' << mesh.edges().size() * 3 << "\n\n";
-    for (auto const &edge : mesh.edges()) {
-      int internalIndices[2];
-      internalIndices[0] = edge.vertex(0).getID();
-      internalIndices[1] = edge.vertex(1).getID();
-      writeLine(internalIndices, outFile);
-    }
-    outFile << "\nCELL_TYPES " << mesh.edges().size() << "\n\n";
-    for (size_t i = 0; i < mesh.edges().size(); ++i) {
-      outFile << "3\n";
-    }
-  }
-
-  // Plot triangles
-  if (mesh.getDimensions() == 3) {
-    size_t sizeTetrahedra = mesh.tetrahedra().size();
-    size_t sizeTriangles  = mesh.triangles().size();
-    size_t sizeEdges      = mesh.edges().size();
-    size_t sizeElements   = sizeTriangles + sizeEdges + sizeTetrahedra;
+  // Plot tetrahedra, triangles, and edges
+  size_t sizeTetrahedra = mesh.tetrahedra().size();
+  size_t sizeTriangles  = mesh.triangles().size();
+  size_t sizeEdges      = mesh.edges().size();
+  size_t sizeElements   = sizeTriangles + sizeEdges + sizeTetrahedra;
 
-    outFile << "CELLS " << sizeElements << ' '
-            << sizeTetrahedra * 5 + sizeTriangles * 4 + sizeEdges * 3 << "\n\n";
-    for (auto const &tetra : mesh.tetrahedra()) {
-      int internalIndices[4];
-      internalIndices[0] = tetra.vertex(0).getID();
-      internalIndices[1] = tetra.vertex(1).getID();
-      internalIndices[2] = tetra.vertex(2).getID();
-      internalIndices[3] = tetra.vertex(3).getID();
-      writeTetrahedron(internalIndices, outFile);
-    }
-    for (auto const &triangle : mesh.triangles()) {
-      int internalIndices[3];
-      internalIndices[0] = triangle.vertex(0).getID();
-      internalIndices[1] = triangle.vertex(1).getID();
-      internalIndices[2] = triangle.vertex(2).getID();
-      writeTriangle(internalIndices, outFile);
-    }
-    for (auto const &edge : mesh.edges()) {
-      int internalIndices[2];
-      internalIndices[0] = edge.vertex(0).getID();
-      internalIndices[1] = edge.vertex(1).getID();
-      writeLine(internalIndices, outFile);
-    }
+  outFile << "CELLS " << sizeElements << ' '
+          << sizeTetrahedra * 5 + sizeTriangles * 4 + sizeEdges * 3 << "\n\n";
+  for (auto const &tetra : mesh.tetrahedra()) {
+    int internalIndices[4];
+    internalIndices[0] = tetra.vertex(0).getID();
+    internalIndices[1] = tetra.vertex(1).getID();
+    internalIndices[2] = tetra.vertex(2).getID();
+    internalIndices[3] = tetra.vertex(3).getID();
+    writeTetrahedron(internalIndices, outFile);
+  }
+  for (auto const &triangle : mesh.triangles()) {
+    int internalIndices[3];
+    internalIndices[0] = triangle.vertex(0).getID();
+    internalIndices[1] = triangle.vertex(1).getID();
+    internalIndices[2] = triangle.vertex(2).getID();
+    writeTriangle(internalIndices, outFile);
+  }
+  for (auto const &edge : mesh.edges()) {
+    int internalIndices[2];
+    internalIndices[0] = edge.vertex(0).getID();
+    internalIndices[1] = edge.vertex(1).getID();
+    writeLine(internalIndices, outFile);
+  }
 
-    outFile << "\nCELL_TYPES " << sizeElements << "\n\n";
-    // See VTK reference for CELL_TYPES
-    for (size_t i = 0; i < sizeTetrahedra; i++) {
-      outFile << "10\n";
-    }
-    for (size_t i = 0; i < sizeTriangles; i++) {
-      outFile << "5\n";
-    }
-    for (size_t i = 0; i < sizeEdges; ++i) {
-      outFile << "3\n";
-    }
+  outFile << "\nCELL_TYPES " << sizeElements << "\n\n";
+  // See VTK reference for CELL_TYPES
+  for (size_t i = 0; i < sizeTetrahedra; i++) {
+    outFile << "10\n";
+  }
+  for (size_t i = 0; i < sizeTriangles; i++) {
+    outFile << "5\n";
+  }
+  for (size_t i = 0; i < sizeEdges; ++i) {
+    outFile << "3\n";
   }
 
   outFile << '\n';
-- 
2.43.0


From 8e08e9c57bbaf9ce05de93774fd5b8e16705dfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:45 +0000
Subject: [PATCH 28/64] fix: write series files of exports in every iteration

The series file was neither written at the end of the simulation nor after
every export if every-iteration is enabled.
---
 src/precice/impl/ParticipantState.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/precice/impl/ParticipantState.cpp b/src/precice/impl/ParticipantState.cpp
index 5f4374a..2b6224e 100644
--- a/src/precice/impl/ParticipantState.cpp
+++ b/src/precice/impl/ParticipantState.cpp
@@ -410,14 +410,12 @@ void ParticipantState::exportIntermediate(IntermediateExport exp)
     if (context.everyIteration) {
       PRECICE_DEBUG("Exporting mesh {} for iteration {} to location \"{}\"", context.meshName, exp.iteration, context.location);
       context.exporter->doExport(exp.iteration, exp.time);
-      continue;
-    }
-    if (exp.complete) {
+    } else if (exp.complete) {
       PRECICE_DEBUG("Exporting mesh {} for timewindow {} to location \"{}\"", context.meshName, exp.timewindow, context.location);
       context.exporter->doExport(exp.timewindow, exp.time);
     }
 
-    if (exp.final || (exp.complete && context.updateSeries)) {
+    if (exp.final || ((exp.complete || context.everyIteration) && context.updateSeries)) {
       PRECICE_DEBUG("Exporting series file of mesh {} to location \"{}\"", context.meshName, context.location);
       context.exporter->exportSeries();
     }
-- 
2.43.0


From 401214cfd70e320023f840b868f0e2d53f5ca084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 29/64] fix: make watch integrals independent of the
 partitioning

Ranks without connectivity summed up their values although other ranks
scaled them, and the surface area was only exported if the primary rank
has connectivity. Remeshing added the surface area repeatedly.
---
 src/precice/impl/WatchIntegral.cpp | 31 +++++++++++++++++-------------
 src/precice/impl/WatchIntegral.hpp |  8 ++++++++
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/precice/impl/WatchIntegral.cpp b/src/precice/impl/WatchIntegral.cpp
index 7ee8079..7351964 100644
--- a/src/precice/impl/WatchIntegral.cpp
+++ b/src/precice/impl/WatchIntegral.cpp
@@ -45,11 +45,22 @@ WatchIntegral::WatchIntegral(
 
 void WatchIntegral::initialize()
 {
+  // All ranks have to agree on whether there is connectivity, as the partition of a rank may not contain any
+  int localConnectivity  = _mesh->edges().empty() ? 0 : 1;
+  int globalConnectivity = 0;
+  utils::IntraComm::allreduceSum(localConnectivity, globalConnectivity);
+  _hasConnectivity = globalConnectivity > 0;
+
   // Do not add surface area column if there is no connectivity
-  if ((not utils::IntraComm::isSecondary()) and (not _mesh->edges().empty())) {
-    _txtWriter.addData("SurfaceArea", io::TXTTableWriter::DOUBLE);
+  // The columns of the table are fixed after the first initialization
+  if (not _isInitialized) {
+    _exportSurfaceArea = _hasConnectivity;
+    if ((not utils::IntraComm::isSecondary()) and _exportSurfaceArea) {
+      _txtWriter.addData("SurfaceArea", io::TXTTableWriter::DOUBLE);
+    }
+    _isInitialized = true;
   }
-  PRECICE_WARN_IF(_isScalingOn && _mesh->edges().empty(),
+  PRECICE_WARN_IF(_isScalingOn && not _hasConnectivity,
                   "Watch-integral is configured with scaling option on; "
                   "however, mesh {} does not contain connectivity information. "
                   "Therefore, the integral will be calculated without scaling.",
@@ -85,7 +96,7 @@ void WatchIntegral::exportIntegralData(
   }
 
   // Calculate surface area only if there is connectivity information
-  if (not _mesh->edges().empty()) {
+  if (_exportSurfaceArea) {
     double surfaceArea = calculateSurfaceArea();
     if (utils::IntraComm::getSize() > 1) {
       double surfaceAreaSum = 0.0;
@@ -95,13 +106,6 @@ void WatchIntegral::exportIntegralData(
     if (not utils::IntraComm::isSecondary()) {
       _txtWriter.writeData("SurfaceArea", surfaceArea);
     }
-  } else {
-    // Empty partitions should also call reduceSum to prevent deadlock
-    if (utils::IntraComm::getSize() > 1) {
-      double surfaceArea    = 0.0;
-      double surfaceAreaSum = 0.0;
-      utils::IntraComm::reduceSum(surfaceArea, surfaceAreaSum);
-    }
   }
 }
 
@@ -111,7 +115,7 @@ Eigen::VectorXd WatchIntegral::calculateIntegral(double time, const mesh::PtrDat
   const auto      sample = data->waveform().sample(time);
   Eigen::VectorXd sum    = Eigen::VectorXd::Zero(dim);
 
-  if (_mesh->edges().empty() || (not _isScalingOn)) {
+  if ((not _hasConnectivity) || (not _isScalingOn)) {
     for (const auto &vertex : _mesh->vertices()) {
       int offset = vertex.getID() * dim;
       for (int i = 0; i < dim; i++) {
@@ -119,6 +123,8 @@ Eigen::VectorXd WatchIntegral::calculateIntegral(double time, const mesh::PtrDat
       }
     }
     return sum;
+  } else if (_mesh->edges().empty()) { // Only other ranks have connectivity information
+    return sum;
   } else { // Connectivity information is given
     return mesh::integrateSurface(_mesh, sample.values());
   }
@@ -126,7 +132,6 @@ Eigen::VectorXd WatchIntegral::calculateIntegral(double time, const mesh::PtrDat
 
 double WatchIntegral::calculateSurfaceArea() const
 {
-  PRECICE_ASSERT(not _mesh->edges().empty());
   double surfaceArea = 0.0;
   if (_mesh->getDimensions() == 3) {
     for (const auto &face : _mesh->triangles()) {
diff --git a/src/precice/impl/WatchIntegral.hpp b/src/precice/impl/WatchIntegral.hpp
index f8056af..f93ef95 100644
--- a/src/precice/impl/WatchIntegral.hpp
+++ b/src/precice/impl/WatchIntegral.hpp
@@ -52,6 +52,14 @@ private:
 
   bool _isScalingOn;
 
+  bool _isInitialized = false;
+
+  /// Does any rank have connectivity information?
+  bool _hasConnectivity = false;
+
+  /// Does the table contain the surface area?
+  bool _exportSurfaceArea = false;
+
   Eigen::VectorXd calculateIntegral(double time, const mesh::PtrData &data) const;
 
   double calculateSurfaceArea() const;
-- 
2.43.0


From c3a06c92cc5ef6ccf5e95dfb73882522542b4ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 30/64] fix: keep the table of a watch point when another rank
 becomes closest

After remeshing, the new closest rank overwrote the rows of the previous one.
---
 src/io/TXTTableWriter.cpp       | 5 +++++
 src/io/TXTTableWriter.hpp       | 3 +++
 src/precice/impl/WatchPoint.cpp | 7 +++++++
 3 files changed, 15 insertions(+)

diff --git a/src/io/TXTTableWriter.cpp b/src/io/TXTTableWriter.cpp
index ef48e95..9e3c8a4 100644
--- a/src/io/TXTTableWriter.cpp
+++ b/src/io/TXTTableWriter.cpp
@@ -146,6 +146,11 @@ void TXTTableWriter::writeData(
   }
 }
 
+void TXTTableWriter::moveToEnd()
+{
+  _outputStream.seekp(0, std::ios::end);
+}
+
 void TXTTableWriter::close()
 {
   PRECICE_ASSERT(_outputStream.is_open());
diff --git a/src/io/TXTTableWriter.hpp b/src/io/TXTTableWriter.hpp
index 9e086ab..04dc496 100644
--- a/src/io/TXTTableWriter.hpp
+++ b/src/io/TXTTableWriter.hpp
@@ -70,6 +70,9 @@ public:
       const std::string     &name,
       const Eigen::Vector3d &value);
 
+  /// Continues to write at the end of the file, which others may have written to
+  void moveToEnd();
+
   /// Closes the file, is automatically called on destruction.
   void close();
 
diff --git a/src/precice/impl/WatchPoint.cpp b/src/precice/impl/WatchPoint.cpp
index a1c1e2c..2a1195e 100644
--- a/src/precice/impl/WatchPoint.cpp
+++ b/src/precice/impl/WatchPoint.cpp
@@ -57,6 +57,8 @@ void WatchPoint::initialize()
 {
   PRECICE_TRACE();
 
+  _shortestDistance = std::numeric_limits<double>::max();
+  _interpolation.reset();
   if (_mesh->nVertices() > 0) {
     auto match        = _mesh->index().findCellOrProjection(_point, 4);
     _shortestDistance = match.polation.distance();
@@ -85,6 +87,11 @@ void WatchPoint::initialize()
     }
   }
 
+  // After remeshing, another rank may have written to the file
+  if (_isClosest) {
+    _txtWriter.moveToEnd();
+  }
+
   PRECICE_DEBUG("Rank: {}, isClosest: {}", utils::IntraComm::getRank(), _isClosest);
 }
 
-- 
2.43.0


From 84713ad616c0d91f4ea59885aa24c1053d0d84c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:03 +0000
Subject: [PATCH 31/64] fix: allow to watch meshes with data that is not
 exchanged

---
 src/precice/impl/WatchIntegral.cpp | 9 ++++++---
 src/precice/impl/WatchPoint.cpp    | 6 ++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/precice/impl/WatchIntegral.cpp b/src/precice/impl/WatchIntegral.cpp
index 7351964..7ab6056 100644
--- a/src/precice/impl/WatchIntegral.cpp
+++ b/src/precice/impl/WatchIntegral.cpp
@@ -111,9 +111,12 @@ void WatchIntegral::exportIntegralData(
 
 Eigen::VectorXd WatchIntegral::calculateIntegral(double time, const mesh::PtrData &data) const
 {
-  int             dim    = data->getDimensions();
-  const auto      sample = data->waveform().sample(time);
-  Eigen::VectorXd sum    = Eigen::VectorXd::Zero(dim);
+  int             dim = data->getDimensions();
+  Eigen::VectorXd sum = Eigen::VectorXd::Zero(dim);
+  if (data->waveform().empty()) {
+    return sum; // data is neither read nor written
+  }
+  const auto sample = data->waveform().sample(time);
 
   if ((not _hasConnectivity) || (not _isScalingOn)) {
     for (const auto &vertex : _mesh->vertices()) {
diff --git a/src/precice/impl/WatchPoint.cpp b/src/precice/impl/WatchPoint.cpp
index 2a1195e..7a78221 100644
--- a/src/precice/impl/WatchPoint.cpp
+++ b/src/precice/impl/WatchPoint.cpp
@@ -137,6 +137,9 @@ void WatchPoint::getValue(
     mesh::PtrData   &data,
     double           time)
 {
+  if (data->waveform().empty()) {
+    return; // data is neither read nor written
+  }
   int             dim = _mesh->getDimensions();
   Eigen::VectorXd temp(dim);
   const auto      sample = data->waveform().sample(time);
@@ -155,6 +158,9 @@ void WatchPoint::getValue(
     mesh::PtrData &data,
     double         time)
 {
+  if (data->waveform().empty()) {
+    return; // data is neither read nor written
+  }
   const auto sample = data->waveform().sample(time);
   for (const auto &elem : _interpolation->getWeightedElements()) {
     value += elem.weight * sample(elem.vertexID);
-- 
2.43.0


From 0f27a2ccd1dae49dce3f21c707c813042cf172cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:12 +0000
Subject: [PATCH 32/64] fix: keep contributions of just-in-time mappings to the
 polynomial only

Written values were dropped if the location is out of reach of the basis
functions of all vertices of a cluster, although the separate polynomial
maps them to these vertices.
---
 src/mapping/PartitionOfUnityMapping.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mapping/PartitionOfUnityMapping.hpp b/src/mapping/PartitionOfUnityMapping.hpp
index daf72cd..b061b9a 100644
--- a/src/mapping/PartitionOfUnityMapping.hpp
+++ b/src/mapping/PartitionOfUnityMapping.hpp
@@ -418,7 +418,8 @@ void PartitionOfUnityMapping<RADIAL_BASIS_FUNCTION_T>::completeJustInTimeMapping
 
   for (std::size_t c = 0; c < _clusters.size(); ++c) {
     // If there is no contribution, we don't have to evaluate
-    if (cache.p[c].squaredNorm() > 0) {
+    // Vertices out of reach of the (compact) basis functions contribute to the polynomial only
+    if (!cache.p[c].isZero(0) || !cache.polynomialContributions[c].isZero(0)) {
       _clusters[c].evaluateConservativeCache(cache.polynomialContributions[c], cache.p[c], buffer);
     }
   }
-- 
2.43.0


From 6810a0c0d2c7eb33835fdf0ea96a6c3b0a875d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:21 +0000
Subject: [PATCH 33/64] fix: check the sizes passed to just-in-time mappings
 before using the coordinates

Empty coordinates together with values led to an access out of bounds and
incomplete coordinates were accepted.
---
 src/precice/impl/ParticipantImpl.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/precice/impl/ParticipantImpl.cpp b/src/precice/impl/ParticipantImpl.cpp
index 34af144..8d8ed42 100644
--- a/src/precice/impl/ParticipantImpl.cpp
+++ b/src/precice/impl/ParticipantImpl.cpp
@@ -1324,16 +1324,20 @@ void ParticipantImpl::mapAndReadData(
   const auto dim       = dataContext.getSpatialDimensions();
   const auto nVertices = (coordinates.size() / dim);
 
-  // Check that the vertex is actually within the defined access region
-  _accessor->receivedMeshContext(meshName).checkVerticesInsideAccessRegion(coordinates, dim, "mapAndReadData");
-
-  // Make use of the read data context
+  PRECICE_CHECK(coordinates.size() % dim == 0,
+                "Input sizes are inconsistent attempting to map and read data \"{}\" from mesh \"{}\". "
+                "You passed {} coordinate components, which isn't a multiple of the {} dimensions of the mesh.",
+                dataName, meshName, coordinates.size(), dim);
   PRECICE_CHECK(nVertices * dataDims == values.size(),
                 "Input sizes are inconsistent attempting to mapAndRead {}D data \"{}\" from mesh \"{}\". "
                 "You passed {} vertex indices and {} data components, but we expected {} data components ({} x {}).",
                 dataDims, dataName, meshName,
                 nVertices, values.size(), nVertices * dataDims, dataDims, nVertices);
 
+  // Check that the vertex is actually within the defined access region
+  _accessor->receivedMeshContext(meshName).checkVerticesInsideAccessRegion(coordinates, dim, "mapAndReadData");
+
+  // Make use of the read data context
   double readTime = _couplingScheme->getTime() + relativeReadTime;
   dataContext.mapAndReadValues(coordinates, readTime, values);
 }
@@ -1386,15 +1390,19 @@ void ParticipantImpl::writeAndMapData(
   const auto           nVertices = (coordinates.size() / dim);
   ReceivedMeshContext &context   = _accessor->receivedMeshContext(meshName);
 
-  // Check that the vertex is actually within the defined access region
-  _accessor->receivedMeshContext(meshName).checkVerticesInsideAccessRegion(coordinates, dim, "writeAndMapData");
-
+  PRECICE_CHECK(coordinates.size() % dim == 0,
+                "Input sizes are inconsistent attempting to write and map data \"{}\" to mesh \"{}\". "
+                "You passed {} coordinate components, which isn't a multiple of the {} dimensions of the mesh.",
+                dataName, meshName, coordinates.size(), dim);
   PRECICE_CHECK(nVertices * dataDims == values.size(),
                 "Input sizes are inconsistent attempting to write {}D data \"{}\" to mesh \"{}\". "
                 "You passed {} vertex indices and {} data components, but we expected {} data components ({} x {}).",
                 dataDims, dataName, meshName,
                 nVertices, values.size(), nVertices * dataDims, dataDims, nVertices);
 
+  // Check that the vertex is actually within the defined access region
+  _accessor->receivedMeshContext(meshName).checkVerticesInsideAccessRegion(coordinates, dim, "writeAndMapData");
+
   PRECICE_CHECK(!context.mesh->empty(), "This participant tries to mapAndWrite data values for data \"{0}\" on mesh \"{1}\", but the mesh \"{1}\" is empty within the defined access region on this rank. "
                                         "Where should the provided data go? Please make sure the mesh \"{1}\" is non-empty within the access region.",
                 dataName, meshName);
-- 
2.43.0


From 66ff8930f55a150ba4c4baea6aa80617c6d728d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:58 +0000
Subject: [PATCH 34/64] fix: refuse numeric attributes without or with
 unrepresentable value

---
 src/xml/ValueParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/xml/ValueParser.cpp b/src/xml/ValueParser.cpp
index 510b32c..ba07ded 100644
--- a/src/xml/ValueParser.cpp
+++ b/src/xml/ValueParser.cpp
@@ -18,9 +18,9 @@ double parseDouble(const std::string &rawValue)
     iss.imbue(std::locale(PARSING_LOCALE));
   } catch (...) {
   }
-  double value;
+  double value = 0;
   iss >> value;
-  if (!iss.eof()) {
+  if ((iss.fail() && !rawValue.empty()) || !iss.eof()) {
     throw std::runtime_error{"Could not fully parse value \"" + rawValue + "\" as a double."};
   }
   return value;
@@ -47,7 +47,7 @@ void readValueSpecific(const std::string &rawValue, int &value)
   } catch (...) {
   }
   iss >> value;
-  if (!iss.eof()) {
+  if (iss.fail() || !iss.eof()) {
     throw std::runtime_error{"Could not fully parse value \"" + rawValue + "\" as an int."};
   }
 }
-- 
2.43.0


From c8805bc7d4c0b04c5ae4f82b1196e60e65538498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:33 +0000
Subject: [PATCH 35/64] fix: keep profiling events recorded before the backend
 is started

---
 src/profiling/EventUtils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/profiling/EventUtils.cpp b/src/profiling/EventUtils.cpp
index 64f6c61..2628ade 100644
--- a/src/profiling/EventUtils.cpp
+++ b/src/profiling/EventUtils.cpp
@@ -286,7 +286,8 @@ struct EventWriter {
 
 void EventRegistry::flush()
 try {
-  if (_mode == Mode::Off || _writeQueue.empty()) {
+  // events recorded before the backend starts stay in the queue
+  if (_mode == Mode::Off || _writeQueue.empty() || !_isBackendRunning) {
     return;
   }
   PRECICE_ASSERT(_output, "Filestream doesn't exist.");
-- 
2.43.0


From 3c3508a58dab3daa2197e0286c8121bee3b12e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:33 +0000
Subject: [PATCH 36/64] fix: report unknown participants if none are defined
 yet

---
 src/precice/config/ParticipantConfiguration.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/precice/config/ParticipantConfiguration.cpp b/src/precice/config/ParticipantConfiguration.cpp
index 0af202c..dae4643 100644
--- a/src/precice/config/ParticipantConfiguration.cpp
+++ b/src/precice/config/ParticipantConfiguration.cpp
@@ -387,7 +387,10 @@ std::string ParticipantConfiguration::hintFor(std::string_view wrongName) const
 {
   PRECICE_ASSERT(!hasParticipant(wrongName));
 
-  const auto names   = knownParticipants();
+  const auto names = knownParticipants();
+  if (names.empty()) {
+    return "No participants are defined before this tag.";
+  }
   const auto matches = utils::computeMatches(wrongName, names);
 
   // Typo detection
-- 
2.43.0


From 4b7d470caa4bde7fbe335705500aa78ef150f6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:55 +0000
Subject: [PATCH 37/64] fix: report unknown types and streams of logging sinks

---
 src/logging/config/LogConfiguration.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/logging/config/LogConfiguration.cpp b/src/logging/config/LogConfiguration.cpp
index 50a2c39..b072a18 100644
--- a/src/logging/config/LogConfiguration.cpp
+++ b/src/logging/config/LogConfiguration.cpp
@@ -68,6 +68,12 @@ void LogConfiguration::xmlTagCallback(
     config.setOption("filter", tag.getStringAttributeValue("filter"));
     config.setOption("format", tag.getStringAttributeValue("format"));
     config.setEnabled(tag.getBooleanAttributeValue("enabled"));
+    PRECICE_CHECK(config.type == "file" || config.type == "stream",
+                  "The type \"{}\" of a logging sink is unknown. Please use <sink type=\"stream\" .../> or <sink type=\"file\" .../>.",
+                  config.type);
+    PRECICE_CHECK(config.type != "stream" || config.output == "stdout" || config.output == "stderr",
+                  "The output \"{}\" of a logging sink of type \"stream\" is unknown. Please use output=\"stdout\" or output=\"stderr\".",
+                  config.output);
     _logconfig.push_back(config);
   }
 }
-- 
2.43.0


From cd22933db31811350ca55a3c1bc6aa6cff87e4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:55 +0000
Subject: [PATCH 38/64] fix: report meshes defined multiple times or without
 name

---
 src/mesh/config/MeshConfiguration.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mesh/config/MeshConfiguration.cpp b/src/mesh/config/MeshConfiguration.cpp
index ecc9883..b84ed99 100644
--- a/src/mesh/config/MeshConfiguration.cpp
+++ b/src/mesh/config/MeshConfiguration.cpp
@@ -65,6 +65,10 @@ void MeshConfiguration::xmlTagCallback(
   if (tag.getName() == TAG) {
     std::string name       = tag.getStringAttributeValue(ATTR_NAME);
     int         dimensions = tag.getIntAttributeValue(ATTR_DIMENSIONS);
+    PRECICE_CHECK(!name.empty(), "The name of a mesh cannot be empty. Please check the <mesh name=\"...\" /> tags in your configuration.");
+    PRECICE_CHECK(_meshDimensionsMap.count(name) == 0,
+                  "The mesh \"{}\" is defined multiple times. Please remove or rename one of the <mesh name=\"{}\" /> tags.",
+                  name, name);
     insertMeshToMeshDimensionsMap(name, dimensions);
     PRECICE_ASSERT(dimensions != 0);
     _meshes.push_back(std::make_shared<Mesh>(name, dimensions, _meshIdManager.getFreeID()));
-- 
2.43.0


From 657698aa7b889041cc7418164006207810d9476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 39/64] fix: report participants defined multiple times or
 without name

---
 src/precice/config/ParticipantConfiguration.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/precice/config/ParticipantConfiguration.cpp b/src/precice/config/ParticipantConfiguration.cpp
index dae4643..9a93a2f 100644
--- a/src/precice/config/ParticipantConfiguration.cpp
+++ b/src/precice/config/ParticipantConfiguration.cpp
@@ -259,7 +259,11 @@ void ParticipantConfiguration::xmlTagCallback(
 {
   PRECICE_TRACE(tag.getName());
   if (tag.getName() == TAG) {
-    const std::string   &name = tag.getStringAttributeValue(ATTR_NAME);
+    const std::string &name = tag.getStringAttributeValue(ATTR_NAME);
+    PRECICE_CHECK(!name.empty(), "The name of a participant cannot be empty. Please check the <participant name=\"...\" /> tags in your configuration.");
+    PRECICE_CHECK(!hasParticipant(name),
+                  "The participant \"{}\" is defined multiple times. Please remove or rename one of the <participant name=\"{}\" /> tags.",
+                  name, name);
     impl::PtrParticipant p(new impl::ParticipantState(name, _meshConfig));
     _participants.push_back(p);
   } else if (tag.getName() == TAG_PROVIDE_MESH) {
-- 
2.43.0


From 59b8262f52a1dc80ea78e3f70710d193b07693e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 40/64] fix: report actions whose target data has no name

---
 src/action/config/ActionConfiguration.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/action/config/ActionConfiguration.cpp b/src/action/config/ActionConfiguration.cpp
index 5d27f71..51a3ed0 100644
--- a/src/action/config/ActionConfiguration.cpp
+++ b/src/action/config/ActionConfiguration.cpp
@@ -137,6 +137,8 @@ void ActionConfiguration::xmlTagCallback(
     _configuredAction.sourceDataVector.push_back(callingTag.getStringAttributeValue(ATTR_NAME));
   } else if (callingTag.getName() == TAG_TARGET_DATA) {
     _configuredAction.targetData = callingTag.getStringAttributeValue(ATTR_NAME);
+    PRECICE_CHECK(!_configuredAction.targetData.empty(),
+                  "The name of the target data of an action on mesh \"{}\" cannot be empty.", _configuredAction.mesh);
   } else if (callingTag.getName() == TAG_CONVERGENCE_TOLERANCE) {
     _configuredAction.convergenceTolerance =
         callingTag.getDoubleAttributeValue(ATTR_VALUE);
-- 
2.43.0


From 4baea06ae6fdadf3c500fc7d71ab26d3e6db1dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 41/64] fix: report exchanges from or to participants without
 name

---
 src/cplscheme/config/CouplingSchemeConfiguration.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cplscheme/config/CouplingSchemeConfiguration.cpp b/src/cplscheme/config/CouplingSchemeConfiguration.cpp
index 9b7c666..b8f9e97 100644
--- a/src/cplscheme/config/CouplingSchemeConfiguration.cpp
+++ b/src/cplscheme/config/CouplingSchemeConfiguration.cpp
@@ -1036,12 +1036,12 @@ void CouplingSchemeConfiguration::addDataToBeExchanged(
                   "Please check the <exchange data=\"{}\" mesh=\"{}\" from=\"{}\" to=\"{}\" /> tag in the <coupling-scheme:... /> of your precice-config.xml.",
                   dataName, meshName, from, to);
 
-    PRECICE_CHECK((utils::contained(from, _config.participants) || from == _config.controller),
+    PRECICE_CHECK(utils::contained(from, _config.participants),
                   "Participant \"{}\" is not configured for coupling scheme. "
                   "Please check the <exchange data=\"{}\" mesh=\"{}\" from=\"{}\" to=\"{}\" /> tag in the <coupling-scheme:... /> of your precice-config.xml.",
                   from, dataName, meshName, from, to);
 
-    PRECICE_CHECK((utils::contained(to, _config.participants) || to == _config.controller),
+    PRECICE_CHECK(utils::contained(to, _config.participants),
                   "Participant \"{}\" is not configured for coupling scheme. "
                   "Please check the <exchange data=\"{}\" mesh=\"{}\" from=\"{}\" to=\"{}\" /> tag in the <coupling-scheme:... /> of your precice-config.xml.",
                   to, dataName, meshName, from, to);
@@ -1084,11 +1084,11 @@ void CouplingSchemeConfiguration::addMultiDataToBeExchanged(
                   "Please check the <exchange data=\"{}\" mesh=\"{}\" from=\"{}\" to=\"{}\" /> tag in the <coupling-scheme:... /> of your precice-config.xml.",
                   dataName, meshName, from, to);
 
-    PRECICE_CHECK((utils::contained(from, _config.participants) || from == _config.controller),
+    PRECICE_CHECK(utils::contained(from, _config.participants),
                   "Participant \"{}\" is not configured for coupling scheme",
                   from);
 
-    PRECICE_CHECK((utils::contained(to, _config.participants) || to == _config.controller),
+    PRECICE_CHECK(utils::contained(to, _config.participants),
                   "Participant \"{}\" is not configured for coupling scheme", to);
 
     const bool initialize       = exchange.requiresInitialization;
-- 
2.43.0


From 2441aee95059ed7b8dcdb9e3199c6d84d4e24ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 42/64] fix: report missing m2n communication in multi coupling
 schemes

---
 .../config/CouplingSchemeConfiguration.cpp    | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/cplscheme/config/CouplingSchemeConfiguration.cpp b/src/cplscheme/config/CouplingSchemeConfiguration.cpp
index b8f9e97..1dcb378 100644
--- a/src/cplscheme/config/CouplingSchemeConfiguration.cpp
+++ b/src/cplscheme/config/CouplingSchemeConfiguration.cpp
@@ -2,6 +2,7 @@
 #include <cstddef>
 #include <memory>
 #include <ostream>
+#include <set>
 #include <stdexcept>
 #include <utility>
 #include <vector>
@@ -927,6 +928,27 @@ PtrCouplingScheme CouplingSchemeConfiguration::createMultiCouplingScheme(
     }
   }
 
+  // Participants need to communicate with the controller and with all participants they exchange data with
+  std::set<std::string> partners;
+  if (accessor != _config.controller) {
+    partners.insert(_config.controller);
+  }
+  for (const auto &exchange : _config.exchanges) {
+    if (exchange.from == accessor && exchange.to != accessor) {
+      partners.insert(exchange.to);
+    } else if (exchange.to == accessor && exchange.from != accessor) {
+      partners.insert(exchange.from);
+    }
+  }
+  for (const std::string &partner : partners) {
+    if (utils::contained(partner, _config.participants)) {
+      PRECICE_CHECK(m2ns.count(partner) > 0,
+                    "There is no m2n communication configured between the participants \"{}\" and \"{}\" of a multi coupling-scheme. "
+                    "Please add an appropriate <m2n:... /> tag before the coupling-scheme tag.",
+                    accessor, partner);
+    }
+  }
+
   scheme = new MultiCouplingScheme(
       _config.maxTime, _config.maxTimeWindows, _config.timeWindowSize, accessor, m2ns, _config.controller, _config.minIterations, _config.maxIterations);
 
-- 
2.43.0


From d116a60849ff983bde3ead1e73584df4f2bc27de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 43/64] fix: refuse scaled-consistent geometric multiscale
 mappings

---
 src/mapping/config/MappingConfiguration.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mapping/config/MappingConfiguration.cpp b/src/mapping/config/MappingConfiguration.cpp
index 2110901..b4693cd 100644
--- a/src/mapping/config/MappingConfiguration.cpp
+++ b/src/mapping/config/MappingConfiguration.cpp
@@ -695,9 +695,9 @@ MappingConfiguration::ConfiguredMapping MappingConfiguration::createMapping(
 
   } else if (type == TYPE_AXIAL_GEOMETRIC_MULTISCALE) {
 
-    // Axial geometric multiscale is not applicable with the conservative constraint
-    PRECICE_CHECK(constraintValue != Mapping::CONSERVATIVE,
-                  "Axial geometric multiscale mapping is not implemented for the \"conservative\" constraint. "
+    // Axial geometric multiscale is only applicable with the consistent constraint
+    PRECICE_CHECK(constraintValue == Mapping::CONSISTENT,
+                  "Axial geometric multiscale mapping is only implemented for the \"consistent\" constraint. "
                   "Please select constraint=\" consistent\" or a different mapping method.");
 
     // Convert strings into enums
@@ -754,9 +754,9 @@ MappingConfiguration::ConfiguredMapping MappingConfiguration::createMapping(
 
   } else if (type == TYPE_RADIAL_GEOMETRIC_MULTISCALE) {
 
-    // Radial geometric multiscale is not applicable with the conservative constraint
-    PRECICE_CHECK(constraintValue != Mapping::CONSERVATIVE,
-                  "Radial geometric multiscale mapping is not implemented for the \"conservative\" constraint. "
+    // Radial geometric multiscale is only applicable with the consistent constraint
+    PRECICE_CHECK(constraintValue == Mapping::CONSISTENT,
+                  "Radial geometric multiscale mapping is only implemented for the \"consistent\" constraint. "
                   "Please select constraint=\" consistent\" or a different mapping method.");
 
     // Convert strings into enums
-- 
2.43.0


From 3c1bcba08e6f4ad73782a992ce2b820d7d563229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 44/64] fix: report invalid numbers of vertices per cluster and
 relative overlaps

---
 src/mapping/config/MappingConfiguration.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mapping/config/MappingConfiguration.cpp b/src/mapping/config/MappingConfiguration.cpp
index b4693cd..91eda4c 100644
--- a/src/mapping/config/MappingConfiguration.cpp
+++ b/src/mapping/config/MappingConfiguration.cpp
@@ -471,6 +471,12 @@ void MappingConfiguration::xmlTagCallback(
     int    verticesPerCluster = tag.getIntAttributeValue(ATTR_VERTICES_PER_CLUSTER, 100);
     double relativeOverlap    = tag.getDoubleAttributeValue(ATTR_RELATIVE_OVERLAP, 0.3);
     bool   projectToInput     = tag.getBooleanAttributeValue(ATTR_PROJECT_TO_INPUT, true);
+    PRECICE_CHECK(verticesPerCluster > 0,
+                  "The number of vertices per cluster has to be greater than zero, but the mapping from mesh \"{}\" to mesh \"{}\" configures {}=\"{}\".",
+                  fromMesh, toMesh, ATTR_VERTICES_PER_CLUSTER, verticesPerCluster);
+    PRECICE_CHECK(relativeOverlap >= 0 && relativeOverlap < 1,
+                  "The relative overlap has to be in the range [0,1), but the mapping from mesh \"{}\" to mesh \"{}\" configures {}=\"{}\".",
+                  fromMesh, toMesh, ATTR_RELATIVE_OVERLAP, relativeOverlap);
 
     // Convert raw string into enum types as the constructors take enums
     if (constraint == CONSTRAINT_CONSERVATIVE) {
-- 
2.43.0


From 38c471ffac9c89e25d857fac6235b98ee8de0bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:20 +0000
Subject: [PATCH 45/64] fix: keep the gradients of data accelerated by
 quasi-Newton schemes

---
 src/acceleration/BaseQNAcceleration.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/acceleration/BaseQNAcceleration.cpp b/src/acceleration/BaseQNAcceleration.cpp
index 2e843de..a223530 100644
--- a/src/acceleration/BaseQNAcceleration.cpp
+++ b/src/acceleration/BaseQNAcceleration.cpp
@@ -619,6 +619,15 @@ void BaseQNAcceleration::updateCouplingData(
     size_t dataSize     = couplingData.getSize();
 
     Eigen::VectorXd timeGrid = _timeGrids->getTimeGridAfter(id, windowStart);
+
+    // The gradients aren't accelerated, but the samples need to keep them
+    std::vector<Eigen::MatrixXd> gradients(timeGrid.size());
+    if (couplingData.hasGradient()) {
+      for (int i = 0; i < timeGrid.size(); i++) {
+        gradients[i] = couplingData.waveform().getSampleAtOrAfter(timeGrid(i)).gradients;
+      }
+    }
+
     couplingData.waveform().trimAfter(windowStart);
     for (int i = 0; i < timeGrid.size(); i++) {
 
@@ -628,7 +637,7 @@ void BaseQNAcceleration::updateCouplingData(
       }
       offset += dataSize;
 
-      couplingData.setSampleAtTime(timeGrid(i), time::Sample(couplingData.getDimensions(), temp));
+      couplingData.setSampleAtTime(timeGrid(i), time::Sample(couplingData.getDimensions(), temp, gradients[i]));
     }
   }
 }
-- 
2.43.0


From 42349f33ec5f0b7b9f3f98025e1a79966ddb5c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:20 +0000
Subject: [PATCH 46/64] fix: report convergence measures of unknown data

---
 src/cplscheme/config/CouplingSchemeConfiguration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cplscheme/config/CouplingSchemeConfiguration.cpp b/src/cplscheme/config/CouplingSchemeConfiguration.cpp
index 1dcb378..ae3894a 100644
--- a/src/cplscheme/config/CouplingSchemeConfiguration.cpp
+++ b/src/cplscheme/config/CouplingSchemeConfiguration.cpp
@@ -793,7 +793,7 @@ mesh::PtrData CouplingSchemeConfiguration::getData(
     const std::string &dataName,
     const std::string &meshName) const
 {
-  PRECICE_CHECK(_meshConfig->hasMeshName(meshName) && _meshConfig->getMesh(meshName)->data(dataName),
+  PRECICE_CHECK(_meshConfig->hasMeshName(meshName) && _meshConfig->getMesh(meshName)->hasDataName(dataName),
                 "Data \"{}\" used by mesh \"{}\" is not configured.", dataName, meshName);
   const mesh::PtrMesh &mesh = _meshConfig->getMesh(meshName);
   return mesh->data(dataName);
-- 
2.43.0


From ae6701f7aaf1012e5e58a05f1163fccd6d0c9b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:20 +0000
Subject: [PATCH 47/64] fix: report just-in-time mappings of data without
 samples

---
 src/precice/impl/ParticipantImpl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/precice/impl/ParticipantImpl.cpp b/src/precice/impl/ParticipantImpl.cpp
index 8d8ed42..8ed3103 100644
--- a/src/precice/impl/ParticipantImpl.cpp
+++ b/src/precice/impl/ParticipantImpl.cpp
@@ -1317,6 +1317,11 @@ void ParticipantImpl::mapAndReadData(
     return;
   }
 
+  PRECICE_CHECK(dataContext.hasSamples(), "Data \"{}\" cannot be read from mesh \"{}\" as it contains no samples. "
+                                          "This is typically a configuration issue of the data flow. "
+                                          "Check if the data is correctly exchanged to this participant \"{}\".",
+                dataName, meshName, _accessorName);
+
   Event e{fmt::format("mapAndReadData.{}_{}", meshName, dataName), profiling::API};
 
   // Note that meshName refers to a remote mesh
-- 
2.43.0


From fd7565691f6bedb675edc80a0d8170b4dbdaffe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:20 +0000
Subject: [PATCH 48/64] fix: report unknown meshes of participants without
 meshes

---
 src/precice/impl/ParticipantState.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/precice/impl/ParticipantState.cpp b/src/precice/impl/ParticipantState.cpp
index 2b6224e..8a2c70b 100644
--- a/src/precice/impl/ParticipantState.cpp
+++ b/src/precice/impl/ParticipantState.cpp
@@ -454,7 +454,10 @@ void ParticipantState::checkDuplicatedData(std::string_view mesh, std::string_vi
 std::string ParticipantState::hintForMesh(std::string_view mesh) const
 {
   PRECICE_ASSERT(!hasMesh(mesh));
-  PRECICE_ASSERT(!_meshContexts.empty());
+
+  if (_meshContexts.empty()) {
+    return " This participant doesn't know any meshes.";
+  }
 
   if (_meshContexts.size() == 1) {
     return " This participant only knows mesh \"" + _meshContexts.begin()->first + "\".";
-- 
2.43.0


From 19572b2e588b8b22012ddc4652103f09c995f200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:20 +0000
Subject: [PATCH 49/64] fix: report export directories that cannot be created

---
 src/io/Export.cpp    | 3 ++-
 src/io/ExportCSV.cpp | 4 +++-
 src/io/ExportVTK.cpp | 6 ++++--
 src/io/ExportXML.cpp | 6 ++++--
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/io/Export.cpp b/src/io/Export.cpp
index bf6d617..57c1ac5 100644
--- a/src/io/Export.cpp
+++ b/src/io/Export.cpp
@@ -26,7 +26,8 @@ void Export::writeSeriesFile(std::string_view filename) const
   namespace fs = std::filesystem;
   fs::path outfile(_location);
   if (not _location.empty()) {
-    fs::create_directories(outfile);
+    std::error_code ec; // opening the file reports errors
+    fs::create_directories(outfile, ec);
   }
   outfile /= filename;
 
diff --git a/src/io/ExportCSV.cpp b/src/io/ExportCSV.cpp
index e40c0d9..a146e23 100644
--- a/src/io/ExportCSV.cpp
+++ b/src/io/ExportCSV.cpp
@@ -67,12 +67,14 @@ void ExportCSV::doExport(int index, double time)
   namespace fs = std::filesystem;
   fs::path outfile(_location);
   if (not _location.empty()) {
-    fs::create_directories(outfile);
+    std::error_code ec; // opening the file reports errors
+    fs::create_directories(outfile, ec);
   }
   outfile /= filename;
 
   // Prepare filestream
   std::ofstream outFile(outfile.string(), std::ios::trunc);
+  PRECICE_CHECK(outFile, "CSV export failed to open destination file \"{}\"", outfile.generic_string());
   const bool    is3d = (_mesh->getDimensions() == 3);
 
   // write header
diff --git a/src/io/ExportVTK.cpp b/src/io/ExportVTK.cpp
index 5143f51..ac0a83e 100644
--- a/src/io/ExportVTK.cpp
+++ b/src/io/ExportVTK.cpp
@@ -41,8 +41,10 @@ void ExportVTK::doExport(int index, double time)
 
   namespace fs = std::filesystem;
   fs::path outfile(_location);
-  if (not _location.empty())
-    fs::create_directories(outfile);
+  if (not _location.empty()) {
+    std::error_code ec; // opening the file reports errors
+    fs::create_directories(outfile, ec);
+  }
   outfile = outfile / filename;
   std::ofstream outstream(outfile.string(), std::ios::trunc);
   PRECICE_CHECK(outstream, "VTK export failed to open destination file \"{}\"", outfile.generic_string());
diff --git a/src/io/ExportXML.cpp b/src/io/ExportXML.cpp
index da493fc..077140d 100644
--- a/src/io/ExportXML.cpp
+++ b/src/io/ExportXML.cpp
@@ -40,8 +40,10 @@ void ExportXML::doExport(int index, double time)
   const auto &mesh = *_mesh;
 
   processDataNamesAndDimensions(mesh);
-  if (not _location.empty())
-    std::filesystem::create_directories(_location);
+  if (not _location.empty()) {
+    std::error_code ec; // opening the file reports errors
+    std::filesystem::create_directories(_location, ec);
+  }
 
   if (isParallel()) {
     if (_rank == 0) {
-- 
2.43.0


From 2f6e50555ed56d2c585c11f9a4fdd824f5bf8086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:24 +0000
Subject: [PATCH 50/64] fix: report meshes received from unknown or unconnected
 participants

---
 src/precice/config/Configuration.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/precice/config/Configuration.cpp b/src/precice/config/Configuration.cpp
index 0a09abb..4bb8b2e 100644
--- a/src/precice/config/Configuration.cpp
+++ b/src/precice/config/Configuration.cpp
@@ -120,6 +120,19 @@ void Configuration::xmlEndTagCallback(
                   "The connector in <m2n:... acceptor=\"{}\" connector=\"{}\" /> is an unknown. {}",
                   m2n.acceptor, m2n.connector, _participantConfiguration->hintFor(m2n.connector));
   }
+
+  // test if all received meshes come from participants that exist and can be reached
+  for (const impl::PtrParticipant &participant : _participantConfiguration->getParticipants()) {
+    for (const auto &context : participant->receivedMeshContexts()) {
+      PRECICE_CHECK(_participantConfiguration->hasParticipant(context.receiveMeshFrom),
+                    "Participant \"{}\" receives mesh \"{}\" from an unknown participant \"{}\". {}",
+                    participant->getName(), context.mesh->getName(), context.receiveMeshFrom, _participantConfiguration->hintFor(context.receiveMeshFrom));
+      PRECICE_CHECK(_m2nConfiguration->isM2NConfigured(participant->getName(), context.receiveMeshFrom),
+                    "Participant \"{}\" receives mesh \"{}\" from participant \"{}\", but there is no m2n communication configured between these participants. "
+                    "Please add an appropriate \"<m2n />\" tag.",
+                    participant->getName(), context.mesh->getName(), context.receiveMeshFrom);
+    }
+  }
 }
 
 const PtrParticipantConfiguration &
-- 
2.43.0


From 6ac1568403b451fa8cfadc442ea61e68bbe85e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:48 +0000
Subject: [PATCH 51/64] fix: report failed asynchronous socket operations

Requests ignored the error of the operation: data received from a partner
that died was stale, and sends queued on a broken connection never completed.
---
 src/com/Request.cpp             | 14 ++++++++++++-
 src/com/SocketCommunication.cpp | 24 +++++++++++-----------
 src/com/SocketRequest.cpp       |  7 ++++++-
 src/com/SocketRequest.hpp       | 10 +++++++++-
 src/com/SocketSendQueue.cpp     | 35 ++++++++++++++++++++-------------
 src/com/SocketSendQueue.hpp     | 12 +++++++----
 6 files changed, 69 insertions(+), 33 deletions(-)

diff --git a/src/com/Request.cpp b/src/com/Request.cpp
index 4abbefb..fb81704 100644
--- a/src/com/Request.cpp
+++ b/src/com/Request.cpp
@@ -1,3 +1,4 @@
+#include <exception>
 #include <memory>
 
 #include "com/Request.hpp"
@@ -6,8 +7,19 @@ namespace precice::com {
 
 void Request::wait(std::vector<PtrRequest> &requests)
 {
+  // The requests refer to data of the caller. Hence, all of them need to complete before reporting an error.
+  std::exception_ptr error;
   for (const auto &request : requests) {
-    request->wait();
+    try {
+      request->wait();
+    } catch (...) {
+      if (!error) {
+        error = std::current_exception();
+      }
+    }
+  }
+  if (error) {
+    std::rethrow_exception(error);
   }
 }
 
diff --git a/src/com/SocketCommunication.cpp b/src/com/SocketCommunication.cpp
index a199f58..744a2c7 100644
--- a/src/com/SocketCommunication.cpp
+++ b/src/com/SocketCommunication.cpp
@@ -422,8 +422,8 @@ PtrRequest SocketCommunication::aSend(precice::span<const int> itemsToSend, Rank
 
   _queue.dispatch(_sockets[rankReceiver],
                   asio::buffer(itemsToSend.data(), itemsToSend.size() * sizeof(int)),
-                  [request] {
-                    std::static_pointer_cast<SocketRequest>(request)->complete();
+                  [request](boost::system::error_code const &error) {
+                    std::static_pointer_cast<SocketRequest>(request)->complete(error);
                   });
   return request;
 }
@@ -457,8 +457,8 @@ PtrRequest SocketCommunication::aSend(precice::span<const double> itemsToSend, R
 
   _queue.dispatch(_sockets[rankReceiver],
                   asio::buffer(itemsToSend.data(), itemsToSend.size() * sizeof(double)),
-                  [request] {
-                    std::static_pointer_cast<SocketRequest>(request)->complete();
+                  [request](boost::system::error_code const &error) {
+                    std::static_pointer_cast<SocketRequest>(request)->complete(error);
                   });
   return request;
 }
@@ -534,8 +534,8 @@ PtrRequest SocketCommunication::aSend(const bool &itemToSend, Rank rankReceiver)
 
   _queue.dispatch(_sockets[rankReceiver],
                   asio::buffer(&itemToSend, sizeof(bool)),
-                  [request] {
-                    std::static_pointer_cast<SocketRequest>(request)->complete();
+                  [request](boost::system::error_code const &error) {
+                    std::static_pointer_cast<SocketRequest>(request)->complete(error);
                   });
   return request;
 }
@@ -608,8 +608,8 @@ PtrRequest SocketCommunication::aReceive(precice::span<double> itemsToReceive,
   try {
     asio::async_read(*_sockets[rankSender],
                      asio::buffer(itemsToReceive.data(), itemsToReceive.size() * sizeof(double)),
-                     [request](boost::system::error_code const &, std::size_t) {
-                       std::static_pointer_cast<SocketRequest>(request)->complete();
+                     [request](boost::system::error_code const &error, std::size_t) {
+                       std::static_pointer_cast<SocketRequest>(request)->complete(error);
                      });
   } catch (std::exception &e) {
     PRECICE_ERROR("Receiving data from another participant (using sockets) failed with a system error: {}. This often means that the other participant exited with an error (look there).", e.what());
@@ -670,8 +670,8 @@ PtrRequest SocketCommunication::aReceive(int &itemToReceive, Rank rankSender)
   try {
     asio::async_read(*_sockets[rankSender],
                      asio::buffer(&itemToReceive, sizeof(int)),
-                     [request](boost::system::error_code const &, std::size_t) {
-                       std::static_pointer_cast<SocketRequest>(request)->complete();
+                     [request](boost::system::error_code const &error, std::size_t) {
+                       std::static_pointer_cast<SocketRequest>(request)->complete(error);
                      });
   } catch (std::exception &e) {
     PRECICE_ERROR("Receiving data from another participant (using sockets) failed with a system error: {}. This often means that the other participant exited with an error (look there).", e.what());
@@ -710,8 +710,8 @@ PtrRequest SocketCommunication::aReceive(bool &itemToReceive, Rank rankSender)
   try {
     asio::async_read(*_sockets[rankSender],
                      asio::buffer(&itemToReceive, sizeof(bool)),
-                     [request](boost::system::error_code const &, std::size_t) {
-                       std::static_pointer_cast<SocketRequest>(request)->complete();
+                     [request](boost::system::error_code const &error, std::size_t) {
+                       std::static_pointer_cast<SocketRequest>(request)->complete(error);
                      });
   } catch (std::exception &e) {
     PRECICE_ERROR("Receiving data from another participant (using sockets) failed with a system error: {}. This often means that the other participant exited with an error (look there).", e.what());
diff --git a/src/com/SocketRequest.cpp b/src/com/SocketRequest.cpp
index 75d9f69..9cce3cf 100644
--- a/src/com/SocketRequest.cpp
+++ b/src/com/SocketRequest.cpp
@@ -1,12 +1,14 @@
 #include "SocketRequest.hpp"
+#include "logging/LogMacros.hpp"
 
 namespace precice::com {
 
-void SocketRequest::complete()
+void SocketRequest::complete(boost::system::error_code const &error)
 {
   {
     std::lock_guard<std::mutex> lock(_completeMutex);
 
+    _error    = error;
     _complete = true;
   }
 
@@ -26,5 +28,8 @@ void SocketRequest::wait()
 
   // Lock is acquired when the predicate is evaluated.
   _completeCondition.wait(lock, [this] { return _complete; });
+
+  PRECICE_CHECK(not _error,
+                "Exchanging data with another participant (using sockets) failed with a system error: {}. This often means that the other participant exited with an error (look there).", _error.message());
 }
 } // namespace precice::com
diff --git a/src/com/SocketRequest.hpp b/src/com/SocketRequest.hpp
index 0d929fd..88c5c25 100644
--- a/src/com/SocketRequest.hpp
+++ b/src/com/SocketRequest.hpp
@@ -1,21 +1,29 @@
 #pragma once
 
+#include <boost/system/error_code.hpp>
 #include <condition_variable>
 #include <mutex>
 #include "Request.hpp"
+#include "logging/Logger.hpp"
 
 namespace precice::com {
 class SocketRequest : public Request {
 public:
-  void complete();
+  /// Completes the request, passing the outcome of the operation
+  void complete(boost::system::error_code const &error);
 
   bool test() override;
 
+  /// Waits for the completion and raises an error if the operation failed
   void wait() override;
 
 private:
+  logging::Logger _log{"com::SocketRequest"};
+
   bool _complete{false};
 
+  boost::system::error_code _error;
+
   std::condition_variable _completeCondition;
   std::mutex              _completeMutex;
 };
diff --git a/src/com/SocketSendQueue.cpp b/src/com/SocketSendQueue.cpp
index 10664bc..5ad200e 100644
--- a/src/com/SocketSendQueue.cpp
+++ b/src/com/SocketSendQueue.cpp
@@ -20,35 +20,42 @@ SocketSendQueue::~SocketSendQueue()
 
 void SocketSendQueue::dispatch(std::shared_ptr<Socket>   sock,
                                boost::asio::const_buffer data,
-                               std::function<void()>     callback)
+                               Callback                  callback)
 {
   std::lock_guard<std::mutex> lock(_queueMutex);
   _itemQueue.push_back({std::move(sock), std::move(data), std::move(callback)});
   process(); // if queue was previously empty, start it now.
 }
 
-void SocketSendQueue::sendCompleted()
+void SocketSendQueue::sendCompleted(std::shared_ptr<Socket> const &sock, boost::system::error_code const &error)
 {
   std::lock_guard<std::mutex> lock(_queueMutex);
+  if (error) {
+    _failed[sock] = error;
+  }
   _ready = true;
   process(); // if queue was previously empty, start it now.
 }
 
 void SocketSendQueue::process()
 {
-  if (!_ready || _itemQueue.empty()) {
-    return;
+  while (_ready && !_itemQueue.empty()) {
+    auto item = _itemQueue.front();
+    _itemQueue.pop_front();
+
+    if (auto failed = _failed.find(item.sock); failed != _failed.end()) {
+      item.callback(failed->second);
+      continue;
+    }
+
+    _ready = false;
+    asio::async_write(*(item.sock),
+                      item.data,
+                      [item, this](boost::system::error_code const &error, std::size_t) {
+                        item.callback(error);
+                        this->sendCompleted(item.sock, error);
+                      });
   }
-
-  auto item = _itemQueue.front();
-  _itemQueue.pop_front();
-  _ready = false;
-  asio::async_write(*(item.sock),
-                    item.data,
-                    [item, this](boost::system::error_code const &, std::size_t) {
-                      item.callback();
-                      this->sendCompleted();
-                    });
 }
 
 } // namespace precice::com
diff --git a/src/com/SocketSendQueue.hpp b/src/com/SocketSendQueue.hpp
index c04b29b..16e8369 100644
--- a/src/com/SocketSendQueue.hpp
+++ b/src/com/SocketSendQueue.hpp
@@ -3,6 +3,7 @@
 #include <boost/asio.hpp>
 #include <deque>
 #include <functional>
+#include <map>
 #include <memory>
 #include <mutex>
 #include <string>
@@ -14,7 +15,8 @@ namespace precice::com {
 /// It ensures that the invocations of asio::aSend are done serially.
 class SocketSendQueue {
 public:
-  using Socket = boost::asio::ip::tcp::socket;
+  using Socket   = boost::asio::ip::tcp::socket;
+  using Callback = std::function<void(boost::system::error_code const &)>;
 
   SocketSendQueue() = default;
   ~SocketSendQueue();
@@ -23,10 +25,10 @@ public:
   SocketSendQueue &operator=(SocketSendQueue const &) = delete;
 
   /// Put data in the queue, start processing the queue.
-  void dispatch(std::shared_ptr<Socket> sock, boost::asio::const_buffer data, std::function<void()> callback);
+  void dispatch(std::shared_ptr<Socket> sock, boost::asio::const_buffer data, Callback callback);
 
   /// Notifies the queue that the last asynchronous send operation has completed.
-  void sendCompleted();
+  void sendCompleted(std::shared_ptr<Socket> const &sock, boost::system::error_code const &error);
 
 private:
   /// This method can be called arbitrarily many times, but enough times to ensure the queue makes progress.
@@ -35,7 +37,7 @@ private:
   struct SendItem {
     std::shared_ptr<Socket>   sock;
     boost::asio::const_buffer data;
-    std::function<void()>     callback;
+    Callback                  callback;
   };
 
   /// The queue, containing items to asynchronously send using boost.asio.
@@ -44,6 +46,8 @@ private:
   std::mutex _queueMutex{};
   /// Is the queue allowed to start another asynchronous send?
   bool _ready = true;
+  /// Sockets that failed. There are no notifications for further operations on them, so they fail immediately.
+  std::map<std::shared_ptr<Socket>, boost::system::error_code> _failed;
 };
 
 } // namespace precice::com
-- 
2.43.0


From 2311b0d5eb3f0f236b16b6d3850d44099632d0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:48 +0000
Subject: [PATCH 52/64] fix: allow to receive integers asynchronously from any
 connected rank

---
 src/com/SocketCommunication.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/com/SocketCommunication.cpp b/src/com/SocketCommunication.cpp
index 744a2c7..bca6181 100644
--- a/src/com/SocketCommunication.cpp
+++ b/src/com/SocketCommunication.cpp
@@ -661,8 +661,7 @@ PtrRequest SocketCommunication::aReceive(int &itemToReceive, Rank rankSender)
 
   rankSender = adjustRank(rankSender);
 
-  PRECICE_ASSERT((rankSender >= 0) && (rankSender < (int) _sockets.size()),
-                 rankSender, _sockets.size());
+  PRECICE_ASSERT(rankSender >= 0, rankSender);
   PRECICE_ASSERT(isConnected());
 
   PtrRequest request(new SocketRequest);
-- 
2.43.0


From b834adff4aa8b597f0c26fe4a9dc8b775923e91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 53/64] fix: complete error messages about connection files and
 damaged connection information

---
 src/com/ConnectionInfoPublisher.cpp | 2 +-
 src/m2n/M2N.cpp                     | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/com/ConnectionInfoPublisher.cpp b/src/com/ConnectionInfoPublisher.cpp
index 11b3732..0e02b9e 100644
--- a/src/com/ConnectionInfoPublisher.cpp
+++ b/src/com/ConnectionInfoPublisher.cpp
@@ -117,7 +117,7 @@ void ConnectionInfoWriter::write(std::string_view info) const
                    "This is likely a leftover of a previous crash or stop during communication build-up. "
                    "Please remove the \"precice-run\" directory and restart the simulation.";
     PRECICE_CHECK(!fs::exists(path), message, "", path);
-    PRECICE_CHECK(!fs::exists(tmp), message, "temporary ");
+    PRECICE_CHECK(!fs::exists(tmp), message, "temporary ", tmp.generic_string());
   }
 
   PRECICE_DEBUG("Writing temporary connection file \"{}\"", tmp.generic_string());
diff --git a/src/m2n/M2N.cpp b/src/m2n/M2N.cpp
index cdfc3a9..f1d535f 100644
--- a/src/m2n/M2N.cpp
+++ b/src/m2n/M2N.cpp
@@ -57,7 +57,8 @@ void M2N::checkRemoteInfo(std::string_view localParticipant,
                           std::string_view remoteInfo)
 {
   auto sep = remoteInfo.find(";");
-  PRECICE_CHECK(sep != std::string::npos, "The received information string from participant {} is damaged. \"{}\"");
+  PRECICE_CHECK(sep != std::string::npos, "The received information string from participant {} is damaged. \"{}\"",
+                remoteParticipant, remoteInfo);
 
   auto remoteVersion = remoteInfo.substr(0, sep);
   PRECICE_CHECK(remoteVersion == PRECICE_VERSION,
-- 
2.43.0


From 783916ebc0c2084417200e976f4fe2ede876c2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:19 +0000
Subject: [PATCH 54/64] fix: do not communicate when closing connections of the
 primary rank

---
 src/m2n/M2N.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/m2n/M2N.cpp b/src/m2n/M2N.cpp
index f1d535f..f88ba90 100644
--- a/src/m2n/M2N.cpp
+++ b/src/m2n/M2N.cpp
@@ -226,11 +226,10 @@ void M2N::closePrimaryRankConnection()
   PRECICE_TRACE();
   if (not utils::IntraComm::isSecondary() && _interComm->isConnected()) {
     _interComm->closeConnection();
-    _isPrimaryRankConnected = false;
   }
 
-  utils::IntraComm::broadcast(_isPrimaryRankConnected);
-  PRECICE_ASSERT(not _isPrimaryRankConnected);
+  // There is no communication with the other ranks here as they may expect other messages, or be gone, after an error
+  _isPrimaryRankConnected = false;
 }
 
 void M2N::closeDistributedConnections()
-- 
2.43.0


From 99e0124b8a66d5f2b396cd5d9d25c425e1d5f67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:19 +0000
Subject: [PATCH 55/64] fix: order exchanges between participants of a multi
 coupling scheme that do not control it

---
 src/cplscheme/MultiCouplingScheme.cpp | 57 +++++++++++++++++++++------
 src/cplscheme/MultiCouplingScheme.hpp |  6 +++
 2 files changed, 51 insertions(+), 12 deletions(-)

diff --git a/src/cplscheme/MultiCouplingScheme.cpp b/src/cplscheme/MultiCouplingScheme.cpp
index fe979cd..0d4e094 100644
--- a/src/cplscheme/MultiCouplingScheme.cpp
+++ b/src/cplscheme/MultiCouplingScheme.cpp
@@ -97,18 +97,21 @@ void MultiCouplingScheme::exchangeInitialData()
       }
     }
   } else {
-    for (auto &[to, data] : _sendDataVector) {
+    auto sendInitialTo = [this](const std::string &to) {
       if (sendsInitializedDataTo(to)) {
-        sendData(_m2ns.at(to), data);
+        sendData(_m2ns.at(to), _sendDataVector.at(to));
       }
-    }
-    for (auto &[from, data] : _receiveDataVector) {
+    };
+    auto receiveInitialFrom = [this](const std::string &from) {
       if (receivesInitializedDataFrom(from)) {
-        receiveData(_m2ns.at(from), data);
-      } else {
-        initializeWithZeroInitialData(data);
+        receiveData(_m2ns.at(from), _receiveDataVector.at(from));
+      } else if (auto iter = _receiveDataVector.find(from); iter != _receiveDataVector.end()) {
+        initializeWithZeroInitialData(iter->second);
       }
-    }
+    };
+    sendInitialTo(_controller);
+    exchangeWithOtherParticipants(sendInitialTo, receiveInitialFrom);
+    receiveInitialFrom(_controller);
     notifyDataHasBeenReceived();
   }
   PRECICE_DEBUG("Initial data is exchanged in MultiCouplingScheme");
@@ -138,8 +141,37 @@ void MultiCouplingScheme::exchangeFirstData()
     }
     notifyDataHasBeenReceived();
   } else {
-    for (auto &sendExchange : _sendDataVector) {
-      sendData(_m2ns[sendExchange.first], sendExchange.second);
+    auto send = [this](const std::string &to) {
+      if (auto iter = _sendDataVector.find(to); iter != _sendDataVector.end()) {
+        sendData(_m2ns.at(to), iter->second);
+      }
+    };
+    auto receive = [this](const std::string &from) {
+      if (auto iter = _receiveDataVector.find(from); iter != _receiveDataVector.end()) {
+        receiveData(_m2ns.at(from), iter->second);
+      }
+    };
+    send(_controller);
+    exchangeWithOtherParticipants(send, receive);
+  }
+}
+
+void MultiCouplingScheme::exchangeWithOtherParticipants(
+    const std::function<void(const std::string &)> &send,
+    const std::function<void(const std::string &)> &receive)
+{
+  // All participants visit their partners in the same order and one side of each pair sends first.
+  // This cannot lead to a deadlock even if sending blocks until the data has been received.
+  for (const auto &partner : _m2ns | boost::adaptors::map_keys) {
+    if (partner == _controller) {
+      continue;
+    }
+    if (localParticipant() < partner) {
+      send(partner);
+      receive(partner);
+    } else {
+      receive(partner);
+      send(partner);
     }
   }
 }
@@ -152,8 +184,9 @@ void MultiCouplingScheme::exchangeSecondData()
 
   if (not _isController) {
     receiveConvergence(_m2ns[_controller]);
-    for (auto &receiveExchange : _receiveDataVector) {
-      receiveData(_m2ns[receiveExchange.first], receiveExchange.second);
+    // The data of all other participants was received along with sending the data of this participant
+    if (auto iter = _receiveDataVector.find(_controller); iter != _receiveDataVector.end()) {
+      receiveData(_m2ns[_controller], iter->second);
     }
     notifyDataHasBeenReceived();
   } else {
diff --git a/src/cplscheme/MultiCouplingScheme.hpp b/src/cplscheme/MultiCouplingScheme.hpp
index 1db913b..87ad589 100644
--- a/src/cplscheme/MultiCouplingScheme.hpp
+++ b/src/cplscheme/MultiCouplingScheme.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <functional>
 #include <map>
 #include <string>
 #include <vector>
@@ -72,6 +73,11 @@ private:
    */
   std::map<std::string, m2n::PtrM2N> _m2ns;
 
+  /// Sends data to and receives data from all partners except the controller, without deadlocks.
+  void exchangeWithOtherParticipants(
+      const std::function<void(const std::string &)> &send,
+      const std::function<void(const std::string &)> &receive);
+
   /**
    * @brief A vector of all data to be received.
    */
-- 
2.43.0


From 28e384ee2e47140fe7058d89292fd032666840db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:19 +0000
Subject: [PATCH 56/64] fix: allow scale-by-area actions on ranks without
 vertices

---
 src/action/ScaleByAreaAction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/action/ScaleByAreaAction.cpp b/src/action/ScaleByAreaAction.cpp
index 8a9d963..2d8c76e 100644
--- a/src/action/ScaleByAreaAction.cpp
+++ b/src/action/ScaleByAreaAction.cpp
@@ -37,14 +37,14 @@ void ScaleByAreaAction::performAction()
     PRECICE_ASSERT(targetValues.size() / valueDimensions == areas.size());
 
     if (meshDimensions == 2) {
-      PRECICE_CHECK(getMesh()->edges().size() != 0,
+      PRECICE_CHECK(getMesh()->edges().size() != 0 || getMesh()->nVertices() == 0,
                     "The multiply/divide-by-area actions require meshes with connectivity information. In 2D, please ensure that the mesh {} contains edges.", getMesh()->getName());
       for (mesh::Edge &edge : getMesh()->edges()) {
         areas[edge.vertex(0).getID()] += edge.getEnclosingRadius();
         areas[edge.vertex(1).getID()] += edge.getEnclosingRadius();
       }
     } else {
-      PRECICE_CHECK(getMesh()->triangles().size() != 0,
+      PRECICE_CHECK(getMesh()->triangles().size() != 0 || getMesh()->nVertices() == 0,
                     "The multiply/divide-by-area actions require meshes with connectivity information. In 3D, please ensure that the mesh {} contains triangles.", getMesh()->getName());
       for (mesh::Triangle &face : getMesh()->triangles()) {
         areas[face.vertex(0).getID()] += face.getArea() / 3.0;
-- 
2.43.0


From 20781dc09b1878cacb9213dc00430d02a464c462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:21 +0000
Subject: [PATCH 57/64] fix: do not map samples of completed time windows again
 if window sizes differ

---
 src/precice/impl/DataContext.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/precice/impl/DataContext.cpp b/src/precice/impl/DataContext.cpp
index 477f4f8..3655fc0 100644
--- a/src/precice/impl/DataContext.cpp
+++ b/src/precice/impl/DataContext.cpp
@@ -133,8 +133,10 @@ int DataContext::mapData(std::optional<double> after, bool skipZero)
                   "The expected exchange tag should look like this: <exchange data=\"{0}\" mesh=\"{1}\" from=... to=... />.",
                   context.fromData->getName(), context.mapping->getInputMesh()->getName(), context.mapping->getOutputMesh()->getName());
 
+    const Eigen::VectorXd times = context.toData->waveform().getTimes();
+
     // linear lookup should be sufficient here
-    const auto timestampExists = [times = context.toData->waveform().getTimes()](double lookup) -> bool {
+    const auto timestampExists = [&times](double lookup) -> bool {
       return std::any_of(times.data(), std::next(times.data(), times.size()), [lookup](double time) {
         return math::equals(time, lookup);
       });
@@ -150,6 +152,11 @@ int DataContext::mapData(std::optional<double> after, bool skipZero)
         PRECICE_DEBUG("Skipping stample t={} (not after {})", stample.timestamp, *after);
         continue;
       }
+      // skip stamples of already completed time windows, which are kept for coupling schemes with larger time windows
+      if (times.size() > 0 && math::smaller(stample.timestamp, times[0])) {
+        PRECICE_DEBUG("Skipping stample t={} (before t={})", stample.timestamp, times[0]);
+        continue;
+      }
       // skip existing stamples
       if (timestampExists(stample.timestamp)) {
         PRECICE_DEBUG("Skipping stample t={} (exists)", stample.timestamp);
-- 
2.43.0


From e1a4bb36390767a8f87642352e85bcfb0896678f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:03 +0000
Subject: [PATCH 58/64] fix: restart quasi-Newton preconditioners when meshes
 are redefined

The weights, their history and the flag of ranks without data of the previous
meshes were used for the new ones.
---
 src/acceleration/BaseQNAcceleration.cpp             |  8 +++++---
 src/acceleration/impl/Preconditioner.hpp            | 13 +++++++++++++
 src/acceleration/impl/ResidualSumPreconditioner.cpp | 10 ++++++++++
 src/acceleration/impl/ResidualSumPreconditioner.hpp |  2 ++
 src/acceleration/impl/ValuePreconditioner.cpp       |  6 ++++++
 src/acceleration/impl/ValuePreconditioner.hpp       |  2 ++
 6 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/src/acceleration/BaseQNAcceleration.cpp b/src/acceleration/BaseQNAcceleration.cpp
index a223530..9e5a656 100644
--- a/src/acceleration/BaseQNAcceleration.cpp
+++ b/src/acceleration/BaseQNAcceleration.cpp
@@ -110,6 +110,10 @@ void BaseQNAcceleration::initialize(
   }
   _matrixCols.clear();
   _matrixCols.push_front(0);
+  // The weights belong to the previous meshes when using remeshing
+  if (_preconditioner) {
+    _preconditioner->reset();
+  }
   _firstIteration  = true;
   _firstTimeWindow = true;
 }
@@ -929,9 +933,7 @@ void BaseQNAcceleration::initializeVectorsAndPreconditioner(const DataMap &cplDa
     PRECICE_ASSERT(utils::IntraComm::getCommunication() != nullptr);
     PRECICE_ASSERT(utils::IntraComm::getCommunication()->isConnected());
 
-    if (primaryDataSize <= 0) {
-      _hasNodesOnInterface = false;
-    }
+    _hasNodesOnInterface = primaryDataSize > 0;
 
     /** provide vertex offset information for all processors
      *  mesh->getVertexOffsets() provides an array that stores the number of mesh vertices on each processor
diff --git a/src/acceleration/impl/Preconditioner.hpp b/src/acceleration/impl/Preconditioner.hpp
index 7b5f07c..72d032d 100644
--- a/src/acceleration/impl/Preconditioner.hpp
+++ b/src/acceleration/impl/Preconditioner.hpp
@@ -55,6 +55,19 @@ public:
     _invWeights.resize(N, 1.0);
   }
 
+  /// Forgets the weights and their history, e.g. as they belong to meshes that don't exist anymore. Call initialize() afterwards.
+  virtual void reset()
+  {
+    _weights.clear();
+    _invWeights.clear();
+    _subVectorSizes.clear();
+    _subVectorNames.clear();
+    _subVectorOffsets.clear();
+    _nbNonConstTimeWindows = 0;
+    _requireNewQR          = false;
+    _frozen                = false;
+  }
+
   /**
    * @brief Apply preconditioner to matrix
    * @param transpose: false = from left, true = from right
diff --git a/src/acceleration/impl/ResidualSumPreconditioner.cpp b/src/acceleration/impl/ResidualSumPreconditioner.cpp
index e8c050e..f3bde33 100644
--- a/src/acceleration/impl/ResidualSumPreconditioner.cpp
+++ b/src/acceleration/impl/ResidualSumPreconditioner.cpp
@@ -25,6 +25,16 @@ void ResidualSumPreconditioner::initialize(std::vector<size_t> svs, std::vector<
   _previousResidualSum.resize(_subVectorSizes.size(), 0.0);
 }
 
+void ResidualSumPreconditioner::reset()
+{
+  PRECICE_TRACE();
+  Preconditioner::reset();
+
+  _residualSum.clear();
+  _previousResidualSum.clear();
+  _firstTimeWindow = true;
+}
+
 void ResidualSumPreconditioner::_update_(bool                   timeWindowComplete,
                                          const Eigen::VectorXd &oldValues,
                                          const Eigen::VectorXd &res)
diff --git a/src/acceleration/impl/ResidualSumPreconditioner.hpp b/src/acceleration/impl/ResidualSumPreconditioner.hpp
index b4e45f7..9391ae4 100644
--- a/src/acceleration/impl/ResidualSumPreconditioner.hpp
+++ b/src/acceleration/impl/ResidualSumPreconditioner.hpp
@@ -23,6 +23,8 @@ public:
 
   void initialize(std::vector<size_t> svs, std::vector<std::string> svNames) override;
 
+  void reset() override;
+
 private:
   /**
    * @brief Update the scaling after every FSI iteration.
diff --git a/src/acceleration/impl/ValuePreconditioner.cpp b/src/acceleration/impl/ValuePreconditioner.cpp
index b3198fa..a201a20 100644
--- a/src/acceleration/impl/ValuePreconditioner.cpp
+++ b/src/acceleration/impl/ValuePreconditioner.cpp
@@ -13,6 +13,12 @@ ValuePreconditioner::ValuePreconditioner(
 {
 }
 
+void ValuePreconditioner::reset()
+{
+  Preconditioner::reset();
+  _firstTimeWindow = true;
+}
+
 void ValuePreconditioner::_update_(bool                   timeWindowComplete,
                                    const Eigen::VectorXd &oldValues,
                                    const Eigen::VectorXd &res)
diff --git a/src/acceleration/impl/ValuePreconditioner.hpp b/src/acceleration/impl/ValuePreconditioner.hpp
index c145935..bc8eae8 100644
--- a/src/acceleration/impl/ValuePreconditioner.hpp
+++ b/src/acceleration/impl/ValuePreconditioner.hpp
@@ -17,6 +17,8 @@ public:
    */
   ~ValuePreconditioner() override = default;
 
+  void reset() override;
+
 private:
   logging::Logger _log{"acceleration::ValuePreconditioner"};
 
-- 
2.43.0


From da807691d378f9a5eb89f1659b4df6c37b464799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:41 +0000
Subject: [PATCH 59/64] fix: report calls of the C bindings without participant
 instead of crashing

---
 extras/bindings/c/src/preciceC.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extras/bindings/c/src/preciceC.cpp b/extras/bindings/c/src/preciceC.cpp
index cfc1c08..2d8f058 100644
--- a/extras/bindings/c/src/preciceC.cpp
+++ b/extras/bindings/c/src/preciceC.cpp
@@ -126,6 +126,7 @@ try {
 
 double precicec_getMaxTimeStepSize()
 try {
+  PRECICE_CHECK(impl != nullptr, errormsg);
   return impl->getMaxTimeStepSize();
 } catch (::precice::Error &e) {
   std::abort();
@@ -409,6 +410,7 @@ void precicec_setMeshAccessRegion(
     const char   *meshName,
     const double *boundingBox)
 try {
+  PRECICE_CHECK(impl != nullptr, errormsg);
   auto bbSize = static_cast<long unsigned>(impl->getMeshDimensions(meshName)) * 2;
   impl->setMeshAccessRegion(meshName, {boundingBox, bbSize});
 } catch (::precice::Error &e) {
@@ -421,6 +423,7 @@ void precicec_getMeshVertexIDsAndCoordinates(
     int        *ids,
     double     *coordinates)
 try {
+  PRECICE_CHECK(impl != nullptr, errormsg);
   auto coordinatesSize = static_cast<long unsigned>(impl->getMeshDimensions(meshName) * size);
   impl->getMeshVertexIDsAndCoordinates(meshName, {ids, static_cast<unsigned long>(size)}, {coordinates, coordinatesSize});
 } catch (::precice::Error &e) {
@@ -429,6 +432,7 @@ try {
 
 void precicec_startProfilingSection(const char *sectionName)
 try {
+  PRECICE_CHECK(impl != nullptr, errormsg);
   impl->startProfilingSection(sectionName);
 } catch (::precice::Error &e) {
   std::abort();
@@ -436,6 +440,7 @@ try {
 
 void precicec_stopLastProfilingSection()
 try {
+  PRECICE_CHECK(impl != nullptr, errormsg);
   impl->stopLastProfilingSection();
 } catch (::precice::Error &e) {
   std::abort();
-- 
2.43.0


From 1b7fbb7b16c6d40c1b00ddda37f7b6a02ac05a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:41 +0000
Subject: [PATCH 60/64] fix: do not read in front of blank strings in the
 Fortran bindings

---
 extras/bindings/fortran/src/preciceFortran.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extras/bindings/fortran/src/preciceFortran.cpp b/extras/bindings/fortran/src/preciceFortran.cpp
index 8dc7691..0ee76f2 100644
--- a/extras/bindings/fortran/src/preciceFortran.cpp
+++ b/extras/bindings/fortran/src/preciceFortran.cpp
@@ -424,7 +424,7 @@ int precice::impl::strippedLength(
     int         length)
 {
   int i = length - 1;
-  while (((string[i] == ' ') || (string[i] == 0)) && (i >= 0)) {
+  while ((i >= 0) && ((string[i] == ' ') || (string[i] == 0))) {
     i--;
   }
   return i + 1;
-- 
2.43.0


From 228147337c5e275885a78beb7092269fa16fc369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:42 +0000
Subject: [PATCH 61/64] fix: let Fortran find precicef_set_tetrahedron

---
 extras/bindings/fortran/include/precice/preciceFortran.hpp | 2 +-
 extras/bindings/fortran/src/preciceFortran.cpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/extras/bindings/fortran/include/precice/preciceFortran.hpp b/extras/bindings/fortran/include/precice/preciceFortran.hpp
index e98ef17..4b9b170 100644
--- a/extras/bindings/fortran/include/precice/preciceFortran.hpp
+++ b/extras/bindings/fortran/include/precice/preciceFortran.hpp
@@ -505,7 +505,7 @@ PRECICE_API void precicef_set_mesh_tetrahedron_(
  * @brief @deprecated Use precicef_set_mesh_tetrahedron_() instead.
  * @see precicef_set_mesh_tetrahedron_
  */
-PRECICE_API void precicef_set_tetrahedron(
+PRECICE_API void precicef_set_tetrahedron_(
     const char *meshName,
     const int  *firstVertexID,
     const int  *secondVertexID,
diff --git a/extras/bindings/fortran/src/preciceFortran.cpp b/extras/bindings/fortran/src/preciceFortran.cpp
index 0ee76f2..e264d2b 100644
--- a/extras/bindings/fortran/src/preciceFortran.cpp
+++ b/extras/bindings/fortran/src/preciceFortran.cpp
@@ -616,7 +616,7 @@ void precicef_set_quad_(
   precicef_set_mesh_quad_(meshName, firstVertexID, secondVertexID, thirdVertexID, fourthVertexID, meshNameLength);
 }
 
-void precicef_set_tetrahedron(
+void precicef_set_tetrahedron_(
     const char *meshName,
     const int  *firstVertexID,
     const int  *secondVertexID,
-- 
2.43.0


From ae1fc63a94b154617dfd7524953717a7bfc6bbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:10 +0000
Subject: [PATCH 62/64] fix: write profiling records directly with
 flush-every=1

---
 src/profiling/EventUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/profiling/EventUtils.cpp b/src/profiling/EventUtils.cpp
index 2628ade..5dfc363 100644
--- a/src/profiling/EventUtils.cpp
+++ b/src/profiling/EventUtils.cpp
@@ -230,7 +230,7 @@ void EventRegistry::put(PendingEntry pe)
   auto skipFlush = _writeQueueMax != 1 && std::holds_alternative<StartEntry>(pe);
 
   _writeQueue.emplace_back(std::move(pe));
-  if (!skipFlush && _writeQueueMax > 0 && _writeQueue.size() > _writeQueueMax) {
+  if (!skipFlush && _writeQueueMax > 0 && _writeQueue.size() >= _writeQueueMax) {
     flush();
   }
 }
-- 
2.43.0


From afc3678a61ee67ef202862bee619e0438e9366f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:10 +0000
Subject: [PATCH 63/64] fix: stop the solver.initialize event when finalizing
 before initialize

---
 src/precice/impl/ParticipantImpl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/precice/impl/ParticipantImpl.cpp b/src/precice/impl/ParticipantImpl.cpp
index 8ed3103..50e0b3d 100644
--- a/src/precice/impl/ParticipantImpl.cpp
+++ b/src/precice/impl/ParticipantImpl.cpp
@@ -589,11 +589,12 @@ void ParticipantImpl::finalize()
   PRECICE_TRACE();
   PRECICE_CHECK(_state != State::Finalized, "finalize() may only be called once.");
 
-  // First we gracefully stop all existing user events and finally the last solver.advance event
+  // First we gracefully stop all existing user events and finally the last solver event
   while (!_userEvents.empty()) {
     // Ensure reverse destruction order for correct nesting
     _userEvents.pop_back();
   }
+  _solverInitEvent.reset();
   _solverAdvanceEvent.reset();
 
   Event e("finalize", profiling::Fundamental);
-- 
2.43.0


From cbf210f5e3ea367091963b77c288bb4dafd5f5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:10 +0000
Subject: [PATCH 64/64] fix: let precice-profiling read files of programs that
 died and names with colons

---
 tools/profiling/precice-profiling | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/tools/profiling/precice-profiling b/tools/profiling/precice-profiling
index 7d82e21..133e0f6 100755
--- a/tools/profiling/precice-profiling
+++ b/tools/profiling/precice-profiling
@@ -54,10 +54,12 @@ def readJSON(filename: pathlib.Path):
 
 
 def expandTXTRecord(s: str):
-    parts = s[1:].rstrip().split(":")
+    record = s[1:].rstrip("\r\n")
+    parts = record.split(":")
     match s[0]:
         case "N":
-            eid, name = int(parts[0]), parts[1]
+            eid, name = record.split(":", 1)
+            eid = int(eid)
             return {"et": "n", "eid": eid, "en": name}
         case "B":
             eid, ts = map(int, parts)
@@ -285,14 +287,13 @@ def groupEvents(
 
     # Handle leftover events in case of a truncated input file
     if active:
-        lastTS = min(map(lambda e: e["ts"] + e["dur"], completed))
+        lastTS = max(int(e["ts"]) for e in events if e["et"] != "n")
         for event in active.values():
             name = event["eid"]  # This is a global id
             print(f"Truncating event without end {name}")
-            begin = active[name]
-            ts = int(begin["ts"]) + initTime
-            dur = lastTS - begin["ts"]
-            data = begin.get("data")
+            ts = int(event["ts"]) + initTime
+            dur = lastTS - int(event["ts"])
+            data = event.get("data")
             insertEvent(cur, pid, rank, name, ts, dur, data)
 
 
-- 
2.43.0

