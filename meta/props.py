P = "src/precice/impl/"
C = "src/cplscheme/"
EXEC = "Executes the real library: every rank of every participant is a fiber under a controlled scheduler on an in-memory transport that keeps the semantics of the socket layer. "
PROPS = []


def prop(**k):
    PROPS.append(k)


prop(id="C01", title="Coupled participants never wait for each other forever",
     statement="Participants with consistent configurations that follow the documented call order (initialize, advance while the coupling is ongoing, finalize) all reach the end of the simulation: no order of events on any rank of any participant, buffered or unbuffered messages, leads to a deadlock, to a lost, mismatched or left-over message, or to an error. All ranks of all participants agree on the number of time windows and iterations. The data each rank reads does not depend on the order of events. With wait-in-finalize, no participant leaves finalize() (or the destructor that implies it) before the participants it is connected to have entered it.",
     over=["schedules", "configurations"],
     quant="all interleavings of the communication operations of all ranks up to a bound of deviations from the default schedule, rendezvous and buffered sends, on topologies of 2-3 participants with 1-3 ranks, every coupling scheme and m2n option, with and without wait-in-finalize",
     why="the tests run one uncontrolled schedule each, with buffered local connections; deadlocks that need an unbuffered send or another order of ranks do not show up",
     files=[P + "ParticipantImpl.cpp", "src/m2n/M2N.cpp", "src/m2n/PointToPointCommunication.cpp", "src/m2n/GatherScatterCommunication.cpp", "src/partition/ReceivedPartition.cpp", "src/partition/ProvidedPartition.cpp", C + "BaseCouplingScheme.cpp", "src/com/Communication.cpp"],
     mech=[("order of initialization", P + "ParticipantImpl.cpp initialize"), ("exchange order of coupling schemes", C + "SerialCouplingScheme.cpp, ParallelCouplingScheme.cpp, MultiCouplingScheme.cpp"), ("asynchronous sends", "src/m2n/PointToPointCommunication.cpp")],
     observe=["return of every API call on every rank", "messages at the transport"],
     technique="stateless model checking of the implementation: deviation-bounded exploration of schedules under a controlled scheduler",
     note=EXEC + "All fixed scheduling policies on every topology, and all schedules with up to the stated number of deviations on small ones. Trusts the in-memory transport to represent the socket layer (C18 checks the latter).")
prop(id="C02", title="All participants agree on time, whatever steps they take",
     statement="Participants advance from window to window in step: a participant may use any positive step up to getMaxTimeStepSize, which always is the remainder of the current window (cut by max-time); isTimeWindowComplete is true exactly after the step that ends a window in a converged iteration; after the iteration is repeated, time is back at the start of the window; the simulation ends exactly after max-time or max-time-windows, on all ranks of all participants at once, and rounding of sums of steps neither adds nor loses a window. With the first-participant method the second participant follows the steps of the first. Steps that are zero, negative, not finite or too large are refused without effect.",
     over=["histories", "configurations", "inputs"],
     quant="all combinations of coupling scheme, window size (decimal and binary fractions), max-time and max-time-windows, all sequences of steps over a small alphabet (whole window, halves, thirds, tenths, uneven) of both participants, up to several hundred windows; refused steps at every state",
     why="tests use few well-behaved sizes; lost or additional windows need particular decimal sizes, sequences of steps or ends of the simulation",
     files=[C + "BaseCouplingScheme.cpp", C + "SerialCouplingScheme.cpp", "src/utils/DoubleAggregator.hpp", "src/math/differences.hpp", P + "ParticipantImpl.cpp"],
     mech=[("time handling", "src/cplscheme/impl/TimeHandler.hpp"), ("end of windows", C + "BaseCouplingScheme.cpp")],
     observe=["getMaxTimeStepSize, isTimeWindowComplete, isCouplingOngoing after every call on every rank", "times at which data is readable"],
     technique="explicit-state model of time and iterations; every history of the bounded space is executed on the implementation and compared call by call",
     note=EXEC + "Total simulated time is bounded by about 1000 units (absolute tolerance of the time comparison).")
prop(id="C03", title="Implicit coupling iterates exactly until convergence",
     statement="An implicit or multi coupling scheme repeats a time window until its convergence measures are fulfilled, as each is defined: absolute, relative, residual-relative and absolute-or-relative limits, suffices and strict measures, minimum and maximum number of iterations. All participants and ranks take the same decision; checkpoints are requested to be written exactly at the start of a window that may iterate and to be read exactly when a window is repeated; exceeding max-iterations accepts the window, or ends every participant with an error if a strict measure is not fulfilled. The iterations and convergence logs record what happened.",
     over=["histories", "configurations", "inputs"],
     quant="all sequences of data values from an alphabet around the limits over up to 4 iterations and 3 windows, for all combinations of up to 3 measures, suffices and strict flags, limits of iterations, serial, parallel and multi schemes, 1-3 ranks",
     why="tests check one measure and one sequence each; decisions depend on combinations of flags and histories (first iteration of a window, several measures, empty ranks)",
     files=[C + "BaseCouplingScheme.cpp", C + "impl/AbsoluteConvergenceMeasure.hpp", C + "impl/RelativeConvergenceMeasure.hpp", C + "impl/ResidualRelativeConvergenceMeasure.hpp", C + "impl/AbsoluteOrRelativeConvergenceMeasure.hpp", C + "MultiCouplingScheme.cpp"],
     mech=[("convergence decision", C + "BaseCouplingScheme.cpp measureConvergence"), ("checkpoints", C + "BaseCouplingScheme.cpp requireAction")],
     observe=["requiresWritingCheckpoint, requiresReadingCheckpoint, isTimeWindowComplete", "iterations and convergence log files"],
     technique="explicit-state model of the iteration; every history of the bounded space is executed on the implementation and compared call by call",
     note=EXEC + "The convergence log of absolute-or-relative measures is not compared (always written as 0 by preCICE). Thorough adds longer histories.")
prop(id="C04", title="Coupling data arrives as written, interpolated in time as configured",
     statement="What a participant reads at a relative time equals what its partner wrote, as the coupling scheme prescribes: the values of the partner's current or previous iterate or window, with all its substeps if they are exchanged and only the end of the window otherwise, interpolated in time with the configured waveform degree. Initial data is what is read before anything else has been written, and zero if there is none. After the end of the coupling the last values stay readable.",
     over=["histories", "configurations", "inputs"],
     quant="all combinations of coupling scheme, order of participants, substep patterns of both sides varying over windows and iterations, waveform degree 0-3, exchange of substeps, initial data, 1-3 ranks, mapping direction, window sizes cut by max-time or chosen by the first participant",
     why="tests check a handful of hand-computed samples for single settings; the settings interact (substeps x degree x initialization x scheme x end of simulation)",
     files=[C + "SerialCouplingScheme.cpp", C + "ParallelCouplingScheme.cpp", C + "BaseCouplingScheme.cpp", C + "CouplingData.cpp", "src/time/Waveform.cpp", "src/time/Storage.cpp", "src/math/Bspline.cpp", P + "WriteDataContext.cpp", P + "ReadDataContext.cpp"],
     mech=[("waveform storage", "src/time/Storage.cpp"), ("B-spline interpolation", "src/math/Bspline.cpp"), ("exchange of windows", C + "BaseCouplingScheme.cpp sendData/receiveData")],
     observe=["readData at the beginning, middle, end of every step and end of every window on every rank"],
     technique="explicit-state model of the coupling; every history of the bounded space is executed on the implementation and compared observation by observation",
     note=EXEC + "The model is an independent reimplementation of the documented semantics including interpolation; values are compared to 1e-9.")
prop(id="C05", title="Acceleration computes what its description says",
     statement="In every iteration of an implicit coupling that is not accepted, the configured acceleration modifies the coupling data as documented: constant under-relaxation and Aitken under-relaxation by their factors (Aitken with the preconditioner and scaling over the configured data), IQN-ILS by the least-squares solution over the differences of previous iterations and reused time windows, with the configured initial relaxation, filter and limit, preconditioner, maximum number of columns, reduced or full time grid and treatment of bounds. All time samples of all accelerated data of all ranks are treated alike, the distribution over ranks has no influence, accepted iterations are not modified, and no history (repeated, constant or linearly dependent iterates, windows of one iteration) makes it fail or produces non-finite data without an error. Linear fixed-point problems are solved by quasi-Newton within a number of iterations bounded by the number of unknowns.",
     over=["configurations", "histories", "inputs"],
     quant="all combinations of scheme (serial, parallel, multi), primary data, preconditioner, filter, reused windows, column limit, enforced relaxation, time grid, bound treatment, step pattern and rank layout over generic iterates; all histories of iterates over a three-valued alphabet (length 5, thorough: four values, length 6); a family of linear problems",
     why="the tests sample few histories and mostly converge; the errors appear for dependent or vanishing differences, windows of one iteration, substeps with bounds",
     files=["src/acceleration/BaseQNAcceleration.cpp", "src/acceleration/IQNILSAcceleration.cpp", "src/acceleration/AitkenAcceleration.cpp", "src/acceleration/ConstantRelaxationAcceleration.cpp", "src/acceleration/Acceleration.cpp", "src/acceleration/impl/QRFactorization.cpp", "src/acceleration/impl/Preconditioner.hpp", "src/acceleration/config/AccelerationConfiguration.cpp"],
     mech=[("differences, columns and bounds", "src/acceleration/BaseQNAcceleration.cpp"), ("filters", "src/acceleration/impl/QRFactorization.cpp")],
     observe=["data read by every participant in every iteration", "columns in the iterations log"],
     technique="explicit-state reference of the acceleration state (columns, weights, factors); all configurations and histories of the bounded space are executed on the implementation and compared",
     note=EXEC + "Values are compared to 1e-8; where a decision of the reference depends on rounding (counted in the evidence) only termination and finiteness are demanded. IQN-IMVJ is compiled out without MPI.")
prop(id="C06", title="Several coupling schemes of one simulation compose",
     statement="Participants may be connected by any documented combination of coupling schemes (several explicit ones, or one implicit one and explicit ones): all schemes advance window by window in step, explicit schemes exchange data only when the window of the implicit scheme has converged, and every participant reads what each of its partners wrote as that scheme prescribes. Flags and maximum step sizes are those of the combination.",
     over=["configurations", "histories"],
     quant="all graphs of 2-3 participants (selected ones of 4) with serial and parallel explicit schemes and one implicit or multi scheme, all orders of the schemes in the file, substeps, window sizes, numbers of iterations and windows",
     why="the tests contain a few compositions; what happens depends on roles and order of the schemes",
     files=[C + "CompositionalCouplingScheme.cpp", C + "BaseCouplingScheme.cpp", C + "config/CouplingSchemeConfiguration.cpp"],
     mech=[("explicit schemes on hold", C + "CompositionalCouplingScheme.cpp")],
     observe=["flags, maximum step size and data of every participant after every call"],
     technique="explicit-state model of the composition; all configurations and histories of the bounded space are executed on the implementation and compared",
     note=EXEC + "Combinations with known findings (rings of schemes, one data item with substeps in an implicit and an explicit scheme) are listed in known_findings.txt.")
prop(id="C13", title="Calls that are not allowed are refused, all others work",
     statement="In every state of a participant (constructed, partly defined, initialized, within a window, after an iteration, after the end of the coupling, finalized) every call of the API that violates its documented preconditions (order of calls, unknown or foreign mesh and data names, wrong sizes, invalid vertex IDs, times outside the window, non-finite values, experimental functions without the experimental flag) is refused with an error and has no effect on later calls; every call that fulfils them works and returns what the state of the simulation prescribes. No call crashes.",
     over=["histories", "inputs"],
     quant="all sequences of effective calls up to length 4 (thorough: 5) from construction and several later states; in every state of each of them all 150 calls of an alphabet that mixes valid and invalid arguments",
     why="tests check single misuses in one state; crashes need a particular state (before initialize, after finalize, after a reset)",
     files=[P + "ParticipantImpl.cpp", P + "ValidationMacros.hpp", P + "ParticipantState.cpp", "src/precice/Participant.hpp", C + "BaseCouplingScheme.cpp"],
     mech=[("state checks", P + "ParticipantImpl.cpp"), ("checks of names", P + "ValidationMacros.hpp")],
     observe=["result or precice::Error of every API call"],
     technique="explicit-state model of the life cycle; every sequence of calls of the bounded space is executed on the implementation",
     note=EXEC + "One participant is explored, its partner follows the documented order. After steps that are too large or unanswered checkpoints nothing more is demanded than an error. Just-in-time functions are covered by C12, meshes by C14.")
prop(id="C08", title="Every mapping computes what its definition says",
     statement="For any input and output mesh, a consistent nearest-neighbor mapping takes the value of a nearest vertex; nearest-projection interpolates linearly on the nearest triangle (3D) or edge the point projects into, or takes the nearest vertex if that is nearer; linear-cell-interpolation interpolates in the enclosing triangle (2D) or tetrahedron (3D) and falls back to nearest-projection; nearest-neighbor-gradient adds the gradient times the offset; scaled-consistent mappings preserve the surface or volume integral; conservative mappings are the transpose of the consistent mapping in the opposite direction, so that sums are preserved; geometric multiscale mappings spread and collect along their axis with the configured profile. This holds for read and write direction, for every component of vector data, in every time window, and whatever order vertices and primitives are defined in; triangles, quads and tetrahedra imply their edges and faces. No mapping produces values that are not finite from finite input.",
     over=["inputs", "configurations"],
     quant="all sets of up to 6 vertices and all connectivities (subsets of edges, triangles, tetrahedra; quads in all orientations) of meshes of up to 5 vertices in 2D and 3D, fans of thin triangles, repeated vertices; queries on a grid of points; all methods, constraints and directions; all settings of the geometric multiscale mappings and all orders of their 1D vertices",
     why="tests check one mesh per case; the choice among primitives depends on the geometry, on the connectivity that is present and on ids",
     files=["src/mapping/NearestNeighborBaseMapping.cpp", "src/mapping/NearestProjectionMapping.cpp", "src/mapping/LinearCellInterpolationMapping.cpp", "src/mapping/NearestNeighborGradientMapping.cpp", "src/mapping/BarycentricBaseMapping.cpp", "src/mapping/Mapping.cpp", "src/mapping/AxialGeoMultiscaleMapping.cpp", "src/mapping/RadialGeoMultiscaleMapping.cpp", "src/query/Index.cpp", "src/math/barycenter.cpp"],
     mech=[("search of primitives", "src/query/Index.cpp findCellOrProjection, findNearestProjection"), ("weights", "src/mapping/Polation.cpp"), ("scaling", "src/mapping/Mapping.cpp scaleConsistentMapping")],
     observe=["values read on the output mesh"],
     technique="exhaustive enumeration of meshes, connectivities and mappings executed on the implementation, compared with a brute-force reference",
     note=EXEC + "The reference examines all primitives. Candidates that tie within 1e-9 are all accepted. Degenerate triangles and tetrahedra are not enumerated (debug builds reject them by assertion).")
prop(id="C07", title="Data is stored and returned vertex by vertex as it was written",
     statement="Writing data (values, vectors, gradients) for any list of vertices, in any order, with repetitions and in any number of calls, stores exactly the given values at exactly these vertices: the last value written before the end of a step counts, vertices that are not written are zero in this step. Reading any list of vertices returns exactly the values of these vertices, repeatedly and in any order, without changing anything. This holds for scalar and vector data, in two and three dimensions, with and without mappings, substeps and gradients, on every rank. Calls with wrong sizes, unknown vertices, meshes or data, wrong direction, times outside of the window or values that are not finite are refused with an error and change nothing.",
     over=["inputs", "histories", "configurations"],
     quant="all sequences of up to three write calls over all lists of vertices of length 0-3 (with repetitions), all read lists, every kind of invalid call at every point of the life cycle, with and without mapping, gradients, substeps, 1-2 ranks, 2D and 3D",
     why="tests write complete data in the natural order once; partial, repeated and reordered writes, empty lists and combinations with substeps are not sampled",
     files=[P + "ParticipantImpl.cpp", P + "WriteDataContext.cpp", P + "ReadDataContext.cpp", P + "DataContext.cpp", "src/time/Sample.hpp", "src/mesh/Data.cpp"],
     mech=[("write buffer", P + "WriteDataContext.cpp"), ("argument checks", P + "ParticipantImpl.cpp writeData/readData"), ("mapping of samples", P + "DataContext.cpp mapData")],
     observe=["values read by the partner", "errors of refused calls"],
     technique="explicit-state model of the written data; every sequence of calls of the bounded space is executed on the implementation and compared value by value",
     note=EXEC + "Lists are bounded by three vertices, which covers every order and repetition pattern of that length.")
prop(id="C14", title="Meshes are what the calls that define them say",
     statement="A mesh consists of exactly the vertices, edges, triangles and tetrahedra that were defined through the API, by single or bulk calls in any order: quads become two triangles along the shorter diagonal, triangles and tetrahedra imply their edges (and faces) where needed, duplicates collapse, and the partner that receives the mesh works with the same mesh. Sizes and vertex ids reported by the API agree with the calls. Definitions that make no sense (unknown or repeated vertices, quads that are not convex or planar, calls after initialize) are refused with an error.",
     over=["histories", "inputs"],
     quant="all sequences of up to three connectivity calls over all vertex tuples (with repetitions) of meshes of up to five vertices, in 2D and 3D, single and bulk calls, on one or two ranks",
     why="tests define a few well-formed meshes; repeated and reordered vertices, mixtures of primitives and degenerate input are not sampled",
     files=[P + "ParticipantImpl.cpp", "src/mesh/Mesh.cpp", "src/mesh/Edge.cpp", "src/mesh/Triangle.cpp", "src/mesh/Tetrahedron.cpp", "src/mesh/Utils.cpp", "src/com/SerializedMesh.cpp", "src/mesh/Filter.hpp"],
     mech=[("definition of primitives", P + "ParticipantImpl.cpp setMeshEdge ... setMeshTetrahedra"), ("implied primitives and duplicates", "src/mesh/Mesh.cpp preprocess"), ("transfer", "src/com/SerializedMesh.cpp")],
     observe=["meshes exported by provider and receiver", "values of mappings that use the connectivity", "errors"],
     technique="explicit-state model of the mesh; every sequence of calls of the bounded space is executed on the implementation and compared with the exported meshes",
     note=EXEC + "Connectivity is observed through VTK exports of both participants.")
prop(id="C22", title="Exported files show the meshes and data of the simulation",
     statement="Every export (VTK, VTU, VTP, CSV) of a participant contains, for each of its meshes and on every rank, exactly the vertices, the connectivity and the data (scalars, vectors, gradients) the participant holds at the exported time: initial state, every n-th window as configured, every iteration if configured, and the final state. Parallel exports list exactly the pieces that exist with the fields they contain, series files list exactly the exports that were written with their times, and nothing else is written.",
     over=["configurations", "inputs", "histories"],
     quant="all combinations of exporter, every-n-windows, every-iteration, dimension, connectivity, data, gradients, coupling scheme, numbers of iterations, ranks 1-3 including ranks without vertices, all distributions of a small mesh",
     why="tests check that files exist, or single writers with one mesh; contents over the whole run, parallel pieces and series files are not compared",
     files=["src/io/ExportVTK.cpp", "src/io/ExportXML.cpp", "src/io/ExportVTU.cpp", "src/io/ExportVTP.cpp", "src/io/ExportCSV.cpp", "src/io/Export.cpp", P + "ParticipantImpl.cpp"],
     mech=[("when and what to export", P + "ParticipantImpl.cpp handleExports"), ("formats", "src/io/ExportXML.cpp, ExportVTK.cpp, ExportCSV.cpp"), ("series files", "src/io/Export.cpp")],
     observe=["all files in the export directories"],
     technique="explicit-state model of the simulation and its exports; every configuration of the bounded space is executed on the implementation and all files are parsed and compared",
     note=EXEC + "Values are compared to the precision of the files (6 digits). With exports of every iteration, write data of repeated iterations shows the start of the window and is not compared.")
prop(id="C23", title="Watch points and integrals record the data correctly",
     statement="The table of a watch point contains a line for the start and each completed time window with its time and the data interpolated on the mesh at the projection of the given point onto the nearest element, whichever rank holds that element. The table of a watch integral contains the sum or, with scaling by connectivity, the surface integral of the data over the whole mesh, and the area of the surface. Neither depends on the distribution of the mesh over ranks, and every table has one header and one line per window.",
     over=["configurations", "inputs", "histories"],
     quant="all distributions of small meshes (points, edges, triangles, tetrahedra; 2D and 3D) over 1-3 ranks, a grid of watch points inside, on, and outside the mesh, scaled and plain integrals, exchanged and local data, coupling schemes and initial data",
     why="tests contain few points and distributions; the closest rank, ranks without elements and points between elements are not sampled",
     files=[P + "WatchPoint.cpp", P + "WatchIntegral.cpp", "src/mesh/Utils.cpp", "src/io/TXTTableWriter.cpp", "src/query/Index.cpp", P + "ParticipantImpl.cpp"],
     mech=[("closest element and rank", P + "WatchPoint.cpp initialize"), ("integration", P + "WatchIntegral.cpp, src/mesh/Utils.cpp")],
     observe=["tables written by all ranks"],
     technique="exhaustive enumeration of meshes, distributions and watch points executed on the implementation, compared with a brute-force reference",
     note=EXEC + "Ties between equally close elements accept any of them. Duplicated vertices of several ranks count per rank, as documented for the mesh.")
prop(id="C11", title="Direct access gives each rank exactly the vertices and data of its region",
     statement="A participant with api-access to a received mesh sees, on every rank, exactly the vertices of the mesh inside the rank's access region (a closed box), with correct coordinates and distinct ids; it reads exactly the data of these vertices, and what it writes arrives at exactly these vertices, summed over ranks that write to the same vertex and zero where nobody writes. This holds for every distribution of the mesh over the ranks of its provider and all regions, which may overlap, be empty or cover nothing, for one-level and two-level initialization, with and without mappings, and across windows, iterations and substeps.",
     over=["configurations", "inputs", "histories"],
     quant="all distributions of a mesh of up to 4 vertices over 1-3 ranks, all pairs of regions from a family of boxes with vertices on faces and corners, every m2n, filter and scheme option, partial writes",
     why="tests use one or two regions; borders of regions, overlapping regions, shared and inaccessible vertices need particular combinations",
     files=[P + "ParticipantImpl.cpp", P + "ReceivedMeshContext.cpp", "src/partition/ReceivedPartition.cpp", "src/m2n/PointToPointCommunication.cpp", "src/mesh/BoundingBox.cpp"],
     mech=[("access region", P + "ReceivedMeshContext.cpp"), ("filtering", "src/partition/ReceivedPartition.cpp prepareBoundingBox"), ("communication map", "src/m2n/PointToPointCommunication.cpp")],
     observe=["getMeshVertexIDsAndCoordinates, readData on the accessing ranks", "readData at the provider"],
     technique="explicit-state model of accessible vertices and exchanged data; every configuration of the bounded space is executed on the implementation and compared",
     note=EXEC + "Two-level initialization with three or more receiving ranks is a known finding of C01 and excluded.")
prop(id="C10", title="Mapped values do not depend on how meshes are partitioned",
     statement="However the vertices of the meshes are distributed over the ranks of the participants, including ranks without vertices and vertices that several ranks hold, a mapping delivers on every rank the values that the mapping of the meshes as a whole delivers, as long as the configured geometric filter does not cut the received mesh; where it does (bounding box of the rank's own mesh enlarged by the safety factor), it delivers those of the remaining mesh, and an error if nothing remains. Values written to vertices of several ranks are summed up once per contribution in conservative mappings. This holds with gather-scatter and point-to-point communication, one-level and two-level initialization, and every geometric filter.",
     over=["configurations", "inputs"],
     quant="all distributions of the vertices of two meshes of 2-5 vertices over 1-3 ranks per participant (with shared vertices: over all non-empty sets of ranks), all geometric filters, several safety factors, one-level, two-level and gather-scatter communication, nearest-neighbor, nearest-projection and linear-cell-interpolation, consistent and conservative, 2D and 3D",
     why="tests contain a few partitionings; errors appear for particular distributions (empty ranks, primitives cut by the filter, unused vertices, ranks without overlap)",
     files=["src/partition/ReceivedPartition.cpp", "src/partition/ProvidedPartition.cpp", "src/mesh/Filter.hpp", "src/m2n/PointToPointCommunication.cpp", "src/m2n/GatherScatterCommunication.cpp", "src/com/SerializedMesh.cpp", "src/mapping/NearestNeighborBaseMapping.cpp", "src/mapping/BarycentricBaseMapping.cpp"],
     mech=[("filtering and ownership", "src/partition/ReceivedPartition.cpp"), ("communication map", "src/m2n/PointToPointCommunication.cpp"), ("tagging", "src/mapping/NearestNeighborBaseMapping.cpp tagMeshFirstRound")],
     observe=["values read on every rank"],
     technique="exhaustive enumeration of the distributions of meshes over ranks, each executed on the implementation and compared with a brute-force reference of the mapping",
     note=EXEC + "The filter is modelled; primitives are those complete on one rank of the provider and inside the filter.")
prop(id="C09", title="Radial-basis-function mappings interpolate",
     statement="A global RBF mapping (consistent) delivers the interpolant defined by its basis function, support radius or shape parameter, polynomial (on, off, separate) and dead axes: it reproduces the input at coinciding vertices (with separate and integrated polynomial also constant and linear functions as far as the vertices determine them); the conservative mapping is the transpose of the consistent mapping in the opposite direction. Settings that cannot work are refused, systems that are not invertible are reported. Distributing the meshes over ranks does not change the values. Partition-of-unity mappings deliver a partition of unity: with one cluster the global interpolant, with several clusters exact values at coinciding vertices, exact constants (separate polynomial), and a conservative mapping that is the transpose of the consistent one; or an error if a vertex cannot be assigned to a cluster.",
     over=["inputs", "configurations"],
     quant="all 12 basis functions, all polynomials, all combinations of dead axes, 18 shapes of meshes in 2D and 3D including degenerate ones, both constraints and directions; all distributions of meshes of 3-5 vertices over 1-3 ranks; for partition of unity all subsets of a grid of 9 (8 in 3D) vertices, cluster sizes 1-3, overlaps, projection and polynomial",
     why="tests check a few meshes that are in general position; errors appear with degenerate geometry, few vertices, empty ranks, vertices nobody owns and vertices at the edge of clusters",
     files=["src/mapping/RadialBasisFctSolver.hpp", "src/mapping/RadialBasisFctMapping.hpp", "src/mapping/RadialBasisFctBaseMapping.hpp", "src/mapping/PartitionOfUnityMapping.hpp", "src/mapping/impl/SphericalVertexCluster.hpp", "src/mapping/impl/CreateClustering.hpp", "src/mapping/impl/BasisFunctions.hpp", "src/mapping/config/MappingConfiguration.cpp"],
     mech=[("assembly and polynomial", "src/mapping/RadialBasisFctSolver.hpp"), ("gathering the system on the primary rank", "src/mapping/RadialBasisFctMapping.hpp mapConsistent/mapConservative"), ("clusters and weights", "src/mapping/PartitionOfUnityMapping.hpp computeNormalizedWeight")],
     observe=["values read on the output mesh on every rank; errors"],
     technique="exhaustive enumeration of meshes, distributions and mapping configurations executed on the implementation, compared with a dense reference in extended precision",
     note=EXEC + "The reference solves the defining systems in long double; systems with condition numbers above 1e7 are not compared. The matrix of partition-of-unity mappings is recovered column by column. PETSc and Ginkgo/Kokkos variants are not built here.")
prop(id="C12", title="Just-in-time mappings deliver what the mapping of a mesh would",
     statement="mapAndReadData delivers at each given point, for every time of the window, the value the configured mapping interpolates from the received mesh and the time interpolation of its samples, and writeAndMapData adds to the partner's mesh what the conservative mapping of the given points and values adds, summed over all calls of all ranks since the last advance. The result depends neither on how points are split over calls and ranks, nor on the order of calls, nor on how the received mesh is distributed. Points outside of the access region, wrong sizes and calls without just-in-time mapping are refused with an error and leave no trace.",
     over=["inputs", "histories", "configurations"],
     quant="all plans of up to three calls over small sets of points, all distributions of meshes of up to 4 vertices over 1-2 ranks, all regions of a family, nearest-neighbor, coarse-graining, partition of unity and global RBF with all polynomials and 12 basis functions, 2D and 3D, all schemes and m2n options, subcycling and waveform degrees",
     why="tests call the functions once or twice for one mesh; repeated calls, caches between calls and times, empty ranks and refused calls in between need histories",
     files=[P + "ReadDataContext.cpp", P + "WriteDataContext.cpp", P + "ParticipantImpl.cpp", "src/mapping/impl/MappingDataCache.hpp", "src/mapping/PartitionOfUnityMapping.hpp", "src/mapping/NearestNeighborMapping.cpp", "src/mapping/CoarseGrainingMapping.cpp", "src/mapping/RadialBasisFctSolver.hpp"],
     mech=[("caches per data and time", "src/mapping/impl/MappingDataCache.hpp"), ("evaluation at points", "src/mapping/PartitionOfUnityMapping.hpp mapConsistentAt/mapConservativeAt"), ("API", P + "ParticipantImpl.cpp mapAndReadData/writeAndMapData")],
     observe=["mapAndReadData of every rank", "readData at the provider after writeAndMapData", "errors"],
     technique="exhaustive enumeration of call histories, points, distributions and mapping configurations executed on the implementation, compared with a reference of the mapping in extended precision",
     note=EXEC + "Points near the border of the access region are inside it; ties between equally close vertices accept any of them.")
prop(id="C15", title="Every configuration is either refused with an error or works",
     statement="Whatever the configuration file contains, it is either refused by an error of preCICE with a message, or it can be run by all participants from the constructor to finalize(). Nothing crashes, hangs, or ends in an exception of another kind, and no participant accepts a configuration with which the participants run out of step. The tool that checks configurations and the constructor of every participant agree on which configurations are valid. References to unknown meshes, data and participants, unknown elements, attributes and choices, missing required attributes, and numbers outside the documented domain are refused; values the documentation allows are accepted.",
     over=["inputs", "configurations"],
     quant="all single mutations of six configurations that together contain nearly all elements: removing, duplicating, moving, lifting, renaming and misspelling each element, adding each of a catalogue of elements to each possible parent, removing each attribute, adding unknown ones, setting each attribute to each of 60 values (of every type, out of range, malformed) and to every name used in the configuration",
     why="tests contain a few dozen invalid configurations; the combinations of elements, attributes and values that pass the parser and fail later are far more",
     files=["src/precice/config/Configuration.cpp", "src/precice/config/ParticipantConfiguration.cpp", "src/cplscheme/config/CouplingSchemeConfiguration.cpp", "src/mapping/config/MappingConfiguration.cpp", "src/acceleration/config/AccelerationConfiguration.cpp", "src/m2n/config/M2NConfiguration.cpp", "src/mesh/config/MeshConfiguration.cpp", "src/mesh/config/DataConfiguration.cpp", "src/xml/XMLTag.cpp", "src/xml/ConfigParser.cpp", "src/xml/ValueParser.cpp", "src/precice/Tooling.cpp", "src/action/config/ActionConfiguration.cpp", "src/io/config/ExportConfiguration.cpp"],
     mech=[("parsing", "src/xml/ConfigParser.cpp, XMLTag.cpp, ValueParser.cpp"), ("consistency checks", "src/precice/config/*.cpp, src/cplscheme/config/CouplingSchemeConfiguration.cpp"), ("tool", "src/precice/Tooling.cpp")],
     observe=["verdict and message of checkConfiguration and of the constructors", "complete runs of all participants under a controlled scheduler (deadlocks, message mismatches, exceptions)"],
     technique="exhaustive enumeration of all mutations of configurations within a catalogue; each is checked by both entry points and, if accepted, executed by all participants under a controlled scheduler",
     note=EXEC + "A run drives every function the configuration offers to a participant. Errors during the run are allowed, hangs and assertions are not.")
prop(id="C17", title="Coupled runs survive every schedule and report the death of a partner",
     statement="A coupled run in which all participants behave ends on every rank with the same values, time step sizes, checkpoint requests and window ends, however the operating system schedules ranks and splits messages between them. If one rank of any participant dies at any point of the run (initialization, exchange of meshes, time steps, finalization), every surviving rank has seen, up to its end, exactly what it would have seen without the death; then it gets an error, or ends because it needs nothing more from the dead rank. No survivor hangs (except one that waits for a partner to connect at all), is killed by a signal or a failed assertion, or goes on with made-up data.",
     over=["schedules", "crash points", "configurations"],
     quant="14 scenarios (serial and parallel, explicit and implicit, multi, chain; 1-4 ranks; point-to-point, gather-scatter, two-level initialization), all schedules with one deviation (quick: every 16th) under 6 policies of scheduling and message splitting, and the death of every rank before each of its visible operations under 2 (thorough: 12) policies, with survivors that exit at once or destroy their participant",
     why="no test kills a participant, and tests see one schedule",
     files=["src/m2n/M2N.cpp", "src/m2n/PointToPointCommunication.cpp", "src/m2n/GatherScatterCommunication.cpp", "src/precice/impl/ParticipantImpl.cpp", "src/com/SocketCommunication.cpp", "src/utils/IntraComm.cpp"],
     mech=[("closing handshake", "src/precice/impl/ParticipantImpl.cpp closeCommunicationChannels, src/m2n/M2N.cpp closeConnection"), ("distributed sends", "src/m2n/PointToPointCommunication.cpp"), ("errors of the transport", "src/com/SocketCommunication.cpp")],
     observe=["everything the API returns to each rank, in order", "errors of each rank", "threads that wait for ever", "signals"],
     technique="stateless model checking of complete runs of the real library in a simulated operating system: exhaustive exploration of schedules up to a bound of deviations and of all crash points",
     note="Every execution runs in its own process. An operation is visible if other processes can observe it (sends, connects, closes, file operations); dying between two invisible operations cannot be told apart from dying before the next visible one. ")
prop(id="C18", title="The socket transport delivers messages in order and reports dead partners",
     statement="Ranks that connect over sockets always find each other, whatever the order in which they and their threads start and run; each message (synchronous or asynchronous, any size, either direction, collective operations included) arrives at the rank it was sent to, unchanged and in order, however the system splits transfers and however requests are waited for; nobody hangs and connection files are gone afterwards. If a rank dies at any point, no survivor takes data that was not sent for data: it gets what was sent or an error, no operation with the dead rank waits for ever, and only ranks that wait for a partner to connect may go on waiting. Connection files left by such a crash are reported by name.",
     over=["schedules", "crash points", "inputs", "configurations"],
     quant="connecting 1 acceptor with 1-3 requesters, all graphs of 2x2 server and client ranks, 1-4 ranks of a participant, two tags, a chain of three participants, under all schedules of all threads with 1-2 (thorough: 2-3) deviations at system calls, file operations and locks; all pairs of 68 operations with several buffer capacities and transfer sizes (a quarter of them, in the thorough tier all, under all schedules with one deviation); all pairs of 14 collective operations; the death of every rank before each of its operations",
     why="tests run over the real loopback interface: they see a few schedules, no partial transfers and no crashes",
     files=["src/com/SocketCommunication.cpp", "src/com/SocketSendQueue.cpp", "src/com/SocketRequest.cpp", "src/com/ConnectionInfoPublisher.cpp", "src/com/Communication.cpp", "src/com/Request.cpp"],
     mech=[("connecting", "src/com/SocketCommunication.cpp acceptConnection/requestConnection/...AsServer/...AsClient"), ("addresses in files", "src/com/ConnectionInfoPublisher.cpp"), ("asynchronous sends", "src/com/SocketSendQueue.cpp"), ("requests", "src/com/SocketRequest.cpp")],
     observe=["values delivered by each operation", "errors of each rank", "threads that wait for ever", "misuse of descriptors and mutexes", "connection files"],
     technique="stateless model checking of the real transport (threads, asio reactor, files) in a simulated operating system: exhaustive exploration of schedules up to a bound of deviations and of all crash points",
     note="The transport is compiled unmodified; system calls, mutexes, condition variables, threads and file operations are redirected at link time to a world in which one thread runs at a time. The world follows POSIX semantics of stream sockets and (edge-triggered) epoll; the hang it found was reproduced with real sockets. ")
prop(id="C21", title="Meshes redefined during the run are coupled as if defined so from the start",
     statement="With remeshing allowed, a participant may redefine its meshes (resetMesh and new vertices) whenever a time window is complete. From then until the next redefinition, everything all participants read (values at all times, time steps, checkpoint requests, data on meshes accessed directly) is what it would be in a fresh run that starts with the new meshes: nothing of the previous vertices, partition, connectivity, mappings, samples, iterates or acceleration is left. This holds whichever participants, ranks and windows redefine meshes, also when the size changes or ranks get or lose all their vertices, for explicit and implicit coupling.",
     over=["inputs", "histories", "configurations"],
     quant="all sequences of mesh redefinitions by both participants in two windows over six meshes (more in the thorough tier), all sets of redefining ranks of 1-3 ranks per participant, mappings of each kind and direction, two-level initialization, subcycling, acceleration with each preconditioner, convergence measures",
     why="integration tests with remeshing use one script each with constant values and do not compare accelerated iterates; state left over in one of the many caches only shows for particular sequences of meshes and distributions",
     files=[P + "ParticipantImpl.cpp", "src/cplscheme/BaseCouplingScheme.cpp", "src/cplscheme/CouplingData.cpp", "src/mesh/Mesh.cpp", "src/time/Waveform.cpp", "src/acceleration/BaseQNAcceleration.cpp", "src/acceleration/impl/Preconditioner.hpp"],
     mech=[("redefinition", P + "ParticipantImpl.cpp resetMesh, advance, reinitialize"), ("coupling state", "src/cplscheme/BaseCouplingScheme.cpp reinitialize, CouplingData.cpp reinitialize"), ("acceleration", "src/acceleration/BaseQNAcceleration.cpp initialize"), ("mesh", "src/mesh/Mesh.cpp clear")],
     observe=["all values read, time steps and checkpoint requests of all ranks", "errors, assertions, deadlocks"],
     technique="exhaustive enumeration of runs with redefined meshes executed on the implementation, compared with fresh runs of the implementation",
     note=EXEC + "Relations between executions of the same code (the absolute values are the subject of C04, C08 and C10).  Not compared: values at the start of a window with new meshes (undefined), Aitken (keeps its factor), data written before the reset in the same window and not again after it.")
prop(id="C26", title="The C and Fortran bindings do what the C++ interface does",
     statement="Every function of the C and Fortran bindings has the effect and returns the result of the function of the C++ interface it stands for: names, numbers, vertex ids, coordinates and values arrive unchanged and completely, for scalar and vector data in two and three dimensions and any number of vertices, including none; results are written to exactly the memory that belongs to them. Names passed from Fortran end before their trailing blanks or zeros, also if they consist of nothing else. Errors of preCICE, and calls while there is no participant (before it is created or after finalize), end the process instead of being ignored. After finalize the participant is gone and another one can be created; a second one beside it is refused by the C binding. The deprecated names of functions do what the current ones do.",
     over=["inputs", "histories"],
     quant="all 36 functions with all combinations of mesh and data names, dimensions, 0-3 vertices, kinds of padding, answers and errors of the participant, with and without a participant; all sequences of 4 (thorough: 6) calls out of 13",
     why="no test of the suite calls the bindings",
     files=["extras/bindings/c/src/preciceC.cpp", "extras/bindings/c/include/precice/preciceC.h", "extras/bindings/fortran/src/preciceFortran.cpp", "extras/bindings/fortran/include/precice/preciceFortran.hpp"],
     mech=[("C binding", "extras/bindings/c/src/preciceC.cpp"), ("Fortran binding", "extras/bindings/fortran/src/preciceFortran.cpp")],
     observe=["calls that reach the participant, with all arguments", "return values and output arguments", "memory around the arguments", "calls of abort"],
     technique="exhaustive enumeration of calls and call sequences executed on the real bindings linked with a recording model of the C++ interface, compared with direct calls",
     note="The bindings are compiled unmodified except that std::abort becomes an exception the harness catches; the C++ interface is replaced by a model that records and whose results are functions of the arguments (the other checks cover the real one). Compiled without MPI: handing over a communicator from Fortran is not covered. Creating a second participant from Fortran without finalizing the first is left open. ")
prop(id="C25", title="Profiling files record what the program did",
     statement="Every rank of a participant writes its events to <directory>/precice-profiling/NAME-RANK-SIZE.txt (nothing with mode off), in the format precice-profiling reads: names are declared before they are used, events are nested, times never decrease and, once the participant is finalized or destroyed, all events have ended. The sections a program starts and stops appear exactly in the order of the calls, with their names and durations, between the events of its initialize, advance and finalize; sections still open at finalize end there. Mode api adds one event per call for meshes and data to what mode fundamental records, and mode all only adds to mode api. What is recorded does not depend on flush-every: with 1 every record is in the file at once, with N at most N stay in memory until an event ends, with 0 all of them until the end; so a program may die at any point and precice-profiling still reads its files and reports every event up to there. Participants that follow each other in a process have independent files.",
     over=["histories", "crash points", "inputs"],
     quant="all sequences of up to 4 (thorough: 5) starts and stops of sections, mesh and data calls in every phase of a run, all 4 modes, 6 flush intervals, 11x11 section names, pairs of scripts of two ranks with and without synchronization, directories, repeated runs in a process; every point between two calls as crash point",
     why="tests turn profiling off or check the result of one run, never what is in the file when a program dies",
     files=["src/profiling/EventUtils.cpp", "src/profiling/EventUtils.hpp", "src/profiling/Event.cpp", "src/profiling/config/ProfilingConfiguration.cpp", P + "ParticipantImpl.cpp", "tools/profiling/precice-profiling"],
     mech=[("records", "src/profiling/EventUtils.cpp"), ("events", "src/profiling/Event.cpp"), ("sections", P + "ParticipantImpl.cpp startProfilingSection, stopLastProfilingSection, finalize"), ("reader", "tools/profiling/precice-profiling")],
     observe=["content of all profiling files after every call", "events precice-profiling reports"],
     technique="exhaustive enumeration of call sequences, profiling configurations and crash points executed on the implementation, compared with a model of the recorded events",
     note=EXEC + "Compression (needs LZMA) is not built. Known finding: a line break in a section name makes the file unreadable.")
prop(id="C24", title="Data actions transform exactly the exchanged data, exactly once",
     statement="A configured data action (multiply-by-area, divide-by-area, summation; after write or after read mapping) transforms each sample of its target data exactly once: what the solvers read is what they would read without the action, with each value scaled by the area associated with its vertex, or replaced by the sum of the sources. This holds in the order of the configuration for several actions, for every coupling scheme, with iterations, substeps, initial data, mappings and interpolation in time, and however the mesh is distributed over ranks (also ranks without vertices). Data that no action targets stay as they are.",
     over=["inputs", "histories", "configurations"],
     quant="all combinations of 7 chains of actions, both timings, serial and parallel explicit and implicit schemes, initial data, substep plans, waveform degrees, 2D and 3D meshes with edges and triangles, and distributions over 1-3 ranks including empty ones",
     why="unit tests call performAction once on one mesh; how often it is called on which sample during a run depends on scheme, substeps, iterations and initialization",
     files=["src/action/ScaleByAreaAction.cpp", "src/action/SummationAction.cpp", "src/action/Action.cpp", "src/action/config/ActionConfiguration.cpp", P + "ParticipantImpl.cpp", "src/precice/impl/ParticipantState.cpp"],
     mech=[("actions", "src/action/ScaleByAreaAction.cpp, SummationAction.cpp performAction"), ("calls", P + "ParticipantImpl.cpp performDataActions"), ("configuration", "src/action/config/ActionConfiguration.cpp")],
     observe=["all values read by all participants at all times", "errors"],
     technique="exhaustive enumeration of couplings with actions executed on the implementation, compared with a model of the coupling to which the actions are applied",
     note=EXEC + "Python and recorder actions are out of scope. Known finding: scale-by-area actions scale the sample at the start of a window again; everything else is compared exactly.")
