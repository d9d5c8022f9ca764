#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Materials are validated and their wave quantities follow from them",
 "A material can be created exactly when its relative permittivity and permeability are at least 1 and its conductivity is not negative; otherwise creation fails. An accepted material reports the three values it was given, and for a lossless one its impedance is sqrt(mu/eps), its admittance sqrt(eps/mu) and its wave speed 1/sqrt(eps*mu). Asking a conductive material for any of the three derived quantities fails instead of returning a number.",
 ["inputs"], "every triple of real permittivity, permeability, conductivity",
 "The tests evaluate a few triples; the claim is about all of them, including both sides of each threshold and every combination of thresholds.",
 ["src/components/Material.cpp", "src/components/Material.h"],
 [("validation on construction, guarded getters", "src/components/Material.cpp:Material::Material, getImpedance, getAdmittance, getSpeedOfWave")],
 observe=["Material constructor and getters"])

prop("C02", "Source waveforms evaluate to their documented formula in 1, 2 and 3 dimensions",
 "A Gaussian pulse of given spread and mean has value exp(-|x-mean|^2/(2 spread^2)) over its own number of dimensions, a modulated Gaussian is that envelope along the first axis times cos(2 pi f (x-mean)), and a resonant mode is the product over its directions of sin(m_d pi x_d). An initial field of one field type and polarisation is that waveform shifted to its centre times the polarisation component for its own field type, and is exactly zero for the other field type.",
 ["inputs", "configurations"], "every spread, mean, frequency, centre, polarisation, mode vector of any length, evaluation point and direction",
 "Tests sample a few points of 1D pulses; a wrong axis, a dropped dimension or a sign that only matters for off-centre pulses is invisible to them.",
 ["src/math/Function.h", "src/components/Sources.cpp", "src/components/Sources.h"],
 [("waveform evaluation", "src/math/Function.h:Gaussian::eval, ModulatedGaussian::eval, SinusoidalMode::eval"),
  ("centre shift and polarisation", "src/components/Sources.cpp:InitialField::eval")],
 observe=["value of a source at a point, time, field type and direction"])

prop("C03", "A plane wave source is a transverse Maxwell solution moving at light speed",
 "For every waveform, polarisation and propagation direction the plane wave source returns E and H fields such that E, H and the propagation direction form a right-handed set with |E| = |H| (unit impedance), whichever of the two fields the polarisation was given for (a polarisation transverse to the direction). The polarisation and direction are used normalised, and the field depends on position and time only through the projected delay (x.k - t), with missing coordinates of 1D and 2D points taken as zero.",
 ["inputs", "configurations"], "every waveform (as an arbitrary function), every non-zero polarisation and direction of any length, every point of dimension 1 to 3, time, field type and component",
 "Existing tests use axis-aligned waves in one polarisation; a wrong cross-product component or sign shows only for oblique or magnetic-polarised waves.",
 ["src/math/Function.h", "src/math/Calculus.h", "src/components/Sources.cpp"],
 [("construction normalises; eval builds cross product and delay", "src/math/Function.h:Planewave"), ("cross product", "src/math/Calculus.h:crossProduct")],
 observe=["TotalField::eval"])

prop("C04", "The dipole source satisfies Maxwell's equations away from its centre",
 "The electric and magnetic fields returned by the derivative-Gaussian dipole source satisfy curl E = -dH/dt and curl H = dE/dt at every point other than the axis of the dipole, for every length, spread and delay. Its fields are those of a z-directed dipole whose moment is a Gaussian pulse delayed by the travel time, so H is azimuthal and the radial and polar parts of E carry the near, intermediate and radiation terms.",
 ["inputs"], "every dipole length, spread, delay, observation point off the axis and time",
 "No test evaluates the dipole at all; sampling cannot show that a vector field solves a differential equation everywhere.",
 ["src/math/Function.h", "src/components/Spherical.cpp", "src/math/PhysicalConstants.h"],
 [("retarded dipole formula", "src/math/Function.h:DerivGaussDipole::eval"), ("vector conversion", "src/components/Spherical.cpp:convertSphericalVectorFieldToCartesian")],
 observe=["TotalField::eval for a dipole"])

prop("C05", "Spherical and Cartesian representations of points and vectors agree",
 "Converting a Cartesian point to spherical form and back gives the same point, with a non-negative radius equal to its length; a two-component point is taken to lie in the equatorial plane. Converting a spherical vector field value to Cartesian form preserves its length and maps the radial, polar and azimuthal unit vectors to the orthonormal Cartesian triad at that point.",
 ["inputs"], "every point other than the origin in 2D and 3D, every field value",
 "Tests use a handful of exact angles; the inverse relation is over a continuum of points and octants.",
 ["src/components/Spherical.cpp", "src/components/Spherical.h"],
 [("conversions", "src/components/Spherical.cpp")], observe=["SphericalVector constructors and conversions"])

prop("C06", "Time marching lands exactly on the final time and never beyond it",
 "Starting from time zero with any positive step, each step advances by the configured step except that it is shortened so that the simulated time never exceeds the final time; the run stops with the time equal to the final time up to a 1e-8 fraction of a step. Options with a negative order, negative final time or non-positive CFL number are rejected before anything runs.",
 ["inputs", "histories"], "every final time, step size and number of steps; every option set",
 "Tests run a few step sizes; whether the last step overshoots depends on the remainder of final time by step, for every history of steps.",
 ["src/solver/Solver.cpp", "src/solver/SolverOptions.h"],
 [("shortened last step", "src/solver/Solver.cpp:Solver::step"), ("loop condition", "src/solver/Solver.cpp:Solver::run"), ("option validation", "src/solver/Solver.cpp:checkOptionsAreValid")],
 state=[("time_", "simulated time", "Solver"), ("dt_", "configured step", "Solver")], observe=["Solver::getTime after step/run"])

prop("C07", "Snapshot schedules follow the requested number of saves",
 "For every probe with a requested number of saves, the interval between exports is the total number of steps (final time over step, rounded up) divided by the number of saves, and never less than one step; probes without such a request keep their interval. A probe exports on cycles that are multiples of its interval and at the final time, on no other cycle, and the reported time is the simulated time converted to seconds.",
 ["inputs", "histories"], "every final time, time step, save count, number of probes of each kind and cycle",
 "Tests check one or two schedules; the divisions round differently for every combination of step and save count.",
 ["src/solver/ProbesManager.cpp", "src/solver/ProbesManager.h", "src/components/Probes.h"],
 [("interval computation", "src/solver/ProbesManager.cpp:recalculateExportSteps"), ("export decision", "src/solver/ProbesManager.cpp:updateProbe overloads")],
 observe=["export step of each probe, files written per cycle"])

prop("C08", "The assembled global operator is the discrete Maxwell curl with upwind flux",
 "The global evolution operator couples each field component to the others exactly as Maxwell's curl equations do: electric rows take plus or minus the derivative and one-normal flux blocks of the other field in the cyclic component order with opposite signs for the magnetic rows, minus the penalisation block on the diagonal, plus the double-normal block between components of the same field, and minus the conductivity block on electric rows only. Normal and derivative directions beyond the mesh dimension contribute nothing. The block-collecting assembly used in production and the matrix-adding assembly give the same operator.",
 ["inputs", "configurations"], "every mesh dimension, every number of local and neighbour unknowns, every flux parameter, with or without interior boundaries; sub-operators arbitrary",
 "Tests compare a few small meshes in one dimension at a time; a wrong sign or block position in a component they do not excite passes.",
 ["src/components/DGOperatorFactory.h"],
 [("block collection", "src/components/DGOperatorFactory.h:collectGlobal*"), ("matrix adding", "src/components/DGOperatorFactory.h:addGlobal*"), ("block offsets", "src/components/DGOperatorFactory.h:FieldOffsets, GlobalIndices")],
 observe=["matrix returned by the operator factory"])

prop("C09", "Flux sub-operators carry the boundary-condition coefficients of each face",
 "Interior faces use the upwind parameter for the zero- and two-normal flux terms and weight one for the one-normal term; on the domain boundary a perfect electric conductor doubles the electric jump and drops the magnetic one, a perfect magnetic conductor does the reverse, and an absorbing boundary uses weight one for every term whatever the upwind parameter. Interior boundary faces that carry their own condition (other than total-field surfaces) are left out of the ordinary interior flux and get the corresponding coefficients instead; total-field and SGBC source faces get the interior weights.",
 ["inputs", "configurations"], "every upwind parameter, every assignment of conditions to boundary and interior-boundary tags, both field types, all directions",
 "The tests run PEC, PMC and absorbing cases separately at alpha 0 or 1; combinations and intermediate values of the upwind parameter are unreached.",
 ["src/components/DGOperatorFactory.h"],
 [("coefficient tables", "src/components/DGOperatorFactory.h:bdrCentCoeff, bdrUpwindCoeff, bdrCoeffCheck"), ("sub-operators", "src/components/DGOperatorFactory.h:build*SubOperator")],
 observe=["integrators registered with each bilinear form"])

prop("C10", "Merging blocks into one sparse matrix loses and invents nothing",
 "Merging any collection of sparse blocks, each with its own position and sign, gives a sparse matrix in which every entry is the signed sum of the block entries placed on it and every other entry is absent; overlapping blocks add up and no column appears twice in a row. Adding a single block into a global matrix changes exactly the entries the block covers, by its entries times the sign.",
 ["inputs"], "every list of blocks of any size, position, sparsity pattern and sign, overlapping or not",
 "Tests assemble the few block patterns of small meshes; overlap handling depends on the order and pattern of all blocks.",
 ["src/components/DGOperatorFactory.h"],
 [("two-pass marker merge", "src/components/DGOperatorFactory.h:mergeBlocksToCSR"), ("single block", "src/components/DGOperatorFactory.h:loadBlockInGlobalAtIndices")],
 observe=["merged matrix"])

prop("C11", "Six-component field storage is a partition with a fixed component order",
 "The six field components Ex, Ey, Ez, Hx, Hy, Hz occupy consecutive, disjoint, equally long blocks that together cover the whole state vector in that order; writing through one component changes that block and nothing else. Every part that addresses a component inside a packed vector (evolution, sub-solvers, source injection) uses that same order.",
 ["inputs", "configurations"], "every number of unknowns per component, every field type and direction",
 "Tests look at one component at a time on tiny meshes; aliasing between blocks needs a full view of the layout.",
 ["src/evolution/Fields.h", "src/evolution/MaxwellEvolutionMethods.cpp", "src/evolution/HesthavenEvolutionMethods.cpp", "src/components/DGOperatorFactory.h"],
 [("block views", "src/evolution/Fields.h:Fields"), ("offsets", "src/evolution/MaxwellEvolutionMethods.cpp:calcOffsetCoeff; src/components/DGOperatorFactory.h:FieldOffsets")],
 observe=["state vector seen through each component"])

prop("C12", "Material and boundary tags reach exactly the elements and faces that carry them",
 "The per-tag vectors of permittivity, permeability and conductivity hold at each tag the value of the material assigned to it and zero at tags without material, and are as long as the largest tag. A boundary marker for a condition is one exactly at the tags given that condition, keeping outer and interior boundaries apart, and tags that are zero or negative are rejected.",
 ["inputs", "configurations"], "every assignment of materials and conditions to tags, any number and order of tags",
 "Tests use one or two tags numbered from 1; gaps in numbering and several tags per condition are not exercised.",
 ["src/components/Model.cpp", "src/components/Model.h"],
 [("piecewise vectors", "src/components/Model.cpp:buildEpsMuPiecewiseVector, buildSigmaPiecewiseVector"), ("markers", "src/components/Model.cpp:assembleGeomTagToTypeMap, getMarker, assembleBdrToMarkerMaps")],
 observe=["piecewise vectors and markers returned by the model"])

prop("C13", "Nodal boundary conditions impose the physical mirror state on each boundary",
 "In the nodal solver, the jump used at a boundary node is minus twice the local electric field and zero magnetic jump for a perfect electric conductor, the reverse for a perfect magnetic conductor, and minus the local field in both for an absorbing boundary at full upwinding; nodes of interior boundaries get half of the mirror jump on each side. Nodes on no boundary keep their jump unchanged, and the same holds beside curved elements, whose own treatment does not disturb straight ones.",
 ["inputs"], "every list of boundary nodes of each kind, every field vector, every upwind parameter above zero",
 "Tests run whole simulations with one boundary type; a per-node slip on mixed boundaries is not visible in them.",
 ["src/evolution/HesthavenEvolution.cpp", "src/evolution/HesthavenEvolution.h"],
 [("jump overwrite per boundary list", "src/evolution/HesthavenEvolution.cpp:applyBoundaryConditionsToNodes")],
 observe=["jump vectors after boundary treatment"])

prop("C14", "Total-field sources inject the incident field once, with opposite signs across",
 "The incident field injected on a total-field surface is the sum over all total-field sources of their field at each surface node at the current time, weighted plus one half on the total-field side and minus one half on the scattered-field side, or plus one everywhere when there is no scattered-field side. In the nodal solver the jump at a total-field node gains the incident field and its scattered-field partner loses it. Sources of other kinds contribute nothing, and evaluating twice at the same time gives the same values.",
 ["inputs", "histories"], "every set of sources, every node position, side assignment and time",
 "Tests use a single source; superposition of several sources and stale values from an earlier time are not reached.",
 ["src/solver/SourcesManager.cpp"],
 [("direct evaluation with sign mask", "src/solver/SourcesManager.cpp:evalTimeVarFieldDirect, initDirectPlanewaveEval"), ("projection path", "src/solver/SourcesManager.cpp:evalTimeVarField, markDoFSforTForSF")],
 observe=["cached source fields"])

prop("C15", "Both sides of a total-field surface are tagged consistently",
 "For every face of a total-field surface, the element on one side is tagged total field and the one on the other side scattered field, never both the same, and the recorded element-face pairs name exactly those elements; a face with a single element tags just that one. In 2D the side is decided by the orientation of the face relative to the vector joining the elements, in 3D the element nearer to the centre of the surface is the total-field one. For a near-to-far-field surface the element that the orientation of the face designates is kept, and no other.",
 ["inputs", "configurations"], "every mesh geometry, every numbering of elements, every set of surface faces",
 "Tests use a few hand-made meshes with one numbering; the decision depends on the geometry of every face.",
 ["src/components/SubMesher.cpp", "src/components/SubMesher.h"],
 [("tagging", "src/components/SubMesher.cpp:setAttributeForTagging, storeElementToFaceInformation"), ("side decision", "src/components/SubMesher.cpp:buildFaceOrientation, setIndividualTFSFAttributesForSubMeshing3D")],
 observe=["element attributes and element-to-face lists"])

prop("C16", "Rank partitioning keeps coupled elements together and loses none",
 "After the partition is adjusted for total-field and SGBC surfaces, any two elements that share a face of such a surface are on the same rank, directly or through a chain of such faces, and every element still has a valid rank. Elements that touch no such surface keep the rank they had, and with one rank or no such face nothing changes.",
 ["inputs", "configurations"], "every mesh connectivity, every initial partition, every number of ranks and set of tagged faces",
 "Tests run on one or two ranks with simple surfaces; chains at corners depend on the order in which faces are visited.",
 ["src/driver/driver.cpp"],
 [("union-find grouping and reassignment", "src/driver/driver.cpp:applyPairwiseConstraintsPartitioning and helpers")],
 observe=["partition array"])

prop("C17", "Case files are read with the documented units and defaults",
 "Every option present in a case file reaches the solver unchanged and every absent one takes its default; field types, directions, boundary and operator names are mapped to the documented choices and any other word is rejected. Materials get relative permittivity and permeability defaulting to one and conductivity scaled by the free-space impedance, vectors given with fewer than three components are completed with zeros, and a pulse without an explicit delay is placed five widths before the surface it must cross.",
 ["inputs", "configurations"], "every combination of present and absent keys and every numeric value",
 "Tests read the shipped example cases; combinations of missing keys and other values are unreached.",
 ["src/driver/driver.cpp", "src/driver/driver.h", "src/solver/SolverOptions.h"],
 [("readers", "src/driver/driver.cpp:buildSolverOptions, buildSources, assemble3DVector, assignFieldType, assignFieldPol and material/boundary readers")],
 observe=["options, sources, materials and boundary maps built from a case"])

prop("C18", "Far-field and radar cross section post-processing follows its formulas",
 "The near-to-far-field phase factor at a surface point is exp(j k r.u) for the observation direction u (also for points exactly aligned with it), the frequency-domain fields are the time average of field times exp(-j 2 pi f t), and the radiated power combines the tangential surface integrals with the wavenumber and free-space impedance as in the standard equivalence formulas. The cross section is the radiated over the incident power times 4 pi (2D: 4/k), where the incident power is that of the case's plane wave; a case without a plane wave is rejected. Surfaces saved by several ranks are summed coherently, and merging per-rank result files adds the power and normalisation terms of matching rows, keeping each frequency and angle once.",
 ["inputs"], "every surface point, direction, frequency, time series and number of ranks and rows",
 "Tests compare one plane-wave case; individual terms cancel or vanish in the directions they look at.",
 ["src/components/FarField.cpp", "src/components/RCSManager.cpp", "src/components/RCSSurfacePostProcessor.cpp"],
 [("phase and integrals", "src/components/FarField.cpp"), ("merge", "src/components/RCSManager.cpp:addRows")],
 observe=["far-field data, merged files"])

prop("C19", "Thin-layer sub-solvers exchange fields with the mesh without distortion",
 "The frame used to pass fields between the mesh and a thin-layer sub-solver is orthonormal and right-handed with its first axis along the face normal, so taking field values into the layer and back returns the original vectors. Saving and restoring a layer state is exact, ghost values are the stated linear interpolation between old and new mesh values. In a step of the mesh every layer is advanced from its state at the start of the step, in as many equal sub-steps as its own limit asks for, and each side of the face receives its own fields and those of the layer, or of the condition at that end, as flux. The layer grid has the requested widths, materials and number of segments in order.",
 ["inputs", "histories"], "every normal, field value, interpolation weight, layer list and state",
 "Tests use axis-aligned faces and one layer; oblique normals and layer sequences are unreached.",
 ["src/solver/SolverExtension.cpp", "src/solver/SolverExtension.h", "src/evolution/GlobalEvolution.cpp"],
 [("rotation", "src/solver/SolverExtension.cpp:buildFaceRotationMatrix"), ("state copy and ghosts", "src/solver/SolverExtension.cpp:loadState, saveState, updateFieldsWith*"), ("steps and flux of layers", "src/evolution/GlobalEvolution.cpp:commitSGBCCheckpoint, finalizeSGBCStep, Mult")],
 observe=["layer fields, returned fields"])

prop("C20", "Time-step estimates are positive, scale with the CFL number and the mesh size",
 "The automatically estimated time step is positive for every mesh with positive element sizes, is proportional to the CFL number and to the size of the mesh, is decided by the most restrictive element, and does not increase when the polynomial order increases. The nodal operator's own limit counts every straight element and no stored value that does not exist. A user-given step is used as it is.",
 ["inputs", "configurations"], "every set of element sizes, orders, CFL numbers and dimensions",
 "Tests use one mesh per dimension; the minimum over elements and the scaling laws quantify over all meshes.",
 ["src/solver/Solver.cpp"],
 [("estimates", "src/solver/Solver.cpp:estimateTimeStep, getTimeStepScale, calcMeshTimeStep")],
 observe=["time step used"])

prop("C21", "Face flux integrators build jump matrices that conserve across faces",
 "For two neighbouring elements the zero-, one- and two-normal flux matrices have the block structure of a jump: the blocks that take the neighbour's values are the negatives of the blocks that take the own values up to swapping of shape functions, so a field that is continuous across the face produces no flux. Normal components enter with the signs and products requested, and on boundary faces only the own-side block is present.",
 ["inputs"], "every pair of elements, shape-function values, quadrature rule, normal and direction list",
 "Tests compare a few reference elements; a wrong block shows only for particular normals or element pairs.",
 ["src/mfemExtension/BilinearIntegrators.cpp", "src/mfemExtension/IntegratorFunctions.cpp"],
 [("block assembly", "src/mfemExtension/IntegratorFunctions.cpp:buildFaceMatrix"), ("integrators", "src/mfemExtension/BilinearIntegrators.cpp")],
 observe=["element face matrix"])

prop("C22", "Sub-domain transfers and field bookkeeping are exact inverses",
 "Adding a sub-domain field into its parent and then subtracting it leaves the parent unchanged, touches only the unknowns of the sub-domain, and adds each value at its own position. Backing up element attributes before building sub-domains and restoring them afterwards leaves every attribute as it was.",
 ["inputs", "histories"], "every sub-domain map, field and attribute assignment",
 "Tests transfer one field on one mesh; positions untouched by the map are not inspected.",
 ["src/components/SubMesher.cpp", "src/evolution/HesthavenEvolutionMethods.cpp"],
 [("transfer", "src/components/SubMesher.cpp:MaxwellTransferMap"), ("attribute backup", "src/evolution/HesthavenEvolutionMethods.cpp:restoreOriginalAttributesAfterSubMeshing, mapOriginalAttributes")],
 observe=["parent field, mesh attributes"])

prop("C23", "The evolution operators apply one and the same discrete curl to the packed state",
 "Each of the three evolution operators (assembled, stored forms, nodal) reads the state as Ex, Ey, Ez, Hx, Hy, Hz blocks, extends it with the values of neighbouring ranks in the same order, and writes to each component the curl of the other field (positive for the electric, negative for the magnetic field) plus the flux of the jumps: centred terms of the other field and penalised terms of the own field, including those of interior boundaries where there are any. Every call starts from scratch: nothing of an earlier result or state enters, and the state passed in is not changed.",
 ["inputs", "histories"], "every number of own and neighbours' unknowns, every state, every content of the sub-operators, with or without interior boundaries, straight and curved elements",
 "The operators are only built inside full simulations, whose tests compare a few components of one-dimensional or axis-aligned cases; a wrong pairing of components or a neglected neighbour needs fields and partitions they do not have.",
 ["src/evolution/GlobalEvolution.cpp", "src/evolution/MaxwellEvolution.cpp", "src/evolution/HesthavenEvolution.cpp"],
 [("assembled operator", "src/evolution/GlobalEvolution.cpp:Mult"), ("stored forms", "src/evolution/MaxwellEvolution.cpp:Mult"), ("nodal operator", "src/evolution/HesthavenEvolution.cpp:Mult")],
 observe=["time derivative returned by the evolution operator"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
