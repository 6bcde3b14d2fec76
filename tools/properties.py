#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (claims exactly the properties that have a check)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(i, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": [("src/" + f).replace("src/../", "") for f in files],
         "mechanism": [{"name": n, "where": ("src/" + w).replace("src/../", "")} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": "src/" + w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": i, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


I, H, C, F = "inputs", "histories", "configurations", "fault_sequences"

prop("C01", "Mesh topology is consistent for every mesh size",
     "For every positive width and height the mesh has (width+1)(height+1) nodes and width*height unit elements, stored row by row from the bottom-left corner with the matching coordinates. "
     "Each node's left/right/down/up neighbours (the one-past-the-end marker beyond the domain), each element's anticlockwise corners, each node's list of touching elements and the coordinate-to-index map all describe that same grid, and neighbour relations are mutual. "
     "A node is flagged as lying on the domain boundary exactly when it is on the rectangle's perimeter.",
     [C], "all meshes of width and height 1..N, square, elongated and single-row, including large ones",
     "The mesh tests use one or two fixed small meshes; indexing mistakes that need width != height, a single row or a wrap at the last column are not reached.",
     ["Mesh.cpp", "Mesh.h"], [("node and element initialisation", "Mesh.cpp:Mesh::initialiseNodes"), ("neighbour wrap handling", "Mesh.cpp:Mesh::initialiseNeighbours"), ("element corners", "Mesh.cpp:Mesh::initialiseElements")],
     observe=["Mesh::nodes, Mesh::elements, Mesh::xyToIndex"])

prop("C02", "Point location finds the containing cell and the nearest node",
     "For any point of the closed domain, the cell reported contains the point (on a shared edge, within one part in a million, either cell is acceptable) and is a valid cell, including at the far edges and corners. "
     "The node reported as closest is a node of the mesh at minimum distance from the point, up to that same tolerance. "
     "The overloads taking a coordinate pair and a point agree for every point.",
     [I, C], "all points of the closed domain (interiors, cell edges, nodes, far edges, within rounding of each), all mesh sizes",
     "No test queries point location except through a few nodes; edges, midlines and far corners form a continuum that needs sampling.",
     ["Mesh.cpp"], [("cell lookup with edge tolerance", "Mesh.cpp:Mesh::getElement"), ("quadrant choice", "Mesh.cpp:Mesh::getClosestNode")])

prop("C03", "The priority queue returns the smallest current key",
     "After any sequence of insertions, key changes (up or down, through the handle insertion returned) and removals, a removal yields an address whose current key is the smallest stored one, together with that key, and removes exactly that entry. "
     "Peeking shows the same smallest key without changing anything, and the reported size and emptiness always equal the number of entries still stored.",
     [H], "all operation sequences within capacity, with duplicate, negative, zero and infinite keys and key changes of entries in any position",
     "The tests push a handful of fixed keys and pop them; key changes to interior entries after pops, ties and reuse need generated histories.",
     ["Heap.cpp", "Heap.h"], [("insertion", "Heap.cpp:Heap::push"), ("key change", "Heap.cpp:Heap::set"), ("sifting", "Heap.cpp:Heap::siftUp")],
     state=[("heap array, back pointers", "binary tree over inserted entries and each entry's position in it", "Heap.h")])

prop("C04", "Reinitialisation keeps the zero contour and the sign of every node",
     "Reinitialising the signed distance never moves a node across the interface: positive nodes stay positive, negative nodes stay negative and exact zeros stay zero. "
     "A node next to the interface receives the distance to the interface interpolated along its own mesh edges, so the interface crossings that define the structure are honoured and a straight axis-aligned or diagonal interface stays exactly where it was. "
     "The result depends only on those signs and crossings, not on the magnitudes stored elsewhere.",
     [I, C], "all signed fields with an interface: constructed structures, fields distorted away from the interface, advected fields, noise; all mesh shapes; repeated reinitialisation",
     "The tests reinitialise one symmetric configuration; sign loss and contour drift depend on the local pattern of crossings.",
     ["FastMarchingMethod.cpp", "LevelSet.cpp"], [("interface detection", "FastMarchingMethod.cpp:FastMarchingMethod::initialiseFrozen"), ("root selection", "FastMarchingMethod.cpp:FastMarchingMethod::solveQuadratic"), ("entry point", "LevelSet.cpp:LevelSet::reinitialise")])

prop("C05", "Reinitialisation yields an accurate distance to the interface",
     "After reinitialisation every node holds the signed distance obtained by marching outward from the interface in order of distance with second-order upwind differences where two closer nodes are available in a direction and first-order otherwise. "
     "For interfaces with known geometry the values approximate the exact distance to within the discretisation error, never exceed the distance along mesh edges, and grow by at most about one unit per unit step. "
     "Marching a second field with the same solver gives the same answer as a fresh solver.",
     [I, C, H], "lines at any angle, circles, polygons, several interfaces meeting at ridges, arbitrary signed fields, all mesh shapes; repeated use of one solver object",
     "One fixed upwind example is tested; acceptance order, stencil order and ridge handling differ for every configuration.",
     ["FastMarchingMethod.cpp", "Heap.cpp"], [("upwind update", "FastMarchingMethod.cpp:FastMarchingMethod::updateNode"), ("march in order of distance", "FastMarchingMethod.cpp:FastMarchingMethod::solve")])

prop("C06", "Results do not depend on the orientation or placement of the mesh axes",
     "Reflecting or transposing the domain and the structure reflects or transposes every result in the same way: signed distance, band membership, boundary geometry, lengths, normals, limits, area fractions, extended velocities and gradients. "
     "Exchanging inside and outside negates the signed distance and complements the area fractions of cut cells. "
     "Shifting a structure by whole cells away from the domain edges shifts the results near it.",
     [I, C], "all structures and fields under the eight symmetries of the rectangle/square, complement and integer translation",
     "A single symmetry test on one boundary exists; direction-dependent code paths (eight stencil cases per axis) are exercised in one orientation only.",
     ["LevelSet.cpp", "Boundary.cpp", "FastMarchingMethod.cpp"], [("direction-specific stencils", "LevelSet.cpp:LevelSet::computeGradient"), ("edge traversal", "Boundary.cpp:Boundary::discretise"), ("two-sided neighbour choice", "FastMarchingMethod.cpp:FastMarchingMethod::updateNode")])

prop("C07", "Boundary velocities are extended faithfully to the narrow band",
     "Extending boundary-point velocities gives every active node a finite value within the range spanned by the supplied velocities and zero: nodes touching boundary points get their inverse-square-distance average, a node carrying a point takes that point's velocity, and the rest are filled outward in order of distance by the distance-weighted values of closer nodes. "
     "A uniform velocity extends to the same uniform velocity wherever the whole interface carries boundary points, and the extension is linear in the supplied velocities. "
     "The signed distance and the band itself are left exactly as they were.",
     [I, C], "all boundaries discretised from generated structures, masks and bands; arbitrary velocities per boundary point, including uniform and one-hot",
     "No test calls the velocity extension.",
     ["LevelSet.cpp", "FastMarchingMethod.cpp"], [("mapping to nodes", "LevelSet.cpp:LevelSet::initialiseVelocities"), ("extension", "FastMarchingMethod.cpp:FastMarchingMethod::finaliseVelocity"), ("restoring the distance", "FastMarchingMethod.cpp:FastMarchingMethod::march")])

prop("C08", "Thermal noise respects the CFL limit and has the stated statistics",
     "When thermal noise is requested, the time step is divided by a returned scale factor exactly when the root-mean-square thermal displacement would exceed half the move limit, after which that displacement equals half the move limit; otherwise the step is unchanged and the factor is one. "
     "Each boundary point's velocity then receives an independent Gaussian kick with standard deviation sqrt(2T/dt) divided by the square root of its length, and the perturbed velocities are extended to the nodes as usual. "
     "At zero temperature the call is identical to the deterministic extension, and the same generator seed reproduces the same result.",
     [I, C], "all temperatures, time steps, move limits, boundaries and generator seeds",
     "No test calls the stochastic extension; its distribution and scaling are statements about all inputs and seeds.",
     ["LevelSet.cpp", "MersenneTwister.h"], [("time-step scaling and kicks", "LevelSet.cpp:LevelSet::computeVelocities"), ("Gaussian draws", "MersenneTwister.h:normal")])

prop("C09", "The gradient is the upwind gradient of the signed distance",
     "At every node of the narrow band the computed gradient modulus equals the upwind fifth-order weighted (HJ-WENO) gradient for the sign of that node's velocity, with the last available difference repeated beyond the domain edge and the symmetric-corner rule at the four corners; it is zero outside the band. "
     "For a signed distance that is linear in space the modulus equals the slope, everywhere and for both signs of velocity. "
     "The gradient is never negative or non-finite and computing it changes nothing else.",
     [I, C], "all fields, velocities and band shapes on meshes of at least four cells per side, especially nodes within three cells of each edge and the corners",
     "No test computes gradients; forty edge-specific stencil branches each need their own inputs.",
     ["LevelSet.cpp"], [("stencil selection", "LevelSet.cpp:LevelSet::computeGradient"), ("WENO weights", "LevelSet.cpp:LevelSet::gradHJWENO")])

prop("C10", "An update advects exactly the narrow band by the time step",
     "An update subtracts time step times gradient times velocity from the signed distance of every active narrow-band node and changes no other node before any reinitialisation. "
     "Nodes on the domain boundary never end above zero. "
     "The update reports and performs a reinitialisation exactly when a mine node has come within one unit of the interface; otherwise the band is unchanged.",
     [I, H, C], "all states reachable by sequences of construct, mask, velocity, gradient and update operations, all time steps and velocities",
     "No test performs an update.",
     ["LevelSet.cpp"], [("update", "LevelSet.cpp:LevelSet::update")],
     state=[("mines", "band nodes near the edge of the band whose approach to the contour triggers reinitialisation", "LevelSet.h")])

prop("C11", "Narrow band and mine bookkeeping matches the signed distance",
     "After construction, masking and every reinitialisation the narrow band lists, in ascending order and without duplicates, exactly the nodes closer to the interface than the band width that are neither masked nor on a fixed domain edge; exactly those nodes are flagged active. "
     "The mines are exactly the band nodes farther than the band width minus one and exactly those nodes are flagged as mines. "
     "The counts agree with the lists for any band width and mesh size.",
     [H, C], "all histories of construction, masking, updates and reinitialisation; all band widths including ones wider than the mesh; fixed and free domains",
     "No test inspects the band after more than one initialisation; stale flags and list growth only show over histories.",
     ["LevelSet.cpp"], [("band construction", "LevelSet.cpp:LevelSet::initialiseNarrowBand"), ("mine list growth", "LevelSet.cpp:LevelSet::initialiseNarrowBand")],
     state=[("isActive, isMine, isMasked", "per-node flags", "Mesh.h")])

prop("C12", "Initial structures are the signed distance of the requested geometry",
     "A structure built from holes has at every node the smallest of the distance to the domain edge and the signed distances to the hole surfaces; one built from a closed polygon has the smallest of the distance to the domain edge and to the polygon, negative inside the polygon whatever its orientation. "
     "The default structure is the regular two-grid pattern of radius-five holes spaced for the mesh size. "
     "A target structure is stored as the reinitialised distance of the target geometry and does not influence the initial structure.",
     [I, C], "all hole sets, polygons (any orientation, start vertex, non-convex, on and off nodes), mesh sizes and all constructor variants",
     "One fixed small structure is tested per constructor at most; containment and distance are geometric statements over a continuum.",
     ["LevelSet.cpp", "Hole.cpp"], [("holes", "LevelSet.cpp:LevelSet::initialise"), ("point in polygon", "LevelSet.cpp:LevelSet::isInsidePolygon"), ("segment distance", "LevelSet.cpp:LevelSet::pointToLineDistance")])

prop("C13", "Masked regions stay void and fixed domains stay put",
     "Masking marks exactly the nodes strictly inside the given circles, rectangle or polygon, makes them outside the structure, keeps other nodes' side unchanged and leaves a valid distance function. "
     "Whatever velocities are applied afterwards, a masked node is never moved by an update and never becomes part of the structure; with a fixed domain the nodes on the domain edge are never moved by an update. "
     "The structure never extends past the domain edge.",
     [H, I, C], "all sequences of masks (circles, rectangles, polygons, overlapping), updates with arbitrary velocities and reinitialisations",
     "No test masks a region or evolves a level set.",
     ["LevelSet.cpp", "Boundary.cpp"], [("mask", "LevelSet.cpp:LevelSet::mask"), ("band exclusion", "LevelSet.cpp:LevelSet::initialiseNarrowBand"), ("domain clamp", "LevelSet.cpp:LevelSet::update")])

prop("C14", "The discretised boundary is the interpolated zero contour",
     "Boundary points lie exactly where linear interpolation along mesh edges puts a sign change, or on nodes whose value is zero, each location appearing once; nothing else is a boundary point. "
     "Within every cell the segments join these points so that they separate the inside corners from the outside corners, choosing by the mean corner value in the ambiguous case, and each segment names the cell it lies in. "
     "Discretising again, or after discretising the target, gives the same result as a fresh discretisation.",
     [I, H, C], "all level sets: every corner sign pattern including zeros, targets, masks, fixed domains; repeated and interleaved discretisation",
     "Three hand-made cells are tested; there are 81 corner patterns per cell and neighbouring cells interact.",
     ["Boundary.cpp"], [("cell walk", "Boundary.cpp:Boundary::discretise"), ("point sharing", "Boundary.cpp:Boundary::isAdded"), ("status", "Boundary.cpp:Boundary::computeMeshStatus")])

prop("C15", "Boundary connectivity and lengths are consistent",
     "Each boundary point's list of segments and neighbours is exactly the set of segments that end at it and the points at their other ends; its length is half the sum of their lengths, and its perimeter is the distance to those neighbours. "
     "Point lengths, segment lengths and the total length agree. "
     "Away from masks, fixed edges and places where the structure itself reaches past the domain edge, the boundary is a set of closed curves: every point is met by an even, non-zero number of segments.",
     [I, C], "all discretised boundaries, including tangent holes, contours through nodes, contours along the domain edge and all-zero cells",
     "Connectivity is tested on one cell; junctions where contours touch need special geometry.",
     ["Boundary.cpp", "Boundary.h"], [("lengths and neighbours", "Boundary.cpp:Boundary::computePointLengths"), ("perimeter", "Boundary.cpp:Boundary::computePerimeter")])

prop("C16", "Area fractions equal the area enclosed by the discretised boundary",
     "After discretisation each cell's area fraction is the area of the part of the cell on the inside of its boundary segments: one for inside cells, zero for outside cells, between zero and one always, and the total is their sum. "
     "Every corner pattern, including ambiguous cells and corners exactly on the interface, gives the fraction enclosed by that cell's own segments. "
     "A structure built from a circle or polygon reproduces its analytic area to within discretisation error.",
     [I, C], "all discretised level sets, every corner pattern",
     "Six hand-made cells are tested.",
     ["LevelSet.cpp"], [("cut area", "LevelSet.cpp:LevelSet::cutArea"), ("polygon ordering and area", "LevelSet.cpp:LevelSet::polygonArea"), ("ambiguous cells", "Boundary.cpp:Boundary::discretise")])

prop("C17", "Boundary normals are finite unit vectors pointing into the structure",
     "Every boundary point away from the domain edge whose neighbourhood has a non-vanishing gradient gets a unit normal, the normalised inverse-square-distance average of the gradient directions at the band nodes it belongs to, pointing towards increasing signed distance. "
     "For straight and circular interfaces the normals equal the exact inward normals to within discretisation error. "
     "No normal is ever non-finite, and computing normals changes nothing else and gives the same answer when repeated.",
     [I, C], "all discretised boundaries, including points on nodes, near domain edges, near masks and at symmetric specks",
     "No test computes normals.",
     ["Boundary.cpp"], [("normal interpolation", "Boundary.cpp:Boundary::computeNormalVectors")])

prop("C18", "Boundary-point movement limits keep motion inside the allowed region",
     "Every boundary point may move inwards (upper limit) by at most the move limit, and outwards (lower limit) by at most the smallest of the move limit, its distance to the domain edge and, when the closest node is masked, its distance to that node. "
     "A point is flagged as a domain point exactly when it lies on the domain edge and as fixed exactly when it lies on a masked node. "
     "The lower limit is never positive and the upper limit never negative.",
     [I, C], "all boundaries, move limits, masks and domain-edge configurations",
     "No test reads the limits.",
     ["Boundary.cpp"], [("limits", "Boundary.cpp:Boundary::initialisePoint")])

prop("C19", "Finite-difference sensitivities match derivatives and have no side effects",
     "The sensitivity of a user function at a boundary point is its central-difference derivative along the point's normal per unit boundary length, exact for quadratic functions, with the point restored afterwards bit for bit. "
     "The Ito correction lowers each point's objective sensitivity by T/(2 length) times the normal derivative of its local perimeter per unit length (the local curvature), touching no other sensitivity, and does nothing at zero temperature. "
     "Both forms of the correction agree, and correcting one point does not influence the next.",
     [I], "all boundary points and normals, polynomial callbacks, perturbation lengths, temperatures and boundaries",
     "No test touches sensitivities.",
     ["Sensitivity.cpp"], [("central difference", "Sensitivity.cpp:Sensitivity::computeSensitivity"), ("Ito correction", "Sensitivity.cpp:Sensitivity::itoCorrection")])

prop("C20", "Saved level sets load back unchanged",
     "A signed distance saved as text or in binary, plain or with coordinates, under a data-point number or an explicit name, loads back into a level set of the same mesh: bit for bit in binary, and to the printed precision in text. "
     "Loading replaces only the signed distance, so that continuing from the loaded state after reinitialisation matches continuing from the original. "
     "Saving never changes the level set.",
     [I, C, H], "all meshes, fields (large, tiny, negative, zero), file naming variants and output directories",
     "No test performs input or output.",
     ["InputOutput.cpp"], [("text", "InputOutput.cpp:InputOutput::loadLevelSetTXT"), ("binary", "InputOutput.cpp:InputOutput::loadLevelSetBIN")])

prop("C21", "Output files have the documented names and contents",
     "Every save operation writes exactly one file with the documented name (zero-padded data-point number, optional directory, or the name given) whose contents are a complete and consistent rendering: node or cell values in mesh order, coordinates when asked for, boundary points and segment end points in order, and VTK headers whose counts match the mesh. "
     "Optional velocity and gradient sections appear when and only when requested, whichever form of the call is used. "
     "Values parse back to those in memory to the printed precision.",
     [I, C], "all meshes, boundaries and combinations of optional arguments and overloads",
     "No test performs output.",
     ["InputOutput.cpp"], [("VTK", "InputOutput.cpp:InputOutput::saveLevelSetVTK"), ("boundary", "InputOutput.cpp:InputOutput::saveBoundaryPointsTXT"), ("area", "InputOutput.cpp:InputOutput::saveAreaFractionsVTK")])

prop("C22", "Unusable input files are rejected, never half-loaded or overrun",
     "Loading a level set from a file that is missing, too short, too long, or has the wrong number or kind of columns ends in a clean reported failure. "
     "It never writes outside the level set's storage, never crashes or hangs, and never silently accepts the file. "
     "Saving to a location that cannot be written, or that cannot hold all the data, is likewise reported.",
     [I, F], "all mutations of valid files: truncation at any byte, duplicated or removed lines and columns, corrupt tokens, wrong mesh size, wrong format flag, empty and missing files",
     "No test loads a file, let alone a damaged one.",
     ["InputOutput.cpp"], [("line count check", "InputOutput.cpp:InputOutput::loadLevelSetTXT"), ("open check", "InputOutput.cpp:InputOutput::loadLevelSetBIN")])

prop("C23", "Random numbers are reproducible and follow the stated distributions",
     "Setting a seed makes every later draw a function of that seed and the sequence of calls alone, whatever was drawn before, and the seed reads back. "
     "Uniform draws lie in [0,1) at the resolution of doubles, integer draws lie in the closed requested range, evenly spread, and reach both ends, and normal draws have the requested mean and standard deviation. "
     "Two generators never share state.",
     [H, I], "all seeds and interleavings of the draw operations, all ranges and parameters",
     "No test uses the generator.",
     ["MersenneTwister.h"], [("seeding", "MersenneTwister.h:setSeed"), ("normal", "MersenneTwister.h:normal")])

prop("C24", "The optimiser returns the best feasible boundary move",
     "For linear objective and constraint sensitivities the returned velocities are a combination of the sensitivities that, where no side limit acts, is optimal among all combinations within the displacement limits that satisfy the linearised constraints. "
     "No point moves further than the displacement limit in the returned time step, a point on the domain edge never moves outwards past its own limit, a fixed point does not move, and the multipliers and predicted objective change are consistent with the velocities, point lengths weighing each contribution. "
     "An already satisfied constraint that cannot become active within the limits, or one that no move can change, never worsens the result.",
     [I, C], "all boundaries, sensitivities, lengths, limits, constraint distances, equality flags, minimise and maximise",
     "The optimiser is not even compiled by the test build.",
     ["Optimise.cpp", "Optimise.h"], [("limits", "Optimise.cpp:Optimise::computeLambdaLimits"), ("displacement and velocity", "Optimise.cpp:Optimise::computeVelocities"), ("constraints", "Optimise.cpp:Optimise::computeConstraintDistances")])

prop("C25", "The optimiser gives the solver exact functions, gradients and recovery",
     "Every function value handed to the external solver is the predicted change for the clamped displacements at the requested multipliers, and every gradient handed over is, wherever no side limit is active, the derivative of that value, in the solver's own variable order, also when constraints have been dropped. "
     "Multipliers of dropped constraints are zero in the result, and solving again with one optimiser, also for a boundary that has changed, starts from all the constraints. The solver starts from the given multipliers, brought within their limits without a change of sign. "
     "All of these stay finite, also when no move can change one of the functions. When the solver reports a round-off failure the optimisation is retried with tighter sides and otherwise returns a well-defined status, other failures reach the caller, and no failure leaves the inputs or memory corrupted.",
     [I, F], "all multiplier vectors the solver may probe, all active/inactive constraint combinations, solver failures at any call",
     "The optimiser is not compiled by the test build and no solver failure can be provoked there.",
     ["Optimise.cpp"], [("callback", "Optimise.cpp:Optimise::callback"), ("gradients", "Optimise.cpp:Optimise::computeGradients"), ("retry", "Optimise.cpp:Optimise::solve")])

prop("C26", "Invalid arguments and misuse are rejected cleanly",
     "Arguments outside the documented ranges (a band of width two or less, a move limit not strictly between zero and one, a mesh too small for the default structure, a field without an interface) and misuse of the priority queue (inserting when full, removing or peeking when empty) end in a reported, immediate failure of the process. "
     "Valid arguments at the edge of each range are accepted. "
     "No misuse corrupts memory, hangs or exhausts resources.",
     [I, H, C], "all argument values around each documented limit, all constructors, all operation sequences that overrun the queue",
     "Failing calls terminate the process, so the tests avoid them.",
     ["LevelSet.cpp", "Heap.cpp", "FastMarchingMethod.cpp"], [("argument checks", "LevelSet.cpp:LevelSet::LevelSet"), ("queue guards", "Heap.cpp:Heap::push"), ("no frozen nodes", "FastMarchingMethod.cpp:FastMarchingMethod::initialiseFrozen")])

prop("C27", "Evolution moves the interface at the prescribed speed",
     "Over any run of discretise, velocity, gradient and update steps, a boundary with uniform velocity v moves along its normal by v per unit time, so that circles and straight edges keep their shape, their radius or position changes at the prescribed rate, and total area changes by velocity times length, to within discretisation error. "
     "Zero velocity changes nothing. "
     "The structure, its distance function and all derived quantities stay finite and consistent for as long as the evolution runs.",
     [H, I, C], "all runs of many steps with varying velocities, time steps within the move limit, band widths and reinitialisation patterns",
     "No test performs an evolution; errors accumulate only over many steps.",
     ["LevelSet.cpp", "Boundary.cpp", "FastMarchingMethod.cpp"], [("update", "LevelSet.cpp:LevelSet::update"), ("velocity extension", "LevelSet.cpp:LevelSet::computeVelocities"), ("gradient", "LevelSet.cpp:LevelSet::computeGradients")])

prop("C28", "Level sets are deterministic, independent and usable at any size",
     "The same sequence of operations gives bit-identical results whatever other level sets exist, are interleaved or were created before, and a copy of a level set evolves independently of and identically to its original. "
     "Results never depend on uninitialised memory, and repeated operations do not accumulate memory. "
     "Large meshes work like small ones.",
     [H, C], "all operation histories replayed alone, interleaved with other objects, on copies and under different heap contents; meshes up to millions of nodes",
     "Each test uses one fresh object once, on meshes of at most a few hundred nodes.",
     ["LevelSet.cpp", "Boundary.cpp", "FastMarchingMethod.cpp", "Mesh.cpp"], [("object state", "LevelSet.h:LevelSet"), ("temporary storage", "LevelSet.cpp:LevelSet::initialiseVelocities"), ("solver ownership", "FastMarchingMethod.cpp:FastMarchingMethod::~FastMarchingMethod")])

prop("C29", "The Python interface behaves like the C++ one",
     "Every class, method, constructor and attribute that the bindings (python/bindings) expose gives the results of the C++ call or member it stands for: "
     "positional and named arguments reach the parameters they are meant for, arguments left out take the C++ defaults, overloads are told apart by their argument types, files written or read are the same, "
     "and what the library changes through a reference (a MutableFloat time step, vectors, boundary points, level sets) is seen by the caller. "
     "Attributes read back the C++ values, assignable ones change them, every attribute has a type that Python knows, and the containers listed in python/bindings/README.md exist.",
     [I], "sequences of calls of every exposed class with valid arguments; the interpreter and pybind11's own conversions are stood in for by a table of registered functions, so packaging, object lifetimes and exceptions across the language border are not covered",
     "The bindings are neither built nor tested by the test suite.",
     ["../python/bindings/" + f + ".cpp" for f in ("pyslsm", "bind_LevelSet", "bind_Boundary", "bind_Mesh", "bind_Hole", "bind_InputOutput", "bind_FastMarchingMethod", "bind_Sensitivity", "bind_MersenneTwister", "bind_Optimise")] + ["LevelSet.cpp", "Optimise.cpp", "Sensitivity.cpp", "Common.h"],
     [("module and containers", "../python/bindings/pyslsm.cpp:PYBIND11_MODULE"), ("named arguments, defaults and overloads", "../python/bindings/bind_LevelSet.cpp:bind_LevelSet"), ("time step by reference", "Optimise.cpp:Optimise::Optimise (PYBIND)"), ("time step by reference", "LevelSet.cpp:LevelSet::computeVelocities (PYBIND)"), ("callback wrapper", "Sensitivity.h:Callback")])

prop("C30", "The optimisation cycle makes the predicted progress towards the optimum",
     "Repeating the documented cycle (sensitivities, optimise, extend velocities, gradients, update, discretise) realises what the optimiser predicts: in each cycle the objective changes by the returned prediction and constrained quantities stay within their bounds, to within discretisation error. "
     "Over many cycles a uniform sensitivity moves circles at that speed in the accumulated time, perimeter minimisation shrinks them by curvature (radius squared falls by twice the time) and, at bounded or fixed area, rounds an ellipse at the rate of area-preserving curvature flow, a structure minimising the integral of a function settles where the function vanishes (or on the level line that meets its area bound), and shape matching removes the mismatch to the target.",
     [H, I, C], "histories of up to 180 cycles from generated structures, with generated functions, targets, move limits and bands, minimising and maximising, free and bounded; an exact solver of the linearised problem stands in for the external one",
     "No test links the optimiser or runs a cycle; the demonstrations run a few fixed cases without checking them.",
     ["Optimise.cpp", "LevelSet.cpp", "Boundary.cpp", "Sensitivity.cpp", "FastMarchingMethod.cpp"],
     [("multipliers to velocities and time step", "Optimise.cpp:Optimise::solve"), ("perimeter sensitivity", "Sensitivity.cpp:Sensitivity::computeSensitivity"), ("advection", "LevelSet.cpp:LevelSet::update"), ("target", "LevelSet.cpp:LevelSet::initialise")])

prop("C31", "Different objects can be used from different threads",
     "Level sets, boundaries, optimisers, generators and file operations of different threads do not affect each other: work done in several threads at once, each on objects of its own (or all of them only reading one level set and its mesh), is free of data races and gives bit for bit the results of the same work done alone.",
     [H, I, C], "two to four threads, each with a generated history of up to five operations on a mesh of up to 12 by 12 with draws, files, queries, sensitivities, optimisation and queue use in between, or reading one shared level set; the schedule is the operating system's, but the race detection depends on it only weakly",
     "No test starts a thread, and a race shows up only on some schedules.",
     ["Mesh.cpp", "LevelSet.cpp", "Boundary.cpp", "FastMarchingMethod.cpp", "Heap.cpp", "InputOutput.cpp", "Optimise.cpp", "MersenneTwister.h"],
     [("read-only mesh queries", "Mesh.cpp:Mesh::getClosestNode"), ("local working memory", "LevelSet.cpp:LevelSet::cutArea"), ("reading a level set", "FastMarchingMethod.cpp:FastMarchingMethod::march"), ("generator state", "MersenneTwister.h:MersenneTwister")])

prop("C32", "The demonstration programs do what they document",
     "Each program of demos/ accepts its documented arguments and input files (bimodal_brolly every option that its help names, short or long, in any order and with file names of any length), uses the values given and otherwise the documented defaults, and refuses, with a message, what it cannot use: an unknown option, an option without its value, a missing shape file, a configuration or restart file that does not hold one value per node. "
     "The samples it prints are taken at the documented interval and agree with the boundary, level-set, restart and summary files it writes: (weighted) lengths, area fractions, mismatches, positions and acceptance ratios can be measured from the boundary files. "
     "The documented physics shows: the area demonstration's circle shrinks at unit speed, the perimeter one's with its curvature, the constrained shape grows to its bound and not past it, shape matching reduces the mismatch, and without noise the dumbbell's shape stays in the upper lobe. "
     "No start (a shape that crosses the edge of the domain, say) makes a program use memory it does not own.",
     [I, C], "generated arguments, configuration files, restart files and target shapes, and 3 to 500 cycles of each program; full runs only of minimise_area and short umbrella sampling, as the others take hours; an exact solver of the linearised problem stands in for the external one",
     "The demonstrations are not run by any test, and need a solver that is not installed.",
     ["../demos/" + f + ".cpp" for f in ("minimise_area", "minimise_perimeter", "minimise_perimeter_constrained", "shape_match", "dumbbell", "bimodal", "bimodal_brolly")] + ["LevelSet.cpp", "Optimise.cpp", "InputOutput.cpp"],
     [("options", "../demos/bimodal_brolly.cpp:parseCommandLineArguments"), ("starting configuration", "../demos/dumbbell.cpp:main"), ("constraint sensitivity", "../demos/bimodal.cpp:computeConstraintSensitivity"), ("weighted perimeter", "../demos/bimodal.cpp:computePointLength"), ("mismatch", "../demos/shape_match.cpp:computeObjective")])

NA = {}

TECH = {
    "C03": "stateful property-based testing against a reference model (multiset of keyed entries)",
    "C24": "property-based testing against a brute-force linear-programming oracle, with a stand-in external solver",
    "C25": "property-based testing with fault injection: finite-difference gradient oracle and injected solver failures",
    "C22": "fuzzing of input files by structured mutation, in forked processes under AddressSanitizer",
    "C26": "property-based misuse testing in forked processes under AddressSanitizer",
    "C06": "metamorphic property-based testing (grid symmetries, complement, translation)",
    "C28": "differential property-based testing of operation histories (alone, interleaved, copied, refilled heap)",
    "C08": "property-based testing against an analytic model, generator replay and moment tests",
    "C30": "stateful property-based testing of whole optimisation runs against analytic evolutions and optima, with an exact stand-in solver",
    "C31": "differential property-based testing of concurrent histories (threads against lone runs) under ThreadSanitizer",
    "C32": "property-based testing of the demonstration programs as processes: generated arguments and files, outputs measured against an independent geometric model",
    "C29": "differential property-based testing: generated sequences of calls through the registered Python interface against the C++ library",
    "C23": "stateful property-based testing, replay equality and moment tests",
}
DEF = "property-based testing with shrinking against an independent reference model, under ASan/UBSan"
NOTE = "Generated-input search only: holds on every case explored, not a proof. Case counts, non-trivial counts and samples are in the evidence file; bounds and oracle are described in DESIGN.md."


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "harness/props/%s.cpp" % i)):
            checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i,
                           "thorough_cmd": "./check %s --tier thorough" % i,
                           "evidence_file": "evidence/%s.json" % i,
                           "technique": TECH.get(i, DEF), "level": "exploration", "level_note": NOTE})
        else:
            na.append({"property": i, "reason": NA.get(i, "check not built yet")})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "All checks are ./check <id>; replay a counterexample with ./check <id> --replay <file>. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
