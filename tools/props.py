"""The properties: one record each; tools/gen.py writes properties.jsonl and MANIFEST.json from them."""
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level="model_checking", state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": mech, "where": ", ".join(files)}]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a,
                  technique=technique, note=note, level=level))


TR = "TLA+ specification model-checked with TLC; recorded executions of the real code validated against it (trace checking)"
TG = "TLA+ specification model-checked with TLC; behaviours generated by TLC replayed into the real code, every recorded trace checked against the specification"
MEM = "anifem++/fem/operations/core.h"

prop("M01", "Live work-memory blocks never overlap, survive any release order, are reclaimed",
     "Whatever sequence of allocations, defragmentations and releases is applied to a dynamic work-memory pool, two blocks that are alive at the same time never share a byte, have at least the requested sizes and keep their contents. Memory of released blocks becomes usable again and the pool's storage does not grow while released space suffices.",
     ["histories"], "all orders of allocate / release (also out of order, by destruction, move or explicit clear) / defragment",
     "the tests run three fixed sequences; overlap appears only for particular interleavings of releases and chunk growth",
     ["anifem++/fem/fem_memory.h"], "DynMem chunks and parts, MemPart release",
     TG, "All release orders of a small pool are enumerated by TLC and replayed (ASan+UBSan build); longer random histories are checked against the same specification. Trusts the address arithmetic of the driver.")
prop("M02", "Typed blocks carved from one raw region are aligned, disjoint, fit the promise",
     "A plain work memory placed on one raw buffer gives its real and integer (and matrix) blocks correctly aligned, pairwise disjoint places inside the buffer, for every combination of requested sizes and every alignment of the buffer, and the announced number of bytes is always enough.",
     ["inputs", "configurations"], "all requested sizes (including zero) and all start alignments of the raw buffer",
     "tests use malloc-aligned buffers and ample sizes; misaligned or tight buffers are never used",
     ["anifem++/fem/fem_memory.h"], "PlainMemory / PlainMemoryX allocateFromRaw, enoughRawSize",
     TR, "Sizes up to 40 and all start offsets 0..31 are explored in the model and on the real code under sanitizers.")
prop("M03", "A per-thread memory pool is owned by at most one thread at a time",
     "Under any interleaving of threads, a pool obtained from the thread-parallel work-memory manager is never handed to a second thread before its release, and released pools are found again; the table of pools never loses or corrupts an entry while it grows.",
     ["schedules"], "all interleavings of acquire, lookup and release by several threads, including table growth",
     "the existing tests use the manager from one thread",
     ["anifem++/fem/fem_memory_parallel.h", "anifem++/fem/mutex_type.h"], "DynMemParallel alloc/get/release with its mutex",
     "TLA+ specification (linearizability of the pool table) model-checked with TLC; executions under a controlled scheduler checked against it; ThreadSanitizer stress",
     "Schedules are controlled at lock operations and random beyond; data races are looked for by ThreadSanitizer.")
prop("M04", "A parallel loop runs every iteration exactly once and never shares a thread id",
     "The parallel loop helper executes the body for each index of the half-open range exactly once for any range and any number of threads, hands out thread numbers below the thread count, and never runs two iterations with one thread number at the same time.",
     ["schedules", "inputs"], "all ranges, thread counts and interleavings",
     "no test runs the parallel loop",
     ["anifem++/fem/mutex_type.h"], "ParallelFor<STD / OMP / serial>, mutexes",
     TR, "Real threads (ThreadSanitizer; OpenMP with AddressSanitizer), plus the abstract loop model-checked for all interleavings of small instances.")
prop("M05", "Matrix and array views act on exactly the cells they name",
     "A dense matrix or array view on external memory names each of its entries by one cell (column after column), every operation on it (reading, writing, adding and subtracting another matrix, scaling, dividing, zeroing, unit matrix, printing, norms) has the value of matrix algebra, and no operation reads or changes a cell outside its window, for any shape including empty ones. Band matrices keep their parts and offsets through conversions, the arrays of the stack work memory are separate and large enough.",
     ["inputs", "histories"], "all shapes (also without rows or columns), positions in memory, entries and operation sequences",
     "the tests print and compare a handful of matrices that own their whole array; a write outside the window or an empty shape never occurs",
     ["anifem++/fem/fem_memory.h"], "DenseMatrix, ArrayView, BandDenseMatrix, BandDenseMatrixX, MemoryLegacy",
     TR, "All shapes of a small heap in the model; random operation histories on heaps up to 40 cells (double, float) under ASan+UBSan, the whole heap compared after each operation.")
prop("I01", "Global tuple numbering is an order-preserving bijection on every access path",
     "For a base set of tuples extended by inserting, at a fixed position, every value of a range chosen by another component, the enumerator lists every extended tuple exactly once in lexicographic order, and number-to-tuple, tuple-to-number, membership, bounds and all iterator moves agree with that order.",
     ["inputs"], "all base sets (also empty), insertion positions, governing components and ranges (also empty)",
     "the tests cover few ranges and only operator[] and ++",
     ["anifem++/interval/ext_array_enum.h", "anifem++/interval/ext_array_enum.inl"], "ext_range_array_enum setup/begin/next_it/operator[]/contains/lower_bound",
     TR, "Tuple length 1..4, components below 4, ranges 0..4, two integer types; every query compared with the lexicographic rank computed by TLC.")
prop("I02", "The remapped tuple enumerator keeps the numbering through its value maps",
     "When the inserted values of an enumerated tuple set are renamed by increasing interval maps chosen by the governing component, numbers, membership, lookup and cursor moves are the ones of the unmapped enumeration with the values renamed, and clearing empties it.",
     ["inputs"], "all base sets, positions, ranges and increasing value maps",
     "tests check one map and only [] and ++",
     ["anifem++/interval/ext_array_enum.h", "anifem++/interval/ext_array_enum.inl"], "ext_array_enum and its iterator",
     TR, "Same bounds as I01 with four value maps, own and external storage. Bounds (lower/upper) of the remapped enumerator are out of scope: they do not compile.")
prop("I03", "Numbering of interval-stored values is exact in both directions",
     "For any increasing list of integers stored as intervals of consecutive values, size, iteration both ways, lookup by number, lookup by value, lower and upper bounds, cursor distance and comparison all agree with the plain list.",
     ["inputs"], "all increasing lists, all queried numbers and values",
     "tests sample one list",
     ["anifem++/interval/interval_enum.h", "anifem++/interval/interval_enum.inl"], "interval_enum over own and external memory",
     TR, "Lists of up to 13 values, every query in and around the range.")
prop("I04", "An interval map behaves as a partial function stored in maximal runs",
     "Inserting intervals (finite or unbounded on either side) succeeds exactly when no covered key already has a different value and otherwise changes nothing; the content is always the maximal runs of the resulting partial function, all lookups and bounds agree with that function, and printing followed by parsing gives the same map.",
     ["histories", "inputs"], "all insertion sequences and all queried keys; all texts with any delimiters",
     "tests run a handful of fixed insertion sequences with one-character delimiters",
     ["anifem++/interval/interval_map.h", "anifem++/interval/interval_map.inl"], "interval_map::insert, find, bounds, parse_interval_map",
     TG, "All sequences of three insertions on a small window are generated by TLC and replayed; longer random histories and texts as well.")
DM = ["anifem++/fem/tetdofmap.h", "anifem++/fem/tetdofmap.inl", "anifem++/fem/tetdofmap.cpp"]
prop("D01", "Every degree of freedom has exactly one index and one geometric locus",
     "In any map of degrees of freedom on a tetrahedron built from element counts, by repetition of a map over components, by joining maps and by nesting these, the indices 0..n-1 and the geometric loci (element type, element number, local number, nesting path) correspond one to one, and index, locus and element-local order are converted into each other consistently by every query, at run time.",
     ["inputs", "configurations"], "all maps (all counts per node, edge, oriented edge, face, oriented face, cell, with and without symmetry groups, nested to any depth) and all dofs of them",
     "tests look at a few maps and a few dofs",
     DM, "BaseDofMap::LocalOrderOnTet, LocGeom, TetDofID, UniteDofMap, VectorDofMap, ComplexDofMap",
     TG, "Maps are grown step by step in the model (all terms of a few operations, at most 24 dofs) and replayed; random bigger terms are trace checked. UBSan/ASan build.")
prop("D02", "Counts, masks and index validity describe the stored degrees of freedom",
     "For any map of dofs and any set of element types, the number of dofs on an element, on the tetrahedron, on a union of types, the mask of geometry present, the answers to 'are there dofs here' and 'is this a valid dof' all equal what counting the stored dofs gives.",
     ["inputs", "configurations"], "all maps and all element-type masks, elements and (also invalid) indices",
     "tests check single values on a few maps",
     DM, "NumDof, NumDofOnTet, GetGeomMask, DefinesOn…, isValid",
     TG, "Same map generator as D01; every mask out of 64 is asked.")
prop("D03", "Iteration over a part of a tetrahedron visits its dofs exactly once, in order",
     "Walking a map over any selection of nodes, edges, faces and the cell, in order of dofs or grouped by element, visits exactly the dofs located on selected elements, each once, in the documented order, with correct index, local number and nesting; any two cursors compare equal exactly when they are at the same dof.",
     ["inputs"], "all maps and all selections of elements",
     "tests iterate a few maps over a few selections",
     DM, "beginBySparsity / begin_by_geom iterators of all map classes",
     TR, "Random terms and random selections (incl. empty and full); the visited list is compared with the filtered list computed by TLC.")
prop("D04", "Subspaces and their views answer with indices of the enclosing map",
     "The part of a map found by a nesting path, taken directly, as a view or as a view of a view, has the loci of the part and reports for each of its dofs the index the enclosing map gives to it.",
     ["inputs"], "all maps and all paths into them",
     "tests take few paths of depth one",
     DM, "GetSubDofMap, NestedDofMapView, NestedDofMapBase",
     TR, "Every path of random terms; empty path is unspecified by the code and not generated.")
prop("D05", "The algebra of maps simplifies without moving dofs, equality is structural",
     "Products and powers of maps give the same numbering as the term they denote, whatever flattening is applied, equality of maps holds exactly for the same structure, and copies and moves do not change a map.",
     ["inputs"], "all terms of products, powers and unions",
     "tests multiply two or three maps",
     DM, "operator*, pow, operator==, merge",
     TR, "Random algebraic terms up to depth 3; compared with the specification's normal form.")
prop("D06", "Compile-time maps are the same maps as run-time ones",
     "A map whose structure is fixed by template parameters answers every query like the run-time map with the same structure, and setting its parts (also repeatedly) has the result of setting them once.",
     ["inputs", "histories"], "all instantiated structures, all leaf counts, all orders of setting the parts",
     "tests instantiate a single structure",
     DM, "DofMapC, VectorDofMapC, ComplexDofMapC and NestedDofMap",
     TR, "Several instantiated nestings with random leaf maps set in random order, every query compared with the specification.")
prop("D07", "A selection of tetrahedron parts is a set of elements closed as requested",
     "A selection of elements behaves as the set of the elements put in and taken out, with closures and boundaries of an element consisting of exactly its geometric faces, under union, intersection, difference and complement, and element positions are enumerated in order.",
     ["histories", "inputs"], "all sequences of set, unset, closures and set operations on all elements",
     "tests check few selections",
     ["anifem++/fem/tetdofmap.h", "anifem++/fem/tetdofmap.inl"], "TetGeomSparsity and its position iterators",
     TG, "All element operations from all reachable small selections; algebra on random selections.")
prop("D08", "Renumbering dofs under vertex permutations is a group action on symmetry orbits",
     "Renumbering of the vertices of a tetrahedron moves each dof to the dof at the image locus, composes like the permutations do, is the identity for the identity, keeps the symmetry orbit of a dof, and orderings induced on edges, faces and the cell by global vertex numbers agree between neighbours.",
     ["inputs"], "all 24 permutations, all symmetry groups, all dof maps",
     "tests check one or two permutations of a few maps",
     ["anifem++/fem/tetdofmap.h", "anifem++/fem/tetdofmap.cpp", "anifem++/fem/tetdofmap.inl"], "symmetries::S4, S3, S2: remap_local_order, build_dof_permutation, stabilizer_data, orderings",
     TR, "Every permutation and every pair of permutations for every symmetry group; index permutations of random maps.")
prop("D09", "Dirichlet elimination keeps the elemental equations and states the values",
     "Imposing known values on dofs of an elemental system (single dofs, dofs over a selected part of the tetrahedron with equal or different trial and test maps, or combinations of components along given directions) makes the chosen equations state the values exactly and leaves the remaining equations equivalent on every field with these values, touching nothing else.",
     ["inputs"], "all matrices, right hand sides, values, selected parts, numbers and choices of known directions, orthogonal frames",
     "the test eliminates one dof at a time on one matrix",
     ["anifem++/fem/operations/dc_on_dof.h", "anifem++/fem/operations/dc_on_dof.inl", "anifem++/fem/tetdofmap.h", "anifem++/fem/tetdofmap.inl"], "applyDir*, applyVectorDir*, applyDirByDofs",
     TR, "Rational orthogonal frames (dimensions 1..4) so that results are compared exactly; equivalence of the systems is an invariant of the model on a 3x3 system.")
FE = ["anifem++/fem/fem_space.h", "anifem++/fem/fem_space.cpp", "anifem++/fem/fem_space.inl", "anifem++/fem/operations", "anifem++/fem/diff_tensor.h", "anifem++/fem/spaces"]
TF = ("TLA+ specification of the finite element calculus in exact (modular) arithmetic, model-checked with TLC for its own laws; "
      "recorded results of the real code validated against it (trace checking)")
prop("F01", "Operators applied to discrete functions give their exact values at points",
     "For every finite element space of the library (scalar, vector, face and edge elements, their repetitions, products and unions), every tetrahedron, every set of dofs and every list of points, applying identity, gradient, divergence, curl or a directional derivative - optionally multiplied by a tensor of any admitted form - gives the value of that operator of the discrete function at the points, for one tetrahedron or several at once, with every way of providing work memory. Reported dimensions and polynomial orders describe the operator.",
     ["inputs", "configurations"], "all spaces (composed to any depth), tetrahedra, points, dof values, operators, tensor kinds and numbers of tetrahedra",
     "tests evaluate a few spaces on one tetrahedron with one or two points",
     FE, "fem3DapplyL, fem3DapplyX, FemSpace::getOP, applyIDEN/GRAD/DIV/CURL/DUDX",
     TF, "All operators of 39 spaces every run, both with and without Eigen; exact comparison modulo a prime. Tensors polynomial of degree <= 1.")
prop("F02", "Elemental matrices over tetrahedra are the exact integrals",
     "For every pair of spaces and operators, every tensor (absent, scalar, symmetric or general; constant or depending on point and tetrahedron; whatever representation the callback returns) and every tetrahedron, the elemental matrix has as entry (i,j) the exact integral over the tetrahedron of D op(phi_j) . op(psi_i), as soon as the order of the quadrature covers the degree of the integrand; for several tetrahedra at once the blocks are those of the single ones.",
     ["inputs", "configurations"], "all pairs of spaces and operators, tensors, tetrahedra (both orientations), quadrature orders",
     "tests compare a handful of pairs on one tetrahedron",
     FE, "fem3Dtet, internalFem3Dtet, internal_Dfunc::applyDU, BaseFemSpace operators",
     TF, "Random pairs of 39 spaces with all tensor traits; exact comparison modulo a prime; with and without Eigen.")
prop("F03", "Face, edge, node and point functionals are exact",
     "Integrals of D op(u) . op(v) over a face, over a face with the outward normal contracted, over an edge, the value at a node and weighted sums over given points (barycentric or Cartesian) equal the exact values for every pair of spaces and operators, tensor, tetrahedron and local face, edge or node.",
     ["inputs", "configurations"], "all pairs of spaces and operators, tensors, tetrahedra, local numbers and points",
     "tests integrate over one face of one tetrahedron",
     FE, "fem3Dface, fem3DfaceN, fem3Dedge, fem3Dnode, fem3DpntL, fem3DpntX",
     TF, "Random pairs of 39 spaces; exact comparison modulo a prime after dividing out areas and lengths; with and without Eigen.")
prop("F04", "Operators given by types compute the same exact values and matrices",
     "The templates parameterized by operator types (Operator<OP, FemFix/FemVec/FemVecT/FemCom/FemUnionT>) give the exact values and elemental matrices, like the run-time interface, in each of their three forms: with work memory on the stack, with exactly the announced work memory, with a dynamic pool. Their dimensions and orders describe the operator. The stack versions refuse orders, numbers of points or of tetrahedra and result matrices that do not fit instead of writing out of bounds.",
     ["inputs", "configurations"], "all operator types, tetrahedra, tensors, quadrature orders, points, kinds of memory",
     "tests instantiate a few pairs on one or two tetrahedra with generous memory",
     ["anifem++/fem/operators.h", "anifem++/fem/operators.inl", "anifem++/fem/operations", "anifem++/fem/diff_tensor.h", "anifem++/fem/spaces", "anifem++/fem/fem_memory.h"], "fem3DapplyL/X<Op>, fem3Dtet/face/faceN/edge/node/pntL/pntX<OpA, OpB>, *_memory_requirements<...>, Operator<...>",
     TF, "20 pairs of operator types, 4 kinds of tensor traits, exact comparison modulo a prime, guarded memory, with and without Eigen.")
prop("F05", "Interpolation gives the function with the same functionals",
     "Interpolating a function to a space, degree of freedom by degree of freedom, on selected sub-simplices, by projection on a region or by a constant, sets exactly the selected degrees of freedom and gives the function of the space that has the same values of all interpolation functionals (nodal values, means, fluxes, circulations, and for unions the functionals of all parts), so functions of the space are reproduced on every tetrahedron; the positions reported for degrees of freedom are the points where these functionals take linear functions; unions whose functionals cannot tell their functions apart are refused. Holds for run-time spaces and for space types.",
     ["inputs", "configurations"], "all spaces, tetrahedra, functions, selections and regions",
     "tests interpolate a few functions to a few spaces on one tetrahedron",
     ["anifem++/fem/fem_space.cpp", "anifem++/fem/fem_space.h", "anifem++/fem/operators.h", "anifem++/fem/operators.inl", "anifem++/fem/spaces"], "interpolateOnDOF, interpolateByDOFs, interpolateOnRegion, interpolateConstant, Dof<>::interpolate, UnionFemSpace, FemUnionT",
     TF, "Functions with integer data, exact comparison modulo a prime of the functionals of the result with those of the function; guarded memory; with and without Eigen.")
prop("F06", "The announced work memory suffices and less is refused",
     "For every run-time operation the work memory that the library announces (reals, integers, matrices) is enough: given exactly that much, the operation neither reads nor writes outside of it nor depends on its previous contents, and gives the right result; when one entry less is given the operation is refused with an exception.",
     ["inputs", "configurations"], "all operations, spaces, operators, tensors, numbers of points and tetrahedra",
     "tests use generous or pooled memory",
     FE, "fem3D*_memory_requirements, init_animem_from_plain_memory",
     TF, "Guarded, NaN-filled blocks of exactly the announced sizes under AddressSanitizer; results compared with the specification.")
prop("F07", "Quadrature formulas are exact to their order, symmetric and interior",
     "For every order in the documented range the formula for the segment, the triangle and the tetrahedron gives the exact mean of every monomial of the barycentric coordinates of degree up to that order; its points are inside of the simplex and form orbits of the permutations of the vertices with equal weights, in the announced partition and order; all access paths (point by point, raw data, Eigen views) show the same formula; other orders are refused.",
     ["inputs"], "all orders, all monomials up to the order, all points",
     "tests integrate a handful of functions of low degree",
     ["anifem++/fem/quadrature_formulas.cpp", "anifem++/fem/quadrature_formulas.h"], "segment_quadrature_formulas, triangle_quadrature_formulas, tetrahedron_quadrature_formulas",
     TR, "Exhaustive over orders and monomials; moments in extended precision, exactness with relative error 1e-11 and comparison modulo a prime with the specification.")
prop("F08", "Spaces compose as announced and give their bases as expressions",
     "Sums, products, powers and sub-spaces of finite element spaces (operators, named constructors, initializers, copies) have exactly the announced structure, dimension, number of degrees of freedom and order: sums and products flatten at the top only; a sum of spaces of different dimension or with dependent functions is refused, and nothing else is; two spaces are equal, and have equal names, exactly when they are the same composition. The basis of a space given as expressions is the basis that its operators and degrees of freedom use, in the same order, on every tetrahedron.",
     ["inputs", "histories"], "all spaces, sequences of construction steps, tetrahedra and points",
     "no test evaluates the expressions; tests compose a few fixed spaces",
     ["anifem++/fem/fem_space.cpp", "anifem++/fem/fem_space.h", "anifem++/fem/fem_space.inl", "anifem++/fem/spaces"], "operator+, operator*, operator^, make_union_*, make_complex_*, subSpace, operator==, typeName, evalBasisFunctions, Basis<FemFix<..>>::eval",
     TR, "Random programs of construction steps over 39 spaces; comparison with terms, basis values exact modulo a prime.")
prop("E01", "Elemental functions and sparsity patterns keep what they announce",
     "A sparsity pattern converts a matrix between its packed and its dense form without loss, also inside one array, and the arrays and masks it gives out are those of the pattern. A wrapped elemental function - through copies, assignments, moves, shared holders and the generators for the calling conventions - announces the same numbers, sizes and sparsities, is called with exactly the arguments, results, work memory and user data given, and the per-thread memories it hands out are distinct as long as they are held; copies by value never share them.",
     ["inputs", "histories"], "all patterns; all histories of making, copying, assigning, moving, sharing and calling wrapped functions and of taking and releasing their per-thread memory",
     "no test of the build uses the elemental functions",
     ["anifem++/inmost_interface/func_wrap.h", "anifem++/inmost_interface/func_wrap.inl"], "MatSparsityView, MatSparsity, SparsedData, MatFuncWrapDynamic, MatFuncWrapHolder, GenerateElem*",
     TR, "Random patterns up to 7 x 7 and random programs over 5 wrapper objects, four combinations of scalar and index types, under AddressSanitizer.")
prop("E02", "Data on mesh elements is found, oriented and renumbered consistently",
     "For every arrangement of nodes, edges and faces of a tetrahedral cell the restored connectivity has its nodes in positive order and every edge and face at the place of its nodes. A degree of freedom of a cell is found among the values of its mesh element by the global numbers of the nodes alone, so two cells with a common face or edge read the same value for the same place, with opposite outer normals and the same direction of edges. Gathering sets exactly the requested component (or what is available); after a renumbering of the nodes a cell gathers the same values as before it.",
     ["inputs", "histories"], "all arrangements and numberings of one or two neighbouring cells, all maps with known symmetry groups, components, blocks and shifts",
     "nothing of it is compiled by the build: it needs INMOST, and its tests a mesh file",
     ["anifem++/inmost_interface/ordering.h", "anifem++/inmost_interface/ordering.inl", "anifem++/fem/tetdofmap.inl"], "collectConnectivityInfo, createOrderPermutation, isPositivePermutationOrient, getDOFLocus, getDOFLocusOnElement, GatherDataOnElement, reorder_mesh_function_data",
     TR, "Two cells with a common face in all arrangements and numberings in the model; random meshes, maps and data over a stand-in for INMOST's mesh.")
prop("X01", "Expressions denote matrix algebra whatever the backend, values are never shared",
     "Every operation on Ani::Expr (arithmetic, comparison, logic, elementary functions, matrix products, concatenation, selection, numbers mixed with expressions in any position) denotes the operation of its name applied to its operands in their order, for every backend; a copy never changes with its source; errors that the interface reports (empty ranges, uninitialized operands, indices out of range, wrong sizes) leave all expressions unchanged.",
     ["inputs", "histories", "configurations"], "all programs over expressions, all backends",
     "no test uses expressions",
     ["anifem++/fem/expr_interface.h", "anifem++/fem/expr_interface.inl"], "struct Expr, struct BaseExpr (default members), namespace FT",
     TR, "Random programs over 6 registers with a backend of uninterpreted functions over integers modulo 1009; all registers compared after every step.")
prop("G01", "Vectors, tetrahedra and factorizations are exact up to rounding at any scale",
     "Cross products, areas, face normals, centroids, diameters and normals of tetrahedra, barycentric coordinates, inverses and determinants of 3x3 matrices are the exact ones up to rounding for every non-degenerate input at every scale. Cholesky and fully pivoted LU solves and inverses solve the system for every regular matrix (Cholesky refuses matrices that are not positive definite); the LU factors multiply to the permuted matrix with all multipliers at most one; QR and singular value decompositions give orthonormal factors that multiply to the matrix, singular values nonnegative and descending, for every shape and rank. Declared aliasing of results with inputs works, other inputs stay untouched.",
     ["inputs", "configurations"], "all vectors, tetrahedra and matrices (sizes, ranks, scales), float and double, with and without Eigen",
     "tests factorize a few well-scaled square matrices",
     ["anifem++/fem/geometry.h", "anifem++/fem/operations/core.inl"], "cross, tri_area, face_normal, inverse3x3, Tetra, cholesky_*, fullPivLU*, LU_solve, householderQR, jacobiSVD, getBaryCoord",
     TF, "Integer data times powers of two (2^-120 .. 2^120); rational results modulo a prime, orthogonality in fixed point and units of rounding.")
prop("A01", "Automatic differentiation gives exact values, gradients and Hessians",
     "For every program over variables, parameters and numbers - arithmetic, compound assignment, powers (integer, real, by expressions), roots, hypot, minimum, maximum, absolute value, sign, elementary functions, comparisons - the value, and up to the chosen order the gradient and the Hessian, are those of the function the program denotes, whatever the types of the operands (variable, parameter, linear or general expression, number) and the storage of derivatives (vector, matrix, symmetric matrix).",
     ["inputs", "histories", "configurations"], "all programs, values and storages",
     "tests differentiate a few formulas at one point",
     ["anifem++/autodiff/autodiff.h", "anifem++/autodiff/autodiff.inl", "anifem++/autodiff/physical_tensors.h", "anifem++/autodiff/physical_tensors.inl", "anifem++/autodiff/physical_tensors_3d.inl"], "ADVal, Var, Param, operators and functions of autodiff.h",
     "TLA+ specification of jets (value, gradient, Hessian) in exact modular arithmetic, its laws model-checked with TLC; recorded programs over the real code validated against it (trace checking)",
     "Eight storages (1 to 9 variables, float, double, long double), C++14 and C++17; elementary functions with prescribed rational values, the standard ones in units of rounding.")
prop("A02", "Physical tensors store, index, convert and combine exactly",
     "Vectors, matrices, symmetric matrices and fourth-rank tensors (general, with the symmetry of pairs, with all symmetries) of every dimension store exactly one number per class of equivalent indices, in the announced order; every way to reach an element (indices, index tuples, iterators forward and backward, multi-indices, positions) reaches the same one; constructors and conversions between the types keep the tensor. Sums, multiples, traces, norms, contractions, products, transposition, adjugates, determinants and inverses, tensor squares and symmetric products are those of the tensors denoted, for every number type and, up to rounding, at every scale.",
     ["inputs", "histories", "configurations"], "all kinds, dimensions, number types, integer tensors",
     "tests use tensors only through a few derivatives",
     ["anifem++/autodiff/physical_tensors.h", "anifem++/autodiff/physical_tensors.inl", "anifem++/autodiff/physical_tensors_3d.inl"], "PhysArr, PhysMtx, SymMtx, Tensor4Rank, SymTensor4Rank, BiSymTensor4Rank",
     TR, "Six kinds, dimensions 1 to 5 (fourth rank: 2 to 4), float, double, long double; integer data, exact comparison; inverses modulo a prime.")
prop("A03", "Strain invariants and their derivatives are those of the deformation",
     "For every deformation and fibre directions the invariants of the Cauchy-Green tensor (traces, determinants, fibre stretches, volume ratio), their first and second derivatives by the strain - as functions in every form and as differentiable objects of any order, alone and combined in expressions - are the exact ones; so are strains and their variations computed from the deformation gradient or the displacement gradient, and the first Piola-Kirchhoff stress with its derivative, for every number type.",
     ["inputs", "histories", "configurations"], "all deformations, fibres, invariants, expressions and number types",
     "tests compare a few invariants at one deformation in double precision",
     ["anifem++/autodiff/cauchy_strain_invariants.h", "anifem++/autodiff/cauchy_strain_invariants.inl", "anifem++/autodiff/cauchy_strain_autodiff.h"],
     "C_I0fs .. C_J and their _dE, _ddE, I0fs .. J, F_to_E, grU_to_E, F_and_dF_to_dE, grU_and_dgrU_to_dE, S_to_P, dS_to_dP",
     TR, "Exact derivatives from difference quotients of integer polynomials in the specification; jets modulo a prime; float, double, long double; both orders of inclusion.")
