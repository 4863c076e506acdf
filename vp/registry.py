"""property id -> (module in vp/, function, level, title)"""
CHECKS = {
    "M01": ("memory", "m01", "model_checking", "Live work-memory blocks never overlap, survive any release order, and memory is reclaimed"),
    "M02": ("memory", "m02", "model_checking", "Typed blocks carved from one raw region are aligned, disjoint and fit the promised size"),
    "M03": ("memory", "m03", "model_checking", "A per-thread memory pool is owned by at most one thread at a time"),
    "M04": ("memory", "m04", "model_checking", "A parallel loop runs every iteration exactly once and never shares a thread number"),
    "M05": ("memory", "m05", "model_checking", "Matrix and array views act on exactly the cells they name"),
    "I01": ("interval", "i01", "model_checking", "Global numbering of extended tuples is an order-preserving bijection for every access path"),
    "I02": ("interval", "i02", "model_checking", "The remapped tuple enumerator keeps the numbering through its value maps"),
    "I04": ("interval", "i04", "model_checking", "An interval map behaves as a partial function stored in maximal runs"),
    "I03": ("interval", "i03", "model_checking", "Numbering of interval-stored values is exact in both directions for every lookup"),
    "D01": ("dofs", "d01", "model_checking", "Every degree of freedom has exactly one index and one geometric locus"),
    "D02": ("dofs", "d02", "model_checking", "Counts, masks and index validity describe the stored degrees of freedom"),
    "D03": ("dofs", "d03", "model_checking", "Iteration over a part of a tetrahedron visits its dofs exactly once, in order"),
    "D04": ("dofs", "d04", "model_checking", "Subspaces and their views answer with indices of the enclosing map"),
    "D05": ("dofs", "d05", "model_checking", "The algebra of maps simplifies without moving dofs, equality is structural"),
    "D06": ("dofs", "d06", "model_checking", "Compile-time maps are the same maps as run-time ones"),
    "D07": ("dofs", "d07", "model_checking", "A selection of tetrahedron parts is a set of elements closed as requested"),
    "D08": ("dofs", "d08", "model_checking", "Renumbering dofs under vertex permutations is a group action on symmetry orbits"),
    "D09": ("dofs", "d09", "model_checking", "Dirichlet elimination keeps the elemental equations and states the values"),
    "F01": ("fem", "f01", "model_checking", "Operators applied to discrete functions give their exact values at points"),
    "F02": ("fem", "f02", "model_checking", "Elemental matrices over tetrahedra are the exact integrals"),
    "F03": ("fem", "f03", "model_checking", "Face, edge, node and point functionals are exact"),
    "F04": ("fem", "f04", "model_checking", "Operators given by types compute the same exact values and matrices"),
    "F05": ("fem", "f05", "model_checking", "Interpolation gives the function with the same functionals"),
    "F06": ("fem", "f06", "model_checking", "The announced work memory suffices, less is refused"),
    "F07": ("quad", "f07", "model_checking", "Quadrature formulas are exact to their order, symmetric and interior"),
    "F08": ("spaces", "f08", "model_checking", "Spaces compose as announced and give their bases as expressions"),
    "E01": ("elemfun", "e01", "model_checking", "Elemental functions and sparsity patterns keep what they announce"),
    "E02": ("meshdata", "e02", "model_checking", "Data on mesh elements is found, oriented and renumbered consistently"),
    "X01": ("spaces", "x01", "model_checking", "Expressions denote matrix algebra whatever the backend, values are never shared"),
    "G01": ("geometry", "g01", "model_checking", "Vectors, tetrahedra and factorizations are exact up to rounding at any scale"),
    "A01": ("autodiff", "a01", "model_checking", "Automatic differentiation gives exact values, gradients and Hessians"),
    "A02": ("tensors", "a02", "model_checking", "Physical tensors store, index, convert and combine exactly"),
    "A03": ("strain", "a03", "model_checking", "Strain invariants and their derivatives are those of the deformation"),
}
