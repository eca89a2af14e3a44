#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that it stays one-property-per-line)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
F="anifem++/fem/"
p("Q01","Quadrature rules are exact, interior, positive and symmetric",
  "For every supported order, the segment, triangle and tetrahedron quadrature rules integrate every polynomial up to that order exactly (to rounding) on the reference simplex. All nodes lie strictly inside the simplex, all weights are positive and sum to one, and the node set is invariant, with equal weights, under every permutation of the simplex's vertices. Asking for an unsupported order is refused and never yields a rule that is weaker than requested.",
  ["inputs"],"every order 0..20 (and out-of-range orders) of every simplex dimension, every monomial up to the order, every vertex permutation",
  "Tests integrate a few polynomials on the unsymmetrised rule at chosen orders; they do not check every monomial at each order, positivity, interiority or permutation symmetry.",
  [F+"quadrature_formulas.h",F+"quadrature_formulas.cpp"],
  [("rule tables and selection by order","anifem++/fem/quadrature_formulas.cpp"),("weighted-point accessors","anifem++/fem/quadrature_formulas.h")],
  observe=["returned node coordinates and weights"])
p("D01","Element DOF numbering is a bijection in every composition",
  "For every degree-of-freedom layout, however composed from scalar layouts by vectorising, concatenating and nesting, the translations between flat index on the tetrahedron, (entity kind, entity number, number on entity) and symmetry-labelled number are mutually inverse. Counts per entity, per entity kind and per tetrahedron agree with the enumerated set, and taking a nested component and adding its offset returns exactly the parent's indices. Validity predicates accept exactly the enumerated set.",
  ["inputs","programs"],"every layout built from random unisymmetric/symmetric base layouts, vector powers and concatenations up to depth 3, every index of each",
  "Tests cover a handful of fixed compositions with spot-checked indices.",
  [F+"tetdofmap.h",F+"tetdofmap.inl",F+"tetdofmap.cpp"],
  [("base/vector/complex layouts","anifem++/fem/tetdofmap.cpp"),("compile-time layouts","anifem++/fem/tetdofmap.inl"),("nested views","anifem++/fem/tetdofmap.h: NestedDofMapBase/NestedDofMap")],
  observe=["results of the translation functions"])
p("D02","Filtering DOFs by geometric parts selects exactly the right DOFs once",
  "Iterating the degrees of freedom restricted to any set of vertices, edges, faces and interior visits each degree of freedom attached to a selected entity exactly once and no other, for every layout and either iteration order; the geometry-first order groups them by entity. The set algebra on geometric selections (union, intersection, difference, complement, closure of an entity) behaves as the corresponding finite sets, and closures contain exactly the sub-entities of the simplex.",
  ["inputs","programs"],"every one of 2^15 selections (sampled), every layout composition, both iteration orders, every operation of the set algebra",
  "Tests iterate a few selections over a few layouts; the sets that make components skip entire entities or appear out of order are not reached.",
  [F+"tetdofmap.h",F+"tetdofmap.inl",F+"tetdofmap.cpp"],
  [("filtered iteration","anifem++/fem/tetdofmap.cpp: BeginByGeomSparsity/IncrementByGeomSparsity"),("selection algebra","anifem++/fem/tetdofmap.inl: TetGeomSparsity")])
p("D03","DOF symmetry renumbering is consistent with vertex renumbering",
  "Renumbering the vertices of a tetrahedron or of an entity shared by two tetrahedra permutes the degrees of freedom on each entity by a group action: only the order of the entity's own vertices matters, composing renumberings composes the permutations and every result stays in the same symmetry class. Two tetrahedra sharing an entity with different local vertex orders therefore agree, through the symmetry translation, on the identity (interpolation point or moment) of every shared degree of freedom.",
  ["inputs","configurations"],"all 24 vertex permutations (pairs of them) of every entity of every predefined space and of random symmetric layouts",
  "Tests check some fixed permutations; the group law and cross-element agreement over all permutation pairs are not sampled.",
  [F+"tetdofmap.h",F+"tetdofmap.cpp",F+"tetdofmap.inl"],
  [("symmetry tables and reindexing","anifem++/fem/tetdofmap.cpp: DofSymmetries, S2/S3/S4 permutations"),("canonical order of an entity's vertices","anifem++/fem/tetdofmap.h")])
p("S01","Space operators return the values and derivatives of the space's basis",
  "For every predefined finite element space and every vector, product or enriched (sum) space made from them, on every non-degenerate tetrahedron, the identity, gradient, divergence, curl and directional-derivative operators return at any point the values and the exact derivatives of the basis functions defined for that space. The basis functions are those dual to the documented degrees of freedom.",
  ["inputs","programs"],"random well- and badly-shaped, both orientations, shifted and scaled tetrahedra; random points; every space, power, product and sum up to a size bound; every operator",
  "Tests compare operators against stored numbers on one or two tetrahedra; exactness must hold for all shapes, orientations, scales and compositions.",
  [F+"operators.h",F+"operators.inl",F+"spaces/",F+"fem_space.h",F+"fem_space.cpp",F+"fem_space.inl"],
  [("per-space operators","anifem++/fem/spaces/*.h"),("vector/mixed operators","anifem++/fem/operators.inl"),("run-time spaces","anifem++/fem/fem_space.cpp")])
p("S02","Compile-time and run-time spaces are interchangeable",
  "A space described at compile time and the same space composed at run time have the same dimension, the same degree-of-freedom layout and produce the same operator values, polynomial order, sparsity structure and operator dimensions, and run-time composition is independent of how the composition was spelled (flattening of nested products and powers). Run-time spaces composed in the same way compare equal, and spaces with different function spaces or layouts never do.",
  ["inputs","programs"],"random space expressions evaluated both ways on random tetrahedra and points; pairs of expressions for equality",
  "Tests compare a fixed list of spaces on one tetrahedron.",
  [F+"fem_space.h",F+"fem_space.cpp",F+"fem_space.inl",F+"operators.h",F+"operators.inl"],
  [("run-time wrapper of compile-time space","anifem++/fem/fem_space.h: UniteSpace/ComplexSpace/VectorSpace"),("space algebra","anifem++/fem/fem_space.inl")])
p("S03","Symbolic basis functions agree with the numerical operators",
  "The symbolic basis functions a space provides, evaluated at any point of any tetrahedron, equal the identity-operator values of the same space with the same numbering, and the differential operators equal derivatives of the symbolic functions.",
  ["inputs","programs"],"every space and composition, random tetrahedra and points",
  "No test evaluates the symbolic basis on general tetrahedra.",
  [F+"fem_space.h",F+"fem_space.cpp",F+"expr_interface.h",F+"spaces/"],
  [("symbolic basis of each space","anifem++/fem/spaces/*.h: evalBasisFunctions"),("expression façade","anifem++/fem/expr_interface.h")])
p("S04","Degrees of freedom interpolate: functionals are dual and reproduce the space",
  "Applying the degree-of-freedom functionals of a space to its own basis functions yields the identity matrix on every non-degenerate tetrahedron, so interpolating any function of the space returns its own coefficients. Restricting interpolation to a geometric part sets exactly the degrees of freedom attached to that part and leaves all others untouched.",
  ["inputs","programs"],"every space and composition (enriched sums included), random tetrahedra, random members of the space, random geometric parts",
  "Tests interpolate a few polynomials on fixed tetrahedra and whole-element regions only.",
  [F+"fem_space.cpp",F+"fem_space.h",F+"spaces/",F+"operations/interpolate.h",F+"operations/interpolate.inl"],
  [("per-space functionals","anifem++/fem/spaces/*.h: Dof::interpolate"),("composed interpolation","anifem++/fem/fem_space.cpp: interpolateOnDOF/interpolateByDOFs")])
p("A01","Tetrahedron matrices are the exact integrals of the bilinear form",
  "For any pair of spaces, any pair of operators and any coefficient whose integrand degree does not exceed the requested order, the elemental tetrahedron matrix equals the integral of (D · opA of trial) · opB of test, entry by entry, whichever calling interface (static memory, planned memory, dynamic pool, run-time spaces, dense matrix output) is used. The result depends only on the arguments, not on the orientation or scale of the tetrahedron beyond the integral itself.",
  ["inputs","programs"],"random pairs of spaces and operators, random tetrahedra, polynomial coefficients, orders, every interface",
  "Tests compare against stored matrices for selected pairs on one tetrahedron and one interface.",
  [F+"operations/int_tet.h",F+"operations/int_tet.inl",F+"operations/core.inl",F+"operations/dyn_ops.inl"],
  [("volume integration","anifem++/fem/operations/core.inl"),("interfaces","anifem++/fem/operations/int_tet.inl, dyn_ops.inl")])
p("A02","Face matrices integrate over the chosen face with the outward normal",
  "The elemental face matrix equals the surface integral over exactly the selected face, and the normal variant contracts the coefficient with the unit outward normal of that face, for every face, every orientation of the tetrahedron and every interface. Consequently, for every space the sum over the four faces of the normal flux terms equals the volume terms required by the divergence theorem.",
  ["inputs","programs"],"all four faces, both orientations, random spaces, operators, coefficients, interfaces",
  "Tests use stored numbers for one tetrahedron.",
  [F+"operations/int_face.h",F+"operations/int_face.inl",F+"operations/core.inl",F+"geometry.h"],
  [("face integration","anifem++/fem/operations/int_face.inl"),("outward normal","anifem++/fem/geometry.h: face_normal")])
p("A03","Edge, node and point matrices match line integrals and point values",
  "Elemental edge matrices equal the line integral over exactly the selected edge, node matrices equal the form evaluated at the selected vertex, and point matrices equal the weighted sum over the given points, whether points are given in barycentric or Cartesian coordinates and whatever the weights. Every interface gives the same result.",
  ["inputs","programs"],"all six edges and four nodes, random point sets and weights, random spaces, operators, coefficients, interfaces",
  "Tests use a few fixed calls.",
  [F+"operations/int_edge.h",F+"operations/int_edge.inl",F+"operations/int_pnt.h",F+"operations/int_pnt.inl"],
  [("edge integration","anifem++/fem/operations/int_edge.inl"),("node and point evaluation","anifem++/fem/operations/int_pnt.inl")])
p("A04","Declared coefficient structure changes cost, never the matrix",
  "Whatever structure is declared for a coefficient tensor (none, symmetric, scalar multiple of identity, identity, constant per element or constant throughout), for data that has that structure the elemental matrices are equal to those obtained with the general declaration. A coefficient is asked for exactly at the physical integration points (unless it is declared constant throughout), with the declared dimensions and the caller's user data.",
  ["inputs","configurations"],"all tensor kinds × constness kinds × operator shapes × space structures on random elements, with coefficient calls recorded",
  "Tests use each kind on one or two spaces.",
  [F+"operations/core.h",F+"operations/core.inl",F+"diff_tensor.h"],
  [("tensor-kind specialisations","anifem++/fem/diff_tensor.h"),("coefficient traits","anifem++/fem/operations/core.h: DfuncTraits")])
p("A05","Batching, buffer reuse and call history never change results",
  "Processing several tetrahedra in one call, in any batch split, gives for each tetrahedron the matrix obtained from processing it alone. Results depend only on the arguments: stale contents of output and work buffers and earlier calls with other spaces have no influence, and each element's matrix is written at its documented place and nowhere else.",
  ["inputs","histories"],"random batches and splits, random sequences of different calls over one reused buffer, buffers poisoned with NaN",
  "Tests always use fresh zeroed buffers and mostly one tetrahedron.",
  [F+"operations/core.inl",F+"fem_memory.h",F+"diff_tensor.h"],
  [("fused evaluation","anifem++/fem/operations/core.inl"),("work memory layout","anifem++/fem/fem_memory.h")])
p("A06","Announced workspace suffices; too little is refused",
  "For every operation the workspace size announced by its requirement query suffices: with buffers of exactly that size the operation never reads or writes outside them. Requests that exceed what a fixed-size interface can hold (orders, number of functions or points, too small buffers) are refused with an error instead of being executed. A memory descriptor never announces memory it does not point to.",
  ["inputs","programs"],"random spaces, operators, orders, batch sizes with exact-size heap buffers under an address sanitizer; undersized variants",
  "Tests allocate with slack and without a sanitizer, so overruns are invisible.",
  [F+"fem_memory.h",F+"operations/core.inl",F+"operations/int_tet.inl",F+"operations/eval.inl"],
  [("requirement queries","anifem++/fem/operations/*.inl: *_memory_requirements"),("fixed-size memory","anifem++/fem/fem_memory.h: MemoryLegacy")])
p("A07","Field evaluation is the combination of basis values, at every point and element",
  "Evaluating an operator of a discrete field at points returns the sum over degrees of freedom of coefficient times operator value, optionally multiplied by the coefficient tensor, at every point of every tetrahedron in the batch. All interfaces (fixed-size, planned and pooled memory; compile-time and run-time spaces; Cartesian or barycentric points) agree, and the barycentric coordinates computed from Cartesian points reproduce the points.",
  ["inputs","programs"],"random spaces, operators, coefficients, points, batch sizes, interfaces",
  "Tests evaluate a few fields at a few points with batch size one.",
  [F+"operations/eval.h",F+"operations/eval.inl"],
  [("Cartesian points","anifem++/fem/operations/eval.inl: fem3DapplyX"),("barycentric points","anifem++/fem/operations/eval.inl: fem3DapplyL")])
p("B01","Scalar Dirichlet conditions preserve the constrained solution",
  "Imposing fixed values on degrees of freedom turns the local system into one whose solutions have exactly the prescribed values there and satisfy the unconstrained equations elsewhere; symmetric systems stay symmetric. Only rows and columns (or entries) of constrained degrees of freedom and the right-hand side are modified, for all variants (by index, by index list, by layout and geometric part, matrix-only, residual-only, missing unknown).",
  ["inputs"],"random matrices, index sets and layouts, row-only and symmetric variants",
  "Tests check one small matrix per routine.",
  [F+"operations/dc_on_dof.h",F+"operations/dc_on_dof.inl"],
  [("scalar Dirichlet routines","anifem++/fem/operations/dc_on_dof.inl")])
p("B02","Directional (vector) Dirichlet conditions fix one combination only",
  "Imposing a value on a linear combination of degrees of freedom (a direction of a vector unknown) makes every solution of the modified local system satisfy that combination while the orthogonal combinations of the original equations are kept. Matrix, right-hand side, single-column, single-row and residual variants are restrictions of one and the same transformation, and a coordinate direction reduces to the scalar condition.",
  ["inputs"],"random matrices, orthonormal sets of directions, one or several per unknown, dimensions 1-6, index sets",
  "Tests check one or two directions.",
  [F+"operations/dc_on_dof.h",F+"operations/dc_on_dof.inl"],
  [("vector Dirichlet routines","anifem++/fem/operations/dc_on_dof.inl: applyVectorDir*")])
p("G01","Dense solvers solve every solvable system, with and without Eigen",
  "Cholesky, LU, QR and SVD based dense solvers return, for any admissible matrix (positive definite, invertible, full rank or rank-deficient where documented) of any size and scale, a solution whose residual is at rounding level; factors satisfy their defining identities. The built-in and the Eigen-backed builds agree on every such input.",
  ["inputs","configurations"],"random, graded, permuted, ill-scaled and singular matrices, all sizes 1..12, both builds",
  "Tests solve one fixed well-scaled system.",
  [F+"geometry.h"],[("dense factorizations","anifem++/fem/geometry.h")])
p("G02","Geometric helpers are exact on every tetrahedron",
  "Volume, inverse and determinant of 3×3 matrices, cross product, triangle area, outward face normals, centroid, diameter and barycentric coordinates are correct for every non-degenerate tetrahedron, independent of orientation, translation and uniform scale; normals have unit length and point away from the opposite vertex. Barycentric coordinates sum to one, reproduce the point and are zero on the opposite face.",
  ["inputs"],"random tetrahedra over many scales and shifts, both orientations, points inside and outside",
  "Tests check one tetrahedron.",
  [F+"geometry.h"],[("geometric helpers","anifem++/fem/geometry.h")])
p("M01","The workspace pool never hands out overlapping or short buffers",
  "In any sequence of acquire, release, copy, move, defragment and clear operations on a memory pool, all live buffers are disjoint, at least as large as requested and keep their contents until released; released memory is reused so that steady cyclic use does not grow without bound. Releasing in any order is allowed.",
  ["histories"],"random operation histories with shadow ownership map and content stamps",
  "Tests run one short history.",
  [F+"fem_memory.h"],[("pool with chunks","anifem++/fem/fem_memory.h: DynMem")],
  state=[("chunks","busy prefix lengths and live part counts of each chunk","anifem++/fem/fem_memory.h")])
p("M02","Parallel use of the pool and parallel loops are race-free and exact",
  "When many threads share a parallel workspace pool, each thread's buffers are never seen by another, with no data race, in any schedule, including threads that start while others are active. Parallel loops run every index exactly once, and results of element computations performed in parallel equal the sequential ones.",
  ["schedules","histories"],"thread counts 1..16, random yields and delays, repeated starts, under a race detector",
  "Tests are sequential, or use parallelism in a form in which a race would not be observed.",
  [F+"fem_memory_parallel.h",F+"mutex_type.h"],[("per-thread pools","anifem++/fem/fem_memory_parallel.h"),("thread abstraction","anifem++/fem/mutex_type.h")])
p("T01","Automatic differentiation returns exact first and second derivatives",
  "For every expression built from the supported operations and strain-invariant or scalar variables, the value, first derivative and second derivative returned equal those of the mathematical function, at every point where it is twice differentiable. Constants, repeated use of a variable and any association of the operations do not change the result.",
  ["inputs","programs"],"random expression trees over all operations and variable kinds at random smooth points, compared with independent jets and finite differences",
  "Tests check specific expressions.",
  ["anifem++/autodiff/autodiff.h","anifem++/autodiff/autodiff.inl","anifem++/autodiff/cauchy_strain_autodiff.h"],[("value/derivative propagation","anifem++/autodiff/autodiff.inl")])
p("T02","Tensor algebra types obey the laws of dense tensors",
  "Matrices, symmetric matrices, fourth-rank and bi-symmetric fourth-rank tensors give for every operation (sum, product, contraction, transposition, determinant, inverse, tensor and symmetric tensor products, element access, conversion) exactly the result of the same operation on full dense arrays, for every dimension offered. Compressed storage reads and writes every symmetric counterpart consistently.",
  ["inputs"],"random tensors of each type and dimension, all operations, compared with dense loops",
  "Tests check a few operations in dimension three.",
  ["anifem++/autodiff/physical_tensors.h","anifem++/autodiff/physical_tensors.inl","anifem++/autodiff/physical_tensors_3d.inl"],[("generic tensors","anifem++/autodiff/physical_tensors.inl"),("3D specialisations","anifem++/autodiff/physical_tensors_3d.inl")])
p("T03","Strain invariants and their derivatives are mutually consistent",
  "Each strain invariant's value equals its definition in terms of the strain (or deformation gradient), and the first and second derivatives returned are its true derivatives, for every admissible strain state and fibre direction. Conversions of stress measures and their tangents between strain and deformation gradient are the exact chain rule.",
  ["inputs"],"random strains with positive-definite deformation, random fibres, all invariants, compared with multi-step finite differences and dense definitions",
  "Tests check one strain.",
  ["anifem++/autodiff/cauchy_strain_invariants.h","anifem++/autodiff/cauchy_strain_invariants.inl","anifem++/autodiff/cauchy_strain_autodiff.h"],[("invariants","anifem++/autodiff/cauchy_strain_invariants.inl")])
p("I01","Interval maps are exactly the piecewise-constant function of the accepted insertions",
  "After any history of insertions, copies, swaps and clears an interval map is the function of keys described by the accepted insertions: every lookup, membership test and bound search agrees with the unique half-open piece [start, end) containing the key, pieces never overlap, touching or overlapping pieces of one value are joined, and iteration is in key order. An insertion is accepted exactly if it is not empty and contradicts no stored value; a refused one is reported and leaves the map as it was. This holds for finite, half-infinite and infinite intervals and for any strict order of keys.",
  ["histories","inputs"],"random histories of insertions, copies, swaps, clears and queries against a brute-force model; finite, half-infinite and infinite pieces; integer, floating-point and text keys, increasing and decreasing order",
  "Tests insert a few fixed intervals.",
  ["anifem++/interval/interval_map.h","anifem++/interval/interval_map.inl"],[("map operations","anifem++/interval/interval_map.inl")])
p("I02","Text form of interval maps round-trips and bad text is refused",
  "Printing an interval map and parsing the text back yields an equal map for any content and any admissible choice of delimiters. Any malformed text (missing or repeated separators, unreadable or out-of-range numbers, empty pieces, pieces that contradict each other) is refused with an error, never with a crash, an out-of-bounds access or a silently different map.",
  ["inputs"],"random maps and delimiters; mutated and random texts under sanitizers",
  "Tests parse a few well-formed strings.",
  ["anifem++/interval/interval_map.h","anifem++/interval/interval_map.inl"],[("parse and print","anifem++/interval/interval_map.inl")])
p("I03","Enumerations of values and extended arrays number exactly the described set in order",
  "An enumeration of values stored by intervals presents exactly the described sequence. An enumeration of arrays extended by a ranged value, directly or remapped through such sequences, numbers exactly the described set in lexicographic order. Size, array-to-number and number-to-array lookup, iteration in both directions, jumps, comparison, search, bounds and membership all agree with the explicitly expanded and sorted list, for every base set, insertion position, dependency position and range function, and for owned and externally stored intervals.",
  ["inputs","histories"],"random interval lists, base sets, positions and range functions; all iterator and search operations, compared with an explicit sorted vector",
  "Tests iterate a few fixed sets.",
  ["anifem++/interval/ext_array_enum.h","anifem++/interval/ext_array_enum.inl","anifem++/interval/interval_enum.h","anifem++/interval/interval_enum.inl"],[("enumerators and iterators","anifem++/interval/ext_array_enum.inl"),("interval enumerations","anifem++/interval/interval_enum.inl")])

p("N01","Global assembly equals the sum of elemental contributions",
  "For every mesh, distribution over processes, set of trial functions, numbering and number of threads, assembling a matrix, a vector, a system or a matrix template gives in every row owned by the process exactly the sum over the cells of their local matrices and vectors, placed at the numbers of the global degrees of freedom and with the signs of their orientation: each cell which has a row of the process contributes exactly once, every other cell not at all, and cells the problem handler skips add nothing. This holds over any history of repeated assemblies into the same objects and under every truthful option (sorted insertion, sorted matrix, included template, drop tolerance, separate or common functions for matrix and vector, initial values, user data, dense or sparse local patterns). Every row has its diagonal position, no position appears twice, sorted insertion and templates give sorted rows, and a template has every position of the pattern. Values which are not finite, and missing functions, are reported. Worker threads never race, and their number does not change the result.",
  ["schedules","configurations","inputs","histories"],"random meshes over 1..4 processes, 1..4 threads, variables, numberings, functions and histories of operations; exact integer entries, race detector",
  "The module is not built by the tests at all (it needs the INMOST mesh library).",
  ["anifem++/inmost_interface/assembler.h","anifem++/inmost_interface/assembler.inl","anifem++/inmost_interface/elemental_assembler.h","anifem++/inmost_interface/elemental_assembler.cpp"],[("assembler","anifem++/inmost_interface/assembler.inl"),("assembly on a cell","anifem++/inmost_interface/elemental_assembler.cpp")])
p("N02","Global enumeration numbers every degree of freedom exactly once, consistently across processes",
  "For every mesh, every distribution of it over processes, every set of variables (scalar, vector, complex, with unsymmetric, symmetric or oriented degrees of freedom) and every assembling type (natural, by element type, mini-blocks, process-local by element or by degree of freedom, with or without the process as the first key), the global enumerator gives every global degree of freedom exactly one index; the indices of a process fill exactly its announced range, the ranges of the processes tile the whole numbering in rank order, and every process which sees an element knows the same indices for it. Within a process the indices follow the announced order of keys. The map from the description of a degree of freedom (variable, element, component, number) to its index and the inverse map undo each other on the whole range; iterators by element, by vector and by process visit exactly the described degrees of freedom in order, in both directions.",
  ["schedules","configurations","inputs"],"random tetrahedral meshes, partitions over 1..5 processes incl. processes without elements, variable sets and assembling types",
  "The module is not built by the tests at all (it needs the INMOST mesh library).",
  ["anifem++/inmost_interface/global_enumerator.h","anifem++/inmost_interface/global_enumerator.cpp","anifem++/inmost_interface/ordering.h"],[("global enumerators","anifem++/inmost_interface/global_enumerator.cpp")])
p("N04","Local degrees of freedom of neighbouring cells refer to the same global ones",
  "For every cell and every numbering of its nodes the collected nodes, edges and faces stand in the documented order (positive volume when reordering is asked for, edge k between its two nodes, face k of its three nodes), and every local degree of freedom refers to one position and one sign on its mesh entity which depend only on the entity and the global numbers of its nodes. Values gathered from one tag or from one tag per variable, of all variables, of a variable or of a nested component, are the stored values with these signs and positions. Therefore a vector of unknowns describes one function: traces of conforming spaces agree on common faces (normal component for RT, tangential components for ND, mean value for CR). Renumbering the nodes together with the reordering of stored data leaves the function unchanged.",
  ["inputs","configurations"],"random meshes, node numbers, symmetric and oriented layouts, blocks of data",
  "The module is not built by the tests at all (it needs the INMOST mesh library).",
  ["anifem++/inmost_interface/ordering.h","anifem++/inmost_interface/ordering.inl","anifem++/inmost_interface/elemental_assembler.h","anifem++/fem/tetdofmap.h"],[("order, orientation and gathering","anifem++/inmost_interface/ordering.inl")])
p("N05","Wrappers of elemental functions deliver what was declared",
  "An elemental function with declared inputs, outputs, sparsity patterns and work sizes, made by any of the generators or directly, reports exactly these sizes and patterns and is called exactly once per call with the given arguments, results, work arrays, user data and own memory; its return value comes back. This survives copying, moving, assignment and storage in holders of any kind, and memory set up for several threads is separate for each and can be released in any order. Conversion between dense and sparse form keeps every value of the pattern and fills the rest, in place as well.",
  ["inputs","histories"],"random declarations, patterns, copies and memory histories",
  "The module is not built by the tests at all (it needs the INMOST mesh library).",
  ["anifem++/inmost_interface/func_wrap.h","anifem++/inmost_interface/func_wrap.inl"],[("function wrappers","anifem++/inmost_interface/func_wrap.inl")])
p("N06","Utilities of finite element functions agree with the function they are given",
  "For every mesh, distribution of it over processes and finite element space: a function given by stored degrees of freedom evaluates, at a point or at several barycentric points, under every operator and for every component, to the sum of the degrees of freedom with their signs and the operator's values on the basis functions; the integral of a function over a distributed mesh of cells is the exact one for polynomials up to the requested order, counts every cell once whatever the number of processes, and is the same on all of them; the L2 projection is orthogonal to the space, reproduces functions of the space and is the same on all processes holding an entity; the diffusion solver returns the exact solution if that lies in the space, for any diffusion tensor it announces (none, scalar, symmetric, general; constant or variable) and any split of the boundary into Dirichlet and Neumann faces, calls each callback only on elements and points it belongs to, and leaves no markers. Storage for degrees of freedom has exactly the entities and sizes of the space. A name of a space gives that space and an unknown name is refused; the report on the linear solver shows its numbers without running over its buffer.",
  ["configurations","inputs","schedules"],"random meshes, partitions over 1..4 processes incl. processes without cells, spaces, operators, components, polynomials, tensors, boundary splits and numbers of iterations",
  "The module is not built by the tests at all (it needs the INMOST mesh library).",
  ["anifem++/utils/utils.h","anifem++/utils/utils.inl","anifem++/utils/utils.cpp"],[("evaluation, projection, diffusion and storage","anifem++/utils/utils.cpp"),("integration and evaluation at points","anifem++/utils/utils.inl")])
p("N07","The mesh metric is bounded, positive and recovered from the Hessian of the given function",
  "For every mesh, distribution over processes, scalar space and stored function the metric written to each node is a finite symmetric positive definite tensor; its eigenvalues lie between the announced bounds and their ratio does not exceed the announced anisotropy. It is the metric recovered by the announced rule: the recovered Hessian on each cell with absolute, bounded eigenvalues, scaled by its determinant to the power -1/5; the cell of largest determinant or the logarithmic mean over the cells of the node which are not degenerate; if all of them are, the one with most nonvanishing directions with the other directions filled; and the isotropic fallback if nothing is left. All processes holding a node hold the same metric, which does not depend on the distribution; the function and other data are left unchanged; wrong arguments are refused before anything is written; the printed statistics count every cell and node once.",
  ["configurations","inputs"],"random meshes, partitions over 1..4 processes, spaces, values (random, sparse, zero, polynomial of rank 1..3, perturbed), scales, bounds and strategies",
  "The module is not built by the tests at all (it needs the INMOST mesh library).",
  ["anifem++/utils/adapt_mesh.h","anifem++/utils/adapt_mesh.cpp","anifem++/fem/geometry.h"],[("metric construction","anifem++/utils/adapt_mesh.cpp")])
p("N08","Generated meshes tile the box exactly once, whatever the number of processes",
  "For every numbers of steps, box and number of processes the generated meshes of all processes together are one conforming division of the box: the nodes are exactly those of the lattice, every cube is divided into six tetrahedra of equal volume, every cell exists on exactly one process, two cells of an inner face lie on its two sides, faces on the boundary belong to one cell, no process holds nodes or faces which none of its cells uses.",
  ["configurations","inputs"],"random numbers of steps (1..9 per axis), boxes and 1..24 processes, incl. more processes than cells",
  "The module is not built by the tests at all (it needs the INMOST mesh library).",
  ["anifem++/utils/mesh_utils.h","anifem++/utils/mesh_utils.cpp"],[("mesh generator","anifem++/utils/mesh_utils.cpp")])
p("N03","The nonlinear solver wrapper reports convergence truthfully",
  "When the nonlinear solver wrapper reports success, the residual satisfies the requested tolerance and the returned vector is the one it was computed for; failures carry the solver's reason.",
  ["inputs","fault_sequences"],"nonlinear systems, option settings, callback failures",
  "The module is not built by the tests at all (it needs SUNDIALS).",
  ["anifem++/kinsol_interface/SUNNonlinearSolver.h","anifem++/kinsol_interface/SUNNonlinearSolver.cpp"],[("wrapper","anifem++/kinsol_interface/SUNNonlinearSolver.cpp")])
if __name__=="__main__":
    here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here,"properties.jsonl"),"w") as f:
        for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
    print(len(P),"properties")
