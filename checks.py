CHECKS = {}
CHECKS["Q01"] = dict(
    bins=[dict(name="q01", src=["q01.cpp"], libonly=["quadrature_formulas"], variants=["eigen"], timeout=300)],
    rule="one case per (simplex dimension, order); distinct = that pair; every barycentric monomial of the order and every vertex permutation of every node is observed for each",
    min_evals=60)
DOF = ["tetdofmap"]
CHECKS["D01"] = dict(
    bins=[dict(name="d01", src=["d01.cpp"], libonly=DOF, variants=["eigen"], timeout=400)],
    rule="one case per layout (random scalar layouts composed by powers, concatenations, nesting; run-time, operator and compile-time construction); distinct = the layout's structure; each index of each layout is translated in both directions",
    min_evals=300)
CHECKS["D02"] = dict(
    bins=[dict(name="d02", src=["d02.cpp"], libonly=DOF, variants=["eigen"], timeout=400)],
    rule="one evaluation per (layout, selection, iteration order), per nested component walk and per program of set operations; distinct = (layout, selection) or pair of sets",
    min_evals=3000)
CHECKS["D03"] = dict(
    bins=[dict(name="d03", src=["d03.cpp"], libonly=DOF, variants=["eigen"], timeout=400),
          dict(name="d03x", src=["d03x.cpp"], variants=["eigen"], timeout=400)],
    rule="one evaluation per (entity, symmetry, vertex order) of the tables (all enumerated), per random symmetric layout, and per (space, pair of tetrahedra, vertex order); distinct = that tuple, the layout or the space",
    min_evals=1000)
CHECKS["S01"] = dict(
    bins=[dict(name="s01", src=["s01.cpp"], shards=[("s01.cpp", ["-DSHARD=%d" % k]) for k in range(5)], variants=["eigen"], timeout=400),
          dict(name="s01n", src=["s01.cpp"], variants=["noeigen"], timeout=400)],
    rule="one evaluation per (space, operator, batch of random tetrahedra, random points); distinct = (space structure, batch size, number of points); every value of every basis function and component is compared with an independent long double basis and its exact derivatives",
    min_evals=1000)
CHECKS["S02"] = dict(
    bins=[dict(name="s02", src=["s02.cpp"], shards=[("s02.cpp", ["-DSHARD=%d" % k]) for k in range(6)], variants=["eigen"], timeout=400)],
    rule="one evaluation per (compile-time type, operator), per spelling of a random composition and per pair of spaces compared; distinct = the space structure(s)",
    min_evals=500)
CHECKS["S03"] = dict(
    bins=[dict(name="s03", src=["s03.cpp"], variants=["eigen"], timeout=400)],
    rule="one evaluation per (space, tetrahedron, point): every symbolic basis function, evaluated with dual numbers through a strict implementation of the expression interface, is compared with the identity and gradient operators; distinct = the space structure",
    min_evals=300)

CHECKS["S04"] = dict(
    bins=[dict(name="s04", src=["s04.cpp"], shards=[("s04.cpp", ["-DSHARD=%d" % k]) for k in range(4)], variants=["eigen"], timeout=400),
          dict(name="s04n", src=["s04.cpp"], variants=["noeigen"], timeout=400)],
    rule="one evaluation per (space, tetrahedron, degree of freedom or geometric part, interface); distinct = space structure, or (space, region)",
    min_evals=1500)
CHECKS["A01"] = dict(
    bins=[dict(name="a01", src=["a01.cpp"], shards=[("a01.cpp", ["-DSHARD=%d" % k]) for k in range(4)], variants=["eigen"], timeout=600),
          dict(name="a01n", src=["a01.cpp"], shards=[("a01.cpp", ["-DSHARD=0"])], variants=["noeigen"], timeout=600)],
    rule="one evaluation per (pair of spaces, pair of operators, coefficient, batch, interface); distinct = that tuple without numbers; every matrix entry is compared with a long double integral by an independent quadrature of exact degree",
    min_evals=600)
CHECKS["A02"] = dict(
    bins=[dict(name="a02", src=["a02.cpp"], shards=[("a02.cpp", ["-DSHARD=%d" % k]) for k in range(4)], variants=["eigen"], timeout=600),
          dict(name="a02n", src=["a02.cpp"], shards=[("a02.cpp", ["-DSHARD=0"])], variants=["noeigen"], timeout=600)],
    rule="one evaluation per (pair of spaces, pair of operators, coefficient, face, batch, interface) and per divergence theorem identity; distinct = that tuple without numbers; every entry is compared with a long double surface integral",
    min_evals=1500)
CHECKS["A03"] = dict(
    bins=[dict(name="a03", src=["a03.cpp"], shards=[("a03.cpp", ["-DSHARD=%d" % k]) for k in range(4)], variants=["eigen"], timeout=600),
          dict(name="a03n", src=["a03.cpp"], shards=[("a03.cpp", ["-DSHARD=0"])], variants=["noeigen"], timeout=600)],
    rule="one evaluation per (pair of spaces, pair of operators, coefficient, edge/node/points, batch, interface); distinct = that tuple without numbers; every entry is compared with a long double line integral or weighted sum",
    min_evals=1500)
CHECKS["A04"] = dict(
    bins=[dict(name="a04", src=["a04.cpp"], shards=[("a04.cpp", ["-DSHARD=%d" % k]) for k in range(5)], variants=["eigen"], timeout=600)],
    rule="one evaluation per (declaration of the coefficient, structure of its data, domain, pair of operators, interface) and per refused combination; distinct = that tuple with the space structures; every matrix entry is compared with the long double integral, every coefficient call with the physical integration points",
    min_evals=1500)
CHECKS["A05"] = dict(
    bins=[dict(name="a05", src=["a05.cpp"], shards=[("a05.cpp", ["-DSHARD=%d" % k]) for k in range(2)], variants=["eigen"], timeout=600),
          dict(name="a05n", src=["a05.cpp"], variants=["noeigen"], timeout=600)],
    rule="one evaluation per call with (form, batch or part of it, stale pattern of work memory, pool, stack and output, history of earlier calls); distinct = (form without numbers, batch size); every entry is compared with the long double integral for that tetrahedron, memory around the output and inputs are compared with what they were",
    min_evals=1500)
CHECKS["A06"] = dict(
    bins=[dict(name="a06", src=["a06.cpp"], shards=[("a06.cpp", ["-DSHARD=%d" % k]) for k in range(4)], variants=["eigen"], timeout=600),
          dict(name="a06n", src=["a06.cpp"], variants=["noeigen"], timeout=600)],
    rule="one evaluation per call with heap buffers of exactly the announced sizes (two different contents of the workspace) or per call with too little memory, output, or over the limits of the fixed-size interfaces; distinct = (spaces, operators, domain, batch size); ASan watches every access, refusals are observed as exceptions or failed assertions in a child process",
    min_evals=3000)
CHECKS["A07"] = dict(
    bins=[dict(name="a07", src=["a07.cpp"], shards=[("a07.cpp", ["-DSHARD=%d" % k]) for k in range(2)], variants=["eigen", "noeigen"], timeout=600)],
    rule="one evaluation per (space, operator, field, points, batch, coefficient, interface); distinct = (space structure, operator, kind of points, batch size, number of points); every component at every point of every element is compared with the long double combination of basis values",
    min_evals=2000)
CHECKS["G01"] = dict(
    bins=[dict(name="g01", src=["g01.cpp"], libonly=[], variants=["eigen", "noeigen"], timeout=400)],
    rule="one evaluation per (solver, matrix): random dense, triangular, permutation, graded, prescribed spectrum, rank deficient, over ten decades of scale and sizes 1..40; distinct = (solver, kind, size, scale); residuals, orthogonality and factor identities in long double",
    min_evals=8000)
CHECKS["M01"] = dict(
    bins=[dict(name="m01", src=["m01.cpp"], libonly=[], variants=["eigen", "noeigen"], timeout=400)],
    rule="one evaluation per pool operation in a history (acquire through the pool or a converting adaptor, release by destruction / clear / assignment in any order, moves of parts, defragmentation); distinct = (length, sizes, live limit) or release order; a shadow map of owned byte ranges checks disjointness at every acquire, content stamps are checked before every release and at intervals, ASan watches the heap",
    min_evals=20000)
CHECKS["M02"] = dict(
    bins=[dict(name="m02", src=["m02.cpp"], libonly=[], flags=["-DNO_FEM"], san="tsan", variants=["eigen"], timeout=600),
          dict(name="m02e", src=["m02.cpp"], san="tsan", sections="elements", variants=["eigen"], timeout=600),
          dict(name="m02o", src=["m02.cpp"], libonly=[], flags=["-DNO_FEM", "-DWITH_OPENMP", "-fopenmp"], ldflags=["-fopenmp"], variants=["eigen"], timeout=600)],
    rule="one evaluation per possession of a pool index by a thread, per parallel loop, per element computation done in parallel and per operation of a sequential history; distinct = observed order in which threads obtained indices or iterations (interleaving), history, or element job; TSan watches every access of std::thread runs, plain (unsynchronised) ownership words and content stamps reveal sharing in both",
    technique="ThreadSanitizer + ownership and exactly-once monitors", min_evals=5000)
CHECKS["B01"] = dict(
    bins=[dict(name="b01", src=["b01.cpp"], libonly=DOF, variants=["eigen"], timeout=400)],
    rule="one evaluation per (routine, random system, constrained set); distinct = (routine, size or layout(s), selection); every entry outside the constrained rows and columns is compared bit by bit, the meaning is judged by residuals at random vectors that have the prescribed values (long double)",
    min_evals=5000)
CHECKS["B02"] = dict(
    bins=[dict(name="b02", src=["b02.cpp"], libonly=[], variants=["eigen"], timeout=400)],
    rule="one evaluation per (routine, random system, orthogonal matrix, constrained directions); distinct = (routine, size, dimension, number of directions, kind of matrix, precision); entries compared with the transformation in long double, the meaning judged by residuals at random vectors satisfying the condition",
    min_evals=8000)
CHECKS["G02"] = dict(
    bins=[dict(name="g02", src=["g02.cpp"], libonly=[], variants=["eigen", "noeigen"], timeout=400)],
    rule="one evaluation per (tetrahedron or matrix, precision); distinct = coordinates; scales 1e-12..1e12, shifts up to 1e4 diameters, both orientations, stretched and lattice shapes, float/double/long double; every helper compared with long double formulas under a condition-aware bound",
    min_evals=8000)
CHECKS["T02"] = dict(
    bins=[dict(name="t02", src=[], libonly=[], shards=[("t02.cpp", ["-DDIM=%d" % k]) for k in (1, 2, 3, 4, 5)], variants=["eigen"], timeout=400),
          dict(name="t02n", src=[], libonly=[], shards=[("t02.cpp", ["-DDIM=%d" % k]) for k in (2, 3, 4)], variants=["noeigen"], timeout=400)],
    rule="one evaluation per (type, dimension, operation group, random tensors); distinct = (type, dimension, precision, values or element written); every element of every result is compared with dense loops in long double, every stored element with the class of its symmetric counterparts",
    min_evals=5000)

CHECKS["I01"] = dict(
    bins=[dict(name="i01", src=["i01.cpp"], libonly=[], variants=["noeigen"], timeout=300)],
    rule="one evaluation per random history of insertions (finite, half-infinite, infinite, empty, reversed), copies, swaps and clears on maps with five kinds of keys and three kinds of values; distinct = (kind of key, history); after every step every cell is looked up in all ways, all pieces are compared with the maximal runs of a brute-force model, refused insertions must have left everything",
    min_evals=9000)
CHECKS["I02"] = dict(
    bins=[dict(name="i02", src=["i02.cpp"], libonly=[], variants=["noeigen"], timeout=300)],
    rule="one evaluation per (map, delimiters) printed and read back, and per text (mutated print or random tokens) read by the library and by an independent reference parser; distinct = text; the maps must be equal piece by piece, texts the reference refuses must raise an exception",
    min_evals=20000)
CHECKS["I03"] = dict(
    bins=[dict(name="i03", src=["i03.cpp"], libonly=[], variants=["noeigen"], timeout=300)],
    rule="one evaluation per random enumeration (list of intervals; base set, positions, range function; maps of values); distinct = the data; every element is looked up in both directions, all iterator operations and searches by random keys are compared with an explicit sorted vector",
    min_evals=10000)
CHECKS["T01"] = dict(
    bins=[dict(name="t01", src=[], libonly=[], shards=[("t01.cpp", ["-DSTORE=%d" % k]) for k in range(7)], variants=["noeigen"], O="-O0", timeout=400)],
    rule="one evaluation per random straight-line program (2-14 operations over parameters, variables, values of every static derivative state and strain invariants, with values reused); distinct = text of the program; after every operation the value, all first and all second derivatives are compared with independent jets in long double under a running rounding-error bound",
    min_evals=15000)
CHECKS["T03"] = dict(
    bins=[dict(name="t03", src=["t03.cpp"], libonly=[], variants=["noeigen"], timeout=400)],
    rule="one evaluation per (deformation, directions) for all invariants, strain measures, conversions or energies; distinct = data; values, all components of first and second derivatives are compared with definitions evaluated in long double jets over the strain or over the deformation gradient",
    min_evals=8000)
import os as _os
STANDIN = ["-I" + _os.path.join(_os.path.dirname(_os.path.abspath(__file__)), "harness", "standin")]
NOT_APPLICABLE = {"N03": "the wrapper drives SUNDIALS/KINSOL, which is not installed: its code cannot be compiled or executed here, and a stand-in for a nonlinear solver would only observe the stand-in's own convergence decisions"}
CHECKS["N01"] = dict(
    technique="runtime monitoring: the real assembler runs under AddressSanitizer+UBSan and under ThreadSanitizer on several processes and worker threads over a stand-in for the INMOST mesh library; an oracle rebuilds every matrix and vector from an explicit sum over all cells",
    bins=[dict(name="n01a", src=["n01a.cpp"], libonly=DOF, flags=STANDIN, variants=["eigen"], timeout=600),
          dict(name="n01o", src=["n01a.cpp"], libonly=DOF, flags=STANDIN+["-DTHREADS_ONLY", "-DWITH_OPENMP", "-fopenmp"], ldflags=["-fopenmp"], variants=["eigen"], timeout=600),
          dict(name="n01t", src=["n01a.cpp"], libonly=DOF, flags=STANDIN+["-DTHREADS_ONLY"], variants=["eigen"], san="tsan", timeout=600)],
    rule="one evaluation per (mesh, partition, variables, functions, history of 2-9 operations); distinct = that description; after every operation every row of every process is compared exactly with an explicit sum over the cells, and every argument, buffer, permutation and initial value seen by handlers and local functions with the cell it belongs to",
    min_evals=1000)
CHECKS["N04"] = dict(
    technique="runtime monitoring: the real code runs under AddressSanitizer+UBSan over a stand-in for the INMOST mesh library; every position, sign and value is compared with an explicit list of degrees of freedom and an independent model of orientation and symmetry",
    bins=[dict(name="n01", src=["n01.cpp"], libonly=DOF, flags=STANDIN, variants=["eigen"], timeout=600)],
    rule="one evaluation per cell (order, gathered values), per common face (traces) or per renumbered mesh; distinct = (layout, mesh)",
    min_evals=1000)
CHECKS["N05"] = dict(
    technique="runtime monitoring: the real wrappers run under AddressSanitizer+UBSan with exactly sized buffers; an oracle compares every declaration, call, result and memory block with what was declared",
    bins=[dict(name="n01f", src=["n01f.cpp"], libonly=[], flags=STANDIN, variants=["noeigen"], timeout=300)],
    rule="one evaluation per (patterns), (declared function and way of passing it on) or (generator set); distinct = sizes and patterns",
    min_evals=1000)
CHECKS["N02"] = dict(
    technique="runtime monitoring: the real enumerators run under AddressSanitizer+UBSan on several processes (threads) over a stand-in for the INMOST mesh library; an oracle compares every observed number with an explicitly sorted list of all degrees of freedom",
    bins=[dict(name="n02", src=["n02.cpp"], libonly=DOF, flags=STANDIN, variants=["eigen"], timeout=600)],
    rule="one evaluation per (process, numbering); distinct = (arrangements, variables, number of cells and processes); every number of every degree of freedom of every process is compared with an explicit sorted list",
    min_evals=1000)
CHECKS["N06"] = dict(
    technique="runtime monitoring: the real utilities run under AddressSanitizer+UBSan on several processes over a stand-in for the INMOST mesh and solver library; oracles compare values with explicit sums of basis functions, integrals with exact ones, projections with the orthogonality of the difference and diffusion problems with their polynomial solutions",
    bins=[dict(name="n06", src=["n06.cpp", "n06lib.cpp"], flags=STANDIN, variants=["eigen"], timeout=600),
          dict(name="n06o", src=["n06.cpp", "n06lib.cpp"], flags=STANDIN+["-DWITH_OPENMP", "-fopenmp"], ldflags=["-fopenmp"], variants=["eigen"], timeout=600)],
    rule="one evaluation per (cell, function), integral, projection, boundary value problem, storage or report; distinct = its description",
    min_evals=1000)
CHECKS["N07"] = dict(
    technique="runtime monitoring: the real construction runs under AddressSanitizer+UBSan on several processes over a stand-in for the INMOST mesh library; an oracle rebuilds the metric of every node from Hessians of basis functions in extended precision, and monitors bound the eigenvalues of every metric",
    bins=[dict(name="n07", src=["n07.cpp", "n06lib.cpp"], flags=STANDIN, variants=["eigen", "noeigen"], timeout=600),
          dict(name="n07o", src=["n07.cpp", "n06lib.cpp"], flags=STANDIN+["-DWITH_OPENMP", "-fopenmp"], ldflags=["-fopenmp"], variants=["noeigen"], timeout=600)],
    rule="one evaluation per node of a mesh; distinct = (space, mesh, processes, kind of values, options); nodes where rounding can turn a decision are only checked for the bounds",
    min_evals=1000)
CHECKS["N08"] = dict(
    technique="runtime monitoring: the real generator runs under AddressSanitizer+UBSan on 1-24 processes over a stand-in for the INMOST mesh library; an oracle in exact lattice coordinates checks that the cells of all processes tile the box",
    bins=[dict(name="n08", src=["n08.cpp", "n06lib.cpp"], flags=STANDIN, variants=["noeigen"], timeout=600)],
    rule="one evaluation per generated mesh; distinct = (numbers of steps, processes, kind of box)",
    min_evals=300)
