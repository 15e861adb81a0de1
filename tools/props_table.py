# pylint: disable=all
GRAPH = ["network_components.py", "network_operations.py"]

add("G01", "Any history of graph operations denotes the defining sum",
    "After any sequence of connecting, disconnecting, contracting, flattening, "
    "splitting, slicing, reordering, copying, replacing and removing nodes and "
    "edges, contracting what is left gives exactly the sum over connected "
    "indices that the same steps give on plain arrays, and edges, nodes, axis "
    "orders, dimensions and names stay mutually consistent. The order in which "
    "sets of nodes or edges happen to be iterated makes no difference.",
    ["histories", "inputs", "schedules"],
    "all finite histories of public graph operations on networks with traces, "
    "parallel edges, scalars and copy nodes; all set iteration orders",
    "tests run one or two operations on one fixed network; the bugs sit in "
    "combinations (a trace edge whose ends are in reverse order, then a copy) "
    "and depend on object hashes",
    GRAPH,
    [("edge/node bookkeeping", "network_components.py:Edge.update_axis"),
     ("contraction bookkeeping", "network_components.py:_remove_edges"),
     ("copy maps", "network_operations.py:copy")],
    "random operation histories under a seeded set-iteration order against a "
    "reference model (labelled numpy arrays)",
    "seeded search over histories; bounded to 9 nodes, rank <= 12, dense numpy "
    "backend")

add("G02", "Every contractor computes the defining sum in the requested order",
    "Contracting the same nodes with the greedy, optimal, branching, automatic, "
    "custom, precomputed-path or copy-tensor contractor gives the same tensor, "
    "with its axes in the requested edge order, whatever container the nodes "
    "come in and whatever path or iteration order is used. It never alters the "
    "caller's collection and leaves nodes outside the collection wired to the "
    "result.",
    ["inputs", "schedules", "configurations"],
    "all networks with traces, parallel edges, copy nodes, scalars and several "
    "components; all contraction orders; all set iteration orders",
    "tests contract small fixed networks, mostly without traces or outside "
    "neighbours, with one iteration order",
    ["contractors/opt_einsum_paths/path_contractors.py",
     "contractors/bucket_contractor.py"],
    [("path execution", "contractors/opt_einsum_paths/path_contractors.py:base"),
     ("precomputed path",
      "contractors/opt_einsum_paths/path_contractors.py:contract_path"),
     ("copy tensors", "contractors/bucket_contractor.py:bucket")],
    "random networks and contractor choices inside longer histories, random "
    "contraction paths, seeded set order, failing backend calls",
    "seeded search; networks of at most 9 nodes")

add("G04", "A graph operation that fails leaves the network intact",
    "If a numerical routine fails (out of memory, no convergence) inside a graph "
    "operation, or the arguments are rejected, the error reaches the caller and "
    "the nodes reachable from the user's edges still form a well-formed network "
    "that denotes the same tensor. The operation can simply be retried, and "
    "later operations give the results they would have given.",
    ["fault_sequences", "crash_points", "histories"],
    "a failure at any backend call inside any operation of any history",
    "no test injects a failure into a graph operation",
    GRAPH,
    [("multi-node updates", "network_components.py:flatten_edges"),
     ("multi-node updates", "network_components.py:split_edge"),
     ("node splitting", "network_operations.py:split_node")],
    "the k-th backend call of an operation fails; the remaining network is "
    "re-read through the edges and compared with the model, then the history "
    "continues",
    "seeded search over histories and fault points; failures are injected at "
    "calls of the numerical backend")

add("G03", "ncon computes the defining sum for every labelling and order",
    "A network given by index labels evaluates to the sum over all closed labels "
    "with the open labels as axes in the documented or requested order, for any "
    "labels (numbers or strings), traces, outer products, batch labels, "
    "contraction order and container types. The arguments are not modified, an "
    "ill-formed labelling is refused, and a failing call leaves no trace in "
    "later calls.",
    ["inputs", "schedules", "fault_sequences"],
    "all label networks of up to 5 tensors, all contraction orders, histories "
    "of calls with failures in between (compiled calls keep a cache)",
    "tests evaluate fixed label patterns, each once, mostly in default order",
    ["ncon_interface.py"],
    [("label canonicalisation", "ncon_interface.py:_canonicalize_network_structure"),
     ("contraction loop", "ncon_interface.py:_jittable_ncon"),
     ("batched contraction", "ncon_interface.py:_batched_contraction"),
     ("cache of compiled functions", "ncon_interface.py:ncon")],
    "random histories of calls with random labellings and orders, failing "
    "backend calls, against numpy einsum",
    "seeded search; at most 5 tensors and rank 6; numpy backend, and the jax "
    "backend for the compiled cache")

PERSIST = ["utils.py", "network_components.py", "network_operations.py"]
add("G05", "Contraction orders cost what they claim, and optimal ones are optimal",
    "For every network and search limit the order solver returns every summed "
    "label exactly once; for a connected network contracting in that order takes "
    "exactly the multiplications it reports (partial traces aside), no more than "
    "its greedy answer, and the cost checker reports the same for this and any "
    "other order. An order flagged optimal, every order of an unlimited search, "
    "and what the optimal contractor performs on a connected network are not "
    "beaten by any sequence of contractions of connected tensors. Asking for "
    "orders or costs changes neither tensors, labels nor the network.",
    ["inputs", "histories", "configurations", "fault_sequences"],
    "all networks of up to 7 tensors with bonds of dimension 1 and more, partial "
    "traces, parallel bonds and open legs; all search limits; all orders given to "
    "the checker; failing allocations",
    "tests solve a few fixed networks without bonds of dimension 1 and never "
    "count what a contraction in the returned order performs",
    ["contractors/custom_path_solvers/nconinterface.py",
     "contractors/custom_path_solvers/pathsolvers.py",
     "contractors/opt_einsum_paths/path_contractors.py",
     "contractors/opt_einsum_paths/utils.py"],
    [("order solver",
      "contractors/custom_path_solvers/nconinterface.py:ncon_solver"),
     ("cost checker",
      "contractors/custom_path_solvers/nconinterface.py:ncon_cost_check"),
     ("search",
      "contractors/custom_path_solvers/pathsolvers.py:full_solve_complete"),
     ("optimal contractor",
      "contractors/opt_einsum_paths/path_contractors.py:optimal")],
    "random histories of a changing network; the products the real contraction "
    "hands to the backend are metered and compared with the claim and with "
    "dynamic programming over all trees",
    "seeded search; networks of at most 7 tensors and 15 indices")

add("S01", "A saved network loads back as the same network",
    "Saving any nodes that form a complete network to a file and loading them, "
    "in this process or after a restart, gives the same nodes in the same order "
    "with equal tensors, dtypes, names, axis names and wiring, so that any "
    "further operations give the same results as on the original. Saving changes "
    "nothing in the network that is saved.",
    ["histories", "inputs", "schedules"],
    "all networks reached by histories of graph operations, all names, any "
    "number of saves and loads in between, all set iteration orders",
    "tests save one small network once and compare a few attributes",
    PERSIST,
    [("save", "utils.py:save_nodes"), ("load", "utils.py:load_nodes"),
     ("node records", "network_components.py:Node._load_node"),
     ("edge records", "network_components.py:Edge._load_edge")],
    "random histories with save, restart from the file and continue, on a "
    "simulated disk, against the reference model",
    "seeded search; at most 9 nodes per history (up to 14 in a saved set)")

add("S02", "A failed or torn save is recognised and harms nothing",
    "When saving fails (I/O error, full disk, allocation failure) the error "
    "reaches the caller and the network in memory is unchanged. A file left "
    "behind by a failed save or by a crash in the middle either loads as exactly "
    "the saved network or is refused with an error; it never loads as a "
    "different or smaller network.",
    ["crash_points", "fault_sequences", "histories"],
    "a fault or crash at every write of a save, torn last writes, every network "
    "reached by a history",
    "no test writes a file that fails half way",
    PERSIST,
    [("save", "utils.py:save_nodes"), ("load", "utils.py:load_nodes")],
    "fault-injecting in-memory disk under the real HDF5 library: short writes, "
    "I/O errors, full disk, crash prefixes, torn writes",
    "seeded search over fault points; writes persist in program order (a crash "
    "keeps a prefix, the last write possibly torn)")

add("S03", "JSON text of any part of a network loads back as that part",
    "Writing any subset of nodes of a network to JSON text with any named edges "
    "and reading it back gives the same nodes and wiring inside the subset, with "
    "cut bonds as dangling edges and the edge bindings pointing to the matching "
    "edges. The original is not changed, and truncated text is refused.",
    ["histories", "inputs", "schedules"],
    "all subsets of all networks reached by histories, all bindings, all set "
    "iteration orders",
    "tests serialize complete small networks with one fixed subset",
    ["network_operations.py", "network_components.py"],
    [("write", "network_operations.py:nodes_to_json"),
     ("read", "network_operations.py:nodes_from_json")],
    "random histories with random subsets and bindings written and read back, "
    "failing allocations and truncated text, against the reference model",
    "seeded search; at most 9 nodes")

BLOCK = ["block_sparse/blocksparsetensor.py", "block_sparse/linalg.py",
         "block_sparse/tensordot.py", "block_sparse/blocksparse_utils.py",
         "block_sparse/charge.py", "block_sparse/index.py",
         "backends/symmetric/symmetric_backend.py",
         "backends/symmetric/decompositions.py"]
add("B01", "Block-sparse operations equal the same operations on dense tensors",
    "Every operation on charge-conserving tensors (creation, reshape, transpose, "
    "arithmetic, contraction, trace, decompositions, inverses, diagonals) gives "
    "the tensor that the dense operation gives, with the right legs and dtype and "
    "with stored numbers exactly for the charge-conserving elements. Operands "
    "keep their values and legs, operands with non-matching legs are refused, and "
    "an operation that fails for lack of memory changes nothing.",
    ["histories", "inputs", "fault_sequences"],
    "all histories of operations on tensors of all supported symmetries, leg "
    "charges, flows, fusions and internal orders, with failing allocations",
    "tests check each operation alone on contiguous tensors of one symmetry",
    BLOCK,
    [("contraction", "block_sparse/tensordot.py:tensordot"),
     ("decompositions", "block_sparse/linalg.py:svd"),
     ("truncation", "backends/symmetric/decompositions.py:svd"),
     ("block search", "block_sparse/blocksparse_utils.py:"
      "_find_transposed_diagonal_sparse_blocks")],
    "random operation histories with failing allocations against dense numpy "
    "arrays and a reading of the stored data from its definition",
    "seeded search; at most 3000 dense elements, 8 symmetries, non-empty legs")

add("B02", "Caching block data never changes a result",
    "Whatever is cached, switched on, off or cleared, and whatever tensors of "
    "whatever symmetries were used before, every block-sparse operation gives the "
    "result it gives without the cache. A failing operation leaves no cache entry "
    "that alters later results.",
    ["histories", "configurations", "fault_sequences"],
    "all histories of operations and cache switches over several symmetries that "
    "share charge values, with failing allocations while the cache is filled",
    "tests repeat one contraction with the cache on; results depend on the whole "
    "history that filled the cache",
    ["block_sparse/caching.py", "block_sparse/blocksparse_utils.py",
     "block_sparse/blocksparsetensor.py"],
    [("cache switch", "block_sparse/caching.py:set_caching_status"),
     ("cached block search", "block_sparse/blocksparse_utils.py:"
      "_find_transposed_diagonal_sparse_blocks")],
    "random histories with cache switches, several symmetries and failing "
    "allocations against dense numpy arrays",
    "seeded search; at most 90 operations per history")

add("B03", "Networks of symmetric tensors behave as their dense networks",
    "In every history of network operations on nodes holding symmetric tensors, "
    "joined along legs of equal charges and opposite flow, every tensor stays "
    "charge-conserving, every edge keeps the charges its history gives it, and the "
    "network denotes the tensor the same history on dense tensors denotes. Legs "
    "whose charges or flows do not match are refused when they are contracted. An "
    "operation that fails leaves the network intact.",
    ["histories", "inputs", "schedules", "fault_sequences"],
    "all histories of network operations over eight symmetry groups, set "
    "iteration orders and failing backend calls",
    "tests of nodes use dense tensors, tests of symmetric tensors use no networks; "
    "flattening, splitting, traces, copies and scalars of symmetric nodes in "
    "sequence are not sampled",
    ["network_components.py", "network_operations.py", "ncon_interface.py",
     "contractors/opt_einsum_paths/path_contractors.py",
     "backends/symmetric/symmetric_backend.py",
     "backends/symmetric/decompositions.py", "block_sparse/blocksparsetensor.py"],
    [("flattening edges", "network_components.py:flatten_edges"),
     ("splitting edges", "network_components.py:split_edge"),
     ("contraction", "network_components.py:contract_between"),
     ("legs of reshaped tensors",
      "block_sparse/blocksparsetensor.py:ChargeArray.reshape"),
     ("products", "backends/symmetric/symmetric_backend.py:"
      "SymmetricBackend.tensordot")],
    "random histories of network operations on symmetric tensors under a seeded "
    "set-iteration order with failing backend calls against dense numpy arrays and "
    "a decoder of the stored blocks",
    "seeded search; at most 9 nodes of at most 2000 elements")

MPS = ["matrixproductstates/base_mps.py", "matrixproductstates/finite_mps.py"]

add("B04", "Charges and indexes compute like lists of group elements",
    "Fusing, conjugating, combining, slicing, reducing, intersecting, comparing "
    "and counting the charges of tensor legs gives what the same operations give "
    "on plain lists of group elements, for every number and kind of symmetries, "
    "every integer type that holds the values, and however the charges were made "
    "or are stored internally. No operation, also none that fails, changes "
    "charges or indexes made before.",
    ["inputs", "histories", "fault_sequences"],
    "all charges of up to five U(1), Z2 and ZN symmetries in 16-, 32- and 64-bit "
    "integers, with repetitions; all histories of public operations; failures at "
    "any numpy call",
    "tests use one or two symmetries, 16-bit charges and fresh objects; the "
    "representation (plain, or distinct values with labels) is switched lazily, "
    "so results depend on what was asked before",
    ["block_sparse/charge.py", "block_sparse/index.py", "block_sparse/utils.py"],
    [("charges", "block_sparse/charge.py:BaseCharge"),
     ("indexes", "block_sparse/index.py:Index"),
     ("set operations", "block_sparse/utils.py:unique")],
    "histories over a pool of charges and indexes against lists of tuples; the "
    "k-th numpy call made by library code fails",
    "seeded search over histories and fault points; charges of up to 2500 "
    "elements (40000 in one operation)")

add("M01", "Any history of MPS operations denotes the state its steps define",
    "After any sequence of constructing, moving the orthogonality center with or "
    "without truncation, canonicalizing and applying one- and two-site gates, a "
    "finite matrix product state multiplies out to the vector those steps define, "
    "truncations keep the dominant Schmidt values, and the reported center is "
    "true. Local expectation values, correlators and environments taken from a "
    "state whose canonical form is intact (or that reports none) equal those of "
    "that vector. No operation alters arrays the caller or another state holds.",
    ["histories", "inputs", "configurations"],
    "all histories of operations on chains of 1-6 sites, dense and U(1)-symmetric, "
    "real and complex, with shared tensors and open boundary bonds",
    "tests check one operation on a fresh canonical state; the bugs (a center "
    "that is reported but not there) only show in a later measurement",
    MPS,
    [("moving the center", "matrixproductstates/base_mps.py:position"),
     ("gates", "matrixproductstates/base_mps.py:apply_two_site_gate"),
     ("measurements", "matrixproductstates/base_mps.py:"
      "measure_two_body_correlator")],
    "random operation histories against the dense state vector",
    "seeded search; at most 6 sites, bond dimension 5 at the start")

add("M02", "An MPS operation that fails leaves a usable state",
    "If a decomposition or an allocation fails inside any operation on a matrix "
    "product state, the error reaches the caller and the state still denotes the "
    "vector of before the call (or of a completed part of a sweep, up to the "
    "normalization asked for), with a reported center that is true. Repeating the "
    "operation succeeds and later operations give the results they would have "
    "given.",
    ["fault_sequences", "crash_points", "histories"],
    "a failure at any backend call inside any operation of any history",
    "no test injects a failure into an MPS operation",
    MPS,
    [("sweep", "matrixproductstates/base_mps.py:position"),
     ("canonicalization", "matrixproductstates/finite_mps.py:canonicalize")],
    "the k-th backend call of an operation fails; the state is multiplied out and "
    "compared with the states the sweep passes through, then the history goes on",
    "seeded search over histories and fault points; failures are injected at "
    "calls of the numerical backend")

add("K01", "Krylov solvers are correct and leave nothing behind, even on failure",
    "For any linear operator given as a function - also one that returns its "
    "input, a view, a reused buffer or a tensor it keeps - Lanczos returns Ritz "
    "pairs of the Krylov space, Arnoldi returns eigenpairs and GMRES a solution "
    "within tolerance, in the caller's tensor layout. No solver alters the start "
    "vector, the right-hand side, the guess, the operator's arguments or its "
    "results. If the operator or an allocation fails the error reaches the caller, "
    "the block-caching switch is as before and a repeated call succeeds.",
    ["histories", "inputs", "fault_sequences"],
    "all histories of solver calls on problems of up to 30 unknowns, dense and "
    "block-sparse, real and complex, with operators that alias or raise at any call",
    "tests solve fixed problems with operators that allocate a fresh result and "
    "never raise",
    ["backends/numpy/numpy_backend.py", "backends/symmetric/symmetric_backend.py",
     "linalg/krylov.py"],
    [("Lanczos", "backends/numpy/numpy_backend.py:eigsh_lanczos"),
     ("cache switching", "backends/symmetric/symmetric_backend.py:eigsh_lanczos"),
     ("operator wrapping", "linalg/krylov.py:MatvecCache")],
    "random histories of solver calls with aliasing and failing operators and "
    "failing allocations against dense linear algebra",
    "seeded search; problems of at most 30 unknowns; numpy and symmetric backends")

add("C01", "A with-block's backend or collection is in effect exactly inside it",
    "Inside a default-backend block (and no inner one) every construction that "
    "names no backend uses that block's backend, and inside a node-collection "
    "block every node that is constructed joins that collection and no other, "
    "once. Leaving a block - normally or by an exception, through any number of "
    "blocks, with the same object or container entered again - restores what was "
    "in effect before, and a refused request or failed construction changes "
    "nothing; what other threads or asyncio tasks enter and leave meanwhile has "
    "no influence.",
    ["histories", "schedules", "fault_sequences"],
    "all programs of properly nested blocks in one to three threads or tasks, "
    "under all interleavings",
    "tests enter one block in one thread; overlapping blocks need a schedule",
    ["backend_contextmanager.py", "ops.py", "network_components.py"],
    [("backend blocks", "backend_contextmanager.py:DefaultBackend"),
     ("collection blocks", "network_components.py:NodeCollection")],
    "random programs of blocks, raises and constructions in simulated threads "
    "and tasks against one stack per thread",
    "seeded search; threads switch at line boundaries of library code")

add("T01", "Threads working on their own networks do not influence each other",
    "Threads that build and contract their own networks, block-sparse tensors and "
    "matrix product states, sharing none of them, all get the results they would "
    "get alone, whatever the interleaving, also while one of them enables, "
    "disables or clears the block cache or is inside a default-backend block. No "
    "interleaving raises an error, blocks forever or changes another thread's "
    "tensors.",
    ["schedules", "histories"],
    "all interleavings of two or three programs of public operations",
    "tests are single-threaded",
    GRAPH + ["block_sparse/caching.py", "block_sparse/blocksparse_utils.py",
             "backend_contextmanager.py", "matrixproductstates/base_mps.py"],
    [("process-wide block cache", "block_sparse/caching.py:get_cacher"),
     ("process-wide defaults", "backend_contextmanager.py:get_default_backend")],
    "simulated threads run random programs under a seeded schedule; each program "
    "is checked against its own reference model",
    "seeded search over schedules; threads switch at line boundaries of library "
    "code, numpy calls are atomic")

add("T02", "Threads may read the same symmetric tensors at the same time",
    "Any number of threads may use the same block-sparse tensors, indices and "
    "charges as operands - contracting, decomposing, transposing, conjugating, "
    "adding, converting - and each gets the result it would get alone, whatever "
    "the interleaving and whether or not the shared block cache is on or being "
    "cleared. The shared tensors keep their value.",
    ["schedules", "histories"],
    "all interleavings of two or three programs of operations that only read "
    "shared tensors",
    "tests are single-threaded; operations that look read-only switch the "
    "representation of the charges they use",
    ["block_sparse/charge.py", "block_sparse/index.py",
     "block_sparse/blocksparse_utils.py", "block_sparse/blocksparsetensor.py",
     "block_sparse/caching.py"],
    [("lazy representation", "block_sparse/charge.py:BaseCharge"),
     ("shared block cache", "block_sparse/blocksparse_utils.py:"
      "_find_transposed_diagonal_sparse_blocks")],
    "simulated threads apply random operations to shared tensors under a seeded "
    "schedule; results are compared with dense arrays",
    "seeded search over schedules; threads switch at line boundaries of library "
    "code, numpy calls are atomic")

add("D01", "DMRG lowers the energy and reports the energy of its state",
    "After any sequence of one- and two-site runs, center shifts, gates, changes "
    "of the Hamiltonian and restarts, the energy a run reports is that of the "
    "state it leaves, is never below the ground state energy and, when nothing is "
    "truncated, never above the energy before. The state stays canonical, the "
    "reported environments are those of the current state, bond limits are kept "
    "and arrays the caller holds are not altered.  A run stops at the first sweep "
    "that changes the energy by less than the requested precision, otherwise after "
    "the requested number of sweeps.",
    ["histories", "inputs"],
    "all histories of runs on chains of 1-6 sites with random, XXZ and Ising "
    "Hamiltonians, dense and charge-conserving, real and complex",
    "tests run one optimization on one model and compare the final energy; stale "
    "environments only show in a later operation",
    ["matrixproductstates/dmrg.py", "matrixproductstates/base_mps.py",
     "matrixproductstates/mpo.py"],
    [("local optimization", "matrixproductstates/dmrg.py:_optimize_2s_local"),
     ("environments", "matrixproductstates/dmrg.py:position")],
    "random histories of runs against the dense Hamiltonian",
    "seeded search; at most 6 sites; numpy and symmetric backends (no other "
    "backend has a working Lanczos solver here)")

add("D02", "An interrupted DMRG run leaves a state that can be continued",
    "If the eigensolver, a decomposition or an allocation fails inside a DMRG run "
    "or a center shift, the error reaches the caller, the state is canonical "
    "around its reported center and its energy is not above that of before the "
    "run (when nothing is truncated); a shift or an energy that fails does not "
    "change the state. Running again continues from there with correct energies "
    "and environments.",
    ["fault_sequences", "crash_points", "histories"],
    "a failure at any backend call inside any operation of any D01 history",
    "no test interrupts a DMRG run",
    ["matrixproductstates/dmrg.py", "matrixproductstates/base_mps.py"],
    [("local optimization", "matrixproductstates/dmrg.py:_optimize_1s_local"),
     ("environments", "matrixproductstates/dmrg.py:position")],
    "the k-th backend call of an operation fails; the state is compared with "
    "dense linear algebra and the history goes on",
    "seeded search over histories and fault points; failures are injected at "
    "calls of the numerical backend")

add("D03", "Built-in Hamiltonians and operator chains mean what they are named for",
    "For all couplings, fields, sizes and number types, the built-in operators of "
    "the anisotropic Heisenberg chain, the transverse-field Ising chain and free "
    "fermions on a grid equal the sum of the local terms that define them, give "
    "any state the energy of that sum, and do not change when the caller reuses "
    "the arrays the couplings came in. Rolling an infinite operator shifts its "
    "cell cyclically. A failed construction leaves every other operator as it was.",
    ["inputs", "histories", "fault_sequences"],
    "all real couplings (also zero, constant, inhomogeneous, integer), chains of "
    "2-7 sites, grids in both orientations, single and double precision, real "
    "and complex; histories of construction, rolling, reuse, failure",
    "tests compare a few constant couplings or only a ground state energy",
    ["matrixproductstates/mpo.py"],
    [("chains", "matrixproductstates/mpo.py:FiniteXXZ"),
     ("fermions", "matrixproductstates/mpo.py:FiniteFreeFermion2D"),
     ("cells", "matrixproductstates/mpo.py:InfiniteMPO")],
    "a pool of operators against sums of Kronecker products (fermions with "
    "explicit sign strings and, independently, the spectrum from the hopping "
    "matrix); the k-th backend call of an operation fails",
    "seeded search over histories of a pool of operators, with injected "
    "allocation failures")

add("M03", "Operations on an infinite MPS keep the uniform state it denotes",
    "After any sequence of center shifts, canonicalizations and gates, also with "
    "failures (no memory, no convergence) in between, an infinite matrix product "
    "state denotes the uniform state those steps define. Canonicalization, also a "
    "repeated one, with initial guesses, or of a state with a larger bond "
    "dimension than it needs, gives a normalized state whose "
    "tensors are isometric and whose connector holds the inverse Schmidt values; "
    "transfer operators and their dominant eigenpairs are those of the whole "
    "cell. The dtype is kept and arrays the caller or another state holds are not "
    "altered.",
    ["histories", "inputs", "fault_sequences"],
    "all histories of operations on cells of 1-4 sites with well-conditioned fixed "
    "points, real and complex, with failing backend calls",
    "tests canonicalize a fresh random state once",
    ["matrixproductstates/infinite_mps.py", "matrixproductstates/base_mps.py"],
    [("canonical form", "matrixproductstates/infinite_mps.py:canonicalize"),
     ("transfer matrix",
      "matrixproductstates/infinite_mps.py:transfer_matrix_eigs")],
    "random operation histories with failing backend calls against dense transfer "
    "matrices",
    "seeded search; bond dimension at most 4 at the start; numpy backend")

add("Q01", "Operators given by networks compute like matrices",
    "Any history of products, tensor products, scalar multiples, adjoints, "
    "traces, partial traces, norms, projectors, reduced densities and "
    "contractions of operators, vectors and scalars given by tensor networks "
    "gives what the same steps give on matrices, with the right spaces, axis "
    "order and kind of result, whatever order nodes and edges are iterated in. "
    "Only an in-place contraction changes the network of its operand (keeping "
    "its value); all other operations leave their operands untouched, also when "
    "they are rejected or fail for lack of memory.",
    ["histories", "inputs", "schedules", "fault_sequences"],
    "all histories over networks with several nodes, traces, parallel edges, "
    "copy nodes, identities, disconnected scalars, ignored edges and legs of "
    "dimension one; all set iteration orders",
    "tests apply one operation to one-node operators; chains of identities and "
    "set orders are not sampled",
    ["quantum/quantum.py", "network_operations.py"],
    [("removal of identities", "quantum/quantum.py:eliminate_identities"),
     ("composition", "quantum/quantum.py:QuOperator.__matmul__"),
     ("in-place contraction", "quantum/quantum.py:QuOperator.contract")],
    "random operation histories under a seeded set-iteration order with failing "
    "backend calls against dense arrays",
    "seeded search; at most 7 operators of at most 14 nodes and 1024 elements; "
    "numpy backend; an operator whose in-place contraction failed is given up")
add("X01", "Every backend computes what numpy computes",
    "Any history of tensor creation, arithmetic, reshaping, contraction, "
    "decomposition and initialization on tensors of several backends side by "
    "side, and any history of network, operator or MPS operations on the "
    "tensorflow or the jax backend, gives the values, shapes, kinds of numbers "
    "and backends that numpy arrays give. Results belong to the backend of their "
    "operands or, without operands, to the given or default backend; operands of "
    "different backends are refused. No operation changes its operands or the "
    "arrays of the caller, also when it fails for lack of memory.",
    ["histories", "inputs", "configurations", "fault_sequences"],
    "all histories over pools of tensors of three backends, ranks 0-6, real and "
    "complex, rank-deficient and zero matrices; all failure points",
    "tests compare one function with the backend method of the same name for a "
    "few shapes; scalars, high ranks, complex phases, rank deficiency, default "
    "backends and chains of operations are not sampled",
    ["tensor.py", "linalg/operations.py", "linalg/linalg.py",
     "linalg/initialization.py", "linalg/node_linalg.py",
     "backends/tensorflow/tensorflow_backend.py",
     "backends/tensorflow/decompositions.py", "backends/jax/jax_backend.py",
     "backends/numpy/numpy_backend.py", "backends/numpy/decompositions.py"],
    [("operators of tensors", "tensor.py:Tensor"),
     ("functions of tensors", "linalg/operations.py"),
     ("tensorflow", "backends/tensorflow/tensorflow_backend.py"),
     ("jax", "backends/jax/jax_backend.py")],
    "random operation histories on real tensorflow, jax and numpy backends with "
    "failing backend calls against numpy arrays",
    "seeded search; 64 bit types; pools of 9 tensors of at most 400 elements; "
    "torch is not installed")
add("R01", "Random tensors follow their seed and the global generator",
    "A seed, 0 included, gives the same tensor whatever was drawn before, through "
    "backend, tensor or node functions, and different seeds give different "
    "tensors. Draws without a seed follow the global generator of the backend: "
    "they repeat when it is set again and otherwise differ from each other. "
    "Values have the requested type, shape, interval and distribution, and "
    "operations that are not random leave the global generators alone.",
    ["histories", "inputs", "fault_sequences"],
    "all histories of seeded and unseeded draws on four backends, draws by the "
    "user, re-seeding, other library calls and failing random primitives",
    "tests draw twice with one seed in one fixed order and never use 0",
    ["backends/numpy/numpy_backend.py", "backends/jax/jax_backend.py",
     "backends/tensorflow/tensorflow_backend.py",
     "backends/symmetric/symmetric_backend.py", "block_sparse/utils.py",
     "block_sparse/blocksparsetensor.py", "linalg/initialization.py",
     "linalg/node_linalg.py", "matrixproductstates/finite_mps.py"],
    [("normal draws", "backends/numpy/numpy_backend.py:NumPyBackend.randn"),
     ("uniform draws",
      "backends/tensorflow/tensorflow_backend.py:TensorFlowBackend.random_uniform"),
     ("block-sparse draws", "block_sparse/utils.py:_random")],
    "random histories of draws under controlled global seeds with failing random "
    "primitives against a memory of what every seed gave",
    "seeded search; one thread; numpy, tensorflow, jax and symmetric backends")
add("L01", "Keras layers compute, train and restore the contraction they show",
    "Every layer returns, for each input vector separately, whatever the batch and "
    "in eager or compiled execution, the documented contraction of its weights with "
    "that vector, plus bias, through its activation, with the gradients of that "
    "function. Layers rebuilt from their configuration and weights after a restart "
    "go on computing and training exactly as the originals. A call that fails or is "
    "refused leaves the weights unchanged and the layer usable.",
    ["inputs", "histories", "configurations", "crash_points", "fault_sequences"],
    "all histories of calls, compiled calls, training steps, checkpoints, crashes "
    "and failing backend calls of stacks of the six layers with all admissible "
    "dimensions, numbers of nodes and options",
    "tests check shapes and that a loss falls for a few sizes; values and "
    "gradients are not compared, and dimensions whose floating-point root is not "
    "exact do not occur",
    ["tn_keras/dense.py", "tn_keras/mpo.py", "tn_keras/entangler.py",
     "tn_keras/condenser.py", "tn_keras/expander.py", "tn_keras/conv2d_mpo.py"],
    [("layer", "tn_keras/mpo.py:DenseMPO"),
     ("layer", "tn_keras/entangler.py:DenseEntangler"),
     ("layer", "tn_keras/condenser.py:DenseCondenser"),
     ("layer", "tn_keras/expander.py:DenseExpander"),
     ("layer", "tn_keras/dense.py:DenseDecomp"),
     ("convolution", "tn_keras/conv2d_mpo.py:Conv2DMPO")],
    "random histories of calls, training steps, checkpoints and crashes with "
    "failing backend calls against functions written with einsum",
    "seeded search; stacks of at most 3 layers; inputs of at most 128 components "
    "(one case of 3125); channels-last convolutions on the CPU")
