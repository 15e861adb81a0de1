# pylint: disable=all
# One section per property for DESIGN.md: (spec+exploration, oracle, bounds/cost)
D = {}
D["G01"] = """A plan is a list of 8-40 operations (connect, disconnect, `@`, contract, contract_between, contract_parallel, outer_product, flatten, split_edge, split_node (full rank, qr, rq, svd), slice, reorder edges/axes, replicate, replace, remove, copy, draw with graphviz (on a recording canvas), conjugate/transpose/kron/norm of nodes, set names, copy nodes, get_all_nodes/edges ...), a data seed and a hash seed.  Each operation picks its operands from the live network by its own seed, so dropping one during shrinking does not shift the others.
* Oracle: `sim/netsim.py` keeps, per node, a labelled numpy array of its own; after every operation the network is walked through `Node.edges` / `Edge.node1/axis1...` (both directions must agree: dimensions, axis names, dangling flags, `is_trace`), and regularly everything is contracted with `numpy.einsum` on both sides and compared.
* Bounds: 9 nodes, rank 12, dimensions 1-3, numpy backend.  About 4 000 histories in a quick run."""
D["G02"] = """Random networks (traces, parallel edges, copy nodes, scalars, several components) are contracted by every contractor (greedy, optimal, branch, auto with every memory limit regime, custom, `contract_path` with a random path, `bucket`), given as list, set, tuple, dict view or iterator, with or without `output_edge_order` / `ignore_edge_order` and memory limits (a limit that cannot be kept is refused before anything is contracted), possibly as a part of a larger network; also with a failing backend call.
* Oracle: the same model; axes must come in the requested order; the caller's container and path list must be unchanged; nodes outside keep their wiring to the result.
* Bounds: as G01."""
D["G03"] = """A history of 3-12 ncon calls, with random networks (traces, outer products, batch labels, disconnected parts, scalars), number and string labels, given or default contraction order, `out_order`, tensors as arrays or as nodes or as `Tensor`, lists or tuples; some calls are ill-formed in a chosen way; in `alloc-faults` the k-th backend call fails; in `jit` the jax backend with the cache of compiled functions is used so that one call can poison a later one.
* Oracle: `numpy.einsum`; ill-formed calls must raise; arguments are compared with copies.
* Bounds: 5 tensors, rank 6."""
D["G04"] = """The same histories as G01 with a fault plan per operation: the k-th call of a backend primitive raises `MemoryError` or `LinAlgError` (k chosen by seed, the whole range is reached because operations make few calls), or the arguments are invalid.
* Oracle: after the failure the network is re-read *from the edges and nodes the user holds*: it must be well-formed and denote the tensor of before the operation; then the operation is retried or the history goes on, against the same model.
* Bounds: as G01; failures occur at backend calls (not between arbitrary bytecodes)."""
D["S01"] = """Histories with `save_nodes` to a simulated file, restart (only the bytes of the file survive), `load_nodes`, continuing on the loaded network; earlier files are loaded again later; subsets that are complete networks are saved.
* Oracle: the reference model of G01, continued on the loaded nodes; names, axis names, dtypes, order of nodes; the saved network is compared before and after.
* Bounds: up to 14 nodes in a file.  libhdf5 is real; the disk below it is simulated."""
D["S02"] = """As S01 with the n-th write of a save failing (EIO, ENOSPC, short), allocation failures, crashes that keep a prefix of the writes with a torn last one (cut at a random byte).
* Oracle: the error reaches the caller, the memory is unchanged, and the file either loads as exactly what was saved or `load_nodes` raises.
* Bounds: writes persist in program order."""
D["S03"] = """Histories with `nodes_to_json` of random subsets with random edge bindings, `nodes_from_json`, copy nodes, allocation failures, truncated text.
* Oracle: the model restricted to the subset; cut bonds are dangling; bindings point to the matching edges."""
D["B01"] = """Histories of 8-40 operations on block-sparse tensors: creation (random, zeros, ones, from dense), reshape/fuse, transpose, conj, arithmetic, `tensordot`, `outer`, trace, svd with all truncation parameters, qr, rq, eigh, inv, pinv (also of matrices whose blocks differ by orders of magnitude), diag, diagflat, sqrt, sign, norm, tensors made after the pattern of others, axes counted from the end, tensors of up to 120000 dense elements ... over 8 symmetries (U1, Z2, Z3, Z5, ZN, products), through functions and through the symmetric backend; in `alloc-faults` the k-th numpy call made by library code fails.
* Oracle: dense numpy arrays plus a decoder of the stored data that follows the definition (charge of each element from leg charges and flows; not the library's search).  Operands are compared before and after.  Refusals are required for non-matching legs, also for equal numbers in different groups, and for repeated axes and numbers that do not fit the charges.
* Bounds: 3000 dense elements (120000 for one kind of operation), non-empty legs; charges of 16, 32 or 64 bits, one integer type within a tensor."""
D["B02"] = """B01 histories with the cache switched on, off and cleared at seeded points, many repetitions of the same operation with tensors of different symmetries that share charge values, and failures (numpy calls, or at a line of the cached search) while an entry is computed.
* Oracle: as B01: the result may not depend on the cache."""
D["M01"] = """Histories of 6-30 operations on `FiniteMPS` (dense and U(1)), with shared arrays between several states and open boundary bonds: construct, random, position (normalize or not, truncation), canonicalize, one- and two-site gates (unitary, hermitian, non-unitary; truncation; moving the center left or right), measurements (local operators, two-body correlators, left/right envs), check_canonical/orthonormality, save.
* Oracle: the dense state vector; after a truncation the new vector must be the projection onto dominant Schmidt vectors (checked by its Schmidt values and overlap with what was discarded), then becomes the reference; reported center must be true; caller's arrays are compared with copies.
* Bounds: 6 sites, bond 5."""
D["M02"] = """M01 histories where the k-th backend call inside an operation fails.
* Oracle: the error reaches the caller; the state multiplies out to one of the states the sweep passes through (all gauge equivalent up to requested normalisation); reported center is true; retry succeeds and the history goes on."""
D["K01"] = """Histories of 3-10 solver calls (`eigsh_lanczos`, `eigs`, `gmres`, with backend classes and with `tn.linalg.krylov`), dense and block-sparse, real/complex, operators that return a fresh array, their argument, a view, a reused buffer or a kept tensor, and that raise at the k-th application; start vectors given or drawn by the solver; failing allocations; block cache on or off.
* Oracle: dense matrices: residuals, Ritz values against the projected matrix of an independently built Krylov space (numpy), layouts; a Lanczos run that stops early must have met its stated criterion (the asked values changed by less than `tol` within `ndiag` steps); right-hand sides and guesses span seven orders of magnitude, so relative and absolute tolerances are told apart; unmodified start vectors/right-hand sides/arguments/results, cache switch restored, repeat succeeds.
* Bounds: 30 unknowns."""
D["C01"] = """Random programs of nested with-blocks (`DefaultBackend`, `NodeCollection` with set or list, the same object re-entered), raises through several blocks, invalid backends, failing constructions - in one to three simulated threads, or asyncio-like tasks with their own contexts, interleaved by a seeded schedule.
* Oracle: one stack per thread/task; after each construction: which backend the node has and which collections it joined.
* Bounds: 3 threads; switches at line boundaries."""
D["T01"] = """Two or three threads run a G01, B01 or M01 style program of their own under a seeded schedule ([gap, choice] list over line events of library code), one of them toggling the block cache or inside a backend block.  Two configurations contend for one global: *cache* (contractions while the block cache is switched and cleared, switches at lines of the cache and of the block search, or at the single reads and writes of the cache object's attributes) and *scopes* (backend and collection blocks, switches at lines of their implementation).
* Oracle: each program's own reference model; no exception; no deadlock (the scheduler knows all lock holders; bounded number of steps)."""
D["T02"] = """Threads apply operations to *shared* symmetric tensors/indices/charges whose lazily switched representation is in any of its states at the start.  Two more configurations contend for one place: *layout* (sums of tensors with different storage orders, switches at lines of the tensor class) and *charge* (charges nobody has looked at yet, some shared by several tensors, switches at lines of the charge class, often the same program in every thread).
* Oracle: dense arrays per thread; shared tensors keep value and legs; no exception; no deadlock."""
D["D01"] = """Histories of 3-8 operations on a `FiniteDMRG`: `run_one_site`, `run_two_site` (bond limits, sweeps, Krylov parameters, verbosity), `position`, `compute_energy`, gates and shifts applied to the MPS behind its back, a new simulation on the same MPS, another Hamiltonian, misuse.  `sweeps`: copies of the state are run for 1, 2, ... sweeps without a precision; the run with a precision must return the energy of the first sweep that changed it by less (or of the last).  Hamiltonians: random hermitian nearest-neighbour MPOs (complex, to show transpositions), XXZ, TFI; charge-conserving ones on the symmetric backend in a random charge sector.
* Oracle: the dense Hamiltonian multiplied out of the MPO; the dense state; environments recomputed with einsum; `energy(before) >= energy(after) = reported >= lowest eigenvalue`.
* Bounds: 6 sites, d = 2, 3.  Convergence to the ground state is counted (about 99.5 % of the runs in which the central two-site problem spans the whole space) but not claimed: a local optimiser may stop in a local minimum.
* Lanczos runs without reorthogonalisation: with `delta` much below the default 1e-6 the returned vector may contain a ghost; such parameters are excluded."""
D["D02"] = """D01 histories in which 60 % of the operations have a fault point: the k-th backend call (also inside the eigensolver) raises `MemoryError` or `LinAlgError`.
* Oracle: after the failure: canonical around the reported center, energy not above the one before (no truncation), same ray for shifts and energies, environments that are reported are right; retry / history goes on under D01's checks."""
D["D03"] = """A run keeps up to six operators: XXZ and TFI chains (2-7 sites; random, constant, sparse and integer couplings; `float32`, `float64`, `complex128`), free fermions on grids up to 8 sites in both orientations, chains rebuilt from the tensors of others, and infinite cells.
Operations: build, roll a cell, overwrite the arrays the couplings came in, measure the energy of a random MPS through DMRG environments (at a random center), drop, and constructions that must be refused; 20 % have a fault point in the backend.
* Oracle: sums of Kronecker products written from the definition (Jordan-Wigner strings explicit); the spectrum of the fermion operator is also checked against all sums of eigenvalues of the hopping matrix.
* All operators of the pool are re-read after every operation (bitwise, and densely when a bit changed).  Numpy and tensorflow backends.
"""

D["M03"] = """Histories of 4-17 operations on `InfiniteMPS`: position with and without normalisation, canonicalize (initial guesses, truncation, repeated), one- and two-site gates inside the cell, transfer operators, dominant eigenpairs, states sharing arrays, connector matrices, center forgotten; one configuration with failing backend calls.
* Oracle: the cell tensor; two states are the same if the dominant eigenvalue of the mixed transfer matrix is 1 per cell and the reduced density matrices of a cell agree; Schmidt values from the fixed points; isometry of every tensor.
* Bounds: cells of 1-4 sites, bond <= 4, fixed points with a gap (|lambda2/lambda1| < 0.9) and full rank, or such states embedded in a larger bond so that one or both fixed points lose rank (`padded`, canonicalized with a cutoff for the eigenvalues that are zero)."""
D["Q01"] = """Histories of 6-25 operations on up to seven `QuOperator`/`QuVector`/`QuAdjointVector`/`QuScalar`: from_tensor with permuted axes, several-node networks (traces, parallel edges, disconnected parts, ignored edges), copy nodes, identities; `@`, `*` (scalars, numbers, arrays, nodes, from the left), tensor_product, adjoint, trace, partial_trace, norm, projector, reduced_density, contract and eval with several contractors and explicit edge orders, rejected calls; one configuration with failing backend calls; seeded set order.
* Oracle: numpy arrays; the value of every result is recomputed from its network with einsum, the networks of all other operators must be identical (nodes, edges, tensors) after every step.
* `norm()` is documented as the 2-norm but returns its square, as the repository's tests require; the model does the same.
* An in-place contraction that fails half-way leaves a spoiled operator (it consumes its network); only the other operators are checked then.
* Bounds: 14 nodes, 1024 elements."""
D["X01"] = """Histories in four kinds.  *tensors*: 8-30 operations on a pool of `tn.Tensor` of the numpy, tensorflow and jax backends side by side: construction (explicit, default or object backend), all unary and binary functions of `tn.linalg` and `Tensor`, `ncon`, the `NconBuilder` spelling, svd (all truncation options), qr/rq (with `non_negative_diagonal`), eigh, inv, expm, norm, initializers (tensor and node flavours, given or default backend), mixing of backends (must raise), functions compiled with `jit` (backend by name, object, default or argument), and the functions of the backend objects called directly (`sum`, shapes, concatenation, broadcast multiplication, power, item, batched `matmul`, `einsum` of several operands, masks, serialization).  *graph*, *operators*, *mps*: the histories of G01/G02, Q01 and M01 on tensorflow or jax.  Fault configurations: the k-th backend call raises `MemoryError`.
* Oracle: numpy on the same values; decompositions by their defining equations; operands and the caller's arrays compared bit by bit after every step.
* tensorflow: operands of one operation have one dtype (it does not promote), slices of scalars and of more than 8 axes excluded (not implemented in tensorflow).  jax: fault points only outside `jit` (a jitted ncon calls the backend only while it is traced).
* Iterative eigensolvers and `index_update` of jax do not run with the installed jax (both environments), tensorflow has none; torch is not installed."""
D["R01"] = """Histories of 6-24 steps: draws (normal, uniform with intervals) through `backend.randn/random_uniform`, `tn.randn/random_uniform`, the node initializers, `BlockSparseTensor`/`ChargeArray` class methods and functions, with and without seeds (0, small, 2^31-1), default or explicit backend; episodes (the global seeds are set, then a fixed list of draws follows, mixed with non-random library calls); `FiniteMPS.random`; draws by the user; samples of 1600 numbers.  One configuration lets the k-th call of a random primitive of numpy, tensorflow or jax raise `MemoryError`.
* Oracle: a dictionary (backend, kind, shape, dtype, interval, seed) -> values; abstract tokens for the state of the global generators (equal tokens and equal draws -> equal values; draws of one stretch differ); mean, deviation and distinctness of samples; the state of the generators of numpy and Python around non-random operations.
* A seeded draw on the numpy, symmetric and tensorflow backends sets the global generator (how the repository implements seeds); the model allows for it either way.  With threads a seed is therefore not reliable on these backends; the property is claimed for one thread."""
D["G05"] = """Histories of 8-23 steps on a changing network (tensors and bonds appear, are resized, merged, cut, traced), asking in between `ncon_solver` with every search limit, `ncon_cost_check` with random orders, `contractors.optimal`, `path_solver`; in *alloc-faults* the k-th numpy call inside the library fails and the call is repeated.
* Oracle: a meter on the numpy backend records every pairwise product of the real `ncon` / contractor executing the returned order (its sum must be the reported cost); dynamic programming over subsets of tensors gives the least cost over all trees of connected contractions; `numpy.einsum` gives the value.
* Cost claims are made for connected networks only: for disconnected ones `ncon` multiplies the parts together in an order of its own (last two first), which the solver and checker do not model; there only the validity of the order and the value are checked.
* `full_solve_complete(cost_bound=...)` ignores its bound; it is reachable only below the public interface and is left alone."""
D["B03"] = """The operations of G01/G02 (connect, disconnect, contractions of every kind, flatten, split, trace, copies, conjugates, products with scalars, split_node with every decomposition, all contractors, ncon) on nodes of the symmetric backend over 8 symmetry groups, joined along matching legs; queries of transposed and fused nodes; attempts to contract legs that do not match; one configuration with failing backend calls (k-th call raises).
* Oracle: the dense model of `sim/netsim.py`; each tensor is read by definition from its stored blocks, charges, flows and order (`blocks.read`); the charges of every edge follow the history (fused charges of flattened edges, kept charges of split ones).
* Bounds: 9 nodes, legs of at most 18 positions, 2000 elements."""
D["B04"] = """Histories of 8-40 operations on up to eight charges and five indexes: construction (values, values with labels, random, several symmetries with `@`), fusion, conjugation, slicing (integers, lists, negative, masks, empty), `unique` and `intersect` with all combinations of results, `reduce` (absent and repeated targets, locations, strides), comparisons, identity charges, copies (one of which is scribbled over), iteration, `charge_equal` between charges made by different routes, reordered, of other groups with the same numbers or with one symmetry more, indexes made, fused, flipped, copied, compared; rejected calls.  Charges have one to five symmetries of U(1), Z2, ZN and 16-, 32- or 64-bit integers; operands are forced into the other internal representation at random.  `wide` fuses charges to 35000-45000 different values.  One configuration lets the k-th numpy call of library code fail.
* Oracle: lists of tuples of Python integers; every charge and index of the pool is re-read after every operation (reading does not switch the representation).
* Tensors with more than 32767 blocks do not fit the memory here; B01 covers 32- and 64-bit charges in tensors.  Mixing integer types between the legs of one tensor is refused by the library (sometimes only with an IndexError) and not covered."""
D["L01"] = """Histories of 4-10 steps on stacks of 1-3 layers (`DenseDecomp`, `DenseMPO`, `DenseEntangler`, `DenseCondenser`, `DenseExpander`, `Conv2DMPO`; random admissible dimensions, bond dimensions, bias, activation, regularizers, strides, dilation, padding, channels first or last): call on batches of any leading shape, sample by sample and permuted, inside `tf.function` with unknown batch size, training steps (eager or compiled), checkpoint (configuration as JSON text, weights as arrays), crash (only the checkpoint survives; layers are deserialized, built by a call or from the shape), refused inputs; *faults*: the k-th backend call raises.
* Oracle: einsum formulas written from the documented pictures, applied to the reference copy of the weights, which makes its own training steps; gradients by autodiff of these formulas.
* Set iteration order and object hashes are seeded.  About one history per second and process (tracing in TensorFlow), so a quick run has about 400."""
