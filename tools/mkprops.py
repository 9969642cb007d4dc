"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json
import os

CORE = ["cqcpy/cc_energy.py", "cqcpy/cc_equations.py", "cqcpy/ci_utils.py", "cqcpy/ft_utils.py",
        "cqcpy/integrals.py", "cqcpy/ov_blocks.py", "cqcpy/spin_utils.py", "cqcpy/utils.py"]
P = []


def add(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe or [], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


add("C01", "Concurrent calls behave as if each ran alone",
    "Any number of threads may call the library's functions at the same time, on the same or on different "
    "tensors, determinant lists, orbital sets and mean-field objects. Whatever the interleaving, every call "
    "finishes and returns the value it returns when it is the only call in a fresh process on the same arguments.",
    ["schedules", "inputs"],
    "All interleavings of 2 to 4 caller threads (line and bytecode granularity) over every public function and "
    "pairs of functions, sharing or not sharing inputs, for small dimensions, real and complex data.",
    "The suite is single threaded and calls each function once per test, so it visits exactly one schedule.",
    CORE,
    [("every amplitude, Lambda and density routine accumulates into arrays it allocated itself", "cqcpy/cc_equations.py"),
     ("no module-level mutable state in any module", "cqcpy/*.py"),
     ("excitations work on a copy of the occupation array", "cqcpy/ci_utils.py:Dstring.excite")],
    observe=["return values of concurrently running calls", "termination of every call"])

add("C02", "Arguments are never modified, not even temporarily",
    "From the moment a call starts until it returns or raises, every array, block container, list, determinant "
    "string and mean-field object passed as an argument keeps exactly the contents and attributes the caller gave it. "
    "A second thread reading the inputs at any instant therefore never sees a change, and read-only arrays are accepted "
    "wherever writable ones are.",
    ["schedules", "inputs", "crash_points"],
    "Every observation instant (each executed line, and bytecode boundaries) of every public function, on calls that complete and on "
    "calls cut short at an arbitrary instant; contiguous, strided, overlapping and read-only argument layouts.",
    "No test looks at the arguments after a call, let alone during one or after a call that raised.",
    CORE,
    [("copies are taken before in-place accumulation", "cqcpy/cc_equations.py (F.vo.copy(), I.vvoo.copy(), astype)"),
     ("energies and spin transforms only read their inputs", "cqcpy/cc_energy.py, cqcpy/spin_utils.py"),
     ("determinant excitation copies the occupation array", "cqcpy/ci_utils.py:Dstring.excite, Pstring.raize, Pstring.lower")],
    observe=["argument buffers at each simulated instant"])

add("C03", "A failure during a call is never turned into an answer",
    "If memory runs out, the caller interrupts, a floating-point trap fires or an I/O error occurs at any instant of a call, "
    "that call either raises an exception or still returns its complete, correct value. It never returns a "
    "partial, stale, zero-filled or missing result.",
    ["fault_sequences", "crash_points", "inputs"],
    "Every executed line and every tensor-primitive or integral-backend call of every public function as the failure point; fault kinds MemoryError, "
    "KeyboardInterrupt, FloatingPointError, OSError; one or several faults per history.",
    "No existing test makes anything fail; the error paths (including the handlers in the determinant code) are never taken.",
    CORE,
    [("errors propagate: the only handlers are the determinant lookups and the optional-dependency import", "cqcpy/ci_utils.py:*_on_vec, cqcpy/cc_energy.py, cqcpy/cc_equations.py")],
    observe=["outcome (exception or value) of the faulted call"])

add("C04", "An aborted call leaves no trace",
    "After a call has been cut short by a failure or interrupt at any instant, its arguments are as they were before, and every other call, "
    "whether already running in another thread or made later, including an immediate retry of the same call, returns what it would "
    "return had the aborted call never been made.",
    ["fault_sequences", "crash_points", "histories", "schedules"],
    "Every failure instant of every public function, followed by any sequence of retries and other calls on the same arguments, with or without "
    "concurrent calls in flight.",
    "No test aborts a call and then calls again.",
    CORE,
    [("no state survives a call: results are built in local arrays and returned", "cqcpy/*.py"),
     ("no lock, cache or in-progress marker is held across statements", "cqcpy/*.py")],
    observe=["arguments after the abort", "results of later and concurrent calls"])

add("C05", "Results depend only on the current contents of the arguments",
    "For every history of earlier calls to any functions with any argument shapes and values, and however the caller overwrites, frees, "
    "re-creates or re-uses its own arrays and objects between calls, a call returns what a fresh process returns for the same argument contents.",
    ["histories", "inputs"],
    "All call sequences (length up to about 12) over the public functions with in-place overwrites of tensors, object re-creation at recycled "
    "addresses and same-shape inputs that differ in a single tensor.",
    "Each test makes its inputs once, calls once and never changes an input between two calls, so a result remembered from an earlier call cannot show.",
    CORE,
    [("functions recompute everything from their arguments on every call", "cqcpy/*.py"),
     ("default arguments are immutable or None", "cqcpy/ci_utils.py (occ=None), cqcpy/cc_equations.py (tfac=1.0)"),
     ("Lambda intermediates live in an object owned by the caller", "cqcpy/cc_equations.py:lambda_int")],
    observe=["return values after a history"])

add("C06", "Returned results belong to the caller",
    "Amplitudes, Lambda amplitudes, density matrices, energy denominators, Fermi occupations, integral tensors, spin-orbital expansions, amplitude spin "
    "conversions, determinant strings and lists, and CI vectors or coefficients are new values: "
    "once returned, no later or concurrent call changes them. Overwriting a returned array changes no argument, no result of another call and no other array "
    "returned by the same call. (Splitting a tensor that is already in the caller's hands into occupied/virtual or spatial blocks may return windows on that tensor.)",
    ["histories", "schedules", "inputs"],
    "All call sequences with the caller scribbling over any subset of earlier results between or during later calls.",
    "Tests compare results immediately and throw them away; none modifies a result or looks at an old result after another call.",
    CORE,
    [("results are built in freshly allocated arrays", "cqcpy/cc_equations.py, cqcpy/spin_utils.py, cqcpy/integrals.py"),
     ("explicit .copy() before returning a block", "cqcpy/spin_utils.py:T1_to_spatial, T2_to_spatial")],
    observe=["earlier results, arguments and later results after scribbling"])

add("C07", "Killed and resumed solver iterations follow the same trajectory",
    "A coupled-cluster amplitude or Lambda iteration, or a CI matrix-vector iteration, that is killed at any instants and each time resumed in a new process from its last saved "
    "inputs and amplitudes goes through exactly the sequence of amplitudes, vectors and energies of a run that was never interrupted.",
    ["crash_points", "histories", "fault_sequences"],
    "All positions of up to five kills (any executed line of any iteration, also during saving), all save intervals, all solver flavours: spin-orbital, "
    "unrestricted and restricted coupled cluster, linearised and partial variants, Lambda, and CI.",
    "Tests evaluate a single update with fixed amplitudes; none iterates, saves, kills or resumes.",
    ["cqcpy/cc_equations.py", "cqcpy/cc_energy.py", "cqcpy/utils.py", "cqcpy/ov_blocks.py", "cqcpy/ci_utils.py"],
    [("an update is a function of integrals and current amplitudes only", "cqcpy/cc_equations.py"),
     ("block containers and determinant strings are plain picklable values", "cqcpy/ov_blocks.py, cqcpy/ci_utils.py:Dstring")],
    observe=["sequence of amplitudes and energies seen by the driver"])

add("C08", "Integral assembly is faithful and all-or-nothing under backend failures",
    "Electron-repulsion tensors and block containers built for molecular, Gamma-point and k-point mean fields equal the documented ordering and antisymmetrisation of "
    "the transformed backend integrals for exactly the orbitals given, with zero blocks where crystal momentum is not conserved. If any backend transformation "
    "fails, the request raises and yields nothing; a repeated or concurrent request that meets no failure returns complete, correct tensors.",
    ["fault_sequences", "schedules", "histories", "inputs", "configurations"],
    "Every backend call of every integral function as failure point (I/O error, out of space, out of memory, interrupt), restricted and unrestricted references, "
    "different numbers of orbitals per slot and spin, block-selection options, arbitrary request orders and interleavings.",
    "Tests call a handful of the routines once on converged closed systems with a working backend and mostly compare one routine with another.",
    ["cqcpy/integrals.py"],
    [("blocks are assigned one after another from separate backend transformations", "cqcpy/integrals.py:get_chemu, eri_blocks"),
     ("chemist to physicist transposition and exchange term", "cqcpy/integrals.py:get_chem, get_phys, *_sol, *_solk"),
     ("momentum conservation table", "cqcpy/integrals.py:get_chem_solk")],
    observe=["returned tensors and containers", "exceptions"])

add("C09", "Random tensors have their advertised symmetry for every random outcome",
    "Whatever numbers the random source delivers, including ties, zeros and extreme values, and whatever other threads do meanwhile, the generated Fock matrices are symmetric, "
    "antisymmetrised integrals, amplitudes and Lambdas are antisymmetric within each same-spin index pair, plain integral tensors keep their particle-exchange symmetry, denominators "
    "follow from one set of orbital energies, and every block has the requested shape. Blocks of one tensor that are related by symmetry agree with each other.",
    ["inputs", "schedules", "fault_sequences"],
    "All outcomes of the random source (including adversarial streams), all dimensions up to 4 with unequal spins, generators running concurrently or retried after an abort.",
    "Tests look at a few generators under one seed with generic draws, single threaded.",
    ["cqcpy/test_utils.py", "cqcpy/utils.py", "cqcpy/ov_blocks.py"],
    [("explicit (anti)symmetrisation after drawing", "cqcpy/test_utils.py"),
     ("blocks cut from one tensor or transposed from a partner block", "cqcpy/test_utils.py:make_random_Ifull")],
    observe=["generated tensors"])

add("C10", "Random tensors are reproducible and nothing else touches the random stream",
    "Seeding numpy's global random stream and repeating the same generator calls gives bit-for-bit the same tensors, whatever other library calls, finished or aborted, happen before or in "
    "between. Every generator call without reseeding consumes fresh draws, so it continues the stream. No other library call reads, advances, reseeds or replaces any global random state or "
    "draws entropy from the operating system.",
    ["histories", "fault_sequences", "schedules"],
    "All sequences of generator calls, reseedings, other library calls and aborted calls; entropy sources and clock under the simulator's control.",
    "Tests never compare two generator calls and never look at the random state.",
    ["cqcpy/test_utils.py"] + CORE,
    [("generators draw only from numpy.random.random", "cqcpy/test_utils.py"),
     ("no other module imports a random source", "cqcpy/*.py")],
    observe=["generated tensors", "numpy and stdlib random state", "operating-system entropy requests"])

add("C11", "Without its optional backend the library imports and gives the same numbers",
    "When pyscf is missing at start-up, everything except the integral functions imports, and every call returns the same value (to rounding) as with pyscf present. "
    "Importing the integral functions then raises an import error, and a later process in which pyscf is back works in full.",
    ["configurations", "fault_sequences", "inputs", "histories"],
    "All sequences of process starts with the backend present, absent or partly importable, with calls to every function not about integrals in between, for every argument bundle.",
    "The suite runs with pyscf installed, so the fallback path is never executed.",
    ["cqcpy/cc_energy.py", "cqcpy/cc_equations.py", "cqcpy/integrals.py", "cqcpy/__init__.py"],
    [("optional import with fallback to numpy", "cqcpy/cc_energy.py, cqcpy/cc_equations.py"),
     ("contraction strings acceptable to both einsum implementations", "cqcpy/cc_equations.py")],
    observe=["import outcome", "return values in both configurations"])

add("C12", "Process-wide state is neither changed nor consulted",
    "No import or call, completed or aborted, changes process-wide state: numpy error and print settings, warning filters, environment, working directory, signal handlers, recursion limit, "
    "standard streams, files, running threads or the contents of other modules. Results do not depend on the clock, hash seed, environment variables, working directory, calling thread, "
    "or numpy's print and non-raising error settings.",
    ["configurations", "fault_sequences", "histories"],
    "All calls of all public functions under simulated clocks, environments, directories, hash seeds and error settings, with aborts at arbitrary instants.",
    "Tests run in one environment with one clock and hash seed and never compare process state before and after.",
    CORE + ["cqcpy/test_utils.py", "cqcpy/__init__.py"],
    [("modules import only numpy and pyscf and set nothing", "cqcpy/*.py")],
    observe=["process-wide settings before/after", "return values across environments"])

add("C13", "Work handed to other processes gives the same results as one process",
    "A call may be carried out in another process, on arguments that were pickled, copied or deep-copied on the way and with the result sent back in the same manner; "
    "the caller then holds the value a local call gives, also for calculations divided into independent parts (energy lists, orbital sets, momentum triples, CI vectors), "
    "however the parts are ordered, repeated, lost and sent again, or cut short by the death of a worker. "
    "Block containers, Lambda intermediates and determinant strings that made the trip have the same contents, and pickled or deep copies share no memory with the originals. "
    "Determinant strings compare equal across processes if and only if their occupations are equal.",
    ["histories", "fault_sequences", "schedules"],
    "All public functions, all ways of sending arguments, all orders, losses and repetitions of messages, all points at which a worker may die.",
    "Tests run every call in the process that made its arguments; nothing is pickled, copied, divided or sent twice, and no worker dies.",
    CORE,
    [("containers and strings are plain objects that pickle by attribute", "cqcpy/ov_blocks.py, cqcpy/ci_utils.py:Dstring"),
     ("results depend on arguments only, so any process can compute any part", "cqcpy/*.py")],
    observe=["results of shipped calls", "contents of shipped containers", "string equality"])
add("C14", "Finished calls keep nothing alive",
    "Once a call has returned or raised, the library keeps no reference to its arguments, and none to its result: when the caller lets go of them their memory is released, "
    "at the latest by the next garbage collection, after completed, aborted and concurrent calls alike. "
    "The memory held by the library itself does not grow without limit with the number of calls made.",
    ["histories", "fault_sequences", "schedules"],
    "All public functions, all sequences of completed and aborted calls, all thread schedules.",
    "Tests make a few calls on small arrays and never look at what is still alive afterwards; nothing is aborted.",
    CORE,
    [("no module keeps arguments or results", "cqcpy/*.py")],
    observe=["weak references to arguments and results after release", "objects reachable from the library modules"])

add("C15", "Calls may be made inside a call in the same thread",
    "At any instant of a call, code that interrupts it in the same thread (a signal handler or a finaliser) may make library calls of its own, on the same or on other arguments "
    "and nested to any depth. "
    "All of these calls and the interrupted call finish, and each returns the value it returns when it is the only call in a fresh process. "
    "If the interrupting code raises after its calls, the interrupted call raises or returns its correct value, and calling it again gives the correct value.",
    ["schedules", "histories", "fault_sequences"],
    "All public functions, all instants of interruption, all trees of inner calls, with and without an exception at the end.",
    "Tests make one call after the other; none is made while another one of the same thread is unfinished.",
    CORE,
    [("all intermediate values live in local variables, also per thread", "cqcpy/*.py"), ("no locks, flags or thread-local stores", "cqcpy/*.py")],
    observe=["return values of inner and interrupted calls", "progress"])
add("C16", "Forked child processes work and do not disturb their parent",
    "A process may fork between calls of one thread, also while other threads are in the middle of calls. "
    "In the child every call finishes and returns what it returns in a fresh process. "
    "The calls in progress in the parent and all its later calls are not affected by anything the child does, before, during or after them, also if the child dies in the middle of a call.",
    ["schedules", "crash_points", "histories"],
    "All public functions in parent and child, all instants of the fork relative to calls in other threads, all orders of parent and child, all points at which the child dies.",
    "Tests never fork, and a fork with calls in progress needs a particular schedule.",
    CORE,
    [("no locks, shared memory or per-process tables", "cqcpy/*.py")],
    observe=["return values in parent and child", "progress"])

PURE = "A statement about the value of a pure function of its arguments; the suite samples a few random inputs per routine."


def na(id, title, statement, text, files, mech, why=PURE):
    add(id, title, statement, ["inputs"], text, why, files, mech)


na("N01", "All coupled-cluster formulations give the same residuals",
   "For the same integrals and amplitudes, the straightforward and factorised spin-orbital equations agree, and the unrestricted and restricted equations agree with the spin-orbital ones after spin expansion.",
   "All integrals and amplitudes with the required symmetry, all occupied/virtual dimensions.",
   ["cqcpy/cc_equations.py", "cqcpy/spin_utils.py"], [("independent transcriptions of the same equations", "cqcpy/cc_equations.py")])
na("N02", "Lambda residuals are derivatives of the coupled-cluster Lagrangian",
   "The Lambda equations equal the derivative of the coupled-cluster Lagrangian with respect to the amplitudes, and all Lambda formulations agree with each other.",
   "All integrals, amplitudes and Lambdas with the required symmetry.",
   ["cqcpy/cc_equations.py"], [("three transcriptions plus precomputed intermediates", "cqcpy/cc_equations.py:ccsd_lambda_*")])
na("N03", "Reduced density matrices give expectation values",
   "Contracting the one- and two-particle density matrices with the Hamiltonian gives the coupled-cluster Lagrangian, and all formulations of the densities agree.",
   "All amplitudes and Lambdas with the required symmetry.",
   ["cqcpy/cc_equations.py"], [("density formulas", "cqcpy/cc_equations.py:ccsd_*rdm_*")])
na("N04", "Determinant matrix elements obey the Slater-Condon rules",
   "The Hamiltonian matrix element between two determinants equals the Slater-Condon value, is Hermitian, and the matrix-vector products equal the explicit matrix times the vector.",
   "All pairs of determinants and all integrals.",
   ["cqcpy/ci_utils.py"], [("case analysis on excitation level with phase counting", "cqcpy/ci_utils.py:gci_matrixel, ci_matrixel")])
na("N05", "Excitation lists are complete and free of duplicates",
   "The single to quadruple excitation lists and the CI bases contain every determinant of the stated excitation levels exactly once.",
   "All orbital and electron numbers and reference occupations.",
   ["cqcpy/ci_utils.py"], [("nested loops over shrinking occupied and virtual lists", "cqcpy/ci_utils.py:s_strings..q_strings")])
na("N06", "CI coefficients from cluster amplitudes equal the exponential ansatz",
   "The CI coefficients produced from cluster amplitudes equal the projections of the exponential ansatz onto the listed determinants, up to the requested order.",
   "All amplitudes, dimensions and truncation orders.",
   ["cqcpy/ci_utils.py"], [("antisymmetrised products of amplitudes", "cqcpy/ci_utils.py:makeCfromT, gmakeCfromT")])
na("N07", "Fermi occupations and grand potentials are accurate and consistent",
   "Occupation and vacancy numbers lie in [0, 1], add to one, never overflow, and the grand-potential derivative functions are the derivatives of the grand potential.",
   "All temperatures, chemical potentials and spectra.",
   ["cqcpy/ft_utils.py"], [("branching on the sign of the exponent", "cqcpy/ft_utils.py")])
na("N08", "Spin-orbital and spatial representations convert into each other losslessly",
   "Expanding spatial tensors to spin orbitals and extracting them again gives the original tensors, and expanded tensors have the antisymmetry of spin-orbital quantities.",
   "All tensors and all, also unequal, numbers of alpha and beta orbitals.",
   ["cqcpy/spin_utils.py"], [("block assignment by spin case", "cqcpy/spin_utils.py")])
na("N09", "Occupied/virtual blocks partition the full tensor",
   "The occupied/virtual blocks cut from a tensor are exactly its sub-blocks, cover it without overlap and carry the right names.",
   "All dimensions per index.",
   ["cqcpy/ov_blocks.py"], [("slicing at the occupied count of each index", "cqcpy/ov_blocks.py")])
na("N10", "Energy expressions agree across formulations",
   "Correlation energies from the spin-orbital, unrestricted and restricted expressions agree, second-order energies follow from first-order amplitudes, and denominators are sums of orbital energy differences.",
   "All integrals, amplitudes and orbital energies.",
   ["cqcpy/cc_energy.py", "cqcpy/utils.py"], [("contraction formulas", "cqcpy/cc_energy.py"), ("outer sums of energies", "cqcpy/utils.py")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
