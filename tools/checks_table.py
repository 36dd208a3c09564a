add("C01", "c01",
    "random loaders (size, fields, cache, batch size), chains (mode, seed, late registration), per-chain "
    "programs of single, scanned and eager draws, read failures, slow reads, schedules; non-trivial: at "
    "least one draw and (several chains or a fault fired)",
    {"runs": 480, "seconds": 70, "min_runs": 40}, {"runs": 12000, "seconds": 700, "min_runs": 400},
    "Seeded search: every draw of every chain is compared with the stream of a fresh loader read serially; "
    "trusts the loader's own stream definition (decided in C03) and NumPy/JAX.")
add("C02", "c02",
    "groups of 1-4 devices sharing one replicated data state, with random run-ahead, early stops, "
    "outdated states replayed while the devices go on, strict and tolerant verification, failing and slow "
    "loader reads; non-trivial: a group of several devices or an outdated request",
    {"runs": 600, "seconds": 60, "min_runs": 40}, {"runs": 15000, "seconds": 700, "min_runs": 400},
    "Seeded search over device orders: equal batches per position, one loader advance per refill, weak "
    "references prove that handed-out blocks are dropped. Devices are separate XLA devices driven by "
    "one task each (pmap's own executor is not scheduled).")
add("C03", "c03",
    "one loader (NumPy, HDF5 or device) shared by 1-6 chains of all modes, sizes, caches and seeds; "
    "interleaved draws, checkpoints, rewinds, late registrations and overwriting of the caller's arrays; "
    "non-trivial: several chains, overwritten arrays or a long stream",
    {"runs": 1000, "seconds": 50, "min_runs": 100}, {"runs": 60000, "seconds": 700, "min_runs": 1000},
    "Seeded search: each stream is compared with the stream of the same chain alone and decided against "
    "its mode's contract (exact for shuffled, per-epoch and ordered draws, six-sigma for uniformity).")
add("C05", "c05",
    "1-4 chains of all modes on one loader, taking checkpoints, rewinding, restoring twins, with process "
    "death at any operation and restart from pickled checkpoints; every checkpoint is restored again in "
    "fresh loaders; non-trivial: at least one checkpoint was taken",
    {"runs": 1000, "seconds": 45, "min_runs": 100}, {"runs": 60000, "seconds": 600, "min_runs": 1000},
    "Seeded search over histories and crash points: every batch after a restore equals the uninterrupted "
    "stream, checkpoints stay unmodified. Covers the NumPy loader; the HDF5 loader documents that it has no "
    "checkpoints.")
add("C04", "c04",
    "1-4 chains repeating compiled passes (masked, unmasked, full potential by map/vmap/batched) over host "
    "and device loaders of random sizes, with information flags, offsets, slow and failing reads; "
    "non-trivial: several chains or repeated passes",
    {"runs": 1200, "seconds": 50, "min_runs": 40, "chunk": 12}, {"runs": 30000, "seconds": 700, "min_runs": 400, "chunk": 12},
    "Seeded search: results, masks, entries and an order-sensitive carry of every pass equal a plain loop "
    "over the data set; potentials within float32 rounding.")
add("C16", "c16",
    "1-4 concurrent evaluations (masked, unmasked, per observation, two passes in one program, full potential) "
    "through one or two mappers, failing and slow reads and failing creation of data states; non-trivial: "
    "several evaluations at the same time or a failure",
    {"runs": 400, "seconds": 60, "min_runs": 30}, {"runs": 12000, "seconds": 800, "min_runs": 200},
    "Seeded search: every evaluation equals a plain loop over the data set, no deadlock, number of data "
    "states bounded by the number of simultaneous (and failed) evaluations.")
add("C06", "c06",
    "solver runs (map, vmap, pmap) and direct save loops of 1-12 chains with random keep patterns, sample "
    "structures and collectors (memory, npz, JSON, HDF5, on-device), immediate or delayed callbacks; "
    "non-trivial: at least one kept sample",
    {"runs": 700, "seconds": 60, "min_runs": 40, "chunk": 24}, {"runs": 20000, "seconds": 800, "min_runs": 300, "chunk": 24},
    "Seeded search: a sample is a function of chain and iteration, so collector arguments, counts and every "
    "output are decided exactly. pmap's callbacks are replayed in seeded interleavings after the program.")
add("C07", "c07",
    "solver runs and direct save loops on host collectors, callbacks delivered late by receivers that are "
    "starved or slowed, slow and short file writes; non-trivial: samples were kept and callbacks lagged or a "
    "fault fired",
    {"runs": 900, "seconds": 60, "min_runs": 40, "chunk": 24}, {"runs": 25000, "seconds": 800, "min_runs": 300, "chunk": 24},
    "Seeded search: destination and returned arrays are recorded when the run returns, decided against the "
    "kept samples and compared with their state when all pending work is done; a wait that never ends is a "
    "deadlock of the simulation. Delayed callbacks model the receiver threads of accelerators.")
add("C08", "c08",
    "solver runs and direct save loops on all host collectors with failing, torn and partial writes, failing "
    "file creation and failing collector calls at random visits, calls repeated afterwards, then new chains on "
    "the same collector; HDF5 chains read eagerly or from compiled code with failing reads that are "
    "repeated; non-trivial: a fault fired",
    {"runs": 900, "seconds": 60, "min_runs": 40, "chunk": 24}, {"runs": 25000, "seconds": 800, "min_runs": 300, "chunk": 24},
    "Seeded search: what is stored must be the successfully stored samples of the chain, in order, in the "
    "leading entries (a sample whose storing failed may be missing); chains without a failure are decided "
    "exactly; a lock that is never released is a deadlock of the simulation.")
add("C09", "c09",
    "solver runs and direct save loops writing JSON files (with and without periodic snapshots) or npz files, "
    "process death before, within or after file operations or at any step, small buffers, short writes, "
    "files of an earlier run in the same directory; "
    "non-trivial: the process died",
    {"runs": 900, "seconds": 60, "min_runs": 40, "chunk": 24}, {"runs": 30000, "seconds": 800, "min_runs": 300, "chunk": 24},
    "Seeded search over crash points: all files found afterwards are read back and compared with the samples "
    "their names promise; files that were complete when a collector call returned must be intact. Death of "
    "the process, not loss of power. HDF5 files are not crash safe by design of the format and not covered.")
add("C10", "c10",
    "1-4 concurrent chains with random nested sample structures (dictionaries, lists, tuples, named tuples, "
    "empty and unregistered nodes, more than ten elements, keys out of order) saved to one HDF5 file or as npz, "
    "reopened and loaded as a whole, by sub-structure and by part of the entries, and converted to dictionaries "
    "and back; non-trivial: several chains or more than two entries",
    {"runs": 800, "seconds": 60, "min_runs": 60, "chunk": 60}, {"runs": 40000, "seconds": 800, "min_runs": 500, "chunk": 60},
    "Seeded search: every entry is decided by value and by the name that follows from its position. The "
    "dictionary conversion itself has no concurrency and is decided on the same random structures. Keys "
    "containing '/' are outside of the property (they are path separators in HDF5).")
add("C12", "c12",
    "1-3 concurrent solver runs (map, vmap, pmap) of 1-3 chains with random schedules (step size rules with "
    "per-chain acceptance histories, temperature, burn in, random thinning, overridden secondary schedules), "
    "progress bars and collectors; non-trivial: more than one iteration",
    {"runs": 432, "seconds": 60, "min_runs": 24, "chunk": 24}, {"runs": 15000, "seconds": 800, "min_runs": 200, "chunk": 24},
    "Seeded search: the trace of every iteration is decided against the documented formulas in double "
    "precision; announced, kept, delivered and printed numbers must agree. Callbacks of the progress bar "
    "are delivered immediately or late in seeded orders.")
add("C15", "c15",
    "1-3 concurrent chains of all integrators (Langevin with and without RMSprop, friction leapfrog, "
    "reversible leapfrog, OBABO) on shared host loaders and device loaders; random steps, frictions, "
    "masses, cache sizes, changing step sizes and temperatures (also zero), slow reads, failing reads that are "
    "repeated; non-trivial: several chains or integrations",
    {"runs": 336, "seconds": 60, "min_runs": 24, "chunk": 24}, {"runs": 15000, "seconds": 800, "min_runs": 200, "chunk": 24},
    "Seeded search: the potential logs batches and positions in the model state; every gradient evaluation is "
    "decided against the serial stream of the chain, every update against the documented formula solved for the "
    "noise. Noise is decided exactly where its scale is zero, by moments, correlations and repetitions at "
    "6.5 sigma elsewhere.")
add("C13", "c13",
    "1-3 concurrent AMAGOLD and SGGMC chains: scripted proposals whose energies tie, overflow, are infinite or "
    "undefined at random steps (single, vectorised, scanned or called step by step, with mass adaption), and the "
    "shipped integrators on shared host loaders with divergent trajectories; non-trivial: every run",
    {"runs": 384, "seconds": 60, "min_runs": 24, "chunk": 48}, {"runs": 20000, "seconds": 800, "min_runs": 200, "chunk": 48},
    "Seeded search: sure acceptances and rejections, every part of the state after each step and the reported "
    "ratio are decided exactly; the frequency and independence of the other decisions (of earlier decisions, "
    "other chains and the integrator's noise) at 6.5 sigma. The scripted integrator is a stub; solvers, "
    "potentials, loaders and the integrators of the real chains are the shipped code.")
add("C14", "c14",
    "1-3 concurrent parallel tempering chains: scripted replicas with random potentials and variances (ties, "
    "infinite values), temperatures, correction factors and averaging schedules (single, vectorised, scanned "
    "or called step by step), and the shipped Langevin integrator on shared host loaders with slow reads; "
    "non-trivial: every run",
    {"runs": 384, "seconds": 60, "min_runs": 24, "chunk": 48}, {"runs": 20000, "seconds": 800, "min_runs": 200, "chunk": 48},
    "Seeded search: identity of every part of both replicas, schedules, variance estimate and sure exchanges are "
    "decided exactly in every step; frequency and independence of the other exchanges at 6.5 sigma. The exact "
    "complement of the documented rule is the listed finding. The scripted integrator is a stub.")
add("C11", "c11",
    "1-3 concurrent runs of a sampler (all alias samplers; solver.mcmc with Langevin, friction leapfrog, OBABO, "
    "SGGMC, AMAGOLD), each of 1-3 calls with 1-3 chains, with random cache size, progress bar, collector, "
    "map/vmap/pmap, host and device loaders, callbacks late in seeded orders, slow reads; non-trivial: several "
    "runs or chains",
    {"runs": 240, "seconds": 170, "min_runs": 24, "chunk": 4}, {"runs": 15000, "seconds": 800, "min_runs": 200, "chunk": 4},
    "Seeded search: the samples of every chain must be those it returns alone on a plain set-up, bit by bit in "
    "the same program and to 1e-4 in differently compiled ones; where rounding alone (measured by moving the "
    "start by 1e-6) explains a larger deviation the chain counts as undecided. The plain run is repeated after "
    "the others and must not change.")
add("C17", "c17",
    "1-3 concurrent chains that draw batches (plain, shuffled, in epochs; host and device loaders, any cache and "
    "batch size, slow and failing reads), evaluate the stochastic potential with gradient on each batch and the "
    "full potential after them, with every strategy, with model state, masks, temperatures and likelihoods of "
    "random shape; non-trivial: every run",
    {"runs": 600, "seconds": 60, "min_runs": 60, "chunk": 30}, {"runs": 20000, "seconds": 800, "min_runs": 300, "chunk": 30},
    "Seeded search: values, gradients, likelihoods of single observations and the model state of every evaluation "
    "are recomputed in double precision from the observations the batch names; means over an epoch equal the full "
    "potential. The formulas themselves have no schedule: batches, epochs and state come through the simulated "
    "loader callbacks. pmap is evaluated on recorded batches after the simulation. The smoothness of one family "
    "of likelihoods is assumed, arbitrary user functions are not explored.")
add("C18", "c18",
    "1-3 concurrent programs feeding RMSprop, mass matrix (diagonal, full, given or default start) and Fisher "
    "noise estimates with samples and the gradients of batches from simulated loaders (slow reads, any cache), "
    "continuing from any earlier state, and SGGMC/AMAGOLD solvers adapting their mass; non-trivial: every run",
    {"runs": 450, "seconds": 70, "min_runs": 60, "chunk": 30}, {"runs": 20000, "seconds": 800, "min_runs": 300, "chunk": 30},
    "Seeded search: every estimate of every step is recomputed in double precision from the recorded history "
    "(moving averages, covariance of the burn-in samples, covariance of the scores of a batch). Histories whose "
    "covariance is singular in single precision count as undecided.")
add("C21", "c21",
    "1-2 concurrent ensembles (8192 vectorised chains on a device loader, or 24 on the simulated host loader with slow "
    "reads) of AMAGOLD or SGGMC started from exact draws of the posterior: linear regression and a skewed quartic "
    "model, any batch sizes (also of the full potential), single, batched and stateful likelihoods, trajectory length, friction, mass (constant, learned diagonal or full), temperatures and "
    "sequence of step sizes; non-trivial: every run",
    {"runs": 150, "seconds": 130, "min_runs": 6, "chunk": 6}, {"runs": 6000, "seconds": 800, "min_runs": 60, "chunk": 6},
    "Seeded search: after 1, 2, 20 and 40 iterations and over all of them, bounded functions of positions and momenta "
    "must keep their exact expectation at 6.5 sigma (9 for the small ensembles), and the chains must move as often as "
    "they report. Deviations below the resolution of some 3e5 transitions per run are not seen. The ensembles on the "
    "device loader have no seams while they run; the noise is the seeded one of JAX.")
