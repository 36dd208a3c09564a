#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here, readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
  P.append(dict(id=id, title=title, statement=statement,
    quantifier=dict(over=over, text=text), why_tests_cant=why,
    anchors=dict(files=files,
      state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
      mechanism=[dict(name=n, where=w) for n, w in mechanism],
      observe_at=list(observe), hook_needed=hook)))

prop("C01", "Each chain's mini-batches are its own loader stream, exactly once and in order",
 "The mini-batches (with masks and batch information) that compiled code draws for a chain through random reference data "
 "are exactly the sequence the host data loader produces for that chain: none skipped, repeated, reordered, or mixed with another chain or another loader. "
 "The sequence does not depend on the cache size, on how draws are grouped into compiled calls, on how host callbacks of concurrently running chains interleave, "
 "or on a failed request of another chain.",
 ["schedules", "configurations", "histories", "fault_sequences"],
 "All cache sizes, batch sizes, chain and loader counts, groupings of draws into compiled calls, interleavings of the host callbacks of concurrent chains, and loader failures in other chains.",
 "Tests draw a few batches from one chain at a time, single-threaded, with one or two cache sizes; no test interleaves the callbacks of several chains or loaders or fails one of them.",
 ["jax_sgmc/data/core.py", "jax_sgmc/data/numpy_loader.py"],
 [("cache refresh via io_callback, keyed by callback uuid, chain id and token", "jax_sgmc/data/core.py:_hcb_wrapper"),
  ("lock-protected request dispatch", "jax_sgmc/data/core.py:_Requests.__call__")],
 [("CacheState.current_line", "next cached batch to hand out", "jax_sgmc/data/core.py:CacheState"),
  ("CacheState.token", "proof of the last successful refresh", "jax_sgmc/data/core.py:CacheState")],
 ["batches and masks returned inside jit", "HostDataLoader.get_batches calls"])

prop("C02", "Devices sharing one data state all receive the same mini-batches",
 "When one data state is replicated to several devices and the draw (or the pass over the full data set) is told the device count, every device receives the same mini-batches for the same position, "
 "the loader advances once per refill no matter in which order or how far ahead devices run, and nothing handed out to all devices stays retained. "
 "A request from an outdated data state is answered with an error if call verification is on and otherwise with a warning and fresh valid data, and it never disturbs an up-to-date state or blocks later requests.",
 ["schedules", "configurations", "histories", "fault_sequences"],
 "All arrival orders of the devices' refill requests (including devices running several refills ahead), device counts, cache sizes, verification on/off, stale states, and loader failures during a shared refill.",
 "The tests have one host device and call the request object in a fixed order; arrival orders, races inside the dispatch and retention over long runs are never sampled.",
 ["jax_sgmc/data/core.py"],
 [("response cache with remaining-device counter, under a lock", "jax_sgmc/data/core.py:_Requests.__call__"),
  ("verify_calls / strict", "jax_sgmc/data/core.py:_hcb_wrapper")],
 [("_cached_requests", "responses still owed to other devices", "jax_sgmc/data/core.py:_Requests")],
 ["batches returned on each device", "number of loader calls", "liveness of handed-out arrays"])

prop("C03", "Random, shuffled, per-epoch and ordered draws keep their sampling contract",
 "Every batch consists of existing observations with all fields taken from the same observation; shuffled draws visit every observation exactly once between consecutive reshuffles even when the batch size does not divide the data set, "
 "per-epoch draws return every observation exactly once with mask one per epoch and mark the surplus entries with mask zero, ordered draws follow the data set order and mark wrapped-around entries, and plain random draws are with replacement, uniform and unmasked. "
 "Chains with the same seed produce the same stream, chains with different seeds (or registered without one) different ones, and no operation on one chain (or on arrays the caller owns or received) changes the stream of another.",
 ["histories", "configurations", "inputs", "schedules"],
 "All data set sizes, batch sizes, cache sizes, modes and seeds, arbitrarily long interleaved histories of draws, registrations, checkpoints and restores over several chains, and mutation of caller-owned arrays.",
 "Tests check one or two epochs of a handful of sizes per mode, never interleaved chains or long histories, where the ring buffer of shuffled indices wraps.",
 ["jax_sgmc/data/numpy_loader.py", "jax_sgmc/data/hdf5_loader.py"],
 [("ring buffer of shuffled indices", "jax_sgmc/data/numpy_loader.py:NumpyDataLoader._shuffle_indices"),
  ("per-epoch buffer and mask", "jax_sgmc/data/numpy_loader.py:NumpyDataLoader._shuffle_in_epochs"),
  ("ordered offset", "jax_sgmc/data/numpy_loader.py:NumpyDataLoader._ordered_indices")],
 [("remaining_samples, draws, idx_offset", "position in the current epoch", "jax_sgmc/data/numpy_loader.py:NumpyDataLoader.register_random_pipeline")],
 ["get_batches", "random_reference_data"])

prop("C04", "A pass over the full data set covers every observation exactly once, in order",
 "Mapping a function over the full data set evaluates it on every observation exactly once in data set order and threads the carry from batch to batch; results have one entry per observation, or with masking the mask is one for exactly the valid entries. "
 "This holds for every repetition of the pass, for host and device loaders, for every batch and cache size and any number of interleaved chains, so the full potential always equals the sum over all observations.",
 ["configurations", "histories", "schedules", "inputs"],
 "All data set, batch and cache sizes (dividing or not), loader kinds, repeated passes, interleaved passes of several chains, masking and information flags, data types of observations and carry.",
 "Tests run one pass (seldom two) with few sizes; wrong alignment shows only on later passes with a cache or batch size that does not divide the data set, or with interleaved callbacks.",
 ["jax_sgmc/data/core.py", "jax_sgmc/data/numpy_loader.py", "jax_sgmc/data/hdf5_loader.py", "jax_sgmc/potential.py"],
 [("scan over batches with computed mask", "jax_sgmc/data/core.py:full_reference_data"),
  ("ordered pipeline restarting at the first observation", "jax_sgmc/data/numpy_loader.py:NumpyDataLoader._ordered_indices")],
 [("idx_offset / current_line", "start of the next batch", "jax_sgmc/data")],
 ["results of full_data_map", "masks passed to the mapped function", "full_potential value"])

prop("C05", "Restoring a loader checkpoint resumes the identical stream",
 "Restoring a chain from a checkpoint taken at any point, in the same or in a freshly started loader with the same set-up, continues with exactly the batches and masks the uninterrupted chain would have returned from that point. "
 "Taking a checkpoint changes nothing, a checkpoint stays valid and unmodified however often it is restored and however the source or restored chains continue, and restoring one chain does not affect another.",
 ["crash_points", "histories", "configurations"],
 "All points of a history at which the process stops and restarts, all modes, sizes and seeds, several restores of one checkpoint, checkpoints kept in memory or serialised.",
 "Tests take one checkpoint per mode at a fixed position and restore it once.",
 ["jax_sgmc/data/numpy_loader.py"],
 [("save_state / load_state", "jax_sgmc/data/numpy_loader.py:NumpyDataLoader")],
 [("rng state, random_indices, draws, remaining_samples, idx_offset", "everything the stream depends on", "jax_sgmc/data/numpy_loader.py")],
 ["get_batches after load_state"])

prop("C06", "Saved samples are exactly the kept iterations of each chain, in order",
 "Whatever saving strategy, data collector and execution strategy is used, the samples reported for a chain are exactly the samples of its iterations after burn-in accepted by thinning, each once, in iteration order, with every entry of the sample intact and none from another chain. "
 "The reported sample count equals the number of these iterations, independently of how saving callbacks of several chains or devices interleave or lag behind the computation.",
 ["schedules", "configurations", "histories", "inputs"],
 "All keep patterns, sample structures and data types, chain counts, map/vmap/pmap, collectors, and delays and interleavings of asynchronous saving callbacks.",
 "Tests use one keep pattern per strategy, synchronous callbacks and a single device; the documented asynchronous delivery is never exercised.",
 ["jax_sgmc/io.py", "jax_sgmc/solver.py", "jax_sgmc/scheduler.py"],
 [("conditional save via id_tap", "jax_sgmc/io.py:save"), ("on-device collection", "jax_sgmc/io.py:no_save"),
  ("keep = burn_in and accept", "jax_sgmc/solver.py:mcmc")],
 [("saved_samples", "count per chain", "jax_sgmc/io.py:saving_state"), ("_samples_count/_sample_count", "row of the next sample per chain", "jax_sgmc/io.py")],
 ["results of run()", "arguments of DataCollector.save", "collector storage"])

prop("C07", "When a run returns, every collected sample is already stored",
 "When the solver's run (or the saving post-processing) returns, all samples of every chain are completely stored at their destination: returned arrays are final, and npz, HDF5 and JSON outputs exist and contain every collected sample. "
 "No saving work that is still queued, delayed or in progress at that moment can change or complete the result later, and the wait ends once the pending saving work is done.",
 ["schedules", "configurations"],
 "All delays and interleavings of the asynchronous saving callbacks relative to the main program, for all collectors, chain counts and execution strategies.",
 "On CPU the callbacks happen to run synchronously in the tests, so waiting for outstanding work is never needed there.",
 ["jax_sgmc/io.py", "jax_sgmc/solver.py"],
 [("finalize scheduled through id_tap, finished waits for it", "jax_sgmc/io.py:save.postprocess"),
  ("lock handed over from finalize to finished", "jax_sgmc/io.py:MemoryCollector, HDF5Collector")],
 [("_finished", "per-chain completion lock", "jax_sgmc/io.py")],
 ["files and arrays at the moment run() returns"])

prop("C08", "Storage and loader failures are contained",
 "If storing a sample or output file, or reading data, fails or is interrupted for one chain, the program neither hangs nor silently reports wrong data: every sample reported as stored is a genuine complete sample of that chain, stored samples keep their order and occupy the leading entries, and the output of other chains is unaffected. "
 "After the fault has gone, saving for the same and other chains works again.",
 ["fault_sequences", "schedules", "crash_points"],
 "All single and repeated failures (I/O errors, full disk, short writes, loader exceptions, failing output files) at any sample, leaf or file of any chain, combined with any callback interleaving.",
 "No test injects a failure into a collector, file or loader.",
 ["jax_sgmc/io.py", "jax_sgmc/data/core.py", "jax_sgmc/data/numpy_loader.py"],
 [("row counter advanced only after all leaves were written", "jax_sgmc/io.py:HDF5Collector.save"),
  ("lock released although writing failed", "jax_sgmc/io.py:MemoryCollector.finalize"),
  ("request lock as context manager", "jax_sgmc/data/core.py:_Requests.__call__")],
 [("_sample_count", "number of stored samples", "jax_sgmc/io.py")],
 ["collector storage", "exceptions from run()", "termination"])

prop("C09", "A crash never damages sample files that were already complete",
 "If the process dies at any moment while samples are collected, every output file that was completely written earlier is still readable and holds exactly the samples collected up to the point it documents. "
 "A file being written at that moment is either absent, recognisably incomplete, or complete and correct; it never reads back as different samples, and a periodic snapshot named after a sample count holds exactly that many samples. "
 "Files which an earlier run left in the same directory stay as they are, except for those that the new run writes under the same name.",
 ["crash_points", "schedules", "configurations"],
 "All crash points inside or between writes, write frequencies, buffer sizes, chain counts, callback interleavings and files left by earlier runs.",
 "No test kills a run; the files are only read after a complete run.",
 ["jax_sgmc/io.py"],
 [("one new JSON file per snapshot", "jax_sgmc/io.py:JSONCollector._write_file"),
  ("one npz file per chain", "jax_sgmc/io.py:MemoryCollector.finalize")],
 [("_collected_samples", "samples kept for the next snapshot", "jax_sgmc/io.py:JSONCollector")],
 ["files on disk after the crash"])

prop("C10", "Samples written to a file are found again under their own names",
 "Every entry of a sample structure is stored under the path that its position in the structure names, so saving with the HDF5 collector (or npz output, or conversion to a dictionary) and loading again returns the same structure with every entry in its own place, and any sub-structure can be loaded on its own. "
 "This holds for all nestings of dictionaries, lists, tuples and named tuples regardless of the order or number of their entries, and for concurrent chains saving to one file.",
 ["inputs", "configurations", "schedules"],
 "All sample structures, shapes and data types, chain counts and interleavings of their saves, full or sub-structures loaded.",
 "Tests use structures whose alphabetical and structural orders coincide.",
 ["jax_sgmc/io.py", "jax_sgmc/data/hdf5_loader.py"],
 [("path names of leaves", "jax_sgmc/io.py:pytree_dict_keys"), ("inverse conversion", "jax_sgmc/io.py:dict_to_pytree"),
  ("lookup of leaves by path", "jax_sgmc/data/hdf5_loader.py:HDF5Loader")],
 [("_leaf_names", "paths per chain", "jax_sgmc/io.py")],
 ["HDF5 / npz contents", "batches of the HDF5 loader"])

prop("C11", "Results depend only on the chain's own inputs and seeds",
 "Given the same initial sample, keys, data and settings, a chain returns the same samples every time. "
 "The result does not change with the saving back end, cache size, progress bar, timing of asynchronous host callbacks, number and order of other chains run before, after or concurrently, or earlier runs in the same process.",
 ["schedules", "configurations", "histories"],
 "All solvers offered as ready-made samplers, saving back ends, cache sizes, chain compositions and callback interleavings.",
 "Tests run each sampler once or twice in one configuration and check shapes or statistics, not equality across configurations and schedules.",
 ["jax_sgmc/alias.py", "jax_sgmc/solver.py", "jax_sgmc/data/core.py", "jax_sgmc/io.py", "jax_sgmc/integrator.py", "jax_sgmc/scheduler.py"],
 [("all randomness from explicit keys and seeds", "jax_sgmc/integrator.py, jax_sgmc/solver.py, jax_sgmc/data/numpy_loader.py"),
  ("per-chain state", "jax_sgmc/data/core.py, jax_sgmc/io.py")],
 [],
 ["samples returned by run()"])

prop("C12", "The schedule announces exactly what the run delivers",
 "For every combination of burn-in, thinning and step size schedule, the number of samples announced before the run equals the number delivered, burnt-in iterations are never delivered, random thinning selects distinct iterations after burn-in, and the step size used in every iteration is the documented one, finite and positive. "
 "An adaptive step size never changes after burn-in, and every progress line reports the true iteration and number of samples collected so far, without influencing the run.",
 ["configurations", "histories", "schedules", "inputs"],
 "All iteration counts, burn-in lengths, thinning selections and keys, step size parameters (including equal first and last step size), acceptance histories, and delayed progress callbacks.",
 "Tests check each scheduler alone for a few parameters; the combination with the run loop, saving and delayed progress callbacks is not tested.",
 ["jax_sgmc/scheduler.py", "jax_sgmc/solver.py"],
 [("combination of the specific schedulers", "jax_sgmc/scheduler.py:init_scheduler"),
  ("weighted selection without replacement", "jax_sgmc/scheduler.py:random_thinning"),
  ("dual averaging gated by burn-in", "jax_sgmc/scheduler.py:adaptive_step_size"),
  ("progress callback", "jax_sgmc/scheduler.py:_progress_bar")],
 [("state", "current iteration", "jax_sgmc/scheduler.py:scheduler_state")],
 ["schedule per iteration", "saved samples", "progress lines"])

prop("C13", "Metropolis-Hastings steps accept and reject consistently",
 "A proposal that cannot raise the total energy is always accepted, one with infinite or undefined energy never, and otherwise acceptance happens with the probability given by the energy difference, using a fresh random number each step. "
 "After acceptance the state is the proposal, after rejection positions and model state are those of the last accepted state with the momentum reversed, noise and data advance in both cases, and the stored potential always is the full potential of the current position. "
 "The reported acceptance ratio always lies between zero and one.",
 ["histories", "fault_sequences", "inputs", "configurations"],
 "All histories of accepted and rejected proposals, energies and temperatures, including overflowing, infinite and undefined energies injected at any step.",
 "Tests run the samplers on smooth models and look at statistics; no test injects a divergent trajectory or inspects the state after a rejection.",
 ["jax_sgmc/solver.py"],
 [("accept/reject by lax.cond", "jax_sgmc/solver.py:amagold, sggmc"), ("log ratio clipped at zero", "jax_sgmc/solver.py:amagold, sggmc")],
 [("potential", "full potential of the current position", "jax_sgmc/solver.py:AMAGOLDState, SGGMCState")],
 ["solver state after each update", "acceptance ratio"])

prop("C14", "Parallel tempering exchanges whole replicas by the documented rule",
 "In every step both replicas are advanced once with their own schedule, and then exchanged as a whole with the documented probability: surely when the documented swap rate is at least one, never when it is zero, with a fresh random number each time. "
 "An exchange never mixes, duplicates or loses parts of the replicas, samples always come from the replica currently at the normal temperature, and the variance estimate follows the documented moving average.",
 ["histories", "inputs", "configurations"],
 "All histories of potentials and variances, temperatures, correction factors and averaging schedules.",
 "Tests check the sampler's statistics over one run; neither the direction nor the frequency of exchanges is examined.",
 ["jax_sgmc/solver.py"],
 [("swap step", "jax_sgmc/solver.py:parallel_tempering")],
 [("ssq_estimate", "moving average of the variance", "jax_sgmc/solver.py:parallel_tempering")],
 ["solver state and sample after each update"])

prop("C15", "Integrators use every mini-batch and every random number exactly once",
 "Each gradient evaluation of an integrator uses the next mini-batch of the chain's stream (none reused, none skipped), every noise term is freshly drawn and standard normal before the documented scaling, and the model state is threaded through all evaluations. "
 "The positions visited follow the documented update of the integrator (Langevin, friction leapfrog, reversible leapfrog, OBABO) for every step size, temperature, friction, mass, number of steps and sequence of calls.",
 ["histories", "configurations", "inputs"],
 "All integrators and parameters, arbitrary sequences of calls with changing schedules, several chains, any cache size.",
 "Tests check statistics or a single step for a few settings; reuse of a batch, key or model state shows up only across steps.",
 ["jax_sgmc/integrator.py", "jax_sgmc/util/tree_util.py"],
 [("key splitting and data state threading", "jax_sgmc/integrator.py")],
 [("key, data_state, model_state, momentum", "carried from step to step", "jax_sgmc/integrator.py:LeapfrogState, ObaboState, LangevinState")],
 ["arguments of the potential function", "integrator state after each call"])

prop("C16", "Concurrent full-data evaluations do not disturb each other",
 "When several compiled programs evaluate a mapped function over the full data set at the same time through the stateless full data mapper, each evaluation sees every observation exactly once in order and returns the result it would return alone. "
 "Evaluations neither deadlock nor share a data state, data states are reused after an evaluation has finished, so that their number stays bounded by the number of simultaneous evaluations, and a failed evaluation does not affect the others.",
 ["schedules", "configurations", "fault_sequences"],
 "All interleavings of the host callbacks of concurrent evaluations, numbers of concurrent programs, sizes, flags and loader failures.",
 "Tests evaluate the mapper from a single thread.",
 ["jax_sgmc/data/core.py"],
 [("pool of unused data states under a lock", "jax_sgmc/data/core.py:_FullDataHelper")],
 [("_unused_states", "pool", "jax_sgmc/data/core.py:_FullDataHelper")],
 ["results of concurrent evaluations", "number of registered chains"])

prop("C17", "Strategies and batching do not change the potential",
 "For every sample and every mini-batch drawn from a data loader, the stochastic potential has the value (minus log-prior minus observation_count times the mean log-likelihood of the batch, over the temperature; with an explicit mask the sum of the unmasked log-likelihoods times observation_count over batch_size replaces the latter) and the gradient of that expression for every evaluation strategy (map, vmap, pmap, batched likelihood), every batch size including one and every number of observations; with likelihoods=True it also returns the log-likelihood of each observation in batch order. "
 "The full potential equals minus log-prior minus the sum of all log-likelihoods, over the temperature, for every strategy and batch size, so that the mean of the stochastic potential over a complete epoch is the full potential. A model state is advanced exactly once per evaluated mini-batch.",
 ["inputs", "configurations", "histories"], "All strategies, shapes, batch sizes, temperatures, masks, samples and sequences of batches, with and without model state.",
 "Numerical tests sample few models and sizes; batches of one, incomplete last batches, epochs and threaded states only show in particular combinations.", ["jax_sgmc/potential.py", "jax_sgmc/data/core.py"],
 [("strategy selection and scaling", "jax_sgmc/potential.py:minibatch_potential"), ("sum over the data set", "jax_sgmc/potential.py:full_potential")],
 [("model state", "threaded through all evaluations", "jax_sgmc/potential.py:minibatch_potential")],
 ["value, gradient and auxiliary results of the potential functions"])
prop("C18", "Adaption estimates match their definitions",
 "After every update an adaption strategy reports the documented function of exactly the history it has seen: RMSprop the moving average of the squared gradients (preconditioner, its root and zero divergence term), the mass matrix adaption the initial mass (default: unit masses) until the burn-in is complete and from then on the unchanged covariance of the burn-in samples together with a square root of the mass that belongs to it, the Fisher information the empirical covariance of the gradients of the log-likelihoods of the observations of the mini-batch, diagonal or full. "
 "Continuing from an earlier state gives the estimates of the history up to that state, and a solver adapting its mass uses the accepted samples.",
 ["inputs", "histories"], "All gradient and sample histories, diagonal and dense, any burn-in, mini-batch size and start value; several chains at the same time.",
 "Tests sample few inputs and short histories; errors at the end of burn-in, for correlated variables or shifted samples stay hidden.", ["jax_sgmc/adaption.py", "jax_sgmc/solver.py"],
 [("update/get triplets", "jax_sgmc/adaption.py"), ("flattening of samples and start values", "jax_sgmc/adaption.py:adaption")],
 [("v; mean, ssq, iteration; g2", "running statistics", "jax_sgmc/adaption.py")],
 ["manifolds returned by the get function", "mass state of solvers"])
prop("C19", "Samplers converge to the documented posterior",
 "In the limit of vanishing step sizes and of infinitely many samples, the samples are distributed according to the posterior defined by prior and likelihood.",
 ["inputs", "programs"], "All models and data sets.",
 "A finite run can only reject this statistically.", ["jax_sgmc/solver.py", "jax_sgmc/integrator.py"],
 [("sampling schemes", "jax_sgmc/solver.py")])
prop("C21", "Samplers with exact correction leave the posterior invariant",
 "SGGMC and AMAGOLD with the shipped integrators leave the posterior defined by prior and likelihood exactly invariant: an ensemble of chains whose positions are drawn from the posterior (tempered by the temperature of the schedule for SGGMC; AMAGOLD at temperature one) and whose momenta are drawn from the normal distribution with the covariance of the mass (times that temperature) still has these distributions after any number of iterations, for every step size and sequence of step sizes, batch size (batches drawn independently), trajectory length, friction and fixed mass (constant, or adapted before). The chains move with the acceptance probability they report.",
 ["inputs", "histories", "configurations"], "All step sizes, mini-batches and noise sequences; a wrong sign or factor anywhere in gradient, noise, energy, momentum or data handling moves the distribution.",
 "Tests run single short chains; a biased chain still looks plausible.",
 ["jax_sgmc/solver.py", "jax_sgmc/integrator.py", "jax_sgmc/potential.py"],
 [("Metropolis-Hastings step", "jax_sgmc/solver.py:amagold, sggmc"), ("reversible integrators", "jax_sgmc/integrator.py:obabo, reversible_leapfrog")],
 [("positions, momentum, potential", "state of the chain", "jax_sgmc/solver.py:SGGMCState, AMAGOLDState")],
 ["solver state after each update", "acceptance ratio"])
prop("C20", "Tree and list helpers are exact inverses and linear maps",
 "Stacking and unstacking lists of trees, tree arithmetic and matrix products agree with the corresponding operations on the flattened vectors, and identifiers survive the conversion to integer arrays.",
 ["inputs"], "All trees, shapes and data types.",
 "Pure functions; tests sample few trees.", ["jax_sgmc/util/tree_util.py", "jax_sgmc/util/list_map.py", "jax_sgmc/util/uuid.py"],
 [("tree operations", "jax_sgmc/util")])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
  for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    f.write(json.dumps(p) + "\n")
print(len(P))
