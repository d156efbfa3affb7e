"""The hand-written parts of DESIGN.md; tools/design.py adds the harness tables."""

HEAD = r'''# Solver-based checking of google/grain

`properties.jsonl` says what should hold, this file how it is decided.  It is
put together by `tools/design.py` from the text in `tools/design_text.py` and
the bounds that the harnesses themselves declare (run it after changing either).

## 1. The engine

**What is executed.**  `symx/core.py` runs the *real Python functions of /repo*
(imported from the working tree, nothing copied or transcribed) on proxy values
`SInt`, `SBool`, `SFloat` whose operations build Z3 terms.  Where the code
branches on a symbolic condition, or needs a machine integer out of a symbolic
one (`range(n)`, an index into a list), the solver is asked which outcomes are
possible under the path condition; one is followed, the others are queued as
decision prefixes and re-executed from the start, until the queue is empty.  A
check `ctx.check(p)` is the query "path condition and not p": unsat discharges
it for every value on the path, a model is a counterexample.

**What is a symbolic input.**  Payloads, lengths, seeds, epochs, positions,
start/stop/step, weights, byte counts, file cut points, predicates (one Boolean
per element), which call fails, where a checkpoint is taken, which operation a
user performs next, which thread or process goes on at each switching point.
Small structural inputs (how many elements, which of several pipelines) are
symbolic as well (`ctx.cint`), the solver enumerates their feasible values.

**Replay.**  Every counterexample is re-run in a fresh process with the concrete
values, nothing patched, the C++ extension compiled from the tree and, for
files and shared memory, real files and real shared memory.  Only what fails
there is reported as `VIOLATION`; what does not is dropped (and counted in the
evidence), so imprecision of a model costs coverage and never an alarm.  For
schedules the replay runs the same schedule through the same scheduler (a
schedule can not be forced on the operating system), with the real payloads.

**Completeness.**  A harness whose work list empties has covered every value
within its bounds: `exhausted_within_bounds` in the evidence.  If the time
budget ends first the evidence says so (a quick tier under load may be cut; the
exit code does not depend on it).  Solver answers "unknown" and values the
proxies can not represent end a path as *pruned*, with the reason counted.
Each harness can name states it must reach (`must_reach`), which guards against
checks that hold vacuously.  Sampled complete paths are re-run on the unpatched
code with a model's values, to check the proxies against reality.

**Schedules.**  `symx/sched.py` replaces `threading`, `queue`,
`concurrent.futures`, `multiprocessing` and `time` (as seen by the module under
test) by models with atomic operations over a cooperative scheduler: only the
thread that holds the baton runs, and it changes hands at these operations
(optionally at every source line of chosen files).  Which thread goes on is a
symbolic integer per point, with a bound on preemptions; blocking is free, so
"at most k preemptions" covers every schedule that needs no more than k
involuntary switches.  Nobody able to run = deadlock = violation; so are
threads that are still running when they should have been stopped.
Multi-process code is executed with one thread per process, each with its own
copy of the module's globals and everything handed over really pickled.

**Other models.**  `npmodel.py`: numpy arrays with symbolic shape, strides and
offset over shared memory blocks (bytes are an uninterpreted function of the
address); `dtmodel.py`: stacking/casting of typed values; `llvm.py`: LLVM IR
over bit-vectors for the C++ (clang -O1 output of the current source);
`h_file.py`: a TFRecord file as a layout of symbolic record lengths and a cut,
a Parquet file as row groups of symbolic size.  The compiled `index_shuffle` is
replaced, on the Python side, by "some permutation of 0..max_index for each
(max_index, seed, rounds)", which P01 proves of the C++ itself.

**What a run costs.**  `run.py check <ID> --tier quick` takes 5 to 110 s on the
8 cores, thorough up to the budgets in section 4 (minutes).  Evidence lists the
functions executed symbolically, the queries, the solver time and the bounds.

**What counts as behaviour.**  Harnesses use the public API and compare with an
oracle written in the harness from the property (a plain Python list program,
slice semantics, an arithmetic specification).  Private names are used only
where there is no other way (a constant to shrink, the size of a prefetch
buffer); moving code between functions, renaming locals, reordering statements
does not matter.

## 2. The properties
'''

TEXT = {
"P01": '''Two halves.  *C++*: `index_shuffle.cc` is compiled to LLVM IR and executed over 64-bit
vectors with arbitrary round keys: for block sizes of every kind (powers of two and not) the Feistel step is injective into
its block, the cycle walk stops inside [0, max_index], and the walk closes, hence bijection.  *Python*: with the C++ as an arbitrary bijection,
two symbolic positions of one symbolic epoch map to distinct positions of the same epoch, for lengths to 2^62; seeds stay in 32 bits for every epoch; later epochs get other seeds.
Oracle: injectivity into a finite range.  Tests sample a few lengths; the power-of-two defect fixed here (12c38a6) was not among them.''',
"P02": '''Random access: two symbolic positions of a symbolic epoch of datasets of every small length and window; they stay in their window (the last one cut at the end of the epoch) and differ.
Streams: every permutation of each window (the stub's values are solver-chosen), partial windows, seeds near 2^32.  The window of a random-access epoch that crossed its end was a genuine defect (fixed).''',
"P03": '''`slice`, `range` and indexing are run with symbolic start, stop, step, length and position; the oracle is Python's own slice arithmetic (`slice.indices`, `range`) on the same symbolic values plus the epoch shift.''',
"P04": '''`even_split` for any number of examples (linear arithmetic, shard count enumerated), samplers for symbolic index and seed; disjointness and cover as arithmetic statements over two symbolic indices.  The per-record generator is checked here and in P17/P24.''',
"P05": '''A root dataset that returns the index it is asked for makes the epoch arithmetic observable; positions are symbolic up to 2^40 epochs.  Batched reads of two symbolic positions; streams through iteration; infinite repeat through batch.''',
"P06": '''The selection function for a symbolic position: the induction step "one more position advances exactly one source by exactly one element" together with the prefix bound at a symbolic number of whole rounds; small mixes are then iterated and compared with random access.  Weights are scaled to whole numbers by the code (smallest to 100), an accuracy of one percent by design: proportions in the bounds are ratios that scaling keeps exactly.''',
"P07": '''Symbolic index in any epoch, symbolic selection map entries; oracle: list concatenation / tuples / the map.''',
"P08": '''Batch composition with symbolic payloads and epoch; number of batches for lengths to 2^62 (a float in that arithmetic was a defect, fixed); stacking for every pair of element types with values symbolic over the whole range of the type (dtmodel), plain, in shared memory, in parallel: compared with ordinary stacking.''',
"P09": '''Every random-access transformation, three symbolic positions in any order: `_getitems` against `__getitem__`.''',
"P10": '''The predicate is a free Boolean per element, so every pattern of kept and removed is covered by the paths; thresholds as in P30.''',
"P11": '''The number of pieces of each element is symbolic; lists and generators; sparse parents; the limit for too many pieces.''',
"P12": '''The checkpoint law, once for each pipeline: after a symbolic number of elements take a state (or after the end), read 0..2 on, restore into a fresh / the same / another used iterator, directly or through JSON, compare the rest with the uninterrupted stream; then a second checkpoint.  Also: `get_state` does not disturb, states are not aliased by the iterator, `set_state` does not modify its argument.  Payloads and predicates are symbolic.''',
"P13": '''The same law for iterators that hold input back: rebatch (symbolic cut inside a batch), flat map, window shuffle (every permutation).''',
"P14": '''The same law for interleaves: component lengths, cycle length, position and restored iterator symbolic; exhausted, open and not yet opened components.''',
"P15": '''The same law for the packings, with shuffled rows, side features, upstream filters and downstream repeat/limit.''',
"P16": '''`get_next_index`/`set_next_index` on pipelines over sources of symbolic length (to 2^40) at symbolic positions, every pair of layers; also under thread prefetching with the position moved while the producer runs.''',
"P17": '''Generators are replaced by marks (a function of seed material) so that "same randomness" is a term equality: reads in any order, batched, failing, on two threads preempted at any line of the generator pool; default seeds of chains and branches compared pairwise; streams through checkpoints and worker processes.''',
"P18": '''Symbolic batch sizes and payloads against re-cutting the concatenated rows.''',
"P19": '''Sequence lengths (0 included) and payloads symbolic; the oracle is an independent first-fit/best-fit over lists, and segment ids/positions are decoded back into the input.''',
"P20": '''As P19 against the concatenated token stream; two features, meta features, both split modes, BOS handling.''',
"P21": '''Component lengths and cycle length symbolic; oracle: a round-robin list program; schedules of the opening threads are symbolic.''',
"P22": '''Symbolic dataset length and restored position (to 2^40): two global steps over all shards read exactly the next elements; short histories with two reshardings; whole pipelines.''',
"P23": '''Every host at its own symbolic position, states exchanged in memory, through JSON or through the checkpoint handler's files, any number of hosts before and after.''',
"P24": '''The whole `DataLoader` with the worker processes replaced by the stand-in that P27 justifies: symbolic record keys, operations chosen symbolically, shard and worker counts; state conversion as arithmetic over symbolic positions to 2^40; `load` against the loader it abbreviates.''',
"P25": '''Each element present, missing or failing; threads, buffer, resizes, restores and the schedule symbolic.''',
"P26": '''Producer thread and consumer under every schedule with the bound on preemptions, at synchronisation points and (for short streams) at every source line; operations in any order.''',
"P27": '''The real worker function and the real parent-side iterator on modelled processes: errors, deaths at any point, restores, items that can not be pickled.  A second group replaces each worker by an in-process stand-in whose behaviour the first group establishes, which makes whole pipelines (splitting, interleaving of files, checkpoints) tractable.  One recorded finding (section 5).''',
"P28": '''The thread queue and the process queue (standard library code on modelled primitives): schedules and limits symbolic; accepted-iff-below-limit over unbounded symbolic limits for sequential histories.''',
"P29": '''Array transport with symbolic shapes, strides, itemsizes; the memory of a block is an uninterpreted function, so "same bytes" is a term equality; releases are counted; deletion threads under symbolic schedules.''',
"P30": '''Fields unset / default / None / symbolic in each of up to four options; what each stage sees; filter windows with every pattern.''',
"P31": '''TFRecord: record lengths, cut point and read sizes symbolic, so a cut anywhere in any header, payload or footer is covered; Parquet: row group sizes and the restored row symbolic.  CRCs are not checked by the code (a TODO there) and not claimed.''',
"P32": '''All nestings to depth 2, symbolic leaves, both implementations (the one without JAX is loaded by hiding the import).''',
"P33": '''All sequences of 5 operations over two iterators that exchange states; the parent's reads are counted.''',
"P34": '''The legacy operations on symbolic records; failing functions at any position; pack-and-batch against an independent packing.''',
"P35": '''Every subset of failing calls, schedules of the pool.''',
"P36": '''Budget, maximum and sizes symbolic: result within both limits, and the next larger one is not.  Sizes are averaged in floating point by the code; symbolic sizes are restricted to a few values (or a few budgets) to keep the queries within linear arithmetic.''',
"P37": '''Symbolic stream length, limit and position; the parent's reads are counted.''',
"P38": '''Sources with symbolic dimensions under chains of stages chosen by the solver: the reported spec is compared with a specification computed alongside (`_map_op`, `_iter_op`), and the elements of such chains with the reported spec.  The source fails when the spec computation reads from it.''',
"P39": '''The handler and the coroutines of `save`/`load` on a scratch directory, process index and count set per process, the position of each process a symbolic integer that travels through the JSON text by reference.  Oracle: the position at the time of the call.''',
"P40": '''Range arithmetic for symbolic start, stop, step and key, decided against the definition of range (non-linear integer arithmetic); source indices symbolic; shared memory lists by content.''',
"P41": '''Chains of 21 kinds of stages, closed after a solver-chosen number of reads, with the threads of the pipeline run by the scheduler (in `schedules` at every switching point); custom iterators at the bottom count how often they are closed.''',
"P42": '''The same chains with and without tracking, element by element and state by state; the accounting with symbolic counts and durations; the summary compared with the tree the harness built (messages are Python objects with the fields of the protobuf, replay uses the real ones).  Exact counts of a whole run are not claimed: a stage set up by the first element that passes through the stage above it forgets that element.''',
"P43": '''The same dataset object is read by two iterators and the solver chooses the order of reads, hand-overs of states, closings and derivations; the oracle is a lone iterator of a freshly built equal pipeline (symbolic model of numpy's generators, threads by the scheduler).  For random-access datasets the index is symbolic and the oracle a twin that nothing was derived from.''',
"P44": '''Lists of transformation objects chosen by the solver over symbolic elements; oracles: the methods with plain functions, a list comprehension per kind, and for `load` the records of the shard's interval split over the workers.''',
"P45": '''Every read of the source and every user call is an event; the solver picks the event that fails and the exception.  The oracle is the undisturbed run with the number of events behind each element: exactly the elements complete before the failed event, then that exception.''',
}

OBS = r'''## 5. Defects found

Repaired ones are separate `fix:` commits, each listed in `known_findings.txt`
with the property whose check failed (and fails again when the fix is undone).
Not repaired, recorded as a finding: with `sequential_slice=True` random-access
stages that fix their length when they are created (repeat(n), batch, slice,
zip, mix, concatenate) sit above sources that are sliced in place, so that
elements are repeated or left out; repairing it means redesigning how worker
slices reach the sources.  The check prints `KNOWN-FINDING` for exactly these
stages and still reports anything else.

## 6. Observations outside the claims

* TFRecord checksums are never verified; an offset beyond a truncated file ends
  silently; very long runs (>900) of empty Parquet row groups recurse.
* Batched iterators refuse to move to the end position behind a partial batch.
  Elastic iterators deliver possibly different left-overs after the last full
  global batch.  Stateful stages above an elastic interleave lose their state
  when the shards are regrouped.
* `IndexSampler` with uneven shards, several epochs and no `drop_remainder`:
  shards repeat their own data, so epochs overlap (positions are still exact).
* Options set above a multi-process prefetch do not reach the worker processes.
* Repeating an empty stream without a count never returns; random-access
  transformations of an empty dataset raise ZeroDivisionError when indexed.
* After an error, process prefetching stays ended until a state is set; a
  worker that dies drops elements it had already sent to the buffer behind the
  error; a worker killed exactly while it holds the lock of the restore queue
  may leave it locked (not modelled).
* numpy subclasses other than masked arrays come out of shared memory as plain
  arrays; byte order is normalised by numpy's pickling.
* `_BatchOperation` (legacy) derives the type of a shared-memory batch from its
  first element; pack-and-batch with 0 sequences per bin is not claimed.
* Filter ratio limits: the documentation says "above", the code compares >=;
  the checks do not decide the equal case.
'''
