"""The properties: statement, quantifier, anchors, what the check assures."""

D = "grain/_src/python/dataset/"
T = D + "transformations/"
C = "grain/_src/core/"
P = "grain/_src/python/"

PROPS = []
NOT_APPLICABLE = {}
BASE_NOTE = ("Every feasible path of the real code within the stated bounds is executed with symbolic inputs and each assertion discharged by Z3 "
             "(harnesses the budget cut short are reported as not exhausted); counterexamples are replayed on the unpatched code. "
             "Trusted: the proxy integers/floats, Z3, and the stubs listed in the evidence. ")


def prop(id, title, statement, over, text, why, files, mech, note="", observe=(), na=None, technique=None):
  d = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
           observe=list(observe), level_note=BASE_NOTE + note)
  if technique:
    d["technique"] = technique
  PROPS.append(d)
  if na:
    NOT_APPLICABLE[id] = na


TODO = "check not built yet"

prop("P01", "A global shuffle visits every element exactly once per epoch",
     "Shuffling a dataset of any length with any seed yields, in every epoch, each element of the dataset exactly once. "
     "Epochs of a repeated shuffled dataset are reshuffled (a derived seed per epoch), the order depends only on the seed, and any seed the API accepts works for every epoch.",
     ["inputs"], "every dataset length, seed, epoch and index",
     "Tests shuffle a few small lengths with a few seeds; a block size or boundary length at which the index cipher stops being a bijection is not among them.",
     [P + "experimental/index_shuffle/index_shuffle.cc", T + "shuffle.py", P + "samplers.py"],
     [("index cipher with cycle walking", P + "experimental/index_shuffle/index_shuffle.cc"), ("per-epoch seed and index split", T + "shuffle.py")],
     "Python side: lengths up to 2^31 symbolic with the C++ cipher as an arbitrary bijection; C++ side: LLVM IR of index_shuffle.cc compiled from the tree, arbitrary keys, representative block sizes and boundary lengths.",
     technique="symbolic execution of the Python callers and of the LLVM IR of the C++ cipher, decided by Z3 (integers and bit-vectors)")

prop("P02", "A window shuffle permutes inside each window and nothing else",
     "Shuffling with a window of size w yields, for each consecutive block of w elements, exactly the elements of that block in some order, the last block being possibly shorter. "
     "No element leaves its block, is lost or duplicated, in any epoch, on random-access and on streaming datasets.",
     ["inputs"], "every dataset length, window size, seed, epoch and index",
     "Tests sample a few lengths and windows; partial last windows and large seeds/epochs are combinations they do not reach.",
     [T + "shuffle.py"], [("window base/offset arithmetic", T + "shuffle.py WindowShuffleMapDataset"), ("window buffer", T + "shuffle.py WindowShuffle iterator")])

prop("P03", "Slices and index arithmetic select exactly the right elements",
     "Slicing a random-access dataset, a range, or a slice of a slice selects exactly the elements that Python's slice semantics select, with matching length, and an index beyond the length continues into the next epoch of the selection. "
     "Slices with the same step and consecutive starts partition the dataset.",
     ["inputs"], "every length, start, stop, step, index and epoch",
     "Tests use a handful of fixed slices; the quantifier is over all integers.",
     [T + "slice.py", T + "source.py", D + "dataset.py"], [("slice length and index mapping", T + "slice.py"), ("range length", T + "source.py RangeMapDataset")])

prop("P04", "Shards and samplers partition the data exactly",
     "Splitting n examples over any number of shards gives disjoint contiguous intervals covering all examples (equal sized and at most one partial remainder dropped if requested), and a sampler hands out each record key of its shard exactly once per epoch, for the requested number of epochs, in sequential or shuffled order. "
     "Every sampled record carries the index it was requested with, a key inside the data source, and a random generator determined only by seed and index; the shards of one job never overlap.",
     ["inputs", "configurations"], "every number of records, shards, shard index, epochs, seed and index",
     "Tests cover a few shard counts; off-by-one errors for uneven splits or later epochs need other combinations.",
     [C + "sharding.py", P + "samplers.py", P + "data_sources.py"], [("interval split", C + "sharding.py even_split"), ("index to record key", P + "samplers.py")])

prop("P05", "Repeating replays the dataset the requested number of times",
     "Repeating a random-access or streaming dataset k times yields exactly k consecutive passes, with length k times the length of one pass; repeating without a count never ends. "
     "With reseeding per epoch, each pass continues the epoch numbering of the underlying dataset; without it, every pass repeats the first one exactly.",
     ["inputs"], "every length, number of epochs and index, composed with sparse datasets",
     "Tests use short fixed datasets; epoch bookkeeping over arbitrary indices and sparse elements is not covered.",
     [T + "repeat.py"], [("index modulo/epoch handling", T + "repeat.py")])

prop("P06", "Mixing honours weights, order and exhaustion",
     "Mixing datasets with weights yields, at every prefix, component counts that follow the normalized weights to within one element per component, takes each component's elements in their own order without skipping or repeating any within an epoch, and stops (random-access: has the length) when the first component is exhausted. "
     "Every index of a mixed random-access dataset maps to the same component element as sequential iteration, in later epochs too.",
     ["inputs", "configurations"], "every number of components, lengths, weights and indices",
     "Tests check a few weight vectors; rounding for other weights or long prefixes is not reached.",
     [T + "mix.py"], [("golden-ratio-free counting of the next component", T + "mix.py")])

prop("P07", "Concatenation, zipping and selection place every element",
     "Concatenating datasets yields the elements of each input in order, zipping yields tuples of equal positions (refusing unequal lengths when strict, else stopping at the shortest), and a selection map decides exactly which input element is at each index. "
     "Lengths are the corresponding sums, minima or the map's length, and indices past the end continue into the next epoch.",
     ["inputs"], "every number of inputs, lengths, indices and epochs",
     "Tests use two or three fixed inputs and few indices.",
     [T + "mix.py", T + "zip.py"], [("concatenation offsets", T + "mix.py ConcatenateMapDataset"), ("zip", T + "zip.py")])

prop("P08", "Batching keeps every element, in order, in the right batch",
     "Batching groups consecutive elements into batches of exactly the requested size, keeps a shorter last batch unless dropping the remainder was requested, and reports the matching length. "
     "Random access, later epochs and sparse inputs (missing elements are skipped inside a batch, an entirely empty batch is missing) agree with sequential grouping, and padding or stacking never alters the elements' values. "
     "Stacking in shared memory or in parallel, with elements of equal or different types, gives the same values and type as plain stacking.",
     ["inputs"], "every length, batch size, remainder mode, index, epoch and pattern of missing elements",
     "Tests fix a few sizes; the boundary cases (remainder of exactly zero, one, size minus one; later epochs; missing runs) are sampled only.",
     [T + "batch.py"], [("batch boundaries", T + "batch.py BatchMapDataset"), ("iterator batching", T + "batch.py")])

prop("P09", "Reading many elements at once equals reading them one by one",
     "Fetching any list of indices in one batched read from any random-access pipeline returns exactly the elements, missing ones included, that separate reads at those indices return, in the same order.",
     ["inputs", "programs"], "every pipeline over the random-access transformations, list of indices (repeated, unordered, across epochs)",
     "Each transformation re-implements batched reads separately; tests compare a few index lists.",
     [D + "dataset.py", T + "map.py", T + "mix.py", T + "slice.py", T + "shuffle.py", T + "source.py", T + "repeat.py", T + "batch.py", T + "filter.py"],
     [("batched read per transformation", "_getitems in each transformation")])

prop("P10", "Filtering and sparse iteration drop exactly the rejected elements",
     "Filtering keeps exactly the elements the predicate accepts, in order, for random-access datasets (rejected positions become missing) and for streams; converting a sparse dataset to an iterator skips missing elements unless asked to keep them. "
     "The fraction-of-skipped-elements guard reports exactly when its threshold is exceeded and never changes the data.",
     ["inputs"], "every predicate outcome pattern, epoch and threshold",
     "Tests use a few predicates; arbitrary patterns of acceptance are the quantifier.",
     [T + "filter.py", D + "dataset.py", T + "prefetch.py"], [("predicate application", T + "filter.py"), ("threshold checker", T + "filter.py FilterThresholdChecker")])

prop("P11", "Flat mapping yields every piece of every element in order",
     "Flat mapping a stream yields all pieces of each element, in order and nothing else; on a random-access dataset, position i times the maximal fan-out plus j holds piece j of element i or is missing if there are fewer pieces, and too many pieces are reported as an error.",
     ["inputs"], "every fan-out pattern, length, index and epoch",
     "Tests use a fixed fan-out; empty expansions in all positions are the quantifier.",
     [T + "flatmap.py"], [("index split by fan-out", T + "flatmap.py FlatMapMapDataset"), ("piece buffer", T + "flatmap.py")])

prop("P12", "Restoring a checkpoint resumes at exactly the next element",
     "For every pipeline of element-wise, batching, mixing, zipping, repeating, limiting and caching transformations, a state taken after any number of elements and restored into a fresh, used or the same iterator (directly or through JSON) continues with exactly the elements that would have followed. "
     "Taking a state never disturbs the stream, a state never changes after it was taken, restoring never modifies the caller's state, and a state taken after the end stays at the end.",
     ["histories", "inputs", "programs"], "every checkpoint position, history of reads and restores, and pipeline within the bounds",
     "Tests save and restore at a few positions into a fresh iterator; the combination of positions, restore targets and later reads is the quantifier.",
     [D + "dataset.py", T + "filter.py", T + "batch.py", T + "limit.py", T + "mix.py", T + "repeat.py", T + "zip.py", T + "cache.py", T + "map.py", T + "prefetch.py"],
     [("get_state/set_state of each iterator", "each transformation's iterator")])

prop("P13", "Checkpoints of buffering iterators keep buffered elements",
     "For iterators that buffer input (rebatching, flat mapping, window shuffling), alone or nested in other transformations, a state taken at any position and restored anywhere resumes with exactly the elements that would have followed, none of the buffered ones lost, repeated or reordered.",
     ["histories", "inputs"], "every checkpoint position inside and between buffers, every history of reads and restores",
     "The state has to describe a position inside a buffer; tests probe few positions.",
     [T + "rebatch.py", T + "flatmap.py", T + "shuffle.py"], [("buffer position in the state", "rebatch, flatmap and window shuffle iterators")])

prop("P14", "Checkpoints of interleaved streams resume every open stream",
     "A state of an interleaved dataset taken at any position and restored anywhere resumes with exactly the elements that would have followed, with every open, pending and exhausted component where it was, for any cycle length and component lengths.",
     ["histories", "inputs"], "every checkpoint position, component lengths, cycle length and restore target",
     "Tests use few component length patterns; staggered exhaustion is the hard part.",
     [T + "interleave.py"], [("per-slot iterator states", T + "interleave.py")])

prop("P15", "Checkpoints inside packing resume the same packed batches",
     "For first-fit, best-fit and concatenate-then-split packing, a state taken after any packed element and restored anywhere continues with exactly the packed elements that would have followed.",
     ["histories", "inputs"], "every sequence length pattern, number of bins and checkpoint position",
     "Partially filled bins and pending elements are replayed on restore; tests probe few positions.",
     [T + "packing.py", T + "packing_concat_then_split.py"], [("replay of pending elements", T + "packing.py"), ("remainder state", T + "packing_concat_then_split.py")])

prop("P16", "The iterator position can be read and moved exactly",
     "For every pipeline that supports it, reading the next index gives the number of elements produced so far, and setting it to the position of any element continues with exactly that element; batched, limited, repeated and nested pipelines translate positions without loss, also after the end was reached. "
     "Setting the position and restoring a state of that position are interchangeable.",
     ["histories", "inputs"], "every position before and after any reads, batch sizes and nesting",
     "Tests move to a few positions; position arithmetic through batches and partial batches is sampled.",
     [D + "dataset.py", T + "batch.py", T + "map.py", T + "prefetch.py", T + "zip.py"], [("get_next_index/set_next_index", D + "dataset.py")])

prop("P17", "Random transformations depend only on seed and position",
     "A random map receives a generator that is a function of the pipeline seed and the element's index only: two reads of the same index give the same result whatever was read before, in which order or on which thread, and distinct indices or distinct default-seeded transformations get different streams. "
     "After a checkpoint restore the same elements get the same randomness.",
     ["histories", "inputs", "schedules"], "every seed, index, read order and checkpoint position",
     "Tests compare two runs for one seed; generator reuse across threads and re-reads are not explored.",
     [T + "map.py", D + "dataset.py"], [("generator pool", T + "map.py"), ("default seed derivation", D + "dataset.py")])

prop("P18", "Rebatching re-cuts the same rows",
     "Rebatching a stream of batches yields the same rows in the same order, cut into batches of exactly the requested size, the last one possibly shorter or dropped on request. Rows are never lost or invented; an empty input batch may be refused.",
     ["inputs"], "every sequence of input batch sizes (empty ones included) and target size",
     "Tests use a few sizes; carry-over across several input batches is the quantifier.",
     [T + "rebatch.py"], [("row carry-over", T + "rebatch.py")])

prop("P19", "Packing keeps every sequence whole and describes it exactly",
     "First-fit and best-fit packing place every input sequence exactly once into one row of one output batch without overlap, and segment ids and positions identify exactly where each sequence lies, padding being marked as such. "
     "A row never exceeds the configured length nor the configured number of sequences, and features of one element always land in the same row. First-fit uses the first row with room, best-fit the fullest such row, and a sequence longer than the row is refused.",
     ["inputs"], "every sequence of lengths, bin count, row length, sequence limit and payload",
     "Tests pack a few length patterns; placement depends on every earlier length.",
     [T + "packing.py", T + "packing_packed_batch.py"], [("bin selection", T + "packing_packed_batch.py"), ("flush when nothing fits", T + "packing.py")])

prop("P20", "Concatenate-then-split preserves the token stream",
     "Concatenate-then-split packing emits rows whose unpadded tokens, in order, are exactly the concatenated input tokens (plus the configured beginning-of-sequence handling), every row full except where full-length inputs or the end force padding. "
     "Segment ids and positions identify each piece, and inputs longer than a row are split without loss or duplication.",
     ["inputs"], "every sequence of lengths, row length and beginning-of-sequence mode",
     "Tests check some length patterns; splits of remainders of remainders are rare.",
     [T + "packing_concat_then_split.py"], [("piece assignment", T + "packing_concat_then_split.py")])

prop("P21", "Interleaving delivers each component completely and in order",
     "Interleaving yields every element of every component exactly once, each component in its own order, keeps at most cycle-length components open, visits open components round-robin in blocks of the requested size, and replaces an exhausted component by the next one.",
     ["inputs", "configurations"], "every number and lengths of components, cycle length, block length and buffer sizes",
     "Tests compare a few fixed patterns; empty components at each position are the quantifier.",
     [T + "interleave.py"], [("slot rotation", T + "interleave.py")])

prop("P22", "Elastic iteration loses and repeats nothing when resharded",
     "An elastic iterator that saved its state after any number of global batches and is restored with any other number of shards and any other global batch size continues so that every further global step reads, over all shards together, exactly the next elements, each once; the state is the same on every shard.",
     ["histories", "configurations"], "every dataset length, global batch size, shard counts before and after, and checkpoint position",
     "Tests reshard once for few sizes.",
     [D + "elastic_iterator.py"], [("global position in the state", D + "elastic_iterator.py")])

prop("P23", "Elastic streaming shards keep their own progress when regrouped",
     "For an elastic iterator over interleaved shards, saving every shard's state (in memory or in checkpoint files) and restoring the union with any regrouping of shards over any number of processes yields all remaining elements exactly once, each shard in order; shards already exhausted stay exhausted.",
     ["histories", "configurations", "crash_points"], "every shard count, lengths, grouping before and after, and position",
     "Tests regroup once or twice with equal shards.",
     [D + "elastic_iterator.py", T + "interleave.py", P + "checkpoint/elastic_checkpoint.py"], [("per shard states", T + "interleave.py"), ("state files per shard", P + "checkpoint/elastic_checkpoint.py")])

prop("P24", "The data loader yields the sampler's records exactly once, resumably",
     "A data loader with any number of workers yields the records of its sampler, transformed by its operations, each exactly once and in an order independent of timing; a checkpoint taken after any element resumes with exactly the remaining ones. "
     "Each random operation gets the generator of its record's own sampler index, shards take disjoint positions of the sampler that together cover it, and a checkpoint of another worker count, sampler or data source is refused without moving the reader.",
     ["histories", "configurations"], "every sampler, worker count, operation list and checkpoint position",
     "Tests use fixed samplers and positions.",
     [P + "data_loader.py", P + "operations.py"], [("per worker index", P + "data_loader.py")])

prop("P25", "Prefetching never changes the data",
     "Reading a random-access dataset through a prefetching iterator yields exactly the elements in index order, missing ones skipped or kept as configured, for every buffer size and thread count and when both are changed while reading; an element that fails is reported at its own position and the others are unaffected. "
     "Stopping, restarting or restoring the iterator at any point leaves the position exact.",
     ["histories", "configurations", "fault_sequences"], "every buffer/thread configuration, pattern of missing and failing elements and sequence of operations",
     "Tests run happy paths and one failure position.",
     [T + "prefetch.py"], [("buffer of futures", T + "prefetch.py")])

prop("P26", "Thread prefetching is transparent under every schedule",
     "Prefetching a stream in a background thread yields exactly the stream's elements in order, then its end or its error, and its checkpoints resume exactly after the last delivered element, whatever the interleaving of the producer thread with reading, saving, restoring, starting prefetch and closing. "
     "No schedule deadlocks or leaves the producer running after close.",
     ["schedules", "histories", "fault_sequences"], "every interleaving of producer and consumer steps, buffer size, failure position and consumer operation sequence",
     "Tests run whichever schedule the OS picks.",
     [T + "prefetch.py"], [("producer thread, buffer and stop event", T + "prefetch.py ThreadPrefetch iterator")])

prop("P27", "Process prefetching and multi-process reading keep order and position",
     "Prefetching in worker processes yields exactly the elements that a single process would (interleaved round-robin when split over workers), delivers a worker's error at its position, and its checkpoints resume exactly after the last delivered element for any number of workers. "
     "Each stage used several times is split only once, files of an interleave go to the workers round-robin, and sequential splitting gives every worker a block of consecutive source elements. "
     "A worker that fails while starting, restoring, producing or sending, or that is killed, always surfaces as an error and never as a hang or a dropped element.",
     ["schedules", "histories", "fault_sequences"], "every worker timing, worker count, stream lengths, failure position and checkpoint position",
     "Tests run whichever timing the OS picks.",
     [T + "process_prefetch.py", T + "prefetch.py"], [("state sent with elements", T + "process_prefetch.py"), ("worker slices", T + "prefetch.py")])

prop("P28", "The resizable queue never loses elements or overflows",
     "A queue of adjustable size delivers every element once in order, never holds more than the current limit through puts, and wakes blocked producers and consumers when space or elements become available, whatever the interleaving of puts, gets and resizes.",
     ["schedules", "configurations"], "every interleaving of producers, consumers and resizes",
     "Tests run single-threaded sequences.",
     [P + "ipc/variable_size_queue.py"], [("size condition", P + "ipc/variable_size_queue.py")])

prop("P29", "Arrays cross process boundaries unchanged",
     "An array put in shared memory and opened elsewhere has the same shape, type and bytes, whatever shape (empty and scalar included) and type; the memory is released once the last user is done, never earlier, and structures mixing arrays and other leaves are reassembled identically, masked arrays with their mask. "
     "Views of a shared array stay valid as long as they are used, and asynchronous release has at most the configured number of operations under way and releases each block once.",
     ["inputs", "histories"], "every shape, type, nesting and release order",
     "Tests use a few shapes.",
     [P + "ipc/shared_memory_array.py"], [("shape/size arithmetic and unlink", P + "ipc/shared_memory_array.py")])

prop("P30", "Options are validated and merged by precedence",
     "Merging dataset options gives, field by field, the explicitly set value of the outer options, else that of the inner ones, else the default, without changing its inputs; a pipeline with options at several stages uses that merge in every one of its stages, components of an interleave included. "
     "The filter checks obey the thresholds (None and only None disables them). Invalid options are refused (negative threads, workers or buffers), and valid ones kept unchanged; zero workers or threads leave the stream as it is.",
     ["inputs", "configurations"], "every combination of set and unset fields, all values and positions in the pipeline",
     "Tests check some combinations.",
     [D + "base.py", P + "options.py", D + "dataset.py", T + "filter.py"], [("merge", D + "base.py DatasetOptions.merge"), ("validation", P + "options.py"), ("propagation", D + "dataset.py WithOptionsIterDataset"), ("thresholds", T + "filter.py")])

prop("P31", "File streams resume at the right record and report truncation",
     "Reading a TFRecord or Parquet file yields exactly its records in order, files without records included, and a checkpoint taken after any of them resumes at exactly the next one. "
     "A TFRecord file cut anywhere yields its complete records, then an error if the cut is inside a record, never a partial record and never a silent end. "
     "Several Parquet files are interleaved, and split over workers, so that each row is read once.",
     ["inputs", "crash_points", "histories"], "every sequence of record sizes, truncation point, row group sizes and checkpoint position",
     "Tests read two fixture files.",
     [D + "sources/tfrecord_dataset.py", D + "sources/parquet_dataset.py"], [("record framing", D + "sources/tfrecord_dataset.py"), ("row groups", D + "sources/parquet_dataset.py")])

prop("P32", "Nested structures are traversed consistently",
     "Flattening and mapping over nested structures visit the leaves in one fixed order; unflattening restores the structure and refuses a wrong number of leaves; mapping over several structures pairs corresponding leaves and refuses structures of different shape; with and without JAX installed the results agree.",
     ["inputs", "programs"], "every nesting of lists, tuples, named tuples, dicts and leaves within the bounds",
     "Tests use a few shapes and only one of the two implementations.",
     [C + "tree_lib.py"], [("fallback implementation", C + "tree_lib.py")])

prop("P33", "Caching replays the first pass exactly",
     "A cached stream yields on every pass exactly the elements of its parent in order, reading the parent only once for a complete first pass, whatever interruptions or restores happened before the pass completed.",
     ["histories"], "every length, interruption position and number of passes",
     "Tests read complete passes.",
     [T + "cache.py"], [("cache fill", T + "cache.py")])

prop("P34", "Legacy loader operations keep every record in order",
     "The data loader's map, filter, random map, batch and pack-and-batch operations keep every accepted record exactly once and in order, batch exactly the requested number (dropping a partial batch only on request), and each output carries the index metadata the loader checkpoints by.",
     ["inputs"], "every number of records, batch size, sequence lengths and predicate outcome",
     "Tests use a few inputs.",
     [P + "operations.py", P + "experimental/example_packing/packing.py"], [("batch operation", P + "operations.py"), ("pack and batch", P + "experimental/example_packing/packing.py")])

prop("P35", "Parallel helpers return every result in order or the failure",
     "Running a function over many argument sets in parallel returns the results in argument order, runs every call exactly once, and raises if any call fails, whatever the completion order.",
     ["schedules", "fault_sequences"], "every completion order, pool size and set of failing calls",
     "Tests run a few successful calls.",
     [C + "parallel.py"], [("wait and collect", C + "parallel.py")])

prop("P36", "Tuned buffers and worker counts stay within their limits",
     "The automatically chosen worker count and prefetch buffer size never exceed the configured maximum nor what the memory budget allows for the measured elements, are the largest that satisfy both, and fall back to the maximum when sizes cannot be measured; "
     "measuring reads no more than the sample, counts every array of an element, and never changes what is read afterwards.",
     ["inputs", "configurations"], "every element size, memory budget, maximum and number of prefetched branches within the bounds",
     "Tests feed a few measurements.",
     [T + "prefetch_autotune.py"], [("size computation", T + "prefetch_autotune.py")])

prop("P37", "Limiting yields exactly the first elements",
     "Limiting a stream to k elements yields exactly the first k (or all if fewer), never reads past them, and stays ended afterwards.",
     ["inputs", "histories"], "every length, limit and further reads", "Tests use a few sizes.",
     [T + "limit.py"], [("counter", T + "limit.py")])

prop("P38", "The element spec of a dataset describes its elements",
     "The reported element spec of a dataset has the structure, types and shapes of the elements it yields, for every combination of transformations that report one: batching adds the batch dimension (unknown when a partial batch is kept), rebatching replaces it, zipping makes a tuple, custom transformations and batch functions decide their own, and everything else passes the spec on; "
     "functions that do not declare a spec are refused rather than guessed, and asking for the spec reads no element.",
     ["programs", "inputs"], "every chain of transformations, dimension and batch size within the bounds",
     "Tests check single transformations with one spec.",
     [D + "dataset.py", T + "batch.py", T + "map.py"], [("spec of a batch", T + "batch.py"), ("spec of a transformation", T + "map.py")])

prop("P39", "A checkpoint directory gives every process its own position back",
     "Saving iterators to a checkpoint directory, through the checkpoint handler or in the background, stores for each process the position at the moment of the call; restoring gives each process exactly its own position back, whatever was in the directory before or was read since; "
     "a checkpoint of another number of processes is refused without moving the reader, except for elastic streams, whose shards are redistributed without losing or repeating an element.",
     ["histories", "configurations"], "every number of processes, position of each, way of saving and restoring within the bounds",
     "Tests save and restore one process at one position.",
     [P + "checkpoint/handler.py", P + "checkpoint/base.py", P + "checkpoint/elastic_checkpoint.py"],
     [("handler", P + "checkpoint/handler.py"), ("background save and load", P + "checkpoint/base.py"), ("elastic shards", P + "checkpoint/elastic_checkpoint.py")])

prop("P40", "Data sources deliver the element of every index",
     "A range source has the length and the elements of Python's range for every start, stop and step and refuses indices outside it; a dataset over any source asks it only for indices inside its length and returns the element of the requested index modulo the length; a source in shared memory opened by name holds the same elements.",
     ["inputs"], "every start, stop, step, length and index within the bounds",
     "Tests use a few ranges.",
     [P + "data_sources.py", T + "source.py"], [("range arithmetic", P + "data_sources.py"), ("index normalisation", T + "source.py")])

prop("P41", "A closed iterator is final",
     "Closing an iterator, at any point of reading and any number of times, stops every thread and worker process it started and closes every iterator it opened below, however deep the pipeline; from then on it raises ValueError when read and delivers nothing, neither buffered elements nor an end of data, and reads nothing from its source. "
     "An elastic iterator can be opened again by restoring a state.",
     ["histories", "schedules", "programs"], "every pipeline, number of reads before closing, and schedule of the threads within the bounds",
     "Tests close a few pipelines at one moment.",
     [D + "dataset.py", T + "prefetch.py", T + "interleave.py", D + "elastic_iterator.py"],
     [("close", D + "dataset.py"), ("stopping threads", T + "prefetch.py"), ("components in use", T + "interleave.py")])

prop("P42", "Tracking execution changes nothing and its summary adds up",
     "Switching execution tracking on changes neither the elements of a pipeline nor its states, and an error of a stage still reaches the caller. The execution summary is the tree of the pipeline: every stage once, linked to its own inputs, only the last stage an output, with produced elements and time equal to the sums of what the stage recorded and the extremes of the time per element; equal stages of interleaved streams and of worker processes are added up, and a worker that sent nothing yet only leaves its part out.",
     ["programs", "inputs"], "every pipeline, record and moment of a report within the bounds",
     "Tests look at a few pipelines with measured times.",
     [D + "stats.py", D + "stats_utils.py", T + "interleave.py"],
     [("recording and summary", D + "stats.py"), ("merging summaries", D + "stats_utils.py"), ("inputs of an interleave", T + "interleave.py")])

prop("P43", "Datasets are values and their iterators independent",
     "Deriving a dataset from another, reading it or iterating over it never changes what any other dataset or iterator delivers: several iterators of one dataset, and pipelines that share a part, each deliver what they would deliver alone, "
     "whatever is read, saved, restored (one state may serve several iterators), closed or opened in between; a dataset keeps its length, elements and default seed when others are derived from it.",
     ["histories", "programs"], "every pipeline, pair of readers and order of their operations within the bounds",
     "Tests read one dataset by one iterator at a time; state shared by mistake shows only when two readers are interleaved.",
     [D + "dataset.py", T + "map.py", T + "repeat.py", T + "cache.py", T + "interleave.py", T + "packing.py", T + "shuffle.py"],
     [("iterator state kept out of the dataset", "__iter__ of each transformation"), ("shared generators", T + "map.py RngPool")])

prop("P44", "A transformation does the same wherever and however it is applied",
     "Applying a list of transformation objects gives exactly what the corresponding methods give in that order, on random-access datasets and on streams, and an object does what its plain function does. "
     "Element-wise transformations give the same stream before and after the conversion of a random-access dataset to a stream, loading a source with transformations and a batch size equals the loader built by hand, and something that is no transformation is refused, never skipped.",
     ["programs", "inputs"], "every list of transformations, source and way of applying it within the bounds",
     "Tests apply one or two transformations to fixed data.",
     [D + "dataset.py", C + "transforms.py", T + "map.py", T + "filter.py", T + "flatmap.py", T + "batch.py", P + "load.py"],
     [("dispatch on the kind of transformation", D + "dataset.py apply_transformations"), ("object or function", T + "map.py, filter.py"), ("loader", P + "load.py")])

prop("P45", "An error arrives where it happened and nothing before it is lost",
     "When reading the source or a user function fails, at any moment and in any stage, every element that was complete before is delivered unchanged and then exactly that exception reaches the caller, never an end of the data and never an element made without the failed part. "
     "A failed read of a random-access dataset leaves it intact: reading again gives the element.",
     ["fault_sequences", "programs"], "every pipeline, moment of the failure and kind of exception within the bounds",
     "Tests let one stage fail at one element.",
     [D + "dataset.py", C + "traceback_util.py", T + "map.py", T + "batch.py", T + "interleave.py", T + "zip.py", T + "mix.py", T + "packing.py"],
     [("propagation through each iterator", "__next__ of each transformation"), ("traceback filter", C + "traceback_util.py")])
