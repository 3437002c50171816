NOT_APPLICABLE = {}
claim("D01", "All loops of the generic reservoir are proved for unbounded histories; the native (C++) packed reservoir and the "
             "packed ready buffer are covered by a bounded equivalence check against the proved generic form.")
claim("D02", "Range, rejection and permutation are proved for all bounds and lengths, stream equality for all keys; the numpy-vectorized "
             "forms and gross bias are bounded checks. blake2b is an uninterpreted function.")
claim("D03", "Geometry, rank slices and sampler partition are proved for all sizes; file assignment for every number and size of files "
             "and world sizes 1-4 (larger worlds and map-style evaluation planning: bounded). torch.randperm is a trusted permutation.")
claim("D09", "Every operation of the sampler is proved against its position invariant for all states; whole histories are replayed "
             "against a reference in the bounded layer. torch.randperm is trusted.")
claim("D04", "next_batch and the refill are proved for all source histories, shapes and sizes in every storage form (object, zero-resident, "
             "packed; one shape or many; replicated or rank-sharded) against the reservoir contract of D01; the packed block containers and "
             "whole epochs are replayed in the bounded layer.")
claim("D05", "Position, stage, commit, rollback, save and restore are proved for all states of the planner and every well- or ill-formed saved "
             "state; whole consume/commit/abandon/crash/restore histories over all real sources and pipelines are replayed against an "
             "uninterrupted reference in the bounded layer. Digests and pickled blobs are uninterpreted.")
claim("D06", "Enumeration, ID resolution, cursors, row/ID mapping of object and packed batches are proved for any number and size of files "
             "(sampling by an uninterpreted admission predicate); the numpy gather of the decoders and file parsing are replayed over real "
             "files in the bounded layer.")
claim("D07", "next_envelope, the turn/quantum schedule, save/restore and materialize_batch are proved for any number and length of files, entries "
             "and subrecords, streams and quanta (format callbacks and the file's own contents by contract); the complete schedule is "
             "replayed against an independent interleaver over toy and real binary files in the bounded layer.")
claim("D08", "The schedule is proved for any number of children and any weights; filling, delivery, attribution and materialization for arbitrary "
             "child histories with one watched child (save/restore: two children, three pending records); whole merges over toy and real children, "
             "saved at every record, and the blend-ratio arithmetic are replayed in the bounded layer.")
claim("D11", "The prefetching and the synchronous reader are proved for every epoch length, depth, worker count and completion order (a future's "
             "result is the decoded chunk or an error, whenever it comes), with the planner and source by contract; forced completion orders, "
             "failing batches and abandoned readers run on real threads in the bounded layer. The CUDA stream prefetcher needs a GPU and is out of reach.")
claim("C12", "Publishing one file, the writer's submit/write/flush for any number of payloads, staging, the trainer's commit order and its failure "
             "paths are proved with every write and every step allowed to fail; whole saves of the real trainer are stopped before every "
             "file-system operation, and writer histories run on real threads, in the bounded layer. os.replace/os.link atomicity is trusted; "
             "CUDA stream ordering is checked only as the sequence of calls.")
claim("C13", "The scan, the choice of kept states, the protection of their runtime files and every removal are proved for any directory listing and "
             "any limit (1-3 ranks), the latest-file choice for any listing; validators and sorting by contract. Real run directories and "
             "hand-made ones are pruned and compared with an independent description in the bounded layer.")
claim("C14", "One step is proved for every number of accumulated micro-batches, optimizers, schedules and metrics with every collaborator allowed to "
             "fail; fetching, phase errors, the finite checks and their queue by cases (1-2 ranks); the loop for any number of steps and any interval "
             "settings, interrupts between steps included. accelerate is trusted to synchronise gradients on each last micro-batch. Real runs are "
             "compared with a hand-made reference, failed at every position and interrupted at every line in the bounded layer.")
claim("L18", "Class invariant (file followed by buffer is everything written) proved for every operation from any split and any byte content, the "
             "file below allowed to refuse; histories, real files and whole TensorBoard event files are replayed in the bounded layer.")
claim("S16", "Masks, selections, version packing and the header are proved for any list of rules and sizes (one watched mask bit, any repetition) and any "
             "hashes and description; bit fields as bit vectors with no-overflow obligations. UTF-8 and file output by contract; whole exports "
             "(raw, lz4, ONNX) and every registered serializer's stamp are read back in the bounded layer.")
claim("S15", "The group, the agreement of moves and arrays, and whole samples are proved for every board size (array contract: a shape of terms and an index "
             "function; 2- to 4-dimensional), batches and the vectorised reader for any number of rows. numpy's index equations are trusted. Every reader is "
             "run with and without augmentation and compared cell by cell in the bounded layer.")
claim("B20", "Record framing, field decoding, group structure, board replay and targets are proved for any stream content, size, number of moves and groups "
             "(bit ranges of the stream as uninterpreted numbers, field places measured from the declared ctypes fields on every run). ctypes, lz4 and buffered "
             "streams are trusted; encoded files, plain and compressed, are read by the real datasets against an independent replay in the bounded layer.")
claim("D10", "Accumulators, every finalizer and the trainer's reduction and averaging are proved over the reals for any ranks; the producers for every "
             "configuration with rows as uninterpreted terms (a statistic is a sum over exactly the real rows). Rounding is out of the proof; quantizers' internal "
             "sums and whole evaluations of the real trainer on 1-3 ranks are compared with one numpy pass in the bounded layer.")
claim("F19", "Structural induction: the evaluator is run one level deep on a node of every class of the ast module, its recursive calls answered by its own contract (any value a "
             "sub-expression may have; ghost arrays of any shape and type); comparison chains, nesting and fields of any number by loop invariants. ast and numpy are trusted; random expressions, "
             "forbidden constructs and real filtered datasets are compared with numpy in the bounded layer.")
claim("O17", "The partition, added groups, rate copying, stepping, saving and loading are proved for any number of members, groups and parameters over "
             "torch's Optimizer contract; chains of real torch optimizers are compared parameter by parameter with single ones in the bounded layer.")
claim("W22", "Loop invariants over any number of models, groups and parameters with one watched cell of one parameter (real arithmetic; tensors with 1, 2 and 4 axes; a parameter in at most one group, no virtual parameter clipped "
             "itself), the start of a training step up to its first forward. Rounding, broadcasting and whole real runs in the bounded layer.")
claim("R21", "Saving then resuming is the identity on every component (1-3 ranks, both kinds of position, CPU and CUDA, 1-2 models and optimizers), and an arbitrary saved state (every key present or not, every value "
             "arbitrary) is accepted only if it fits; entries of 1-3 ranks with digests as collision-free functions; file contents of any length and number. Quantizers' own files by contract. Real runs are stopped, "
             "resumed and compared bit for bit, and settings, files and states changed one at a time, in the bounded layer.")
