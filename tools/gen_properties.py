"""Writes /verif/properties.jsonl (the list is maintained here)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [
                  {"name": n, "where": w} for n, w in mech]}})


NOTEST = "The existing tests never exercise this part; "

prop("D01", "The streaming shuffle loses, duplicates and over-buffers nothing",
     "Whatever sequence of items is offered, one at a time or in chunks, to the bounded shuffle reservoir (generic or packed "
     "record-ID form), every item comes out exactly once by the time it has been drained, occupancy never exceeds the "
     "configured capacity, and resident bytes always equal the sum of the resident item sizes and never exceed the byte limit. "
     "Chunked and packed offers emit exactly what the same single offers emit. A snapshot restored into an equally configured "
     "reservoir continues exactly like the original, and a snapshot with inconsistent counters or another configuration is refused.",
     ["histories", "inputs"], "all capacities, byte limits, item sizes, chunkings and offer/snapshot/restore/drain histories",
     NOTEST + "a sampled history cannot cover all eviction orders, sizes and snapshot points.",
     ["dataset/shuffle.py", "dataset/packed.py", "dataset/planner_cpp/packed_shuffle.cpp"],
     [("StreamingShuffleReservoir", "dataset/shuffle.py"), ("PackedUInt64ShuffleReservoir", "dataset/packed.py"),
      ("PackedUInt64ReadyBuffer", "dataset/packed.py")])

prop("D02", "Dataset randomness is a pure, in-range, unbiased function of its key",
     "Every draw below n made by the dataset random generator lies in [0, n), uses rejection so that no residue is favoured, "
     "and depends only on (seed, domain, key, counter); the returned counter is exactly one past the last block consumed. "
     "The permutation it derives is a permutation of range(n), admission accepts everything at rate 1 and nothing at rate 0 and is "
     "monotone in the rate, and the accelerated batch forms return exactly what the one-key form returns for each key.",
     ["inputs"], "all bounds n, seeds, domains, keys, counters and sampling rates",
     NOTEST + "no finite sample of bounds and keys shows range, unbiasedness and batch equivalence.",
     ["dataset/core.py"],
     [("uniform_below / _uniform_below_from_base", "dataset/core.py"), ("deterministic_permutation", "dataset/core.py"),
      ("sample_is_admitted", "dataset/core.py"), ("_uniform_below_for_processed_sample_keys", "dataset/core.py")])

prop("D03", "Ranks share every global batch without gap or overlap",
     "For every legal batch geometry, the per-rank slices of a global batch are equal in size, pairwise disjoint and together "
     "cover it, and illegal geometries (local batch times world size differing from the global batch, rank out of range, "
     "non-positive sizes, unknown mode, seed outside 64 bits) are refused. Map-style samplers of all ranks draw from one shared "
     "permutation and never hand the same index to two ranks, and files of unknown-length streams are assigned to exactly one rank each.",
     ["configurations", "inputs"], "all world sizes, ranks, batch sizes, dataset lengths, seeds, epochs and file size vectors",
     NOTEST + "the tests run one process with one geometry.",
     ["dataset/core.py", "utils/training_utils.py", "dataset/sequential_source.py"],
     [("DatasetRuntimeContext / RankLocalIdentity", "dataset/core.py"),
      ("ResumableSampler", "utils/training_utils.py"), ("rank file assignment", "dataset/sequential_source.py")])

prop("D04", "Batch planning uses every admitted record once, in shape-pure full batches",
     "In a pass over a record source the planner puts every admitted record into at most one batch, all records of a batch have "
     "the same shape and every batch has exactly the configured global size. Training omits only the incomplete remainder of each "
     "shape; without a step budget evaluation omits nothing and pads each incomplete batch to full size with copies flagged as not real, "
     "so the real rows are exactly the admitted records. Shape queues stay within the configured bound, and a step budget of n ends the "
     "epoch after n batches (earlier only when a source that is not restarted runs out), flagging the n-th as last.",
     ["inputs", "configurations", "histories"], "all record sequences, shapes, batch sizes, world sizes, sampling rates and shuffle windows",
     NOTEST + "conservation must hold for every interleaving of shapes and every batch size.",
     ["dataset/planner.py"], [("DatasetPlanner", "dataset/planner.py")])

prop("D05", "Resume continues exactly after the last committed batch",
     "For every resumable stream, restoring the state of any committed boundary into a freshly built identical stream yields exactly "
     "the batches the uninterrupted stream would have yielded next, with the same sample keys and augmentation keys. Batches that were "
     "planned or prefetched but not committed are produced again, rollback returns to the last committed boundary, and a state of "
     "another source, geometry, configuration or version is refused before anything changes.",
     ["histories", "crash_points"], "all cut points, prefetch depths, shuffle windows, sources and sequences of stage/commit/rollback",
     NOTEST + "a crash may come between any two operations, and the tests never stop and resume a stream.",
     ["dataset/planner.py", "dataset/stream.py", "dataset/source_dataset.py"],
     [("DatasetPlanner state/restore", "dataset/planner.py"), ("stream transactions", "dataset/stream.py")])

prop("D06", "NPZ record identity is a bijection onto file rows",
     "Over any set of NPZ files, the random-access source enumerates each admitted logical row exactly once per pass and resolves each "
     "record ID to the one file and row it stands for, so materialising a batch returns for every record the fields stored in that "
     "row, in planner order, whatever the grouping by file. Restoring a cursor continues at the next record.",
     ["inputs", "histories"], "all file counts, row counts (including empty files), batch compositions and cursor positions",
     NOTEST + "no test reads a dataset file.",
     ["dataset/npz_source.py", "dataset/decoder.py"],
     [("Dense/Indexed NPZ sources", "dataset/npz_source.py"), ("ProcessedNpzDecoder", "dataset/decoder.py")])

prop("D07", "Sequential interleaving reads every entry once in a timing-free order",
     "A sequential binary source reads each entry of each of its files exactly once per cycle, in file order within a file, with at most "
     "the configured number of open readers and at most the configured quantum of entries before it rotates to the next reader. "
     "The order depends only on seed, epoch, cycle and the files, and restoring a cursor continues with the very next entry.",
     ["inputs", "histories", "configurations"], "all file sets, file lengths, active-stream and quantum settings and cursor positions",
     NOTEST + "no test opens a binary stream.",
     ["dataset/sequential_source.py"], [("SequentialRecordSource", "dataset/sequential_source.py")])

prop("D08", "A composite stream follows its integer source ratio exactly",
     "A weighted composite of sources draws from its children in a deterministic cyclic schedule in which every complete cycle contains each "
     "child exactly in proportion to its weight; synchronised composites emit only complete cycles and stop when the next one cannot "
     "be satisfied. Every emitted record is attributed to the child it came from and no child record is skipped or repeated, also across resume.",
     ["configurations", "histories"], "all child counts, weights, child lengths and cut points",
     NOTEST + "no test builds a composite.",
     ["dataset/composite_source.py"], [("CompositeRecordSource", "dataset/composite_source.py")])

prop("D09", "The map-style sampler commits and resumes exactly the consumed batches",
     "The resumable sampler advances its position only by committed batches, in the order they were yielded and without gaps; a failed or "
     "abandoned iteration rolls back to the last commit. A fresh sampler that loads a saved state yields exactly the indices not yet "
     "committed of the current epoch and then the same later epochs, and out-of-order commits and foreign states are refused.",
     ["histories", "crash_points"], "all dataset lengths, batch sizes, world sizes, and stage/commit/rollback/save/load histories",
     NOTEST + "the tests never resume a loader.",
     ["utils/training_utils.py"], [("ResumableSampler", "utils/training_utils.py")])

prop("D10", "Evaluation totals do not depend on how rows were split or padded",
     "Sum-and-count, maximum and sufficient-statistic accumulators combine associatively and commutatively, so evaluation-wide totals are the same for every "
     "grouping and order of their parts. The value of a global batch is that of one pass over its real rows however they are laid out over the ranks, a reported "
     "loss or mean is the average of these values over the global batches, and a planned map-style evaluation covers every record exactly once as a real row. "
     "Rows flagged as padding, and batches a rank merely replays, contribute to neither sums nor counts whatever they hold. A statistic without real rows is an "
     "error, never a division by zero or a number taken from padding.",
     ["inputs", "configurations"], "all values, masks, partitions and orders (over the reals)",
     NOTEST + "the tests train but never evaluate.",
     ["dataset/core.py", "trainer/loss/supervised.py", "trainer/metric/supervised.py", "trainer/base.py", "dataset/stream.py"],
     [("SumCount, Maximum, SufficientStats, FINALIZERS", "dataset/core.py"), ("compute_supervised_loss_statistics", "trainer/loss/supervised.py"),
      ("compute_supervised_metric_statistics", "trainer/metric/supervised.py"),
      ("_finalize_masked_global_batch, _gather_averaged_metrics, _validate, test", "trainer/base.py"), ("EvaluationBatchPlannerDataset", "dataset/stream.py")])

prop("D11", "Prefetching never changes the order or content of batches",
     "Whatever the order in which decode workers finish, batches are published in planning order, each exactly once, and at most the configured "
     "number of batches is submitted but unpublished. A failing worker surfaces its error in planning order: after all "
     "batches submitted in earlier chunks were published and before any later batch, and nothing planned but unpublished counts as consumed.",
     ["schedules", "fault_sequences"], "all completion orders, prefetch depths, chunk sizes and failing positions",
     NOTEST + "thread timing is not controlled by any test.",
     ["dataset/source_dataset.py"], [("SourceBatchDataset", "dataset/source_dataset.py")])

prop("C12", "A checkpoint becomes visible only when complete",
     "Checkpoint files are written so that an interruption at any point leaves either the previous complete file or the new complete file under the final name, "
     "and a resumable state is published only after the model file it refers to. The background writer writes payloads in submission order, never overlaps two "
     "jobs, runs the completion hook only after every payload was written, and reports a failed write to the caller at the next submission or flush.",
     ["crash_points", "fault_sequences", "histories"], "all interruption points, failing writes and submission sequences",
     NOTEST + "no test interrupts a write.",
     ["utils/async_checkpoint.py", "utils/file_utils.py", "trainer/base.py"],
     [("AsyncCheckpointWriter", "utils/async_checkpoint.py"), ("save_torch_ckpt", "utils/file_utils.py"),
      ("_save_checkpoint", "trainer/base.py")])

prop("C13", "Pruning and latest-checkpoint selection never lose the resume point",
     "The checkpoint chosen for resuming is the one with the numerically largest iteration. Pruning keeps the newest configured number of resumable states together "
     "with every file they need, deletes only superseded states and temporary snapshots that no kept state refers to, with a limit of one or more never deletes the newest one, and a negative limit keeps all.",
     ["inputs", "configurations"], "all directory contents, iteration numbers and retention settings",
     NOTEST + "no test prunes a run directory.",
     ["utils/file_utils.py", "trainer/base.py"],
     [("find_latest_ckpt / get_iteration_from_ckpt_filename", "utils/file_utils.py"), ("_cleanup_checkpoints", "trainer/base.py")])

prop("C14", "Data is committed exactly with the optimizer step that used it",
     "A training step commits the batches it consumed if and only if its optimizer step succeeded, performs exactly one optimizer step per training step whatever the number of accumulated "
     "micro-batches, also where an epoch ends inside the step, and averages gradients and losses over them, the gradients scaled by one factor so that their norm over all parameters stays within the configured limit; the metrics a run logs are the means, over ranks and over the steps since they were last reported, of those losses. If anything fails earlier, the iteration and row counters, the epoch and the committed data "
     "position are those of the last successful step. A state is saved, even after an interrupt, only when every step in it is complete and was found finite.",
     ["fault_sequences", "histories", "configurations"], "all failing positions inside a step, accumulation factors and step sequences",
     NOTEST + "the tests never make a step fail.",
     ["trainer/base.py", "utils/training_utils.py", "utils/misc_utils.py"], [("run / _run_train_step", "trainer/base.py"), ("gradient clipping", "utils/training_utils.py"), ("sums of metrics", "utils/misc_utils.py")])

prop("S15", "Board symmetries form a group and move all fields of a sample together",
     "For every board size, applying one of the eight symmetries to a position moves every cell where the symmetry's documentation says and to the same place as it moves the "
     "matching cell of every board-shaped array; no two cells collide and a pass stays a pass. Each symmetry has an inverse among the eight, composing two gives another, and only "
     "size-preserving symmetries are offered for or accepted on rectangular boards. Augmenting a sample (alone, in a batch, or in any reader) moves its board planes, sparse features, "
     "policy target (a plane, or flat with a pass entry last) and recorded moves by one and the same symmetry of its own board, before any padding, and changes no other field and "
     "not the stored sample.",
     ["inputs"], "all board sizes, cells, pairs of symmetries, samples and batches",
     NOTEST + "the tests use synthetic batches without augmentation.",
     ["utils/data_utils.py", "dataset/decoder.py", "dataset/simple_binary.py", "dataset/packed_binary.py", "dataset/katago.py", "dataset/sparse_numpy.py"],
     [("Symmetry", "utils/data_utils.py"), ("SamplePostProcessor", "utils/data_utils.py"), ("_post_process_vectorized", "dataset/decoder.py"),
      ("materialize_entry", "dataset/simple_binary.py")])

prop("S16", "Export headers encode rules and board sizes losslessly",
     "For every selection of rules and board sizes, the exported engine header holds a bit mask in which exactly the selected rules and board sizes are set, followed by the description with its exact "
     "byte length, all little-endian in the documented order. The ONNX version number packs format version, rules and board sizes so that unpacking returns exactly what was packed, and unknown rules or sizes are refused. "
     "A weight export that fails leaves the previous weight file as it was.",
     ["inputs"], "all rule and board-size selections, architecture hashes, descriptions and version fields",
     NOTEST + "no test exports a network.",
     ["model/serialization/__init__.py", "export.py"],
     [("rules_to_mask / boardsizes_to_mask / build_serializer", "model/serialization/__init__.py"),
      ("make_onnx_model_version / parse_onnx_model_version", "export.py")])

prop("O17", "Every parameter is optimized by exactly one optimizer of a chain",
     "A chained optimizer gives every parameter to exactly the first member whose filter accepts it and leaves none out silently; a step evaluates the closure once, steps every member once, and passes "
     "the scheduled learning rate to every member. Saving and loading its state restores every member's state, and a state whose members differ in number or size is refused.",
     ["inputs", "configurations"], "all parameter lists, filters, member lists and state sequences",
     NOTEST + "the tests use single optimizers only.",
     ["utils/chained_optimizer.py"], [("ChainedOptimizer", "utils/chained_optimizer.py")])

prop("L18", "Buffered event logging writes the exact byte stream",
     "Whatever the sizes of the writes and wherever flushes and closes fall, the bytes that reach the event file are the concatenation of everything written, in order, nothing lost or repeated, "
     "and everything written is in the file after a flush or close. A write that the file below refuses loses none of the bytes accepted before it.",
     ["histories", "inputs"], "all sequences of writes, flushes and close and all buffer sizes",
     "A few fixed sequences are tested; the property is over all of them.",
     ["utils/tb_writer.py"], [("_BufferedFileLike", "utils/tb_writer.py")])

prop("R21", "A resumed run continues exactly as if it had not stopped",
     "A resumed run has exactly the model parameters and buffers, optimizer and schedule states, learning rates, gradient scaler, iteration, row and epoch counters, random generator states and data position of the run "
     "that saved it, so on the same machine its further steps are bit for bit those of the uninterrupted run, on every rank. It continues from the newest saved state. "
     "A state is refused before any step if its optimizer, schedule or data settings, data files, number of ranks, format or iteration differ from the run's, if its per-rank entries are not one intact, mutually consistent entry "
     "for each rank, if its model files are missing or of another iteration, or if its quantizer states are missing or damaged (states of earlier formats, which carry less, are outside this).",
     ["inputs", "histories", "crash_points"], "all runs, stopping points and saved states",
     NOTEST + "a forgotten piece of state shows only after a stop at the point where it matters, in whatever uses it next.",
     ["trainer/base.py", "utils/training_utils.py"], [("training state and per-rank entries", "trainer/base.py"), ("loaders and the map-style position", "utils/training_utils.py")])

prop("W22", "Training only computes with weights inside their declared ranges",
     "In every forward pass of training each parameter of a model's declared clipping groups lies within its group's range, or, where the group names a virtual parameter, the sum with the virtual parameter tiled over it does (up to rounding). "
     "Clipping leaves every value already in range and every parameter not in such a group unchanged, and moves any other value to the nearer end of its range. "
     "This holds for all models of a run, any number of groups and parameters, and any number of accumulated micro-batches; a group whose virtual parameters do not match its parameters in number is refused.",
     ["inputs", "histories"], "all weights, declarations and steps",
     NOTEST + "a weight outside the range its integer export assumes overflows only in some positions of some nets.",
     ["utils/training_utils.py", "trainer/base.py"], [("clipping", "utils/training_utils.py"), ("step and setup", "trainer/base.py")])

prop("F19", "Filter conditions only compute on the fields and select exactly those samples",
     "A filter condition is evaluated only if it is built from field names, numeric literals, arithmetic (literal exponents 0 to 8), comparisons, bitwise and unary operators, subscripts by literal integers, "
     "lists and slices, and calls of the six documented functions (also as np.<name>) with exactly their operands and no keywords; every other construct is an error, as is anything beyond the documented limits "
     "(bytes, nodes, nesting, literal items, 64-bit integers, entries and bytes of an intermediate result), and evaluating a condition changes no field. "
     "An accepted condition has the value numpy gives the same expression (a chained comparison is the conjunction of its links) and is a boolean vector with one entry per sample, otherwise it is an error. "
     "Filtering keeps in every field exactly the samples whose entry is true, in order.",
     ["programs", "inputs"], "all expressions and all field values, types and shapes",
     NOTEST + "the set of expressions is infinite, and each combines syntax, types and shapes.",
     ["dataset/filter.py", "utils/data_utils.py"], [("filter evaluator", "dataset/filter.py"), ("row filter", "utils/data_utils.py")])

prop("B20", "Binary game records decode to exactly what was encoded",
     "Decoding a well-formed binary training record yields the board size, rule, result, move list and evaluations packed in its bit fields, for every field value, and a sample shows the stones and "
     "the side to move (black moves first) at that point of the game, the result for that side and the move to predict. Truncated records, records with undefined rules or results, move groups without their first move and "
     "moves outside the board are reported as errors instead of yielding samples, and reading resumes exactly at the following record.",
     ["inputs"], "all field values, move counts and truncation points",
     NOTEST + "no test reads a binary record.",
     ["dataset/simple_binary.py", "dataset/packed_binary.py"],
     [("simple binary decoder", "dataset/simple_binary.py"), ("packed binary decoder", "dataset/packed_binary.py")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len([s for s in p["statement"].split(". ") if s]) <= 4, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
