PROPS = []
NA = []


def P(id, title, statement, over, forall, why, files, mech, technique, note):
    PROPS.append(
        dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files, mech=mech,
             technique=technique, note=note)
    )


def N(id, title, statement, over, forall, why, files, mech, reason):
    NA.append(
        dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files, mech=mech,
             reason=reason)
    )


P(
    "C01",
    "Persistent files appear under their final name only when complete",
    "Model checkpoints, optimizer states, the score/learning-rate file, HDF dumps and cached file copies appear under "
    "their final name only by an atomic rename, in the same directory, of a temporary file that was completely written "
    "and closed. A crash or error at any point of writing never leaves a partial file under the final name, and the "
    "previous good version is not removed before its replacement is in place.",
    ["crash_points", "fault_sequences", "configurations"],
    "every point at which the process can die or a write can raise while a persistent file is produced",
    "Tests write and read back files without crashing in between; the state left by a crash or an exception at each "
    "point of the write is not sampled.",
    ["returnn/torch/engine.py", "returnn/torch/updater.py", "returnn/learning_rate_control.py", "returnn/datasets/hdf.py", "returnn/util/file_cache.py"],
    [("write to temporary file, then rename", "returnn/torch/engine.py:Engine._save_model"),
     ("write to temporary file, then rename", "returnn/torch/updater.py:Updater.save_optimizer"),
     ("write to temporary file, then rename", "returnn/learning_rate_control.py:LearningRateControl.save"),
     ("rename on close", "returnn/datasets/hdf.py:SimpleHDFWriter.close"),
     ("copy to temporary file, then rename", "returnn/util/file_cache.py:FileCache.get_file")],
    "path-sensitive typestate analysis of file paths over interprocedural CFGs incl. exception edges",
    "All CFG paths (including exception edges of every call) from the persisting entry points are explored over a "
    "per-path file typestate; assumes rename within a directory is atomic and no aliasing of path strings beyond term "
    "equality.",
)
P(
    "C02",
    "Crash-consistent order of end-of-epoch persistence",
    "In PyTorch training, when an epoch finishes, its scores are stored in the score file before the model checkpoint of that epoch is "
    "published, and the checkpoint is published before its optimizer state. Checkpoints and optimizer states of older "
    "epochs are deleted only after those of the newer epoch have been published, so that after a crash at any point a "
    "restart finds a usable state.",
    ["crash_points", "configurations"],
    "every crash point and every configuration path through the end of an epoch",
    "The order only matters when the process dies between two of the steps; tests always run to the end.",
    ["returnn/torch/engine.py", "returnn/torch/updater.py", "returnn/learning_rate_control.py", "returnn/engine/base.py"],
    [("order of save calls", "returnn/torch/engine.py:Engine.train_epoch"),
     ("deletion of outdated optimizer state", "returnn/torch/engine.py:Engine._save_optimizer"),
     ("cleanup after saving", "returnn/torch/engine.py:Engine.train_epoch")],
    "event-order automaton over the interprocedural CFG of the epoch driver",
    "Order automaton run over all CFG paths of the epoch driver with callees inlined.",
)
P(
    "C03",
    "A checkpoint restores everything that was saved, or loading fails",
    "Everything stored in a model checkpoint or optimizer-state file that training state depends on (parameters, "
    "optimizer state, epoch, global step) is read back under the same name and with the same meaning when training is "
    "resumed. Parameters that the model needs but that the checkpoint lacks, and optimizer states that do not belong to "
    "the current parameters, are reported as an error or explicitly handled, never silently ignored.",
    ["histories", "configurations", "inputs"],
    "every saved file and every later process that resumes from it",
    "Tests resume a few toy models; the writer/reader agreement for every stored entry and every mismatch path is not sampled.",
    ["returnn/torch/engine.py", "returnn/torch/updater.py"],
    [("checkpoint payload", "returnn/torch/engine.py:Engine._save_model"),
     ("checkpoint loading", "returnn/torch/engine.py:Engine._load_model"),
     ("optimizer state", "returnn/torch/updater.py:Updater.load_optimizer")],
    "writer/reader key agreement and must-reach dataflow over the checkpoint payload",
    "Decides agreement of the stored and loaded entries and the error paths; numeric equality of tensors is torch's.",
)
P(
    "C04",
    "Only the designated process writes or deletes training artifacts",
    "In distributed training (horovod or torch distributed) only rank 0 writes or deletes checkpoints, optimizer states, "
    "score files and learning-rate files; a dry run or a meta-device run writes and deletes none of them.",
    ["configurations", "schedules"],
    "every rank, every distribution mode, dry run on/off, and every path by which training persists or deletes files",
    "Tests run a single process with the write permission on; no test observes the file effects of a rank other than 0.",
    ["returnn/torch/engine.py", "returnn/engine/base.py", "returnn/util/basic.py", "returnn/tf/engine.py"],
    [("write permission", "returnn/util/basic.py:should_write_to_disk"),
     ("engine-level guard", "returnn/torch/engine.py:Engine._do_save")],
    "guard-dominance analysis: each file effect reachable from training is dominated by the write-permission test",
    "File effects are a fixed list of writing/deleting calls; guard evaluated path-sensitively, also inside the "
    "permission function.",
)
P(
    "C05",
    "Checkpoint cleanup never deletes what the configuration says to keep",
    "Automatic checkpoint cleanup deletes only epochs that exist on disk and are outside the keep set, which always "
    "includes the explicitly configured epochs, the configured last epochs, and the best epochs of every recorded score; "
    "in dry-run mode it deletes nothing.",
    ["histories", "configurations"],
    "every score history, set of existing checkpoints and keep configuration",
    "Tests use one or two fixed histories; retention must hold for every combination of scores and settings.",
    ["returnn/engine/base.py"],
    [("keep set", "returnn/engine/base.py:EngineBase.cleanup_old_models")],
    "set-provenance dataflow: deleted = existing minus keep; keep only grows",
    "Decides the set algebra and the guards; ranking quality of scores is not decided.",
)
P(
    "C06",
    "Score/learning-rate history survives a restart unchanged",
    "Every per-epoch field that is kept about scores and learning rates is written to the score file in a form that the "
    "reader evaluates back to the same value, including NaN and infinities. The learning rate of an epoch is determined "
    "only by the configuration and this persisted history, so a restarted run continues with the same learning rates.",
    ["histories", "inputs", "crash_points"],
    "every history of epochs, scores and restarts",
    "Tests write/read a few hand-made histories; agreement must hold for each field and each special value.",
    ["returnn/learning_rate_control.py"],
    [("writer", "returnn/learning_rate_control.py:LearningRateControl.save"),
     ("reader", "returnn/learning_rate_control.py:LearningRateControl.load")],
    "writer/reader schema agreement and effect (purity) analysis of learning-rate computation",
    "Decides field/namespace agreement and absence of non-persisted inputs; assumes repr/eval round-trips floats.",
)
P(
    "C07",
    "File locks are exclusive and always released",
    "At most one process at a time holds a given lock file: acquisition succeeds only by atomically creating the file, "
    "and a lock file of somebody else is removed only after it was found older than the configured timeout. A held lock is "
    "released on every way out of the protected region, including exceptions, and only the holder releases it.",
    ["schedules", "crash_points", "fault_sequences"],
    "every interleaving of competing processes and every exception in the protected region",
    "The tests use one process; the races and the exceptional exits are not sampled.",
    ["returnn/util/basic.py"],
    [("lock", "returnn/util/basic.py:LockFile")],
    "typestate + guard-dominance analysis of the lock protocol, and lock-scope check at all users",
    "Assumes O_CREAT|O_EXCL is atomic on the file system; clock comparisons are not verified.",
)
P(
    "C08",
    "The file cache only hands out complete, current copies under its lock",
    "A cached copy is created only while holding the lock of its destination, after re-checking under that lock that it "
    "is still needed, and counts as valid only if both size and modification time recorded before copying match the "
    "source. Copies that are in use are kept alive, cleanup deletes only files that are not recently used, and a "
    "failed attempt is retried or reported, never returned as if it had succeeded.",
    ["schedules", "fault_sequences", "histories"],
    "every interleaving of processes sharing the cache and every failing copy",
    "Tests exercise the cache from one process with small files and no contention.",
    ["returnn/util/file_cache.py"],
    [("cache", "returnn/util/file_cache.py:FileCache.get_file"), ("validity", "returnn/util/file_cache.py:FileCache._check_existing_copied_file_maybe_cleanup")],
    "lock-scope, check-then-act and return-value provenance analysis over interprocedural CFGs",
    "Decides lock scope, re-check, validity conditions and error flow; actual disk-space arithmetic is not decided.",
)
P(
    "C09",
    "Compiled native code always matches its source, options and environment",
    "A cached compiled library is used only if its file exists, the recorded build key (code version and hash, macro "
    "definitions, linker flags, compiler, platform, ABI flag, and for the backend-specific compilers the library/Python "
    "version) equals the current one and no declared dependency file is newer; otherwise it is rebuilt. Building happens "
    "under the lock of its cache entry after re-checking, no valid record exists while the library is being rewritten, "
    "and the record is published atomically only after compilation succeeded.",
    ["schedules", "crash_points", "histories", "configurations"],
    "every history of cache contents, crashes during compilation and competing processes",
    "Tests compile once per process; stale or interrupted cache entries and races are not sampled.",
    ["returnn/util/native_code_compiler.py"],
    [("recompile decision", "returnn/util/native_code_compiler.py:NativeCodeCompiler._need_recompile"),
     ("compile", "returnn/util/native_code_compiler.py:NativeCodeCompiler._maybe_compile_inner")],
    "order/lock-scope automaton and key-provenance dataflow",
    "Decides decision structure, ordering and which inputs reach the key; not the compiler's own determinism.",
)
P(
    "C10",
    "Data order is a deterministic function of configuration and epoch",
    "The sequence order, sampling and augmentation a dataset produces for an epoch depends only on configuration, data "
    "and epoch number: every random choice comes from a generator seeded from these, re-seeded at the start of the "
    "epoch, and never from global or unseeded random state, time, process ids, object hashes or set iteration order.",
    ["histories", "configurations", "schedules"],
    "every epoch, every restart point and every process",
    "Tests compare orders within one process; dependence on hash seeds, process state or earlier epochs shows only "
    "across processes and restarts.",
    ["returnn/datasets"],
    [("seeding", "returnn/datasets/basic.py:Dataset._get_random_seed_for_epoch"),
     ("ordering", "returnn/datasets/basic.py:Dataset.get_seq_order_for_epoch")],
    "nondeterminism-source taint and generator-seeding dataflow over all datasets",
    "Sources of nondeterminism are an explicit list (random modules, time, hash, id, set iteration, os listing order).",
)
P(
    "C11",
    "Datasets can be recreated from their pickled form",
    "Every dataset object can be pickled and recreated in another process such that the copy was constructed with the "
    "same arguments: each constructor argument of every dataset class is recoverable from the object.",
    ["configurations", "programs"],
    "every dataset class and every combination of constructor arguments",
    "Only a few datasets are pickled in tests, with default arguments.",
    ["returnn/datasets"],
    [("reduce", "returnn/datasets/basic.py:Dataset.__reduce__")],
    "constructor-argument to attribute recoverability dataflow for every dataset class",
    "Uses the same naming protocol as the pickling code; decides that each argument is stored (or remapped), unmodified "
    "or idempotently normalised.",
)
P(
    "C12",
    "Worker-process protocols agree between parent and worker",
    "For the datasets that delegate to worker processes, every request the parent sends is understood by the worker, "
    "every request that expects an answer gets exactly one answer of the expected kind on every path, and every kind of "
    "answer the worker can send is handled by the parent; unknown messages raise an error and a closed pipe ends the worker.",
    ["schedules", "programs", "fault_sequences"],
    "every order of requests and every worker path, including errors",
    "Tests drive one fixed sequence of requests; an unanswered request appears only as a hang on other paths.",
    ["returnn/datasets/multi_proc.py", "returnn/datasets/distrib_files.py", "returnn/datasets/postprocessing.py"],
    [("worker loops", "returnn/datasets/multi_proc.py:MultiProcDataset._worker_proc_loop"),
     ("worker loop", "returnn/datasets/distrib_files.py:_worker_proc_loop")],
    "message-alphabet extraction and request/response automaton over sender and receiver CFGs",
    "Decides message kinds and reply counts per request; payload contents and timing are not decided.",
)
P(
    "C13",
    "Explicit sequence lists are honoured or rejected, never ignored",
    "When a caller asks a dataset for an explicit list or order of sequences for an epoch, each dataset either "
    "iterates exactly over it or raises an error; no dataset silently falls back to its own order.",
    ["inputs", "configurations", "programs"],
    "every dataset class, every explicit list, every other option",
    "Only a few dataset/option combinations are tested with an explicit list.",
    ["returnn/datasets"],
    [("entry", "returnn/datasets/basic.py:Dataset.init_seq_order and all overrides")],
    "path-sensitive consumption analysis of the explicit-order arguments in all overrides",
    "Each path to normal return must consume, forward or have excluded (None test / assert) the arguments.",
)
P(
    "C15",
    "Each optimizer step uses exactly the accumulated gradients of its batches",
    "In training, every optimizer step is preceded by the backward pass of each batch accumulated since the previous "
    "step, gradients are cleared exactly between steps, and the configured accumulation count decides when to step; "
    "an incomplete accumulation group at the end of an epoch never leaks into the next epoch. The "
    "global step counter advances exactly once per processed batch.",
    ["histories", "configurations"],
    "every number of batches, accumulation setting and mixed-precision setting",
    "Tests run a few steps with default settings.",
    ["returnn/torch/engine.py", "returnn/torch/updater.py"],
    [("train loop", "returnn/torch/engine.py:Engine.train_epoch"), ("optimizer step", "returnn/torch/updater.py:Updater.step")],
    "event-order automaton over the training loop CFG",
    "Decides order and guard structure; the gradient values are torch's.",
)
P(
    "C16",
    "Gradient post-processing happens in the right order, once, on real gradients",
    "Before the optimizer consumes them, gradients are unscaled (with a gradient scaler), then noise is added if "
    "configured, then they are clipped by each configured clipping, each at most once per step, and after it they are "
    "not modified any more. With a gradient scaler, the step goes through the scaler, which is updated exactly once per step.",
    ["configurations", "histories"],
    "every combination of gradient scaler, noise, clipping by value/norm/global norm and optimizer",
    "Only a few combinations are tested.",
    ["returnn/torch/updater.py", "returnn/torch/engine.py"],
    [("step", "returnn/torch/updater.py:Updater.step")],
    "event-order automaton over the updater step CFG",
    "Decides order and multiplicity of the operations on all configuration paths.",
)
P(
    "C17",
    "Evaluation and forwarding never change the model",
    "Cross-validation, evaluation and forward/search runs put the model into evaluation mode, build no gradients, and "
    "never run a backward pass or an optimizer step, whatever the configuration; training mode is set again before "
    "the next training step.",
    ["configurations", "histories"],
    "every configuration and every interleaving of training and evaluation epochs",
    "Tests do not compare parameters or mode across arbitrary training/evaluation sequences.",
    ["returnn/torch/engine.py"],
    [("eval", "returnn/torch/engine.py:Engine.eval_model"), ("forward", "returnn/torch/engine.py:Engine.forward_with_callback")],
    "mode typestate plus effect reachability over the interprocedural CFG",
    "User callbacks are assumed not to call the optimizer.",
)
P(
    "C18",
    "All ranks execute matching collective operations",
    "In distributed PyTorch runs all ranks execute the same sequence of collective operations: whether a collective is reached "
    "depends only on configuration or on values already agreed between ranks, never on rank-local data such as whether "
    "this rank's data ended.",
    ["schedules", "configurations"],
    "every assignment of data to ranks",
    "Tests cannot run several ranks with unequal data lengths for every path; a mismatch is a hang.",
    ["returnn/torch/engine.py", "returnn/torch/distributed.py", "returnn/torch/updater.py"],
    [("end-of-epoch agreement", "returnn/torch/engine.py:Engine.train_epoch"), ("parameter sync", "returnn/torch/distributed.py:DistributedContext")],
    "control-dependence analysis of collective call sites on rank-local conditions",
    "Rank-local values are an explicit list of sources; collectives an explicit list of calls.",
)
P(
    "C19",
    "Batching loses, duplicates and reorders no sequence",
    "Each pipeline stage between dataset and training step hands on every sequence it received exactly once: each item "
    "read is put in the buffer or batch or explicitly filtered by configuration, each non-empty batch is yielded exactly "
    "once before it is reset, and the rest is flushed at the end.",
    ["inputs", "configurations"],
    "every sequence of lengths and every batch limit setting",
    "Tests batch a few fixed datasets.",
    ["returnn/torch/data/pipeline.py", "returnn/torch/data/returnn_dataset_wrapper.py"],
    [("batching", "returnn/torch/data/pipeline.py:BatchingIterDataPipe.__iter__")],
    "linear-ownership (exactly-once) analysis of items over generator CFGs",
    "Decides ownership transfer of items; whether the chosen batch sizes respect limits is decided only structurally.",
)
P(
    "C20",
    "Every trainable parameter is in exactly one optimizer group",
    "When the optimizer is created, each trainable parameter of the model is assigned to exactly one parameter group, "
    "whether weight decay applies is decided for each, and per-parameter options never drop a parameter; two names of one "
    "shared parameter do not make it appear twice. The user function for weight decay is asked once per parameter with its "
    "full name, and its answer decides. Optimizer state which is loaded from a checkpoint is given to the parameter of "
    "the same name even when the parameters are now in another order, and gradient processing covers all parameters.",
    ["programs", "configurations"],
    "every model structure incl. shared parameters and every weight-decay configuration",
    "Tests build a few models; coverage of parameters must hold for all.",
    ["returnn/torch/updater.py"],
    [("groups", "returnn/torch/updater.py:Updater._get_optimizer_param_groups")],
    "exactly-once partition analysis over the grouping loop CFG",
    "Decides each loop path adds each visited parameter exactly once; torch's named_parameters enumeration is trusted.",
)
P(
    "C21",
    "Scoped global settings are restored on every exit",
    "Context managers that temporarily change global or shared state (global config, run context, default device/dtype, "
    "loop control flow context, environment variables, log streams, random state, gradient scopes) restore the "
    "previous value on every exit, normal or exceptional.",
    ["programs", "fault_sequences"],
    "every program using the scopes, every nesting and every exception in the body",
    "Tests rarely raise inside such scopes and check the state afterwards.",
    ["returnn/config.py", "returnn/frontend", "returnn/torch", "returnn/util"],
    [("scopes", "all @contextmanager functions / __enter__-__exit__ classes which write non-local state")],
    "save/restore typestate analysis over all context managers incl. exception edges",
    "Every context manager in the package that writes non-local state is found automatically.",
)
P(
    "C22",
    "Backends implement the frontend contract",
    "Every operation the frontend dispatches to a backend exists in the backend interface with parameters the call "
    "supplies, every backend override accepts all parameters of the interface with compatible names and defaults, and "
    "no option that affects the result is silently dropped on its way to the backend or within the backend.",
    ["programs", "configurations"],
    "every frontend call, every backend and every option",
    "Tests call each operation with few option combinations on one backend.",
    ["returnn/frontend", "returnn/torch/frontend/_backend.py", "returnn/tf/frontend_layers/_backend.py", "returnn/tf/frontend_low_level/_backend.py", "returnn/frontend/_numpy_backend.py"],
    [("interface", "returnn/frontend/_backend.py:Backend")],
    "signature-conformance and argument-flow analysis over all dispatch sites and overrides",
    "Decides interface conformance and use of options, not numeric agreement.",
)
P(
    "C24",
    "HDF writer and reader agree on the file layout",
    "Everything the HDF writer stores is stored under the names, shapes and attribute conventions which the HDF reader "
    "uses, for every stream: what the reader needs is always written, sequence order, lengths and tags stay aligned "
    "with the data, and closing the writer writes all bookkeeping entries.",
    ["inputs", "configurations", "histories"],
    "every set of streams and every sequence of insertions",
    "Tests round-trip a handful of layouts.",
    ["returnn/datasets/hdf.py"],
    [("writer", "returnn/datasets/hdf.py:SimpleHDFWriter"), ("reader", "returnn/datasets/hdf.py:HDFDataset")],
    "writer/reader schema extraction and comparison; must-write analysis",
    "Decides names/attributes and update completeness per inserted sequence; not the stored numeric values.",
)
P(
    "C25",
    "Forward callbacks see every sequence exactly once, between init and finish",
    "In a forward run the user callback is initialised exactly once before, called exactly once for each sequence of "
    "each batch, with that sequence's outputs only, and finished exactly once after all sequences; all of this in order.",
    ["inputs", "configurations"],
    "every dataset, batch composition and model output set",
    "Tests run one or two small forward jobs.",
    ["returnn/torch/engine.py"],
    [("forward loop", "returnn/torch/engine.py:Engine.forward_with_callback")],
    "callback typestate automaton over the forward loop CFG",
    "Decides call order and multiplicity per loop structure.",
)
P(
    "C26",
    "A non-finite training score never gets persisted as progress",
    "If a training loss becomes non-finite (and the user did not disable this check), training stops with an error before "
    "any later score, checkpoint or optimizer state is written, and the process does not report success.",
    ["inputs", "histories", "configurations"],
    "every step at which a loss can become non-finite",
    "Tests do not diverge at arbitrary steps.",
    ["returnn/torch/engine.py"],
    [("check", "returnn/torch/engine.py:Engine.train_epoch")],
    "must-check and error-propagation analysis over the training loop CFG",
    "Decides that each step passes the check and that the error cannot be swallowed.",
)
N(
    "C50",
    "All backends compute the same numbers",
    "For every frontend operation and all inputs, all backends produce numerically equal results up to rounding.",
    ["inputs", "programs"], "every operation and input tensor", "Tests sample a few shapes.",
    ["returnn/frontend", "returnn/torch/frontend", "returnn/tf/frontend_layers"], [("backends", "returnn/frontend/_backend.py")],
    "equality of numeric results over runtime tensors; no sound static argument in reach bounds it",
)
N(
    "C51",
    "Native ops compute the specified recurrences",
    "The native LSTM, CTC/Baum-Welch and related ops compute forward and backward results equal to their mathematical definition.",
    ["inputs"], "every input", "Tests sample inputs.",
    ["returnn/native_op.cpp", "returnn/native_op.py"], [("ops", "returnn/native_op.py")],
    "numeric semantics of generated C++/CUDA code; needs execution or a functional proof, not static rules",
)
N(
    "C52",
    "Dimension algebra obeys equality laws",
    "Arithmetic on dimension tags is consistent: derived dimensions that denote the same size compare equal, and inequality is never claimed for equal sizes.",
    ["programs", "histories"], "every expression over dimension tags", "Tests sample expressions.",
    ["returnn/tensor/_dim_extra.py"], [("dim math", "returnn/tensor/_dim_extra.py")],
    "a union-find/rewriting system over mutable runtime objects; its invariants depend on the history of merges, not on code shape",
)
N(
    "C53",
    "Recurrent-layer loop optimisation preserves results",
    "Moving layers out of a recurrent loop yields the same outputs as computing them inside.",
    ["programs", "inputs"], "every network", "Tests sample networks.",
    ["returnn/tf/layers/rec.py"], [("optimiser", "returnn/tf/layers/rec.py")],
    "equivalence of two generated computation graphs for every network; depends on runtime construction",
)
