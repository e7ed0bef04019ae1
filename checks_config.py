CHECKS = {}


def chk(id, rule, builds, **kw):
    CHECKS[id] = dict(rule=rule, builds=builds, **kw)


def plain(main, quick=200, thorough=6000, **kw):
    return dict(flavour="plain", main=main, quick=quick, thorough=thorough, **kw)


def asan(main, quick=200, thorough=6000, **kw):
    return dict(flavour="asan", main=main, quick=quick, thorough=thorough, **kw)


def msan(main, quick=200, thorough=6000, **kw):
    return dict(flavour="msan", main=main, quick=quick, thorough=thorough, **kw)


def tsan(main, quick=200, thorough=6000, **kw):
    return dict(flavour="tsan", main=main, quick=quick, thorough=thorough, **kw)


chk("C02", "seeded random op x dtype x shape pair x layout x variant; distinct = (op, dtype, shapes, layout, variant)",
    [plain("c_C02.cpp", quick=600)])
chk("C03", "seeded shape/view/join/index operation or chain of up to 9 of them; distinct = (ops, dtype, shapes, layout)",
    [plain("c_C03.cpp", quick=600)])
chk("C04", "seeded reduction x axis set x keepDims x dtype x value class; distinct = (reduction, axes, flags, dtype, shape)",
    [plain("c_C04.cpp", quick=600)])
chk("C05", "seeded sort/topk/cumsum x axis x flags x tie pattern x dtype; distinct = (operation, axis, flags, dtype, shape)",
    [plain("c_C05.cpp", quick=600)])

chk("C06", "seeded product: operand ranks 1..7 x batch broadcast x transposition x dtype x layout; distinct = (shapes, flags, dtype)",
    [plain("c_C06.cpp", quick=500)])
chk("C07", "seeded layer/loss x configuration x dtype x layout x entry point (op, function, module); distinct = (layer, configuration, dtype, shapes)",
    [plain("c_C07.cpp", quick=500)])

# technique and level note of each check, for MANIFEST.json
_X = "Runtime monitoring: the real code is run on seeded inputs; says nothing about inputs not drawn. "
NOTES = {
    "C02": ("runtime oracle monitor over seeded elementwise workloads",
            _X + "Oracle: scalar double/int64 reference with its own broadcast index arithmetic and half codecs; fresh storage is poisoned so unwritten elements show."),
    "C03": ("runtime oracle monitor over seeded shape/view/join/index programs",
            _X + "Oracle: index-level reference model of each operation, applied over chains of operations and to offset views."),
    "C04": ("runtime oracle monitor over seeded reductions",
            _X + "Oracle: per-slice double reference; tolerances scale with the magnitude summed."),
    "C06": ("runtime oracle monitor over seeded matrix products",
            _X + "Oracle: triple-loop double reference; 60% of the cases use values whose sums are exact, so the comparison is bit-exact there."),
    "C07": ("runtime oracle monitor over seeded layer configurations",
            _X + "Oracle: definition-level double reference of each layer; exact comparison on integer-valued inputs, magnitude-scaled tolerance otherwise."),
    "C05": ("runtime contract monitor (permutation, order, selection) over seeded sorts",
            _X + "Oracle: checks the contract itself, so any correct tie order is accepted."),
}

chk("C08", "seeded differentiable program (up to 16 operations over shared intermediates, broadcast, in-place forms) or single operation x dtype x shape; distinct = (operations and wiring, shapes)",
    [plain("c_C08.cpp", quick=400, thorough=9000)])
NOTES["C08"] = ("runtime oracle monitor over seeded differentiable programs",
    _X + "Oracle: central finite differences of an independent double-precision evaluation of the same program; tolerance widened only by the measured effect of rounding noise. One known finding (alpha of add/sub).")

chk("C09", "seeded history of graph growth, backward from any node, zeroing, gradient edits and hook (un)registrations over shared graphs; distinct = (event sequence, program)",
    [plain("c_C09.cpp", quick=60, thorough=2500)])
NOTES["C09"] = ("online monitor of gradient bookkeeping over seeded event histories",
    _X + "Oracle: a ledger of expected gradients (sum of finite-difference contributions since the last zeroing), expected hook calls and untouched bystander tensors after every event.")

chk("C10", "seeded program whose instructions run under random depths of no-grad scopes, every function inside and outside a scope, scope exits, threads; distinct = (operation, scope depth) sequences",
    [plain("c_C10.cpp", quick=60, thorough=2500)])
NOTES["C10"] = ("online monitor of the gradient requirement under random scope nesting",
    _X + "Oracle: requirement computed from the open scopes and the inputs; values compared bit for bit with the other mode; gradients checked with the scoped parts held constant.")

chk("C11", "seeded history over a pool of up to 14 related tensors (views, clones, handle copies, storage views) of derivations, 90 kinds of in-place writes with aliased operands, drops and assignments; every function, backward and optimizer step; distinct = event sequences",
    [plain("c_C11.cpp", quick=150, thorough=3000)])
NOTES["C11"] = ("online monitor of byte snapshots of every live tensor over seeded aliasing histories",
    _X + "Oracle: after every event, every tensor but the written one is byte-identical to its snapshot, and the written one equals the same write on deep copies. Other handles of the written tensor may show either value.")

chk("C12", "seeded random graph, training run, in-place loop, file round, cached epoch, thread or deep chain, each repeated with identical work; distinct = (workload, seed)",
    [plain("c_C12.cpp", quick=40, thorough=1500)])
NOTES["C12"] = ("live-heap, descriptor, mapping and weak-reference monitor over repeated workloads",
    _X + "Oracle: every heap allocation is counted (interposed malloc); after warm-up the same work must leave the same number of live blocks; buffers are watched through weak references until the last handle goes.")

chk("C13", "seeded allocation history: size profile x base-failure mode (budget, random, transient) x free order; threads; tensors on the process-wide cache; distinct = histories",
    [plain("c_C13.cpp", quick=60, thorough=2500)])
NOTES["C13"] = ("online monitor of every block over seeded allocation histories with a failing base allocator",
    _X + "Oracle: interval model of live blocks, painted contents, and a recording base allocator that refuses on demand and checks every block it is given back.")

chk("C14", "blocks of 65536 float patterns (all 65536 blocks, i.e. every float), every half and bfloat16 pattern, seeded operand pairs x every operator form, tensor casts over all dtype pairs; distinct = blocks and (dtypes, shape, layout)",
    [plain("c_C14.cpp", quick=6000, thorough=60000)])
NOTES["C14"] = ("runtime oracle monitor, exhaustive over all 2^32 float and all 16-bit patterns",
    _X + "Oracle: integer-only rounding reference and a second double-based codec; every 16-bit pattern is decoded in each run.")

chk("C15", "seeded optimizer x hyper-parameters x history of gradients (missing, zeroed, accumulated, dropped), learning-rate changes and steps over up to 5 parameters; distinct = (optimizer, hyper-parameters, dtype, sizes)",
    [plain("c_C15.cpp", quick=2000, thorough=60000)])
NOTES["C15"] = ("runtime oracle monitor over seeded training histories",
    _X + "Oracle: independent double-precision recurrences checked after every step; tolerance from six re-runs of the reference with rounding noise in every operation. Bias corrections count the optimizer's steps.")

chk("C16", "seeded step size x gamma x start epoch x optimizer, stepped for up to 300 (2000) epochs; distinct = configurations",
    [plain("c_C16.cpp", quick=1500, thorough=40000)])
NOTES["C16"] = ("runtime oracle monitor over seeded schedules",
    _X + "Oracle: closed form at every epoch (bit-exact for power-of-two gammas) and a second optimizer whose rate is set by hand.")

chk("C17", "seeded module trees (depth up to 5, sequential/list/custom composites, all built-in layers, buffers, empty containers) x traversal, mode switches of trees and subtrees, zeroing, re-initialisation, dtype moves and calls; distinct = trees",
    [plain("c_C17.cpp", quick=2500, thorough=60000)])
NOTES["C17"] = ("runtime oracle monitor over seeded module trees",
    _X + "Oracle: the record of what was registered where; probe modules report mode, reset and call order; composition computed by hand.")

chk("C18", "seeded module tree x tensor layout (views, shared storage) x random bit contents of all dtypes x target contents, files with missing/extra/different tensors; distinct = trees and mismatch kinds",
    [asan("c_C18.cpp", quick=600, thorough=12000)])
NOTES["C18"] = ("runtime oracle monitor over seeded save/load rounds, under ASan and UBSan",
    _X + "Oracle: byte comparison of every tensor before saving and after loading, of the source model, and of every outside tensor sharing memory with either.")

chk("C19", "seeded damage of a saved file (truncation at every point, bit flips, hostile header words, splices, garbage, random files), unreadable and unwritable paths, write failures after every kind of byte count, short writes; distinct = (damage, position, value)",
    [asan("c_C19.cpp", quick=60, thorough=2000)])
NOTES["C19"] = ("fault-injecting runtime monitor of load and save, under ASan and UBSan with guarded file mappings",
    _X + "Oracle: an independent reader of the damaged file decides what a successful load may contain; the mapping is followed by an inaccessible page and its slack is poisoned; success of a save is checked by reading the file back.")

chk("C20", "seeded dataset size x batch size x order/shuffle/sampler x drop-last x 1-4 epochs (some abandoned), multi-field samples of every dtype; sizes around 2^24; distinct = configurations",
    [asan("c_C20.cpp", quick=100, thorough=6000)])
NOTES["C20"] = ("online monitor of recording datasets under seeded loader configurations, under ASan and UBSan",
    _X + "Oracle: every element of every batch encodes the sample, field and position it must come from; fetches are counted per sample.")

chk("C21", "seeded IDX files (counts, image sizes, contents), every truncation point, missing and damaged files, compositions of transforms; distinct = files and compositions",
    [asan("c_C21.cpp", quick=250, thorough=3000)])
NOTES["C21"] = ("runtime oracle monitor over generated, truncated and damaged dataset files, under ASan and UBSan",
    _X + "Oracle: the bytes the harness wrote; affine compositions computed in double. A wrong magic number may stop the process with the library's own diagnosis.")

chk("C22", "seeded sequences of up to 14 of 20 kinds of random operations, with other work in between, re-run with the same and another seed, in another process, 200 neighbouring seeds; distinct = sequences",
    [plain("c_C22.cpp", quick=4000, thorough=120000)])
NOTES["C22"] = ("runtime monitor of recorded draw sequences (re-execution and repetition oracle)",
    _X + "Oracle: bit-identical re-execution after seeding; draws of at least 64 bits of entropy must differ between seeds and between places of one sequence; no stretch of six values may occur twice.")

chk("C23", "seeded parameters, shapes and data types of every random fill, dropout form, multinomial (with zero, tiny and batched weights) and initialiser, thousands of draws each; distinct = configurations",
    [plain("c_C23.cpp", quick=400, thorough=4000)])
NOTES["C23"] = ("runtime statistical monitor with concentration bounds over seeded configurations",
    _X + "Oracle: Bernstein and chi-square bounds with error probability below 1e-14 per statistic (range, mean, variance, bins, position and lag dependence), exact support and scaling checks.")

_WR = ["-Wl,--wrap=send", "-Wl,--wrap=recv", "-Wl,--wrap=setsockopt", "-Wl,--wrap=nanosleep"]
_TCP = dict(dist=["Store.cpp", "TCPStore.cpp"], sources=["Utils/Logger", "Utils/Timer"], lflags=_WR)
chk("C24", "seeded schedule: 2-6 clients x 1-3 keys x operation mix x injected delays and short transfers; waiter sets; values of any bytes; timeouts; worker rendezvous; distinct = interleavings of invocations and responses",
    [tsan("c_C24.cpp", quick=20, thorough=1500, **_TCP), plain("c_C24.cpp", quick=32, thorough=2500, **_TCP)],
    hang_tries=4, must_observe={"overlapping_pairs": 500, "histories_checked": 100, "waiters_blocked": 50})
NOTES["C24"] = ("linearizability checking of recorded histories of real client threads under injected delays, with ThreadSanitizer",
    _X + "Oracle: Wing-Gong search over every recorded history (calls, results, times) against a sequential map; wake-up and timeout intervals; byte-exact values; TSan's happens-before detector in one of the two builds.")

chk("C25", "seeded history: requests cut at every byte (close, reset, half-close), creation and destruction orders over several servers and ports, teardown under waiting, busy, connecting and stalled peers, answers cut at every byte, dying workers; distinct = histories",
    [tsan("c_C25.cpp", quick=2, thorough=80, **_TCP), asan("c_C25.cpp", quick=2, thorough=80, **_TCP)],
    hang_tries=4, must_observe={"teardowns": 60, "cut_requests": 300})
NOTES["C25"] = ("fault-injecting runtime monitor of connections and teardown, under ThreadSanitizer and AddressSanitizer",
    _X + "Oracle: results of undisturbed clients, failure values after a loss, wall-clock bounds on destructors and blocked calls, descriptor and thread counts, TSan and ASan/LSan/UBSan reports.")

_FS = dict(dist=["Store.cpp", "FileStore.cpp"], sources=["Utils/Logger", "Utils/Timer"],
           lflags=["-Wl,--wrap=" + f for f in "fopen fclose access unlink flock fread fwrite fseek opendir mkdir".split()])
chk("C26", "seeded schedule: processes x threads x keys x operation mix with pauses inside every step of every operation; counters; sequential histories over any key and value bytes; waits and time limits; distinct = interleavings of invocations and responses",
    [plain("c_C26.cpp", quick=45, thorough=2500, **_FS), tsan("c_C26.cpp", quick=15, thorough=800, **_FS)],
    hang_tries=4, must_observe={"overlapping_pairs": 500, "histories_checked": 100})
NOTES["C26"] = ("linearizability checking of recorded histories of real processes and threads under injected delays, with ThreadSanitizer",
    _X + "Oracle: Wing-Gong search over every recorded history against a sequential map; every value read must be one that was written; totals of counters; wake-up and time-out intervals.")

_NC = dict(dist=["Store.cpp", "TCPStore.cpp", "FileStore.cpp", "ProcessGroup.cpp", "DistributedProcessGroup.cpp", "BackendNCCL.cpp", "WorkNCCL.cpp"])
chk("C32", "seeded plan of collectives and point-to-point operations over ranks, data types, shapes, reductions, roots, overlapping works and delays; distinct = sequences of (operation, type, reduction, rank) and number of ranks",
    [plain("c_C32.cpp", quick=60, thorough=2500, **_NC), tsan("c_C32.cpp", quick=15, thorough=600, **_NC), asan("c_C32.cpp", quick=10, thorough=400, **_NC)],
    must_observe={"dist.collectives": 1000, "dist.waitsThatBlocked": 200})
NOTES["C32"] = ("runtime monitoring of the real NCCL backend over an in-process stand-in for the device layer, with ThreadSanitizer and AddressSanitizer",
    _X + "Oracle: results computed from the plan on every rank after wait, memory around the tensors and inputs unchanged, ranks agreeing on every operation, streams/communicators/events given back.")

_DD = dict(dist=_NC["dist"] + ["Reducer.cpp", "DistributedModule.cpp"])
chk("C28", "seeded data-parallel training: ranks, root, architecture (shared and frozen parameters), bucket size, optimizer, accumulation, undifferentiated passes, wrapping again and unwrapping, delays; distinct = configurations",
    [plain("c_C28.cpp", quick=60, thorough=2500, **_DD), tsan("c_C28.cpp", quick=10, thorough=400, **_DD)],
    must_observe={"ddp.backwardPasses": 500, "dist.waitsThatBlocked": 200, "ddp.unwrapped": 20})
NOTES["C28"] = ("runtime monitoring of data-parallel training with ranks as threads over a stand-in device layer, with ThreadSanitizer",
    _X + "Oracle: an unwrapped twin of every rank gives the local gradients; the records of all ranks are compared offline (parameters bit-identical, gradients bit-identical and equal to the mean).")

_DS = dict(dist=_NC["dist"] + ["DistributedSampler.cpp"])
chk("C27", "every dataset size 0-60 x 1-12 replicas x both flags x five epochs (seeds drawn), and seeded larger sets with epoch histories, loaders and process-group defaults; distinct = configurations",
    [plain("c_C27.cpp", quick=30, thorough=600, **_DS), asan("c_C27.cpp", quick=3, thorough=40, **_DS)],
    must_observe={"dsamp.epochs": 5000, "dsamp.shuffledEpochs": 200})
NOTES["C27"] = ("runtime monitoring of all replicas' samplers together, with AddressSanitizer",
    _X + "Oracle: counts, coverage, repeats and order judged over the union of all replicas; the same epoch reached by different histories must agree; shuffles compared up to rotation; bounds of 9 standard deviations on how often a sample reaches a replica.")

_PG = dict(dist=_NC["dist"], lflags=_WR)
chk("C35", "seeded group: method, explicit and environment arguments, number of processes, start delays, waiting or not, joining again; requests that cannot work followed by valid ones; timeouts; distinct = requests",
    [plain("c_C35.cpp", quick=10, thorough=400, **_PG), asan("c_C35.cpp", quick=2, thorough=80, **_PG)],
    must_observe={"pg.ranksJoined": 300, "pg.refused": 300, "pg.retries": 200, "pg.storeTimeouts": 30})
NOTES["C35"] = ("runtime monitoring of real processes joining and leaving groups, with AddressSanitizer",
    _X + "Oracle: rank, size, backend, timeout, store kind and port of every process; data exchanged through the shared store; result, state, descriptors, threads and wall clock after requests that cannot work.")

chk("C29", "seeded history of operations on three vectors per element type (watched, trivial, string, shared pointer, over-aligned, tensor) and inline capacity; distinct = histories",
    [asan("c_C29.cpp", quick=200, thorough=6000), plain("c_C29.cpp", quick=200, thorough=9000)],
    must_observe={"small.steps": 50000, "small.lifetimes": 20000, "small.toHeap": 500})
NOTES["C29"] = ("online monitoring of element lifetimes and lockstep comparison with std::vector, under AddressSanitizer and UBSan",
    _X + "Oracle: std::vector given the same operations, a registry of live elements (each constructed and destroyed once, at its own address), ASan/LSan/UBSan reports.")

chk("C30", "seeded training run: architecture, loss, data, batches, optimizer and its settings, schedule, gradient accumulation, interruptions, resumption from a file; distinct = configurations",
    [plain("c_C30.cpp", quick=300, thorough=9000)],
    must_observe={"train.steps": 2000, "train.updates": 1000, "train.gradientsCompared": 2000, "train.repeated": 1000, "train.interruptions": 500, "train.resumed": 300})
NOTES["C30"] = ("step-by-step monitoring of training runs against an independent implementation, and bit comparison of repeated runs",
    _X + "Oracle: explicit double-precision forward and backward passes from the library's current parameters at every step, reference optimizers with their own state and a measured rounding spread, bit-identical repetition with and without interruptions.")

chk("C33", "seeded creation, fill, copy and conversion: every factory x data type x shape (rank 0-8, empty dimensions, vector-width sizes) x scalar type x options, ranges cut at every position of a step, writes into parts of a shared storage; distinct = (call, types, values, shape)",
    [plain("c_C33.cpp", quick=200, thorough=9000), asan("c_C33.cpp", quick=15, thorough=600)],
    must_observe={"create.lists": 2000, "create.constants": 2000, "create.ranges": 2000, "create.writes": 5000, "create.around": 20000, "create.conversions": 2000, "create.rangesCutShort": 300})
NOTES["C33"] = ("online monitoring of every created, filled or converted tensor against the request, with AddressSanitizer and UBSan",
    _X + "Oracle: shape, strides, counts, type and gradient flags from the request; element values from an own conversion in double precision; bit-exact lists; the bytes around a written view and all tensors sharing its storage stay unchanged.")

chk("C34", "seeded job lists for 2-8 threads (differentiable programs, training, operations on shared tensors, inference on a shared model, data loading, allocation with hand-over), cache on and off, pauses; distinct = interleavings of the steps of all threads",
    [tsan("c_C34.cpp", quick=20, thorough=700), plain("c_C34.cpp", quick=60, thorough=3000)],
    must_observe={"thr.jobs": 500, "thr.switches": 5000, "thr.results": 5000, "thr.handedOut": 200})
NOTES["C34"] = ("ThreadSanitizer on real threads, and bit comparison of every result with the one computed alone",
    _X + "Oracle: TSan's happens-before detector; a digest of every intermediate result of every job computed alone beforehand; contents of tensors handed between threads; digests of the shared tensors before and after.")

_C01 = ["c_C01%s.cpp" % k for k in "abcdef"]
chk("C01", "the seeded programs of all other tensor properties, every operation x dtype x layout x shape; distinct = the inputs of the individual workloads",
    [asan(_C01, quick=4, thorough=150, env={"ASAN_OPTIONS": "detect_leaks=0"}), msan(_C01, quick=6, thorough=300)])
NOTES["C01"] = ("AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer (tensor storage poisoned) over the workloads of all tensor properties",
    _X + "Oracle: the sanitizers; aborts of well-formed programs; elements of results that were never written (MSan shadow of every result read).")
