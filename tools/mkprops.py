import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=False):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))
S="src/"
p("C01","Valid tensor programs are free of memory errors and undefined behaviour",
 "Any program that only makes documented, well-formed calls on tensors (creation, views, arithmetic, reductions, indexing, joining, linear algebra, layers, losses, backward passes) never reads or writes outside the storage its tensors own, never reads uninitialised storage into a result, never aborts and never executes undefined behaviour. This covers every shape, layout (contiguous, offset view, broadcast) and data type the operations accept.",
 ["programs","inputs"],"all sequences of well-formed tensor calls over all supported shapes, strides, offsets and dtypes",
 "The tests run a few fixed shapes without a sanitizer; an out-of-bounds access that lands in allocator padding or an uninitialised element passes unnoticed.",
 [S+"Operation",S+"Tensor",S+"Function",S+"Utils/VectorUtils.h"],
 [("kernel loops over raw pointers","src/Operation/*Cpu.h"),("storage and views","src/Tensor/TensorImpl.cpp"),("padded 32-byte allocation hides overruns","src/Tensor/Allocator.cpp")])
p("C02","Elementwise, comparison and logic operations match exact broadcast semantics",
 "For every pair of broadcast-compatible shapes and every supported data type, each elementwise unary, binary, clamping, fused multiply-add, masked-fill, comparison and logical operation produces the broadcast output shape and, at every output index, the mathematically specified function of the input elements at the broadcast indices (within rounding of the data type). Scalar operands, in-place variants and views as operands give the same values as the plain out-of-place call on copied operands.",
 ["inputs"],"all broadcastable shape pairs/triples, dtypes, layouts and element values including negatives, zero and infinities",
 "Tests use a handful of same-shape or trivially broadcast float tensors; vectorised tails, multi-axis broadcasts, non-float dtypes and views are unsampled.",
 [S+"Operation/OpElemWise.h",S+"Operation/OpElemWiseCpu.h",S+"Operation/OpElemWiseCpu.cpp",S+"Tensor/TensorIterator.cpp",S+"Tensor/Tensor.cpp"],
 [("per-element op functors","src/Operation/OpElemWiseCpu.h"),("broadcast shape and stride computation","src/Tensor/TensorIterator.cpp"),("scalar overloads","src/Tensor/Tensor.cpp")])
p("C03","Shape, view, joining and indexing operations move exactly the right elements",
 "Reshape, view, flatten, unflatten, squeeze, unsqueeze, permute, transpose, narrow, split, chunk, concat, stack, hstack, vstack, expand, gather, scatter, index selection, interleaved repetition, indexed reads and indexed writes, lower and upper triangles each return the documented shape and place every source element at exactly the index the operation defines, for every dimension argument including negative ones. Applying an operation to an offset view of a larger tensor gives the same result as applying it to a fresh copy of that view.",
 ["inputs","programs"],"all shapes, dimension arguments, sizes, index tensors, and compositions of view operations",
 "Tests check single operations on small contiguous tensors; compositions over views with storage offsets and negative dimensions are not reached.",
 [S+"Operation/OpTransform.cpp",S+"Operation/OpTransformCpu.h",S+"Tensor/TensorImpl.cpp",S+"Tensor/Tensor.cpp"],
 [("transform operations","src/Operation/OpTransform.cpp"),("CPU gather/permute/index kernels","src/Operation/OpTransformCpu.h"),("shape/stride metadata","src/Tensor/TensorImpl.cpp")])
p("C04","Reductions agree with the reference over every axis choice",
 "sum, mean, var, varMean, min, max, argmin and argmax return the documented shape (with and without keepDims) and the value defined by the elements of the reduced slice, for every shape, every single axis or set of axes (negative ones included), every supported floating-point data type and layout. Returned indices point at an element equal to the returned extreme value, including slices with ties, negative values or infinities.",
 ["inputs"],"all shapes, axis sets, keepDims choices, dtypes and element values",
 "Tests sample a few axes on positive float inputs; middle axes, axis sets, infinities and half-precision dtypes are unsampled.",
 [S+"Operation/OpReduce.h",S+"Operation/OpReduceCpu.h",S+"Operation/OpReduceCpu.cpp"],
 [("whole-tensor, single-dim and multi-dim reductions","src/Operation/OpReduceCpu.h")])
p("C05","Sort, topk and cumsum satisfy their ordering contracts",
 "sort and topk return values in the requested order together with indices that form a permutation (or a distinct subset) of the axis and select exactly those values; topk returns the k most extreme elements and cumsum returns running sums. This holds for every shape, axis, order flag, tie pattern and supported data type.",
 ["inputs"],"all shapes, axes, k, order flags, tie patterns and dtypes",
 "Tests check one or two 2-D float cases without ties on middle axes.",
 [S+"Operation/OpTransformCpu.h",S+"Operation/OpTransform.cpp",S+"Operation/OpSampling.h"],
 [("sort/topk/cumsum kernels","src/Operation/OpTransformCpu.h")])
p("C06","Matrix products equal the algebraic definition for all shape classes",
 "dot, vector-matrix, matrix-vector, matrix-matrix and batched products (with any transposition flags, 1-D operands and broadcast batch dimensions) return the documented shape and, up to floating-point rounding, the sum of products of the corresponding rows and columns. The same holds for every supported floating-point data type and for operands that are offset views.",
 ["inputs"],"all operand ranks, sizes, batch broadcasts, transposition flags and float dtypes",
 "Tests check a few fixed products, almost all unbatched or with equal batch dimensions.",
 [S+"Operation/OpLinalg.cpp",S+"Operation/OpLinalgCpu.h",S+"Operation/OpLinalg.h"],
 [("matmul shape analysis and batch dispatch","src/Operation/OpLinalg.cpp"),("gemm kernels","src/Operation/OpLinalgCpu.h")])
p("C07","Neural-network layers and losses compute their defined functions",
 "Linear, conv2d, maxPool2d, relu, gelu, silu and its gated product, softmax, logSoftmax, mseLoss, nllLoss, embedding lookup, layer and RMS normalisation over the last axis, rotary position encoding, dropout in evaluation mode and scaled dot-product attention return the documented shape and the value of their mathematical definition, for every batch size, channel count, kernel, stride, padding, axis and reduction mode they accept. Softmax outputs are non-negative, sum to one along the axis and stay finite for large finite inputs.",
 ["inputs","configurations"],"all layer configurations and input values",
 "Tests use one output channel, one input plane and positive inputs; channel interleaving, negative-padding and reduction-mode errors survive them.",
 [S+"Operation/OpNNLayerCpu.h",S+"Operation/OpLossCpu.h",S+"Function/FuncNNLayer.h",S+"Function/FuncLoss.h",S+"Function/FuncActivation.h",S+"Module/Basic.cpp",S+"Module/Norm.cpp",S+"Function/FuncSampling.h"],
 [("im2col/col2im convolution and pooling","src/Function/FuncNNLayer.h"),("softmax kernels","src/Operation/OpNNLayerCpu.h"),("loss functions","src/Function/FuncLoss.h")])
p("C08","Back-propagated gradients are the true derivatives",
 "After backward from a scalar (or with a supplied upstream gradient), the gradient left on every leaf tensor equals the derivative of the computed function with respect to that leaf, for every computation graph built from the differentiable operations, including broadcasts, reuse of intermediates, fan-out and view operations. Each gradient has exactly the shape of its leaf.",
 ["programs","inputs"],"all acyclic graphs over the differentiable operations, all shapes, values and upstream gradients",
 "Tests check individual operations or tiny chains; compositions, broadcasts of leading unit dimensions and non-unit upstream gradients are unsampled.",
 [S+"Function",S+"Tensor/AutogradMeta.cpp",S+"Tensor/Function.h"],
 [("backward of each function","src/Function/*.h"),("graph traversal and accumulation","src/Tensor/AutogradMeta.cpp")],
 [("leaf gradient","what backward leaves on parameters")])
p("C09","Gradient bookkeeping: accumulation, zeroing, hooks and independent leaves",
 "Gradients from successive backward passes add up on each leaf until they are explicitly zeroed, every leaf's gradient is independent storage (accumulating into or modifying one never changes another leaf's gradient, the gradient the caller passed in, or any forward value), and a repeated backward over a graph that can be traversed again, or over another graph sharing part of it, adds exactly its own contribution once. A hook registered on a leaf runs exactly once per backward pass that reaches the leaf and sees the gradient available at that time, until it is unregistered with the id its registration returned, in any order among several hooks.",
 ["histories","programs"],"all sequences of forward, backward, zeroGrad and hook registration over graphs with shared sub-expressions",
 "Tests run one or two backward passes on graphs where aliasing and double counting are invisible.",
 [S+"Tensor/AutogradMeta.cpp",S+"Tensor/AutogradMeta.h",S+"Tensor/Tensor.cpp"],
 [("topological backward and gradient accumulation","src/Tensor/AutogradMeta.cpp")],
 [("accumulated gradient","sum of contributions since last zeroing")])
p("C10","No-grad scopes and gradient-requirement propagation are exact",
 "A result requires gradients exactly when gradient recording is enabled in the current thread and at least one input of a differentiable operation requires them; inside a no-grad scope every operation works on such tensors, returns the same values and records nothing. Scopes nest and restore the previous state on exit, and one thread's scope never affects another thread.",
 ["programs","schedules"],"all nestings of no-grad scopes, operations, and concurrent threads",
 "Tests check a single scope in a single thread on one or two operations.",
 [S+"Tensor/NoGradGuard.h",S+"Tensor/NoGradGuard.cpp",S+"Tensor/Function.h",S+"Tensor/Tensor.cpp",S+"Function"],
 [("thread-local grad mode and guards","src/Tensor"),("dispatch between recording and plain calls","src/Tensor/Function.h")])
p("C11","Operations never change tensors they were not asked to change",
 "Out-of-place operations leave all their inputs unchanged, and an in-place write (in-place arithmetic, fill, copy, indexed write, in-place activation) through one tensor changes only that tensor: tensors derived earlier from it by reshape, view, flatten, narrow, split or other shape operations, and tensors it was derived from, keep their values. A clone is fully independent of its source.",
 ["programs","histories"],"all interleavings of view creation, cloning and in-place writes over a family of related tensors",
 "Tests check one in-place write on one alias pair; most write paths are never run on shared storage.",
 [S+"Tensor/TensorImpl.cpp",S+"Tensor/Storage.cpp",S+"Operation/OpTransform.cpp",S+"Tensor/Tensor.cpp"],
 [("storage sharing and copy-on-write","src/Tensor/TensorImpl.cpp"),("in-place entry points","src/Tensor/Tensor.cpp")],
 [("shared storage","which tensors alias the same bytes")])
p("C12","Every graph and tensor is released when its last handle goes away",
 "Once all user handles to tensors, modules, optimizers and graphs are dropped, all memory they held is returned: repeated training steps, partial graphs that are never back-propagated, hooks and view chains leave no tensor storage alive. Steady-state training uses bounded memory regardless of the number of steps.",
 ["histories","programs"],"all lifetimes: graphs kept, dropped before backward, backed up several times, and long step sequences",
 "A leak changes no computed value, so value-based tests cannot see it.",
 [S+"Tensor/AutogradMeta.cpp",S+"Tensor/Function.h",S+"Tensor/Storage.cpp",S+"Tensor/CachedAllocator.cpp"],
 [("reference-counted storage and graph nodes","src/Tensor")])
p("C13","The caching allocator never hands out overlapping or undersized blocks",
 "For every history of allocations and frees, each block the allocator returns is usable for at least the requested size, suitably aligned, and disjoint from every other live block; a freed block may be reused but is never given to two owners, and clearing the cache never touches live blocks. When the underlying allocator fails, the caching layer releases its cached blocks and retries, and reports failure with a null result instead of corrupting its state.",
 ["histories","fault_sequences"],"all allocation/free/clear histories and all failure points of the underlying allocator",
 "No test drives the allocator directly or makes it fail; reuse errors corrupt data only under particular size histories.",
 [S+"Tensor/CachedAllocator.cpp",S+"Tensor/Allocator.cpp",S+"Tensor/Storage.cpp"],
 [("size rounding, block splitting and reuse","src/Tensor/CachedAllocator.cpp")],
 [("live block set","addresses and sizes handed out and not yet freed")])
p("C14","Half, bfloat16 and dtype conversions are correctly rounded",
 "Converting float to half or bfloat16 rounds to nearest (ties to even), handling zeros, subnormals, overflow, infinities and NaN, and converting back is exact; half/bfloat16 arithmetic and comparisons equal float arithmetic on the converted operands followed by one rounding. Tensor dtype casts between all supported types follow the same element conversion, with any non-zero value becoming true for Bool.",
 ["inputs"],"all 2^32 float patterns, all 2^16 half and bfloat16 patterns, and all dtype pairs",
 "Tests convert a few representable values; rounding boundaries and subnormals are unsampled.",
 [S+"Utils/Half.h",S+"Utils/BFloat16.h",S+"Tensor/Tensor.cpp",S+"Operation/OpElemWiseCpu.h"],
 [("bit-level conversions","src/Utils/Half.h"),("bfloat16 rounding","src/Utils/BFloat16.h"),("dtype cast op","src/Operation")])
p("C15","Optimizers follow their update rules over whole training histories",
 "SGD (momentum, dampening, nesterov, weight decay), Adagrad, RMSprop, AdaDelta, Adam and AdamW (with all their options) update every parameter after each step exactly as their published recurrences prescribe, for any number of steps and any gradient sequence. Parameters without a gradient are left alone, zeroing gradients never disturbs optimizer state, and parameters do not influence one another.",
 ["histories","configurations"],"all hyper-parameter settings and gradient histories, including missing gradients and zeroing between steps",
 "Tests compare a final training loss for default settings; most option combinations and state-aliasing errors are not visible.",
 [S+"Optimizer.cpp",S+"Optimizer.h"],
 [("update rules and per-parameter state","src/Optimizer.cpp")],
 [("optimizer state","moment buffers per parameter")])
p("C16","The step scheduler decays the learning rate exactly on schedule",
 "When stepped once per epoch, the step scheduler makes the optimizer's learning rate equal to initial rate times gamma to the power floor(epoch / step size) at every epoch, for every step size and gamma. Updates made by the optimizer use the rate in force at that epoch.",
 ["histories","configurations"],"all step sizes, gammas and numbers of epochs",
 "No test runs the scheduler over many epochs and settings.",
 [S+"Scheduler.h",S+"Optimizer.h"],[("epoch counting and decay","src/Scheduler.h")])
p("C17","Modules register, traverse and switch all their parameters and children",
 "For every nesting of modules (including sequential and list containers), parameter listing yields each registered parameter and buffer exactly once in registration order with unique dotted names; switching between train and eval, zeroing gradients and moving dtype/device reach every descendant. Containers apply or expose their children in insertion order and calling a container equals composing its children.",
 ["programs","configurations"],"all module trees",
 "Tests build one or two fixed modules.",
 [S+"Module/Module.h",S+"Module/Basic.h",S+"Module/Basic.cpp",S+"Module/Norm.h",S+"Module/Norm.cpp"],
 [("recursive registration and traversal","src/Module/Module.h")])
p("C18","Saving and loading a model restores every tensor bit for bit",
 "For every module tree, a file written by save and read by load into a module of the same structure restores each parameter and buffer bit for bit (all shapes and dtypes, including NaN payloads and views), whatever values the target held before. Saving does not modify the saved model, and a second save of a loaded model produces an equivalent file.",
 ["inputs","programs"],"all module structures, tensor shapes, dtypes and contents",
 "Tests round-trip one small float model.",
 [S+"Serializer.cpp",S+"Serializer.h",S+"Utils/MMapUtils.cpp"],
 [("header and payload layout","src/Serializer.cpp"),("memory-mapped reads","src/Utils/MMapUtils.cpp")])
p("C19","Loading damaged model files and failed saves are reported, never crash",
 "Loading a missing, truncated, bit-flipped or arbitrarily corrupted model file either succeeds with well-formed data or returns failure, and never crashes, hangs, or reads outside the file. Saving reports success only when all bytes reached the file: a full device, unwritable path or write error yields failure.",
 ["inputs","fault_sequences"],"all byte-level corruptions and truncation points of a model file, and all write-failure points",
 "No test loads a damaged file or fails a write.",
 [S+"Serializer.cpp",S+"Utils/MMapUtils.cpp"],
 [("header parsing and bounds","src/Serializer.cpp"),("file mapping","src/Utils/MMapUtils.cpp")])
p("C20","Data loading visits every sample exactly once per epoch",
 "For every dataset size, batch size, shuffle and drop-last setting, one pass of the data loader yields batches whose samples cover every dataset index exactly once (except the incomplete last batch when dropping it), in order when not shuffled, with each sample's fields kept together and in the right position. Each epoch restarts fully and the loader's and samplers' reported sizes equal what is actually yielded.",
 ["configurations","histories"],"all dataset sizes, batch sizes, flags, sampler kinds and numbers of epochs",
 "Tests run one or two small configurations; off-by-one and float-rounding errors need particular sizes.",
 [S+"Data/DataLoader.h",S+"Data/Sampler.h",S+"Data/Dataset.h"],
 [("batch iteration and collation","src/Data/DataLoader.h"),("index sampling","src/Data/Sampler.h")])
p("C21","MNIST decoding and transforms are byte-exact",
 "Reading well-formed image and label files returns, for every index, the pixel values scaled to [0,1] and the label stored at that position of the files, and composed transforms apply in order with normalisation computing (x - mean) / std. Missing or truncated files yield an empty or consistent dataset and a wrong file header is rejected, so that no samples are invented.",
 ["inputs","fault_sequences"],"all image/label file contents, counts and truncation points",
 "No test reads a dataset file.",
 [S+"Data/DatasetMNIST.cpp",S+"Data/Transform.h",S+"Data/Dataset.h"],
 [("idx file parsing","src/Data/DatasetMNIST.cpp"),("normalize/compose","src/Data/Transform.h")])
p("C22","Seeding makes every random operation reproducible without repeating itself",
 "After seeding with the same value, the same sequence of random operations (uniform, normal, Bernoulli, dropout, multinomial, permutations, initialisers, shuffling) yields identical results, while different seeds and successive operations after one seeding yield different draws.",
 ["programs","histories"],"all seeds and sequences of random operations",
 "Tests seed once and draw once; a generator that restarts on each call still passes.",
 [S+"Utils/RandomGenerator.h",S+"Operation/OpFillingCpu.h",S+"Operation/OpSamplingCpu.h",S+"Initializer.cpp",S+"Data/Sampler.h"],
 [("process generator and seeding","src/Utils/RandomGenerator.h")])
p("C23","Random draws, dropout and initialisers have the documented distributions",
 "Uniform draws stay between their bounds with the documented mean and variance, normal draws have the requested mean and deviation, Bernoulli and dropout masks keep elements with the documented probability and dropout rescales survivors so the expectation is preserved, multinomial draws follow the weights, never select zero-weight outcomes and never repeat without replacement, and initialisers respect the bounds derived from fan-in and fan-out.",
 ["inputs","configurations"],"all shapes, parameters and seeds (decided statistically with error below 1e-9)",
 "Tests check one mask or none; a swapped keep/drop probability or wrong fan passes shape checks.",
 [S+"Operation/OpFillingCpu.h",S+"Operation/OpSamplingCpu.h",S+"Initializer.cpp",S+"Function/FuncSampling.h",S+"Function/FuncNNLayer.h"],
 [("distribution kernels","src/Operation/OpFillingCpu.h"),("fan computation","src/Initializer.cpp")])
p("C24","The TCP key-value store is linearizable and its waits are exact",
 "Concurrent set, get, add, deleteKey and check calls from any number of clients behave as if executed one at a time in an order consistent with real time, counters never lose an increment, and values of any bytes and length are returned unmodified. A blocking get or wait returns once all awaited keys have been set (even when unrelated keys change meanwhile) and fails only after its timeout when they are not.",
 ["schedules","histories"],"all interleavings of operations from concurrent clients",
 "The store is not built by the test configuration; races need particular interleavings.",
 [S+"Distributed/TCPStore.cpp",S+"Distributed/TCPStore.h"],
 [("server worker threads and key waiters","src/Distributed/TCPStore.cpp")],
 [("key map","current value of each key")])
p("C25","TCP store start-up, disconnects and teardown are safe",
 "Creating, using and destroying servers and clients in any order, clients that disconnect or are killed mid-request, refused connections and destruction while other clients wait never crash the process, touch freed memory, race on shared data, hang the server's destructor or disturb other clients' requests.",
 ["schedules","fault_sequences"],"all teardown orders and disconnect points",
 "The store is not built by the test configuration; use-after-free on teardown needs particular timing.",
 [S+"Distributed/TCPStore.cpp",S+"Distributed/TCPStore.h"],
 [("connection and thread lifetime","src/Distributed/TCPStore.cpp")])
p("C26","The file-backed key-value store is linearizable across processes and threads",
 "Concurrent set, get, add, deleteKey and check calls on one directory from several processes and threads behave as if executed one at a time: no increment is lost, no reader sees a partial or empty value that was never set, and a deleted key stays deleted until set again. Different keys and values with any bytes are kept distinct and returned unmodified.",
 ["schedules","histories"],"all interleavings of operations from concurrent processes and threads",
 "The store is not built by the test configuration; lost updates need concurrent processes.",
 [S+"Distributed/FileStore.cpp",S+"Distributed/FileStore.h"],
 [("file locking around read-modify-write","src/Distributed/FileStore.cpp")])
p("C27","The distributed sampler partitions every epoch evenly among replicas",
 "For every dataset size, number of replicas, shuffle and drop-last setting and epoch, all replicas yield the same number of in-range indices, and together they cover every dataset index (padded by repeats only to even out, or without repeats and missing at most replicas-1 samples when dropping). Replicas with the same seed and epoch agree on one shuffled order, and different epochs are shuffled differently.",
 ["configurations","histories"],"all dataset sizes, replica counts, flags, seeds and epochs",
 "The sampler is not built by the test configuration.",
 [S+"Distributed/DistributedSampler.cpp",S+"Distributed/DistributedSampler.h"],
 [("padding, striding and epoch seeding","src/Distributed/DistributedSampler.cpp")])
p("C28","Data-parallel training averages every gradient once and starts in sync",
 "With a correct collective backend, wrapping a model for data-parallel training gives every rank the root rank's parameters before training, and after each backward pass every trainable parameter's gradient is bit-identical on all ranks and equals the mean over the ranks of (gradient held before + local gradient), whatever the bucket size, the order gradients become ready and the number of uses of a parameter, step after step. Forward results equal the unwrapped model's, frozen parameters get no gradient, no bucket with several parameters exceeds the configured size, and after the wrapper is destroyed the model trains locally again.",
 ["configurations","schedules","histories"],"all model shapes, bucket sizes, readiness orders and numbers of steps",
 "The reducer needs a collective backend and is not built by the test configuration.",
 [S+"Distributed/Reducer.cpp",S+"Distributed/Reducer.h",S+"Distributed/DistributedModule.cpp",S+"Distributed/DistributedModule.h"],
 [("bucketed all-reduce driven by gradient hooks","src/Distributed/Reducer.cpp")])
p("C29","The small inline vector behaves like a standard vector",
 "For every sequence of operations (construct, copy, move, assign, append, insert, resize, reserve, clear, compare, iterate) the inline-storage vector holds the same elements as a standard vector given the same operations, across the inline-to-heap boundary, for trivial and non-trivial element types, with every element constructed and destroyed exactly once.",
 ["histories","programs"],"all operation sequences, element types and inline capacities",
 "Tests exercise it only indirectly through short shapes that never leave inline storage.",
 [S+"Utils/VectorUtils.h"],[("inline/heap storage switch","src/Utils/VectorUtils.h")])
p("C30","End-to-end training follows the mathematically defined trajectory",
 "Training a model (linear, convolution, pooling, activation, dropout-free, loss layers) with any optimizer for many steps yields, at every step, the loss and parameters that an independent implementation of the same computation yields up to rounding, and re-running it with the same seed and data yields bit-identical results. Switching to evaluation mode, inference under no-grad and saving in between do not change the trajectory.",
 ["programs","histories"],"all model configurations, optimizers, data and step counts",
 "Tests check a few trained values for one model; state leaking between steps needs long mixed histories.",
 [S+"Module",S+"Optimizer.cpp",S+"Function",S+"Tensor/AutogradMeta.cpp",S+"Data/DataLoader.h"],
 [("training loop composition","src/Module, src/Optimizer.cpp")])
p("C31","GPU kernels agree with the CPU implementation",
 "Every operation executed on a CUDA device returns, up to rounding, the same values and shapes as the CPU implementation.",
 ["inputs"],"all operations, shapes and dtypes","No GPU tests run here.",[S+"Operation"],[("CUDA kernels","src/Operation/*Cuda.*")])
p("C32","Collectives deliver the mathematically defined result to every rank",
 "Every collective and point-to-point call (broadcast, all-reduce, reduce, all-gather, reduce-scatter, send, receive, in one- and multi-tensor forms) over the NCCL backend gives every receiving rank the defined result for every data type, reduction, root and shape, in the order the calls were issued. A successful wait means the results are there and the work is finished; a work reports completion, success and failure truthfully, and invalid calls are rejected without disturbing the other ranks or later calls. Asynchronous work keeps its buffers valid and ordered with the computation before and after it, and destroying the process group leaves no communicator, stream or event behind.",
 ["schedules","inputs","histories"],"all collectives, shapes, dtypes, reductions, roots, ranks, orders of completion and timings of the device",
 "No test builds or runs the distributed code, and NCCL needs GPUs; completion order and event races cannot be sampled by a few calls.",
 [S+"Distributed/BackendNCCL.cpp",S+"Distributed/DistributedProcessGroup.cpp",S+"Distributed/Work.h"],
 [("NCCL backend","src/Distributed/BackendNCCL.cpp"),("process group dispatch","src/Distributed/DistributedProcessGroup.cpp")])
p("C33","Tensor creation fills exactly the requested shape with the requested values",
 "Tensors created from scalars, flat or nested lists, raw values, constants (zeros, ones, full, like-variants), ranges (arange, linspace) have exactly the requested shape, data type and element values, for every shape and data type, and converting them back to lists, scalars or another data type returns those values. Filling or copying into an existing tensor sets every element and nothing else.",
 ["inputs"],"all shapes (including empty and high-rank), dtypes, values, ranges and steps",
 "Tests create a few small float tensors; rounding of range lengths, half and integer types and high ranks are unsampled.",
 [S+"Tensor/Tensor.h",S+"Tensor/Tensor.cpp",S+"Operation/OpFillingCpu.h",S+"Tensor/Scalar.h"],
 [("factory functions","src/Tensor/Tensor.cpp"),("fill kernels","src/Operation/OpFillingCpu.h")])
p("C34","Threads working on their own tensors do not interfere",
 "Threads that run any mix of forward, backward, no-grad, indexing, model and optimizer work on tensors they own, while reading shared tensors that nobody writes, get bit for bit the results of running alone, and no data race occurs inside the library. Gradient-recording state belongs to the thread that set it.",
 ["schedules","programs"],"all interleavings of threads over disjoint writable tensors and shared read-only tensors",
 "All existing tests are single-threaded; shared scratch state in a kernel is invisible to them.",
 [S+"Operation",S+"Tensor/CachedAllocator.cpp",S+"Tensor/NoGradGuard.cpp",S+"Tensor/Storage.cpp",S+"Tensor/TensorImpl.cpp"],
 [("allocator locking","src/Tensor/CachedAllocator.cpp"),("thread-local gradient mode","src/Tensor/NoGradGuard.cpp"),("shared storage reference counts","src/Tensor/Storage.cpp")])
p("C35","Process-group initialisation joins exactly the requested group or fails cleanly",
 "For every initialisation method (env://, tcp://host[:port], file://path), environment and explicit arguments (explicit ones win), a successful initProcessGroup yields a group whose rank, size, backend, timeout and shared store are the requested ones on every process. A malformed or unreachable request returns false within the timeout, leaves the group uninitialised and a later valid attempt works. A second initialisation of a live group is refused without effect, and a destroyed group can be initialised again.",
 ["inputs","histories"],"all URLs, ranks, sizes, environments, timeouts and sequences of initialise/destroy",
 "No test covers it: malformed environments, retry after failure and repeated initialisation are unusual inputs and histories.",
 [S+"Distributed/DistributedProcessGroup.cpp",S+"Distributed/ProcessGroup.cpp"],
 [("initialisation","src/Distributed/DistributedProcessGroup.cpp")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,x['title']
