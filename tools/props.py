#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py [claimed ids...]"""
import json, subprocess, sys, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe, tech, note, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, tech=tech, note=note, level=level))

p("P01", "Every differentiable operator propagates the true gradient",
  "For every differentiable operator and every input in its domain, back-propagating an output gradient adds to each operand that requires gradients exactly the vector-Jacobian product of the mathematical function, with the operand's own shape, and adds nothing to operands that do not require gradients. Values of operands and gradients already present are preserved (gradients accumulate). Gradients stay finite where the function is finite and smooth, even for large inputs; where several elements attain a maximum or minimum, the gradient is a subgradient: what they receive adds up to the output gradient.",
  ["inputs", "configurations"], "all operators, all operand shapes (row, column, matrix, scalar), both float types, every subset of operands requiring gradients, shared operands, every output gradient",
  "unit tests check one or two fixed small inputs per operator, nearly always column vectors with every operand requiring gradients; the property is over all inputs, shapes and requires-grad subsets",
  ["mat/gradfn", "ag/operators.go", "ag/operator.go", "ag/rand.go"],
  [("one Forward/Backward pair per operator", "mat/gradfn/*.go"), ("operator construction", "ag/operators.go")],
  ["mat.Tensor.Grad of every leaf after ag.Backward"],
  "gradient monitor: online oracle comparing observed gradients with finite differences of an independent reference",
  "Generated operands, random output gradients; trusts the float64 reference formulas and finite differences away from kinks.")
p("P02", "Back-propagation sums every path exactly once",
  "For every computation graph, back-propagation gives each tensor the sum over all paths of the derivatives, whatever the sharing of sub-expressions, the operands used several times, the blocked gradients, and the mixture of tensors requiring gradients or not. Each operator back-propagates exactly once per pass, only after all gradients it will receive have arrived, and never if it requires no gradients; blocked paths contribute nothing. Gradients accumulate over repeated graphs that share leaves, and the result does not depend on the schedule. The graph is that of the operands it was built with: what becomes of the lists of operands and indices the caller passed changes nothing.",
  ["programs", "schedules", "inputs"], "all acyclic graphs of operators, all fan-outs, all sets of leaves requiring gradients, all output seeds, all interleavings of the concurrent traversal",
  "tests back-propagate through a handful of fixed tiny graphs; ordering and once-only delivery depend on graph topology and on goroutine scheduling",
  ["ag/backward.go", "ag/operator.go", "ag/gradientblocker.go"],
  [("pending-gradient counters and wait for gradients", "ag/operator.go"), ("parallel traversal", "ag/backward.go"), ("StopGrad", "ag/gradientblocker.go")],
  ["Backward calls of monitored operators", "gradients of all nodes after ag.Backward"],
  "trace monitor on operators (exactly-once, ordering) plus gradient oracle over random graphs, plain and race builds",
  "Random graphs up to a few hundred nodes with schedule perturbation; trusts a topological reference evaluator.")
p("P03", "Back-propagation always finishes and errors leave the graph usable",
  "Back-propagation returns for every graph, however the outputs overlap and whichever operands require gradients: it never waits forever, never leaves goroutines behind, and frees what it acquired. When it refuses a call because an output lacks its gradient, it returns an error, propagates nothing, and a correct later call on the same tensors works.",
  ["programs", "schedules", "fault_sequences"], "all graphs and output sets, including outputs nested in one another, hyperparameters computed by other operators, operators that give no gradient to an operand, and refused calls",
  "tests use well-formed tiny graphs; waiting depends on the pending counts of every topology and on failures in the middle of the pass",
  ["ag/backward.go", "ag/operator.go", "mat/gradfn"],
  [("pending counters resolved after each operator's backward", "ag/operator.go"), ("validation before preparing", "ag/backward.go")],
  ["completion of ag.Backward", "goroutine count after it", "a second pass after an error"],
  "liveness monitor (runtime deadlock detector, goroutine-dump classifier, leak check) with refused calls and operators that withhold gradients",
  "Quiescence is judged by goroutine states rather than by timeouts; bounded random graphs.")
p("P04", "Concurrent graph execution is race-free and loses no gradient",
  "Building and evaluating operators concurrently (asynchronous evaluation included), reading values from many goroutines, back-propagating, and accumulating gradients on shared parameters from many goroutines at once is free of data races and loses no contribution. The accumulated gradients equal the sum of the individual ones whatever the schedule. Evaluating asynchronously gives the same values and gradients as evaluating synchronously.",
  ["schedules", "programs"], "all interleavings of concurrent forward and backward passes over shared leaves",
  "ordinary tests run one goroutine and one schedule, without the race detector",
  ["ag/operator.go", "ag/backward.go", "mat/dense_grad.go"],
  [("operator value futures", "ag/operator.go"), ("gradient mutexes", "mat/dense_grad.go, ag/operator.go")],
  ["race detector reports", "sums of integer-valued gradients"],
  "Go race detector plus conservation oracle (integer gradient sums) under concurrent stress",
  "Covers the interleavings that ran; integer-valued gradients make the sums exact.")
p("P05", "Every operator computes its mathematical definition",
  "For every operator and every input in its domain, the value is that of its mathematical definition within rounding, with the documented shape and the type of its operands. Values stay finite and accurate where the definition is, for large magnitudes too (softmax, log-sum-exp, sigmoid-like and soft-plus functions do not overflow).",
  ["inputs", "configurations"], "all operators, operand shapes, float types, magnitudes and CPU code paths",
  "unit tests evaluate one or two fixed small inputs; the property is over all inputs, shapes, magnitudes and code paths",
  ["mat/gradfn", "ag/operators.go", "mat/dense.go"],
  [("Forward of each function", "mat/gradfn/*.go"), ("graph helpers", "ag/operators.go")],
  ["Operator.Value"],
  "value monitor comparing every observed result with an independent float64 reference, on three CPU code paths",
  "Float32 tolerance scales with the magnitude; trusts the reference formulas.")
p("P06", "Matrix arithmetic equals the textbook definition",
  "Every arithmetic method of a matrix (sums, products, matrix products, dot products, norms, reductions, element-wise functions, in-place variants) returns the result of its textbook definition for all shapes and sizes, both float types, and operands of mixed types. On integer-valued data the result is exact; otherwise it is within the rounding bound of its number of terms.",
  ["inputs", "configurations"], "all matrix arithmetic methods, all shapes including empty, sizes around and beyond vector-register widths, both float types and mixed types, all CPU code paths",
  "tests use a few small matrices whose sizes do not exercise every unrolled loop tail and block boundary of the assembly kernels",
  ["mat/dense.go", "mat/internal/f32", "mat/internal/f64", "mat/internal/matfuncs"],
  [("dense arithmetic", "mat/dense.go"), ("blocked matrix product", "mat/internal/f32/gemm.go"), ("assembly kernels", "mat/internal/f32/asm32, mat/internal/f64/asm64, mat/internal/matfuncs")],
  ["result matrices of every method"],
  "differential monitor: every result compared with a naive reference (exact on integers, error-bounded on reals)",
  "Shapes up to a few hundred per side; trusts the naive reference.")
p("P07", "Numeric kernels never touch memory outside their operands",
  "No matrix or vector operation reads or writes memory outside its operands, for any length, alignment and offset, and none writes to an operand it only reads. This holds for the assembly kernels of every CPU path as well as for the portable code.",
  ["inputs", "configurations"], "all kernels, all lengths and alignments, all CPU paths",
  "an out-of-bounds access of assembly code is invisible to ordinary tests and to Go's bounds checks unless the neighbouring page is unmapped",
  ["mat/internal/f32/asm32", "mat/internal/f64/asm64", "mat/internal/matfuncs", "mat/dense.go"],
  [("tail loops of the assembly kernels", "mat/internal/**/*.s")],
  ["page faults on guard pages around operands", "canaries around operands"],
  "guard-page sanitizer: operands placed flush against unmapped or read-only pages, for every kernel, length and offset",
  "Lengths 0..~200 at every end alignment; kernels reached through an overlay package and through the public methods.")
p("P08", "Results do not depend on the CPU features or the build flavour",
  "Every matrix operation gives the same result with AVX, with SSE only, and in the portable build: bit-identical for data movement and correctly rounded element-wise operations, and within rounding error for sums and transcendental functions. The result for an element does not depend on its position in the vector or on the vector's length, special values (zeros, infinities, NaN) included.",
  ["configurations", "inputs"], "all operations on all three code paths, all element positions, all finite and special values",
  "the test-suite runs only the code path of the machine at hand, and never compares paths",
  ["mat/internal/f32", "mat/internal/f64", "mat/internal/matfuncs", "mat/dense.go"],
  [("dispatch on CPU features", "mat/internal/matfuncs/*_amd64.go, mat/internal/f32/*_amd64.go"), ("portable fallbacks", "*_noasm.go")],
  ["digests of results from three builds/runs of the same workload", "element-position permutations"],
  "cross-execution differential monitor: the same recorded workload replayed on AVX, SSE and pure-Go builds and compared",
  "amd64 only; transcendental functions compared with tolerance.")
p("P09", "Operations neither modify nor alias their operands",
  "An operation that returns a new matrix leaves its operands unchanged and shares no memory with them; an in-place operation changes only its receiver and gives the same values as its out-of-place counterpart, also when receiver and argument are the same matrix where that is allowed. Later changes to the shape or data of a result never show in the operands, and conversely.",
  ["inputs", "histories"], "all matrix methods and operators, all shapes, all sequences of later in-place changes",
  "tests look at the result once and never mutate it afterwards, so aliasing and operand corruption stay invisible",
  ["mat/dense.go", "mat/dense_new.go", "mat/gradfn"],
  [("allocation of results", "mat/dense.go")],
  ["snapshots of operands before and after each call and after scribbling on the results"],
  "aliasing monitor: snapshot, call, scribble, compare, over every method and operator",
  "Data(), WithBacking and Value() are documented to share and are excluded.")
p("P10", "Structural matrix operations place every element correctly",
  "Transposing, reshaping, slicing, extracting rows and columns, padding, splitting, concatenating, stacking, appending, resizing, swapping and reading or writing single elements move every element to the documented position and change no other, for all shapes; out-of-range requests are rejected. Structural operations that are inverses of one another compose to the identity.",
  ["inputs"], "all shapes and index ranges, both float types",
  "tests use one or two fixed shapes, mostly square or small",
  ["mat/dense.go", "mat/matrix.go", "mat/dense_new.go"],
  [("index arithmetic of the dense matrix", "mat/dense.go")],
  ["result shapes and all elements"],
  "structure monitor: element-by-element comparison with an index-wise reference, plus rejection of invalid requests",
  "Shapes up to ~140 per side.")
p("P11", "Matrix serialisation round-trips and rejects corrupt input",
  "Any matrix written and read back has the same type, shape, gradient requirement and bit-identical elements (special values included), alone or as part of a larger stream, and does not share memory with the serialised bytes. Decoding truncated or corrupted bytes returns an error or a well-formed matrix; it never panics, never reads outside the input and never yields a matrix whose shape and data disagree.",
  ["inputs", "fault_sequences"], "all matrices; all truncations and corruptions of the encoded bytes",
  "tests round-trip a couple of small matrices and never damage the bytes",
  ["mat/dense_marshaling.go", "mat/fbs/dense"],
  [("flatbuffers encoding and validation", "mat/dense_marshaling.go")],
  ["decoded matrix or error for each (possibly damaged) byte string", "page faults past the end of the input"],
  "round-trip and corruption monitor with guard pages behind the encoded bytes",
  "Single and multiple byte damage, truncations at every length, guard pages for over-reads.")
p("P12", "Saving and loading a model preserves it exactly",
  "A model dumped and loaded back has bit-identical parameters, hyperparameters and buffers and computes the same outputs, for every model the library offers; dumping does not change the model. Training resumed from a saved model and optimiser state continues exactly as if it had not been interrupted. Failures to write or read (full disk, truncated file) are reported as errors.",
  ["histories", "inputs", "fault_sequences", "crash_points"], "all model types and configurations, all save points in a training history, all truncations of the file",
  "tests save one toy model once; equality of all fields of every model type after any training history is out of their reach",
  ["nn/gob.go", "nn/param.go", "nn/buffer.go", "nn/model.go", "nn/embedding", "optimizers"],
  [("gob encoding of models", "nn/gob.go"), ("parameter state", "nn/param.go"), ("registration of types", "nn/*/model.go")],
  ["parameters, outputs and optimiser trajectories before and after the round trip"],
  "history monitor: twin trainings (interrupted and not) compared bit by bit, over every model type, with truncation and write faults",
  "Optimiser state is compared only where the optimiser keeps it with the parameter.")
p("P13", "Model traversal visits every parameter exactly once",
  "Traversing a model, listing its parameters, or applying a function to its sub-modules reaches every parameter and sub-module it contains exactly once, however they are nested in structures, pointers, interfaces, slices, arrays and maps, including when some entries are absent. Zeroing gradients leaves no gradient on any parameter.",
  ["programs", "inputs"], "all model structures, nested arbitrarily, with nil entries anywhere",
  "tests traverse a few fixed toy structures",
  ["nn/traversal.go", "nn/model.go"],
  [("reflection-based traversal", "nn/traversal.go")],
  ["the sequence of parameters and modules visited"],
  "traversal monitor: visits recorded and compared with the parameters planted in generated model structures",
  "Structures generated by reflection over all supported containers; parameters and modules shared by several paths are included; cyclic structures and unexported fields are not.")
p("P14", "An optimisation step updates every parameter exactly once",
  "One optimisation step applies exactly one update to each parameter that has a gradient, leaves the others alone, clears the gradients it consumed, and has finished all updates when it returns. If an update fails, the step reports an error, and still neither hangs nor crashes nor leaves work running.",
  ["schedules", "programs", "fault_sequences"], "all models, all sets of parameters with gradients, all schedules of the concurrent updates, all failing parameters",
  "tests run one step on tiny models; the updates run in goroutines, so early return and lost errors depend on the schedule",
  ["optimizers/optimizer.go", "nn/model.go", "nn/param.go"],
  [("concurrent update and wait", "optimizers/optimizer.go")],
  ["strategy invocations per parameter", "state at return", "goroutines after return"],
  "exactly-once monitor on a recording strategy with injected delays and failures, under the race detector",
  "Interleavings are perturbed by delays inside the strategy; both the plain and race builds run.")
p("P15", "Optimiser update rules follow their published formulas",
  "Over any sequence of gradients, each optimiser (SGD with momentum and Nesterov, AdaGrad, RMSProp, Adam, AdamW-style decay, RAdam, LAMB) moves every parameter by exactly the published update rule, with per-parameter state that is independent of other parameters and of the order in which parameters are updated. Learning-rate schedules follow their formulas and counters advance exactly once per step, batch or epoch.",
  ["histories", "inputs"], "all gradient histories, hyperparameters, parameter shapes and both float types",
  "tests check one or two steps with fixed gradients and mostly default hyperparameters",
  ["optimizers"],
  [("update rule of each strategy", "optimizers/*/*.go"), ("learning-rate decay", "optimizers/decay")],
  ["parameter values after each step"],
  "trajectory monitor: multi-step trajectories compared with an independent implementation of each rule",
  "The conventions of the implementation that differ between papers (epsilon placement, bias correction) are taken from its documentation.")
p("P16", "Gradient clipping bounds the gradients and keeps their direction",
  "Clipping by value brings every gradient element of every parameter into the interval and leaves elements already inside untouched. Clipping by norm scales all gradients of the model by one common factor so that the global norm does not exceed the bound, and changes nothing when it already does not. Parameters without gradients are left alone.",
  ["inputs", "programs"], "all models, gradients (absent ones included), bounds, norm orders and float types",
  "tests clip one fixed set of gradients",
  ["optimizers/gradclipper", "mat/dense.go"],
  [("clip by value and by global norm", "optimizers/gradclipper/clipper.go")],
  ["all gradients before and after"],
  "before/after monitor on all gradients of generated models",
  "Norms are recomputed independently in float64.")
p("P17", "Embedding look-ups and their gradients address the right rows",
  "Encoding a sequence of indices returns exactly the rows of those indices, in order; back-propagation accumulates on each row exactly the sum of the gradients of its occurrences and on no other row, also from concurrent graphs and after saving and loading. Traversal and optimisation reach exactly the embeddings that have gradients, and clearing the gradients, in whatever way, forgets them; a row whose value is replaced is looked up and trained like any other.",
  ["histories", "inputs", "schedules"], "all index sequences with repetitions, all interleavings of encode, backward, step, clear, save and load, concurrent use",
  "tests look up a few indices once",
  ["nn/embedding", "nn/param.go"],
  [("table of rows with gradients", "nn/embedding/model.go")],
  ["rows returned, gradients per row, parameters visited"],
  "model-based history monitor over random operation sequences, plus race-build stress",
  "Reference is a plain map of row gradients.")
p("P18", "Losses equal their definitions",
  "Every loss computes its textbook value and gradient for every prediction and target in its domain, including confident predictions, with the documented reduction over a sequence (sum or mean). Losses are non-negative where the definition is, and finite for finite logits of any magnitude.",
  ["inputs"], "all predictions, targets, class indices, weights and reductions, both float types",
  "tests check one fixed input per loss",
  ["losses/losses.go", "ag/operators.go"],
  [("loss graphs", "losses/losses.go")],
  ["loss values and gradients of the predictions"],
  "value and gradient monitor against an independent reference",
  "Gradients by finite differences of the reference.")
p("P19", "Recurrent layers follow their equations over whole sequences",
  "Each recurrent layer (simple, GRU, LSTM, bidirectional, sentence-state LSTM) computes its published recurrence for every sequence length and initial state, the same when a sequence is fed in one call or in consecutive chunks with the state carried over. Gradients flow to all parameters, inputs and initial states as the recurrence prescribes.",
  ["inputs", "histories"], "all sequence lengths, sizes, initial states, chunkings and merge modes",
  "tests run one or two steps with fixed weights",
  ["nn/recurrent", "nn/birnn", "nn/gnn/slstm"],
  [("recurrences", "nn/recurrent/*/*.go"), ("bidirectional merge", "nn/birnn/birnn.go"), ("sentence state", "nn/gnn/slstm/slstm.go")],
  ["outputs, states and gradients at every time step"],
  "sequence monitor against a float64 reference recurrence, with chunking and gradient oracles",
  "Trusts the reference recurrences, written from the published equations and the models' documentation.")
p("P20", "Attention mixes values as defined and never looks at masked positions",
  "Scaled dot-product, self and multi-head attention return the convex combination of the values that softmax weights over scaled query-key products define; with causal masking no output depends on a later position. Feeding a sequence incrementally with cached keys and values, in chunks of any size, gives the same outputs as feeding it at once.",
  ["inputs", "histories"], "all sequence lengths, head counts, cross/self modes, masks and chunkings",
  "tests check a single fixed sequence, and cached decoding one step at a time if at all",
  ["nn/attention"],
  [("masked softmax of scaled scores", "nn/attention/attention.go"), ("key/value cache", "nn/attention/selfattention, nn/attention/multiheadattention")],
  ["outputs, weights, caches, gradients; perturbation of later positions"],
  "reference, chunking and non-interference monitors over random sequences",
  "Non-interference is observed by perturbing later positions.")
p("P21", "Convolution and pooling equal the direct sliding-window sums",
  "Convolutions (1-D, 2-D, depthwise, pointwise) and max-pooling give for every kernel size, stride, channel count, mask and input size the direct sliding-window result, with one output per window that fits. Gradients reach every kernel, bias and input element that contributed.",
  ["inputs", "configurations"], "all kernel shapes, strides, channels, masks and input sizes that divide evenly",
  "tests use one fixed configuration each",
  ["nn/convolution", "mat/gradfn/maxpooling.go"],
  [("window extraction", "nn/convolution/*.go"), ("pooling", "mat/gradfn/maxpooling.go")],
  ["outputs and gradients"],
  "sliding-window reference monitor with gradient oracle",
  "Sizes up to ~12 per side.")
p("P22", "Normalisation layers normalise as defined",
  "Each normalisation layer (layer, batch, RMS, scale, adaptive, fixed, simple) returns its definition for every input sequence and parameter setting, treats the elements of the sequence as specified, and propagates the true gradients. Batch normalisation uses batch statistics and updates its running statistics when training, and uses only the running ones at inference.",
  ["inputs", "histories"], "all sequence lengths, sizes, magnitudes and train/infer histories",
  "tests check one fixed input",
  ["nn/normalization"],
  [("normalisation formulas", "nn/normalization/*/*.go")],
  ["outputs, gradients, running statistics"],
  "value, gradient and history monitor against a float64 reference",
  "Tolerance accounts for the documented epsilons.")
p("P23", "CRF decoding is optimal and its loss is the negative log-likelihood",
  "For every emission sequence and transition table the decoded tag sequence has the highest score among all tag sequences, and the loss is the negative log-probability of the target under the normalised distribution over all sequences: non-negative, finite for finite scores, and with gradients equal to expected minus observed counts.",
  ["inputs"], "all sequence lengths, tag counts, emissions, transitions and targets",
  "tests check one fixed sequence; optimality and normalisation quantify over exponentially many tag sequences",
  ["nn/crf"],
  [("Viterbi", "nn/crf/viterbi.go"), ("forward recursion", "nn/crf/crf.go")],
  ["decoded sequence, loss and gradients"],
  "exhaustive-enumeration oracle over all tag sequences of random small instances",
  "Up to ~1000 tag sequences per instance.")
p("P24", "Seeded randomness is reproducible, well distributed and thread-safe",
  "Generators with equal seeds give equal streams (those of the named algorithm, PCG XSL RR 128/64), different seeds different ones; a rejected call leaves a generator usable. Values lie in their documented ranges and follow their documented distributions; shuffles and permutations are permutations and samples without replacement contain no duplicates and reach every element. A generator can be shared by goroutines without races, and each value is delivered to one caller only.",
  ["histories", "inputs", "schedules"], "all seeds, ranges, call sequences and interleavings",
  "tests draw a few values from one seed",
  ["mat/rand", "mat/internal/rand"],
  [("locked generator", "mat/rand/lockedrand.go"), ("sampling helpers", "mat/rand/misc.go"), ("distributions", "mat/rand/normal, mat/rand/uniform, mat/rand/bernulli")],
  ["streams, ranges, histograms, multiset of values drawn concurrently"],
  "stream and distribution monitors with fixed-seed statistical bounds; race-build stress",
  "Statistical bounds are set at more than 7 standard deviations, with fixed seeds.")
p("P25", "Initialisers and dropout follow their distributions",
  "Each initialiser fills the whole matrix according to its documented distribution and gain, reproducibly from the generator's seed. Dropout keeps each element independently with the requested probability, scales the kept ones so the expectation is unchanged, passes gradients only through the kept ones with the same factor, and is the identity at rate zero. The initialisers of whole models (LSTM, self-attention and multi-head attention, spatial gating unit) set every parameter they declare to initialise, within the declared bounds, and no other.",
  ["inputs", "histories"], "all shapes, gains, probabilities, seeds and float types",
  "tests check one seed; distributions and the forward/backward agreement of masks are not visible in one sample",
  ["initializers", "mat/gradfn/dropout.go", "ag/rand.go"],
  [("distributions", "initializers/initializers.go"), ("mask shared by forward and backward", "mat/gradfn/dropout.go"), ("model initialisers", "nn/recurrent/lstm/lstm.go")],
  ["element statistics, zero patterns of values and gradients"],
  "distribution and mask-consistency monitors with fixed-seed statistical bounds",
  "Statistical bounds are set at more than 7 standard deviations, with fixed seeds.")
p("P26", "Feed-forward blocks and layer composition compute what they declare",
  "Linear, bias, activation, highway, gated-MLP, spatial-gating, MLP-mixer and stacked models compute the composition they declare on every element of a sequence, independently of sequence length where they are position-wise, and propagate gradients to all their parameters and inputs. Declared activations map to the named function.",
  ["inputs", "configurations"], "all sizes, depths, activations and sequence lengths",
  "tests run fixed tiny inputs for some of the blocks and none for others",
  ["nn/linear", "nn/activation", "nn/highway", "nn/gmlp", "nn/sgu", "nn/mlpmixer", "nn/model.go"],
  [("composition of modules", "nn/model.go, nn/*/*.go")],
  ["outputs and gradients"],
  "value and gradient monitor against a float64 reference of each block",
  "Trusts the references.")

p("P27", "Numbers are converted, compared and printed faithfully",
  "Conversions of scalars, slices and matrices between float types round correctly and keep every value the target type can hold, in both directions and with foreign implementations of the float interfaces. Equal, InDelta and the assertion helpers report exactly whether shapes and all elements agree (within delta), also for infinite elements and for NaN against a number, and fail the test exactly when they do not. Formatting a matrix with any floating-point verb, width and precision never fails and shows every element in its place, in the precision of its type, with aligned columns; String shows type, shape and all elements so that they read back. The scalar functions of package mat equal the functions they are named after.",
  ["inputs","configurations"], "all values (subnormal, infinite, NaN, beyond the range of the other type), shapes, type pairs, verbs, widths and precisions",
  "tests convert and compare a few small integers, and the expectations of the formatting tests are disabled",
  ["mat/float", "mat/dense_formatting.go", "mat/mathfunctions.go", "mat/matrix.go", "mat/mat_test_utils.go"],
  [("formatting", "mat/dense_formatting.go"), ("conversions and comparisons", "mat/float/floatslice.go")],
  ["converted values, comparison results, printed text, calls on a recording test object"],
  "real conversions, comparisons and formatted output read back by an independent oracle, bit for bit",
  "Comparisons within rounding of delta, and NaN against NaN under InDelta, are not judged.")
p("P28", "Every kind of graph node stands for the tensor it holds",
  "Whatever is asked first of an operator that is still being evaluated, by any number of goroutines (shape, size, data, items, elements, value, gradients), the answer is that of its finished value, and its function runs once. Parameters own a copy of their value; blocked tensors and buffers show the values of what they wrap, never require or receive gradients, and neither change nor clear those of the wrapped tensor. Every operator and every layer gives identical outputs and equal gradients whatever kind of node (matrix, parameter, embedding, buffer, blocked tensor, operator) holds each of its inputs.",
  ["inputs","schedules","configurations"], "all accessors in any order from any number of goroutines, all operators and layers with all kinds of nodes in each position",
  "tests read operators after they finished and mostly pass plain matrices; the delay between creation and evaluation is never controlled",
  ["ag/operator.go", "ag/operator_tensor.go", "ag/gradientblocker.go", "nn/param.go", "nn/buffer.go", "nn/embedding/embedding.go"],
  [("waiting accessors", "ag/operator.go"), ("blocked gradients", "ag/gradientblocker.go"), ("parameters", "nn/param.go")],
  ["answers of accessors during evaluation, number of evaluations, gradients of wrapped tensors, outputs over different kinds of nodes"],
  "slow functions of the monitor's own observed from several goroutines, differential runs over kinds of nodes, race detector",
  "Schedules are those the runtime produces with injected delays, not all of them.")
p("P29", "A model can be used by several goroutines at once",
  "Any layer, including one that was never used before, may be evaluated and differentiated by several goroutines at once, on inputs of their own or on shared ones: each gets the outputs it would get alone, the gradients of parameters and shared inputs are the sums over all passes, the parameters do not change, and there is no data race. What only reads a model (inference, decoding, saving, traversing, printing, encoding its parameters) can likewise be done by several goroutines at once with the results it has alone.",
  ["schedules","inputs","configurations"], "all layers and configurations, numbers of goroutines, mixes of inference, training passes and other reads, shared or separate inputs",
  "no test uses a layer from more than one goroutine; lost contributions and races show only under particular interleavings",
  ["nn", "ag/operator.go", "mat/dense_grad.go"],
  [("layers", "nn"), ("gradient accumulation", "mat/dense_grad.go")],
  ["outputs and gradients of concurrent uses against a use alone, race reports"],
  "concurrent uses of every kind of layer compared with a use alone, plain and under the race detector",
  "Schedules are those the runtime produces. Layers whose evaluation updates them (batch normalisation in training mode, dropout masks) are excluded.")

p("P30", "Nothing outlives its use: finished graphs are released",
  "Once the results of a forward pass are dropped, with or without a backward pass and optimisation steps in between, everything the pass created (its inputs, operators, values and gradients) becomes unreachable, although the models, parameters, embeddings and optimisers it used stay alive. Repeating passes and training steps on one model for any number of rounds does not keep increasing the number of live objects.",
  ["inputs","histories","configurations"], "all operators and all layers, passes with and without back-propagation and optimisation, any number of repetitions",
  "no test looks at what remains reachable after a pass; a retained graph changes no result until memory runs out",
  ["ag/operator.go", "ag/backward.go", "gradfn", "nn", "nn/param.go", "optimizers/optimizer.go"],
  [("operators and their functions", "ag/operator.go"), ("layers", "nn"), ("parameters and their state", "nn/param.go")],
  ["weak pointers to what finished passes created, number of live heap objects over windows of repeated passes"],
  "weak references to the products of finished passes watched across garbage collections, heap object counts over windows of repetitions",
  "Growth is judged over windows of hundreds (quick) to a thousand (thorough) repetitions: one object retained per pass is seen, one in a thousand passes is not.")
p("P31", "A layer's results depend only on its current parameters and inputs",
  "What a layer was used for before leaves no trace in its results: after any number of passes over other inputs (the same tensors with other contents included), with other parameter values (replaced, set by element, modified in place, loaded as data, or moved by an optimiser), with or without back-propagation, its outputs and gradients are those of its definition for the parameters and inputs it has now. It leaves the list of inputs as it was and does not depend on what becomes of that list afterwards.",
  ["histories","inputs","configurations"], "all layers and configurations, all sequences of uses, ways of changing parameters and inputs",
  "tests build a fresh layer for a single evaluation: a stale cached value, however it is keyed, is never looked at",
  ["nn", "nn/param.go", "ag/operator.go", "mat/dense.go"],
  [("layers", "nn"), ("parameters", "nn/param.go")],
  ["outputs of every use and gradients of the last against a reference implementation and finite differences"],
  "random histories of uses compared, at every step, with reference implementations that have no history",
  "Layers whose definition has a history (batch normalisation in training mode, dropout masks) are checked by P22 and P25 instead.")

def main():
    claimed = sys.argv[1:] or json.load(open(root+"/tools/claimed.json"))
    json.dump(claimed, open(root+"/tools/claimed.json","w"))
    with open(root+"/properties.jsonl","w") as f:
        for q in P:
            assert len(q["title"])<=80, q["title"]
            f.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"],
              quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"],
              anchors=dict(files=q["files"], mechanism=[dict(name=a, where=b) for a,b in q["mech"]],
                           observe_at=q["observe"], hook_needed=None)))+"\n")
    man = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[])
    for q in P:
        if q["id"] in claimed:
            man["checks"].append(dict(property=q["id"], quick_cmd=f"VERIF_TIER=quick ./run.sh {q['id']}",
              thorough_cmd=f"VERIF_TIER=thorough ./run.sh {q['id']}", technique="runtime monitoring: "+q["tech"],
              level=q["level"], level_note=q["note"]))
        else:
            man["not_applicable"].append(dict(property=q["id"], reason="the check is not built yet"))
    json.dump(man, open(root+"/MANIFEST.json","w"), indent=1)
main()
