#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))))

p("C01", "Matrix arithmetic equals the mathematical definition for every shape",
  "For every pair of matrices of compatible shape and every mix of float32/float64 operands, the arithmetic operations (add, subtract, element-wise product and division, their scalar and in-place forms, matrix product, transposed product, dot product, sum, max, min, argmax, cumulative sum, norm, normalisation, element-wise maximum/minimum, abs, clip) return, in the receiver's type and the documented shape, the mathematically defined result up to rounding of that type. This holds for every size, in particular around vector-unit block boundaries and for empty, 1x1, single-row and single-column matrices, and NaN/Inf operands propagate as IEEE arithmetic prescribes for the element-wise arithmetic (add, subtract, product, division).",
  ["inputs"], "all shapes (including 0, 1 and sizes straddling every SIMD block), all values, both element types and mixed operands",
  "The unit tests use a handful of hand-written small matrices; the result depends on size-specific assembly paths (blocks of 4/8/16/32, tails), on offsets, and on the operand type pair, none of which a fixed list can cover.",
  ["mat/dense.go", "mat/matrix.go", "mat/internal/f32", "mat/internal/f64", "mat/internal/matfuncs"],
  [("vectorised kernels with scalar tails", "mat/internal/matfuncs, mat/internal/f32/asm32, mat/internal/f64/asm64"), ("dtype dispatch and conversion", "mat/dense.go")],
  ["mat.Matrix methods"])

p("C02", "Structural matrix operations move exactly the right elements",
  "Every operation that rearranges, selects, pads, joins or constructs matrices (transpose, reshape, flatten, resize, slice, range, row/column extraction, stacking, vertical concatenation, splitting, row/column padding, row appending, augmentation, row swap, copy/clone, element read and write, vector/identity/one-hot/initialised construction, map and non-zero iteration) produces a matrix of the documented shape whose every element is exactly the designated source element, the documented fill value or the callback's value. Inverse pairs compose to the identity: transposing twice, splitting then concatenating, flattening then reshaping, writing then reading.",
  ["inputs"], "all shapes and all in-range indices, sizes and split points, both element types",
  "Index arithmetic is only sampled on a few fixed shapes; row/column mix-ups vanish on square or symmetric inputs and off-by-one errors only show at specific bounds.",
  ["mat/dense.go", "mat/dense_new.go", "mat/matrix.go"],
  [("row-major index arithmetic", "mat/dense.go"), ("constructor options", "mat/dense_new.go")],
  ["mat.Matrix methods", "mat.NewDense and its options", "mat.Stack", "mat.ConcatV"])

p("C03", "Results never alias inputs; in-place operations modify only their receiver",
  "A matrix returned by any operation that is documented as returning a new matrix shares neither elements nor shape with the receiver or any argument, so later in-place modification or reshaping of one never changes the other; it starts without a gradient and without requiring one. An in-place operation changes nothing except its receiver's elements or shape (not its gradient) and returns that receiver. Constructors and setters documented as copying are independent of the caller's data afterwards.",
  ["histories", "inputs"], "all sequences of matrix operations over a pool of live matrices, interleaving constructors, pure operations and in-place mutations",
  "A test checks the result of one call; sharing only becomes visible when a later, different call mutates one of the two parties.",
  ["mat/dense.go", "mat/dense_new.go"],
  [("fresh backing array and shape for each result", "mat/dense.go, makeDense/malloc"), ("copying constructors", "mat/dense_new.go")],
  ["values and shapes of every live matrix after every call"])

p("C04", "Element-wise math functions are accurate over the whole floating-point range",
  "Exp, Log, Sqrt, Pow, Sigmoid, the trigonometric/hyperbolic functions and every activation function return, for every representable finite input, the true value: Exp, Log, Sqrt, Pow and Sigmoid to within a small relative error of the element type, the others to within a small multiple of the type's precision at the scale of the input or value (a formula that cancels is not penalised for it). For Exp, Log, Sqrt, Pow and Sigmoid special values (zero, subnormals, +-Inf, NaN, overflow and underflow boundaries) give the limits that mathematics prescribes. Derivatives of the element-wise operators are finite wherever the true derivative is representable. The value does not depend on the element's position in the matrix or on the matrix size.",
  ["inputs"], "all float32/float64 bit patterns as elements, at every position of matrices of every length",
  "Tests check a few round values near 1; vectorised polynomial kernels break at range-reduction boundaries, in tail elements, or at saturation, which a few samples never touch.",
  ["mat/dense.go", "mat/mathfunctions.go", "mat/internal/matfuncs", "mat/gradfn/misc.go"],
  [("assembly Exp/Log kernels with special-value handling", "mat/internal/matfuncs"), ("scalar activation formulas", "mat/gradfn/misc.go")],
  ["mat.Matrix Exp/Log/Sqrt/Pow/Sigmoid", "ag element-wise operators"])

p("C05", "Every operator's backward is the exact derivative of its forward",
  "For every differentiable operator and every admissible operand shape, propagating an arbitrary output gradient adds to each operand that requires gradients exactly the vector-Jacobian product of the operator's forward function, with the operand's own shape, and leaves operands that do not require gradients untouched. The forward value equals the operator's mathematical definition and propagation never fails, panics or blocks for an output gradient of the output's shape.",
  ["inputs", "configurations"], "all operators, operand shapes (row, column, matrix, scalar), operand values away from non-differentiable points, output gradients, and subsets of operands requiring gradients, both element types",
  "The existing tests fix one operand shape and one output gradient per operator; transposed or row-shaped operands, partial requires-grad subsets and unusual arguments are not exercised.",
  ["mat/gradfn", "ag/operators.go", "ag/operator.go"],
  [("hand-written Backward per operator", "mat/gradfn/*.go"), ("gradient accumulation", "mat/dense_grad.go")],
  ["ag operators", "Grad() of operands after ag.Backward"])

p("C06", "Backward over any computation graph yields the total derivative and terminates",
  "For every acyclic graph built from operators, with arbitrary sharing of intermediate results, several outputs, gradient-stopped branches and leaves that do or do not require gradients, one call to Backward returns, having added to every requiring leaf the sum over all paths of the derivatives of the outputs weighted with their output gradients. Leaves behind a gradient stop or not requiring gradients receive nothing from those paths, and every intermediate result that requires gradients exposes its own total derivative.",
  ["programs", "inputs"], "all DAGs of operators (fan-in, fan-out, diamonds, repeated operands, roots that are ancestors of other roots), all requires-grad assignments, and all choices of outputs",
  "Tests use a few fixed graphs; miscounting pending gradients for particular sharing patterns either loses gradient or hangs only on that pattern.",
  ["ag/backward.go", "ag/operator.go", "ag/gradientblocker.go"],
  [("pending-gradient counting before propagation", "ag/operator.go prepareBackwardPass"), ("propagation when the count reaches zero", "ag/operator.go executeBackward")],
  ["Grad() of leaves and intermediate nodes after ag.Backward"],
  [("pendingGrads", "gradients still expected by a node", "ag/operator.go"), ("backwardState", "idle/pending/ongoing phase", "ag/operator.go")])

p("C07", "Concurrent execution gives the same values and gradients as sequential execution",
  "Whatever the scheduling, number of processors and whether operators run synchronously, asynchronously or with forced synchronous execution, the forward values are identical and the gradients equal up to summation order to those of sequential execution, without data races or deadlock. Independent graphs evaluated and differentiated concurrently over shared parameters leave in each parameter the sum of all their gradients, with no contribution lost.",
  ["schedules", "programs"], "all schedules of the worker goroutines, GOMAXPROCS settings, async/sync choices per operator, and numbers of goroutines sharing parameters",
  "Unit tests run one schedule on tiny graphs; a lost update or missing wait needs concurrent accumulation into one tensor or a consumer that runs before its producer.",
  ["ag/operator.go", "ag/backward.go", "mat/dense_grad.go"],
  [("broadcast channels for value and gradient", "ag/operator.go"), ("mutex around gradient accumulation", "mat/dense_grad.go"), ("forward concurrency limiter", "ag/operator.go")],
  ["values, Grad() and the race detector's report"])

p("C08", "Gradients accumulate, preset, zero, and recover from a rejected Backward",
  "Gradients accumulate by addition over any number of independent forward/backward rounds until zeroed; zeroing leaves no gradient and the next round starts afresh; accumulating never modifies or retains the tensor passed in. A gradient already present on an output is used as that output's gradient, a scalar output without one gets 1, and a non-scalar output without one makes Backward return an error while leaving the graph fully usable: gradients of all nodes can be read and zeroed, and supplying the gradient and calling Backward again gives the correct result.",
  ["histories", "inputs"], "all sequences of forward, backward, preset, accumulate, zero and rejected-backward steps over shared parameters, both element types, mixed gradient types",
  "Tests run a single backward per graph; the state left by an earlier round or by a rejected call only matters to a later one.",
  ["ag/backward.go", "ag/operator.go", "mat/dense_grad.go", "nn/param.go"],
  [("output gradient assignment", "ag/operator.go assignOutputGradient"), ("backward state machine reset", "ag/operator.go"), ("AccGrad/ZeroGrad", "mat/dense_grad.go")],
  ["Grad()/HasGrad()/ZeroGrad()/AccGrad() on parameters and operators", "error result of ag.Backward"])

p("C09", "Matrix serialisation round-trips exactly",
  "Encoding a matrix in binary form or through gob and decoding it, into a fresh or a previously used matrix, yields a matrix of the same element type and shape with bit-identical elements and the same requires-gradient flag, without a gradient left over from a previous content. The decoded matrix is independent of the buffer it was decoded from, and the encoded bytes are independent of the matrix.",
  ["inputs", "histories"], "all shapes including empty ones, all bit patterns including NaN payloads, -0, Inf and subnormals, both element types, direct and nested in interface values, slices and maps",
  "Tests round-trip a few small matrices and never touch the buffer or the source afterwards.",
  ["mat/dense_marshaling.go", "mat/fbs/dense"],
  [("flatbuffers encoding with raw data bytes", "mat/dense_marshaling.go")],
  ["MarshalBinary/UnmarshalBinary", "encoding/gob over mat.Matrix / mat.Tensor values"])

p("C10", "Saved models restore to identical models, and failed saves are reported",
  "A model of any supported layer composition dumped with the library's model dump and loaded back yields the same outputs on every input, the same parameters and buffers bit for bit with the same training flags, and the same optimiser state, so that continuing training from the loaded copy follows exactly the same trajectory as continuing from the original. If the dump cannot be completely written, flushed and closed, the dump call reports an error; dumping to and loading from a file leaves no file open; loading a truncated dump, from a failing source, or from a source that holds something other than a model returns an error and never a silently different model.",
  ["inputs", "histories", "fault_sequences"], "all model architectures provided by the library, all parameter values, training prefixes before the dump, dump destinations failing at any byte or system call, and truncation points of the file",
  "Tests dump one small model without training state and to a destination that never fails.",
  ["nn/gob.go", "nn/param.go", "nn/buffer.go", "nn/embedding", "optimizers", "mat/dense_marshaling.go"],
  [("gob encoding of model structs with registered concrete types", "nn/gob.go and init() of each package"), ("binary encoding of matrices", "mat/dense_marshaling.go")],
  ["nn.Dump/Load, nn.DumpToFile/LoadFromFile", "outputs and training of the loaded model"])

p("C11", "Traversal reaches every parameter of a model, and the optimiser each one once",
  "For every model value, however its parameters are held (exported fields of sub-models, pointers, interfaces, and slices, arrays, string- or integer-keyed maps and sync.Maps of parameters or models), walking the parameters visits every trainable parameter exactly as often as it is reachable, in a complete pass that nil or non-parameter elements do not cut short, and it never invents one. Embedding tables contribute exactly the embeddings that currently carry a gradient. The parameter stream used by optimisers and clippers delivers every parameter exactly once, however often it is shared, and is closed when its context is cancelled. Model-wide operations built on the walk (zeroing gradients, applying a function to sub-models) therefore affect all and only the model's parameters.",
  ["inputs", "configurations"], "all model structures (nesting depth, container kinds, nil entries, shared sub-models, embedding tables) and all models shipped with the library",
  "Tests enumerate a few fixed structs; reflection-based traversal fails on the container shape nobody tried.",
  ["nn/model.go", "nn/traversal.go", "nn/module.go", "nn/embedding/model.go"],
  [("reflection walk over exported fields", "nn/traversal.go"), ("custom traversers", "nn/embedding/model.go")],
  ["nn.Parameters, nn.TraverseParams, nn.ForEachParam, nn.ZeroGrad, nn.Apply"])

p("C12", "Optimisers apply exactly their documented update rule over any history",
  "For every configuration and every history of gradients, including steps in which some parameters receive no gradient, each optimiser (SGD with optional momentum and Nesterov momentum, AdaGrad, RMSProp, Adam and AdamW, RAdam, LAMB) changes each parameter by exactly the update rule its package documents, computed from that parameter's own history (RAdam takes the unrectified step while the variance is not tractable), consumes the gradient, and leaves every other parameter unchanged. State created on first use has the parameter's shape and type, and a state left by a different kind of optimiser is rejected with an error instead of being misread. The default configurations are admissible and lower a simple loss.",
  ["histories", "inputs", "configurations"], "all hyper-parameter settings, parameter shapes and types, and sequences of gradients and skipped steps of any length",
  "Tests check one or two steps of one configuration; bias corrections, variance rectification and momentum bookkeeping only deviate after several steps or with skipped parameters.",
  ["optimizers/sgd", "optimizers/adagrad", "optimizers/rmsprop", "optimizers/adam", "optimizers/radam", "optimizers/lamb", "optimizers/optimizer.go"],
  [("per-parameter state attached to the parameter", "nn/param.go State"), ("update computation", "optimizers/*/")],
  ["parameter values after each optimisation step", "parameter state"])

p("C13", "An optimisation step is complete and reports errors when the call returns",
  "When the optimise call returns, every parameter of the model that had a gradient has been updated exactly once and no update is still in progress, for every number of parameters and every strategy latency; parameters without gradient are not touched. If updating any parameter fails, the call returns an error, never panics and never loses it, even when many fail.",
  ["schedules", "fault_sequences", "inputs"], "all numbers of parameters, interleavings and delays of the per-parameter updates, and subsets of parameters whose update fails",
  "Tests use one fast parameter, for which a missing wait or lost error is invisible.",
  ["optimizers/optimizer.go"],
  [("one goroutine per parameter joined before returning", "optimizers/optimizer.go"), ("error channel", "optimizers/optimizer.go")],
  ["optimizers.Optimizer.Optimize with an instrumented strategy"])

p("C14", "Gradient clipping bounds gradients and preserves direction",
  "Clipping by value leaves every gradient element equal to the original limited to the given range, and clipping by norm scales all gradients of the model jointly by one non-negative factor so that their total p-norm does not exceed the given maximum, leaving them unchanged when it already did not (up to the documented 1e-7 in the denominator). Parameters without gradient are ignored, shapes and parameter values are never changed, and a norm order that is not above one is refused before anything is changed.",
  ["inputs"], "all sets of parameter gradients (shapes, magnitudes, absent gradients), norms p and limits",
  "Tests clip one or two fixed matrices that all have gradients.",
  ["optimizers/gradclipper/clipper.go", "mat/dense.go"],
  [("total norm over all parameters", "optimizers/gradclipper/clipper.go"), ("ClipInPlace", "mat/dense.go")],
  ["gradients after clipping"])

p("C15", "Learning-rate schedules decay monotonically from the initial to the final rate",
  "For every valid configuration and step, each schedule returns the rate of its formula: the exponential one interpolates geometrically from the initial rate and reaches the final rate at its configured number of steps, the hyperbolic one is initial/(1+rate*step) limited below by the final rate. Over the steps of a schedule the rate never increases, stays positive, and never falls below the final rate. Configurations whose initial rate is below the final one are rejected.",
  ["inputs", "histories"], "all initial/final rates, iteration counts and step sequences",
  "Tests evaluate a few steps of one configuration.",
  ["optimizers/decay/exponential", "optimizers/decay/hyperbolic"],
  [("closed-form decay", "optimizers/decay/*")],
  ["Decay(lr, t) over whole schedules"])

p("C16", "CRF loss and Viterbi decoding agree with exhaustive enumeration",
  "For every transition matrix, emission sequence and gold sequence, the negative log-likelihood equals the log of the sum over all label paths of the exponentiated path scores minus the gold path score, so it is non-negative and the path probabilities sum to one, and its gradients are the differences of expected and observed counts. Viterbi decoding returns a path whose score is maximal among all label paths. Both remain finite and correct for large scores and long sequences.",
  ["inputs"], "all label counts, sequence lengths, transition and emission scores (including large magnitudes and ties) and gold paths",
  "Tests use one fixed example with moderate scores.",
  ["nn/crf/crf.go", "nn/crf/viterbi.go", "ag/operators.go"],
  [("forward algorithm", "nn/crf/crf.go"), ("Viterbi with backpointers", "nn/crf/viterbi.go")],
  ["crf.Model NegativeLogLoss and Decode", "gradients of emissions and transitions"])

p("C17", "Recurrent layers compute their recurrence, step by step and causally",
  "For all inputs and parameters, the recurrent layers (simple recurrent network, GRU, LSTM) produce at every step the state defined by their equations from the previous state, their gradients match the exact derivatives through time, processing a sequence at once equals processing it step by step with the carried state from any split point, and an output never depends on later inputs. The bidirectional wrapper's output at each position combines the forward state over the prefix and the backward state over the suffix by the configured merge.",
  ["inputs", "histories"], "all sizes, parameter values, sequence lengths, initial states, split points and merge types",
  "Tests check two or three steps of one fixed parameter set.",
  ["nn/recurrent", "nn/birnn"],
  [("Next/Forward recurrences", "nn/recurrent/*"), ("forward and reversed passes merged", "nn/birnn/birnn.go")],
  ["layer outputs, cell states and parameter gradients"])

p("C18", "Attention outputs are convex combinations that respect the causal mask and cache",
  "For all inputs, attention weights are non-negative and sum to one, each output is the weight-averaged value vector with weights given by the scaled dot-product softmax, and gradients are exact. With a causal mask (self-attention), position i never depends on positions after i, and feeding a sequence incrementally, in chunks of any size with the returned cache, equals feeding it at once. Multi-head attention equals the output projection of the concatenation of its heads' results.",
  ["inputs", "histories"], "all sequence lengths, dimensions, heads, masks, scale factors, and ways to split the sequence into cached chunks",
  "Tests cover a few fixed sequences and no chunked evaluation of mixed sizes.",
  ["nn/attention"],
  [("masked softmax", "nn/attention/attention.go"), ("key/value cache appended per call", "nn/attention/selfattention/model.go"), ("per-head cache", "nn/attention/multiheadattention/model.go")],
  ["attention outputs, weights, caches and gradients"])

p("C19", "Normalisation layers produce the defined normalised outputs",
  "For every input, each normalisation layer (layer norm, simple layer norm, ada norm, RMS norm, scale norm, fix norm, batch norm in training and inference) produces the output of its definition with exact gradients (where the statistic it divides by is not zero); outputs are invariant to the shifts and scalings its definition cancels, finite for constant and zero inputs where the epsilon is documented to guarantee it, and batch norm's running statistics follow their exponential update only in training mode. An empty list of inputs gives no outputs and changes nothing.",
  ["inputs", "histories"], "all vector sizes, batch sizes, parameters, epsilons, constant or extreme inputs, and train/inference histories",
  "Tests check one vector per layer.",
  ["nn/normalization"],
  [("mean/variance computation per layer", "nn/normalization/*"), ("running mean and deviation buffers", "nn/normalization/batchnorm/batchnorm.go")],
  ["layer outputs, gradients and running statistics"])

p("C20", "Convolution and pooling equal their sliding-window definitions",
  "For every input, kernel size, stride, channel configuration and depth mode, the convolution layers and functions equal the sliding-window cross-correlation definition with their output sizes, and max pooling yields the maximum of each window, with gradients flowing to exactly the contributing elements. The 1x1 convolution equals a per-position linear map.",
  ["inputs", "configurations"], "all input shapes, kernel shapes, strides, channels, depthwise or full mode, window sizes, and values of any sign",
  "Tests use a few fixed non-negative, mostly square inputs.",
  ["nn/convolution", "nn/pooling", "mat/gradfn/maxpooling.go"],
  [("slices dotted with kernels", "nn/convolution/convolution.go"), ("argmax bookkeeping", "mat/gradfn/maxpooling.go")],
  ["layer outputs and gradients"])

p("C21", "Loss functions return the defined loss and gradient for all predictions",
  "For all predictions and targets, each loss of the library (MAE, MSE, NLL, cross-entropy, weighted cross-entropy, focal and weighted focal loss, perplexity, the distance and quantisation losses, policy-gradient loss, and the sequence variants, with and without averaging) equals its definition and its gradient with respect to the predictions is exact; losses that are non-negative by definition never come out negative beyond rounding. The softmax-based losses stay finite and accurate relative to the magnitude of the logits however large these are.",
  ["inputs"], "all prediction vectors (including extreme logits), targets, class indices, weights, gammas and batch sizes",
  "Tests evaluate one or two fixed vectors with moderate logits.",
  ["losses/losses.go", "ag/operators.go"],
  [("log-sum-exp formulation", "ag/operators.go LogSumExp"), ("loss composition", "losses/losses.go")],
  ["loss value and prediction gradients"])

p("C22", "Softmax family: valid distributions, stable under shifts and extreme scores",
  "For every finite score vector (row or column, any size, any magnitude), softmax and sparsemax return non-negative vectors summing to one that are ordered like the scores and unchanged by adding a constant to all scores; softmax is the normalised exponential, sparsemax the Euclidean projection on the simplex, log-softmax the logarithm of softmax and log-sum-exp lies between the maximum and the maximum plus log n. None overflows, and their gradients are those of the definitions.",
  ["inputs"], "all score vectors including large magnitudes, ties, wide ranges, all-negative and single-element vectors",
  "Tests use a few short vectors of moderate positive scores.",
  ["mat/dense.go", "mat/gradfn/softmax.go", "mat/gradfn/sparsemax.go", "mat/gradfn/sparsemax_loss.go", "mat/gradfn/scalarmax.go", "ag/operators.go"],
  [("max-subtraction", "mat/dense.go Softmax"), ("threshold search on sorted scores", "mat/gradfn/sparsemax.go")],
  ["ag.Softmax, ag.SparseMax, ag.SparseMaxLoss, ag.LogSoftmax, ag.LogSumExp, Matrix.Softmax"])

p("C23", "Randomness is reproducible, in range and correctly distributed",
  "The same seed always reproduces the same stream for every generator, initialiser and dropout mask, whatever other generators do concurrently; every draw lies in its documented range, shuffles and unique choices are permutations and duplicate-free subsets in which every admissible value can occur, all equally likely, a weighted choice follows its probabilities and never picks an outcome of probability zero, and values set by the initialisers, and by the layers with an initialisation of their own, follow the documented distribution and bounds, leaving all other parameters alone. Dropout keeps each element with probability 1-p scaled by 1/(1-p), zeroes the others, applies the same mask to gradients, and is the identity for p=0.",
  ["inputs", "histories"], "all seeds, ranges, shapes, probabilities and interleavings of draws",
  "Tests pin a few streams for single seeds and never examine ranges, exclusions or distribution.",
  ["mat/rand", "mat/internal/rand", "initializers", "ag/rand.go", "mat/gradfn/dropout.go", "nn/dropout", "nn/recurrent/lstm/lstm.go", "nn/attention", "nn/sgu"],
  [("locked PCG generator", "mat/rand/lockedrand.go"), ("Bernoulli mask", "mat/rand/bernulli"), ("initialisers", "initializers/initializers.go")],
  ["generator outputs, initialised matrices, dropout outputs and gradients"])

p("C24", "Embedding tables deliver, train and reset exactly the looked-up rows",
  "Looking up an embedding returns the current vector of that index, and rejects indices outside the table. During training exactly the looked-up embeddings receive gradients, repeated look-ups of an index accumulate into one gradient, the optimiser updates only those, and after an optimisation step or zeroing no gradient is left, whether or not the table was frozen in between; this holds for copies shared between models, under concurrent look-ups, and after saving and loading.",
  ["histories", "schedules", "inputs"], "all look-up/backward/optimise/zero/save-load sequences, index multisets with repetitions, table sizes, and concurrent users",
  "Tests make one or two look-ups in one round.",
  ["nn/embedding", "optimizers/optimizer.go"],
  [("record of embeddings with gradients", "nn/embedding/model.go"), ("parameter traversal limited to those", "nn/embedding/model.go TraverseParams")],
  ["embedding vectors, gradients, enumerated parameters"])

p("C25", "Feed-forward and composite models compute their published definition",
  "For all inputs and parameters, the remaining layers (linear, activation, highway, gated MLP with spatial gating, MLP mixer, squared distance, flatten, dropout-free composition, sentence-state LSTM) return the outputs of their definition for every admissible configuration of sizes, and back-propagation through the whole model gives the exact derivative of the output with respect to every parameter and input. Passing a list of inputs gives, in order, the results of the individual inputs wherever positions are defined to be independent, and an empty list gives no results. A newly built layer, of these and of all other kinds, has the components, sizes, element type and configuration its arguments ask for, with parameters of its own.",
  ["inputs", "configurations"], "all layer sizes (including unequal input/output sizes), sequence lengths, activations and parameter values",
  "Tests use one size and one parameter set per model, often with equal input and output sizes.",
  ["nn/linear", "nn/activation", "nn/highway", "nn/gmlp", "nn/sgu", "nn/mlpmixer", "nn/sqrdist", "nn/flatten", "nn/gnn/slstm", "nn/module.go"],
  [("layer Forward implementations", "nn/*/")],
  ["Forward outputs and gradients of all parameters and inputs"])

p("C26", "Invalid arguments are rejected and leave everything unchanged",
  "Every matrix and operator call whose shapes, indices, sizes or dimensions violate its documented precondition is rejected by a panic or error rather than returning a wrong result, reading or writing outside the matrix, or blocking, and after the rejection every operand still has its previous shape and elements. The same holds for a backward pass given a gradient whose size is not that of the operator's result, which leaves the gradients of the operands as they were, and for losses with a class outside the predictions, convolutions whose kernel or stride does not fit, and layers given an input vector of another size than theirs, which work as before afterwards. An operator that fails when it runs, in the forward or the backward pass, synchronously or not, is reported or ends the process; it is not ignored and nothing waits for it for ever. Valid calls are never rejected.",
  ["inputs"], "all operations with incompatible shapes, out-of-range or negative indices and sizes, including values that alias valid flat offsets",
  "Tests try a few invalid calls; an index check on the flattened offset or one dimension only accepts many invalid arguments.",
  ["mat/dense.go", "mat/dense_new.go", "mat/gradfn"],
  [("precondition checks", "mat/dense.go"), ("operand checks in Forward/Backward", "mat/gradfn")],
  ["panic/error outcome and operands afterwards"])

p("C27", "Float views and text formatting are faithful for every value",
  "Converting scalars and slices between element types returns the nearest value of the target type, equality and within-delta comparison agree with element-wise comparison of the converted values (NaN equals nothing and is not within delta of a number), and constructing matrices or scalars from float values keeps them. Formatting a matrix with any floating-point verb, width and precision prints every element in row-major order with the digits the standard library gives for that element in its own type (the shortest exact ones without a precision, which read back as the same value), in bracketed rows of equal width with aligned decimal points, and never fails or changes the matrix. The string representation names the matrix's shape and all its elements.",
  ["inputs"], "all values, both element types, all floating-point verbs, widths and precisions, all shapes",
  "Tests format a few matrices with two or three verbs and no width.",
  ["mat/float", "mat/dense_formatting.go"],
  [("typed value and slice wrappers", "mat/float"), ("column-aligned formatting", "mat/dense_formatting.go")],
  ["float.Float / float.Slice methods", "fmt output of matrices"])

p("C28", "Training any model reduces to plain gradient descent on its loss",
  "For every sequence of training rounds over a model built from the library's layers (build graph, compute loss, backward, optional clipping, optimise), the parameter trajectory equals that of the reference optimiser fed with the exact mathematical gradients, independent of whether a model, its saved-and-loaded copy or a re-built graph is used in any round. After each round all gradients have been consumed, and inference between rounds does not change parameters or later training.",
  ["histories", "programs", "inputs"], "all layer compositions, batch sequences, optimisers, and interleavings of training, inference and save/load",
  "Each component is tested alone on one step; errors in their interaction (stale gradients, state keyed to the wrong parameter, graph reuse) need multi-round histories.",
  ["ag", "nn", "optimizers", "losses"],
  [("graph execution", "ag"), ("parameter state", "nn/param.go"), ("optimiser loop", "optimizers/optimizer.go")],
  ["parameter values after every round"])

p("C29", "Wrappers of a matrix show and change exactly the value they stand for",
  "A parameter, a buffer, a tensor with stopped gradients, an embedding, a synchronous or asynchronous operator, and any nesting of these report the shape, size, element type, elements and item of the current value they stand for, from the first access on and for every concurrent user, and reading or assigning an element through any of them reads or changes exactly that element of that value; invalid indices and values are refused without change. Buffers and stopped tensors never require, hold or pass on gradients, whatever is accumulated into them or flows back to them; all others hold exactly the sum of the gradients accumulated into them until zeroed, as copies. A parameter starts with a copy of the given value, requires gradients unless told otherwise, and forgets only its optimiser state and gradient when its value is replaced.",
  ["inputs", "histories", "schedules"], "all nestings of wrappers, sequences of reads, assignments, gradient accumulation, zeroing, value replacement and backward passes",
  "Tests look at each wrapper once, with one value and no nesting.",
  ["nn/param.go", "nn/buffer.go", "ag/gradientblocker.go", "ag/operator.go", "ag/operator_tensor.go", "nn/embedding/embedding.go", "mat/dense_grad.go"],
  [("delegation to the value", "ag/operator_tensor.go"), ("gradient blocking", "ag/gradientblocker.go"), ("parameter value and state", "nn/param.go")],
  ["mat.Tensor methods of every wrapper"])

p("C30", "Results do not depend on processor features, build tags or word size",
  "Every guarantee about values (arithmetic, structural and element-wise operations, operators and their gradients, layers, losses, optimisers, serialisation, random draws, rejection of invalid arguments) holds just the same on a processor without the vector extensions, in a build without assembly and on a 32-bit architecture: the code selected there computes the same functions for every size and value, and the same seed gives the same stream of fixed-size draws.",
  ["inputs", "configurations"], "all inputs of the other properties, on every combination of vector extensions, build tags and word sizes",
  "Tests run in one build on one processor, so that most alternative code paths are never executed through the library.",
  ["mat/internal/matfuncs", "mat/internal/f32/asm32", "mat/internal/f64/asm64", "mat/dense.go", "mat/internal/rand"],
  [("choice of the vector kernels", "mat/internal/matfuncs"), ("portable kernels", "mat/internal/matfuncs/exp_purego.go"), ("portable linear algebra", "mat/internal/f32/asm32/stubs_noasm.go")],
  ["results of the library's functions in each build and environment"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
