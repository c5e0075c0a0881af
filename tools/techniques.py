# technique and level note per property
T = {
"C01": ("property-based testing against an error-tracked scalar reference", "Random shapes around every SIMD block size, both element types and mixed operands, guarded backing arrays; sampled, not exhaustive."),
"C02": ("property-based testing against an index-level reference model", "Random shapes with all-distinct elements, so that every misplaced element is visible; sampled."),
"C03": ("stateful model-based testing over a pool of live matrices", "Random operation histories; after each call every live matrix is compared with the model; sampled."),
"C04": ("property-based testing against reference functions in higher precision", "Random bit patterns and boundary values at every position; sampled."),
"C05": ("property-based testing against a reference automatic differentiation", "Every operator over random shapes, requires-grad subsets and output gradients, compared with an independent scalar tape; sampled."),
"C06": ("property-based testing over random computation graphs against a reference automatic differentiation", "Random straight-line programs over the operators, executed on the real graph and on an independent scalar tape; sampled."),
"C07": ("metamorphic testing of random graphs under random schedules, plus the race detector", "Sequential, concurrent, delayed and shared executions of the same random program must agree; schedules are sampled, not enumerated."),
"C08": ("stateful model-based testing of gradient lifecycles", "Random histories of forward, backward, preset, accumulate, zero and rejected backward against a model of every leaf's gradient; sampled."),
"C09": ("round-trip property-based testing with bit-exact comparison", "Random bit patterns, shapes and containers; buffers and sources are overwritten after use; sampled."),
"C17": ("property-based testing of recurrent layers against a scalar reference model", "Random layers, sizes, sequences, initial states; forward and gradients compared with an independent scalar tape; sampled."),
"C18": ("property-based and metamorphic testing of attention against a scalar reference", "Random layers, masks, caches and chunkings; outputs and gradients compared with an independent scalar tape; sampled."),
"C19": ("property-based testing of normalisation layers against a scalar reference", "Random layers, scales and training/inference histories; sampled."),
"C20": ("property-based testing of convolution and pooling against a scalar reference", "Random kernels, strides, dilations and shapes; outputs and gradients compared with an independent scalar tape; sampled."),
"C25": ("property-based testing of every layer against a scalar reference", "Random layers from a model zoo, random parameters and inputs; outputs and gradients compared with an independent scalar tape; sampled."),
"C11": ("property-based testing of the traversal over random model structures", "Random nestings of every supported container with shared, nil and unrelated elements, and every layer of the library; the expected visits are known from the generator; sampled."),
"C12": ("stateful model-based testing of optimisers against reference update rules", "Random configurations and histories with skipped, repeated, zero and sparse gradients; every update compared with a reference with rounding bounds; sampled."),
"C13": ("property-based testing with scripted latencies and failures, plus the race detector", "Random numbers of parameters, sources, delays and failing updates; schedules are sampled."),
"C16": ("property-based testing against exhaustive path enumeration", "All label paths enumerated for short sequences, a stable forward recursion for long ones; gradients from an independent scalar tape; sampled."),
"C14": ("property-based testing against norms in higher precision", "Random parameter sets, magnitudes up to the ends of the range, all norm orders; sampled."),
"C15": ("property-based testing of decay schedules against closed formulas", "Random configurations and times, including endpoints and beyond, with ordering and bounds of the whole schedule; sampled."),
"C24": ("stateful model-based testing of embedding tables, plus the race detector", "Random histories of look-ups, backward passes, optimiser steps, zeroing, freezing, save/load and concurrent use against an exact integer model; sampled."),
"C21": ("property-based testing of losses against a scalar reference", "Random logits and targets of ordinary and extreme magnitude; values and gradients compared with an independent scalar tape with error bounds; sampled."),
"C22": ("property-based testing of softmax-like functions against a reference with optimality conditions", "Random scores up to the ends of the range, ties and large sizes; outputs and gradients compared with an independent reference; sampled."),
"C23": ("property-based testing with finite-sample statistical bounds and linearisability of concurrent draws", "Random seeds, ranges, shapes and probabilities; streams compared with repetitions, frequencies and distributions with rigorous tail bounds (failure probability below 1e-10 per case); sampled."),
"C10": ("property-based testing of round-trips and fault injection", "Random models of every kind, trained before and after the dump; writers failing at random bytes, truncated dumps, files, and injected failures of system calls on the file; sampled."),
"C27": ("property-based testing against an exact rounding search and the standard library's formatting", "Random values of every magnitude and bit pattern, ties between float32 values, all floating-point verbs with random widths and precisions, all shapes; sampled."),
"C28": ("stateful model-based testing of training histories, plus the race detector", "Random models and histories of rounds (losses, batching, clipping, optimisers, inference, save/load, freezing); gradients compared with a scalar tape, updates with reference rules; sampled."),
"C26": ("property-based testing of valid, invalid and borderline calls against an admissibility model", "Random shapes, indices and sizes around and far beyond the borders, including products that wrap around; guarded operands; sampled."),
"C30": ("property-based testing of alternative builds and processor configurations against the references", "The cases and oracles of the other checks, run without vector extensions, without assembly and as a 32-bit program; other architectures are not executed; sampled."),
"C29": ("stateful model-based testing of nested wrappers", "Random nestings of parameters, buffers, stopped tensors, embeddings and synchronous or slow asynchronous operators, with random histories of reads, assignments, gradients, replacements and backward passes against a model of values and gradients; sampled."),
}
