#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  One entry per property; kept as a script so wording and anchors stay reviewable."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Running a compiled graph computes the function the graph denotes",
  "For every expression graph built from arithmetic, elementwise, matrix and reduction operations and for every binding of its inputs, running it on the compiled (tape) machine leaves in every output exactly the value obtained by evaluating the expression mathematically. The result does not depend on how the expression was shaped (shared subexpressions, several outputs, constants, read-outs).",
  ["inputs", "programs"], "every real-valued assignment to the inputs of each graph in the family (shapes up to 3x3, up to about a dozen nodes), every graph of the family",
  "A unit test fixes one graph and one input; code generation, common-subexpression merging and register reuse go wrong only for particular graph shapes, and wrong reuse can be masked by particular numbers.",
  ["compile.go", "analysis.go", "vm_tape.go", "vm_tape_nocuda.go", "execution.go", "op_math.go", "operations.go"],
  [("codegenerator", "compile.go"), ("dataflow value numbering", "analysis.go"), ("execOp.exec", "vm_tape_nocuda.go")],
  observe="Node.Value after RunAll")
p("C02", "The compiled machine and the interpreting machine agree",
  "For every graph with a scalar cost and every binding of its inputs, the tape machine running a graph with symbolically derived gradients and the interpreting machine doing automatic differentiation produce the same value for every node and the same gradient for every parameter. If one of them reports an error for a supported operation the other does not silently return numbers.",
  ["inputs", "programs"], "every real-valued assignment to the inputs of each graph of the family; both execution strategies over the same graph",
  "The two machines use different code for every operation's derivative; agreement on a handful of examples says nothing about the sign, transpose or accumulation that only shows for asymmetric inputs.",
  ["vm_genera.go", "vm_tape.go", "differentiation.go", "dual.go", "op_math.go", "operatorPointwise_binary.go", "operatorPointwise_unary.go", "operatorLinAlg.go"],
  [("lispMachine.forward/backward", "vm_genera.go"), ("DoDiff methods", "op_*.go"), ("SymDiff methods", "op_*.go")])
p("C03", "Gradients of elementwise operations are the true derivatives",
  "For every elementwise unary and binary operation that claims to be differentiable, and every input in the interior of its domain, the gradient produced for each operand equals the mathematical derivative of the value the operation computes. This holds for scalars and tensors, for both floating point widths, and with either operand scalar.",
  ["inputs", "configurations"], "every real input inside the domain, every differentiable elementwise operation, scalar/tensor operand combinations, float32 and float64",
  "A derivative test at one point accepts any wrong formula agreeing at that point; the claim is an identity over all points.",
  ["operatorPointwise_unary.go", "operatorPointwise_unary_const.go", "operatorPointwise_binary.go", "operatorPointwise_binary_const.go", "op_math.go"],
  [("unary diff expressions", "operatorPointwise_unary.go"), ("binary diff expressions", "operatorPointwise_binary.go")])
p("C04", "Gradients of linear-algebra, reduction and shape operations are exact",
  "For matrix products (in all operand ranks and transpositions), outer products, batched products, tensor contractions, reductions over any axes, slicing, concatenation, reshaping, transposition and repetition, the gradient of any scalar function of the result with respect to each operand equals the true derivative, element by element. The gradient has the shape of the operand.",
  ["inputs", "configurations"], "every real-valued operand content, every axis/permutation/slice configuration of shapes up to rank 4 within the stated bounds",
  "Adjoint bugs (missed transpose, wrong axis, overwritten accumulation) vanish on symmetric shapes and all-ones upstream gradients that tests use.",
  ["op_math.go", "operatorLinAlg.go", "op_reduction.go", "op_tensor.go", "differentiation.go"],
  [("linAlgBinOp diff expressions", "operatorLinAlg.go"), ("sum/max diff", "op_reduction.go"), ("slice/concat/reshape/transpose diff", "op_tensor.go")])
p("C05", "Gradients accumulate over every use of a node",
  "When a node is used several times - by different operations, twice by the same operation, through diamonds of any shape, or both as output and as intermediate - its gradient is the sum of the contributions of all uses. Requesting gradients for several nodes at once or in any order gives the same gradients as requesting each alone.",
  ["inputs", "programs"], "every real-valued input, each sharing pattern of the family, each order and subset of gradient requests",
  "Whether a contribution is lost depends on graph topology and traversal order, a combinatorial space tests sample at a few points.",
  ["differentiation.go", "gorgonia.go", "graph.go", "operations.go"],
  [("Backpropagate", "differentiation.go"), ("forward/backward diff analysis", "differentiation.go"), ("Grad", "gorgonia.go")])
p("C06", "Execution never corrupts a value that is still needed",
  "During and after a run of a compiled graph, no input, parameter, constant or retained intermediate value is altered by operations that reuse memory: every input still holds what the caller supplied, every value read out equals the value of that expression, and values held by the caller from outside the machine are not written to. This holds whichever nodes are requested, retained or overwritten in place.",
  ["inputs", "programs", "histories"], "every real-valued input; every graph of a family mixing in-place capable operations, late uses of early values, slices and read-outs; one to three consecutive runs",
  "Clobbering needs a particular liveness overlap and is invisible when the overwritten number happens to be the same or is not looked at again.",
  ["regalloc.go", "compile.go", "vm_tape_nocuda.go", "op_math.go", "execution.go"],
  [("live-range allocation", "regalloc.go"), ("overwritten-input logic", "regalloc.go"), ("unsafe/prealloc execution", "vm_tape_nocuda.go")])
p("C07", "Inferred shapes and types equal computed ones",
  "Whenever an operation can be added to a graph, the shape and element type announced for its result are the shape and element type of the value later computed for it. If the operand shapes are incompatible, building or running is refused rather than producing a value of another shape.",
  ["inputs", "configurations"], "every operand shape with up to 4 dimensions of bounded extents (symbolic integers), every axis, slice, pattern, kernel, padding and stride parameter within bounds, in range or not, every operation of the catalogue and every node of its gradient",
  "The space of shape/axis/parameter combinations is large; each operation's shape inference and its kernel are written independently.",
  ["shape.go", "op.go", "op_math.go", "op_tensor.go", "op_reduction.go", "op_nn.go", "operatorLinAlg.go", "slice.go", "type.go", "typeSystem.go"],
  [("InferShape methods", "op_*.go"), ("type inference", "typeSystem.go"), ("ApplyOp", "op.go")])
p("C08", "Broadcasting equals explicit replication",
  "A broadcasted elementwise operation yields, at every position, the operation applied to the left element and right element obtained by repeating each operand along its broadcast axes; the gradient of a broadcast operand is summed over the axes it was repeated along. Impossible patterns are rejected.",
  ["inputs", "configurations"], "every real-valued operand content, every broadcast pattern on operands of rank 1 to 4 within bounds, each broadcastable operation",
  "Axis bookkeeping errors only show for particular asymmetric patterns and sizes.",
  ["broadcast.go", "api_gen.go", "op_tensor.go", "shape.go"],
  [("Broadcast", "broadcast.go"), ("repeatOp", "op_tensor.go"), ("calcBroadcastShape", "shape.go"), ("Auto", "operations.go")])
p("C09", "Shape operations move every element to its specified place",
  "Slicing, concatenating, splitting, reshaping, flattening, transposing, indexing and gathering place every element of the input at the position their definition prescribes, lose none, duplicate none beyond the definition, and invent none. Inverse pairs (split after concatenate, transpose twice, reshape back) give the original back.",
  ["inputs", "configurations"], "every real-valued content and every in-range slice bound, axis, permutation and target shape within bounds",
  "Offset and stride errors show only for particular combinations of rank, axis, start, step and operand layout.",
  ["op_tensor.go", "operations.go", "slice.go", "op_by_indices.go", "engine.go"],
  [("sliceOp/sliceIncrOp", "op_tensor.go"), ("concatOp", "op_tensor.go"), ("transposeOp", "op_tensor.go"), ("reshapeOp", "op_tensor.go"), ("byIndicesOp", "op_by_indices.go")])
p("C10", "Reductions compute the exact aggregate along the requested axes",
  "Sum, mean, maximum, norms of any order and log-sum-exp over any set of axes they accept of a tensor give, at every remaining position, the aggregate of exactly the elements along those axes, independent of the order in which the axes are listed. The operand is left unchanged.",
  ["inputs", "configurations"], "every real-valued content, every axis subset and order for rank up to 4 within bounds, both float widths",
  "Reducing several axes shifts the remaining axis numbers; errors appear only for some subsets and non-square shapes.",
  ["op_reduction.go", "operations.go"],
  [("sumOp/maxOp", "op_reduction.go"), ("Mean/Norm", "operations.go")])
p("C11", "Convolutions compute the defined sums and their exact gradients",
  "One- and two-dimensional convolution produce at each output position the sum over channels and kernel taps of input times filter, with padding, stride and dilation as specified and zeros outside the image; the output extent matches the standard formula. The gradients with respect to image and filter are the true derivatives.",
  ["inputs", "configurations"], "every real-valued image and filter, every combination of kernel, pad, stride, dilation, batch and channel count within bounds",
  "Column extraction and its inverse are index arithmetic whose errors need particular pad/stride/dilation/batch combinations.",
  ["op_nn.go", "nn.go"],
  [("im2colOp", "op_nn.go"), ("col2imOp", "op_nn.go"), ("Conv2d/Conv1d", "nn.go")])
p("C12", "Pooling and upsampling aggregate exactly their windows",
  "Max pooling, average pooling, global average pooling and upsampling produce for every output position the aggregate of exactly the input elements in its window, for every kernel, padding and stride (an average counts padding as zeroes), and route gradients back to exactly those elements in proportion to the true derivative, or refuse to differentiate.",
  ["inputs", "configurations"], "every real-valued input with distinct window maxima, every kernel/pad/stride/batch/channel combination within bounds",
  "Window clipping at borders, asymmetric padding and overlapping windows interact; tests use a few aligned configurations.",
  ["op_nn.go", "op_avg_pool.go", "op_upsample.go", "nn.go"],
  [("maxPoolOp/maxPoolDiffOp", "op_nn.go"), ("avgPoolOp", "op_avg_pool.go"), ("upsampleOp", "op_upsample.go"), ("globalAveragePoolOp", "op_nn.go")])
p("C13", "Normalising operations satisfy their defining equations",
  "Softmax and log-softmax along any axis give the exponential weights of each lane (non-negative and summing to one), and sparsemax gives the Euclidean projection onto the simplex; batch and group normalisation give per-channel or per-group zero mean and unit variance output up to the stated epsilon, use stored statistics in evaluation mode, and all their gradients are the true derivatives.",
  ["inputs", "configurations", "histories"], "every real-valued input, every axis and group count within bounds, training and evaluation modes in sequence",
  "These are identities over all inputs and over sequences of training/evaluation runs.",
  ["op_softmax.go", "op_sparsemax.go", "op_group_norm.go", "op_nn.go", "nn.go"],
  [("softmaxOp", "op_softmax.go"), ("sparsemaxOp", "op_sparsemax.go"), ("GroupNormOp", "op_group_norm.go"), ("BatchNormOp", "op_nn.go")])
p("C14", "Activation and loss helpers equal their documented formulas",
  "The composite helpers (leaky and plain rectifier, mish, binary cross entropy, minimum/maximum of two tensors, comparison operators, dropout with a given random draw) return at every element the value of their documented formula and propagate its true derivative. Comparison results are exactly zero or one (or booleans) in the requested type.",
  ["inputs", "configurations"], "every real-valued operand content inside the domain, every random draw, both float widths, scalar and tensor operands",
  "Formula and sign errors hide at the points tests evaluate; random draws cannot be enumerated.",
  ["nn.go", "operations.go", "op_minmaxBetween.go", "op_dropout.go", "api_gen.go", "operatorPointwise_binary.go"],
  [("LeakyRelu/Rectify/BinaryXent/Dropout", "nn.go"), ("Mish/MinBetween/MaxBetween", "operations.go"), ("comparison kernels", "operatorPointwise_binary.go")])
p("C15", "Optimisers apply their published update rule to every parameter",
  "For every parameter value and gradient, one step of each gradient-descent solver (vanilla, momentum, RMSProp, Adam, AdamW, AdaGrad, Barzilai-Borwein) changes every parameter by exactly its update rule, keeps its per-parameter state separate, leaves gradients cleared, and repeated steps follow the recurrence. Scalar and tensor parameters and both float widths obey the same rule.",
  ["inputs", "histories", "configurations"], "every real value of parameters and gradients, every positive learning rate and valid coefficient, sequences of four steps of up to four parameters and of up to nine of one",
  "State carried across steps and the separate code for each value kind mean errors need a second step, a second parameter, or the other kind.",
  ["solvers.go", "solvers_utils.go"],
  [("Step methods", "solvers.go"), ("per-parameter cache", "solvers.go")])
p("C16", "Solver options (regularisation, clipping, batch size) act as documented",
  "With L1 or L2 regularisation, gradient clipping and batch size configured, a solver step equals the plain update rule applied to the gradient modified as documented, for every value and every combination of options. Gradients inside the clip range are unaffected by clipping.",
  ["inputs", "configurations"], "every real value of parameter and gradient on both sides of the clip bound, every option value and combination, scalar and tensor parameters",
  "Options interact (order of clipping, regularising and averaging) and each solver repeats the code per value kind.",
  ["solvers.go"],
  [("option handling in Step", "solvers.go")])
p("C17", "Runs are independent of the machine's history",
  "Re-binding inputs, resetting and running a machine again gives the same node values and derived gradient nodes as a fresh machine given those inputs, however many runs with whatever inputs, errors or resets preceded. Gradients attached to the parameters add up over runs until they are cleared, as a solver step does; after clearing they are those of a fresh machine.",
  ["histories", "inputs"], "sequences of up to three runs with independent real-valued inputs, with reset and with failing runs in between, on both machines",
  "Stale memory, accumulated gradients or cached state only shows for particular sequences of runs.",
  ["vm_tape.go", "vm_tape_nocuda.go", "vm_genera.go", "dual.go", "execution.go"],
  [("Reset", "vm_tape.go"), ("BindDualValues", "vm.go"), ("lispMachine.Reset", "vm_genera.go")])
p("C18", "Equal expressions share a node and different expressions never do",
  "Building the same operation on the same operands twice yields the same node, and two expressions that differ in operation, parameters, operand, operand order, shape or type are never merged - not when built, not when compiled. Constants are shared only when equal.",
  ["inputs", "programs"], "every pair of expressions of the family differing in one respect, with symbolic parameters",
  "Identity goes through a 32-bit hash of textual descriptions; a missing field in a description merges two different operations only when both occur in one graph.",
  ["graph.go", "node.go", "analysis.go", "equalities.go", "op.go"],
  [("AddNode", "graph.go"), ("Hashcode", "node.go"), ("WriteHash methods", "op_*.go"), ("value numbering", "analysis.go")])
p("C19", "Graph structure stays consistent under every edit",
  "After any sequence of building expressions, removing nodes nothing is computed from, cloning and subgraph extraction, the graph's reported nodes, edges (in both directions), roots, inputs and constants agree with each other; the topological order lists every node once and before everything it is computed from. A clone has the same structure and values, and later edits or bindings of one do not show in the other.",
  ["histories", "programs"], "every sequence of bounded length of graph edits, every bounded graph",
  "The redundant indexes must agree after every interleaving of edits, which tests sample sparsely.",
  ["graph.go", "walker.go", "node_set.go", "collections.go", "node.go"],
  [("ExprGraph indexes", "graph.go"), ("Sort", "walker.go"), ("SubgraphRoots/Clone", "graph.go"), ("Nodes set operations", "collections.go")])
p("C20", "Binding a value enforces the declared type and shape",
  "Binding a value to an input is accepted exactly when its element type and shape match the node's declaration, and is then what the next run computes with; an ill-typed binding, or a run with an unbound input, is reported as an error. A rejected binding leaves the previously bound value in effect.",
  ["inputs", "configurations", "histories"], "every combination of declared and supplied element type, scalar/tensor form and shape, before and after an earlier binding, directly or through a machine",
  "The acceptance decision spans many type pairs and entry points.",
  ["gorgonia.go", "node.go", "values.go", "typeSystem.go", "vm_tape.go"],
  [("Let/UnsafeLet", "gorgonia.go"), ("bind", "node.go"), ("Let/Set of a machine", "vm_tape.go")])
p("C21", "Copies of values are independent and faithful",
  "Cloning, copying and zeroing a value give a value equal to what is specified and sharing no storage with the source unless documented; later writes to one never show in the other. Equality and closeness tests answer exactly whether all elements, shapes and types agree.",
  ["inputs", "histories"], "every real-valued content, each scalar and tensor kind, views and contiguous tensors, write-after-copy sequences",
  "Aliasing shows only when one copy is written afterwards and the other is read.",
  ["values.go", "values_primitives.go", "values_utils.go", "dual.go", "equalities.go"],
  [("CloneValue/Copy/ZeroValue/ValueEq/ValueClose", "values.go")])
p("C22", "Weight initialisers and random draws stay within their documented law",
  "Every initialiser returns a value of exactly the requested type and number of elements whose elements are the documented function of the random draws (constants, ranges, scaling by fan-in and fan-out), for every draw. Symbolic random nodes yield the requested shape, type and range.",
  ["inputs", "configurations"], "every random draw (symbolic), every shape within bounds, both float widths",
  "A test sees a few random draws; range and scale bugs sit in rarely drawn values.",
  ["weights.go", "op_nn.go"],
  [("InitWFn constructors", "weights.go"), ("Glorot/He functions", "weights.go"), ("randomOp", "op_nn.go")])
p("C23", "Faults are reported, located and do not corrupt later runs",
  "If an operation reports a failure while a machine is running, an input has no value, or a value becomes not-a-number or infinite on a machine that watches for it, running returns an error; it never reports success, hangs, or crashes, for whichever instruction fails and in whichever order the machine's goroutines are scheduled. An error that names a node names the one that failed, and nothing is reported where nothing failed. After rebinding good inputs and resetting, the machine computes correctly again, also when matrix products are batched and done later.",
  ["fault_sequences", "schedules", "inputs"], "a failure injected at every instruction (symbolic position), each scheduling of the runner and its worker, followed by a recovery run",
  "The failing instruction and the schedule are combinatorial; tests inject at most one fault at one place.",
  ["vm_tape.go", "vm_tape_nocuda.go", "vm_genera.go", "vm.go", "noextern.go", "compile.go", "utils.go", "errors.go"],
  [("RunAll error channel", "vm_tape.go"), ("watchNaN/watchInf", "vm_tape_nocuda.go"), ("lispMachine.RunAll", "vm_genera.go")])
p("C24", "The device-memory allocator never hands out overlapping blocks",
  "For every sequence of reservations, allocations and frees, blocks handed out lie inside reserved memory, are aligned and large enough, and never overlap a block still in use; freed memory becomes available again and is coalesced so that freeing everything restores the full capacity.",
  ["histories", "inputs"], "every sequence of allocate/free operations of bounded length with symbolic sizes",
  "Free-list splitting and coalescing errors need particular size and order sequences.",
  ["cuda/bfc.go"],
  [("bfc.alloc/free", "cuda/bfc.go"), ("freelist insert/coalesce", "cuda/bfc.go")])
p("C25", "Rewrites for numerical stability preserve the function",
  "When the library replaces an expression by a numerically stabler one while building (logarithm of one plus or minus, exponential minus one, logarithm of sigmoid and the like) or recognises an algebraic pattern, the replacement denotes the same function of its inputs and has the same derivative.",
  ["inputs", "programs"], "every real input in the domain, every pattern that triggers a rewrite and its near misses",
  "Pattern matchers fire on shapes nobody wrote a test for (wrong operand order, other constants).",
  ["stabilization.go", "operations.go"],
  [("stabilisation functions", "stabilization.go"), ("binOpNode/unaryOpNode", "operations.go")])
p("C26", "Linear-algebra products equal their definitions in every operand form",
  "Dot product, matrix-vector, matrix-matrix, batched, outer and general tensor contraction products produce at each position the defined sum of products, for every operand rank, size and transposition accepted, for both float widths and for operands that are themselves results of transposes or slices.",
  ["inputs", "configurations"], "every real-valued operand content, sizes up to 3 per axis, transposed and sliced operands",
  "Layout flags (transposed, sliced, row/column vectors) select different kernels; only particular combinations are wrong.",
  ["op_math.go", "operatorLinAlg.go", "operations.go"],
  [("linAlgBinOp", "op_math.go"), ("batchedMatMul", "operatorLinAlg.go"), ("tensordotOp", "operatorLinAlg.go")])
p("C27", "Every execution mode of an operation gives the same result",
  "Executing an operation freshly, into preallocated storage, in place, or as an increment onto an existing value gives the same numbers (respectively the sum), whatever the preallocated storage held before, and the non-destructive mode leaves the operands untouched.",
  ["inputs", "configurations"], "every real-valued operand and prior storage content, every operation offering the mode",
  "Stale contents of reused storage and aliasing between operand and destination are only visible for particular contents.",
  ["op_math.go", "op_tensor.go", "op_nn.go", "operatorPointwise_unary.go", "execution.go"],
  [("UsePreallocDo/UnsafeDo/IncrDo", "op_*.go"), ("ExternalOp.Do", "execution.go")])
p("C28", "Compiling a part of a graph computes the same as the whole",
  "A function compiled for chosen inputs and outputs, or a machine built on an extracted subgraph, computes for those outputs exactly what the full graph computes and does not require or alter anything outside the part. Asking for outputs that do not depend on the given inputs is reported.",
  ["inputs", "programs"], "every real-valued input, every choice of inputs/outputs over the graph family",
  "Which nodes must be kept depends on the cut chosen; tests use one cut.",
  ["compile.go", "graph.go", "vm.go"],
  [("CompileFunction", "compile.go"), ("ExactSubgraphRoots/SubgraphRoots", "graph.go")])
p("C29", "The goroutine-per-node machine computes the graph under every schedule",
  "Running a graph on the machine that executes every node in its own goroutine gives each node the value the graph denotes for the values bound to the inputs when the machine was made, whatever the interleaving of the goroutines, and again on every later run. A failing operation, an input without a value or a cancelled context makes the run return an error, which for a failing operation includes that operation's own, or, when cancelled too late, the right values; it never hangs, crashes or reports success without the values, and a later run is unaffected.",
  ["inputs", "schedules", "crash_points"], "every real-valued input over programs of two operations; every schedule within the stated number of deviations from round robin; a failure at every position",
  "The order in which operands arrive depends on the scheduler; tests see the few orders the runtime happens to produce.",
  ["x/vm/machine.go", "x/vm/node.go", "x/vm/pubsub.go"],
  [("NewMachine/Run", "x/vm/machine.go"), ("receiveInput/emitOutput", "x/vm/node.go"), ("broadcast/merge", "x/vm/pubsub.go")])
p("C30", "The temporal classification loss sums over all alignments",
  "The connectionist temporal classification loss of a batch of sequences is, per sequence, the negative logarithm of the total probability of all labellings of its steps that give the target once repetitions and then blanks are removed, combined by the chosen reduction, for targets given either as rows or one after the other, sequences ending early and empty targets included. Its gradient under the sum reduction is, for the log-probabilities produced by a log-softmax, that of the loss by the input of the log-softmax, and zero beyond the end of a sequence; nothing bound to its inputs is changed.",
  ["inputs", "configurations"], "every real-valued log-probability, sequences of up to 3 steps (4 in the thorough tier) over 3 labels, batches of up to 2, every target of the family",
  "The recursion over extended targets has cases for repeated labels, blanks and sequence ends; tests use one target of equal labels on equally long sequences.",
  ["op_ctc_loss.go"],
  [("CTCLoss", "op_ctc_loss.go"), ("ctcLossOp/ctcLossDiffOp", "op_ctc_loss.go")])
p("C31", "Detection boxes are decoded per cell and anchor",
  "Evaluating the detection layer gives, for each image, cell and selected anchor in that order, the box centre (logistic of the prediction plus the cell's position, times the stride), the box size (exponential of the prediction times the dimensions of the anchor the mask selects) and the logistic of the objectness and class predictions. The input, anchors and masks stay as they were, and a second run gives the same.",
  ["inputs", "configurations"], "every prediction in (-14, 14), grids up to 2x2, one to three of three anchors in several orders, up to two classes and images, three strides",
  "Positions, strides and anchors coincide in square or single-anchor examples; tests compare recorded files with the first three anchors and one image.",
  ["op_yolo.go"],
  [("YOLOv3", "op_yolo.go"), ("yoloOp.Do/evaluateYOLO_f32", "op_yolo.go")])
p("C32", "Lifted functions compose like the plain ones and carry the first error",
  "A function lifted to results, applied to operands that are nodes, other carriers of a node or results, gives what the plain function gives for their nodes, converted by the carriers that make results of their own kind, in order. If an operand is an error or the function fails, the outcome is that error (the leftmost operand's), holds no node, and neither that function nor any later one of a chain is applied; collecting the nodes of several inputs gives them in order or the first error.",
  ["inputs", "programs", "fault_sequences"], "every real-valued input; every combination of eight forms of operands for each lifting, a failure at every position of a chain of five functions",
  "Tests lift functions over nodes and results that succeed; the forms that fail or make their own results are hardly combined.",
  ["ermagerdmonards.go"],
  [("Lift1/Lift1Axial/Lift2/Lift2Broadcast", "ermagerdmonards.go"), ("TransformResult/LiftResult", "ermagerdmonards.go"), ("NodesFromInputs", "ermagerdmonards.go")])
p("C33", "Observing a graph or a run changes neither",
  "A machine that logs, watches nodes, registers or numbers, or keeps copies of what it computed gives the same values and gradients as the expression denotes, and leaves the inputs alone. Printing a graph, its nodes, their values or a compiled program, at any time, changes neither the graph nor what is computed afterwards.",
  ["inputs", "configurations"], "every real-valued input, every operation of the program family followed by one that may run in place, nine sets of observing options per machine, both widths",
  "Tests hardly switch observers on, and then do not look at the numbers; a change made while printing shows only in a later run.",
  ["vm.go", "vm_tape.go", "vm_genera.go", "graph.go", "formatter.go"],
  [("WithLogger/WithWatchlist/WithValueFmt/TraceExec", "vm.go"), ("watchedLogf/logf", "vm_tape.go"), ("watchedLogf/logf", "vm_genera.go"), ("ToDot/String", "graph.go")])
p("C34", "Graphs on whole numbers compute machine arithmetic exactly or refuse",
  "On inputs of the whole number types and booleans, elementwise arithmetic, comparisons, sums, maxima, minima and operations of shape give for every operand the result of machine arithmetic of that type (wrapping around), of that type or boolean as requested, in every run, and leave the operands alone. What is not defined for the type, and a division by zero, is reported as an error; nothing crashes or is silently computed as something else.",
  ["inputs", "configurations"], "every number of each of four whole number types, scalars, vectors and small matrices, every elementwise operation, programs of three operations run twice",
  "Tests use floats nearly throughout; overflow and zero divisors occur only for particular numbers.",
  ["operatorPointwise_binary.go", "op_math.go", "operations.go", "op_minmaxBetween.go", "values_primitives.go"],
  [("scalarBinOp.Do/tBinOp.do", "operatorPointwise_binary.go"), ("newElemUnaryOp", "op_math.go"), ("unaryOpNode", "operations.go"), ("anyToScalar", "values_primitives.go")])
p("C35", "Loading a set of digit pictures keeps every pixel and label in its place",
  "Loading the training or the test set reads that set's two files and gives one row per picture, every pixel scaled in proportion from 0.1 (nothing) to just below 1 (full), and one row per label, 0.9 at the digit's place and 0.1 elsewhere, in the requested float type and in the order of the files. A file that is missing, ends too early or is not of the expected kind is reported as an error, and nothing is given.",
  ["inputs", "fault_sequences"], "every content of files of up to three pictures of up to 3x2 pixels and five labels; files missing, cut anywhere, or with any other leading number",
  "The package has no tests, and the data set is not part of the repository.",
  ["examples/mnist/mnist.go", "examples/mnist/io.go"],
  [("Load/prepareX/prepareY/pixelWeight", "examples/mnist/mnist.go"), ("readLabelFile/readImageFile", "examples/mnist/io.go")])
p("C36", "The drawing of a graph shows that graph",
  "The description of a graph for drawing has one vertex for every node, with the node's number, name and shape, placed among the inputs, the constants or the expressions according to what the node is, and exactly one connection from each node to each of its operands. The older descriptions of a whole graph, of what a node depends on and of a node's neighbourhood show exactly those nodes and every operand at its position. Drawing changes neither later drawings nor what the graph computes.",
  ["programs", "inputs"], "every graph of one or two operations out of eight on inputs of any extents up to 100, with and without the nodes of gradients; every neighbourhood of up to two steps; every real-valued input of graphs that were drawn",
  "The only tests of drawings print them or compare nothing but that there is one.",
  ["encoding/dot/encode.go", "encoding/dot/topgraph.go", "encoding/dot/node.go", "encoding/dot/copy.go", "graph.go", "node.go"],
  [("Marshal", "encoding/dot/encode.go"), ("generateDotGraph", "encoding/dot/topgraph.go"), ("copyGraph", "encoding/dot/copy.go"), ("ToDot", "graph.go"), ("ToDot/RestrictedToDot", "node.go")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for e in P: f.write(json.dumps(e, ensure_ascii=False) + "\n")
for e in P:
    assert len(e["title"]) <= 80, (e["id"], len(e["title"]))
print(len(P))
