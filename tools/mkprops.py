"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, pathlib
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, obs=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": c}
                                    for a, b, c in (state or [])],
                          "observe_at": obs or [], "hook_needed": None}})


p("C01", "Every task declares all reads and writes it performs on its buffers",
  "Whatever the scalar arguments of a submitted operation, the task that is inserted declares read access to every data handle whose previous contents its implementation may use and write access to every data handle its implementation may modify. An undeclared access would let the runtime reorder, overlap or drop the data transfer the operation depends on.",
  ["schedules", "inputs"], "all schedules the runtime may pick, all scalar arguments of every operation (including the special values 0 and 1 that select another access mode), both floating point types",
  "Each test submits one task and waits for it, so a missing dependency never changes an observed result; the access-mode selection has a branch per special scalar value and most are not sampled.",
  ["src/starpu", "src/kernel", "include/nntile/starpu/config.hh"],
  [("access modes passed with each handle at task insertion", "src/starpu/*.cc submit functions"),
   ("implementations that unpack buffers and call the kernels", "src/starpu/*.cc cpu functions, src/kernel/*/cpu.cc")],
  obs=["declared access mode of each handle of each inserted task vs. memory effects of its implementation"])
p("C02", "A write-only output is completely overwritten and never read first",
  "When a task declares a handle as an output whose previous contents are not needed, its implementation writes every element of that buffer, on every path, and reads none of it before writing it. The same holds for the zero-coefficient form of accumulate-style operations: what was in the destination before has no influence.",
  ["inputs", "schedules"], "all buffer sizes, all scalar arguments and all data; every operation and floating point type",
  "Fresh buffers in tests are usually initialised and small, so stale or uninitialised elements only show for other sizes, schedules or memory nodes.",
  ["src/starpu", "src/kernel"],
  [("loops of the kernels over the destination", "src/kernel/*/cpu.cc"),
   ("write-only access modes at task insertion", "src/starpu/*.cc submit functions")],
  obs=["set of destination elements written per task"])
p("C03", "Operation arguments reach the computation unchanged, complete and in order",
  "The sizes, scalars and data handles given to an operation are exactly the ones its asynchronous task computes with: every value the implementation reads was stored in the task's argument block before submission with the same type and place, no argument is dropped, truncated or exchanged with another one, and handles are bound to the buffers with the same role.",
  ["inputs", "programs"], "all argument values of every operation and every caller",
  "Tests use few, often symmetric, argument values (equal sizes, alpha=beta=1), for which an exchanged or stale argument goes unnoticed; many operations have no test at the task level at all.",
  ["src/starpu", "src/kernel", "include/nntile/starpu", "src/tile", "src/tensor"],
  [("argument block filled by submit and read by the implementation", "src/starpu/*.cc"),
   ("order of parameters kernel/task/tile/tensor", "src/kernel, src/starpu, src/tile, src/tensor")],
  obs=["argument block of each inserted task", "parameters of each kernel call"])
p("C04", "A failed task submission is always reported to the caller",
  "If the runtime refuses a task that an operation tries to insert, the operation throws instead of returning as if the work had been scheduled.",
  ["fault_sequences"], "a refusal at any task insertion of any operation",
  "Task insertion never fails in the test environment.",
  ["src/starpu"], [("check of the task insertion status", "src/starpu/*.cc submit functions")],
  obs=["exception from an operation whose task insertion failed"])
p("C05", "A failed data acquisition or runtime start is reported, never ignored",
  "When acquiring host access to a data handle fails, or the runtime cannot be initialised, the library throws; host memory of a handle is handed out only after a successful acquisition.",
  ["fault_sequences"], "failure of any acquisition or initialisation call",
  "These calls never fail in the test environment.",
  ["include/nntile/starpu/config.hh"], [("status checks in the runtime wrapper classes", "include/nntile/starpu/config.hh")],
  obs=["exception from the wrapper"])
p("C06", "A blocking operation is its asynchronous form plus waiting for completion",
  "Every blocking tile or tensor operation performs exactly the corresponding asynchronous operation with the same arguments in the same order and does not return normally before all submitted tasks have completed.",
  ["schedules", "inputs"], "all arguments and schedules, every tile and tensor operation",
  "With few small tasks the work is usually done by the time a test looks; a missing wait or exchanged argument in the wrapper needs unlucky timing or asymmetric arguments.",
  ["src/tile", "src/tensor"], [("blocking wrappers", "src/tile/*.cc, src/tensor/*.cc")],
  obs=["completion of submitted tasks on return of a blocking call"])
p("C07", "An operation that rejects its arguments has submitted nothing",
  "All argument validation of a tile or tensor operation happens before its first task is submitted, so an operation that throws an argument error leaves every tensor unchanged.",
  ["inputs"], "all invalid argument combinations of every tile and tensor operation",
  "Tests only check that an exception is thrown, not that nothing was submitted before it.",
  ["src/tile", "src/tensor"], [("validation prologue of the asynchronous operations", "src/tile/*.cc, src/tensor/*.cc")],
  obs=["tasks submitted before an exception"])
p("C08", "Incompatible shapes, tilings and axes are rejected",
  "A tile or tensor operation accepts its operands only if they have the dimensionality, the shape and, for tensors, the tile shape that the operation's definition requires, and its axis, batch and index arguments are in range; otherwise it throws.",
  ["inputs"], "all combinations of operand shapes, tile shapes and axis arguments for every operation",
  "Tests try a handful of bad combinations for some operations and none for others; a missing comparison only matters for the shapes nobody tried.",
  ["src/tile", "src/tensor"], [("validation prologue of the asynchronous operations", "src/tile/*.cc, src/tensor/*.cc")],
  obs=["exception for mismatched operands"])
p("C09", "A tensor operation processes every tile of its output, with the right tiles",
  "For every grid of tiles, a tensor operation submits work that updates each tile of its destination, combining it with exactly the tiles of the other operands that hold the corresponding index range. It skips work only when the result would be unchanged.",
  ["inputs", "configurations"], "all tensor shapes and tilings, all scalar arguments",
  "Tests use tiny grids (often one tile, or equal grids in every dimension), where a wrong bound or index coincides with the right one.",
  ["src/tensor"], [("loops over tile grids and index maps between operands", "src/tensor/*.cc")],
  obs=["set of (operand tiles) of the submitted tasks"])
p("C10", "Accumulation over tiles applies the user's scaling of the output once",
  "When several tiles contribute to one destination tile, the destination's old contents are scaled by the caller's coefficient (or cleared) exactly once, by the first contribution, and all further contributions are added to it.",
  ["inputs", "configurations"], "all tilings with any number of contributing tiles, all coefficient values",
  "Tests of reductions mostly use one or two tiles along the reduced dimension and coefficients 0 or 1, for which double scaling is invisible.",
  ["src/tensor"], [("first contribution separated from the following ones", "src/tensor/{gemm,sum_slice,sum_fiber,sumprod_slice,sumprod_fiber,norm_slice,...}.cc")],
  obs=["coefficient passed with each submitted task per destination tile"])
p("C11", "Every kind of task is registered, restrictable and restorable",
  "Starting the library makes every operation's task kind usable; restricting execution to a kind of worker affects every operation, and lifting the restriction restores all of them. Distinct task kinds have distinct performance-model names.",
  ["programs", "configurations"], "all operations and both floating point types, any restriction sequence",
  "The tests initialise only the operation under test and check a few restriction sequences for it.",
  ["include/nntile/starpu.hh", "src/starpu", "include/nntile/starpu"],
  [("library-wide init, restrict and restore", "include/nntile/starpu.hh"), ("per-operation init, restrict and restore", "src/starpu/*.cc")],
  obs=["registered task kinds", "execution mask of each task kind"])
p("C12", "Single, double and mixed precision operations run their own implementation",
  "An operation on tensors of one element type inserts a task whose implementation is compiled for exactly that element type.",
  ["programs", "inputs"], "all operations and element types",
  "A task of the wrong element type still runs and, for operations without a test for that type, nobody looks at the result.",
  ["src/starpu", "include/nntile/starpu"], [("selection of the task kind by element type", "include/nntile/starpu/*.hh codelet<T>()"), ("implementations listed for a task kind", "src/starpu/*.cc init()")],
  obs=["implementation bound to the inserted task"])
p("C13", "Performance models distinguish tasks with different work sizes",
  "Two tasks of the same kind whose size arguments differ are given different performance-model footprints, so the execution time of one problem size is never used to schedule another.",
  ["inputs", "histories"], "all size arguments of every operation with a custom footprint",
  "Footprints have no influence on numerical results.",
  ["src/starpu"], [("footprint functions", "src/starpu/*.cc footprint()")], obs=["footprint of tasks with different sizes"])
p("C14", "No task reads or writes outside the tiles it was given",
  "For all operand shapes and tilings that an operation accepts, the sizes it passes to its tasks make the implementation access each tile's buffer only within that tile, with the tile's own layout.",
  ["inputs", "configurations"], "all accepted shapes and tilings, every operation",
  "An out-of-bounds access by a few elements does not crash with the sampled sizes, and leftover tiles of unequal size are rarely tested.",
  ["src/tensor", "src/tile", "src/starpu", "src/kernel", "include/nntile/tile/traits.hh"],
  [("sizes passed to each task", "src/tensor/*.cc, src/tile/*.cc"), ("index arithmetic of the kernels", "src/kernel/*/cpu.cc")],
  obs=["memory accesses of each task relative to its tiles"])
p("C15", "Sizes are never silently truncated when handed to the BLAS library",
  "Dimensions and leading dimensions that do not fit the integer type of the BLAS library are rejected with an exception at submission; they are never narrowed to a different value.",
  ["inputs"], "all sizes up to 2^63-1", "Sizes beyond 2^31 cannot be allocated in tests.",
  ["src/starpu/gemm.cc.in", "src/starpu/axpy.cc.in", "src/starpu/scal.cc.in", "src/starpu/scal_inplace.cc.in", "src/starpu/nrm2.cc.in"],
  [("round-trip check of narrowed sizes", "src/starpu/*.cc.in submit functions")], obs=["exception for oversized dimensions"])
p("C16", "Task implementations have no side effects besides their declared buffers",
  "The code of a task reads only its argument block and buffers and writes only its buffers: it modifies no global or static state, its result does not depend on mutable global state, wall-clock time or non-reentrant generators, it submits or waits for no other task, and it lets no exception escape. Hence re-ordering or running tasks in parallel cannot change results.",
  ["schedules"], "all interleavings of tasks on all workers", "Data races through hidden state need particular interleavings.",
  ["src/starpu", "src/kernel"], [("implementations and kernels", "src/starpu/*.cc cpu functions, src/kernel/*/cpu.cc")],
  obs=["global state before and after a task"])
p("C17", "Commutative reduction is requested only where it is an accumulation",
  "A task declares its output as a reduction only when it adds to the existing contents with unit coefficient, and every tensor whose tiles are used this way has been given matching reduction and initialisation operations.",
  ["schedules", "configurations"], "all coefficients and reduction flags of every operation that offers the option", "The reduction option is off in nearly all tests.",
  ["src/starpu", "src/tensor", "wrappers/python/nntile"], [("selection of the reduction access mode", "src/starpu/*.cc submit functions")],
  obs=["access mode of inserted tasks for every coefficient"])
p("C18", "Handles are unregistered and acquisitions released exactly once on every path",
  "Each registered data handle is unregistered once, when its last owner goes away, in the way its access mode allows, and each successful acquisition of host access is released exactly once on every path including exceptional ones; host access is never used after its release.",
  ["histories", "fault_sequences"], "all object lifetimes, copies, exceptions and early exits",
  "Tests follow a single lifetime without exceptions.",
  ["include/nntile/starpu/config.hh", "src/tile", "src/tensor", "wrappers/python/nntile/nntile_core.cc"],
  [("ownership and scope classes around runtime handles", "include/nntile/starpu/config.hh")], obs=["unregister and release calls per handle"])
p("C19", "Index conversions reject out-of-range indices and wrong dimensionality",
  "Conversions between multi-dimensional and linear indices of tiles and tensors, tile lookups and tile shape queries throw for an index outside the shape or of the wrong length, and constructors of traits, tensors and handles, and of tiles over a user's buffer, reject sizes that are not positive, inconsistent or larger than the buffer; none of them reads or returns data outside the object.",
  ["inputs"], "all index vectors, shapes and sizes", "Only a few bad indices are tried.",
  ["include/nntile/tile/traits.hh", "include/nntile/tensor/traits.hh", "include/nntile/tensor/tensor.hh", "include/nntile/tile/tile.hh", "include/nntile/starpu/config.hh", "src/tile/traits.cc", "src/tensor/traits.cc"],
  [("checks in index conversions and constructors", "include/nntile/*/traits.hh, tile.hh, tensor.hh")], obs=["exception for invalid indices and shapes"])
p("C23", "Exchange with NumPy copies every element exactly, both ways, or throws",
  "from_array and to_array of tiles and tensors either copy every element between the object and the caller's array, in column-major order, for every shape and tiling and in the direction their name says, or throw: an array of another shape is always rejected, one of the right shape never, and to_array never fills a converted copy instead of the array it was given.",
  ["inputs", "programs"], "all shapes, tilings, element types and array layouts", "Tests exchange a few Fortran-ordered arrays of the right type and shape.",
  ["wrappers/python/nntile/nntile_core.cc"], [("exchange functions and their bindings", "wrappers/python/nntile/nntile_core.cc")],
  obs=["contents of the array and of the tensor after an exchange"])
p("C20", "Python operations run the implementation of their operands' element type",
  "Each Python-level operation calls the compiled implementation for the element type of the tensors it was given, for every supported type, passing all its arguments in order, and raises an error for unsupported types instead of silently doing nothing or using another type.",
  ["programs", "inputs"], "all Python operations, all element types, all arguments", "The Python wrappers of most operations are tested for one element type or not at all.",
  ["wrappers/python/nntile/tensor.py"], [("dispatch on the type of the first operand", "wrappers/python/nntile/tensor.py")],
  obs=["compiled function called by each Python operation"])
p("C21", "Python bindings expose the operation and element type their name says",
  "Each compiled binding whose name states an operation, an element type and blocking or asynchronous execution is bound to exactly that C++ operation for that element type, and methods, fields, constants and runtime functions to the member of that name.",
  ["programs"], "all bindings", "Most bindings have no Python test.",
  ["wrappers/python/nntile/nntile_core.cc"], [("module definition", "wrappers/python/nntile/nntile_core.cc")], obs=["function bound to each name"])
p("C22", "Python objects give back every tensor they allocate",
  "Every tensor that a Python layer, loss, optimizer, model or pipeline creates for itself is unregistered by that object's unregister operation, no tensor that belongs to another object or to the caller is unregistered by it, and no tensor is used after it was unregistered.",
  ["histories", "programs"], "all layers, losses, optimizers and models and all their configurations", "Leaks do not fail tests.",
  ["wrappers/python/nntile/layer", "wrappers/python/nntile/optimizer", "wrappers/python/nntile/loss", "wrappers/python/nntile/model"],
  [("temporaries lists and unregister methods", "wrappers/python/nntile/layer/base_layer.py and subclasses")], obs=["live tensors after unregister"])
p("C24", "Data tags are threaded: no two live tensors share a communication tag",
  "Every Python constructor function that receives the next free data tag passes it on through everything it creates and returns the first tag not yet used, so that all tensors of a model, its loss and its optimizer have disjoint tag ranges.",
  ["programs", "configurations"], "all layers, losses, optimizers and models", "Tag collisions only matter in distributed runs.",
  ["wrappers/python/nntile"], [("next_tag threading", "wrappers/python/nntile/**/*.py")], obs=["tags of created tensors"])
p("C25", "Saving and restoring an optimizer or model keeps all of its state",
  "What an optimizer's or model's save operation stores is exactly what its load operation restores: the same keys, each tensor paired with its own saved value, and every state tensor, counter and coefficient that influences later steps included, so that training continues after a restore as if it had not been interrupted.",
  ["histories", "crash_points"], "all save/load points in a training history, all optimizers with a save operation and all configurations", "Only one optimizer and one precision have a test.",
  ["wrappers/python/nntile/optimizer", "wrappers/python/nntile/model/base_model.py"], [("save_state and load_state", "wrappers/python/nntile/optimizer/*.py")], obs=["state after load vs. before save"])
p("C26", "Every trainable parameter reaches the optimizer with its own gradient",
  "Every parameter tensor a layer creates with a gradient is listed among the layer's parameters, every layer's parameters and activations are listed by the model, and each optimizer step updates every listed parameter that needs a gradient, each with its own gradient and its own state, and no other tensor.",
  ["programs", "configurations"], "all layers, models and optimizers", "A parameter that is not updated does not raise an error.",
  ["wrappers/python/nntile/layer", "wrappers/python/nntile/model", "wrappers/python/nntile/optimizer"],
  [("parameter lists", "wrappers/python/nntile/layer/*.py, model/*.py, optimizer/*.py")], obs=["parameters updated by a step"])
p("C27", "Double precision computations never pass through single precision",
  "A double precision operation computes with double precision intermediate values and scalar coefficients: no value is rounded to a narrower floating point type or integer on its way from the operands and arguments to the result.",
  ["inputs"], "all inputs of all double precision operations", "Tests compare with loose tolerances or the same narrowed reference.",
  ["src/starpu", "src/kernel"], [("typed kernels and argument blocks", "src/kernel/*/cpu.cc, src/starpu/*.cc")], obs=["rounding of results"])
p("C30", "A training step runs its phases in dependency order",
  "The training pipeline clears gradients before accumulating into them, runs the layers forward in order and backward in reverse order, feeds each batch once, and applies the optimizer once per batch after all gradients of the batch were accumulated; a model's forward pass runs every layer once and after the layers that produce its inputs, its backward pass every layer once and after all layers that use its outputs; no pass uses values left over from an earlier one.",
  ["programs", "histories"], "all models, batch counts, minibatch counts and epochs", "The pipeline and most models have no test.",
  ["wrappers/python/nntile/pipeline.py", "wrappers/python/nntile/model/base_model.py", "wrappers/python/nntile/model"], [("training loop", "wrappers/python/nntile/pipeline.py"), ("layer lists of models", "wrappers/python/nntile/model/*.py")], obs=["order of operations in a training step"])
p("C31", "Backward passes accumulate into gradients instead of overwriting them",
  "A layer's backward pass adds its contribution to the gradient of an input or parameter, so that an activation used by several layers, or several micro-batches, get the sum of all contributions; in layers that look at the flag (linear, activation and attention layers) an input gradient marked as not required keeps its contents.",
  ["programs", "histories"], "all layers and all model graphs in which an activation is used more than once", "Tests run each layer alone on cleared gradients, where adding and overwriting agree.",
  ["wrappers/python/nntile/layer"], [("coefficients of gradient updates", "wrappers/python/nntile/layer/*.py backward_async")], obs=["gradient after two contributions"])
p("C43", "Gradients equal the derivatives of the forward pass",
  "After the backward pass of a layer, model or loss each gradient holds its previous contents plus exactly the derivative of what the forward pass computed (for layers: contracted with the gradient of the output), in exact arithmetic and taking each tensor operation at its documented meaning.",
  ["inputs", "programs"], "all inputs, all layers, losses and models and their options", "Tests compare with PyTorch on samples, where it is installed; most layers have no such test and most options are off.",
  ["wrappers/python/nntile/layer", "wrappers/python/nntile/loss", "wrappers/python/nntile/model"], [("backward passes", "wrappers/python/nntile/layer/*.py backward_async")], obs=["gradients after a backward pass"])
p("C45", "Every documented configuration builds and runs",
  "Every layer, loss, optimizer, model and pipeline can be built in each of its configurations and its passes run without a name, attribute or argument error, and every tensor operation they submit is given operands (number, element types, shapes and tilings) that the operation accepts.",
  ["configurations", "programs"], "all option values of all layers, losses, optimizers, models and of the pipeline", "Half of the modules and most option values have no test, and Python resolves names only when a line runs.",
  ["wrappers/python/nntile"], [("constructors and passes", "wrappers/python/nntile/{layer,loss,model,optimizer}/*.py, pipeline.py")], obs=["exceptions"])
p("C46", "An optimizer step applies its documented update rule",
  "One step of an optimizer changes parameters and state exactly by the rule its name stands for (SGD with momentum, Nesterov, damping and weight decay; Adam and AdamW with bias correction, weight decay, optional amsgrad), with the hyperparameters it was given, at every step number, from the first on.",
  ["inputs", "histories", "configurations"], "all hyperparameter values, step numbers and options of all optimizers", "Only a few values of some optimizers are compared with PyTorch, and not by tests that run here.",
  ["wrappers/python/nntile/optimizer"], [("step", "wrappers/python/nntile/optimizer/*.py")], obs=["parameters and state after a step"])
p("C47", "Layers, losses and models compute their documented function",
  "The forward pass of each layer and model and the value of each loss is the function it is documented to compute (linear maps with the given side and transposition, layer normalisation, embedding lookup, multi-head attention with its mask, MLP-mixer, GPT2 and perceptron stacks, cross entropy, Frobenius loss), in exact arithmetic and taking each tensor operation at its documented meaning.",
  ["inputs", "configurations"], "all inputs, layers, losses and models and all their options", "The tests need PyTorch and cover few options; models other than one have no test.",
  ["wrappers/python/nntile/layer", "wrappers/python/nntile/loss", "wrappers/python/nntile/model"], [("forward passes", "wrappers/python/nntile/layer/*.py forward_async")], obs=["values after a forward pass"])
p("C40", "CPU kernels compute their documented formulas",
  "For all sizes, scalar arguments and buffer contents, every CPU kernel (all of src/kernel except randn and subcopy), in every element type and on every path it can take, stores in each element of its outputs exactly the value of its documented formula (evaluated in exact arithmetic: rounding is not part of this property) from the documented input elements: element-wise functions and their derivatives, fibre/slice broadcasts, sums, products, norms, maxima with sums of exponentials, softmax, normalization, embedding, masked fill, Adam steps. Reductions account for every element once. Branches that avoid overflow, skip zeros or special-case alpha/beta give the same value as the formula, and no intermediate divides by zero where the formula is defined.",
  ["inputs"], "every size, scalar and content; real arithmetic instead of floating point; randn (C52) and subcopy (C51) excluded", "Tests compare a few sizes and one filling pattern in which most special branches (equal maxima, zero slices, masked values, large arguments) never run.",
  ["src/kernel"], [("kernels", "src/kernel/*/cpu.cc")], obs=["values stored by kernels"])
# not applicable
p("C41", "Results do not depend on tiling, worker count or schedule",
  "For the same inputs, any tiling, number of workers and schedule give the same result up to rounding (bitwise where no reduction order is involved).",
  ["schedules", "configurations"], "all tilings, worker counts, schedulers", "Tests compare one tiling with a single tile.",
  ["src/tensor"], [("tensor operations", "src/tensor/*.cc")], obs=["numerical results"])
p("C42", "Distributed runs keep replicas coherent",
  "With several processes, every node that executes a task has the current contents of the remote tiles it reads.",
  ["schedules", "configurations"], "all distributions over nodes", "This build has no message passing layer.",
  ["src/tensor"], [("transfers before task submission", "src/tensor/*.cc")], obs=["tile contents on each node"])
p("C44", "Exponentials never overflow into the results",
  "The activation functions, softmax, its statistics and the loss built on them give finite results (no infinity, no NaN) for all finite inputs, however large, and for masked (minus infinity) logits next to at least one finite one: every exponential that reaches a result is taken of a number that is not positive, or its overflow to infinity leads to the correct limit.",
  ["inputs"], "all finite inputs for which the arguments of the exponentials are themselves representable; logits may be minus infinity", "Tests use moderate inputs.",
  ["src/kernel"], [("kernels with exponentials", "src/kernel/{maxsumexp,softmax,softmax_inplace,logsumexp,accum_maxsumexp,gelutanh,gelu,...}/cpu.cc")], obs=["non-finite results"])
p("C48", "Norms and normalization do not overflow in intermediate squares",
  "Kernels that compute Euclidean norms, root mean squares, hypotenuses and normalizations square only quantities scaled to at most one in absolute value (unless the documented operation is itself a square), so that a representable result is not lost to the overflow of an intermediate square.",
  ["inputs"], "norm_slice, hypot, hypot_scalar_inverse, normalize, sumnorm kernels; all inputs", "Tests use values near one.",
  ["src/kernel/norm_slice", "src/kernel/hypot", "src/kernel/hypot_scalar_inverse", "src/kernel/normalize", "src/kernel/sumnorm"], [("scaled squares", "src/kernel/*/cpu.cc")], obs=["infinite norms of representable inputs"])
p("C49", "Tasks built from BLAS calls and several kernels compute their documented formula",
  "Every CPU task implementation that combines BLAS routines and kernels (gemm, axpy, scaling, Euclidean norm, and the fused attention tasks: statistics of logits, softmax times values, and the two halves of their backward pass) computes its documented formula for every batch element, size, transposition and coefficient: each call gets the operands, leading dimensions, transpositions, coefficients and offsets the formula requires, in the required order, and every batch element is processed exactly once.",
  ["inputs"], "all sizes, batch counts, coefficients and transpositions; BLAS routines at their documented meaning, kernels as of C40", "The fused attention tasks have no tests at all; gemm tests use few shapes.",
  ["src/starpu"], [("task implementations", "src/starpu/{gemm,axpy,nrm2,scal_inplace,flash_*}.cc")], obs=["contents of the output buffers of tasks"])
p("C50", "Rounding errors of long sums do not accumulate",
  "The kernels that sum along axes with compensation (sum_slice, sum_fiber, sumprod_slice, norm_slice, maxsumexp, total_sum_accum) keep the rounding error of each addition from remaining in the result: after later terms have been added, what is left of it is zero to first order, so the error of a sum within a tile does not grow with the number of its terms.",
  ["inputs"], "all sizes, scalars and contents; first-order rounding errors of the additions to the accumulators; terms themselves (products, exponentials, rescaling of the sum) are taken as given", "Tests sum few terms, most of them small integers, where every addition is exact.",
  ["src/kernel/sum_slice", "src/kernel/sum_fiber", "src/kernel/sumprod_slice", "src/kernel/norm_slice", "src/kernel/maxsumexp", "src/kernel/total_sum_accum"], [("compensated summation", "src/kernel/*/cpu.cc")], obs=["sums, norms and losses over many elements in single precision"])

p("C51", "Copies between tensors and tiles move exactly the right elements",
  "scatter, gather and copy_intersection, whatever the shapes, offsets and tilings of the source and the destination, leave in every element of the destination that the source covers the source's element of the same global index, leave every other element of the destination as it was, and change nothing else; a destination tile is overwritten without having been read only if all of it is replaced. The kernel subcopy copies, for any starting indices and strides and any contents of its scratch space, exactly the elements of the box given to it.",
  ["inputs", "configurations"], "subcopy: all starting indices and strides, boxes up to rank 5 with small extents; scatter and gather: a set of tilings up to rank 3 with incomplete last tiles; copy_intersection: every small one-dimensional pair of extents, tilings and offsets, and combinations of these in 2 and 3 dimensions; the implementation's branches treat dimensions alike, which the analysis relies on for larger cases", "Tests copy a few tilings with offsets that mostly align with the tiles; a wrong edge case shows for particular relations of offsets, extents and tiles.",
  ["src/tensor/copy_intersection.cc", "src/tensor/scatter.cc", "src/tensor/gather.cc", "src/tile/copy_intersection.cc", "src/kernel/subcopy"], [("copy_intersection", "src/tensor/copy_intersection.cc"), ("subcopy kernel", "src/kernel/subcopy/cpu.cc")], obs=["contents of tensors after copies, data loading, checkpoints"])

p("C52", "Random tensors do not depend on tiling",
  "tensor and tile randn give every element the normal number that the two uniform numbers at positions 2k and 2k+1 of the generator started by the seed produce, k being the linear index of the element in the underlying tensor: the result depends on seed, starting index, underlying shape, mean and deviation only, not on the tiling or on the order of tasks, parts of one underlying tensor generated separately fit together, distinct elements use distinct random numbers, and every value is finite.",
  ["inputs", "schedules", "configurations"], "all seeds, means and deviations; kernels: all starting indices and underlying extents, boxes up to rank 4 with small extents; tile and tensor operations: a set of shapes and tilings with symbolic starting indices; the jump algebra for all states and 25 distances; finiteness in exact arithmetic with the range of the generator", "Tests compare a few tilings with one seed; a wrong jump shows for particular shapes, starts or seeds.",
  ["src/kernel/randn", "src/tensor/randn.cc", "src/tile/randn.cc", "src/starpu/randn.cc"], [("chameleon jump and draw", "src/kernel/randn/cpu.cc"), ("tensor randn", "src/tensor/randn.cc")], obs=["initial weights of models, reproducibility across tilings"])

if __name__ == "__main__":
    out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
