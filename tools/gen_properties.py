#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

L = "pico-cnn/layers/"
p("L01", "2-D convolution equals the ONNX Conv definition",
  "For every batch-1 four-dimensional input and every odd kernel size, stride, per-side padding (including none and asymmetric), group count dividing the channel counts (including depthwise) and optional bias, running a convolution layer writes into every output element exactly the sum over the group's input channels and the kernel window of kernel x zero-padded input, plus the output channel's bias. The result does not depend on what the output tensor held before.",
  ["inputs", "configurations"], "all input extents, kernel extents, strides, paddings, channel/group combinations and bias presence, for all tensor contents",
  "The unit tests run a dozen fixed shapes (mostly square, stride 1, symmetric padding, one or two group settings); index arithmetic errors that need a rectangular input, an asymmetric pad, a non-dividing stride or several channels per group are not reached.",
  [L+"convolution.cpp", L+"convolution.h", "pico-cnn/tensor.cpp"],
  [("group/channel loops accumulate per-input-channel partial results", L+"convolution.cpp Convolution::run"), ("window loop and output cursor", L+"convolution.cpp Convolution::convolve"), ("padding copy", "pico-cnn/tensor.cpp expand_with_padding")],
  ["output tensor after run()"])
p("L02", "1-D convolution equals the ONNX Conv definition",
  "For every batch-1 three-dimensional (1, channels, width) input and every odd kernel width, stride, left/right padding, group count and optional bias, running a convolution layer writes into every output element exactly the one-dimensional grouped cross-correlation plus bias. The result does not depend on what the output tensor held before.",
  ["inputs", "configurations"], "all widths, kernel widths, strides, left/right paddings, channel/group combinations and bias presence, for all tensor contents",
  "Three or four fixed 1-D cases exist; asymmetric padding, stride remainders, groups with several channels and bias presence are not combined.",
  [L+"convolution.cpp", "pico-cnn/tensor.cpp"],
  [("1-D window loop", L+"convolution.cpp Convolution::convolve_1d"), ("channel accumulation", L+"convolution.cpp Convolution::run")],
  ["output tensor after run()"])
p("L03", "Max pooling takes the maximum of the real inputs in each window",
  "For every 1-D or 2-D input of any batch and channel count, window, stride and per-side padding, each max-pooling output element equals the largest input element covered by its window; padded positions never contribute, whatever the sign of the data. Every output element is written and channels/batches never mix.",
  ["inputs", "configurations"], "all extents, windows, strides, paddings, channel and batch counts, and all orderings/signs of the data",
  "The tests use one channel layout with positive inputs only, so padding values, negative data, rectangular windows and stride remainders are not distinguished.",
  [L+"pooling/max_pooling.cpp", L+"pooling/pooling.cpp"],
  [("window maximum", L+"pooling/max_pooling.cpp MaxPooling::pool"), ("padding of the input", L+"pooling/pooling.cpp Pooling::run")],
  ["output tensor after run()"])
p("L04", "Average pooling divides each window sum by the right element count",
  "For every 1-D or 2-D input, window, stride and per-side padding (including none), each average-pooling output element equals the sum of the input elements in its window divided by the full window size when padding is counted, and by the number of real input elements in the window when padding is not counted.",
  ["inputs", "configurations"], "all extents, windows, strides, paddings, both counting modes, channel and batch counts, all contents",
  "The tests check a handful of padded cases with symmetric padding; the boundary classification (centre versus edge window) depends on output index, padding and stride together.",
  [L+"pooling/average_pooling.cpp", L+"pooling/pooling.cpp"],
  [("centre/edge divisor selection", L+"pooling/average_pooling.cpp AveragePooling::pool")],
  ["output tensor after run()"])
p("L05", "Global pooling reduces every element of each channel",
  "For every 1-D or 2-D input of any batch and channel count, global max pooling yields the maximum and global average pooling the mean over all spatial elements of each channel, each independent of the other channels and batches.",
  ["inputs", "configurations"], "all extents, channel and batch counts, every position of the extremal element",
  "One input per operator is tested; an element position the loop skips is only visible when the extremum sits there.",
  [L+"pooling/global_max_pooling.cpp", L+"pooling/global_average_pooling.cpp"],
  [("reduction loops", L+"pooling/global_max_pooling.cpp, global_average_pooling.cpp pool()")],
  ["output tensor after run()"])
p("L06", "Fully connected and MatMul layers compute the exact affine map",
  "For every input width X and output width Y, a fully connected layer with (Y,X) weights yields output[i] = sum_j weights[i][j]*input[j] (+ bias[i] when a bias is given) and a MatMul layer with (X,Y) weights yields output[i] = sum_j input[j]*weights[j][i], for all contents. Every output element is overwritten.",
  ["inputs", "configurations"], "all X, Y, bias presence and contents (checked on a basis of the weight/input space and on dense data)",
  "Two or three fixed sizes are tested; MatMul is not tested at all.",
  [L+"fully_connected.cpp"],
  [("row-major dot products", L+"fully_connected.cpp gemm/matmul")],
  ["output tensor after run()"])
p("L07", "Batch normalization applies each channel's own statistics",
  "For every batch-1 1-D or 2-D input, each output element equals gamma[c]*(x-mean[c])/sqrt(variance[c]+epsilon)+beta[c] for its channel c (up to float rounding), for all channel counts, extents, epsilon and parameter values, and the parameters are not modified.",
  ["inputs", "configurations"], "all extents, channel counts, parameter and epsilon values",
  "Two fixed inputs are tested; parameter mix-ups, a missing epsilon or channel indexing errors show only for particular parameter patterns.",
  [L+"batch_normalization.cpp"],
  [("per-channel normalize", L+"batch_normalization.cpp normalize")],
  ["output tensor after run()"])
p("L08", "Pointwise activations are right for every float value",
  "For every 32-bit float input, ReLU, leaky ReLU, parameterized ReLU and clip return exactly the value their definition gives (x, 0, leak*x, slope*x, min or max), and sigmoid and tanh return the mathematical value to float accuracy, saturating to 0/1/-1/1 without producing NaN for any non-NaN input. Each element is treated independently of its position and neighbours, for tensors of every rank and also in place.",
  ["inputs"], "all 2^32 float bit patterns (including denormals, infinities, signed zeros), all element positions and ranks, in-place and out-of-place",
  "The tests try about a dozen values per function and one or two parameter settings; thresholds, saturation and special values need the whole float range.",
  [L+"activation_functions/relu.cpp", L+"activation_functions/clip.cpp", L+"activation_functions/sigmoid.cpp", L+"activation_functions/tan_h.cpp"],
  [("element loops", L+"activation_functions/*.cpp activate()")],
  ["output tensor after run()"])
p("L09", "Softmax always yields the probability distribution of its input",
  "For every finite input vector, softmax yields exp(x_i)/sum_j exp(x_j) to float accuracy: entries lie in [0,1], sum to 1, keep the order of the inputs, are unchanged when a constant is added to all inputs, and are never NaN or infinite. This also holds in place and for every tensor rank.",
  ["inputs"], "all vectors over an alphabet spanning the float exponent range (tiny, ordinary, large, maximal magnitudes, ties) up to a length, plus dense scans for short vectors",
  "One ordinary vector is tested; overflow, underflow, ties and in-place evaluation are not.",
  [L+"activation_functions/softmax.cpp"],
  [("normalised exponentials", L+"activation_functions/softmax.cpp activate")],
  ["output tensor after run()"])
p("L10", "Local response normalization uses its symmetric channel window",
  "For every 2-D input, LRN output x/(1+alpha/size*S)^beta uses S = the sum of squares over channels max(0,c-floor(size/2)) .. min(C-1,c+floor(size/2)) at the same position (the ONNX window for odd sizes), for every batch and channel count, window size (odd or even, larger than the channel count included), alpha and beta.",
  ["inputs", "configurations"], "all channel counts, window sizes, extents, parameters and contents",
  "One configuration is tested; even sizes, windows cut at both ends and several batches are not.",
  [L+"activation_functions/lrn.cpp"],
  [("channel window clamp", L+"activation_functions/lrn.cpp activate")],
  ["output tensor after run()"])
p("T01", "Tensors are zero-initialised, disjoint, row-major arrays of their shape",
  "For every shape of rank 1 to 4, a new tensor holds exactly the product of its extents elements, all zero; the shape queries (rank, batches, channels, height, width, element and byte counts) agree with the shape; every multi-index addresses its own element, in row-major order, consistently through element access, flat access and per-channel pointers. Copying data between equally sized tensors copies every element and nothing else.",
  ["inputs", "configurations"], "all shapes up to the bound and all multi-indices in them",
  "The tests touch a few indices of a few shapes.",
  ["pico-cnn/tensor.h", "pico-cnn/tensor.cpp"],
  [("stride arithmetic", "pico-cnn/tensor.h access"), ("channel pointers", "pico-cnn/tensor.cpp get_ptr_to_channel")],
  ["values read through access, access_blob, get_ptr_to_channel"])
p("T02", "Padding embeds the data at the right offset and fills only the border",
  "For every 2-, 3- or 4-dimensional tensor and every per-side padding, expanding with padding (or copying with padding into a tensor of the padded shape, whatever it held before) yields the padded shape, contains the original data at the offset given by the top/left padding in every batch and channel, holds the requested fill value (zero by default) everywhere else, and leaves the source unchanged.",
  ["inputs", "configurations"], "all shapes, all per-side padding amounts, all fill values, both entry points",
  "A few square, symmetric cases are tested; asymmetric pads, several batches and non-default fills interact with the row stride.",
  ["pico-cnn/tensor.cpp"],
  [("padded copy", "pico-cnn/tensor.cpp expand_with_padding, copy_with_padding_into")],
  ["returned/destination tensor"])
p("T03", "Tensor addition, scaling and channel concatenation act element by element",
  "For all shapes and contents: adding a tensor adds each element of the other to the matching element; adding a channel changes exactly that batch's channel; scaling writes factor*x for every element without touching the source; concatenating along the channel axis places every input's channels in order, completely and without gaps, for inputs with differing channel counts and of every supported rank (2, 3 or 4).",
  ["inputs", "configurations"], "all shapes, batch/channel choices, numbers and channel counts of the concatenated inputs",
  "Each operation is tested on one shape; concatenation of 2-D tensors and unequal channel counts are not.",
  ["pico-cnn/tensor.cpp"],
  [("element loops", "pico-cnn/tensor.cpp add_tensor, add_channel, mul_with_factor, concatenate_from")],
  ["tensors after the call"])
p("T04", "Tensor equality holds exactly when shapes agree and all values are close",
  "Two tensors compare equal if and only if they have the same rank, the same extents, and every pair of corresponding elements differs by less than the tolerance; in particular a single differing element at any position, a difference involving a NaN or an infinity, a different shape with the same element count, or a different rank makes them unequal, in both argument orders, and comparison never reads outside either tensor.",
  ["inputs", "configurations"], "all pairs of shapes up to the bound, all positions and signs of a single difference",
  "The tests compare a handful of pairs, and every other unit test uses this operator as its oracle.",
  ["pico-cnn/tensor.h", "pico-cnn/utils.h"],
  [("shape and element comparison", "pico-cnn/tensor.h operator==")],
  ["result of =="])
p("T05", "The text of a tensor shows its shape and every element in its place",
  "Writing a tensor of rank 1 to 4 to a stream produces a header with its shape and then every element exactly once, in row-major order, in the stream's own number format, with brackets that nest as the dimensions do (a batch holds its channels, a channel its rows, a row its values separated by commas; a rank-1 tensor is one row), every row on a line of its own; the tensor and the stream's format stay unchanged and printing again prints the same.",
  ["inputs", "configurations"], "all shapes of rank 1 to 4 up to the bound, extents around 2^8 and 2^16, all contents including NaN, infinities and denormals, all number formats",
  "No test looks at the text.",
  ["pico-cnn/tensor.cpp", "pico-cnn/tensor.h"],
  [("per-rank printing loops", "pico-cnn/tensor.cpp operator<<")],
  ["text written to the stream"])
p("E01", "Running a layer changes only its output tensor and leaks nothing",
  "For every layer type and configuration, run() leaves its input tensor, its parameter tensors and every other live tensor bit-identical, keeps within the bounds of all tensors, and leaves the heap as it found it; constructing and destroying a layer releases everything it allocated and never frees the caller's parameters, and later changes to the arrays passed to a constructor have no effect.",
  ["inputs", "configurations", "histories"], "all layer types, all small configurations, repeated runs",
  "Tests look at the output only; stray writes, leaks and aliasing with caller-owned arrays are invisible to them.",
  [L+"convolution.cpp", L+"pooling/pooling.cpp", L+"activation_functions/", L+"fully_connected.cpp", L+"batch_normalization.cpp"],
  [("private copies of stride/padding", L+"convolution.cpp, pooling/pooling.cpp constructors"), ("temporary tensors freed in run", L+"convolution.cpp run, pooling/pooling.cpp run")],
  ["input/parameter tensors, heap balance, sanitizer reports"])
p("E02", "A layer's result depends only on its parameters and current input",
  "Running any layer is a pure function of its constructor arguments, the current contents of its parameter tensors and the current input: after any sequence of earlier runs of the same or other layers, on other inputs or shapes, into fresh or reused output tensors, a run yields bit-for-bit the output a newly constructed layer yields.",
  ["histories"], "all sequences of run operations up to the depth bound over a pool of layers, inputs and output buffers, including shared parameters and parameter reloads",
  "Every unit test constructs a layer and runs it once.",
  [L+"convolution.cpp", L+"pooling/", L+"activation_functions/", L+"fully_connected.cpp", L+"batch_normalization.cpp", "pico-cnn/tensor.cpp"],
  [("no mutable state in layers", "all run() implementations")],
  ["output tensor after each run"])
p("E03", "Layers may run concurrently on separate outputs without interference",
  "When several threads run layers at the same time — distinct layers, layers sharing parameter or input tensors, or the same layer object with distinct outputs — every interleaving gives each thread exactly the output of a sequential run, with no conflicting unsynchronised access to shared memory.",
  ["schedules"], "all interleavings, up to the preemption bound, of two or three threads over pairs of layer types, with shared parameters/inputs",
  "No test uses threads; a static scratch buffer or lazily filled cache in a layer is invisible to single-threaded tests.",
  [L+"convolution.cpp", L+"pooling/", L+"activation_functions/", L+"fully_connected.cpp", L+"batch_normalization.cpp", "pico-cnn/tensor.cpp"],
  [("run() keeps all state in locals and caller-provided tensors", "all run() implementations")],
  ["outputs per thread, memory accesses per thread"])
p("E04", "What an operation does not support ends the process with an error",
  "Running a layer or tensor operation outside its supported subset ends the process with an error message and a failing exit status, without a memory error and without returning as if it had worked: convolution, pooling, global pooling and batch normalisation on inputs that are not of rank 3 or 4, LRN on ranks other than 4, fully connected with input or output not of rank 2, convolution and batch normalisation of more than one picture, a parameterised ReLU whose slope has another rank or element count than the input, copying between tensors of different element counts, height/width/padding of a rank-1 tensor, concatenation along a dimension other than 1, and an average over a window that holds padding only when padding is not counted. The supported neighbours of each run without an error.",
  ["inputs"], "every layer configuration of a list x all shapes of unsupported rank over small extents, all pairs of shapes for slopes and copies, sizes equal in their low bits, all paddings and concatenation dimensions of a small set",
  "The tests only use supported inputs; a check that prints and continues, or is dropped, returns leftover memory as a result.",
  [L+"convolution.cpp", L+"pooling/", L+"activation_functions/", L+"fully_connected.cpp", L+"batch_normalization.cpp", "pico-cnn/tensor.cpp"],
  [("rank, batch and size guards at the start of run()", L+"convolution.cpp Convolution::run; "+L+"pooling/pooling.cpp Pooling::run"), ("element count and dimension guards", "pico-cnn/tensor.cpp copy_data_into, height, width, concatenate_from")],
  ["exit status and error text of the process"])
p("E05", "Results do not depend on build options or diagnostic output",
  "Every operation of the library (layers, tensor operations, readers and writers, rejections) gives the same results, the same return code and the same end of the process whatever the build: with or without DEBUG and INFO output, at every optimisation level, with or without assertions (NDEBUG), with gcc or clang, with signed or unsigned char, and whatever memory holds where no value was stored.",
  ["inputs", "configurations"], "about 1700 operations x 9 build configurations, each compared with a plain unoptimised build",
  "The tests run one build, whose flags hide uninitialised variables, effects inside diagnostic statements, assertions and undefined behaviour.",
  ["pico-cnn/parameters.h", "pico-cnn/tensor.cpp", L, "pico-cnn/io/"],
  [("diagnostic macros", "pico-cnn/parameters.h PRINT_DEBUG, PRINT_INFO"), ("diagnostic output between reads", "pico-cnn/io/read_binary_weights.cpp; pico-cnn/io/read_binary_reference_data.cpp")],
  ["outputs, return codes and exit status of each build"])
p("I01", "A well-formed weights file loads every value into its place",
  "For every well-formed binary weights file over the supported record types (Conv, BatchNormalization, Gemm, MatMul, Transpose, Add), in any order, with or without biases, with names of any length and with parameters marked as shared (zero counts), reading it returns success and stores each kernel value, in order, in the next kernel tensor and each bias-like array in the next bias tensor, leaving all others untouched.",
  ["inputs", "histories"], "all record sequences up to the depth bound, all small kernel shapes, bias presence, shared markers, name lengths",
  "No test reads a weights file.",
  ["pico-cnn/io/read_binary_weights.cpp"],
  [("record parser with separate kernel and bias cursors", "pico-cnn/io/read_binary_weights.cpp read_binary_weights")],
  ["kernel and bias tensors, return code"],
  [("kernel_idx/bias_idx", "cursors into the caller's tensor arrays", "pico-cnn/io/read_binary_weights.cpp")])
p("I02", "A damaged, truncated or missing weights file is reported, never believed",
  "For every truncation of a well-formed weights file, every corruption of its structure (magic, counts, record type, end marker) and a missing or unreadable file, reading returns a non-zero code without terminating the process, without writing outside any tensor or buffer, and without leaking; it returns success only if the file's structure is intact.",
  ["crash_points", "inputs", "fault_sequences"], "every prefix of each sample file, every single structural field replaced by each of a set of wrong values, every single-byte change of structure, unopenable paths",
  "No test reads a weights file.",
  ["pico-cnn/io/read_binary_weights.cpp"],
  [("checked freads", "pico-cnn/io/read_binary_weights.cpp")],
  ["return code, sanitizer reports, tensors"])
p("I03", "Reference data files load exactly, and damaged ones are refused",
  "For every input tensor of rank 2 to 4 (batch 1) and every 2-D output tensor, reading a well-formed reference file whose header matches the tensor's shape returns 0 and stores exactly the file's values; every truncation, header or marker mismatch and a missing file returns non-zero without terminating the process, touching memory outside the tensor, or leaking.",
  ["inputs", "crash_points"], "all small shapes, every prefix, every header field replaced, every single-byte change of structure, unopenable paths",
  "No test reads reference data.",
  ["pico-cnn/io/read_binary_reference_data.cpp"],
  [("header checks against the tensor", "pico-cnn/io/read_binary_reference_data.cpp")],
  ["tensor contents, return code, sanitizer reports"])
p("I04", "MNIST readers deliver the requested images and labels correctly scaled",
  "For every well-formed MNIST image or label file and every requested count, padding and value range, the readers return the smaller of the requested and provided counts and deliver, per image, lower+(pixel/255)*(upper-lower) inside a border of the given width filled with the lower bound, and each label unchanged; a missing or mis-tagged file, or one that ends before the images or labels it is asked for, returns 0 (range bounds are given in order, lower first). Byte-order conversion reverses the four bytes of every 32-bit value.",
  ["inputs", "crash_points"], "all small image sizes, counts, paddings, ranges, every pixel value, every prefix of a file, all 2^32 words for byte order",
  "No test reads MNIST files.",
  ["pico-cnn/io/read_mnist.cpp"],
  [("header parse and scaling", "pico-cnn/io/read_mnist.cpp")],
  ["returned arrays and counts"])
p("I05", "Images survive writing to PGM and reading back",
  "Writing any finite float image as PGM and reading it back yields the same dimensions and, for each pixel, the value's linear position between the image's minimum and maximum (to one grey level) scaled into the requested range inside a border of the requested width; reading any valid 8-bit PGM in the library's layout (magic line, optional comment lines, dimensions, maximum 255) delivers every pixel value exactly, including bytes that look like white space. Unreadable, truncated or non-PGM files are reported as errors.",
  ["inputs", "crash_points"], "all small image shapes, all first-pixel byte values and grey levels, value ranges far from zero, constant images, paddings, every prefix of a file",
  "No test writes or reads PGM files.",
  ["pico-cnn/io/read_pgm.cpp", "pico-cnn/io/write_pgm.cpp"],
  [("min/max normalisation", "pico-cnn/io/write_pgm.cpp"), ("header parse", "pico-cnn/io/read_pgm.cpp")],
  ["file bytes, returned image"])
p("I06", "Float dumps, mean files and label files are transferred without loss",
  "A float dump contains the dimensions and every element bit-exactly in row-major order; a mean file's three values are read back exactly; label files deliver every line (up to the requested number) unshortened and in order with the number of labels read; missing or malformed files are reported through the documented return code.",
  ["inputs", "crash_points"], "all small shapes and float classes, all label-file shapes (line count versus request, line lengths, final newline present or not), every malformed header",
  "No test covers these readers and writers.",
  ["pico-cnn/io/write_float.cpp", "pico-cnn/io/read_means.cpp", "pico-cnn/io/read_imagenet_labels.cpp", "pico-cnn/io/read_imagenet_validation_labels.cpp"],
  [("hex float text", "pico-cnn/io/write_float.cpp, read_means.cpp"), ("line readers", "pico-cnn/io/read_imagenet_*.cpp")],
  ["file bytes, returned arrays and counts"])
p("I07", "JPEG images are decoded into the right planes, scale and dimensions",
  "For every decodable JPEG file, colour or greyscale, reading it returns 0, reports its height and width, and delivers three row-major planes (index 0 blue, 1 green, 2 red; all equal for greyscale) whose samples are the decoder's samples scaled linearly from 0..255 into the requested range (lower bound first); a missing file returns an error.",
  ["inputs", "configurations"], "all small image sizes, colour and greyscale, baseline and progressive, sub-sampling modes, value ranges",
  "No test reads JPEG files.",
  ["pico-cnn/io/read_jpeg.cpp"],
  [("scanline loop and scaling", "pico-cnn/io/read_jpeg.cpp")],
  ["returned planes and dimensions"])
p("I08", "Image and float writers report every failed write",
  "If any part of a PGM or float dump cannot be stored (the file cannot be created or the medium refuses data at any byte offset), the writer returns its error code; it returns success only when the complete file is on disk, and it never leaks or crashes.",
  ["fault_sequences", "crash_points"], "every byte offset at which writing can start to fail, for several image sizes, plus uncreatable paths",
  "No test covers the writers or injects faults.",
  ["pico-cnn/io/write_pgm.cpp", "pico-cnn/io/write_float.cpp"],
  [("write return codes", "pico-cnn/io/write_pgm.cpp, write_float.cpp")],
  ["return code, file length"])
N = "onnx_import/"
p("N01", "Each imported operator behaves as its ONNX definition",
  "For every supported operator (Conv 1-D/2-D, Gemm, MatMul, MaxPool, AveragePool and global pools, Relu, Clip, LRN, Softmax, BatchNormalization, Add, Mul by a constant, Pad, Transpose, Concat, Reshape, Flatten, Squeeze) with every supported attribute setting, importing a model and running the generated network with its generated weights file computes the ONNX semantics of the model.",
  ["programs", "configurations"], "all single-operator models (wrapped to a 2-D output) over the small attribute alphabet",
  "No test runs the importer.",
  [N+"pico_cnn.py", N+"backend.py", N+"memory_allocation.py", N+"memory_manager.py", N+"code_templates/"],
  [("operator classes derive template attributes", N+"pico_cnn.py"), ("templates", N+"code_templates/")],
  ["output of the compiled generated network"])
p("N02", "Imported networks compose operators as the graph says",
  "For every supported model graph — chains, branches, residual additions, concatenations, values with several consumers, repeated operators and node or tensor names containing dots, slashes or colons — the generated network computes the composition the graph describes; no intermediate value is overwritten before its last use and the network's input and parameters are left unchanged.",
  ["programs", "histories"], "all operator sequences up to the depth bound over an operator alphabet, and all small branching topologies",
  "No test runs the importer.",
  [N+"backend.py", N+"memory_manager.py", N+"memory_allocation.py", N+"compute_graph.py"],
  [("one buffer per value, schedule in graph order", N+"backend.py _export_model, _generate_network_initialization")],
  ["output of the compiled generated network"])
p("N03", "The weights file and the generated network agree on parameter order",
  "For every supported model — parameters listed in any initializer order, shared between nodes or used twice by one node, biases present or absent, any mix of parameterised operators — loading the generated weights file into the generated network succeeds, fills every parameter tensor with the value the model gives that parameter, and leaves none unset.",
  ["programs", "configurations"], "all sequences of parameterised operators up to the depth bound, all sharing patterns and initializer orders over them",
  "No test runs the importer.",
  [N+"backend.py", N+"memory_allocation.py", "pico-cnn/io/read_binary_weights.cpp"],
  [("weights writer", N+"backend.py _generate_weights_file"), ("parameter allocation", N+"backend.py _generate_network_initialization"), ("reader", "pico-cnn/io/read_binary_weights.cpp")],
  ["parameter tensors of the generated network, return code"])
p("N04", "Models outside the supported subset are refused, not miscompiled",
  "For every model that uses an operator, attribute value, shape or topology the framework does not implement (for example even convolution kernels, dilation, automatic padding, transposed or scaled Gemm, ceil-mode pooling, unsupported broadcasting, batch sizes above one, several outputs), the importer either produces a network with the model's ONNX semantics or refuses without producing one; it never emits a network that computes something else.",
  ["programs", "configurations"], "all single-operator models in which one attribute takes each of its unsupported values, and all unsupported operators/topologies of the alphabet",
  "No test runs the importer.",
  [N+"pico_cnn.py", N+"backend.py"],
  [("attribute checks in operator classes", N+"pico_cnn.py create()")],
  ["existence and output of the generated network"])
p("N05", "Graph simplification preserves meaning and shapes",
  "Propagating constants, removing constant sub-graphs and removing no-operations never changes what a model computes: the simplified graph has the same input, output and numerical meaning as the original, removed nodes are exactly those without effect, and the shape recorded for every remaining value equals its true shape.",
  ["programs"], "all graphs up to the bound that combine Constant, Shape, Gather, Unsqueeze, Squeeze, Concat, Cast, Reshape (with 0 and -1 entries) and data operators",
  "No test runs the importer.",
  [N+"constprop.py", N+"backend.py", N+"compute_graph.py"],
  [("worklist constant propagation", N+"constprop.py constant_propagation"), ("constant and no-op removal", N+"backend.py _remove_constants, _remove_nops")],
  ["generated network output, recorded shapes"])
p("N06", "Reference data tools and the validation program give the right verdict",
  "The reference-data tools write, for every supported tensor shape and content, files that the library reads back bit-exactly into a tensor of that shape; the generated validation program reports agreement exactly when every network output is within its tolerance of the reference output, reports disagreement otherwise, and exits with an error when weights or reference files are missing or damaged; the generated Makefile builds the generated programs, and the benchmark program runs the network, with the given weights, exactly the requested number of times on random input between 0 and 1, with the same input for all runs or new input for each run as requested.",
  ["inputs", "configurations", "crash_points"], "all small shapes, every single output position perturbed above/below tolerance, every missing/damaged file argument, numbers of benchmark runs and clock values",
  "No test runs the tools or generated programs.",
  ["util/parse_onnx_reference_files.py", "util/generate_reference_data.py", N+"generate_dummy.py", N+"code_templates/main_program/reference_input.cpp", N+"code_templates/main_program/dummy_input.cpp", "pico-cnn/io/read_binary_reference_data.cpp"],
  [("writers", "util/*.py"), ("comparison loop", N+"code_templates/main_program/reference_input.cpp")],
  ["tensors read, program output and exit code"])
p("N07", "Generated networks are reusable, independent and deterministic",
  "A generated network object can be run any number of times with different inputs, each run giving the result of a fresh network; several network objects (of the same or different models) can be created, loaded, run and destroyed in any order without affecting each other, touching memory out of bounds or leaking; importing the same model again yields an equivalent network and weights file.",
  ["histories", "programs"], "all sequences of create/load/run/destroy operations up to the depth bound on two network objects, over a set of models",
  "No test runs the importer or generated code.",
  [N+"backend.py", N+"memory_allocation.py", N+"code_templates/"],
  [("constructor/destructor generation", N+"backend.py"), ("buffer allocation and cleanup templates", N+"code_templates/memory_allocation")],
  ["outputs, sanitizer reports, generated files"])
p("N08", "Utility scripts prepare images as asked and judge models correctly",
  "prepare_images writes, for every .JPEG picture directly in the given folder, exactly one new picture of exactly the requested size holding the scaled picture, the centred rectangle (scale, center_crop), or - for ILSVRC pictures, when it lies inside the picture - the rectangle at the requested position (crop); it leaves every existing file as it was, ignores everything else in the folder, can be run again, and writes nothing for an unknown mode, a wrong number of sizes or positions, or a rectangle beyond the picture. check_onnx_model reports a match exactly when the model, run on the reference input, reproduces every value of every reference output and there is one reference output per model output. save_intermediate_outputs writes, for each requested tensor, exactly its values for the all-ones input of the requested shape into a file of its own.",
  ["inputs", "configurations"], "all small picture sizes x requested sizes x positions x modes, folders with several pictures in every order, every single perturbed reference value, every subset and order of requested tensors",
  "No test runs the scripts.",
  ["util/prepare_images.py", "util/check_onnx_model.py", "util/save_intermediate_outputs.py"],
  [("crop rectangles", "util/prepare_images.py"), ("comparison", "util/check_onnx_model.py")],
  ["files written, their pixels or values", "what is printed"])
p("N09", "Importer and data tools report every failure and can always be run again",
  "When the importer or one of the data tools (parse_onnx_reference_files, generate_reference_data, prepare_images, save_intermediate_outputs) ends with exit status 0, every file it is to produce is complete on disk with exactly the content of an undisturbed run. When it cannot do its work - a model that is refused, an unreadable, truncated or unsupported file, a missing argument, any failing file operation, a full disk - it says so and ends with a failing exit status; a refused model leaves previously generated code untouched. Its inputs and unrelated files of the user are never changed, and after any failure or interruption at any point, running it again gives exactly the files of an undisturbed run, whatever lies there from earlier runs.",
  ["crash_points", "histories", "inputs"], "every file operation of 20 program runs x {fails, disk full from there on, short write, process ends before, process ends within} x {fresh folder, over longer files, over its own results}, pairs of such faults in consecutive runs, every model of N04's family, every prefix of the input files",
  "No test runs the scripts; failing operations and interruptions do not occur in tests.",
  [N+"onnx_to_pico_cnn.py", N+"backend.py", "util/parse_onnx_reference_files.py", "util/generate_reference_data.py", "util/prepare_images.py", "util/save_intermediate_outputs.py"],
  [("writing the generated files", N+"backend.py save"), ("refusing a model", N+"backend.py _generate_inference_code")],
  ["exit status, text printed", "files on disk"])
p("N10", "Generated networks in different threads do not interfere",
  "Threads that each use network objects of their own - of the same or of different models - may create, load, run and destroy them at the same time: under every interleaving each run gives exactly the outputs of the model, each load fills the parameters from its file, and no thread touches memory another one uses without synchronisation.",
  ["schedules", "programs"], "all schedules up to the preemption bound of two or three threads over {run, load, create/destroy, whole life} of networks of every operator and of stateful models",
  "No test runs generated code, let alone in threads; a static buffer in a template, a layer or the weights reader is invisible to sequential use.",
  [N+"pico_cnn.py", N+"code_templates/", N+"backend.py", "pico-cnn/io/read_binary_weights.cpp", "pico-cnn/layers/", "pico-cnn/tensor.cpp"],
  [("buffers are members of the network object", N+"memory_manager.py"), ("local state of the weights reader", "pico-cnn/io/read_binary_weights.cpp")],
  ["outputs of every run, loaded parameters", "memory accesses of every thread"])
p("X01", "Example programs report what their network computes on the data they were given",
  "Each example program, compiled with the network generated for its model, reports exactly the error rate and confusion matrix of the network's predictions on the first 1000 (or all, if fewer) pictures of the MNIST data set it is given (lenet, mnist_mlp, mnist_simple_perceptron), or the ten best labels in descending order with their values for a 224x224 JPEG picture from which the per-channel means are subtracted (alexnet, vgg); it accepts paths of any length, and ends with an error, without touching memory out of bounds, when arguments, weights, data, label, mean or picture files are missing, damaged, inconsistent with each other, or of an unsuitable size.",
  ["inputs", "configurations", "crash_points"], "data-set sizes around 1000, every (predicted, actual) label pair, every prefix of the label file, header damage, every label value, picture sizes around 224, colour modes, path lengths around buffer sizes",
  "No test runs the example programs; they combine importer, library and file readers end to end.",
  ["examples/lenet.cpp", "examples/mnist_mlp.cpp", "examples/mnist_simple_perceptron.cpp", "examples/alexnet.cpp", "examples/vgg.cpp", "pico-cnn/io/read_mnist.cpp", "pico-cnn/io/read_jpeg.cpp", "pico-cnn/io/read_means.cpp", "pico-cnn/io/read_imagenet_labels.cpp"],
  [("evaluation loop", "examples/lenet.cpp"), ("mean subtraction and ranking", "examples/alexnet.cpp")],
  ["program output and exit code", "sanitizer reports"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
