"""What each check enumerates (bounds), by what method, and what it assumes. Used for the evidence files and for
MANIFEST.json (tools/gen_manifest.py); DESIGN.md explains the reasoning."""
ENV = "x86-64, this compiler and libm; IEEE float arithmetic"
INP = "bounded-exhaustive explicit exploration of the real code (every configuration/input in the bound) against an executable reference model, under ASan/UBSan"
SEQ = "explicit exploration of all operation sequences up to a depth on the real objects, against a reference model"
FLT = "exhaustive fault/crash-point enumeration on the real code (every prefix, every field, every byte offset), judged by an independent parser"
def M(technique, bounds, note, assumes=()): return dict(technique=technique, bounds=bounds, note=note, assumes=[ENV] + list(assumes))
DATA = "layer inputs hold small exactly representable values, so any order of summation gives the same result; values outside that alphabet are not explored"
PRG = "bounded-exhaustive enumeration of programs (ONNX models): each is imported by the real importer, the generated network is compiled and executed under sanitizers, and every output compared with an independent evaluation of the model"
IMP = ["onnx (graph classes, protobuf, shape inference, nop-dropout elimination) and jinja2 are replaced by stand-ins written for this machinery, because they are not installed", "float arithmetic of small well-scaled values, compared within 1e-5 relative to the largest output"]
META = {
 "L01": M(INP, "all extents 1..4 (5) x odd kernels 1/3/5 x strides 1..2 (3) x every per-side padding 0..2 for 3 channel set-ups; all channel/group set-ups x extents 1..6 (7) x strides 1..3 (4) x bias; kernels 1..15; one quantity at a time (extent, channels, groups, stride, padding) up to 140 (270). In brackets: thorough.",
          "Every configuration in the bound is executed twice on the real layer with a dirty output; nothing is claimed beyond the bound.", [DATA]),
 "L02": M(INP, "all widths 1..12 (24) x odd kernels 1..7 (11) x strides 1..5 (7) x left/right padding x channel/group set-ups x bias; one quantity at a time up to 200 (400)",
          "As L01.", [DATA, "the stride and padding arrays passed hold two entries"]),
 "L03": M(INP, "1-D and 2-D: extents 1..5 (6), windows 1..3 (4), strides 1..3 (4), every per-side padding 0..2, batches 1..3, channels 1..3, all-negative/mixed/positive/extreme/subnormal data, one NaN that may reach only the windows it lies in; extents up to 140 (270)", "As L01.", [DATA, "padding smaller than the window, as ONNX requires"]),
 "L04": M(INP, "as L03 for both counting modes and null padding", "As L01; quotients compared within 4 ulp.", [DATA, "padding smaller than the window, as ONNX requires"]),
 "L05": M(INP, "1-D and 2-D: extents 1..7 (9) x batches x channels x every position of the extremal element x 7 data patterns (one with a NaN that may reach only its own channel); extents up to 300 (600)", "As L01.", [DATA]),
 "L06": M(INP, "every X,Y in 1..12 (20): every single-weight/single-input unit pair (a basis of the bilinear map) and dense data, with and without bias; X up to 140 (270)", "The map is bilinear in (weights, input), so unit pairs plus dense probes determine it inside the bound.", [DATA]),
 "L07": M(INP, "every assignment of gamma/beta/mean/variance per channel from small value sets for up to 3 (5) channels, extents up to 3 (5), several epsilon; channels/extents up to 150 (300)", "Compared within a relative float tolerance."),
 "L08": M("exhaustive enumeration of all 2^32 float inputs on the real code, against the definition (tolerance for sigmoid/tanh); enumeration of positions, ranks and in-place use",
          "all 2^32 bit patterns x 6 activations (several parameters); every element position of all small shapes of rank 1..4", "Complete for a single element value; positions and shapes are bounded.", ["NaN inputs are not judged"]),
 "L09": M(INP, "all vectors of length 1..4 (5) over 16 magnitudes spanning the float range, long patterned vectors up to 130 (300), every rank, in place and out of place", "Accuracy tolerance 1e-5 relative/1e-6 absolute."),
 "L10": M(INP, "channels 1..7 (9) x window sizes 1..2C+1 x extents x batches x alpha/beta/data patterns; one quantity up to 100 (200)", "Compared within a relative float tolerance.", ["bias constant 1, as the layer has no bias parameter"]),
 "E04": M(INP + "; every case runs the real operation in a process of its own",
          "every layer class in 1..8 configurations x all shapes of every unsupported rank over extents {1,2,5} ({1,2,3,5,9}), batches 2..257; all pairs of shapes up to extent 3 (4) for slopes and copies; sizes that differ by multiples of 2^8 and 2^16; all concatenation dimensions of a set; average pooling: every padding 0..4 per side x windows x strides, split into those with and without an empty window",
          "Verdict by exit status and error text; supported neighbours must run without an error.", ["the only requests judged are the ones the library itself declares unsupported"]),
 "T01": M(INP, "all shapes of rank 4 up to extent 5 (7), rank 3 up to 9 (16), rank 2 up to 40 (80), rank 1 up to 600 (3000), and power-of-two straddling extents; every multi-index of each", "Complete over multi-indices inside the shape bound."),
 "T02": M(INP, "all H,W in 1..3 (4) x per-side padding 0..3 (4) x 7 fill values x batches x channels, ranks 2..4; one quantity at a time up to 140 (300)", "Both entry points."),
 "T03": M(INP, "all small shapes x all batch/channel choices x 1..4 (5) concatenated inputs with every assignment of channel counts", "Every element compared; sources checked for changes."),
 "T04": M(INP, "all ordered pairs of shapes of rank 1..4 with extents up to 3 (4); every single differing position x sizes of the difference around the tolerance x data magnitudes", "The verdict is compared with the definition in both argument orders.", ["NaN elements are not judged"]),
 "T05": M(INP, "all shapes of rank 1 up to 40 (70), rank 2 up to 8x8 (12x12), ranks 3 and 4 up to extent 4 (5), extents around 2^8 and 2^16 x 3 kinds of contents (incl. NaN, infinities, denormals) x 6 number formats x string and file streams", "The text is parsed back: header, nesting and every element."),
 "E01": M(INP, "every layer of a 90+ configuration zoo (31 of them large: up to 4100 wide, 130 channels deep, 33x34 windows) x data salts x {plain, constructor arrays overwritten, in place, parameters used after the layer's end}", "Guarded memory, heap block counts and checksums of every tensor; ASan and LeakSanitizer-style accounting of the harness."),
 "E02": M(SEQ, "all sequences up to depth 4 (5) per layer, and of pairs/triples of layers, over {run on input A/B, changed data, fresh/reused output, parameter rewrite, destroy+rebuild}; up to 600 (2000) repetitions of each run; 31 large layers (small and large shapes alternating on the same object, every ordered pair)", "Each run is compared bit by bit with a freshly built layer."),
 "E03": M("stateless model checking: all thread interleavings up to a preemption bound of the real, instrumented code under a controlled scheduler, with conflict detection on every access", "all schedules with at most 1 (2) preemptions at accesses to shared memory, 2 and 3 threads, every layer class alone (9 sharing patterns) and every pair of classes; 31 large layers (4 sharing patterns) in every schedule without preemption", "Scheduling points are accesses to memory touched by more than one thread; since no conflicting access exists, all interleavings are equivalent to the explored ones (up to the data explored).", ["sequentially consistent interleavings (any unordered conflict is itself reported)"]),
 "I01": M(SEQ, "all record sequences up to depth 4 (5) over the record types with small shapes, bias presence, shared markers; name lengths 0..300 (600); counts up to 90 (300)", "Each file is read into marked tensors; every value and every untouched tensor is compared."),
 "I02": M(FLT, "for every sequence of up to 2 (3) records: every prefix, every structural field replaced by each wrong value, every byte of structure changed, extra/missing records, wrong networks, unopenable paths; names and types of 98..5000 characters cut, merged and split", "The verdict comes from an independent parser; memory is guarded by ASan, heap and file descriptors are counted.", ["shared markers with only one of two zero counts and NULs in names are unspecified and not judged"]),
 "I03": M(FLT, "all input shapes of rank 2..4 and output shapes up to extent 4 (6): the intact file, every prefix, every header field replaced, every structural byte changed, unopenable paths", "As I02."),
 "I04": M(INP, "image sizes up to 3x3 (5x5) and up to 70 (300) in one dimension, counts, requests, paddings, ranges, every pixel value, every prefix, wrong tags; byte order on all 2^32 words", "Byte order is complete; the rest is bounded.", ["ranges are given lower bound first"]),
 "I05": M(INP, "all images up to 4 pixels over a 7 (10)-value alphabet, sizes up to 80 (300), every grey level at every small position, paddings, ranges, comment lines, every prefix, malformed headers", "The written file is parsed independently; the read-back is compared pixel by pixel.", ["ranges are given lower bound first"]),
 "I06": M(INP, "dumps of all small shapes over all float exponents; mean files over float classes and 2000 (20000) patterns, every prefix; label files with every combination of up to 4 lines over 7 line kinds x requests x final newline, line lengths to 400 (1200)", "Exact comparison."),
 "I07": M(INP, "all sizes up to 9x9 (20x20) and up to 70 (260) in one dimension x {grey, 4:4:4, 4:2:0, 4:2:2, ...} x baseline/progressive x qualities x ranges; very wide images", "Samples come from an independent decode of the same bytes with the same libjpeg.", ["libjpeg decodes correctly"]),
 "I08": M(FLT, "for each image: a write failure at every byte offset (resource limit and failing stream), failing close, short writes, full device, uncreatable path", "Success must coincide with the complete file on disk.", ["large images: every 7th offset in quick"]),
 "E05": M("exhaustive enumeration of operations x build configurations, each executed by the real library built in that configuration and compared with the plain build",
          "about 1750 (2400) operations (every layer configuration of the zoo x data, tensor operations and printing, weights files of 1 and 2 records, their prefixes and damaged bytes, reference, MNIST, PGM, JPEG, float, means and label files and prefixes, unsupported requests) x 9 configurations: debug and information output, the Makefile's flags, -O3 -DNDEBUG, clang, variables initialised with zeros or a pattern, unsigned char, sanitizers",
          "Each configuration is a complete build of the library into a shared object of its own; results, return codes and exit statuses are compared, float results up to 1e-5.", ["the printed text itself is only compared for the printing of tensors"]),
 "N01": M(PRG, "about 3000 (6000) single-operator models: every supported operator x the small alphabet of kernel extents, strides, paddings, groups, shapes of rank 2..4, float parameters; two inputs each", "Each network is imported by the real importer in its own process, compiled under ASan/UBSan against the library and run three times; parameters are poisoned before loading.", IMP),
 "N02": M(PRG, "all chains of 1 and 2 (3) operators over 16..23 operators per rank, chains of 3 (4) over the core operators, all graphs of 3 (4) nodes over unary and binary operators (every wiring, every output), deep chains up to 16 (40), merges up to 17 (64) inputs, 36 naming schemes, vectors in the middle of the network (17 operators, sequences of up to 2 (3)), parameters listed before the input, two of the repository's models", "As N01.", IMP),
 "N03": M(PRG, "all sequences of parameterised operators up to 2 (3) nodes, every way of sharing their parameters, initializer orders, listed or unlisted initializers, very large parameters", "The loaded parameter tensors are compared with the model's initializers as a multiset of exact values, and the outputs with the model.", IMP),
 "N04": M(PRG, "about 4700 (6400) models with one unsupported attribute value, shape, broadcast, operand kind, topology, operator or name each, and their supported neighbours; inputs declared for several pictures, in every position of the input list", "A model is either refused or its network computes the ONNX semantics, compiles, loads its weights and is memory safe.", IMP),
 "N05": M(PRG, "about 3900 models that compute shapes with Shape, Gather, Concat, Cast, Squeeze, Unsqueeze and constants: every operator as source, every form of an entry, every composition of a target shape, no-operations in every position; with and without onnx's shape inference through them", "Recorded shapes are judged by what shape-sensitive consumers compute.", IMP),
 "N06": M("exhaustive enumeration of tensors, of the generated programs of 18 (60+) models, and of faults in the files they read; every tool and program is the real one, its files are judged by an independent packer and by the library's reader, its verdict by the definition", "parse tool: all 4-D inputs up to extent 3 (4), outputs up to 20 (40) values incl. NaN/infinite/denormal; generator: all shapes of rank 2..4 up to extent 3 (4), ranges, seeds, wav/pgm/jpeg sources; programs: every output position changed by 19 amounts on both sides of the tolerance, combinations of positions, NaN/infinite values, missing and extra arguments, every prefix and every byte of structure of weights, input and output file; dummy_input with 0..300 runs, both input modes and 5 clocks (constant, ticking, around the 32-bit limit), every run of the network recorded and its output compared; the generated Makefile; the repository's reference data", "Programs are compiled under ASan/UBSan with INFO output.", IMP + ["caffe2, imageio, magic and scipy are replaced by stand-ins: decoding a picture or a sound file is not judged"]),
 "N07": M(SEQ + "; programs are generated networks", "every sequence of create/load/run/destroy on two network objects up to depth 6 (7) for one model and 5 (5..6) for pairs of models, over 18 stateful models (padding, pooling, normalisation, reshaping, branches); every order of 3 inputs of length 4 (6); four networks at once in all 24 destruction orders; re-import in the same and over another folder, under 3 (6) hash seeds, with each network loading every other import's weights", "Each run is compared with the model and bit by bit with the first run of the same input on any object; sanitizers and allocation counts judge the rest.", IMP),
 "N08": M("exhaustive enumeration of the requests, folders and reference files of the scripts; every script is the real one, run through its main(), judged by an independent computation of the result",
          "prepare_images: all picture sizes up to 5x5 (7x7) x requested sizes up to 6x6 (9x9) x every crop position, inside and beyond; folders of up to 4 pictures in every order; model check: 3 shapes x 1..3 outputs x every position x 12 deviations around the tolerance, missing and superfluous references; intermediate outputs: every ordered subset of 3 (5) tensors", "Packages that are not installed (PIL, caffe2, onnx_tf) are replaced by stand-ins: what the script asks them to do is judged.", ["PIL, caffe2 and onnx_tf behave as their documentation says"]),
 "N09": M("exhaustive enumeration of fault points: the real scripts run as programs under a preloaded injector that numbers every file operation and makes each one in turn fail, fall short, or end the process; histories of two faults; the final state is judged against an undisturbed run", "20 program runs (5 imports, 10 reference data, 3 picture, 2 intermediate-output) x every one of their 6..49 file-changing operations x 5 kinds of failure x 3 starting states, every read operation failing, every pair of faults in consecutive runs for one import (thorough: for all programs), 5 kinds of earlier results x 3 runs; exit status of all of N04's models over earlier output; every prefix of reference files, every 7th (every) of a model file",
          "A run that ends with status 0 must have left exactly the files of an undisturbed run; any other must have met a fault and said so; the next run must succeed.", IMP + ["operations are those of the C library the interpreter calls; the stand-ins read and write their files the way the packages do"]),
 "N10": M("stateless model checking of the generated networks and the library: threads under a controlled scheduler, all schedules up to a preemption bound, every memory access checked with vector clocks",
          "94 networks (22 stateful models, every operator on ranks 4, 3, 2, every parameter operator); each with itself in 7 combinations of {run twice, create-load-run-destroy, load into an existing network, create-destroy} under at most 2 (3) preemptions at C library calls, synchronisation and accesses to memory several threads touch; three threads living in parallel; each stateful model beside 2 (all) others", "Accesses to memory only one thread touches commute, so schedules that differ only there are not told apart.", IMP + ["state inside the C library is exercised only through the scheduling points at its calls"]),
 "X01": M("exhaustive enumeration of data sets, pictures, arguments and damage for the real example programs compiled with generated networks under sanitizers, judged by an independent evaluation of the model",
          "5 programs with 7 networks: data sets of 1000..1200 (and fewer) pictures, 6 (12) sets of 1000 different pictures with drifting labels, every label, 38 counts and 20 (50) positions of right predictions, all prefixes of the label file, header and magic bytes, label values 10..255 at three positions, 48 (96) pictures per ImageNet program in 3 colour modes, 16 unsuitable picture sizes, path lengths 80..3000", "Each program runs in a process of its own; its printed numbers are compared with the model's. Defects of the programs themselves are listed as known findings (they may not be repaired here).", IMP + ["ImageNet programs are run with a small network of the right input and output shape"]),
}
