#!/usr/bin/env python3
"""Writes known_findings.jsonl: one line per defect found. status "fixed" suppresses nothing; status "known" has
'case' (full match on the case description) and 'message' (search) regular expressions that identify it."""
import json, os
F = [
 ("L05", "04672d7", "global max pooling skipped column 0 of every row but the first"),
 ("L03", "a127a49", "max pooling let zero padding win over negative inputs"),
 ("L04", "9916e4a", "average pooling without counted padding dereferenced null padding and underflowed with padding larger than the distance to the edge"),
 ("L09", "0d3fff5", "softmax overflowed to NaN/inf for inputs above 88"),
 ("L08", "6455879", "parameterized ReLU read past the end of a slope tensor smaller than its input"),
 ("E04", "6455879", "a parameterized ReLU with a slope tensor of another shape than its input ran instead of being refused"),
 ("T04", "ec3ab44", "tensor equality ignored the number of dimensions and read past the shorter shape"),
 ("T03", "6823405", "concatenation of 2-D tensors overwrote earlier inputs and, for several batches, copied only the first"),
 ("I02", "030c3ca", "reading a missing weights file crashed (fclose of null)"),
 ("I03", "030c3ca", "reading a missing reference file crashed (fclose of null)"),
 ("I02", "7155fab", "truncated weights files released new[] arrays with free() and leaked the open file"),
 ("I03", "7155fab", "truncated reference files released new[] arrays with free() and leaked the open file"),
 ("I01", "f940e3b", "layer names of 100 or more characters overflowed the stack buffer"),
 ("I02", "f940e3b", "damaged name lengths overflowed the stack buffer"),
 ("I01", "2c3c440", "a shared Gemm/MatMul kernel (num_kernels 0) terminated the process"),
 ("I02", "4f96796", "counts in a weights file were not checked against the tensors they are stored into (heap overflow)"),
 ("I04", "4a5910a", "truncated MNIST files were not detected (uninitialised pixels delivered)"),
 ("I06", "7cdd520", "truncated means files were accepted"),
 ("I06", "93204c9", "ImageNet label reader ignored the requested number and cut the last character of a line without newline"),
 ("I06", "8d33928", "ImageNet validation label reader missed the last label and read uninitialised characters"),
 ("I05", "d75735f", "PGM writer was wrong for images outside -1000..1000 and divided by zero for constant images"),
 ("I08", "2bb0c0a", "failed writes of PGM and float files were reported as success"),
 ("I05", "19bade9", "PGM reader dropped leading white-space pixels, required a comment line and accepted truncated files"),
 ("I07", "4e80848", "JPEG images wider than 21845 pixels overflowed the row buffer"),
 ("N01", "4b86d0a", "generated 1-D convolutions and pools passed one-element arrays to constructors that read two"),
 ("N01", "e43d669", "AveragePool without pads (1-D, or 2-D with a kernel of width 1) aborted the import"),
 ("T02", "d614f66", "padding with 0 left stale values in the border of a reused tensor"),
 ("N07", "d614f66", "a Pad node by 0 delivered stale border values on later runs"),
 ("N01", "502aec3", "Add of a constant was written in a format the reader rejects unless the constant was 1-D"),
 ("N03", "502aec3", "Gemm bias and Add constants of rank other than 1 were written in a format the reader rejects"),
 ("N04", "16ca9b7", "Gemm with transA or without transB was imported as if it had neither"),
 ("N04", "654861e", "Gemm with several input rows or a broadcast bias was imported although the layer supports neither"),
 ("N04", "ec70261", "MatMul with several input rows or batched operands was imported as a vector product"),
 ("N04", "d34d03c", "dilated convolutions and dilated, ceil-mode or automatically padded pools were imported as plain ones"),
 ("N04", "12aad87", "Softmax over several rows was imported although the layer normalizes over all values"),
 ("N04", "ccb59fe", "LRN with a bias other than 1 or an even size was imported as if bias were 1 and the window symmetric"),
 ("N04", "68a4d15", "Pad with negative pads wrote outside of the tensors; unsupported pads crashed the importer"),
 ("N01", "c1b117e", "Mul by a factor of shape (1,) generated code that does not compile"),
 ("N04", "170efcc", "Add of operands of different sizes was imported although the generated code cannot broadcast"),
 ("N04", "35eff3a", "Conv and BatchNormalization of several batches and 2-D BatchNormalization generated networks that exit when run"),
 ("N04", "9bf61b6", "infinite limits of Clip and infinite values of Pad and Mul generated code that does not compile"),
 ("N03", "a7b65d0", "parameters used twice by the same node were missing in the weights file"),
 ("N05", "97fa623", "Reshape that drops trailing dimensions was removed as if it kept the shape"),
 ("N05", "5c4573f", "Unsqueeze was removed although it changes the shape of its output"),
 ("N04", "84a972a", "constants where the generated code has no place for them generated code that does not compile or load its weights"),
 ("N04", "8ca5974", "names that are not unique or not usable as C++ identifiers generated code that does not compile"),
 ("N04", "ac9f992", "LRN of other than 4-D data generated networks that exit when run"),
 ("N04", "adde32f", "computed kernels next to a constant bias and the network input as kernel generated unusable code"),
 ("N05", "95502cb", "Concat of computed shapes of several values aborted the import"),
 ("N06", "a9b6e43", "input data generated from wav files for 4-D inputs could not be read back"),
 ("N06", "9b567bc", "paths of 1024 or more characters overflowed the stack in the generated programs"),
 ("N08", "8eb24df", "the model check reported a match when there were no (or fewer) reference outputs to compare with"),
 ("L01", "d40c9ba", "2-D convolutions with more than 65535 groups: channel offsets overflowed"),
 ("L02", "d40c9ba", "1-D convolutions with more than 65535 groups: channel offsets overflowed"),
 ("N09", "5302c5a", "importing a model with an unsupported layer ended with success and left outdated generated code in place"),
 ("N09", "124ef49", "the reference file parser ended with success for tensors of unsupported shape"),
 ("N02", "463b939", "models that list a parameter before the input: the first extent of the parameter was set to 1 instead of the batch size; import failed for scalars, input for several pictures gave a wrong network (N04)"),
 ("N06", "3a07025", "the dummy program seeded its generator with the current second before every run, so runs with GENERATE_ONCE = 0 used the same input"),
 ("E04", "dbd1466", "convolution of a rank-1 or rank-2 tensor printed an error and returned leftover output"),
 ("E04", "bd58994", "average pooling divided by a negative element count for windows inside the padding"),
]
MN = r"(lenet|mnist_mlp|mnist_simple_perceptron)/\w+: "; IN = r"(alexnet|vgg)/\w+: "
# Genuine defects of the example programs. They are not repaired because files below examples/ count as test files here.
KNOWN = [
 dict(property="X01", case=MN + ".*", message=r"^memory: dynamic-stack-buffer-overflow (read_mnist_(images|labels), called )?at '.*t10k_(images|labels)_path.*'$",
      what="lenet, mnist_mlp, mnist_simple_perceptron: t10k_images_path and t10k_labels_path are 4 bytes too short for every data set folder"),
 dict(property="X01", case=MN + "paths", message=r"^memory: (stack-buffer-overflow|strcpy-param-overlap) at 'strcpy\((weights|mnist)_path, argv\[\d\]\);'$",
      what="lenet, mnist_mlp, mnist_simple_perceptron: a weights or data set path of 1024 or more characters overflows its buffer"),
 dict(property="X01", case=MN + "fewer pictures: .*", message=r"^memory: .* at '(std::memcpy\(input_tensor->data_, t10k_images\[i\].*|if\(t10k_labels\[i\] == label\).*|confusion_matrix\[label\]\[t10k_labels\[i\]\]\+\+;|free\(t10k_images\[i\]\);)'$",
      what="lenet, mnist_mlp, mnist_simple_perceptron: data sets of fewer than 1000 pictures are read (and freed) behind their end"),
 dict(property="X01", case=MN + r"label \d+ out of range", message=r"^memory: (index \d+ out of bounds for type 'unsigned int \[10\]'|(load of|store to) address # with insufficient space .*|[\w-]+) at 'confusion_matrix\[label\]\[t10k_labels\[i\]\]\+\+;'$|^label \d+: no error is reported",
      what="lenet, mnist_mlp, mnist_simple_perceptron: labels above 9 are counted outside the confusion matrix"),
 dict(property="X01", case=MN + ".*", message=r"^leaves input\.(pgm|float) in the working directory$",
      what="lenet, mnist_mlp, mnist_simple_perceptron: debug files input.pgm and input.float are written in every build"),
 dict(property="X01", case=MN + ".*", message=r"^error rate \S+ instead of \S+, which is its first digit$",
      what="lenet, mnist_mlp, mnist_simple_perceptron: the error rate is printed with one digit"),
 dict(property="X01", case=IN + "paths", message=r"^memory: (stack-buffer-overflow|strcpy-param-overlap) at 'strcpy\((weights|means|labels|jpeg)_path, argv\[\d\]\);'$",
      what="alexnet, vgg: a path of 1024 or more characters overflows its buffer"),
 dict(property="X01", case=IN + r"picture of \d+x\d+.*", message=r"^memory: (heap-buffer-overflow|SEGV) at 'input\[i\]\[row\*width\+column\] = pre_mean_input\[i\]\[row\*width\+column\] - means\[i\];'$|^no error for a picture of \d+x\d+$",
      what="alexnet, vgg: a picture that is not 224x224 is accepted, and buffers for 224x224 are overrun"),
]
with open(os.path.join(os.path.dirname(__file__), "..", "known_findings.jsonl"), "w") as f:
    for p, c, w in F: f.write(json.dumps(dict(property=p, status="fixed", commit=c, what=w, line="fixed: property=%s %s %s" % (p, c, w))) + "\n")
    for k in KNOWN: f.write(json.dumps(dict(k, status="known")) + "\n")
print(len(F), "fixed,", len(KNOWN), "known")
