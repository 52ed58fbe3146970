P = '''#include "pico-cnn/pico-cnn.h"
#include "pico-cnn/io/read_mnist.h"
#include "pico-cnn/io/read_jpeg.h"
#include "pico-cnn/io/write_float.h"
#include "pico-cnn/io/read_pgm.h"
#include "pico-cnn/io/write_pgm.h"
#include "pico-cnn/io/read_means.h"
#include "pico-cnn/io/read_imagenet_labels.h"
#include <vector>
#include <string>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <thread>
using namespace pico_cnn;
using namespace pico_cnn::naive;
static int bad = 0;
#define NEED(x) do { if (!(x)) { bad = 1; printf("wrong: %s (line %d)\\n", #x, __LINE__); } } while (0)
'''
OP = "(op_type) 0"
L = "pico-cnn/layers/"
SEEDS = {
"conv-bias-group": dict(property="L01", needs="a grouped convolution with a bias and at least two groups, several channels each",
  breaks="the bias is added only to output channels of the first group",
  edits=[(L+"convolution.cpp", "                    if (cnt == 0 && bias_) {\n//", "                    if (input_channel == 0 && bias_) {\n//")],
  demo=P+'''int main() { // depth-wise and grouped convolution with bias on zero input: output must be the bias
 uint32_t pad[4] = {0,0,0,0}, st[2] = {1,1};
 Tensor k(4,2,1,1), b(4), in(1,4,3,2), out(1,4,3,2);
 for (int i = 0; i < 4; i++) b.access_blob(i) = i + 1;
 Convolution c("c", 0, (op_type) 0, &k, &b, pad, st, 2); c.run(&in, &out);
 for (int i = 0; i < 24; i++) NEED(out.access_blob(i) == i / 6 + 1);
 return bad; }'''),
"pad1d-left": dict(property="L02", needs="a 1-D convolution (or padding) whose left and right padding differ",
  breaks="the data are placed at the right padding's offset", also=["T02"],
  edits=[("pico-cnn/tensor.cpp", "std::memcpy((extended_channel_ptr + padding[0]), channel_ptr, width * sizeof(fp_t));", "std::memcpy((extended_channel_ptr + (width_padded - width - padding[0])), channel_ptr, width * sizeof(fp_t));")],
  demo=P+'''int main() { uint32_t pad[4] = {2,0,0,0}, st[2] = {1,1}; Tensor k(1,1,3), in(1,1,4), out(1,1,4);
 for (int i = 0; i < 3; i++) k.access_blob(i) = 1; for (int i = 0; i < 4; i++) in.access_blob(i) = i + 1;
 Convolution c("c", 0, (op_type) 0, &k, nullptr, pad, st, 1); c.run(&in, &out);
 float w[4] = {1, 3, 6, 9}; for (int i = 0; i < 4; i++) NEED(out.access_blob(i) == w[i]); return bad; }'''),
"maxpool-stride": dict(property="L03", needs="2-D max pooling whose vertical stride exceeds the horizontal one",
  breaks="the number of output columns is computed with the vertical stride, so later columns are not written",
  edits=[(L+"pooling/max_pooling.cpp", "output_channel_width = (width - kernel_size_[1]) / stride_[1] + 1;", "output_channel_width = MIN(output_width, (width - kernel_size_[1]) / stride_[0] + 1);")],
  demo=P+'''int main() { uint32_t k[2] = {1,1}, s[2] = {2,1}; Tensor in(1,1,3,4), out(1,1,2,4); for (int i = 0; i < 12; i++) in.access_blob(i) = i + 1;
 MaxPooling p("p", 0, (op_type) 0, k, s, nullptr); p.run(&in, &out); for (int i = 0; i < 8; i++) NEED(out.access_blob(i) == i % 4 + 1 + 8 * (i / 4)); return bad; }'''),
"avgpool-edge": dict(property="L04", needs="average pooling not counting padding, with a top padding different from the bottom padding, at a bottom-edge window",
  breaks="the bottom edge is computed with the top padding",
  edits=[(L+"pooling/average_pooling.cpp", "height - padding_[2] - 1);", "height - padding_[0] - 1);")],
  demo=P+'''int main() { uint32_t k[2] = {2,2}, s[2] = {1,1}, pad[4] = {0,0,1,1}; Tensor in(1,1,2,2), out(1,1,2,2);
 for (int i = 0; i < 4; i++) in.access_blob(i) = 4;
 AveragePooling p("p", 0, (op_type) 0, k, s, pad, false); p.run(&in, &out); for (int i = 0; i < 4; i++) NEED(out.access_blob(i) == 4); return bad; }'''),
"globalavg-row": dict(property="L05", needs="a global average over an image wider than 255 columns in total pixels beyond 65535",
  breaks="the divisor is computed in 16 bits and wraps for large images",
  edits=[(L+"pooling/global_average_pooling.cpp", "output->access(batch, channel, 0, 0, num_channels, output_height, output_width) = global_sum / (fp_t)(height*width);", "output->access(batch, channel, 0, 0, num_channels, output_height, output_width) = global_sum / (fp_t)(uint16_t)(height*width);")],
  demo=P+'''int main() { Tensor in(1,1,257,256), out(1,1,1,1); for (int i = 0; i < 257*256; i++) in.access_blob(i) = 1;
 GlobalAveragePooling p("p", 0, (op_type) 0, nullptr, nullptr, nullptr); p.run(&in, &out); NEED(std::fabs(out.access_blob(0) - 1) < 1e-5); return bad; }'''),
"matmul-stride": dict(property="L06", needs="a MatMul whose weight matrix is not square",
  breaks="weights are read with the input's width as row stride when it is larger", 
  edits=[(L+"fully_connected.cpp", "uint32_t weights_width = weights_->width();", "uint32_t weights_width = MAX(weights_->width(), weights_->num_elements() / MAX(1, output_width + 1));")],
  demo=P+'''int main() { for (int X = 1; X < 9; X++) for (int Y = 1; Y < 9; Y++) { Tensor in(1,X), w(X,Y), out(1,Y);
 for (int i = 0; i < X; i++) in.access_blob(i) = i + 1; for (int i = 0; i < X*Y; i++) w.access_blob(i) = (i * 7) % 5;
 MatMul m("m", 0, (op_type) 0, &w); m.run(&in, &out); for (int y = 0; y < Y; y++) { float e = 0; for (int x = 0; x < X; x++) e += (x + 1) * ((x * Y + y) * 7 % 5); NEED(out.access_blob(y) == e); } } return bad; }''', flags="-fsanitize=address"),
"bn-epsilon": dict(property="L07", needs="a channel whose variance is comparable to epsilon",
  breaks="epsilon only bounds the variance from below instead of being added",
  edits=[(L+"batch_normalization.cpp", "                output->access(0, channel, row, col, num_channels, input_height, input_width) =\n                        gamma * (input->access(0, channel, row, col, num_channels, input_height, input_width) - mean) /\n                        sqrtf(variance + epsilon_) + beta;", "                output->access(0, channel, row, col, num_channels, input_height, input_width) =\n                        gamma * (input->access(0, channel, row, col, num_channels, input_height, input_width) - mean) /\n                        sqrtf(MAX(variance, epsilon_)) + beta;")],
  demo=P+'''int main() { Tensor g(1), b(1), m(1), v(1), in(1,1,1,1), out(1,1,1,1); g.access_blob(0) = 1; v.access_blob(0) = 0.25f; in.access_blob(0) = 1;
 BatchNormalization n("n", 0, (op_type) 0, &g, &b, &m, &v, 0.75f); n.run(&in, &out); NEED(std::fabs(out.access_blob(0) - 1) < 1e-5); return bad; }'''),
"sigmoid-form": dict(property="L08", needs="an input above 88.7",
  breaks="an algebraically equal formula overflows to NaN for large inputs",
  edits=[(L+"activation_functions/sigmoid.cpp", "                output->access_blob(element) = 1 / (1 + expf(-input->access_blob(element)));", "                const fp_t e = expf(input->access_blob(element));\n                output->access_blob(element) = e / (1 + e);")],
  demo=P+'''int main() { Tensor in(1,3), out(1,3); in.access_blob(0) = 89; in.access_blob(1) = -200; in.access_blob(2) = 1000;
 Sigmoid s("s", 0, (op_type) 0); s.run(&in, &out); NEED(out.access_blob(0) == 1); NEED(out.access_blob(1) == 0); NEED(out.access_blob(2) == 1); return bad; }'''),
"lrn-batch": dict(property="L10", needs="LRN over more than one batch",
  breaks="the window sum is taken from the first batch",
  edits=[(L+"activation_functions/lrn.cpp", "sum += powf(input->access(batch, i, row,", "sum += powf(input->access(0, i, row,")],
  demo=P+'''int main() { Tensor in(2,1,1,1), out(2,1,1,1); in.access_blob(0) = 0; in.access_blob(1) = 3; LRN l("l", 0, (op_type) 0, 1.f, 1.f, 1); l.run(&in, &out);
 NEED(std::fabs(out.access_blob(1) - 0.3f) < 1e-5); return bad; }'''),
"lrn-static": dict(property="E03", needs="two threads inside LRN at the same time, one preempted inside the window loop",
  breaks="the running sum is shared between all threads",
  edits=[(L+"activation_functions/lrn.cpp", "fp_t sum;", "static fp_t sum;")],
  demo=P+'''int main() { Tensor a(1,6,24,24), b(1,6,24,24); for (int i = 0; i < 6*576; i++) { a.access_blob(i) = i % 7; b.access_blob(i) = 1000 + i % 5; }
 LRN l("l", 0, (op_type) 0, 1.f, 0.5f, 5); Tensor ra(1,6,24,24), rb(1,6,24,24); l.run(&a, &ra); l.run(&b, &rb);
 for (int r = 0; r < 300 && !bad; r++) { Tensor oa(1,6,24,24), ob(1,6,24,24); std::thread t([&] { l.run(&a, &oa); }); l.run(&b, &ob); t.join();
  for (int i = 0; i < 6*576; i++) if (oa.access_blob(i) != ra.access_blob(i) || ob.access_blob(i) != rb.access_blob(i)) bad = 1; } return bad; }'''),
"bn-cache": dict(property="E02", needs="running a batch normalization, changing its parameter tensors in place (reloading weights), and running it again",
  breaks="the first run's variance of channel 0 is kept",
  edits=[(L+"batch_normalization.cpp", "    fp_t variance = variances_->access(channel);\n", "    if (channel == 0 && !variance_known_) {\n        first_variance_ = variances_->access(channel);\n        variance_known_ = true;\n    }\n    fp_t variance = channel == 0 ? first_variance_ : variances_->access(channel);\n"),
         (L+"batch_normalization.h", "            fp_t epsilon_;\n", "            fp_t epsilon_;\n            fp_t first_variance_ = 0;\n            bool variance_known_ = false;\n")],
  demo=P+'''int main() { Tensor g(1), b(1), m(1), v(1), in(1,1,1,1), out(1,1,1,1); g.access_blob(0) = 1; v.access_blob(0) = 1; in.access_blob(0) = 1;
 BatchNormalization n("n", 0, (op_type) 0, &g, &b, &m, &v, 0.f); n.run(&in, &out); NEED(out.access_blob(0) == 1); v.access_blob(0) = 4; n.run(&in, &out); NEED(out.access_blob(0) == 0.5f); return bad; }'''),
"conv-alias": dict(property="E01", needs="the caller reusing or releasing the padding array after constructing a convolution",
  breaks="the layer keeps the caller's padding array instead of a copy",
  edits=[(L+"convolution.cpp", "                padding_ = new uint32_t[4]();\n                std::memcpy(padding_, padding, 4 * sizeof(uint32_t));", "                padding_ = padding;"),
         (L+"convolution.cpp", "            delete [] padding_;\n", "")],
  demo=P+'''int main() { uint32_t pad[4] = {1,1,1,1}, st[2] = {1,1}; Tensor k(1,1,3,3), in(1,1,3,3), out(1,1,3,3); for (int i = 0; i < 9; i++) { k.access_blob(i) = 1; in.access_blob(i) = 1; }
 Convolution c("c", 0, (op_type) 0, &k, nullptr, pad, st, 1); pad[0] = 0; pad[1] = 2; pad[2] = 2; pad[3] = 0; c.run(&in, &out); NEED(out.access_blob(0) == 4); NEED(out.access_blob(4) == 9); return bad; }'''),
"channel-ptr": dict(property="T01", needs="a 3-D tensor with at least two batches whose batch and channel counts differ",
  breaks="per-channel pointers of later batches are off",
  edits=[("pico-cnn/tensor.cpp", "return data_ + (x0*shape_[1]*shape_[2]) + (x1*shape_[2]);", "return data_ + (x0*shape_[0]*shape_[2]) + (x1*shape_[2]);")],
  demo=P+'''int main() { Tensor t(2,3,4); for (int b = 0; b < 2; b++) for (int c = 0; c < 3; c++) NEED(t.get_ptr_to_channel(b, c) == &t.access(b, c, 0, 3, 4)); return bad; }'''),
"pad-flat": dict(property="T02", needs="a 4-D tensor of height 1 padded by different amounts above and below",
  breaks="the single row is placed at the bottom padding's offset",
  edits=[("pico-cnn/tensor.cpp", """                        for (uint32_t row = 0; row < height; row++) {

                            std::memcpy((extended_channel_ptr + (row + padding[0]) * width_padded""", """                        for (uint32_t row = 0; row < height; row++) {

                            std::memcpy((extended_channel_ptr + (row + padding[height > 1 ? 0 : 2]) * width_padded""")],
  demo=P+'''int main() { uint32_t pad[4] = {0,0,1,0}; Tensor t(1,2,1,1); t.access_blob(0) = 5; t.access_blob(1) = 6; Tensor *e = t.expand_with_padding(pad, 7.f); NEED(e->access_blob(0) == 5); NEED(e->access_blob(1) == 7); NEED(e->access_blob(2) == 6); delete e; return bad; }'''),
"add-channel": dict(property="T03", needs="adding a channel of a batch other than the first",
  breaks="the channel added is taken from the other tensor's first batch",
  edits=[("pico-cnn/tensor.cpp", "fp_t *other_ptr = other->get_ptr_to_channel(batch, channel);", "fp_t *other_ptr = other->get_ptr_to_channel(batch / other->num_batches(), channel);")],
  demo=P+'''int main() { Tensor a(2,1,1,2), b(2,1,1,2); for (int i = 0; i < 4; i++) b.access_blob(i) = i; a.add_channel(&b, 1, 0); NEED(a.access_blob(2) == 2); NEED(a.access_blob(3) == 3); return bad; }'''),
"eq-sign": dict(property="T04", needs="a large relative but small magnitude comparison: values above 100 differing by less than one part in a million of their size but more than the tolerance",
  breaks="the tolerance becomes relative for large values",
  edits=[("pico-cnn/utils.h", "return (std::fabs(A - B) < epsilon);", "return (std::fabs(A - B) < epsilon * MAX(1, std::fabs(A) / 1000));")],
  demo=P+'''int main() { Tensor a(1), b(1); a.access_blob(0) = 100000.f; b.access_blob(0) = 100000.0078125f; NEED(!(a == b)); a.access_blob(0) = 1; b.access_blob(0) = 1.0002f; NEED(!(a == b)); NEED(a == a); return bad; }'''),
"weights-bias-cursor": dict(property="I01", needs="a Conv record without bias followed by a record with one",
  breaks="the bias cursor advances for convolutions without bias",
  edits=[("pico-cnn/io/read_binary_weights.cpp", '''                    std::memcpy((*biases)[bias_idx]->get_ptr_to_channel(0, 0), bias_values, num_biases*sizeof(fp_t));

                    bias_idx++;

                    delete[] bias_values;
                }

            } else if''', '''                    std::memcpy((*biases)[bias_idx]->get_ptr_to_channel(0, 0), bias_values, num_biases*sizeof(fp_t));

                    delete[] bias_values;
                }
                bias_idx++;

            } else if''')],
  demo=P+'''static void w32(FILE *f, uint32_t v) { fwrite(&v, 4, 1, f); }
static void wf(FILE *f, float v) { fwrite(&v, 4, 1, f); }
int main() { FILE *f = fopen("w.bin", "wb"); fputs("FD\\nnet\\n", f); w32(f, 2); fputs("a\\nConv\\n", f); w32(f, 1); w32(f, 1); w32(f, 1); w32(f, 1); wf(f, 3); w32(f, 0);
 fputs("b\\nConv\\n", f); w32(f, 1); w32(f, 1); w32(f, 1); w32(f, 1); wf(f, 4); w32(f, 1); wf(f, 5); fputs("end\\n", f); fclose(f);
 Tensor **k = new Tensor*[3]{new Tensor(1,1,1,1), new Tensor(1,1,1,1), nullptr}, **b = new Tensor*[3]{new Tensor(1), new Tensor(1), nullptr};
 NEED(read_binary_weights("w.bin", &k, &b) == 0); NEED(b[0]->access_blob(0) == 5); NEED(k[1]->access_blob(0) == 4); return bad; }'''),
"weights-gemm-short": dict(property="I02", needs="a weights file truncated exactly inside the end marker, after the third of its four bytes",
  breaks="a file whose end marker is cut is accepted",
  edits=[("pico-cnn/io/read_binary_weights.cpp", "if(fread((void*)&end_marker, 1, 4, binary_file) != 4) {", "end_marker[3] = '\\n';\n        if(fread((void*)&end_marker, 1, 4, binary_file) < 3) {")],
  demo=P+'''int main() { Tensor **k = new Tensor*[1]{nullptr}, **b = new Tensor*[1]{nullptr}; uint32_t z = 0;
 for (int n = 0; n <= 4; n++) { FILE *f = fopen("w.bin", "wb"); fputs("FD\\nnet\\n", f); fwrite(&z, 4, 1, f); fwrite("end\\n", 1, n, f); fclose(f); NEED((read_binary_weights("w.bin", &k, &b) == 0) == (n == 4)); } return bad; }'''),
"reference-fewer": dict(property="I03", needs="an output reference file holding fewer values than the network's output",
  breaks="a reference file with too few outputs is accepted",
  edits=[("pico-cnn/io/read_binary_reference_data.cpp", "if (num_outputs != (*output_tensor)->num_elements()) {", "if (num_outputs > (*output_tensor)->num_elements()) {")],
  demo=P+'''int main() { Tensor *t = new Tensor(1, 3); uint32_t one = 1, two = 2; float v[2] = {1, 2}; FILE *f = fopen("r.bin", "wb"); fputs("FCO\\n", f); fwrite(&one, 4, 1, f); fwrite(&two, 4, 1, f); fwrite(v, 4, 2, f); fputs("end\\n", f); fclose(f);
 NEED(read_binary_reference_output_data("r.bin", &t) != 0); return bad; }'''),
"mnist-transpose": dict(property="I04", needs="MNIST-format images that are not square, with padding",
  breaks="rows are addressed with the padded border of the wrong side",
  edits=[("pico-cnn/io/read_mnist.cpp", "if(row < padding || row >= height+padding) {", "if(row < padding || row >= width+padding) {")],
  demo=P+'''static void be(FILE *f, uint32_t v) { for (int i = 3; i >= 0; i--) fputc(v >> (8 * i), f); }
int main() { FILE *f = fopen("m", "wb"); be(f, 2051); be(f, 1); be(f, 3); be(f, 1); for (int i = 0; i < 3; i++) fputc(255, f); fclose(f); fp_t **m; NEED(read_mnist_images("m", &m, 1, 1, 0, 1) == 1);
 for (int r = 1; r <= 3; r++) NEED(m[0][r * 3 + 1] == 1); return bad; }'''),
"jpeg-pos": dict(property="I07", needs="a JPEG with more than 65535 pixels",
  breaks="the pixel position wraps at 65536",
  edits=[("pico-cnn/io/read_jpeg.cpp", "uint32_t pos = 0;", "uint16_t pos = 0;")],
  demo='#include <cstdio>\n#include <jpeglib.h>\n'+P+'''int main() { const int W = 300, H = 256; FILE *f = fopen("j.jpg", "wb"); jpeg_compress_struct c; jpeg_error_mgr e; c.err = jpeg_std_error(&e); jpeg_create_compress(&c); jpeg_stdio_dest(&c, f); c.image_width = W; c.image_height = H; c.input_components = 1; c.in_color_space = JCS_GRAYSCALE; jpeg_set_defaults(&c); jpeg_start_compress(&c, TRUE);
 std::vector<unsigned char> row(W, 255); JSAMPROW r = row.data(); while (c.next_scanline < c.image_height) jpeg_write_scanlines(&c, &r, 1); jpeg_finish_compress(&c); fclose(f);
 fp_t **im; uint16_t h, w; // fill the heap with something else first
 for (int i = 0; i < 3; i++) { void *p = malloc(W * H * 4); memset(p, 0xff, W * H * 4); free(p); }
 NEED(read_jpeg(&im, "j.jpg", 0, 1, &h, &w) == 0); NEED(w == W && h == H); for (int i = 0; i < W * H; i++) if (!(std::fabs(im[0][i] - 1) < 0.02)) { bad = 1; break; } return bad; }'''),
"float-digits": dict(property="I06", needs="a value whose mantissa uses its last bits",
  breaks="float dumps keep only 20 bits of the mantissa",
  edits=[("pico-cnn/io/write_float.cpp", 'fprintf(float_file, "%a\\n", image', 'fprintf(float_file, "%.5a\\n", image')],
  demo=P+'''int main() { float v[2] = {1.0000001f, 0.5f}; NEED(write_float(v, 1, 2, "f") == 0); FILE *f = fopen("f", "r"); char b[99]; int h, w; float x, y; NEED(fscanf(f, "%s %d %d %a %a", b, &h, &w, &x, &y) == 5); NEED(x == v[0] && y == v[1]); return bad; }'''),
}
# ------------------------------------------------------------------------------------------- importer
import os as _os
IMPCOPY = {"tools/netdemo.py": "netdemo.py", "importer/nmc.py": "nmc.py", "importer/onnxref.py": "onnxref.py", "importer/shim": "shim"}
IMPSH = """#!/bin/bash
# Run with the repository as working directory: 0 if the behaviour is right, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
exec timeout 280 python3-vt -B "$here/demo.py"
"""
def IMP(prop, needs, breaks, edits, demo, **k):
    return dict(property=prop, needs=needs, breaks=breaks, edits=edits, copy=IMPCOPY, sh=IMPSH, files={"demo.py": "from netdemo import *\n" + demo + "\ndone()\n"}, **k)
PC, BE, CP = "onnx_import/pico_cnn.py", "onnx_import/backend.py", "onnx_import/constprop.py"
FLAT = "def flat(m, t): return m.op('Flatten', t)\n"
SEEDS.update({
"transpose-cycle": IMP("N01", "a 4-D Transpose whose permutation is not its own inverse",
  "the generated loops use the inverse permutation",
  [(PC, '"dim" + str(permutations[%d])' % i, '"dim" + str(permutations.index(%d))' % i) for i in range(4)],
  FLAT + """for perm in ((0, 1, 3, 2), (0, 2, 3, 1), (0, 3, 1, 2)):
    m = M((1, 2, 2, 2)); need(right(m.done(flat(m, m.op("Transpose", m.x, perm=list(perm)))), [vals((1, 2, 2, 2), 1)]), perm)"""),
"pool-bottom-pad": IMP("N01", "2-D average pooling whose only nonzero padding is at the bottom or right",
  "the padding is dropped although the output shape counts it",
  [(PC, """        kernel_stride = attrs["strides"]

        padding = attrs.get("pads", (0, 0, 0, 0))
        padding_needed = False
        for num in padding:""", """        kernel_stride = attrs["strides"]

        padding = attrs.get("pads", (0, 0, 0, 0))
        padding_needed = False
        for num in padding[:2]:""")],
  FLAT + """for pads in ([1, 1, 1, 1], [1, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]):
    m = M((1, 2, 3, 3)); need(right(m.done(flat(m, m.op("AveragePool", m.x, kernel_shape=[2, 2], strides=[1, 1], pads=pads))), [vals((1, 2, 3, 3), 1)]), pads)"""),
"relu-inplace": IMP("N02", "a value that is read by a Relu and by a later node (a residual connection)",
  "Relu overwrites its input, so later readers of the unrectified value see the rectified one",
  [(PC, """        print("generating relu layer")

        input_buffer = memory_manager.get_buffer(graph, node.inputs[0])
        output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
""", """        print("generating relu layer")

        input_buffer = memory_manager.get_buffer(graph, node.inputs[0])
        output_buffer = memory_manager.get_buffer(graph, node.outputs[0])

        # The activation can work in place, which saves one pass over the memory
        if not graph.is_input(node.inputs[0]) and not graph.is_output(node.outputs[0]):
            memory_manager.buffers[node.outputs[0]] = input_buffer
            output_buffer = input_buffer
""")],
  FLAT + """def net(residual):
    m = M((1, 6)); a = m.op("Mul", [m.x, m.param(np.float32(2))]); r = m.op("Relu", a); b = m.op("Mul", [r, m.param(np.float32(3))])
    return m.done(m.op("Add", [b, a]) if residual else m.op("Relu", b))
need(right(net(False), [vals((1, 6), 1)]), "chain"); need(right(net(True), [vals((1, 6), 1)]), "residual")"""),
"weights-equal": IMP("N03", "two different parameters with equal values",
  "the second one is written as if it had been written before, so it is never loaded",
  [(BE, """                if input in buffers_written:
                    write_buffer = False
                else:
                    buffers_written.append(input)
                    write_buffer = True

                data = node.input_tensors[input]
""", """                data = node.input_tensors[input]

                # Write every set of values only once
                content = (data.shape, data.tobytes())
                if content in buffers_written:
                    write_buffer = False
                else:
                    buffers_written.append(content)
                    write_buffer = True
""")],
  """def net(same, shared):
    m = M((1, 3)); w = vals((3, 3), 1); a = m.param(w); b = a if shared else m.param(w if same else vals((3, 3), 2))
    t = m.op("Gemm", [m.x, a, m.param(vals((3,), 3))], transB=1); return m.done(m.op("Gemm", [t, b, m.param(vals((3,), 4))], transB=1))
for k in ((0, 0), (1, 1), (1, 0)): need(right(net(*k), [vals((1, 3), 5)]), k)"""),
"pad-channel-check": IMP("N04", "a Pad node that pads behind the last channel of 4-D data only",
  "such a Pad is imported although the generated code pads rows and columns only",
  [(PC, "if pads[0] != 0 or pads[1] != 0 or pads[4] != 0 or pads[5] != 0:", "if pads[0] != 0 or pads[1] != 0 or pads[4] != 0:")],
  FLAT + """for pads in ([0, 0, 1, 1, 0, 0, 1, 1], [0, 1, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 1, 0, 0]):
    m = M((1, 2, 2, 2)); need(right(m.done(flat(m, m.op("Pad", m.x, pads=pads, mode="constant", value=1.5))), [vals((1, 2, 2, 2), 1)], refusal=any(pads[i] for i in (1, 5))), pads)"""),
"reshape-zero": IMP("N05", "a Reshape target with a 0 (copied extent) behind an entry that is not 0",
  "the copied extents are taken from the front of the input's shape instead of from their own positions",
  [(CP, "new_shape_tmp[zeros_index] = np.array(input_data_shape)[zeros_index]", "new_shape_tmp[zeros_index] = input_data_shape[:len(zeros_index[0])]")],
  """for target in ([0, 6], [1, -1], [0, -1, 3], [-1, 2, 0]):
    m = M((1, 2, 3)); t = m.op("Reshape", [m.x, m.param(np.array(target, np.int64))])
    if len(target) == 3: t = m.op("MaxPool", t, kernel_shape=[2], strides=[1]); t = m.op("Flatten", t)
    need(right(m.done(t), [vals((1, 2, 3), 1)]), target)"""),
"kernel-order": IMP("N07", "a node with several parameters and an interpreter hash seed that orders their names differently",
  "the generated constructor lists the parameters in the order of a set of strings, so the same weights file is loaded into different tensors depending on the hash seed",
  [(BE, """            for num, input in enumerate(node.input_tensors):

                if node.op_type in ops_to_ignore:
                    continue

                if input in buffers_allocated:""", """            for num, input in enumerate(set(node.input_tensors)):

                if node.op_type in ops_to_ignore:
                    continue

                if input in buffers_allocated:""")],
  FLAT + """m = M((1, 2, 2, 2)); t = m.op("BatchNormalization", [m.x] + [m.param(abs(vals((2,), k)) + np.float32(0.5)) for k in (1, 2, 3, 4)], epsilon=1e-5); t = flat(m, t)
model = m.done(t); x = [vals((1, 2, 2, 2), 1)]
for seed in range(6):
    f = imported(model, seed); need(f and compiled(f), "compiles")
    got, want = outputs(f, model, x); need(not isinstance(got, int) and (abs(got - want[0].ravel()) < 1e-4).all(), "seed %d" % seed)"""),
"cleanup-flat": IMP("N07", "a network that is destroyed after its 1-D parameters were allocated",
  "biases with a single value are never freed",
  [(BE, """            if buffer_id == output_buffer_name:
                continue

            functionality = CodeRegistry.get_funct("BufferCleanup")""", """            if buffer_id == output_buffer_name or buffer.size <= buffer.dtsize:
                continue

            functionality = CodeRegistry.get_funct("BufferCleanup")""")],
  """m = M((1, 3)); model = m.done(m.op("Gemm", [m.x, m.param(vals((1, 3), 1)), m.param(vals((1,), 2))], transB=1))
f = imported(model); need(f and compiled(f, san=True), "compiles"); got, want = outputs(f, model, [vals((1, 3), 1)])
need(not isinstance(got, int), "leak")"""),
})
REFDEMO = """import numpy as np, struct, subprocess
def program(n):
    m = M((1, n)); f = imported(m.done(m.op("Relu", m.x)))
    r = subprocess.run(["g++", "-std=c++11", "-O1", "-w", "-DDEBUG=0", "-DINFO=1", "-I", REPO, f + "/reference_input.cpp", f + "/network.cpp"] + lib() + ["-o", f + "/ref", "-ljpeg", "-lm", "-lpthread"]); assert r.returncode == 0
    return f
def agrees(f, x, y):
    x, y = np.asarray(x, np.float32), np.asarray(y, np.float32)
    open(f + "/i", "wb").write(b"FCI\\n" + struct.pack("<4i", 1, 1, 1, x.size) + x.tobytes() + b"end\\n"); open(f + "/o", "wb").write(b"FCO\\n" + struct.pack("<2i", 1, y.size) + y.tobytes() + b"end\\n")
    r = subprocess.run([f + "/ref", f + "/network.weights.bin", f + "/i", f + "/o"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return "is almost equal to reference" in r.stdout
"""
COND = "            if(!almost_equal(output_tensor->access(row, col, output_width), ref_output_tensor->access(row, col, output_width), ALMOST)) {"
REFT = "onnx_import/code_templates/main_program/reference_input.cpp"
def two_d(a, b):    # the branch for 2-D outputs
    t = open("/repo/" + REFT).read(); i = t.index(COND); j = t.index(a, i); return [(REFT, t[i:j + len(a)], t[i:j] + b)]
DUMMYT = "onnx_import/code_templates/main_program/dummy_input.cpp"
DUMMYDEMO = r"""
def runs(shape, *args):
    m = M(shape); t = m.op("Relu", m.x); f = imported(m.done(m.op("Flatten", t) if len(shape) > 2 else t))
    import re; n = open(f + "/network.cpp").read(); g = re.search(r"Network::run\(\s*pico_cnn::naive::Tensor\s*\*\s*(\w+)[^)]*\)\s*\{", n); assert g, n
    open(f + "/network.cpp", "w").write("#include <cstdio>\n" + n[:g.end()] + 'printf("IN"); for(uint32_t i = 0; i < X->num_elements(); i++) printf(" %.9g", X->access_blob(i)); printf("\\n");'.replace("X", g.group(1)) + n[g.end():])
    r = subprocess.run(["g++", "-std=c++11", "-O1", "-w", "-DDEBUG=0", "-DINFO=0", "-I", REPO, f + "/dummy_input.cpp", f + "/network.cpp"] + lib() + ["-o", f + "/dummy", "-ljpeg", "-lm", "-lpthread"]); assert r.returncode == 0
    r = subprocess.run([f + "/dummy", f + "/network.weights.bin"] + [str(v) for v in args], stdout=subprocess.PIPE, text=True, timeout=60); assert r.returncode == 0
    return [[float(v) for v in l.split()[1:]] for l in r.stdout.splitlines() if l.startswith("IN")]
"""
SEEDS.update({
"dummy-count": IMP("N06", "more than 127 requested runs", "the number of runs is kept in eight bits: 300 requested runs are 44",
  [(DUMMYT, "    int32_t RUNS = atoi(argv[2]);", "    int8_t RUNS = atoi(argv[2]);")],
  DUMMYDEMO + "for n in (0, 1, 5, 300): r = runs((1, 3), n, 1); need(len(r) == n, (n, len(r)))"),
"dummy-once": IMP("N06", "more than one run with GENERATE_ONCE = 1", "the elements of the input are drawn again for every second run although one input was asked for",
  [(DUMMYT, "        if(!GENERATE_ONCE) {", "        if(!GENERATE_ONCE || run % 2) {")],
  DUMMYDEMO + "for n in (1, 2, 5): r = runs((1, 3), n, 1); need(len(r) == n and all(v == r[0] for v in r), (n, r))"),
"dummy-rows": IMP("N06", "input with several channels and GENERATE_ONCE = 0", "only the first channel gets new random values, the others keep whatever the memory held",
  [(DUMMYT, """        if(!GENERATE_ONCE) {
            for(uint32_t element = 0; element < input_tensor->num_elements(); element++) {""", """        if(!GENERATE_ONCE) {
            for(uint32_t element = 0; element < input_tensor->num_elements() / {{num_input_channels}}; element++) {""")],
  DUMMYDEMO + "for sh in ((1, 1, 2, 2), (1, 3, 2, 2)):\n    r = runs(sh, 4, 0); need(len(r) == 4, len(r)); need(all(len(set(v[k] for v in r)) > 1 and 0 <= min(v[k] for v in r) for k in range(len(r[0]))), r)"),
"ref-relative": IMP("N06", "an output larger than 1 that deviates by more than 0.001 but less than 0.001 of its size",
  "the validation program compares relatively to the reference and reports agreement",
  [(REFT, COND, COND.replace("ALMOST)", "ALMOST * MAX(1.0f, fabs(ref_output_tensor->access(row, col, output_width))))"))],
  REFDEMO + "f = program(3); need(agrees(f, [1, 2, 3], [1, 2, 3]), 'equal'); need(not agrees(f, [1, 2, 30], [1, 2, 30.01]), 'deviation of 0.01'); need(not agrees(f, [1, 2, 3], [1.1, 2, 3]), 'deviation of 0.1')"),
"ref-last": IMP("N06", "a deviating output that is followed by a right one",
  "the verdict is that of the last output",
  [(REFT, """            if(!almost_equal(output_tensor->access(row, col, output_width), ref_output_tensor->access(row, col, output_width), ALMOST)) {
                all_equal = 0;""", """            all_equal = almost_equal(output_tensor->access(row, col, output_width), ref_output_tensor->access(row, col, output_width), ALMOST);
            if(!all_equal) {""")],
  REFDEMO + "f = program(3); need(agrees(f, [1, 2, 3], [1, 2, 3]), 'equal')\nfor i in range(3): y = [1, 2, 3]; y[i] += 1; need(not agrees(f, [1, 2, 3], y), i)"),
"tool-large-row": IMP("N06", "a reference tensor with NaN or infinite elements",
  "the tool replaces them by finite numbers, so the library does not read the tensor that was given",
  [("util/parse_onnx_reference_files.py", """            for channel in tensor_array[0]:
                for row in channel:""", """            for channel in np.nan_to_num(tensor_array[0]):
                for row in channel:"""), ("util/parse_onnx_reference_files.py", "import struct\n", "import struct\nimport numpy as np\n")],
  """import subprocess, onnx
from onnx import numpy_helper
d = TMP + "/d"; os.makedirs(d)
x = np.array([1, np.inf, -2, np.nan], np.float32).reshape(1, 1, 2, 2); y = vals((1, 3), 1)
open(d + "/input_0.pb", "wb").write(numpy_helper.from_array(x).SerializeToString()); open(d + "/output_0.pb", "wb").write(numpy_helper.from_array(y).SerializeToString())
sys.argv = ["parse", "--input", d]; g = {"__name__": "tool"}; exec(compile(open("util/parse_onnx_reference_files.py").read(), "t", "exec"), g); g["main"]()
got = np.frombuffer(open(d + "/input_0.data", "rb").read()[20:-4], np.float32); need(got.size == 4 and np.array_equal(np.isnan(got), np.isnan(x.ravel())) and got[1] == np.inf, got)"""),
"softmax-count": dict(property="L09", needs="a tensor with more than 65535 elements", breaks="elements beyond a multiple of 65536 are ignored",
  edits=[(L+"activation_functions/softmax.cpp", "uint32_t num_elements = input->num_elements();", "uint16_t num_elements = input->num_elements();")],
  demo=P+"""#include "pico-cnn/layers/activation_functions/softmax.h"
int main() { for (uint32_t n : {3u, 70000u}) { Tensor in(1, n), out(1, n); for (uint32_t i = 0; i < n; i++) { in.access_blob(i) = (i % 7) / 7.0f; out.access_blob(i) = -1; }
 Softmax s("s", 0, (op_type) 0); s.run(&in, &out); double sum = 0; for (uint32_t i = 0; i < n; i++) { NEED(out.access_blob(i) > 0); if (bad) return 1; sum += out.access_blob(i); } NEED(std::fabs(sum - 1) < 1e-3); } return bad; }"""),
"pgm-side-padding": dict(property="I05", needs="a padded read with a lower bound other than 0", breaks="the columns left and right of the image are 0 instead of the lower bound",
  edits=[("pico-cnn/io/read_pgm.cpp", """                } else if(column < padding || column >= (*width)+padding) {
                    (*image)[row*((*width)+2*padding)+column] = lower_bound;""", """                } else if(column < padding || column >= (*width)+padding) {
                    (*image)[row*((*width)+2*padding)+column] = 0;""")],
  demo=P+"""int main() { FILE *f = fopen("x.pgm", "wb"); fputs("P5\\n2 1\\n255\\n", f); fputc(0, f); fputc(255, f); fclose(f);
 for (float lo : {0.0f, -1.0f}) { fp_t *img; uint16_t h, w; NEED(read_pgm(&img, "x.pgm", 1, lo, 1, &h, &w) == 0); if (bad) return 1;
 for (int i = 0; i < 12; i++) NEED(img[i] == (i == 6 ? 1 : lo)); free(img); } return bad; }"""),
"pgm-no-truncate": dict(property="I08", needs="an existing, longer file at the path", breaks="the rest of the old file stays behind the image",
  edits=[("pico-cnn/io/write_pgm.cpp", 'pgm_file = fopen(pgm_path, "w+");', 'pgm_file = fopen(pgm_path, "r+");\n\n    if(!pgm_file) {\n        pgm_file = fopen(pgm_path, "w+");\n    }')],
  demo=P+"""static long size(const char *p) { FILE *f = fopen(p, "rb"); fseek(f, 0, SEEK_END); long n = ftell(f); fclose(f); return n; }
int main() { std::vector<float> a(400, 1); a[0] = 0; NEED(write_pgm(a.data(), 2, 2, "a.pgm") == 0); long small = size("a.pgm");
 NEED(write_pgm(a.data(), 20, 20, "b.pgm") == 0); NEED(write_pgm(a.data(), 2, 2, "b.pgm") == 0); NEED(size("b.pgm") == small); return bad; }"""),
})

UTILCOPY = dict(IMPCOPY, **{"importer/utilcheck.py": "utilcheck.py", "importer/refdata.py": "refdata.py"})
def UTIL(needs, breaks, edits, demo): return dict(IMP("N08", needs, breaks, edits, "import utilcheck as u\n" + demo), copy=UTILCOPY)
UPIL = """def prepared(mode, size, w, h, pos=None):
    d = tempfile.mkdtemp(dir=TMP); a = u.picture(w, h, 3); np.save(open(d + '/ILSVRC_1.JPEG', 'wb'), a)
    u.tool('prepare_images.py', ['--directory', d, '--mode', mode, '--size'] + [str(v) for v in size] + (['--crop_pos'] + [str(v) for v in pos] if pos else []), u.pil())
    out = [np.load(os.path.join(b, f)) for b, _, fs in os.walk(d) for f in fs if b != d]
    return a, out[0] if len(out) == 1 else None
"""
UPI = "util/prepare_images.py"
SEEDS.update({
"center-crop-round": UTIL("a picture whose width differs from the requested one by 1, 5, 9, ...", "the centred rectangle is one pixel too narrow or wide",
  [(UPI, "left = math.floor((orig_width - width)/2)", "left = round((orig_width - width)/2)"), (UPI, "right = math.floor((orig_width + width)/2)", "right = round((orig_width + width)/2)")],
  UPIL + """for w in range(3, 9):
    for n in range(1, w + 1):
        a, r = prepared('center_crop', [n, 3], w, 5); need(r is not None and r.shape[:2] == (3, n) and (r == a[1:4, (w - n) // 2:(w - n) // 2 + n]).all(), (w, n))"""),
"check-reference-order": UTIL("a model with more than ten outputs", "reference files are compared in alphabetical order of their names, output_10 before output_2",
  [("util/check_onnx_model.py", """    for i in range(ref_outputs_num):
        output_file = os.path.join(test_data_dir, 'output_{}.pb'.format(i))""", """    for output_file in sorted(glob.glob(os.path.join(test_data_dir, 'output_*.pb'))):""")],
  """for n in (1, 2, 12):
    m = u.multi_model((1, 3), n); d = tempfile.mkdtemp(dir=TMP); t = d + '/test_data_set_0'; os.makedirs(t); open(d + '/n.onnx', 'wb').write(m.SerializeToString())
    x = vals((1, 3), 3, 1 / 16.0); open(t + '/input_0.pb', 'wb').write(u.pb(x))
    for i, y in enumerate(u.evaluate_all(m, [x])): open(t + '/output_%d.pb' % i, 'wb').write(u.pb(y))
    rc, log = u.tool('check_onnx_model.py', ['--input', d + '/n.onnx'], u.backend('caffe2.python.onnx.backend', dict(run_model=lambda model, ins, device='CPU': u.evaluate_all(model, ins))))
    need(rc in (0, None) and 'matches' in log, (n, log[-200:]))"""),
"intermediate-precision": UTIL("an intermediate value that needs more than seven significant digits or is very small", "saved values are rounded",
  [("util/save_intermediate_outputs.py", "tf_out[op].flatten(), delimiter='\\t')", "tf_out[op].flatten(), fmt='%.7f', delimiter='\\t')")],
  """import types
os.chdir(TMP); m = M((1, 3)); t = m.op('Mul', [m.x, m.param(np.array([[1e-9, 1.0, 3.3333333]], np.float32))], out='a'); m = m.done(t); open('n.onnx', 'wb').write(m.SerializeToString())
def prepare(model, device='CPU'):
    r = types.SimpleNamespace(); r.tensor_dict = {}; r.run = lambda ins: {o.name: np.asarray(onnxref.evaluate(model, {m.graph.input[0].name: ins[0]})[o.name], np.float32) for o in model.graph.output}; return r
u.tool('save_intermediate_outputs.py', ['--input', 'n.onnx', '--input_shape', '1', '3', '--out_to_check', 'a,1,3'], u.backend('onnx_tf.backend', dict(prepare=prepare)))
need((np.loadtxt('n_a.tf').astype(np.float32) == np.array([1e-9, 1.0, 3.3333333], np.float32)).all(), open('n_a.tf').read())"""),
})

REJ = P + """#include <sys/wait.h>
#include <unistd.h>
template <class F> static bool refused(F f) { fflush(stdout); pid_t p = fork(); if (!p) { freopen("/dev/null", "w", stderr); f(); _exit(0); } int st; waitpid(p, &st, 0); return WIFEXITED(st) && WEXITSTATUS(st) == 1; }
"""
SEEDS.update({
"copy-larger": dict(property="E04", needs="copying a tensor into one with more elements", breaks="a copy that leaves the rest of the destination unset is accepted",
  edits=[("pico-cnn/tensor.cpp", "if(this->num_elements() == dest->num_elements()) {", "if(this->num_elements() <= dest->num_elements()) {")],
  demo=REJ+"""int main() { for (uint32_t a = 1; a < 6; a++) for (uint32_t b = 1; b < 6; b++) NEED(refused([&] { Tensor x(1, a), y(b, 1); x.copy_data_into(&y); }) == (a != b)); return bad; }"""),
"bn-batch-rank": dict(property="E04", needs="batch normalisation of a rank-3 tensor with more than one batch", breaks="the batch check looks at rank-4 tensors only; later batches are silently left unset",
  edits=[(L+"batch_normalization.cpp", "    if (num_batches != 1)\n", "    if (input->num_dimensions() == 4 && num_batches != 1)\n")],
  demo=REJ+"""int main() { Tensor g(2), b(2), m(2), v(2); for (uint32_t n : {1u, 2u}) { NEED(refused([&] { Tensor in(n, 2, 3), out(n, 2, 3); BatchNormalization l("b", 0, (op_type) 0, &g, &b, &m, &v, 1.f); l.run(&in, &out); }) == (n != 1));
 NEED(refused([&] { Tensor in(n, 2, 3, 1), out(n, 2, 3, 1); BatchNormalization l("b", 0, (op_type) 0, &g, &b, &m, &v, 1.f); l.run(&in, &out); }) == (n != 1)); } return bad; }"""),
"fc-either": dict(property="E04", needs="a fully connected layer whose input is a row but whose output is not (or the other way round)", breaks="only requests where both are wrong are rejected",
  edits=[(L+"fully_connected.cpp", "if (input->num_dimensions() != 2 || output->num_dimensions() != 2) {", "if (input->num_dimensions() != 2 && output->num_dimensions() != 2) {")],
  demo=REJ+"""int main() { Tensor k(3, 4); NEED(refused([&] { Tensor in(1, 4), out(1, 1, 3); FullyConnected f("f", 0, (op_type) 0, &k, nullptr); f.run(&in, &out); }));
 NEED(refused([&] { Tensor in(1, 1, 1, 4), out(1, 3); FullyConnected f("f", 0, (op_type) 0, &k, nullptr); f.run(&in, &out); })); NEED(!refused([&] { Tensor in(1, 4), out(1, 3); FullyConnected f("f", 0, (op_type) 0, &k, nullptr); f.run(&in, &out); })); return bad; }"""),
"conv-padded-member": dict(property="E03", needs="two threads running the same padded convolution on separate inputs and outputs", breaks="the padded input is kept in the layer until the next run, which releases it under another thread",
  edits=[(L+"convolution.cpp", "                input_tensor = input->expand_with_padding(padding_);\n", "                delete padded_input_;\n                padded_input_ = input->expand_with_padding(padding_);\n                input_tensor = padded_input_;\n"),
         (L+"convolution.cpp", "            if (padding_) {\n                delete input_tensor;\n            }\n", ""), (L+"convolution.cpp", "            delete [] stride_;\n", "            delete [] stride_;\n            delete padded_input_;\n"),
         (L+"convolution.h", "            Tensor *bias_;\n", "            Tensor *bias_;\n            Tensor *padded_input_ = nullptr;\n")],
  demo=P+"""int main() { uint32_t pad[4] = {1,1,1,1}, st[2] = {1,1}; Tensor k(2,2,3,3), a(1,2,24,24), b(1,2,24,24); for (int i = 0; i < 36; i++) k.access_blob(i) = i % 3; for (int i = 0; i < 1152; i++) { a.access_blob(i) = i % 7; b.access_blob(i) = 50 + i % 5; }
 Convolution c("c", 0, (op_type) 0, &k, nullptr, pad, st, 1); Tensor ra(1,2,24,24), rb(1,2,24,24); c.run(&a, &ra); c.run(&b, &rb);
 for (int r = 0; r < 400 && !bad; r++) { Tensor oa(1,2,24,24), ob(1,2,24,24); std::thread t([&] { c.run(&a, &oa); }); c.run(&b, &ob); t.join();
  for (int i = 0; i < 1152; i++) if (oa.access_blob(i) != ra.access_blob(i) || ob.access_blob(i) != rb.access_blob(i)) bad = 1; } return bad; }""", flags="-fsanitize=address"),
"conv-tmp-kept": dict(property="E02", needs="one convolution object with several input channels, run on an image and later on one of another size", breaks="the buffer for partial sums keeps the first image's shape",
  edits=[(L+"convolution.cpp", "            auto *tmp_tensor = new Tensor(num_batches, num_output_channels, output_height, output_width);\n", "            if (!partial_sums_) {\n                partial_sums_ = new Tensor(num_batches, num_output_channels, output_height, output_width);\n            }\n            auto *tmp_tensor = partial_sums_;\n"),
         (L+"convolution.cpp", "            delete tmp_tensor;\n\n", ""), (L+"convolution.cpp", "            delete [] stride_;\n", "            delete [] stride_;\n            delete partial_sums_;\n"),
         (L+"convolution.h", "            Tensor *bias_;\n", "            Tensor *bias_;\n            Tensor *partial_sums_ = nullptr;\n")],
  demo=P+"""int main() { uint32_t st[2] = {1,1}; Tensor k(2,2,1,1); for (int i = 0; i < 4; i++) k.access_blob(i) = i + 1; Convolution c("c", 0, (op_type) 0, &k, nullptr, nullptr, st, 1);
 for (uint32_t n : {4u, 2u, 3u}) { Tensor in(1,2,n,n), out(1,2,n,n); for (uint32_t i = 0; i < 2*n*n; i++) in.access_blob(i) = i; c.run(&in, &out);
  for (uint32_t o = 0; o < 2; o++) for (uint32_t i = 0; i < n*n; i++) NEED(out.access_blob(o*n*n + i) == k.access_blob(2*o) * i + k.access_blob(2*o + 1) * (n*n + i)); } return bad; }""", flags="-fsanitize=address"),
})

FAULTH = """import runpy
def execute(script, argv, cwd, mods=None):
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.chdir(cwd); sys.path.insert(0, os.path.join(nmc.REPO, os.path.dirname(script))); sys.modules.update(mods or {}); sys.argv = [script] + argv
            n = os.open(os.devnull, os.O_WRONLY); os.dup2(n, 1); os.dup2(n, 2); sys.stdout = sys.stderr = open(os.devnull, 'w')
            runpy.run_path(os.path.join(nmc.REPO, script), run_name='__main__')
        except SystemExit as e: code = e.code if isinstance(e.code, int) else int(e.code is not None)
        except BaseException: code = 1
        finally: os._exit(code)
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
def gemm(k):
    m = M((1, 3)); return m.done(m.op('Gemm', [m.x, m.param(vals((2, 3), k)), m.param(vals((2,), k + 1))], transB=1))
def rd(*p): return open(os.path.join(*p), 'rb').read()
"""
def FAULT(needs, breaks, edits, demo): return dict(IMP("N09", needs, breaks, edits, "import utilcheck as u\n" + FAULTH + demo), copy=UTILCOPY)
SEEDS.update({
"weights-same-size": FAULT("importing a model again after its parameters changed (same sizes, as after retraining)", "the earlier weights file is kept because its size matches",
  [(BE, """        with open(os.path.join(folder, "network.weights.bin"), "wb") as f:
            for packed_struct in self.packed_file:
                f.write(packed_struct)
""", """        weights_path = os.path.join(folder, "network.weights.bin")
        if not os.path.exists(weights_path) or os.path.getsize(weights_path) != sum(len(p) for p in self.packed_file):
            with open(weights_path, "wb") as f:
                for packed_struct in self.packed_file:
                    f.write(packed_struct)
""")],
  """d, e = os.path.join(TMP, 'd'), os.path.join(TMP, 'e'); os.makedirs(d); os.makedirs(e)
for f, k in ((d, 1), (d, 7), (e, 7)):
    open(f + '/m.onnx', 'wb').write(gemm(k).SerializeToString()); need(execute('onnx_import/onnx_to_pico_cnn.py', ['--input', 'm.onnx'], f) == 0, k)
need(rd(d, 'generated_code/m/network.weights.bin') == rd(e, 'generated_code/m/network.weights.bin'), 'stale weights')"""),
"weights-early": FAULT("a model whose layers turn out to be unsupported, imported over an earlier version that was supported", "the weights file is replaced before the model is found to be unsupported",
  [(BE, "        self._generate_weights_file(graph)\n\n        self.dummy_input", """        self._generate_weights_file(graph)

        weights_folder = "./generated_code/{}".format(self.model_name)
        if os.path.isdir(weights_folder):
            with open(os.path.join(weights_folder, "network.weights.bin"), "wb") as f:
                for packed_struct in self.packed_file:
                    f.write(packed_struct)

        self.dummy_input""")],
  """d = os.path.join(TMP, 'd'); os.makedirs(d); old = None
for bad in (False, True):
    if bad: m = M((1, 3)); m = m.done(m.op('Tanh', m.op('Gemm', [m.x, m.param(vals((2, 3), 4)), m.param(vals((2,), 5))], transB=1)))
    else: m = gemm(1)
    open(d + '/m.onnx', 'wb').write(m.SerializeToString()); rc = execute('onnx_import/onnx_to_pico_cnn.py', ['--input', 'm.onnx'], d)
    new = [rd(d, 'generated_code/m', n) for n in ('network.cpp', 'network.h', 'network.weights.bin')]
    if bad: need(new == old, 'a refused model changed earlier output')
    else: need(rc == 0, rc)
    old = new"""),
"prepare-resume": FAULT("an interrupted earlier run (or changed pictures) that left files in the destination folder", "existing files are taken to be finished and skipped",
  [("util/prepare_images.py", """            new_img = orig_img.resize((width, height), Image.ANTIALIAS)
            new_img.save(os.path.join(destination_folder, "{}x{}_scale_".format(width, height) + file))
""", """            new_path = os.path.join(destination_folder, "{}x{}_scale_".format(width, height) + file)
            if os.path.exists(new_path):
                continue
            new_img = orig_img.resize((width, height), Image.ANTIALIAS)
            new_img.save(new_path)
""")],
  """d = os.path.join(TMP, 'd'); os.makedirs(d + '/imgs/scaled_2x3'); np.save(open(d + '/imgs/ILSVRC_1.JPEG', 'wb'), u.picture(5, 6, 1))
t = d + '/imgs/scaled_2x3/2x3_scale_ILSVRC_1.JPEG'; open(t, 'wb').write(b'half a pic')
need(execute('util/prepare_images.py', ['--directory', 'imgs', '--size', '2', '3', '--mode', 'scale'], d, u.pil()) == 0, 'status'); need(rd(t) != b'half a pic', 'left half a picture')"""),
"parse-keeps-going": FAULT("a reference file that cannot be written (full disk, no permission) or read", "the failure is only printed and the tool reports success",
  [("util/parse_onnx_reference_files.py", """            with open(os.path.join(args.input, "output_{}.data".format(i)), "wb") as f:
                for packed_struct in packed_file:
                    f.write(packed_struct)
""", """            try:
                with open(os.path.join(args.input, "output_{}.data".format(i)), "wb") as f:
                    for packed_struct in packed_file:
                        f.write(packed_struct)
            except IOError as e:
                print("WARNING: Could not write output_{}.data: {}".format(i, e))
""")],
  """d = os.path.join(TMP, 'd'); os.makedirs(d + '/ref/output_0.data'); open(d + '/ref/input_0.pb', 'wb').write(u.pb(vals((1, 1, 2, 2)))); open(d + '/ref/output_0.pb', 'wb').write(u.pb(vals((1, 3))))
need(execute('util/parse_onnx_reference_files.py', ['--input', 'ref'], d) != 0, 'success although output_0.data is a folder')
os.rmdir(d + '/ref/output_0.data'); need(execute('util/parse_onnx_reference_files.py', ['--input', 'ref'], d) == 0 and os.path.getsize(d + '/ref/output_0.data') > 12, 'second run')"""),
"polished-reuse": FAULT("importing a changed model under the same name", "the polished model of the earlier import is used again",
  [("onnx_import/onnx_to_pico_cnn.py", """    onnx.save(optimized_model, os.path.join("./polished_models", "{}_polished.onnx".format(model_name)))
""", """    polished_path = os.path.join("./polished_models", "{}_polished.onnx".format(model_name))
    if os.path.exists(polished_path):
        optimized_model = onnx.load(polished_path)
    else:
        onnx.save(optimized_model, polished_path)
""")],
  """d = os.path.join(TMP, 'd'); os.makedirs(d); ws = []
for k in (1, 7):
    open(d + '/m.onnx', 'wb').write(gemm(k).SerializeToString()); need(execute('onnx_import/onnx_to_pico_cnn.py', ['--input', 'm.onnx'], d) == 0, k); ws.append(rd(d, 'generated_code/m/network.weights.bin'))
need(ws[0] != ws[1], 'the weights of the earlier model were written again')"""),
})

SEEDS["weights-static-type"] = dict(property="N10", needs="two threads loading weights files at the same time, one of them between the bytes of a layer type",
  breaks="the buffer for the layer type is shared by all calls of the weights reader",
  edits=[("pico-cnn/io/read_binary_weights.cpp", "            char buffer_layer_type[100];", "            static char buffer_layer_type[100];")],
  demo=P+"""#include <thread>
#include <string>
#include <unistd.h>
#include <sys/stat.h>
#include <fcntl.h>
static void w32(std::string &f, uint32_t v) { f.append((char *) &v, 4); }
static void wf(std::string &f, float v) { f.append((char *) &v, 4); }
static std::string head() { std::string f = "FD\\nnet\\n"; w32(f, 1); f += "layer\\n"; return f; }
static std::string bn() { std::string f; for (int k = 0; k < 4; k++) { w32(f, 1); wf(f, k + 1); } return f + "end\\n"; }
static std::string conv() { std::string f; w32(f, 1); w32(f, 1); w32(f, 1); w32(f, 1); wf(f, 7); w32(f, 1); wf(f, 9); return f + "end\\n"; }
// thread A reads a pipe that delivers its file only up to the middle of the layer type until thread B has loaded another file
int main() {
 mkfifo("pipe", 0600); { std::string s = head() + "BatchNormalization\\n" + bn(); FILE *f = fopen("b.bin", "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
 Tensor **k = new Tensor*[2]{new Tensor(1,1,1,1), nullptr}, **b = new Tensor*[2]{new Tensor(1), nullptr}; int rc = -1;
 std::thread a([&] { rc = read_binary_weights("pipe", &k, &b); });
 int fd = open("pipe", O_WRONLY); std::string s = head() + "Co"; if (write(fd, s.data(), s.size()) < 0) return 9; usleep(300000);
 Tensor **k2 = new Tensor*[1]{nullptr}, **b2 = new Tensor*[5]{new Tensor(1), new Tensor(1), new Tensor(1), new Tensor(1), nullptr};
 NEED(read_binary_weights("b.bin", &k2, &b2) == 0);
 s = "nv\\n" + conv(); if (write(fd, s.data(), s.size()) < 0) return 9; close(fd); a.join();
 NEED(rc == 0); NEED(k[0]->access_blob(0) == 7); NEED(b[0]->access_blob(0) == 9); NEED(b2[3]->access_blob(0) == 4); return bad; }""")
SEEDS["concat-static-list"] = IMP("N10", "two networks with a Concat running in different threads at the same time",
  "the list of a Concat's inputs is one static array that all network objects fill again for every run",
  [(PC, """        input_declaration = "pico_cnn::naive::Tensor* inputs_{}[{}] = {{".format(identifier,
                                                                                 str(num_input_shapes))
        for idx in range(num_input_shapes):
            input_declaration += "{}".format(input_buffers[idx].name)
            if idx < num_input_shapes-1:
                input_declaration += ", "
            else:
                input_declaration += "};"
""", """        input_declaration = "static pico_cnn::naive::Tensor* inputs_{}[{}];".format(identifier,
                                                                                    str(num_input_shapes))
        for idx in range(num_input_shapes):
            input_declaration += "\\n    inputs_{}[{}] = {};".format(identifier, idx, input_buffers[idx].name)
""")], r"""
import netdemo
m = M((1, 2, 3, 3)); a = m.op("Relu", m.x); b = m.op("Relu", m.x); t = m.x
for k in range(6): t = m.op("Concat", [a, b], axis=1); a = m.op("Relu", t); b = m.op("Relu", a)
model = m.done(m.op("Flatten", t, axis=1))
netdemo.MAIN = '''
#include "network.h"
#include <thread>
#include <chrono>
#include <cstdio>
using pico_cnn::naive::Tensor;
int main() { int bad = 0; auto end = std::chrono::steady_clock::now() + std::chrono::seconds(20);
  auto work = [&](float v) { Network *n = new Network(); Tensor *x = new Tensor(1, 2, 3, 3), *y = new Tensor(1, 1152);
    for (int r = 0; r < 200000 && !bad && std::chrono::steady_clock::now() < end; r++) { for (int i = 0; i < 18; i++) x->access_blob(i) = v; for (int i = 0; i < 1152; i++) y->access_blob(i) = -1; n->run(x, y);
      for (int i = 0; i < 1152; i++) if (y->access_blob(i) != v) { bad = 1; break; } } };
  std::thread a(work, 1.0f), b(work, 2.0f), c(work, 3.0f); a.join(); b.join(); c.join(); return bad; }
'''
f = imported(model); need(f is not None, "import"); need(compiled(f), "compile"); need(subprocess.run([os.path.join(f, "drive")], timeout=100).returncode == 0, "three networks in three threads each give their own result")
""")
VARH = P + """#include "pico-cnn/io/read_binary_weights.h"
#include "pico-cnn/io/read_binary_reference_data.h"
#include <unistd.h>
static void put(const char *p, const std::string &s) { FILE *f = fopen(p, "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
"""
SEEDS.update({
"debug-rounds": dict(property="E05", needs="a build with debug output, reading reference data with more than three decimals", breaks="debug builds load rounded reference inputs",
  edits=[("pico-cnn/io/read_binary_reference_data.cpp", """                for(uint32_t i = 0; i < height*width; i++) {
                    PRINT_DEBUG(values[i])
                }
                #endif
                std::memcpy((*input""", """                for(uint32_t i = 0; DEBUG && i < height*width; i++) {
                    // three decimals are enough to look at
                    values[i] = roundf(values[i] * 1000) / 1000;
                    PRINT_DEBUG(values[i])
                }
                #endif
                std::memcpy((*input""")],
  demo=VARH+r"""int main() { std::string s = "FCI\n"; auto w = [&](uint32_t v) { s.append((char *) &v, 4); }; w(1); w(1); w(1); w(4); float v[4] = {0.12345f, -2, 3e-6f, 1e9f}; s.append((char *) v, 16); s += "end\n"; put("r", s);
 Tensor t(1, 4); Tensor *p = &t; NEED(read_binary_reference_input_data("r", &p) == 0); for (int i = 0; i < 4; i++) NEED(p->access_blob(i) == v[i]); return bad; }""", flags="-UDEBUG -DDEBUG=1"),
"assert-square": dict(property="E05", needs="a build with assertions and images that are not square", breaks="builds without NDEBUG abort on MNIST-format files the others read",
  edits=[("pico-cnn/io/read_mnist.cpp", "        height = change_endianess(height);\n", "        height = change_endianess(height);\n        // the dimensions are stored in big endian order\n        assert(height <= width);\n"),
         ("pico-cnn/io/read_mnist.cpp", '#include "read_mnist.h"\n', '#include "read_mnist.h"\n#include <cassert>\n')],
  demo=VARH+r"""int main() { auto be = [](int v) { return std::string("\0\0", 2) + (char) (v >> 8) + (char) v; }; for (int h = 1; h < 4; h++) for (int w = 1; w < 4; w++) { put("m", be(2051) + be(1) + be(h) + be(w) + std::string(h * w, 'x'));
 float **im = nullptr; NEED(read_mnist_images("m", &im, 1, 0, 0.f, 255.f) == 1); } return bad; }"""),
"char-eof": dict(property="E05", needs="a target whose char is unsigned (ARM) and a weights file that ends inside the network's name", breaks="the end of the file goes unnoticed there and the reader never returns",
  edits=[("pico-cnn/io/read_binary_weights.cpp", """            if(fread((void*)&c, sizeof(c), 1, binary_file) != 1) {
                PRINT_ERROR("ERROR while reading name")""", """            c = fgetc(binary_file);
            if(c == EOF) {
                PRINT_ERROR("ERROR while reading name")""")],
  demo=VARH+r"""int main() { alarm(20); put("w", "FD\nabc"); Tensor **k = nullptr, **b = nullptr; NEED(read_binary_weights("w", &k, &b) != 0); return bad; }""", flags="-funsigned-char"),
})

SEEDS.update({
"print-precision": dict(property="T05", needs="elements with more than four significant digits, or other numbers printed to the stream afterwards", breaks="printing a tensor changes the stream's precision for good",
  edits=[("pico-cnn/tensor.cpp", '            out << "data:" << std::endl;\n', '            out << "data:" << std::endl;\n            out.precision(4);\n')],
  demo=P + """#include <sstream>
int main() { Tensor t(2, 2); t.access_blob(3) = 12.34567f; std::ostringstream o; o << t << 3.14159; NEED(o.str().find("12.3457") != std::string::npos); NEED(o.str().find("3.14159") != std::string::npos); return bad; }"""),
"print-limit": dict(property="T05", needs="a rank-1 tensor of more than 4096 elements", breaks="the rest of the elements is left out",
  edits=[("pico-cnn/tensor.cpp", """                for (uint32_t i = 0; i < tensor.num_elements(); i++) {
                    if (i == tensor.num_elements() - 1) {
                        out << tensor.data_[i] << "]";""", """                const uint32_t num_printed = MIN(tensor.num_elements(), 4096);
                for (uint32_t i = 0; i < num_printed; i++) {
                    if (i == num_printed - 1) {
                        out << tensor.data_[i] << "]";""")],
  demo=P + """#include <sstream>
#include <algorithm>
int main() { for (uint32_t n : {1u, 300u, 5000u}) { Tensor t(n); std::ostringstream o; o << t; auto s = o.str(); NEED((uint32_t) std::count(s.begin(), s.end(), ',') == n - 1); } return bad; }"""),
})

SEEDS.update({
'conv-skip-zero': dict(property='L01', needs='a convolution without bias in which one plane of a kernel is all zero, after a plane that is not', breaks="a plane of zeros is skipped before the scratch plane is cleared, so the previous input channel's products are added twice",
  edits=[('pico-cnn/layers/convolution.cpp', '            fp_t pixel;\n\n            uint32_t output_channel_row = 0;', '            fp_t pixel;\n\n            bool zero = !bias_;\n            for (uint32_t k = 0; k < kernel_height * kernel_width; k++)\n                zero = zero && kernel_->access(output_channel, cnt, k / kernel_width, k % kernel_width, num_kernel_channels, kernel_height, kernel_width) == 0;\n            if (zero) return;\n\n            uint32_t output_channel_row = 0;')],
  demo=P + r"""int main() { uint32_t pad[4] = {0,0,0,0}, st[2] = {1,1}; Tensor k(1,3,1,1), in(1,3,2,2), out(1,1,2,2);
 k.access_blob(0) = 2; k.access_blob(1) = 3; k.access_blob(2) = 0; for (int i = 0; i < 12; i++) in.access_blob(i) = i + 1;
 Convolution c("c", 0, (op_type) 0, &k, nullptr, pad, st, 1); c.run(&in, &out);
 for (int i = 0; i < 4; i++) NEED(out.access_blob(i) == 2 * (i + 1) + 3 * (i + 5)); return bad; }"""),
'lrn-window': dict(property='L10', needs='neighbouring channels of very different magnitude', breaks='the sum of squares is carried from channel to channel, and a large value that has left the window leaves its rounding error behind',
  edits=[('pico-cnn/layers/activation_functions/lrn.cpp', '                                for (i = from; i <= to; i++) {\n                                    sum += powf(input->access(batch, i, row, column, num_channels, height, width), 2);\n                                }', '                                if (channel == 0) {\n                                    for (i = from; i <= to; i++) {\n                                        sum += powf(input->access(batch, i, row, column, num_channels, height, width), 2);\n                                    }\n                                } else {\n                                    sum = window[row * width + column];\n                                    if (channel + n_ / 2 < num_channels)\n                                        sum += powf(input->access(batch, channel + n_ / 2, row, column, num_channels, height, width), 2);\n                                    if (channel - n_ / 2 - 1 >= 0)\n                                        sum -= powf(input->access(batch, channel - n_ / 2 - 1, row, column, num_channels, height, width), 2);\n                                }\n                                window[row * width + column] = sum;'),
         ('pico-cnn/layers/activation_functions/lrn.cpp', '                fp_t sum;\n', '                fp_t sum;\n                std::vector<fp_t> window(input->height() * input->width());\n'),
         ('pico-cnn/layers/activation_functions/lrn.cpp', '#include "lrn.h"', '#include "lrn.h"\n#include <vector>')],
  demo=P + r"""int main() { Tensor in(1,3,1,1), out(1,3,1,1); in.access_blob(0) = 1e5f; in.access_blob(1) = 1; in.access_blob(2) = 2; LRN l("l", 0, (op_type) 0, 1.f, 1.f, 1); l.run(&in, &out);
 NEED(std::fabs(out.access_blob(1) - 0.5f) < 1e-4); NEED(std::fabs(out.access_blob(2) - 0.4f) < 1e-4); return bad; }"""),
'fc-wide-static': dict(property='E03', needs='two networks running at once in two threads, with fully connected layers of at least 256 inputs', breaks='wide inputs are copied into a static row that all fully connected layers share',
  edits=[('pico-cnn/layers/fully_connected.cpp', '            uint32_t kernel_width = kernel_->width();\n\n            for (uint32_t i = 0; i < output_width; i++) {\n\n                fp_t pixel = 0.0;', '            uint32_t kernel_width = kernel_->width();\n            static std::vector<fp_t> row;\n            if (input_width >= 256) { row.assign(&input->access_blob(0), &input->access_blob(0) + input_width); }\n\n            for (uint32_t i = 0; i < output_width; i++) {\n\n                fp_t pixel = 0.0;'),
         ('pico-cnn/layers/fully_connected.cpp', 'pixel += input->access(0, j, input_width) * kernel_->access(i, j, kernel_width);', 'pixel += (input_width >= 256 ? row[j] : input->access(0, j, input_width)) * kernel_->access(i, j, kernel_width);'),
         ('pico-cnn/layers/fully_connected.cpp', '#include "fully_connected.h"', '#include "fully_connected.h"\n#include <vector>')],
  demo=P + r"""int main() { auto work = [&](float v) { Tensor w(64,512), in(1,512), out(1,64); for (int i = 0; i < 64 * 512; i++) w.access_blob(i) = 1; for (int i = 0; i < 512; i++) in.access_blob(i) = v;
   FullyConnected f("f", 0, (op_type) 0, &w, nullptr); for (int r = 0; r < 4000 && !bad; r++) { f.run(&in, &out); for (int i = 0; i < 64; i++) if (out.access_blob(i) != 512 * v) bad = 1; } };
 std::thread a(work, 1.f), b(work, 2.f), c(work, 3.f); a.join(); b.join(); c.join(); return bad; }"""),
'avgpool-wide': dict(property='L04', needs='a padded average pooling window at the edge of more than 32767 elements', breaks='the divisor overflows 16 bits',
  edits=[('pico-cnn/layers/pooling/average_pooling.cpp', 'int32_t divisor, div_row, div_col;', 'int16_t divisor, div_row, div_col;')],
  demo=P + r"""int main() { uint32_t k[2] = {200,200}, s[2] = {1,1}, pad[4] = {0,0,1,1}; Tensor in(1,1,200,200), out(1,1,2,2); for (int i = 0; i < 40000; i++) in.access_blob(i) = 1;
 AveragePooling p("p", 0, (op_type) 0, k, s, pad, false); p.run(&in, &out); for (int i = 0; i < 4; i++) NEED(std::fabs(out.access_blob(i) - 1) < 1e-4); return bad; }"""),
'pool-flat-batches': dict(property='L03', needs='several batches of images of height 1 whose bottom padding differs from the top padding', breaks='flat images get their top padding at the bottom too',
  edits=[('pico-cnn/layers/pooling/pooling.cpp', 'if (padding_) {\n            input_tensor = input->expand_with_padding(padding_, padding_value());', 'if (padding_ && input->num_batches() > 1 && input->height() == 1 && input->num_dimensions() == 4) {\n            uint32_t p[4] = {padding_[0], padding_[1], padding_[0], padding_[3]};\n            input_tensor = input->expand_with_padding(p, padding_value());\n        } else if (padding_) {\n            input_tensor = input->expand_with_padding(padding_, padding_value());')],
  demo=P + r"""int main() { uint32_t k[2] = {2,1}, s[2] = {1,1}, pad[4] = {0,0,1,0}; for (uint32_t b = 1; b < 4; b++) for (uint32_t h = 1; h < 3; h++) { Tensor in(b,2,h,3), out(b,2,h,3); for (uint32_t i = 0; i < in.num_elements(); i++) { in.access_blob(i) = i + 1.f; out.access_blob(i) = -7; }
  MaxPooling p("p", 0, (op_type) 0, k, s, pad); p.run(&in, &out); for (uint32_t i = 0; i < out.num_elements(); i++) { uint32_t y = i / 3 % h; NEED(out.access_blob(i) == i + 1.f + (y + 1 < h ? 3 : 0)); } } return bad; }"""),
'gavg-nan': dict(property='L05', needs='a NaN in one channel of an image with several channels', breaks='the sum is not cleared once it is not a number',
  edits=[('pico-cnn/layers/pooling/global_average_pooling.cpp', '                output->access(batch, channel, 0, 0, num_channels, output_height, output_width) = global_sum / (fp_t)(height*width);\n\n                global_sum = 0.0;', '                output->access(batch, channel, 0, 0, num_channels, output_height, output_width) = global_sum / (fp_t)(height*width);\n\n                if (global_sum == global_sum) global_sum = 0.0;')],
  demo=P + r"""int main() { Tensor in(1,3,2,2), out(1,3,1,1); for (int i = 0; i < 12; i++) in.access_blob(i) = 1.f + i / 4; in.access_blob(5) = NAN; GlobalAveragePooling g("g", 0, (op_type) 0); g.run(&in, &out); NEED(out.access_blob(0) == 1); NEED(out.access_blob(2) == 3); return bad; }"""),
'print-batches': dict(property='T05', needs='a tensor of rank 3 or 4 with several batches of one channel', breaks='the batches run into each other on one line',
  edits=[('pico-cnn/tensor.cpp', '                    if (batch == num_batches-1)\n                        out << "]" ;', '                    if (batch == num_batches-1 || num_channels == 1)\n                        out << "]" ;')],
  demo=P + r"""#include <sstream>
int main() { Tensor t(3,1,1,2); std::ostringstream o; o << t; std::string s = o.str(); int n = 0; for (char c : s) n += c == '\n'; NEED(n == 4); Tensor u(3,2,1,2); std::ostringstream q; q << u; n = 0; for (char c : q.str()) n += c == '\n'; NEED(n == 7); return bad; }"""),
'bn-tiny-variance': dict(property='L07', needs='a channel whose variance is far below the usual, with a small epsilon', breaks='variances below 1e-7 are raised to it',
  edits=[('pico-cnn/layers/batch_normalization.cpp', '    fp_t variance = variances_->access(channel);', '    fp_t variance = MAX(variances_->access(channel), (fp_t) 1e-7);')],
  demo=P + r"""int main() { Tensor g(1), b(1), m(1), v(1), in(1,1,1,2), out(1,1,1,2); g.access_blob(0) = 1; v.access_blob(0) = 1e-10f; in.access_blob(0) = 1e-5f; in.access_blob(1) = -3e-5f;
 BatchNormalization n("n", 0, (op_type) 0, &g, &b, &m, &v, 1e-12f); n.run(&in, &out); NEED(std::fabs(out.access_blob(0) - 0.995f) < 0.01); NEED(std::fabs(out.access_blob(1) + 2.985f) < 0.03); return bad; }"""),
'maxpool-lowest': dict(property='L03', needs='a window in which every value is minus infinity or close to the lowest float', breaks='the maximum starts at -3.4e38 instead of a value of the window',
  edits=[('pico-cnn/layers/pooling/max_pooling.cpp', '                        pixel = input->access(batch, channel, channel_row, channel_column,\n                                              num_channels, height, width);', '                        pixel = -3.4e38f;')],
  demo=P + r"""int main() { uint32_t k[2] = {2,2}, s[2] = {1,1}; Tensor in(1,1,2,2), out(1,1,1,1); for (int i = 0; i < 4; i++) in.access_blob(i) = -INFINITY;
 MaxPooling p("p", 0, (op_type) 0, k, s, nullptr); p.run(&in, &out); NEED(out.access_blob(0) == -INFINITY); return bad; }"""),
'pool-pads-later': dict(property='E02', needs='a pooling layer with equal top and left but smaller bottom or right padding, run more than once', breaks='the first run overwrites the paddings the later ones use',
  edits=[('pico-cnn/layers/pooling/pooling.cpp', '            input_tensor = input->expand_with_padding(padding_, padding_value());', '            input_tensor = input->expand_with_padding(padding_, padding_value());\n            if (padding_[0] == padding_[1]) padding_[2] = padding_[3] = padding_[0];')],
  demo=P + r"""int main() { uint32_t k[2] = {2,2}, s[2] = {1,1}, pad[4] = {0,0,1,1}; Tensor in(1,1,2,2), o1(1,1,2,2), o2(1,1,2,2); for (int i = 0; i < 4; i++) in.access_blob(i) = 4 - i;
 MaxPooling p("p", 0, (op_type) 0, k, s, pad); p.run(&in, &o1); p.run(&in, &o2); for (int i = 0; i < 4; i++) NEED(o1.access_blob(i) == o2.access_blob(i)); return bad; }"""),
'weights-gemm-chunk': dict(property='I01', needs='a fully connected layer with more than 1048576 weights', breaks='the weights are read in pieces that all land at the start',
  edits=[('pico-cnn/io/read_binary_weights.cpp', '                    if(fread((void *) values, sizeof(float), kernel_height * kernel_width, binary_file) != (kernel_height*kernel_width)) {\n                        PRINT_ERROR("ERROR while reading kernel values.")\n                        delete[] values;\n                        fclose(binary_file);\n                        return 1;\n                    }\n                    std::memcpy((*kernels)[kernel_idx]->get_ptr_to_channel(0, 0)', '                    for (uint32_t n = 0; n < kernel_height * kernel_width; n += 1048576)\n                    if(fread((void *) values, sizeof(float), MIN(1048576, kernel_height * kernel_width - n), binary_file) != MIN(1048576, kernel_height*kernel_width - n)) {\n                        PRINT_ERROR("ERROR while reading kernel values.")\n                        delete[] values;\n                        fclose(binary_file);\n                        return 1;\n                    }\n                    std::memcpy((*kernels)[kernel_idx]->get_ptr_to_channel(0, 0)')],
  demo=VARH + r"""int main() { std::string s = "FD\nn\n"; auto w = [&](uint32_t v) { s.append((char *) &v, 4); }; w(1); s += "l\nGemm\n"; w(1); w(2); w(600000); std::vector<float> v(1200000); for (size_t i = 0; i < v.size(); i++) v[i] = i; s.append((char *) v.data(), v.size() * 4); w(0); s += "end\n"; put("w", s);
 Tensor k(2, 600000); Tensor *ks[2] = {&k, nullptr}, *bs[1] = {nullptr}; Tensor **kp = ks, **bp = bs; NEED(read_binary_weights("w", &kp, &bp) == 0); for (size_t i = 0; i < v.size(); i++) if (k.access_blob(i) != v[i]) bad = 1; return bad; }"""),
'label-counter': dict(property='I06', needs='a validation label file of more than 65535 lines', breaks='the line counter wraps and labels overwrite the first ones',
  edits=[('pico-cnn/io/read_imagenet_validation_labels.cpp', '        uint32_t i = 1;', '        uint16_t i = 1;')],
  demo=VARH + r"""#include "pico-cnn/io/read_imagenet_validation_labels.h"
int main() { std::string s; char l[100]; for (int i = 0; i < 70000; i++) { snprintf(l, 100, "ILSVRC2012_val_%08d.JPEG %d\n", i, i % 1000); s += l; } put("v", s); uint32_t *p = nullptr;
 NEED(read_imagenet_validation_labels("v", &p, 70000) == 70000); for (int i = 0; !bad && i < 70000; i++) NEED(p[i + 1] == (uint32_t) (i % 1000)); return bad; }"""),
'lrn-assert': dict(property='E05', needs='a build with assertions', breaks='an assertion counts the window size up, so builds without NDEBUG compute something else',
  edits=[('pico-cnn/layers/activation_functions/lrn.cpp', '                fp_t sum;', '                fp_t sum;\n                assert(n_ > 0 && n_++ > 0);'),
         ('pico-cnn/layers/activation_functions/lrn.cpp', '#include "lrn.h"', '#include "lrn.h"\n#include <cassert>'),
         ('pico-cnn/layers/activation_functions/lrn.h', 'const uint16_t n_;', 'uint16_t n_;')],
  demo=P + r"""int main() { Tensor in(1,3,2,2), o1(1,3,2,2), o2(1,3,2,2); for (int i = 0; i < 12; i++) in.access_blob(i) = i; LRN l("l", 0, (op_type) 0, 1.f, 0.75f, 3); l.run(&in, &o1); l.run(&in, &o2);
 for (int i = 0; i < 12; i++) NEED(o1.access_blob(i) == o2.access_blob(i)); NEED(std::fabs(o1.access_blob(0) - 0) < 1e-6 && std::fabs(o1.access_blob(4) - 4 / powf(1 + 80 / 3.f, 0.75f)) < 1e-4); return bad; }""", flags='-UNDEBUG'),
})

SEEDS.update({
"nop-used-twice": IMP("N05", "a node that reads the output of a Reshape without effect more than once", "only its first use is redirected when the Reshape is removed",
  [(BE, "                                node.inputs[num] = removed_input\n", "                                node.inputs[num] = removed_input\n                                break\n")],
  """for twice in (False, True):
    m = M((1, 3)); a = m.op("Relu", m.x); b = m.op("Reshape", [a, m.param(np.array([1, 3], np.int64))]); need(right(m.done(m.op("Add", [b, b if twice else a])), [vals((1, 3), 1)]), twice)"""),
"eps-rounded": IMP("N01", "a batch normalization with an epsilon below one millionth and small variances", "the epsilon written into the generated code is rounded to six decimals",
  [(PC, "operation.attributes['eps'] = attrs['epsilon']", "operation.attributes['eps'] = round(attrs['epsilon'], 6)")],
  FLAT + """for eps in (1e-5, 1e-3, 1e-8):
    m = M((1, 1, 3)); need(right(m.done(flat(m, m.op("BatchNormalization", [m.x] + [m.param(np.array([v], np.float32)) for v in (1, 0, 0, 0)], epsilon=eps))), [vals((1, 1, 3), 1)]), eps)"""),
"pad-single": IMP("N01", "a 2-D convolution with a single row or column of padding on one side only", "a padding of one in total is dropped",
  [(PC, '''        if (kernel_shape[0] % 2) == 0 or (kernel_shape[1] % 2) == 0:
            print("PicoCNN only supports odd kernel sizes in 2D convolution")
            exit(1)

        padding_needed = False
        for num in padding:
            if num != 0:
                padding_needed = True
''', '''        if (kernel_shape[0] % 2) == 0 or (kernel_shape[1] % 2) == 0:
            print("PicoCNN only supports odd kernel sizes in 2D convolution")
            exit(1)

        padding_needed = sum(padding) > 1
''')],
  FLAT + """for pads in ([1, 1, 1, 1], [0, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0]):
    m = M((1, 1, 3, 3)); need(right(m.done(flat(m, m.op("Conv", [m.x, m.param(vals((2, 1, 3, 3), 2))], kernel_shape=[3, 3], strides=[1, 1], pads=pads))), [vals((1, 1, 3, 3), 1)]), pads)"""),
"weights-append": IMP("N07", "a model that is imported again over an earlier import of the same name", "the new weights are written behind the old ones, and the old ones are loaded",
  [(BE, '"network.weights.bin"), "wb"', '"network.weights.bin"), "ab"')],
  """f = os.path.join(TMP, "again")
for k in (1, 2):
    m = M((1, 3)); model = m.done(m.op("Gemm", [m.x, m.param(vals((2, 3), k)), m.param(vals((2,), 3 * k))], transB=1)); x = [vals((1, 3), 5)]
    ok, log = nmc.run_child(f, model, "m", None); g = os.path.join(f, "generated_code", "m"); need(ok and compiled(g), "import"); out, want = outputs(g, model, x); need(not isinstance(out, int) and np.allclose(out, want[0].ravel(), atol=1e-5), k)"""),
"gather-negative": IMP("N05", "a shape computed with a Gather that counts from the end", "negative indices are taken as positive ones",
  [(CP, "                y = np.take(data, index, axis=axis)", "                y = np.take(data, np.abs(index), axis=axis)")],
  """nmc.run_importer = (lambda f, m, n, R=nmc.run_importer: R(f, m, n, full_shapes=True))
for i in (1, -2, -1):
    m = M((1, 2, 3)); s = m.op("Gather", [m.op("Shape", m.x), m.const(np.array([i], np.int64))], axis=0); t = m.op("Concat", [m.const(np.array([1, -1], np.int64)), s], axis=0)
    t = m.op("MaxPool", m.op("Reshape", [m.x, t]), kernel_shape=[2], strides=[1]); need(right(m.done(m.op("Flatten", t)), [vals((1, 2, 3), 1)]), i)"""),
})
