// refread input|output FILE dims...: reads a reference file with the library into a tensor of that shape; prints rc and bits
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include "pico-cnn/pico-cnn.h"
using pico_cnn::naive::Tensor;
int main(int argc, char **argv) {
    int n = argc - 3; uint32_t d[4] = {0, 0, 0, 0};
    for(int i = 0; i < n && i < 4; i++) d[i] = atoi(argv[3 + i]);
    Tensor *t = n == 1 ? new Tensor(d[0]) : n == 2 ? new Tensor(d[0], d[1]) : n == 3 ? new Tensor(d[0], d[1], d[2]) : new Tensor(d[0], d[1], d[2], d[3]);
    int rc = std::string(argv[1]) == "input" ? read_binary_reference_input_data(argv[2], &t) : read_binary_reference_output_data(argv[2], &t);
    printf("%d\n", rc);
    for(uint32_t i = 0; i < t->num_elements(); i++) { float f = t->access_blob(i); uint32_t u; memcpy(&u, &f, 4); printf("%x ", u); }
    delete t; return 0;
}
