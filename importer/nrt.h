// Runtime of the importer checks: executes scripts (create / load / run / destroy) on generated networks, each script in a
// forked child under AddressSanitizer, and compares every output with the reference values computed from the ONNX model.
#ifndef NRT_H
#define NRT_H
#include <algorithm>
#include <array>
#include <cassert>
#include <cerrno>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include <assert.h>
#include <errno.h>
#include <float.h>
#include <limits.h>
#include <math.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include "pico-cnn/pico-cnn.h"

namespace nrt {
typedef pico_cnn::naive::Tensor Tensor;
struct Net {
    virtual ~Net() {}
    virtual void run(Tensor *in, Tensor *out) = 0;
    virtual Tensor ***kernels() = 0;
    virtual Tensor ***biases() = 0;
};
template<class N> struct NetOf : Net {
    N *n;
    NetOf() : n(new N()) {}
    ~NetOf() { delete n; }
    void run(Tensor *in, Tensor *out) { n->run(in, out); }
    Tensor ***kernels() { return &n->kernels; }
    Tensor ***biases() { return &n->biases; }
};
typedef Net *(*Maker)();
template<class N> Net *make() { return new NetOf<N>(); }
std::map<int, Maker> &makers();
struct Reg { Reg(int i, Maker m) { makers()[i] = m; } };
}
#define NRT_REGISTER(idx, cls) static nrt::Reg nrt_reg_##idx(idx, &nrt::make<cls>);
#endif
