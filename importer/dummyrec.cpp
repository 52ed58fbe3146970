// Linked into the benchmark program (N06): records every run of the network to the file DUMMYREC, and answers time() from DUMMYCLOCK ("start step").
// RUN_SYM: the mangled name of Network::run in the generated code, found with nm
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <ctime>
#include "pico-cnn/pico-cnn.h"
#define STR2(x) #x
#define STR(x) STR2(x)
typedef pico_cnn::naive::Tensor T;
void real_run(void *, T *, T *) __asm__("__real_" STR(RUN_SYM));
void wrap_run(void *, T *, T *) __asm__("__wrap_" STR(RUN_SYM));
static void put(FILE *f, T *t) {
    int32_t n = t->num_dimensions(), d[4] = {0, 0, 0, 0};
    if(n == 4) { d[0] = t->num_batches(); d[1] = t->num_channels(); d[2] = t->height(); d[3] = t->width(); }
    else if(n == 3) { d[0] = t->num_batches(); d[1] = t->num_channels(); d[2] = t->width(); }
    else if(n == 2) { d[0] = t->height(); d[1] = t->width(); }
    else d[0] = t->num_elements();
    fwrite(&n, 4, 1, f); fwrite(d, 4, n, f);
    for(uint32_t i = 0; i < t->num_elements(); i++) fwrite(&t->access_blob(i), 4, 1, f);
}
void wrap_run(void *net, T *in, T *out) {
    const char *p = getenv("DUMMYREC"); FILE *f = p ? fopen(p, "ab") : nullptr;
    if(f) put(f, in);
    real_run(net, in, out);
    if(f) { put(f, in); put(f, out); fclose(f); }
}
extern "C" time_t __wrap_time(time_t *t) {
    static long now, step = 0; static bool init = false;
    if(!init) { init = true; now = 1700000000; const char *p = getenv("DUMMYCLOCK"); if(p) sscanf(p, "%ld %ld", &now, &step); }
    time_t r = now; now += step; if(t) *t = r; return r;
}
