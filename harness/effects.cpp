// E01: running, constructing and destroying layers has no effect but the output.
#include "zoo.h"
MC_RULE("one case per (layer configuration, data, mode); modes: plain runs, constructor arrays overwritten and freed after construction, in-place, parameters used again after the layer's end; all memory guarded, heap blocks counted over run and over the object's whole life; states are distinct output digests");
static void one(const Spec &s, uint32_t salt, int mode, bool second) {
    if (mode == 2 && !s.inplace) return;
    if (second && s.in2.empty()) return;
    const Shape &is = second ? s.in2 : s.in, &os = second ? s.out2 : s.out;
    if (!mc::take()) return;
    auto d = [&] { return "layer " + s.name + " in=" + str(is) + " out=" + str(os) + " a=" + str(s.a) + " b=" + str(s.b) + " c=" + str(s.c) + " data=" + std::to_string(salt) + " mode=" + std::to_string(mode); };
    MC_CASE(d);
    TP by1 = make({7, 3}); fill(by1.get(), 1);
    std::vector<TP> p = make_params(s, salt);
    TP in = make(is), out = make(os), by2 = make(os); fill(in.get(), 100 + salt); fill_const(out.get(), GARBAGE); fill(by2.get(), 2);
    auto sin = snap(in.get()), sb1 = snap(by1.get()), sb2 = snap(by2.get()); std::vector<std::vector<float>> sp; for (auto &x : p) sp.push_back(snap(x.get()));
    auto same = [&](const char *when) {
        if (mode != 2 && !same_bits(in.get(), sin)) { mc::fail(std::string("the input tensor changed ") + when); return false; }
        for (size_t i = 0; i < p.size(); i++) if (!same_bits(p[i].get(), sp[i])) { mc::fail("parameter tensor " + std::to_string(i) + " changed " + when); return false; }
        if (!same_bits(by1.get(), sb1) || !same_bits(by2.get(), sb2)) { mc::fail(std::string("an unrelated tensor changed ") + when); return false; }
        mc::check(p.size() + 3); return true;
    };
    auto shape_ok = [&](Tensor *t, const Shape &q) { if (t->num_dimensions() != q.size() || t->num_elements() != nelem(q)) return false; for (size_t i = 0; i < q.size(); i++) if (t->shape_[i] != q[i]) return false; return true; };
    // reference: arrays untouched, fresh everything
    std::vector<float> want;
    { Arr a(s.a), b(s.b), c(s.c); Obj o = s.make(raw(p), a.p, b.p, c.p); o.run(in.get(), out.get()); want = snap(out.get()); o.destroy(); if (!a.intact() || !b.intact() || !c.intact()) return mc::fail("a constructor array was modified"); }
    mc::step(3); mc::outcome(digest(out.get()));
    if (!same("during construction, run or destruction")) return;
    for (float v : want) if (v == GARBAGE) return mc::fail("an output element was not written");
    // whole life, counted
    Arr *a = new Arr(s.a), *b = new Arr(s.b), *c = new Arr(s.c);
    fill_const(out.get(), -GARBAGE);
    std::vector<Tensor *> pr = raw(p);
    Tensor *o_t = mode == 2 ? in.get() : out.get();
    long life, perrun = 0;
    {
        static char obj_store[sizeof(Obj)];
        mc::heap_arm();
        Obj *o = new (obj_store) Obj(s.make(pr, a->p, b->p, c->p)); mc::step();
        long before = mc::live_blocks;
        mc::armed = false;
        if (mode == 1) { a->scramble(); b->scramble(); c->scramble(); delete a; delete b; delete c; a = b = c = nullptr; }
        mc::armed = true;
        o->run(in.get(), o_t); mc::step();
        mc::armed = false;
        for (uint32_t i = 0; i < want.size(); i++) { float v = o_t->access_blob(i); if (memcmp(&v, &want[i], 4)) { mc::fail("output element " + std::to_string(i) + " is " + fstr(v) + " instead of " + fstr(want[i]) + (mode == 1 ? " after the constructor's arrays were reused" : "")); break; } }
        mc::check(want.size());
        if (mode == 2) for (uint32_t i = 0; i < sin.size(); i++) in->access_blob(i) = sin[i];
        mc::armed = true;
        long r0 = mc::live_blocks;
        for (int k = 0; k < 3; k++) o->run(in.get(), o_t);
        mc::step(3);
        perrun = mc::live_blocks - r0;
        (void) before;
        o->destroy(); o->~Obj(); mc::step();
        life = mc::heap_disarm();
    }
    if (perrun) mc::fail("three further runs left " + std::to_string(perrun) + " additional heap blocks");
    // the arrays' blocks (mode 1) were freed while counting was off; only the layer's own blocks count
    if (life) mc::fail("the layer's life left the heap with " + std::to_string(life) + " blocks more than before");
    if (mode != 2) same("over the layer's life");
    if (!shape_ok(in.get(), is) || !shape_ok(out.get(), os)) mc::fail("a tensor's shape changed");
    // the caller still owns the parameters: write and read them all (address sanitizer watches)
    for (auto &x : p) { fill_const(x.get(), 3); for (uint32_t i = 0; i < x->num_elements(); i++) if (x->access_blob(i) != 3) mc::fail("parameter not usable"); }
    delete a; delete b; delete c;
}
// tensors themselves
static void tensors(const Shape &s) {
    if (!mc::take()) return;
    auto d = [&] { return "tensor operations on " + str(s) + " leave the heap balanced"; };
    MC_CASE(d);
    mc::heap_arm();
    {
        TP t = make(s), u = make(s), m = make(s); t->copy_data_into(u.get()); t->add_tensor(u.get()); t->mul_with_factor(m.get(), 2);
        if (s.size() >= 2) { uint32_t p[4] = {1, 2, 0, 1}; TP e(t->expand_with_padding(p)); t->copy_with_padding_into(e.get(), p, 3); }
        if (s.size() >= 2) { Shape q = s; q[1] *= 2; TP c = make(q); Tensor *in[2] = {t.get(), u.get()}; c->concatenate_from(2, in, 1); }
        bool e = *t == *u; (void) e; mc::step(8);
    }
    long n = mc::heap_disarm();
    if (n) mc::fail(std::to_string(n) + " heap blocks left behind");
    mc::check(); mc::outcome(mc::hash_bytes(s.data(), 4 * s.size()));
}
void mc::explore() {
    auto z = big_zoo(); for (auto &s : large_zoo()) z.push_back(s);
    for (auto &s : z) for (uint32_t salt = 0; salt < (mc::thorough ? 12u : 3u); salt++) for (int mode = 0; mode < 3; mode++) for (int sec = 0; sec < 2; sec++) one(s, salt, mode, sec);
    uint32_t E = 3;
    for (uint32_t a = 1; a <= E; a++) { tensors({a}); for (uint32_t b = 1; b <= E; b++) { tensors({a, b}); for (uint32_t c = 1; c <= E; c++) { tensors({a, b, c}); for (uint32_t e = 1; e <= E; e++) tensors({a, b, c, e}); } } }
}
