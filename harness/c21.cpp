#include <cmath>
#include <cstdlib>
#include <iostream>
#include <new>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "sets.hpp"
#include "bignum/bignum.h"
#include "bignum/fourier.h"
static bool g_armed = false; static long g_left = 0;
static void* grab(size_t n) { if (g_armed && --g_left == 0) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return grab(n); }
void* operator new[](size_t n) { return grab(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

// A computation from freshly built operands, condensed into a fingerprint.
enum { K_BINARY, K_COMPOUND, K_SELF, K_COMPARE, K_PRINT, K_COPYMOVE, K_INDEX, K_TRANSFORM, K_FAILING };
struct Probe { const Api* A; int kind, op; model::Val a, b; long k; };
static std::string text(const Probe& p) {
    static const char* kn[] = {"binary", "compound", "compound with itself", "comparisons", "streaming", "copy and move", "out of range index", "transform", "compound with a failing allocation"};
    if (p.kind == K_TRANSFORM) return "transform of length " + std::to_string(p.k);
    return std::string(p.A->name) + ": " + kn[p.kind] + (p.kind <= K_SELF || p.kind == K_FAILING ? std::string(" ") + OP_TXT[p.op] : "") + " on " + text(p.a) + (p.kind <= K_COMPOUND || p.kind == K_COMPARE || p.kind == K_FAILING ? " and " + text(p.b) : "");
}
static u64 mixh(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0x9ddfea08eb382d69ull; }
static u64 form_hash(const Num& n) { static model::Val v; read(n, v); return model::hash(v); }
static u64 run(const Probe& p) {
    u64 h = 7;
    if (p.kind == K_TRANSFORM) {
        const size_t n = size_t(p.k);
        cmplx_list_t<double> x(n); for (size_t i = 0; i < n; ++i) x[i] = std::complex<double>(double((i * 3) % 10), double((i * 7) % 10));
        fft_complex<double>(x); ifft_complex<double>(x);
        for (auto& z : x) { h = mixh(h, u64(std::llround(z.real() * 1000))); h = mixh(h, u64(std::llround(z.imag() * 1000))); }
        return h;
    }
    Num x(p.A, p.a.desc, p.a.d), y(p.A, p.b.desc, p.b.d);
    switch (p.kind) {
        case K_BINARY: { Num r(x, y, p.op); h = mixh(h, form_hash(r)); break; }
        case K_COMPOUND: h = mixh(h, x.op_assign(y, p.op) == x.buf()); break;
        case K_SELF: x.op_assign(x, p.op); break;
        case K_COMPARE: for (int q = 0; q < 6; ++q) h = mixh(h, x.cmp(y, q)); break;
        case K_PRINT: for (int b : {10, 16, 8}) { bool s; for (char ch : x.print(b, &s)) h = mixh(h, (unsigned char)ch); } break;
        case K_COPYMOVE: { Num c(Num::Copy(), x); Num m(Num::Move(), c); y.move_assign(m); x.swap(y); h = mixh(h, form_hash(x)); break; }
        case K_INDEX: {
            std::streambuf* old = std::cerr.rdbuf(nullptr);
            int w = 0;
            try { x.at_const(x.size() + size_t(p.k)); } catch (const std::exception&) { w = 1; } catch (...) { w = 2; }
            std::cerr.rdbuf(old); std::cerr.clear();
            h = mixh(h, w); break;
        }
        case K_FAILING: {
            bool bad = false;
            try { g_left = p.k; g_armed = true; p.A->op_assign(x.buf(), y.buf(), p.op); g_armed = false; } catch (const std::bad_alloc&) { g_armed = false; bad = true; }
            h = mixh(h, bad);
            if (bad) return h;
            break;
        }
    }
    return mixh(mixh(h, form_hash(x)), form_hash(y));
}
static std::vector<Probe> probes_of(const Api* A, unsigned rich) {
    std::vector<Probe> v; const u64 B = A->base, M = B - 1;
    auto add = [&](int kind, int op, model::Val a, model::Val b, long k = 0) { v.push_back({A, kind, op, a, b, k}); };
    const model::Val small = val(D_NEG, {M, 0, 1}), one = val(D_POS, {1}), zero = val(D_POS, {}), z0 = val(D_NEG, {0}), big = val(D_POS, Digits(9, M));
    for (int op = 0; op < 4; ++op) {
        add(K_BINARY, op, big, small); add(K_COMPOUND, op, small, big); add(K_SELF, op, small, zero);
        add(K_BINARY, op, val(D_POS, {M, M}), val(D_NEG, {1}));
        if (rich) { add(K_COMPOUND, op, small, small); add(K_BINARY, op, z0, one); add(K_COMPOUND, op, val(D_NINF, {}), one); add(K_COMPOUND, op, one, val(D_NAN, {})); add(K_COMPOUND, op, one, zero); }
    }
    for (size_t n : rich ? std::vector<size_t>{1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 33, 64, 100} : std::vector<size_t>{2, 5, 16, 40}) {
        const Forms f = patterns(B, n, 0), g = patterns(B, n + n / 2, 0);
        add(K_BINARY, MUL, val(D_POS, f[0]), val(D_NEG, f[f.size() - 1]));
        add(K_COMPOUND, MUL, val(D_POS, f[f.size() / 2]), val(D_POS, g[0]));
        if (rich) { add(K_BINARY, ADD, val(D_POS, f[0]), val(D_POS, f[0])); add(K_BINARY, SUB, val(D_POS, g[1 % g.size()]), val(D_POS, f[0])); add(K_BINARY, DIV, val(D_POS, f[0]), val(D_POS, Digits(f[0].begin() + std::min(n / 8, size_t(4)), f[0].end()))); 
            if (n <= 16 && double(n) * std::log2(double(B)) < 130) add(K_BINARY, DIV, val(D_NEG, f[f.size() - 1]), one.d == f[0] ? small : val(D_POS, {M})); }
    }
    add(K_COMPARE, 0, big, small); add(K_COMPARE, 0, val(D_POS, {1, 0}), one);
    add(K_PRINT, 0, big, zero); add(K_PRINT, 0, val(D_NINF, {}), zero); add(K_PRINT, 0, zero, zero);
    add(K_COPYMOVE, 0, big, small); add(K_COPYMOVE, 0, val(D_NAN, {}), small);
    add(K_INDEX, 0, small, zero, 0); add(K_INDEX, 0, zero, zero, 5);
    for (int op = 0; op < 4; ++op) for (long k = 1; k <= (rich ? 4 : 2); ++k) add(K_FAILING, op, op == DIV ? big : val(D_POS, Digits(4, M)), op == DIV ? val(D_NEG, {M, M}) : big, k);
    return v;
}
struct Table { std::vector<Probe> p; std::vector<u64> ref; std::vector<char> known; };
// Every reference value is computed by a process that has not used the library.
static void fill_refs(Table& t) {
    const size_t n = t.p.size();
    struct Cell { u64 v; u64 ok; };
    Cell* m = static_cast<Cell*>(mmap(nullptr, sizeof(Cell) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::vector<pid_t> live;
    for (size_t i = 0; i < n; ++i) {
        const pid_t pid = fork();
        if (!pid) { alarm(20); try { m[i].v = run(t.p[i]); m[i].ok = 1; } catch (...) { m[i].v = 4711; m[i].ok = 1; } _exit(0); }
        live.push_back(pid);
        if (live.size() >= 16) { waitpid(live.front(), nullptr, 0); live.erase(live.begin()); }
    }
    for (pid_t p : live) waitpid(p, nullptr, 0);
    t.ref.resize(n); t.known.resize(n);
    for (size_t i = 0; i < n; ++i) { t.ref[i] = m[i].v; t.known[i] = char(m[i].ok && t.p[i].kind != K_FAILING); }
    munmap(m, sizeof(Cell) * n);
}
static u64 guarded(const Probe& p) { try { return run(p); } catch (...) { g_armed = false; return 4711; } }
static void judge(Ctx& c, const Table& t, size_t i, const std::string& after) {
    const u64 h = guarded(t.p[i]);
    c.outcome(h);
    if (t.known[i] && h != t.ref[i]) c.fail(text(t.p[i]) + ": the outcome after " + after + " differs from the outcome in a process that did nothing before");
}
// Live objects against fresh ones.
struct Step { int kind, i, j; };
static std::vector<Step> steps() {
    std::vector<Step> al;
    for (int i = 0; i < 2; ++i) {
        for (int op = 0; op < 4; ++op) for (int j = 0; j < 2; ++j) al.push_back({op, i, j});
        al.push_back({4, i, 1 - i}); al.push_back({5, i, 1 - i});
        for (int k = 6; k <= 15; ++k) al.push_back({k, i, 1 - i});
    }
    al.push_back({16, 0, 1});
    return al;
}
static void do_step(const Api* A, const Step& st, Num* o, u64& extra) {
    const u64 M = A->base - 1; Num& x = o[st.i]; Num& y = o[st.j];
    const bool fin = model::finite(x.desc());
    const model::Val a = read(x), b = read(y);
    switch (st.kind) {
        case 0: case 1: x.op_assign(y, st.kind); break;
        case 2: if (x.size() + y.size() <= 40) x.op_assign(y, MUL); break;
        case 3: if (!model::finite(a.desc) || !model::finite(b.desc) || (double(model::len(a.d)) - double(model::len(b.d)) + 1) * std::log2(double(A->base)) < 140) x.op_assign(y, DIV); break;
        case 4: x.copy_assign(y); break;
        case 5: x.move_assign(y); break;
        case 6: if (fin) x.push_back(M); break;
        case 7: if (fin) x.push_front(M); break;
        case 8: if (fin && x.size()) x.pop_back(); break;
        case 9: if (fin) x.resize(x.size() + 9, M); break;
        case 10: x.clear(); break;
        case 11: x.set_descriptor(D_NINF); break;
        case 12: x.set_descriptor(x.desc() == D_NEG ? D_POS : D_NEG); break;
        case 13: { Num r(y, x, SUB); extra = mixh(extra, form_hash(r)); x.move_assign(r); break; }
        case 14: { Num r(x, x, MUL); extra = mixh(extra, form_hash(r)); break; }
        case 15: {      // a failure in the middle of an operation
            if (x.size() + y.size() > 60) break;
            bool bad = false;
            try { g_left = 2; g_armed = true; A->op_assign(x.buf(), y.buf(), MUL); g_armed = false; } catch (const std::bad_alloc&) { g_armed = false; bad = true; }
            if (bad && !model::finite(b.desc)) bad = true;
            if (bad || !model::finite(x.desc())) { x.copy_assign(y); x.set_descriptor(D_NEG); }
            break;
        }
        default: for (int q = 0; q < 6; ++q) extra = mixh(extra, x.cmp(y, q)); bool s; for (char ch : x.print(10, &s) + y.print(16, &s)) extra = mixh(extra, (unsigned char)ch);
    }
}
static void live_sequences(Ctx& c, const Api* A, const model::Val& a, const model::Val& b, size_t depth, size_t first) {
    const std::vector<Step> al = steps();
    if (first >= al.size()) return;
    std::vector<size_t> idx(depth, 0); idx[0] = first;
    for (;;) {
        if (c.begin()) {
            ++c.states;
            Num o[2] = {{A, a.desc, a.d}, {A, b.desc, b.d}};
            for (size_t k = 0; k < depth; ++k) {
                const Step& st = al[idx[k]];
                const model::Val va = read(o[0]), vb = read(o[1]);
                u64 e1 = 0, e2 = 0;
                do_step(A, st, o, e1);
                ++c.transitions; ++c.states;
                if (k == 0) continue;           // the first step is on fresh operands anyway
                const bool was = c.logging; c.logging = false;
                Num f[2] = {{A, va.desc, va.d}, {A, vb.desc, vb.d}};
                if (st.kind != 15) do_step(A, st, f, e2);
                c.logging = was;
                ++c.transitions;
                if (st.kind == 15) continue;    // how much a failing step achieves depends on spare capacity
                ++c.traces;
                const model::Val l0 = read(o[0]), l1 = read(o[1]), f0 = read(f[0]), f1 = read(f[1]);
                if (e1 != e2 || l0.desc != f0.desc || l0.d != f0.d || l1.desc != f1.desc || l1.d != f1.d) {
                    std::string path; for (size_t q = 0; q <= k; ++q) path += " " + std::to_string(al[idx[q]].kind) + ":" + std::to_string(al[idx[q]].i) + std::to_string(al[idx[q]].j);
                    c.fail(std::string(A->name) + ": steps" + path + " from " + text(a) + ", " + text(b) + ": the last step on objects with a history gave " + text(l0) + ", " + text(l1) + "; on fresh objects with the same content " + text(va) + ", " + text(vb) + " it gives " + text(f0) + ", " + text(f1) + (e1 != e2 ? " (comparisons, text or temporaries differ)" : ""));
                }
            }
            c.outcome(form_hash(o[0]));
        }
        size_t k = depth - 1;
        while (k > 0 && ++idx[k] == al.size()) idx[k--] = 0;
        if (k == 0) break;
    }
}
static void make(std::vector<Job>& jobs, bool thorough) {
    auto full = std::make_shared<Table>(), core = std::make_shared<Table>();
    for (const Api* A : all_apis()) { for (const Probe& p : probes_of(A, 1)) full->p.push_back(p); if (A->base <= 10 || A->base == 256 || A->base > 65536) for (const Probe& p : probes_of(A, 0)) core->p.push_back(p); }
    for (long n = 1; n <= (thorough ? 4096 : 1024); n *= 2) { full->p.push_back({nullptr, K_TRANSFORM, 0, {}, {}, n}); if (n <= 64) core->p.push_back({nullptr, K_TRANSFORM, 0, {}, {}, n}); }
    for (const Api* A : all_apis()) for (size_t n : thorough ? std::vector<size_t>{256, 700, 2100} : std::vector<size_t>{256, 513}) { const Forms f = patterns(A->base, n, 0); full->p.push_back({A, K_BINARY, MUL, val(D_POS, f[0]), val(D_NEG, A->base <= 256 ? f[1] : Digits(3, 2)), 0}); }
    fill_refs(*full); fill_refs(*core);
    const size_t N = full->p.size();
    const size_t S = thorough ? 64 : 32;
    for (size_t s = 0; s < S; ++s)
        jobs.push_back({"every probe after every computation " + std::to_string(s), [=](Ctx& c) {
            for (size_t i = s; i < N; i += S) for (size_t j = 0; j < N; ++j) {
                // the large ones are not combined with each other in the quick tier
                if (!thorough && full->p[i].a.d.size() > 200 && full->p[j].a.d.size() > 200 && full->p[i].A != full->p[j].A) continue;
                if (!thorough && (full->p[i].a.d.size() > 200 || full->p[i].k > 500) && j % 8) continue;
                if (!thorough && (full->p[j].a.d.size() > 200 || full->p[j].k > 500) && i % 8) continue;
                if (!thorough && j % 3 != i % 3 && full->p[i].A != full->p[j].A) continue;
                c.begin_dependent();
                ++c.states;
                guarded(full->p[i]);
                judge(c, *full, j, text(full->p[i]));
                c.transitions += 2; ++c.traces;
            }
        }});
    // one small computation over and over again: a counter must not show
    const size_t R = thorough ? size_t(1) << 18 : size_t(1) << 16;
    for (const Api* A : all_apis()) for (int part = 0; part < 2; ++part)
        jobs.push_back({std::string(A->name) + " repetitions " + std::to_string(part), [=](Ctx& c) {
            int k = 0;
            for (size_t i = 0; i < N; ++i) {
                const Probe& p = full->p[i];
                if (p.A != A || p.kind == K_FAILING || p.kind == K_INDEX || p.a.d.size() > 17 || p.b.d.size() > 17 || k++ % 2 != part) continue;
                const size_t d = p.a.d.size() + p.b.d.size(), reps = d > 24 ? R / 16 : d > 9 ? R / 4 : R;
                c.begin_dependent();
                ++c.states;
                const bool was = c.logging; 
                for (size_t r = 0; r < reps; ++r) { if (r == 2) c.logging = false; judge(c, *full, i, std::to_string(r) + " repetitions of it"); }
                c.logging = was;
                c.transitions += reps; c.traces += reps;
            }
        }});
    for (int part = 0; part < 8; ++part)
        jobs.push_back({"repeated transforms " + std::to_string(part), [=](Ctx& c) {
            int k = 0;
            for (size_t i = 0; i < N; ++i) {
                const Probe& p = full->p[i];
                if (p.kind != K_TRANSFORM || p.k > 256 || k++ % 8 != part) continue;
                c.begin_dependent();
                ++c.states;
                const size_t reps = p.k > 16 ? R / 16 : R / 2;
                for (size_t r = 0; r < reps; ++r) judge(c, *full, i, std::to_string(r) + " repetitions of it");
                c.transitions += reps; c.traces += reps;
            }
        }});
    // large computations, one after the other and before the small ones
    auto big = std::make_shared<Table>();
    for (const Api* A : all_apis()) {
        if (A->base != 10 && A->base != 2 && A->base != 256 && A->base != 65536) continue;
        if (A->custom) continue;
        for (size_t n : {600, 1100, 2100, 4300, 9000, 17000}) {
            if (n > 4300 && (A->base > 10 || (n > 9000 && !thorough))) continue;
            if (A->base > 256 && n > 1100) continue;
            const Forms f = patterns(A->base, n, 0), g = patterns(A->base, n - n / 3, 0);
            big->p.push_back({A, K_BINARY, MUL, val(D_POS, f[1]), val(D_NEG, g[2]), 0});
            if (n < 3000) { big->p.push_back({A, K_BINARY, MUL, val(D_NEG, f[3]), val(D_NEG, Digits(n / 2, 1)), 0}); big->p.push_back({A, K_BINARY, ADD, val(D_POS, f[0]), val(D_POS, g[0]), 0}); big->p.push_back({A, K_BINARY, SUB, val(D_NEG, g[1]), val(D_NEG, f[2]), 0}); }
            if (n == 600) { Digits q = f[2]; q.resize(n - 3); big->p.push_back({A, K_BINARY, DIV, val(D_POS, f[0]), val(D_NEG, q), 0}); big->p.push_back({A, K_BINARY, DIV, val(D_POS, f[0]), val(D_NEG, g[0]), 0}); if (A->base > 2) big->p.pop_back(); }
        }
    }
    for (long n : {2048, 8192, 32768}) big->p.push_back({nullptr, K_TRANSFORM, 0, {}, {}, n});
    fill_refs(*big);
    for (size_t i = 0; i < big->p.size(); ++i)
        jobs.push_back({"after the large computation " + std::to_string(i), [=](Ctx& c) {
            for (size_t j = 0; j < big->p.size(); ++j) {
                c.begin_dependent();
                ++c.states;
                guarded(big->p[i]);
                judge(c, *big, j, text(big->p[i]));
                c.transitions += 2; ++c.traces;
                for (size_t l = j % 16; l < full->p.size(); l += thorough ? 16 : 64) {
                    if (full->p[l].a.d.size() > 200) continue;
                    c.begin_dependent();
                    ++c.states; ++c.transitions; ++c.traces;
                    judge(c, *full, l, text(big->p[i]) + " and " + text(big->p[j]));
                }
            }
        }});
    // two computations before the probe
    const size_t K = core->p.size(), W = 64;
    for (size_t s = 0; s < W; ++s)
        jobs.push_back({"every probe after two computations " + std::to_string(s), [=](Ctx& c) {
            const size_t step = thorough ? 1 : 7;
            for (size_t i = s; i < K; i += W) for (size_t j = 0; j < K; j += step) for (size_t l = (i + j) % step; l < K; l += step) {
                c.begin_dependent();
                c.states += 2;
                guarded(core->p[i]); guarded(core->p[j]);
                judge(c, *core, l, text(core->p[i]) + " and " + text(core->p[j]));
                c.transitions += 3; ++c.traces;
            }
        }});
    for (const Api* A : all_apis()) {
        const u64 B = A->base;
        const std::vector<std::pair<model::Val, model::Val>> starts = {{val(D_NEG, {B - 1, 0, 1}), val(D_POS, {})}, {val(D_POS, {B - 1, B - 1}), val(D_NEG, {0, 1})}, {val(D_POS, Digits(12, B - 1)), val(D_NEG, {1, 1, 1})}};
        for (size_t f = 0; f < steps().size(); ++f)
            jobs.push_back({std::string(A->name) + " live objects " + std::to_string(f), [=](Ctx& c) {
                for (size_t k = 0; k < starts.size(); ++k) if (thorough || k != 1 + B % 2) live_sequences(c, A, starts[k].first, starts[k].second, thorough ? 4 : 3, f);
            }});
    }
}
int main(int argc, char** argv) {
    return check_main(argc, argv, make, {
        "Reference outcomes of a fixed family of computations (all operators and forms, comparison, streaming, copy/move, rejected indexing, failing allocations, transforms; 12 types, sizes 0 to 513 or 2100 digits) are recorded by processes that did nothing else before. Explored: ordered (computation, probe) pairs and ordered (computation, computation, probe) triples in long-lived processes, all of them in the thorough tier; in the quick tier all pairs of the same type and every third pair of different types, and one in 49 triples. All ordered pairs of large computations (600 to 9000 or 17000 digits, transforms up to 32768), followed by small probes. Every computation on up to 17 digits repeated 2^16 times (thorough: 2^18; products of long operands and transforms fewer) in one process, each repetition judged. In addition every sequence of 37 steps on two live objects up to depth 3 or 4 per type, each step repeated on freshly built objects with the same stored form. Failing allocations serve as history and are not judged as probes. states = process or object states reached before a probe, transitions = computations (the repetitions on fresh objects included), traces = comparisons with a reference.",
        {"outcomes are compared with the library itself, so a wrong but history-independent result is not reported here", "g++ -O2"}, true});
}
