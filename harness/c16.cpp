#include <cmath>
#include <cstdlib>
#include <new>
#include <unistd.h>
#include <sstream>
#include "sets.hpp"
#include "bignum/bignum.h"
#include "bignum/fourier.h"
// Built with -fsanitize=address,undefined. Blocks are counted here, because the
// leak checker of the sanitizer needs ptrace.
static long g_live = 0;
static void* grab(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++g_live; return p; }
static void drop(void* p) { if (p) { --g_live; free(p); } }
void* operator new(size_t n) { return grab(n); }
void* operator new[](size_t n) { return grab(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return grab(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return grab(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { drop(p); }
void operator delete[](void* p) noexcept { drop(p); }
void operator delete(void* p, size_t) noexcept { drop(p); }
void operator delete[](void* p, size_t) noexcept { drop(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { drop(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { drop(p); }

// Runs a script; if it leaves more blocks behind than before, again and again:
// a leak grows every time, a cache does not.
template <class F> static void leak_checked(Ctx& c, const std::string& name, F f) {
    long before = g_live;
    f();
    if (g_live <= before) return;
    const bool was = c.logging; c.logging = false;
    for (int i = 0; i < 4; ++i) { before = g_live; f(); if (g_live <= before) { c.logging = was; return; } }
    c.fail(name + " leaks " + std::to_string(g_live - before) + " block(s) each time");
}
// Looks at a result, so that a value nobody ever set is noticed by memcheck.
static volatile int g_seen;
static void seen(Ctx& c, u64 h) { if (h == 0x5eed) g_seen = 1; c.outcome(h); }
static double dbits(u64 base) { return std::log2(double(base)); }
static bool cheap(const Api* A, const model::Val& a, const model::Val& b, double limit) {
    return !model::finite(a.desc) || !model::finite(b.desc) || model::zero(b.d) || (double(model::len(a.d)) - double(model::len(b.d)) + 1) * dbits(A->base) <= limit;
}
static void all_ops(Ctx& c, const Api* A, const model::Val& a, const model::Val& b, double limit) {
    if (!c.begin()) return;
    ++c.states;
    leak_checked(c, std::string(A->name) + ": operations on " + text(a) + " and " + text(b), [&] {
        for (int op = 0; op < 4; ++op) {
            if (op == DIV && !cheap(A, a, b, limit)) continue;
            Num x(A, a.desc, a.d), y(A, b.desc, b.d);
            Num r(x, y, op); Num s(y, y, op); Num t(Num::Copy(), r);
            x.op_assign(y, op); seen(c, model::hash(read(x)));
            y.op_assign(y, op); seen(c, model::hash(read(y)));
            x.op_assign(x, op == DIV ? ADD : op);
            if (x.size() != x.digits().size()) c.fail("size() differs from the number of digits");
            c.transitions += 6; c.states += 5; seen(c, model::hash(read(r)));
        }
        Num x(A, a.desc, a.d), y(A, b.desc, b.d);
        unsigned m = 0;
        for (int q = 0; q < 6; ++q) { m = m * 2 + x.cmp(y, q); m = m * 2 + x.cmp(x, q); }
        x.swap(y); x.copy_assign(y); x.copy_assign(x); x.move_assign(y); y.copy_assign(x);
        c.transitions += 17; seen(c, m);
    });
    ++c.traces;
}
static void one_value(Ctx& c, const Api* A, const model::Val& a) {
    if (!c.begin()) return;
    ++c.states;
    leak_checked(c, std::string(A->name) + ": operations on " + text(a), [&] {
        const u64 M = A->base - 1;
        const size_t n = a.d.size();
        Num x(A, a.desc, a.d);
        for (int b : {10, 16, 8}) { bool same; seen(c, x.print(b, &same).size()); }
        for (size_t i = 0; i < n && i < 40; ++i) { x.at_const(i); x.at_mut(i); x.at_set(i, M); }
        Num cp(Num::Copy(), x); Num mv(Num::Move(), x);
        x.copy_assign(mv); A->is_pos(x.buf()); A->is_neg(x.buf()); A->is_inf(x.buf()); A->is_nan(x.buf()); A->is_computable(a.desc);
        if (model::finite(a.desc)) {
            for (size_t i = 0; i <= n && i < 20; ++i) { Num p(Num::Copy(), mv); p.push(M, i); p.push(0, n - i); if (i < n) p.pop(i); p.pop(0); }
            Num p(Num::Copy(), mv); p.push_front(M); p.push_back(M); p.push_front(0); p.push_back(0); p.pop_front(); p.pop_back(); p.pop_back(); p.pop_front();
            while (p.size()) p.pop_front();
            p.push_back(M); p.push_front(M); p.pop_back(); p.pop_back(); p.push_back(1);
            p.copy_assign(mv); while (p.size()) p.pop_back();
            p.push_front(M); p.op_assign(p, MUL);
            for (size_t m : {size_t(0), n / 2, n, n + 1, 2 * n + 3}) { Num q(Num::Copy(), mv); q.resize(m, M); q.resize0(m + 1); q.resize0(m); q.op_assign(q, ADD); }
        }
        for (int d = 0; d < 5; ++d) { Num p(Num::Copy(), mv); p.set_descriptor(d); p.op_assign(mv, ADD); p.set_descriptor(D_NEG); p.set_descriptor(D_POS); p.clear(); p.op_assign(p, SUB); }
        Num cl(Num::Copy(), mv); cl.clear(); cl.clear(); cl.op_assign(mv, SUB); 
        c.transitions += 60;
    });
    ++c.traces;
}
// All sequences of steps on two live objects; objects keep their storage.
struct Step { int kind, i, j; };
static std::vector<Step> alphabet_of_steps() {
    std::vector<Step> al;
    for (int i = 0; i < 2; ++i) {
        for (int op = 0; op < 4; ++op) for (int j = 0; j < 2; ++j) al.push_back({op, i, j});
        al.push_back({4, i, 1 - i}); al.push_back({5, i, 1 - i});
        for (int k = 6; k <= 16; ++k) al.push_back({k, i, i});
    }
    al.push_back({17, 0, 1});
    return al;
}
static void sequences(Ctx& c, const Api* A, const model::Val& a, const model::Val& b, size_t depth, size_t first) {
    const std::vector<Step> al = alphabet_of_steps();
    const u64 M = A->base - 1;
    if (first >= al.size()) return;
    std::vector<size_t> idx(depth, 0); idx[0] = first;
    model::Val s, t;
    for (;;) {
        if (c.begin()) {
            ++c.states;
            leak_checked(c, std::string(A->name) + ": a sequence of operations", [&] {
                Num o[2] = {{A, a.desc, a.d}, {A, b.desc, b.d}};
                for (size_t k : idx) {
                    const Step& st = al[k];
                    Num& x = o[st.i]; Num& y = o[st.j];
                    const bool fin = model::finite(x.desc());
                    switch (st.kind) {
                        case 0: case 1: x.op_assign(y, st.kind); break;
                        case 2: if (x.size() + y.size() <= 48) x.op_assign(y, MUL); break;
                        case 3: read(x, s); read(y, t); if (cheap(A, s, t, 200)) x.op_assign(y, DIV); break;
                        case 4: x.copy_assign(y); break;
                        case 5: x.move_assign(y); break;
                        case 6: if (fin) x.push_back(M); break;
                        case 7: if (fin) x.push_back(0); break;
                        case 8: if (fin) x.push_front(M); break;
                        case 9: if (fin && x.size()) x.pop_back(); break;
                        case 10: if (fin && x.size()) x.pop_front(); break;
                        case 11: if (fin) x.resize(x.size() + 9, M); break;
                        case 12: x.clear(); break;
                        case 13: x.set_descriptor(D_NINF); break;
                        case 14: x.set_descriptor(x.desc() == D_NEG ? D_POS : D_NEG); break;
                        case 15: { Num m(Num::Move(), x); seen(c, m.size()); m.push_back(1); break; }
                        case 16: if (fin && x.size()) x.at_set(x.size() - 1, x.at_const(0)); break;
                        default: { unsigned m = 0; for (int q = 0; q < 6; ++q) m = m * 2 + x.cmp(y, q); bool same; seen(c, m + x.print(10, &same).size() * 64); break; }
                    }
                    ++c.transitions; ++c.states;
                }
                seen(c, model::hash(read(o[0])));
            });
            ++c.traces;
        }
        size_t k = depth - 1;
        while (k > 0 && ++idx[k] == al.size()) idx[k--] = 0;
        if (k == 0) break;
    }
}
static void huge(Ctx& c, const Api* A, size_t n, int part) {
    const u64 M = A->base - 1;
    const Digits nines(n, M), zeroes(n, 0);
    Digits pow = zeroes; pow.push_back(1);
    auto step = [&](const char* what, const std::function<void()>& f) {
        if (!c.begin()) return;
        ++c.states;
        leak_checked(c, std::string(A->name) + ": " + what + " of " + std::to_string(n) + " digits", f);
        ++c.transitions; ++c.traces;
    };
    if (part == 0) {
        step("a carry through all digits", [&] { Num x(A, D_POS, nines), y(A, D_POS, {1}); x.op_assign(y, ADD); seen(c, x.size()); });
        step("a borrow through all digits", [&] { Num x(A, D_POS, pow), y(A, D_POS, {1}); x.op_assign(y, SUB); seen(c, x.size()); });
        step("adding and subtracting", [&] { Num x(A, D_POS, nines), y(A, D_NEG, pow); Num r(x, y, ADD), s(y, x, SUB); seen(c, r.size() + s.size()); });
        step("cancelling all digits", [&] { Num x(A, D_POS, nines), y(A, D_NEG, nines); Num r(x, y, ADD); x.op_assign(x, SUB); seen(c, r.size() + x.size()); });
        step("cancelling all digits but one", [&] { Digits d = nines; d[0] = 0; Num x(A, D_POS, nines), y(A, D_POS, d); x.op_assign(y, SUB); seen(c, x.size()); });
    } else if (part == 1) {
        step("adding leading zeroes", [&] { Digits z = zeroes; z[0] = 1; Num x(A, D_NEG, z), y(A, D_POS, {M}); Num r(x, y, ADD), s(x, x, SUB), t(y, x, SUB); x.op_assign(y, ADD); seen(c, r.size() + s.size() + t.size() + x.size()); });
        step("comparing", [&] { Digits z = zeroes; z[0] = 1; unsigned m = 0; const Digits* f[4] = {&nines, &zeroes, &pow, &z};
            for (auto* a : f) for (auto* b : f) { Num x(A, D_POS, *a), y(A, (b == &z) ? D_NEG : D_POS, *b); for (int q = 0; q < 6; ++q) m = m * 2 + x.cmp(y, q); } seen(c, m); });
        step("streaming", [&] { Num x(A, D_NEG, nines), z(A, D_NEG, zeroes); bool same; seen(c, x.print(10, &same).size() + z.print(16, &same).size()); });
    } else if (part == 2) {
        step("copying, moving, swapping", [&] { Num x(A, D_NEG, nines), y(A, D_POS, {1}); Num a(Num::Copy(), x); y.copy_assign(a); a.move_assign(y); a.swap(x); Num m(Num::Move(), a); x.set_descriptor(D_NAN); seen(c, m.size() + x.size()); });
        step("edits", [&] { Num x(A, D_NEG, nines); x.push_back(1); x.push_front(0); x.push(M, n / 2); x.pop(n / 2); x.pop_front(); x.resize(2 * n, M); x.resize0(n); x.pop_back(); x.clear(); seen(c, x.size()); });
    } else {
        step("multiplying by nothing and by one", [&] { Num x(A, D_NEG, nines), z(A, D_POS, {}), z0(A, D_POS, {0}), i(A, D_NINF, {}); Num r(x, z, MUL), s(z0, x, MUL), t(x, i, MUL); x.op_assign(z, MUL); seen(c, r.size() + s.size() + t.size() + x.size()); });
        step("dividing into nothing, into one and by zero", [&] { Num x(A, D_NEG, nines), y(A, D_POS, pow), z(A, D_POS, {}), z0(A, D_POS, zeroes); Num r(x, y, DIV), s(z, x, DIV), t(x, z0, DIV), u(x, x, DIV); x.op_assign(x, DIV); seen(c, r.size() + s.size() + t.size() + u.size() + x.size()); });
    }
}
template <class U, unsigned ID> static void wrapper_ops(Ctx& c, const char* name) {
    typedef BNIntType<U, ID> W;
    std::vector<u64> v; const u64 max = u64(U(-1));
    for (u64 x : alphabet(sizeof(U) == 8 ? 1ull << 62 : max + 1, 3)) v.push_back(x);
    v.push_back(max);
    for (u64 x : v) for (u64 y : v) {
        if (!c.begin()) continue;
        ++c.states;
        if (c.logging) c.log(std::string("// ") + name + ": every operator on " + std::to_string(x) + " and " + std::to_string(y));
        W a = W(U(x)), b = W(U(y)), r = a; u64 h = 0;
        auto use = [&](W w) { h = h * 31 + u64(w); };
        use(a + b); use(a - b); use(a * b); use(a & b); use(a | b); use(a ^ b); use(~a);
        use(a + U(y)); use(a - U(y)); use(a * U(y)); use(U(x) + b); use(U(x) - b); use(U(x) * b);
        if (y) { use(a / b); use(a % b); use(a / U(y)); use(U(x) % b); r = a; r /= b; use(r); r = a; r %= b; use(r); }
        const U sh = U(y % (8 * sizeof(U)));
        // shifting into the sign of a promoted operand is the caller's business for narrow types
        if (sizeof(U) >= 4) { use(a << W(sh)); r = a; r <<= W(sh); use(r); }
        use(a >> W(sh)); r = a; r >>= W(sh); use(r);
        r = a; r += b; use(r); r = a; r -= b; use(r); r = a; r *= b; use(r); r = a; r &= b; r |= a; r ^= b; use(r);
        r = a; use(r++); use(++r); use(r--); use(--r);
        h += (a == b) + 2 * (a != b) + 4 * (a < b) + 8 * (a > b) + 16 * (a <= b) + 32 * (a >= b) + 64 * !a;
        { std::ostringstream o; o << a; std::istringstream i(o.str()); W z = W(U(0)); i >> z; use(z); }
        c.transitions += 40; ++c.traces; seen(c, h);
    }
}
// The same operations in a build without optimisation or sanitizers, run by
// valgrind: a decision that depends on a value nobody ever set ends the run.
static const char* g_memcheck = nullptr;
static const size_t MEMCHECK_PARTS = 4;
static void memcheck_cases(Ctx& c, const Api* A, size_t part, bool thorough, const std::function<void()>& tick) {
    std::vector<model::Val> v;
    for (const Digits& d : short_forms(A->base, thorough ? 260 : 12, 1)) for (int s = 0; s < 2; ++s) v.push_back(val(s, d));
    for (int d : {D_NAN, D_PINF, D_NINF}) v.push_back(val(d, {}));
    for (size_t n : {3, 5, 9, 17, 33}) if (thorough || n != 17) v.push_back(val(int(n & 2) / 2, patterns(A->base, n, 0)[n % 3]));
    for (size_t i = part; i < v.size(); i += MEMCHECK_PARTS) {
        tick(); one_value(c, A, v[i]);
        for (const model::Val& b : v) { tick(); all_ops(c, A, v[i], b, 60); }
    }
}
static void memcheck_transforms(Ctx& c, const std::function<void()>& tick) {
    for (size_t n = 1; n <= 256; n *= 2) {
        tick();
        if (!c.begin()) continue;
        ++c.states;
        cmplx_list_t<double> x(n); for (size_t i = 0; i < n; ++i) x[i] = std::complex<double>(double(i % 10), double((i * 7) % 10));
        fft_complex<double>(x); ifft_complex<double>(x);
        std::vector<uint32_t> a(n / 2 + 1, 9), b(n - n / 2, 9);
        cmplx_list_t<double> t = create_fft_table<std::vector<uint32_t>, double>(a, b); convolute_fft<double>(t); ifft_complex<double>(t);
        u64 h = 0; for (auto& z : x) h += u64(std::llround(z.real())); for (auto& z : t) h += u64(std::llround(std::fabs(z.real())));
        seen(c, h);
    }
}
static int memcheck_child(size_t api, size_t part, bool thorough, long only) {
    Ctx c; c.only = only;
    long i = 0;
    const auto tick = [&] { if (only < 0 || i == only) { ssize_t k = write(1, ".", 1); (void)k; } ++i; };
    if (api == all_apis().size()) memcheck_transforms(c, tick);
    else memcheck_cases(c, all_apis()[api], part, thorough, tick);
    return 0;
}
static void memcheck_job(Ctx& c, size_t api, size_t part, bool thorough) {
    const std::string cmd = std::string("exec valgrind -q --log-fd=1 --exit-on-first-error=yes --error-exitcode=97 --leak-check=no --vgdb=no --undef-value-errors=yes ") + g_memcheck +
        " --memcheck " + std::to_string(api) + " " + std::to_string(part) + " " + (thorough ? "1 " : "0 ") + std::to_string(c.only) + " 2>/dev/null";
    FILE* f = popen(cmd.c_str(), "r");
    std::string log; long n = 0; int ch;
    while (f && (ch = fgetc(f)) != EOF) {
        if (ch != '.' || !log.empty()) { log += char(ch); continue; }
        if (c.only >= 0) c.cases = c.only;
        c.begin(); ++n; ++c.states; c.transitions += 50;
    }
    const int st = f ? pclose(f) : -1;
    if (st == 0) { c.traces += n; return; }
    if (n == 0 && c.only < 0) { ++c.capped; return; }      // valgrind does not run here
    c.log("// case " + std::to_string(c.cases - 1) + " of: " + cmd);
    c.fail((api < all_apis().size() ? std::string(all_apis()[api]->name) : std::string("transforms")) + ": memcheck stops at this case: " + log.substr(0, 1500));
}
static void make(std::vector<Job>& jobs, bool thorough) {
    if (g_memcheck) for (size_t k = 0; k <= all_apis().size(); ++k) for (size_t part = 0; part < (k < all_apis().size() ? MEMCHECK_PARTS : 1); ++part)
        jobs.push_back({std::string(k < all_apis().size() ? all_apis()[k]->name : "transforms") + " memcheck " + std::to_string(part), [=](Ctx& c) { memcheck_job(c, k, part, thorough); }});
    for (const Api* A : all_apis()) {
        auto vals = std::make_shared<std::vector<model::Val>>();
        for (const Digits& d : short_forms(A->base, thorough ? 1200 : A->base == 2 ? 62 : 64, 1)) for (int s = 0; s < 2; ++s) vals->push_back(val(s, d));
        for (int d : {D_NAN, D_PINF, D_NINF}) vals->push_back(val(d, {}));
        const size_t S = thorough ? 16 : 4;
        for (size_t s = 0; s < S; ++s)
            jobs.push_back({std::string(A->name) + " pairs " + std::to_string(s), [=](Ctx& c) {
                for (size_t i = s; i < vals->size(); i += S) { one_value(c, A, (*vals)[i]); for (const model::Val& b : *vals) all_ops(c, A, (*vals)[i], b, 300); }
            }});
        const size_t L = thorough ? 70 : 36;
        for (size_t n = 1; n <= L; ++n)
            jobs.push_back({std::string(A->name) + " lengths " + std::to_string(n), [=](Ctx& c) {
                int k = 0;
                for (const Digits& x : patterns(A->base, n, 1)) {
                    one_value(c, A, val(k & 1, x));
                    for (size_t m = 0; m <= L; m += (m < 20 || thorough) ? 1 : 3) for (const Digits& y : patterns(A->base, m, thorough ? 1 : 0)) {
                        ++k; if (!thorough && (k % 7) && m != n && m + 1 != n && n + 1 != m) continue;
                        all_ops(c, A, val(k & 1, x), val((k >> 1) & 1, y), thorough ? 400 : 60);
                    }
                }
            }});
        for (size_t n : {100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097}) {
            if (!thorough && n > 520 && (n & 3) != 1) continue;
            jobs.push_back({std::string(A->name) + " long numbers " + std::to_string(n), [=](Ctx& c) {
                const Forms f = patterns(A->base, n, 0);
                for (size_t i = 0; i < f.size(); ++i) {
                    if (!thorough && n > 600 && i > 0) break;
                    one_value(c, A, val(D_NEG, f[i]));
                    if (n > 600 && A->base > 65536 && !thorough) continue;
                    for (size_t m : {size_t(1), n - 1, n, n + 1}) {
                        if (!thorough && n > 250 && m != 1 && m != n + (i & 1)) continue;
                        all_ops(c, A, val(D_POS, f[i]), val(D_NEG, patterns(A->base, m, 0)[0]), thorough ? 400 : 60);
                    }
                }
            }});
        }
        if (A->base <= 10) for (size_t n : {20000, 65536}) {
            if (!thorough && (A->base != 10 || n > 20000)) continue;
            jobs.push_back({std::string(A->name) + " very long numbers " + std::to_string(n), [=](Ctx& c) {
                all_ops(c, A, val(D_POS, patterns(A->base, n, 0)[0]), val(D_NEG, patterns(A->base, n, 0)[1]), 60);
            }});
        }
        // operations that are linear in the length, on a number large enough to
        // overflow the stack if they took a frame for every digit
        for (size_t n : thorough ? std::vector<size_t>{200000, 1000000, 4000000} : std::vector<size_t>{300000})
            for (int part = 0; part < 4; ++part)
                jobs.push_back({std::string(A->name) + " huge numbers " + std::to_string(n) + " part " + std::to_string(part), [=](Ctx& c) { huge(c, A, n, part); }});
        const u64 B = A->base;
        const std::vector<std::pair<model::Val, model::Val>> starts = {
            {val(D_NEG, {B - 1, 0, 1}), val(D_POS, {})}, {val(D_POS, {B - 1, B - 1}), val(D_NEG, {0})}, {val(D_POS, {1}), val(D_PINF, {})}};
        const size_t nsteps = alphabet_of_steps().size();
        for (size_t f = 0; f < nsteps; ++f)
            jobs.push_back({std::string(A->name) + " sequences " + std::to_string(f), [=](Ctx& c) {
                for (size_t k = 0; k < starts.size(); ++k) if (thorough || k == 0 || k == 1 + A->base % 2) sequences(c, A, starts[k].first, starts[k].second, thorough ? 4 : 3, f);
            }});
    }
    jobs.push_back({"digit integers", [](Ctx& c) {
        wrapper_ops<BN_UINT8, 16>(c, "BNIntType<8 bit>"); wrapper_ops<BN_UINT16, 256>(c, "BNIntType<16 bit>"); wrapper_ops<BN_UINT32, 10>(c, "BNIntType<32 bit>"); wrapper_ops<BN_UINT64, 10>(c, "BNIntType<64 bit>");
    }});
    jobs.push_back({"transforms", [=](Ctx& c) {
        for (size_t n = 1; n <= size_t(thorough ? 1 << 18 : 1 << 15); n *= 2) {
            if (!c.begin()) continue;
            ++c.states;
            leak_checked(c, "a transform of length " + std::to_string(n), [&] {
                cmplx_list_t<double> x(n); for (size_t i = 0; i < n; ++i) x[i] = std::complex<double>(double(i % 10), double((i * 7) % 10));
                fft_complex<double>(x); ifft_complex<double>(x);
                std::vector<uint32_t> a(n / 2 + 1, 9), b(n - n / 2, 9);
                cmplx_list_t<double> t = create_fft_table<std::vector<uint32_t>, double>(a, b); convolute_fft<double>(t); ifft_complex<double>(t);
                seen(c, u64(std::llround(t[n / 2].real())) + n);
            });
            c.transitions += 5; ++c.traces;
        }
    }});
}
int main(int argc, char** argv) {
    if (argc > 5 && !strcmp(argv[1], "--memcheck")) return memcheck_child(strtoul(argv[2], nullptr, 10), strtoul(argv[3], nullptr, 10), atoi(argv[4]), atol(argv[5]));
    for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--v_memcheck")) g_memcheck = argv[i + 1];
    return check_main(argc, argv, make, {
        "Explored under address and undefined-behaviour sanitizers (including container overflow, checked indexing and float-to-integer conversions), with hang detection and live-block counting: every pair of short stored forms and special values x every operator in compound, binary and aliased form, comparison, copy, move and swap; every single value x every edit, access, stream and descriptor call within range; structured digits for pairs of lengths up to 70 (thorough: all pairs; quick: lengths up to 36, all adjacent lengths, of the others every seventh combination and every third length above 20); long numbers up to 4097 digits (quick: one length in four above 520) and 65536 digits in small bases (quick: 20000 in base 10); every sequence of 39 steps (arithmetic, aliasing, copy, move, edits, resets, descriptor changes) on two live objects of depth 3 (quick, two starting pairs) or 4 (thorough, three starting pairs), per type; every operator of the digit integers over boundary values; transforms of every power-of-two length; addition, subtraction, comparison, streaming, edits, copies and the multiplications and divisions that need no quadratic work on numbers of 300000 digits (thorough: up to 4 million) of every type. states = object states reached (operand pairs, results, the state after each step of a sequence), transitions = calls, traces = scripts completed without a report.",
        {"gcc -O1 with -fsanitize=address,undefined,float-cast-overflow, _GLIBCXX_ASSERTIONS and container annotations", "divisions whose quotient exceeds 400 bits are not run here", "digits are not pushed onto infinities and NaN"}});
}
