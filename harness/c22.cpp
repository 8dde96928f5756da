#include <ctime>
#include <deque>
#include <cmath>
#include "arith.hpp"
#include "bignum/bignum.h"
// The magnitude routines of the public headers, on digit containers directly.
template <class C> static C make_c(const Digits& d) { C c; for (u64 v : d) c.push_back(static_cast<typename C::value_type>(v)); return c; }
template <class C> static Digits back(const C& c) { Digits d(c.size()); for (size_t i = 0; i < d.size(); ++i) d[i] = static_cast<u64>(c[i]); return d; }
template <class L> struct Max { static u64 v() { return L::SINGLE_BASE_MAX; } };
enum { F_CMP = 1, F_ADD = 2, F_SUB = 4, F_MUL = 8, F_DIV = 16 };
static double dbits(u64 base) { return std::log2(double(base)); }

template <class L, class C> struct Under {
    static void run(Ctx& c, const char* kind, const Digits& a, const Digits& b, int what) {
        if (!c.begin()) return;
        ++c.states;
        const u64 base = Max<L>::v() + 1, M = base - 1;
        static Digits want, t;
        if (c.logging) c.log(std::string("// magnitudes on ") + kind + ": " + digits_text(a) + " and " + digits_text(b));
        auto fail = [&](const std::string& w, const Digits& got) { c.fail(std::string(kind) + ": " + w + " of " + digits_text(a) + " and " + digits_text(b) + " gave " + digits_text(got) + ", expected the value of " + digits_text(want)); };
        auto value = [&](const char* w, const Digits& got) {
            ++c.transitions;
            if (model::cmp_abs(got, want)) fail(w, got);
            for (u64 d : got) if (d > M) fail(std::string(w) + " (a digit reaches the base)", got);
            c.outcome(model::hash(val(0, got)));
        };
        auto trimmed = [&](const char* w, const Digits& got) { if (!got.empty() && !got.back()) fail(std::string(w) + " (leading zero digit)", got); };
        const C x = make_c<C>(a), y = make_c<C>(b);
        auto same = [&](const char* w) { if (back(x) != a || back(y) != b) c.fail(std::string(kind) + ": " + w + " changed an operand of " + digits_text(a) + " and " + digits_text(b)); };
        const int o = model::cmp_abs(a, b);
        if (what & F_CMP) {
            const bool got[5] = {abs_val_is_eq<C>(x, y), abs_val_is_gt<C>(x, y), abs_val_is_ge<C>(x, y), abs_val_is_lt<C>(x, y), abs_val_is_le<C>(x, y)};
            const bool exp[5] = {o == 0, o > 0, o >= 0, o < 0, o <= 0};
            static const char* nm[5] = {"abs_val_is_eq", "abs_val_is_gt", "abs_val_is_ge", "abs_val_is_lt", "abs_val_is_le"};
            for (int k = 0; k < 5; ++k) if (got[k] != exp[k]) c.fail(std::string(kind) + ": " + nm[k] + " of " + digits_text(a) + " and " + digits_text(b) + " is " + (got[k] ? "true" : "false"));
            c.transitions += 5; c.outcome(u64(o + 1)); same("a comparison");
        }
        if (what & F_ADD) {
            model::add_abs(want, a, b, base);
            { C r = x; abs_val_add<L, C>(r, y); value("abs_val_add", back(r)); }
            { C r = y; abs_val_add<L, C>(r, x); value("abs_val_add (swapped)", back(r)); }
            if (a == b) { C r = x; abs_val_add<L, C>(r, r); value("abs_val_add (same object)", back(r)); }
            same("abs_val_add");
        }
        if (what & F_SUB) {
            const C &hi = o >= 0 ? x : y, &lo = o >= 0 ? y : x;
            if (o >= 0) model::sub_abs(want, a, b, base); else model::sub_abs(want, b, a, base);
            { C r = hi; abs_val_sub<L, C>(r, lo); t = back(r); value("abs_val_sub", t); trimmed("abs_val_sub", t); }
            if (a == b) { C r = x; abs_val_sub<L, C>(r, r); t = back(r); value("abs_val_sub (same object)", t); }
            same("abs_val_sub");
        }
        if (what & F_MUL) {
            model::mul_abs(want, a, b, base);
            t = back(mul_naive<L, C>(x, y)); value("mul_naive", t); trimmed("mul_naive", t);
            t = back(mul_naive<L, C>(y, x)); value("mul_naive (swapped)", t);
            if (double(M) * double(M) * double(std::max(a.size(), b.size())) <= double(1ull << 40)) {
                t = back(mul_strassen<L, C>(x, y)); value("mul_strassen", t); trimmed("mul_strassen", t);
                t = back(mul_strassen<L, C>(y, x)); value("mul_strassen (swapped)", t);
                if (a == b) { t = back(mul_strassen<L, C>(x, x)); value("mul_strassen (same object)", t); }
            }
            if (a == b) { t = back(mul_naive<L, C>(x, x)); value("mul_naive (same object)", t); }
            same("a multiplication");
        }
        if ((what & F_DIV) && !model::zero(b)) {
            C r = x; abs_val_div<L, C>(r, y);
            model::Val q = val(D_POS, back(r)), va = val(D_POS, a), vb = val(D_POS, b);
            ++c.transitions;
            if (!model::is_quotient(q, va, vb, base)) { model::Val w; model::div_signed(w, va, vb, base); want = w.d; fail("abs_val_div", q.d); }
            c.outcome(model::hash(q)); same("abs_val_div");
        }
        ++c.traces;
    }
};
template <class L, class C> static void add_type(std::vector<Job>& jobs, const char* kind, bool thorough, bool vec) {
    const u64 base = u64(L::SINGLE_BASE_MAX) + 1;
    const double bits = dbits(base);
    typedef Under<L, C> U;
    auto cheap = [bits](size_t n, size_t m, double lim) { return (double(n) - double(m) + 1) * bits <= lim ? F_DIV : 0; };
    const FormsPtr s = share(short_forms(base, thorough ? (vec ? 1500 : 500) : vec ? 420 : 150));
    for (size_t k = 0; k < 4; ++k)
        jobs.push_back({std::string(kind) + " all short operands " + std::to_string(k), [=](Ctx& c) {
            for (size_t i = k; i < s->size(); i += 4) for (const Digits& b : *s) U::run(c, kind, (*s)[i], b, 31);
        }});
    const size_t L1 = thorough ? 72 : 40;
    for (size_t n = 1; n <= L1; ++n)
        jobs.push_back({std::string(kind) + " length pairs, length " + std::to_string(n), [=](Ctx& c) {
            int k = 0;
            for (const Digits& x : patterns(base, n, 1)) for (size_t m = 0; m <= L1; ++m) for (const Digits& y : patterns(base, m, vec ? 1 : 0)) {
                ++k;
                U::run(c, kind, x, y, 7 | (k % (thorough ? 2 : 5) == 0 ? F_MUL : 0) | (k % 4 == 0 ? cheap(model::len(x), model::len(y), thorough ? 400 : 70) : 0));
            }
        }});
    for (size_t n : {4096, 10000, 32768, 65535, 65536, 65537, 131072, 131073}) {
        if (!vec && n > 70000) continue;
        jobs.push_back({std::string(kind) + " very long, length " + std::to_string(n), [=](Ctx& c) {
            const u64 M = base - 1;
            const Digits full(n, M); Digits low(n, 0); low[n - 1] = 1;
            Digits x(n); for (size_t i = 0; i < n; ++i) x[i] = (i * 11 + i / 7 + 3) % base;
            x[n - 1] = M;
            // a quadratic division is not a hang: try an eighth of the length first
            int div = F_DIV;
            if (n > 20000) { C h = make_c<C>(Digits(x.begin() + (n - n / 8), x.end())); const C g2 = h; const clock_t t0 = clock(); abs_val_div<L, C>(h, g2); if (double(clock() - t0) / CLOCKS_PER_SEC * 64 > 6) { ++c.capped; div = 0; } }
            U::run(c, kind, full, {1}, 7); U::run(c, kind, {1}, full, 7); U::run(c, kind, low, {1}, 7); U::run(c, kind, x, x, 7 | div); U::run(c, kind, x, full, 7);
            for (size_t p : {size_t(0), n / 2, n - 1}) { Digits y = x; y[p] = (y[p] + 1) % base; U::run(c, kind, x, y, 7); y.resize(n + 300, 0); U::run(c, kind, y, x, 7); }
            U::run(c, kind, x, {M}, F_MUL); U::run(c, kind, {0, M}, x, F_MUL);
        }});
    }
    for (size_t n : {60, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 700, 1023, 1024, 1025, 2047, 2048, 2049, 3000}) {
        if (!vec && n > 300) continue;
        jobs.push_back({std::string(kind) + " long, length " + std::to_string(n), [=](Ctx& c) {
            int k = 0;
            for (const Digits& x : patterns(base, n, n > 1000 ? 0 : 1)) for (size_t m : {size_t(1), size_t(2), size_t(17), n / 2, n - 1, n, n + 1, 2 * n}) for (const Digits& y : patterns(base, m, 0)) {
                ++k;
                U::run(c, kind, x, y, 7);
                if (k % (n > 1100 ? 23 : n > 300 ? 11 : 5) == 0 || (thorough && k % 3 == 0)) U::run(c, kind, x, y, F_MUL);
                if (k % 3 == 0) { const int d = cheap(model::len(x), model::len(y), thorough ? 200 : 40); if (d) U::run(c, kind, x, y, d); }
            }
            // the operands meet behind leading zeroes of both
            for (const Digits& x : patterns(base, n, 0)) for (size_t p : {size_t(0), n / 2, n - 1}) for (size_t la : {0, 1, 9}) for (size_t lb : {0, 2, 40}) {
                Digits a = x, b = x; b[p] = (b[p] + 1) % base; a.resize(n + la, 0); b.resize(n + lb, 0);
                U::run(c, kind, a, b, 7); U::run(c, kind, b, a, 7);
            }
            if (n <= 300) for (size_t p = 0; p < n; ++p) for (const Digits& x : position_forms(base, n, p)) { U::run(c, kind, x, {1}, 7); U::run(c, kind, Digits(n, base - 1), x, 7); }
        }});
    }
}
static void make(std::vector<Job>& jobs, bool thorough) {
#define T(L, S) add_type<L, std::vector<S>>(jobs, #L " vector", thorough, true); add_type<L, std::deque<S>>(jobs, #L " deque", thorough, false)
    T(bn_limits_base2, bn_base2_single); T(bn_limits_base8, bn_base8_single); T(bn_limits_base10, bn_base10_single); T(bn_limits_base16, bn_base16_single);
    T(bn_limits_lowp, BN_UINT8); T(bn_limits_medp, BN_UINT16); T(bn_limits_highp, BN_UINT32);
}
int main(int argc, char** argv) {
    return check_main(argc, argv, make, {
        "Direct exploration of abs_val_is_eq/gt/ge/lt/le, abs_val_add, abs_val_sub, abs_val_div, mul_naive and mul_strassen on plain digit containers (vector and deque) of the seven predefined digit systems. Exhaustive over: every pair of short digit sequences (leading zero digits and the empty sequence included) under every routine; every pair of lengths up to 40 (thorough: 72) with structured digits, leading zeroes included (comparisons, sums and differences always; products and short quotients on fixed fractions); listed lengths up to 3000 (deque: 300) against eight other lengths, operands that agree except at one position behind different numbers of leading zeroes, and every position of a carry or borrow at lengths up to 300; carries, borrows, cancellations, one-digit products at lengths up to 131073. Each result is compared with the reference arithmetic; differences and products must not have a leading zero digit; operands passed as constants must be unchanged; add, subtract and multiply also with both operands the same object. states = operand pairs, transitions = calls, traces = pairs on which every routine agreed.",
        {"abs_val_sub is called with the operand of larger or equal magnitude first, abs_val_div with a non-zero divisor that is another object", "mul_strassen is called while the longer operand's length times the square of the largest digit is at most 2^40", "g++ -O2"}});
}
