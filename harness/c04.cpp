#include <ctime>
#include "arith.hpp"
#include <cmath>
static double bits_of(const Api* A) { return std::log2(double(A->base)); }
// CPU seconds of the slower one of two divisions with a short quotient.
static double division_cost(const Api* A, size_t n) {
    double worst = 0;
    for (const Digits& y : patterns(A->base, n, 0)) for (u64 q : {u64(1), A->base - 1}) {
        if (model::zero(y)) continue;
        model::Val a, b, k, t, one; b.d = y; k.d = {q}; one.d = {1}; model::mul_signed(t, b, k, A->base); model::add_signed(a, t, one, false, A->base);
        alignas(16) unsigned char x[128], z[128];
        A->construct(x); A->construct(z); A->set(x, D_POS, a.d.data(), a.d.size()); A->set(z, D_POS, b.d.data(), b.d.size());
        const clock_t t0 = clock(); A->op_assign(x, z, DIV); worst = std::max(worst, double(clock() - t0) / CLOCKS_PER_SEC);
        A->destroy(x); A->destroy(z);
    }
    return worst;
}
static void make(std::vector<Job>& jobs, bool thorough) {
    for (const Api* A : wide_apis()) {
        const double bits = bits_of(A);
        const FormsPtr s = share(short_forms(A->base, thorough ? 2500 : (bits > 20 ? 150 : 1200)));
        arith_jobs(jobs, "all short operands", A, s, s, thorough ? 48 : 12, DIV);
        if (A->base > 16) {
            Forms one, two;
            append_vectors(one, A->base <= 1000 ? all_digits(A->base) : alphabet(A->base, 3), 1);
            two = one;
            if (A->base <= 1000) for (u64 x : alphabet(A->base, 3)) for (u64 y : alphabet(A->base, 1)) two.push_back({x, y});
            arith_jobs(jobs, "every divisor digit", A, share(two), share(one), 16, DIV, A->base <= 1000 ? 1 : 4);
        }
        // all length pairs within a work bound: the algorithm is quadratic in the quotient's bits
        const size_t L = std::max<size_t>(5, std::min<size_t>(thorough ? 60 : 40, size_t((thorough ? 480 : 230) / bits)));
        for (size_t n = 1; n <= L; ++n)
            jobs.push_back({std::string(A->name) + " length pairs, dividend length " + std::to_string(n), [=](Ctx& c) {
                const Forms fa = patterns(A->base, n, thorough ? 2 : 1);
                model::Val a, b; int k = 0;
                for (size_t m = 1; m <= L + 1; ++m)
                    for (const Digits& y : patterns(A->base, m, 1))
                        for (const Digits& x : fa) {
                            const int sg = x == y ? (k & 1) * 3 : k & 3; ++k;
                            a.d = x; b.d = y; a.desc = sg & 1; b.desc = sg >> 1;
                            arith_case(c, A, a, b, DIV);
                        }
            }});
        // long operands whose quotient is short; every deviating position
        for (size_t n : {2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 48, 63, 64, 65, 100, 127, 128, 129})
            jobs.push_back({std::string(A->name) + " positions, length " + std::to_string(n), [=](Ctx& c) {
                const size_t step = n > 64 && !thorough ? 5 : 1;
                const Digits full(n, A->base - 1); Digits top(n, 0); top[n - 1] = 1;
                model::Val a, b; int k = 0;
                for (size_t p = 0; p < n; p += step) {
                    const Forms f = position_forms(A->base, n, p);
                    for (size_t i = 0; i < f.size(); ++i) {
                        if (model::len(f[i]) + 1 < n) { b.d = f[i]; a.d = f[i]; a.desc = k & 1; b.desc = (k++ >> 1) & 1; arith_case(c, A, a, b, DIV); continue; }
                        for (const Digits* y : {static_cast<const Digits*>(&full), static_cast<const Digits*>(&top), &f[(i + 1) % f.size()]}) {
                            for (int w = 0; w < 2; ++w) {
                                a.d = w ? *y : f[i]; b.d = w ? f[i] : *y; a.desc = k & 1; b.desc = (k++ >> 1) & 1;
                                if (model::len(a.d) > model::len(b.d) + 1) continue;
                                arith_case(c, A, a, b, DIV);
                            }
                        }
                        a.d = f[i]; b.d = f[i]; a.desc = b.desc = k & 1; arith_case(c, A, a, b, DIV);
                        a.d.push_back(1); a.d[0] = (a.d[0] + 1) % A->base; arith_case(c, A, a, b, DIV);
                    }
                }
            }});
        // wide digits: every divisor and quotient over the boundary digits with
        // the dividends at both ends of that quotient's interval, and every
        // four-digit dividend by every three-digit divisor over fewer digits
        if (A->base > 16) for (size_t m = 1; m <= 3; ++m) for (size_t part = 0; part < (m > 2 ? 4u : 1u); ++part)
            jobs.push_back({std::string(A->name) + " quotient digits, divisor length " + std::to_string(m) + " part " + std::to_string(part), [=](Ctx& c) {
                Forms bs, ks; model::Val a, b, k, t, one; one.d = {1};
                append_vectors(bs, alphabet(A->base, 1), m);
                append_vectors(ks, alphabet(A->base, 1), 1); append_vectors(ks, alphabet(A->base, 1), 2);
                if (thorough && bits < 20) append_vectors(ks, alphabet(A->base, 0), 3);
                int sg = 0;
                for (size_t i = part; i < bs.size(); i += m > 2 ? 4 : 1) {
                    if (model::zero(bs[i])) continue;
                    for (const Digits& z : ks) for (int off = -1; off <= 2; ++off) {
                        b.d = bs[i]; k.d = z; b.desc = k.desc = D_POS;
                        model::mul_signed(t, b, k, A->base);
                        if (off == 2) { model::add_signed(a, t, b, false, A->base); t = a; }
                        if (off) model::add_signed(a, t, one, off != 1, A->base); else a = t;
                        a.desc = sg & 1; b.desc = (sg++ >> 1) & 1;
                        arith_case(c, A, a, b, DIV);
                    }
                }
            }});
        if (A->base > 16) for (size_t part = 0; part < 4; ++part)
            jobs.push_back({std::string(A->name) + " four by three digits, part " + std::to_string(part), [=](Ctx& c) {
                const u64 B = A->base;
                Forms as, bs; model::Val a, b; int sg = 0;
                append_vectors(as, thorough ? alphabet(B, 1) : std::vector<u64>{0, 1, B / 2 - 1, B / 2, B - 1}, 4);
                append_vectors(bs, thorough ? alphabet(B, 1) : std::vector<u64>{0, 1, B / 2, B - 1}, 3);
                for (size_t i = part; i < as.size(); i += 4) for (const Digits& y : bs) {
                    if (y[2] == 0) continue;
                    a.d = as[i]; b.d = y; a.desc = sg & 1; b.desc = (sg++ >> 1) & 1;
                    arith_case(c, A, a, b, DIV);
                }
            }});
        // exact multiples and their neighbours: k*b - 1, k*b, k*b + 1
        jobs.push_back({std::string(A->name) + " multiples", [=](Ctx& c) {
            model::Val a, b, k, t, one; one.d = {1};
            int sg = 0;
            for (size_t m = 1; m <= size_t(thorough ? 6 : 3); ++m)
                for (const Digits& y : patterns(A->base, m, 2)) {
                    if (model::zero(y)) continue;
                    for (size_t q = 1; q <= (bits > 20 ? size_t(2) : size_t(4)); ++q)
                        for (const Digits& z : patterns(A->base, q, 2)) {
                            b.d = y; k.d = z; b.desc = k.desc = D_POS;
                            model::mul_signed(t, b, k, A->base);
                            for (int off = -1; off <= 1; ++off) {
                                if (off) model::add_signed(a, t, one, off < 0, A->base); else a = t;
                                a.desc = sg & 1; b.desc = (sg++ >> 1) & 1;
                                arith_case(c, A, a, b, DIV);
                            }
                        }
                }
        }});
        // every length, and very long numbers, with a short quotient
        std::vector<std::vector<size_t>> lens;
        for (size_t n = 1; n <= size_t(thorough ? 600 : 300); ++n) { if (lens.empty() || lens.back().size() == 30) lens.emplace_back(); lens.back().push_back(n); }
        for (size_t n : {512, 1000, 1023, 1024, 2048, 4096, 10000, 16384, 32768, 65535, 65536, 65537, 100000, 131072, 131073}) lens.push_back({n});
        for (const auto& ls : lens)
            jobs.push_back({std::string(A->name) + " short quotients, lengths " + std::to_string(ls.front()) + ".." + std::to_string(ls.back()), [=](Ctx& c) {
                model::Val a, b, k, t, one; one.d = {1};
                int sg = 0;
                // An implementation whose cost is quadratic is not a hang: when
                // parts of the length already take long, leave this one.
                if (ls.front() > 3000) for (size_t part : {64, 8}) if (division_cost(A, ls.front() / part) * double(part * part) > 5.0 * double(part == 64 ? 4 : 1)) { ++c.capped; return; }
                for (size_t n : ls) for (const Digits& y : patterns(A->base, n, n > 2000 ? 0 : 1)) {
                    if (model::zero(y)) continue;
                    for (const Digits& z : {Digits{1}, Digits{A->base - 1}, Digits{0, 1}}) {
                        if (n > 2000 && z.size() > 1) continue;
                        if (n > 20000 && z[0] > 1 && bits > 20) continue;
                        for (int off = -1; off <= 1; ++off) {
                            b.d = y; k.d = z; b.desc = k.desc = D_POS;
                            model::mul_signed(t, b, k, A->base);
                            if (off) model::add_signed(a, t, one, off < 0, A->base); else a = t;
                            if ((n + z[0] + size_t(off + 1)) % 3 == 0) a.d.push_back(0);
                            a.desc = sg & 1; b.desc = (sg++ >> 1) & 1;
                            arith_case(c, A, a, b, DIV);
                        }
                    }
                }
            }});
        for (size_t n : {256, 257, 513, 1025})
            jobs.push_back({std::string(A->name) + " huge, length " + std::to_string(n), [=](Ctx& c) {
                model::Val a, b; const Forms f = patterns(A->base, n, 2);
                for (const Digits& x : f) {
                    a.d = x; b.d = x; arith_case(c, A, a, b, DIV);
                    b.d = {1}; arith_case(c, A, a, b, DIV);
                    b.d = {1, 0}; if (bits < 5 && n < 300 && thorough) arith_case(c, A, a, b, DIV);
                    b.d = f.back(); if (!model::zero(b.d) && model::len(x) <= model::len(b.d) + 1) arith_case(c, A, a, b, DIV);
                    b.d = x; b.d.push_back(1); arith_case(c, A, a, b, DIV);
                    a.d = b.d; b.d = x; if (model::len(x) == n) arith_case(c, A, a, b, DIV);
                }
            }});
    }
}
int main(int argc, char** argv) {
    return check_main(argc, argv, make, {
        "Exhaustive over: all pairs of stored forms (zero forms and leading zero digits included, zero divisors excluded) up to a per-base length times four signs; every divisor digit for bases up to 1000; all length pairs up to the bound with structured patterns; every deviating position at listed lengths; k*b-1, k*b, k*b+1, k*b+b-1 families, for wide digits with every divisor of up to three and every quotient of up to two (thorough: three) boundary digits, and every four-digit dividend by every three-digit divisor over four or five (thorough: seven) boundary digits; every length up to 300 (thorough: 600) and lengths up to 2^17 with one- and two-digit quotients; long equal and nearly equal operands. The result must satisfy |q||b| <= |a| < (|q|+1)|b| with the right sign; every execution must end (20 s CPU guard, confirmed alone with 60 s). Binary, compound and aliased forms.",
        {"length bounds shrink with the digit width because the library's division is quadratic in the quotient's bits", "multi-digit operands of bases above 16 range over boundary digits and patterns", "g++ -O2"}});
}
