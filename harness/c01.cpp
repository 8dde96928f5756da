#ifndef OPERATION
#define OPERATION ADD
#endif
#include "arith.hpp"
static void make(std::vector<Job>& jobs, bool thorough) {
    const int op = OPERATION;
    for (const Api* A : all_apis()) {
        const FormsPtr s = share(short_forms(A->base, thorough ? 5000 : 1400));
        arith_jobs(jobs, "all short operands", A, s, s, thorough ? 16 : 4, op);
        if (A->base > 16) {     // every one-digit pair, or a rich boundary set
            const FormsPtr one = share(A->base <= 1000 && (thorough || A->base <= 256) ? short_forms(A->base, 1001, 9) : short_forms(A->base, 1, 3));
            Forms two = *one;
            if (A->base <= 256) for (u64 x : alphabet(A->base, 3)) for (u64 y : {u64(0), u64(1), A->base / 2, A->base - 1}) two.push_back({x, y});
            arith_jobs(jobs, "every digit", A, share(A->base <= 1000 ? [&] { Forms f{Digits()}; append_vectors(f, all_digits(A->base), 1); return f; }() : *one), share(two), 4, op);
        }
        length_pair_jobs(jobs, "length pairs", A, thorough ? 72 : 34, thorough ? 72 : 34, thorough ? 1 : 1, op, 4);
        // long operands: one deviating position, every length
        for (size_t n = 1; n <= size_t(thorough ? 300 : 136); n += (thorough ? 1 : (n < 66 ? 1 : 7)))
            jobs.push_back({std::string(A->name) + " positions, length " + std::to_string(n), [=](Ctx& c) {
                const Digits full(n, A->base - 1);
                Digits one(1, 1), big(n + 1, 0); big[n] = 1;
                model::Val a, b;
                for (size_t p = 0; p < n; ++p) {
                    const Forms f = position_forms(A->base, n, p);
                    for (const Digits& x : f)
                        for (int k = 0; k < 4; ++k) {
                            const Digits& y = k == 0 ? full : k == 1 ? one : k == 2 ? big : f[(p * 5 + 3) % f.size()];
                            for (int sg = 0; sg < 4; ++sg) {
                                a.desc = sg & 1; b.desc = sg >> 1;
                                a.d = x; b.d = y; arith_case(c, A, a, b, op);
                                a.d = y; b.d = x; arith_case(c, A, a, b, op);
                            }
                        }
                }
            }});
        for (size_t n : {255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 65535, 65536, 65537})
            jobs.push_back({std::string(A->name) + " huge, length " + std::to_string(n), [=](Ctx& c) {
                const Forms f = patterns(A->base, n, n > 5000 ? 0 : 2);
                Forms g2 = n > 5000 ? Forms() : patterns(A->base, n - 1, 1);
                if (n <= 5000) for (size_t m : {size_t(2), size_t(9), size_t(33), size_t(64), size_t(65), size_t(100), size_t(129), n / 2, n / 2 + 1, n - 2}) if (m + 1 < n) for (const Digits& d : patterns(A->base, m, n < 300 || thorough ? 1 : 0)) g2.push_back(d);
                g2.push_back(Digits(1, 1)); g2.push_back(Digits());
                for (const Digits& x : f) g2.push_back(x);
                model::Val a, b;
                for (const Digits& x : f) for (const Digits& y : g2) for (int sg = 0; sg < 4; ++sg) {
                    a.desc = sg & 1; b.desc = sg >> 1;
                    a.d = x; b.d = y; arith_case(c, A, a, b, op);
                    if (y.size() != x.size()) { a.d = y; b.d = x; arith_case(c, A, a, b, op); }
                }
            }});
        jobs.push_back({std::string(A->name) + " length differences", [=](Ctx& c) {
            model::Val a, b;
            for (size_t n : {0, 1, 2, 3, 100}) for (size_t p = 2; p <= size_t(thorough ? 1 << 19 : 1 << 16); p *= 2) for (size_t d = p - 1; d <= p + 1; ++d)
                for (int k = 0; k < 3; ++k) for (int sg = 0; sg < 4; ++sg) {
                    if (p > 2000 && (sg + k + n + d) % 3) continue;
                    a.d.assign(n, A->base - 1); b.d.assign(n + d, k == 2 ? A->base - 1 : 0);
                    if (k == 1 && n + d) b.d.back() = 1;
                    a.desc = sg & 1; b.desc = sg >> 1;
                    arith_case(c, A, a, b, op); std::swap(a, b); arith_case(c, A, a, b, op);
                }
        }});
        // every length: carries and borrows through whole numbers, irregular digits
        for (size_t n0 = 1; n0 <= size_t(thorough ? 2100 : 1100); n0 += 50)
            jobs.push_back({std::string(A->name) + " every length from " + std::to_string(n0), [=](Ctx& c) {
                model::Val a, b; int sg = 0;
                for (size_t n = n0; n < n0 + 50; ++n) {
                    const Forms f = patterns(A->base, n, 1);
                    for (size_t i = 0; i < f.size(); ++i) for (size_t m : {size_t(1), n - 1, n, n / 2, n > 64 ? n - 64 : 2 * n}) {
                        if (n > 300 && !thorough && (i + n + m) % 3) continue;
                        const Forms g = m == n ? Forms{f[(i * 3 + n) % f.size()], f[i]} : m == 1 ? Forms{{1}, {A->base - 1}} : m ? Forms{Digits(m, A->base - 1)} : Forms{Digits()};
                        for (const Digits& y : g) for (int same = 0; same < 2; ++same) {
                            a.d = f[i]; b.d = y; a.desc = sg & 1; b.desc = same ? a.desc : !a.desc;
                            if (++sg & 2) std::swap(a, b);
                            arith_case(c, A, a, b, op);
                        }
                    }
                }
            }});
        for (size_t n : {5000, 8192, 8193, 10000, 16384, 20000, 32768, 50000, 100000, 100001, 131071, 131072, 131073, 200000, 262144, 262145, 524289, 1000000, 1048577})
            jobs.push_back({std::string(A->name) + " very long, length " + std::to_string(n), [=](Ctx& c) {
                const u64 M = A->base - 1;
                model::Val a, b; a.d.assign(n, M);
                auto both = [&] { for (int k = 0; k < 2; ++k) { a.desc = k; b.desc = 0; arith_case(c, A, a, b, op); std::swap(a, b); arith_case(c, A, a, b, op); std::swap(a, b); } };
                b.d = {1}; both();                                      // carry through every digit
                if (n <= 270000 || n == 1000000) {
                    a.d.assign(n, 0); a.d[n - 1] = 1; both();           // borrow through every digit
                    for (size_t i = 0; i < n; ++i) a.d[i] = (i * 11 + i / 7 + 3) % A->base;
                    a.d[n - 1] = M; b.d = a.d; both();                  // everything cancels
                    b.d.resize(n - n / 3); b.d.back() = M; both();
                }
            }});
    }
}
int main(int argc, char** argv) {
    return check_main(argc, argv, make, {
        "Exhaustive over: all pairs of stored forms (leading zero digits and empty included) up to a per-base length over the full digit set (base <= 16) or the boundary digits; every digit value for bases up to 1000; all pairs of lengths up to the bound with structured patterns; one deviating digit at every position of every listed length; lengths around 2^8..2^16 combined with equal, neighbouring, half and short lengths; every length up to 1100 (thorough: 2100) with all patterns and equal, neighbouring, half and one-digit lengths; lengths that differ by about every power of two up to 2^16 (thorough: 2^19); carries, borrows and cancellations through numbers of up to 2^20+1 digits; times all four sign combinations (alternating signs for the length sweeps), each in binary, compound and aliased form. Each case compares the library's stored result with a schoolbook reference.",
        {"digits of bases above 16 range over boundary values in multi-digit operands", "schoolbook reference model in harness/model.hpp", "g++ -O2"}});
}
