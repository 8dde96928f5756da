#include "arith.hpp"
static void cmp_case(Ctx& c, const Api* A, const model::Val& a, const model::Val& b) {
    if (!c.begin()) return;
    ++c.states;
    const int w = model::cmp(a, b);
    const bool want[6] = {w == 0, w != 0, w < 0, w <= 0, w > 0, w >= 0};
    Num x(A, a.desc, a.d), y(A, b.desc, b.d);
    for (int k = 0; k < 6; ++k)
        if (x.cmp(y, k) != want[k])
            c.fail(std::string(A->name) + ": " + text(a) + " " + CMP_TXT[k] + " " + text(b) + " is " + (want[k] ? "false" : "true"));
    c.transitions += 6; ++c.traces;
    c.outcome(u64(w + 1));
    if (a.d == b.d && a.desc == b.desc) {
        const bool self[6] = {true, false, false, true, false, true};
        for (int k = 0; k < 6; ++k) if (x.cmp(x, k) != self[k]) c.fail(std::string(A->name) + ": " + text(a) + " compared with itself: " + CMP_TXT[k] + " is wrong");
        c.transitions += 6;
    }
}
static void make(std::vector<Job>& jobs, bool thorough) {
    for (const Api* A : all_apis()) {
        const FormsPtr s = share(short_forms(A->base, thorough ? 5000 : 1500));
        pair_jobs(jobs, "all short operands", A, s, s, thorough ? 16 : 4, cmp_case);
        if (A->base > 16 && A->base <= 1000) {
            Forms one{Digits()}; append_vectors(one, all_digits(A->base), 1);
            pair_jobs(jobs, "every digit", A, share(one), share(one), 4, cmp_case);
        } else if (A->base > 1000) {
            Forms one; append_vectors(one, alphabet(A->base, 3), 1); append_vectors(one, alphabet(A->base, 1), 2);
            pair_jobs(jobs, "rich digits", A, share(one), share(one), 4, cmp_case);
        }
        for (size_t n = 1; n <= size_t(thorough ? 72 : 36); ++n)
            jobs.push_back({std::string(A->name) + " length pairs, length " + std::to_string(n), [=](Ctx& c) {
                const Forms fa = patterns(A->base, n, 1); model::Val a, b;
                for (size_t m = 0; m <= size_t(thorough ? 72 : 36); ++m)
                    for (const Digits& y : patterns(A->base, m, 1)) for (const Digits& x : fa) for (int sg = 0; sg < 4; ++sg) {
                        a.desc = sg & 1; b.desc = sg >> 1; a.d = x; b.d = y; cmp_case(c, A, a, b);
                    }
            }});
        // two deviating positions: the higher one must decide
        for (size_t n : {2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17, 31, 32, 33, 64, 65, 128, 129, 257})
            jobs.push_back({std::string(A->name) + " two deviations, length " + std::to_string(n), [=](Ctx& c) {
                const u64 mid = (A->base - 1) / 2, hi = A->base - 1;
                const size_t step = n <= 33 || thorough ? 1 : n / 16;
                model::Val a, b;
                for (size_t p = 0; p < n; p += 1) for (size_t q = 0; q <= p; q += step)
                    for (int which = 0; which < 4; ++which) for (int lead = 0; lead < 3; ++lead) for (int sg = 0; sg < 4; ++sg) {
                        a.d.assign(n, mid); b.d.assign(n, mid);
                        (which & 1 ? a : b).d[p] = hi;
                        (which & 2 ? a : b).d[q] = hi;
                        if (lead == 1) a.d.push_back(0); else if (lead == 2) { b.d.push_back(0); b.d.push_back(0); }
                        a.desc = sg & 1; b.desc = sg >> 1;
                        cmp_case(c, A, a, b);
                    }
            }});
        // every length: equal numbers and single deviations behind 0..many leading zeroes
        for (size_t n0 = 1; n0 <= size_t(thorough ? 1200 : 1040); n0 += 20)
            jobs.push_back({std::string(A->name) + " every length from " + std::to_string(n0), [=](Ctx& c) {
                model::Val a, b;
                for (size_t n = n0; n < n0 + 20; ++n) for (const Digits& x : patterns(A->base, n, 0)) {
                    for (size_t p : {size_t(0), size_t(1), n / 2, n - 1, n}) {
                        if (p > n || (p == 1 && n < 3)) continue;
                        for (size_t la : {size_t(0), size_t(1), size_t(7), n, size_t(300)}) for (size_t lb : {size_t(0), size_t(2), n + 1}) for (int sg = 0; sg < 4; ++sg) {
                            if (la && lb && sg) continue;
                            if (n > 280 && !thorough && (la + lb + n + p + size_t(sg)) % 5) continue;
                            a.d = x; b.d = x; a.desc = sg & 1; b.desc = sg >> 1;
                            if (p < n) b.d[p] = (b.d[p] + 1 + n % 2 * (A->base - 2)) % A->base;
                            a.d.resize(n + la, 0); b.d.resize(n + lb, 0);
                            cmp_case(c, A, a, b);
                        }
                    }
                }
            }});
        // lengths that differ by about a power of two
        jobs.push_back({std::string(A->name) + " length differences", [=](Ctx& c) {
            model::Val a, b;
            for (size_t n : {0, 1, 2, 3, 100}) for (size_t p = 2; p <= size_t(thorough ? 1 << 20 : 1 << 17); p *= 2) for (size_t d = p - 2; d <= p + 2; ++d)
                for (int k = 0; k < 3; ++k) for (int sg = 0; sg < 4; ++sg) {
                    if (p > 5000 && (sg == 1 || sg == 2)) continue;
                    a.d.assign(n, A->base - 1); b.d.assign(n + d, k == 2 ? A->base - 1 : 0);
                    if (k == 1 && n + d) b.d.back() = 1;        // k == 0: nothing but zeroes
                    a.desc = sg & 1; b.desc = sg >> 1;
                    cmp_case(c, A, a, b); std::swap(a, b); cmp_case(c, A, a, b);
                }
        }});
        for (size_t n : {255, 256, 257, 511, 512, 513, 1024, 2048, 4096, 10000, 16384, 32768, 65535, 65536, 65537, 100000, 131072, 131073, 262145, 1000001})
            jobs.push_back({std::string(A->name) + " huge, length " + std::to_string(n), [=](Ctx& c) {
                model::Val a, b;
                const Forms f = patterns(A->base, n, n > 70000 ? 0 : 1);
                for (size_t p : {size_t(0), size_t(1), n / 3, n / 2, n - 257 < n ? n - 257 : 0, n - 2, n - 1})
                    for (const Digits& x : f) for (int k = 0; k < 5; ++k) for (int sg = 0; sg < 4; ++sg) {
                        if (n > 70000 && (sg == 1 || sg == 2 || (size_t(k) + p + size_t(&x - &f[0])) % (n > 200000 ? 12 : 4))) continue;
                        a.d = x; b.d = x; a.desc = sg & 1; b.desc = sg >> 1;
                        if (k == 1) b.d[p] = (b.d[p] + 1) % A->base;
                        if (k == 2) { b.d.resize(p); }
                        if (k == 3) { b.d[p] = (b.d[p] + A->base - 1) % A->base; a.d.push_back(0); }
                        if (k == 4) b.d.assign(p + 1, 0);
                        cmp_case(c, A, a, b);
                        std::swap(a, b); cmp_case(c, A, a, b);
                    }
            }});
    }
}
int main(int argc, char** argv) {
    return check_main(argc, argv, make, {
        "Exhaustive over: all pairs of stored forms up to a per-base length times four signs; every digit pair; all length pairs up to the bound with structured patterns; every pair of deviating positions (which operand is larger at each, with 0, 1 or 2 extra leading zeroes); every length up to 1040 (thorough: 1200; quick: one combination in five above 280) with equal numbers and deviations at the lowest, second, middle and highest digit behind 0 to 300 leading zeroes; lengths from 2^8 to 10^6; lengths that differ by up to two more or less than every power of two up to 2^17 (thorough: 2^20), in both orders. Each configuration evaluates all six operators (states = configurations, transitions = operator evaluations, traces = configurations whose six answers matched the integer order). Trichotomy follows from agreement with the integer order.",
        {"multi-digit operands of bases above 16 range over boundary digits and patterns", "g++ -O2"}});
}
