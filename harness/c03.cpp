#include "arith.hpp"
#include <cmath>
// Rotates through the sign combinations so that every one meets every length pair.
static void mul_lengths(std::vector<Job>& jobs, const Api* A, size_t La, size_t Lb, unsigned rich) {
    for (size_t n = 1; n <= La; ++n)
        jobs.push_back({std::string(A->name) + " length pairs, length " + std::to_string(n), [=](Ctx& c) {
            const Forms fa = patterns(A->base, n, rich);
            model::Val a, b; int k = 0;
            for (size_t m = 1; m <= Lb; ++m) {
                const Forms fb = patterns(A->base, m, rich);
                for (const Digits& db : fb) for (const Digits& da : fa) {
                    const int sg = (n == m && da == db) ? (k & 1) * 3 : k & 3;
                    ++k;
                    a.d = da; b.d = db; a.desc = sg & 1; b.desc = sg >> 1;
                    arith_case(c, A, a, b, MUL);
                }
            }
        }});
}
// Closed forms: (B^n - 1)(B^m - 1) = B^(n+m) - B^n - B^m + 1, n >= m, and
// B^k x = x shifted: exact oracles at lengths a schoolbook reference cannot reach.
static void closed_form_case(Ctx& c, const Api* A, size_t n, size_t m, bool square) {
    if (!c.begin()) return;
    ++c.states;
    const u64 M = A->base - 1;
    Digits want(n + m, 0);
    want[0] = 1;
    for (size_t i = m; i < n; ++i) want[i] = M;
    if (m == n) { for (size_t i = n; i < 2 * n; ++i) want[i] = M; want[n] = M - 1; }
    else { want[n] = M - 1; for (size_t i = n + 1; i < n + m; ++i) want[i] = M; }
    model::trim(want);
    Num x(A, D_POS, Digits(n, M)), y(A, D_NEG, Digits(m, M));
    model::Val got;
    auto judge = [&](const Num& r, int desc, const char* f) {
        read(r, got); c.transitions += 2; ++c.traces;
        if (got.desc != desc || model::cmp_abs(got.d, want)) {
            size_t p = 0; while (p < want.size() && p < got.d.size() && want[p] == got.d[p]) ++p;
            c.fail(std::string(A->name) + ": (B^" + std::to_string(n) + "-1) * " + (desc ? "-" : "") + "(B^" + std::to_string(m) + "-1) (" + f + ") is wrong, first at digit " + std::to_string(p) + ": " + text(got));
        }
        c.outcome(model::hash(got));
    };
    if (square) { x.op_assign(x, MUL); judge(x, D_POS, "squared in place"); }
    else { Num r(x, y, MUL); judge(r, D_NEG, "binary"); Num q(y, x, MUL); judge(q, D_NEG, "binary, exchanged"); }
}
static void shift_case(Ctx& c, const Api* A, size_t n, size_t k) {      // x * B^k for an irregular x
    if (!c.begin()) return;
    ++c.states;
    Digits x(n); u64 s = 88172645463325252ull + n;
    for (u64& d : x) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; d = (s >> 11) % A->base; }
    x[n - 1] = A->base - 1;
    Digits p(k + 1, 0); p[k] = 1;
    model::Val want; want.d.assign(k, 0); want.d.insert(want.d.end(), x.begin(), x.end());
    Num a(A, D_POS, x), b(A, D_POS, p), r(a, b, MUL);
    c.transitions += 2; ++c.traces;
    model::Val got = read(r);
    if (!value_ok(got, want)) c.fail(std::string(A->name) + ": an irregular " + std::to_string(n) + "-digit number times B^" + std::to_string(k) + " gave " + text(got));
    c.outcome(model::hash(got));
}
// Products too long for a schoolbook reference: the value modulo two 61-bit
// numbers, the length and every digit's range.
static u64 residue(const Digits& d, u64 base, u64 mod) {
    u64 r = 0;
    for (size_t i = d.size(); i-- > 0;) r = u64(((unsigned __int128)(r) * base + d[i]) % mod);
    return r;
}
static void residue_case(Ctx& c, const Api* A, const Digits& x, const Digits& y, int sg) {
    if (!c.begin()) return;
    ++c.states;
    static const u64 MODS[2] = {(1ull << 61) - 1, 2305843009213693921ull};
    Num a(A, sg & 1, x), b(A, sg >> 1, y);
    model::Val got;
    auto judge = [&](const Num& r, const char* f) {
        read(r, got); c.transitions += 2; ++c.traces;
        bool ok = model::finite(got.desc) && model::len(got.d) <= model::len(x) + model::len(y);
        for (u64 d : got.d) ok &= d < A->base;
        const bool z = model::zero(x) || model::zero(y);
        if (ok) ok = z ? model::zero(got.d) : model::sign(got) == ((sg & 1) == (sg >> 1) ? 1 : -1);
        for (u64 m : MODS) if (ok) ok = residue(got.d, A->base, m) == u64((unsigned __int128)(residue(x, A->base, m)) * residue(y, A->base, m) % m);
        if (!ok) c.fail(std::string(A->name) + ": " + text(val(sg & 1, x)) + " * " + text(val(sg >> 1, y)) + " (" + f + ") gave " + text(got) + " (wrong modulo 2^61-1 or 2^61-31, or malformed)");
        c.outcome(model::hash(got));
    };
    { Num r(a, b, MUL); judge(r, "binary"); }
    if (x.size() < 3000) { a.op_assign(b, MUL); judge(a, "compound"); }
}
static void make(std::vector<Job>& jobs, bool thorough) {
    for (const Api* A : wide_apis()) {
        const FormsPtr s = share(short_forms(A->base, thorough ? 1500 : 420));
        arith_jobs(jobs, "all short operands", A, s, s, thorough ? 32 : 8, MUL);
        if (A->base > 16) {
            Forms one{Digits()};
            append_vectors(one, A->base <= 1000 ? all_digits(A->base) : alphabet(A->base, 3), 1);
            const FormsPtr o = share(one);
            arith_jobs(jobs, "every digit pair", A, o, share(A->base > 256 && A->base <= 1000 && !thorough ? [&] { Forms f{Digits()}; append_vectors(f, alphabet(A->base, 3), 1); return f; }() : one), 8, MUL, A->base <= 1000 ? 1 : 4);
        }
        const size_t L = thorough ? 70 : 34;
        mul_lengths(jobs, A, L, L, thorough ? 1 : 0);
        // irregular, boundary and threshold lengths against the schoolbook reference
        for (size_t n : {63, 64, 65, 96, 127, 128, 129, 255, 256, 257, 258, 300, 511, 512, 513, 700, 1023, 1024, 1025})
            jobs.push_back({std::string(A->name) + " long, length " + std::to_string(n), [=](Ctx& c) {
                const Forms f = patterns(A->base, n, 2);
                model::Val a, b; int k = 0;
                for (size_t i = 0; i < f.size(); ++i) {
                    for (size_t j = 0; j < f.size(); ++j) {
                        if (n > 300 && !thorough && (i * 7 + j + n) % 16 && (i != j || (i + n) % 3)) continue;
                        const int sg = i == j ? (k & 1) * 3 : k & 3; ++k;
                        a.desc = sg & 1; b.desc = sg >> 1; a.d = f[i]; b.d = f[j];
                        arith_case(c, A, a, b, MUL);
                    }
                    for (size_t m : n > 300 && !thorough ? std::vector<size_t>{1, 2 + i % 7, n / 2 + i} : std::vector<size_t>{1, 2, 3, 17, n / 2, n - 1, n + 1})
                        for (const Digits& y : patterns(A->base, m, 0)) {
                            const int sg = k++ & 3;
                            a.desc = sg & 1; b.desc = sg >> 1; a.d = f[i]; b.d = y;
                            arith_case(c, A, a, b, MUL);
                            if (m <= 2) { std::swap(a, b); arith_case(c, A, a, b, MUL); }
                        }
                }
            }});
        // every length: irregular and boundary digits by residues
        for (size_t n0 = 35; n0 <= size_t(thorough ? 1034 : 514); n0 += 20)
            jobs.push_back({std::string(A->name) + " every length from " + std::to_string(n0), [=](Ctx& c) {
                int sg = 0;
                for (size_t n = n0; n < n0 + 20; ++n) {
                    const Forms f = patterns(A->base, n, 2);
                    for (size_t i = 0; i < f.size(); ++i) for (size_t m : {n, n - 1, n / 2, size_t(3)}) {
                        if (!thorough && (i + n + m) % 4) continue;
                        const Digits y(f[(i * 5 + n + m) % f.size()].begin(), f[(i * 5 + n + m) % f.size()].begin() + long(m));
                        residue_case(c, A, f[i], y, sg & 3); ++sg;
                        if (m != n) { residue_case(c, A, y, f[i], sg & 3); ++sg; }
                    }
                }
            }});
        {
            const bool big = double(A->base) * double(A->base) * 65536 < std::pow(2.0, 40.0);
            for (size_t n : {1100, 1500, 2000, 2047, 2500, 3000, 4095, 4097, 5000, 6000, 8192, 10000, 12000, 16385, 20000, 32768, 50000}) {
                if (!big && n > (thorough ? 12000 : 6000)) continue;
                if (n > 20000 && !thorough && A->base != 10) continue;
                jobs.push_back({std::string(A->name) + " residues, length " + std::to_string(n), [=](Ctx& c) {
                    const Forms f = patterns(A->base, n, 2);
                    int sg = 0;
                    for (size_t m : {n, n - n / 4, n / 10, size_t(65)}) for (size_t i = 0; i < f.size(); ++i) {
                        if ((!thorough || n > 5000) && (i + n / 10 + m) % (n > 1100 ? 8 : 4)) continue;
                        residue_case(c, A, f[i], Digits(f[(i * 5 + m) % f.size()].end() - long(m), f[(i * 5 + m) % f.size()].end()), sg++ & 3);
                    }
                }});
            }
        }
        // a single non-zero digit at every position, against every position
        for (size_t n : {9, 16, 33})
            jobs.push_back({std::string(A->name) + " unit products, length " + std::to_string(n), [=](Ctx& c) {
                model::Val a, b;
                for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) for (u64 u : {u64(1), A->base - 1}) for (u64 v : {u64(1), A->base - 1}) {
                    a.d.assign(n, 0); b.d.assign(n, 0); a.d[i] = u; b.d[j] = v;
                    arith_case(c, A, a, b, MUL);
                }
            }});
        const bool fft = double(A->base) * double(A->base) * 16385 < std::pow(2.0, 40.0);
        std::vector<size_t> ns = {1, 2, 3, 5, 31, 32, 33, 100, 255, 256, 257, 1000, 1024, 2047, 2048, 2049, 4096};
        if (fft) { ns.push_back(8191); ns.push_back(8193); ns.push_back(16384); }
        if (fft && thorough) for (size_t n : {32767, 32769, 65535, 65536, 65537, 131072}) ns.push_back(n);
        else if (fft && A->base <= 10) ns.push_back(65537);
        // one operand far longer than the other: the rounding errors of a shared
        // transform grow with the longer one
        if (A->base >= 256 && A->base <= 65536)
            for (size_t n : A->base == 65536 || thorough ? std::vector<size_t>{1 << 16, 1 << 18, 1 << 19, 1 << 20} : std::vector<size_t>{1 << 18})
                jobs.push_back({std::string(A->name) + " unequal closed forms, length " + std::to_string(n), [=](Ctx& c) {
                    for (size_t m : {size_t(1), size_t(7), size_t(255)}) if (thorough || A->base == 65536 || m == 7) closed_form_case(c, A, n, m, false);
                    shift_case(c, A, 3, n);
                }});
        for (size_t n : ns)
            jobs.push_back({std::string(A->name) + " closed forms, length " + std::to_string(n), [=](Ctx& c) {
                closed_form_case(c, A, n, n, true);
                closed_form_case(c, A, n, n, false);
                for (size_t m : {size_t(1), size_t(2), size_t(7), n / 3, n / 2, n - 1}) if (m >= 1 && m < n && (n < 5000 || m != n / 3)) closed_form_case(c, A, n, m, false);
                shift_case(c, A, n, n / 2);
                shift_case(c, A, n, n);
                if (n > 2) shift_case(c, A, 2, n - 1);
            }});
    }
}
int main(int argc, char** argv) {
    return check_main(argc, argv, make, {
        "Exhaustive over: all pairs of stored forms (leading zero digits and empty included) up to a per-base length times four signs; every digit pair for small bases; all pairs of lengths up to the bound with structured patterns; boundary and transform-threshold lengths up to 1025 against a schoolbook reference; every length up to 534 (thorough: 1054) and listed lengths up to 20000 (base 10: 50000; bases multiplied digit by digit: 6000) with structured operands of equal and smaller length, judged by range, length, sign and the value modulo 2^61-1 and 2^61-31; every pair of single-digit positions; all-(base-1) and shifted operands up to 2^14..2^17 digits (one operand up to 2^20 digits, the other up to 255, for bases 256 to 65536) against closed forms. Each in binary, compound and (equal operands) aliased form. states = operand configurations, traces = operator executions compared with the oracle.",
        {"multi-digit operands of bases above 16 range over boundary digits and structured patterns", "schoolbook reference model in harness/model.hpp; closed forms", "g++ -O2, IEEE double"}});
}
