#include "arith.hpp"
// Canonical form: no leading zero digit (zero: no digit or a single zero
// digit), every digit below the base, never a negative zero.
static const char* defect(const model::Val& r, u64 base) {
    if (!model::finite(r.desc)) return "is not finite";
    for (u64 d : r.d) if (d >= base) return "has a digit that is not below the base";
    if (model::zero(r.d)) {
        if (r.desc == D_NEG) return "is a negative zero";
        return r.d.size() > 1 ? "is zero with leading zero digits" : nullptr;
    }
    return r.d.back() == 0 ? "has a leading zero digit" : nullptr;
}
static bool canonical(const model::Val& v) { return model::zero(v.d) ? v.d.size() <= 1 : v.d.back() != 0; }
static void canon_case(Ctx& c, const Api* A, const model::Val& a, const model::Val& b, int ops = 15) {
    if (!canonical(a) || !canonical(b)) return;
    if (!c.begin()) return;
    ++c.states;
    static model::Val got;
    const bool self = a.desc == b.desc && a.d == b.d;
    Num x(A, a.desc, a.d), y(A, b.desc, b.d);
    for (int op = 0; op < 4; ++op) {
        if (!(ops >> op & 1) || (op == DIV && model::zero(b.d))) continue;
        auto judge = [&](const Num& r, const char* form) {
            read(r, got); c.transitions += 1; ++c.traces;
            const char* w = defect(got, A->base);
            if (w) c.fail(std::string(A->name) + ": " + text(a) + " " + OP_TXT[op] + " " + text(b) + " (" + form + ") = " + text(got) + " " + w);
            c.outcome(model::hash(got));
        };
        Num r(x, y, op); judge(r, "binary");
        Num z(Num::Copy(), x); z.op_assign(y, op); judge(z, "compound");
        if (self) { Num s(Num::Copy(), x); s.op_assign(s, op); judge(s, "with itself"); ++c.transitions; }
        c.transitions += 1;
    }
}
// Explicit-state closure: every value reachable from the seeds by chains of
// operations, as long as it has at most maxlen digits.
static void closure(Ctx& c, const Api* A, size_t maxlen, size_t cap) {
    typedef std::pair<int, Digits> Key;
    std::set<Key> seen; std::vector<Key> order;
    auto add = [&](const Key& k) { if (seen.insert(k).second) order.push_back(k); };
    const u64 M = A->base - 1;
    std::vector<Key> gens = {{D_POS, {}}, {D_POS, {1}}, {D_NEG, {1}}, {D_POS, {M}}, {D_NEG, {0, 1}}, {D_POS, {M, M}}, {D_POS, {A->base / 2}}};
    for (const Key& k : gens) add(k);
    for (size_t i = 0; i < order.size() && order.size() < cap; ++i) {
        for (const Key& gk : gens) for (int op = 0; op < 4; ++op) for (int swap = 0; swap < 2; ++swap) {
            const Key a = swap ? gk : order[i], b = swap ? order[i] : gk;
            if (op == DIV && model::zero(b.second)) continue;
            c.begin();
            Num x(A, a.first, a.second), y(A, b.first, b.second);
            x.op_assign(y, op);
            ++c.transitions;
            model::Val r = read(x);
            const char* w = defect(r, A->base);
            if (w) c.fail(std::string(A->name) + ": reachable state " + text(val(a.first, a.second)) + " " + OP_TXT[op] + "= " + text(val(b.first, b.second)) + " gave " + text(r) + ", which " + w);
            if (r.d.size() <= maxlen) add({r.desc, r.d});
        }
    }
    c.states += order.size();
}
static void make(std::vector<Job>& jobs, bool thorough) {
    for (const Api* A : all_apis()) {
        Forms f;
        for (const Digits& d : short_forms(A->base, thorough ? 1500 : 450)) if (model::zero(d) ? d.size() <= 1 : d.back() != 0) f.push_back(d);
        const FormsPtr s = share(f);
        pair_jobs(jobs, "all short canonical operands", A, s, s, thorough ? 32 : 8, [](Ctx& c, const Api* P, const model::Val& a, const model::Val& b) { canon_case(c, P, a, b); });
        const double bits = A->base >= 65536 ? 32 : A->base > 255 ? 12 : 4;
        for (size_t n = 1; n <= size_t(thorough ? 70 : 36); ++n)
            jobs.push_back({std::string(A->name) + " length pairs, length " + std::to_string(n), [=](Ctx& c) {
                const Forms fa = patterns(A->base, n, 1); model::Val a, b; int k = 0;
                for (size_t m = 1; m <= size_t(thorough ? 70 : 36); ++m)
                    for (const Digits& y : patterns(A->base, m, 0)) for (const Digits& x : fa) for (int h = 0; h < 2; ++h) {
                        a.d = x; b.d = y; a.desc = k & 1; b.desc = h; ++k;
                        if (h == 0 && (k & 2)) continue;
                        const int ops = 1 | 2 | ((k + n) % 3 == 0 ? 4 : 0) | ((double(n) - double(m)) * bits < 24 * 1.0 || n * bits < 40 ? 8 : 0);
                        canon_case(c, A, a, b, ops);
                    }
            }});
        // cancellation of every depth: x - y where the top k digits agree
        for (size_t n : {2, 3, 5, 8, 9, 16, 17, 33, 64, 65, 129, 257})
            jobs.push_back({std::string(A->name) + " cancellation, length " + std::to_string(n), [=](Ctx& c) {
                model::Val a, b;
                for (const Digits& base : patterns(A->base, n, 2)) {
                    if (model::zero(base) || base.back() == 0) continue;
                    for (size_t p = 0; p < n; ++p) for (u64 delta : {u64(1), A->base - 1}) {
                        a.d = base; b.d = base; b.d[p] = (b.d[p] + delta) % A->base;
                        for (int sg = 0; sg < 4; ++sg) { a.desc = sg & 1; b.desc = sg >> 1; canon_case(c, A, a, b, 3); canon_case(c, A, b, a, 3); }
                        for (size_t q = 0; q < p; ++q) b.d[q] = q % 2 ? 0 : A->base - 1;
                        for (int sg = 0; sg < 4; ++sg) { a.desc = sg & 1; b.desc = sg >> 1; canon_case(c, A, a, b, 3); canon_case(c, A, b, a, 3); }
                    }
                    a.d = base; b.d = base;
                    for (int sg = 0; sg < 4; ++sg) { a.desc = sg & 1; b.desc = sg >> 1; canon_case(c, A, a, b, n > 70 ? 11 : 15); }
                }
            }});
        for (size_t n : {63, 64, 127, 128, 129, 256, 511, 512, 513, 1024})
            jobs.push_back({std::string(A->name) + " products, length " + std::to_string(n), [=](Ctx& c) {
                model::Val a, b; int k = 0;
                for (const Digits& x : patterns(A->base, n, 1)) for (size_t m : {size_t(1), size_t(2), n / 2, n}) for (const Digits& y : patterns(A->base, m, 0)) {
                    a.d = x; b.d = y; a.desc = k & 1; b.desc = (k++ >> 1) & 1; canon_case(c, A, a, b, 7);
                }
            }});
        // sums, differences and short quotients of unequal long operands
        for (size_t n0 = 37; n0 <= size_t(thorough ? 1050 : 530); n0 += 13)
            jobs.push_back({std::string(A->name) + " unequal lengths from " + std::to_string(n0), [=](Ctx& c) {
                model::Val a, b; int k = 0;
                for (size_t n = n0; n < n0 + 13; ++n) for (const Digits& x : patterns(A->base, n, 0)) {
                    for (size_t m : {size_t(1), size_t(2), size_t(8), size_t(9), size_t(33), n / 2, n - 33, n - 9, n - 2, n - 1, n, n + 1}) for (const Digits& y : patterns(A->base, m, 0)) {
                        a.d = x; b.d = y; a.desc = k & 1; b.desc = (k >> 1) & 1; ++k;
                        canon_case(c, A, a, b, 3); canon_case(c, A, b, a, 3);
                        if ((double(n) - double(m)) * bits < 40 && k % 3 == 0) canon_case(c, A, a, b, 8);
                        if (k % 40 == 0) canon_case(c, A, a, b, 4);
                    }
                }
            }});
        for (size_t n : {1000, 1024, 2048, 4096, 10000, 16384, 32768, 65535, 65536, 65537, 100000, 131072, 131073, 1000000})
            jobs.push_back({std::string(A->name) + " very long " + std::to_string(n), [=](Ctx& c) {
                model::Val a, b; int k = 0;
                for (const Digits& x : patterns(A->base, n, 0)) {
                    if (x.back() == 0) continue;
                    for (size_t q : {size_t(0), size_t(1), n / 2, n - 1, n}) {     // agree above digit q
                        a.d = x; b.d = x; a.desc = k & 1; b.desc = (k >> 1) & 1; ++k;
                        for (size_t i = 0; i < q && i < 3; ++i) b.d[i] = (b.d[i] + 1 + i) % A->base;
                        if (q > 3) b.d[q - 1] = (b.d[q - 1] + 1) % A->base;
                        model::trim(b.d);
                        const int d = b.d == a.d ? 8 : 0;
                        canon_case(c, A, a, b, 3 | d);
                        b.desc = a.desc; canon_case(c, A, a, b, 2); canon_case(c, A, b, a, 2);
                        if (n > 200000 && q == 1) break;
                    }
                    b.d = {1}; canon_case(c, A, a, b, n > 200000 ? 3 | 8 : 3 | 4 | 8); b.desc = !b.desc; canon_case(c, A, b, a, 3);
                }
            }});
        jobs.push_back({std::string(A->name) + " reachable closure", [=](Ctx& c) { closure(c, A, A->base <= 3 ? 9 : A->base <= 16 ? 3 : 2, thorough ? 40000 : 6000); }});
    }
}
int main(int argc, char** argv) {
    return check_main(argc, argv, make, {
        "Inductive step, exhaustive over all pairs of canonical operands up to a per-base length (zero as no digit and as a single zero digit) times four signs and the four operators, plus all length pairs with structured patterns and cancellations of every depth at listed lengths, and cancellations at listed lengths up to 10^6, and every length from 37 to 538 (thorough: 1060) against twelve shorter, near and longer lengths (sums and differences both ways, short quotients every third, products every fortieth combination): the result must again be canonical. In addition an explicit-state closure: every state reachable from seven seeds by operator chains, deduplicated, up to a digit bound and a state cap. states = operand configurations and closure states, transitions = library calls, traces = operator results judged.",
        {"chains beyond the explored lengths follow by induction over results of canonical operands", "the closure may stop at its state cap (6000 quick, 40000 thorough); the pair exploration does not", "g++ -O2"}});
}
