#include "arith.hpp"
static bool same_stored(const model::Val& a, const model::Val& b) { return a.desc == b.desc && a.d == b.d; }
static bool equiv(const model::Val& a, const model::Val& b) { return model::same_value(a, b); }
static void pure_case(Ctx& c, const Api* A, const model::Val& a, const model::Val& b, int op, bool storage) {
    if (!c.begin()) return;
    ++c.states;
    static model::Val r1, r2, t;
    auto name = [&](const char* what) { return std::string(A->name) + ": " + text(a) + " " + OP_TXT[op] + " " + text(b) + ": " + what; };
    Num x(A, a.desc, a.d), y(A, b.desc, b.d);
    Num r(x, y, op);
    read(r, r1);
    read(x, t); if (!same_stored(t, a)) c.fail(name("the binary operator changed its left operand to ") + text(t));
    read(y, t); if (!same_stored(t, b)) c.fail(name("the binary operator changed its right operand to ") + text(t));
    Num z(A, a.desc, a.d);
    const void* ref = z.op_assign(y, op);
    read(z, r2);
    if (ref != z.buf()) c.fail(name("the compound form does not return its left operand"));
    read(y, t); if (!same_stored(t, b)) c.fail(name("the compound form changed its right operand to ") + text(t));
    if (!equiv(r1, r2)) c.fail(name("binary gave ") + text(r1) + ", compound gave " + text(r2));
    c.transitions += 2; ++c.traces; c.outcome(model::hash(r1));
    if (same_stored(a, b)) {
        Num s(A, a.desc, a.d); const void* sr = s.op_assign(s, op); read(s, t);
        if (sr != s.buf()) c.fail(name("a op= a does not return a"));
        if (!equiv(t, r2)) c.fail(name("with a copy gave ") + text(r2) + ", with itself gave " + text(t));
        Num q(x, x, op); read(q, t);
        if (!equiv(t, r1)) c.fail(name("binary with a copy gave ") + text(r1) + ", with itself gave " + text(t));
        read(x, t); if (!same_stored(t, a)) c.fail(name("a op a changed a to ") + text(t));
        c.transitions += 2;
    }
    if (!storage) return;
    // No shared storage: change every digit of the results, then of the operands.
    auto scramble = [&](Num& n) {
        const size_t k = n.size();
        for (size_t i = 0; i < k; ++i) n.at_set(i, (n.at_mut(i) + 1) % A->base);
        n.push_back(1); n.push_front(1); n.set_descriptor(D_NEG);
    };
    scramble(r);
    read(x, t); if (!same_stored(t, a)) c.fail(name("changing the result changed the left operand"));
    read(y, t); if (!same_stored(t, b)) c.fail(name("changing the result changed the right operand"));
    read(z, t); if (!same_stored(t, r2)) c.fail(name("changing one result changed another"));
    scramble(y); scramble(x);
    read(z, t); if (!same_stored(t, r2)) c.fail(name("changing an operand changed the result"));
    c.transitions += 3;
}
static void read_only_case(Ctx& c, const Api* A, const model::Val& a, const model::Val& b) {
    if (!c.begin()) return;
    ++c.states;
    static model::Val t;
    Num x(A, a.desc, a.d), y(A, b.desc, b.d);
    for (int k = 0; k < 6; ++k) { x.cmp(y, k); y.cmp(x, k); }
    x.print(10, nullptr);
    read(x, t); if (!same_stored(t, a)) c.fail(std::string(A->name) + ": comparing or printing changed " + text(a) + " to " + text(t));
    read(y, t); if (!same_stored(t, b)) c.fail(std::string(A->name) + ": comparing changed the right operand " + text(b) + " to " + text(t));
    c.transitions += 13; ++c.traces;
}
static void make(std::vector<Job>& jobs, bool thorough) {
    for (const Api* A : all_apis()) {
        auto vals = std::make_shared<std::vector<model::Val>>();
        for (const Digits& d : short_forms(A->base, thorough ? 800 : 200, 1)) { vals->push_back(val(D_POS, d)); vals->push_back(val(D_NEG, d)); }
        for (int d : {D_NAN, D_PINF, D_NINF}) vals->push_back(val(d, Digits()));
        const size_t slices = thorough ? 16 : 6;
        for (size_t s = 0; s < slices; ++s)
            jobs.push_back({std::string(A->name) + " pairs " + std::to_string(s), [=](Ctx& c) {
                for (size_t i = s; i < vals->size(); i += slices) for (size_t j = 0; j < vals->size(); ++j) {
                    for (int op = 0; op < 4; ++op) pure_case(c, A, (*vals)[i], (*vals)[j], op, true);
                    read_only_case(c, A, (*vals)[i], (*vals)[j]);
                }
            }});
        for (size_t n = 1; n <= size_t(thorough ? 70 : 34); ++n)
            jobs.push_back({std::string(A->name) + " lengths " + std::to_string(n), [=](Ctx& c) {
                model::Val a, b; const Forms fa = patterns(A->base, n, 1); int k = 0;
                const double bits = std::max(1.0, double(64 - __builtin_clzll(A->base - 1)));
                for (size_t m = 1; m <= size_t(thorough ? 70 : 34); m += 1) {
                    const Forms fb = patterns(A->base, m, m < 6 || m == n ? 1 : 0);
                    for (const Digits& x : fa) for (const Digits& y : fb) {
                        ++k;
                        if (x != y && (k + n + m) % 3) continue;
                        a.d = x; b.d = y; a.desc = k & 1; b.desc = x == y && k % 3 ? a.desc : (k >> 1) & 1;
                        for (int op = 0; op < 4; ++op) {
                            if (op == DIV && (double(model::len(x)) - double(model::len(y))) * bits > 60) continue;
                            pure_case(c, A, a, b, op, n % 4 == 1);
                        }
                    }
                }
            }});
        for (size_t n : {64, 65, 127, 128, 129, 255, 256, 257, 300, 513, 1025, 2048, 4097, 10000, 32768, 65537, 131073})
            jobs.push_back({std::string(A->name) + " long " + std::to_string(n), [=](Ctx& c) {
                model::Val a, b; const Forms f = patterns(A->base, n, 0); int k = 0;
                // a multiple of itself and neighbours: short quotients of long numbers, products by one digit
                for (const Digits& x : f) for (const Digits& y : {Digits{1}, Digits{A->base - 1}, Digits{1, 1}, Digits{0}}) for (int op = 0; op < 4; ++op) for (int w = 0; w < 2; ++w) {
                    if (op == DIV && !w && y != Digits{1} && y != Digits{0}) continue;
                    if (n > 5000 && (++k % 3 || (op == MUL && A->base > 16))) continue;
                    a.d = w ? y : x; b.d = w ? x : y; a.desc = k & 1; b.desc = (k >> 1) & 1;
                    pure_case(c, A, a, b, op, true);
                }
                if (n > 5000) {
                    for (int op : {ADD, SUB, DIV}) for (const Digits& x : f) { a.d = b.d = x; a.desc = b.desc = op == SUB; pure_case(c, A, a, b, op, true); b.d[n / 2] = b.d[n / 2] ? 0 : 1; if (op != DIV || model::cmp_abs(a.d, b.d) < 0) pure_case(c, A, a, b, op, true); }
                    return;
                }
                for (const Digits& x : f) for (const Digits& y : f) for (int op = 0; op < 4; ++op) {
                    if (n > 1100 && op == MUL && (k + n) % 9) { ++k; continue; }
                    a.d = x; b.d = y; a.desc = k & 1; b.desc = x == y ? a.desc : (k >> 1) & 1; ++k;
                    if (op == DIV && model::len(x) > model::len(y)) continue;
                    pure_case(c, A, a, b, op, true);
                }
            }});
        // long operands of different lengths, with leading zero digits on either
        const std::vector<size_t> ls = {1, 2, 17, 63, 64, 65, 80, 81, 100, 129, 257, 520};
        for (size_t n : ls)
            jobs.push_back({std::string(A->name) + " unequal " + std::to_string(n), [=](Ctx& c) {
                model::Val a, b;
                const double bits = std::max(1.0, double(64 - __builtin_clzll(A->base - 1)));
                for (size_t m : ls) for (size_t lead = 0; lead < 4; ++lead) {
                    if (m + n > 700 && !thorough && lead) continue;
                    const Forms fa = patterns(A->base, n, 0), fb = patterns(A->base, m, 0);
                    for (size_t i = 0; i < fa.size(); ++i) for (size_t j = 0; j < fb.size(); ++j) {
                        if (!thorough && (i + j + lead) % 3 && n + m > 40) continue;
                        for (int sg = 0; sg < 4; ++sg) for (int op = 0; op < 4; ++op) {
                            a.d = fa[i]; b.d = fb[j]; a.desc = sg & 1; b.desc = sg >> 1;
                            if (lead & 1) a.d.insert(a.d.end(), 1 + j, 0);
                            if (lead & 2) b.d.insert(b.d.end(), 1 + i, 0);
                            if (op == DIV && (double(n) - double(m)) * bits > 60) continue;
                            if (op == DIV && n > 260) continue;
                            pure_case(c, A, a, b, op, sg == int(j) % 4);
                        }
                    }
                }
            }});
    }
}
int main(int argc, char** argv) {
    return check_main(argc, argv, make, {
        "Exhaustive over: all pairs of short stored forms with both signs and the special values, all length pairs up to the bound with structured patterns (a fixed third of the pattern pairs, plus all equal ones), selected long lengths up to 131073 of equal and different size with leading zero digits on either operand; each with the four operators. Per configuration: stored form of every operand before and after, returned reference, binary vs compound vs self-aliased value, then every digit, the length and the sign of results and operands are changed in turn and all other objects re-read; comparisons and printing must leave stored forms unchanged.",
        {"deviation from the exact value itself is decided by C01..C06", "g++ -O2"}});
}
