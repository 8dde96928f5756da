// Exact-arithmetic checks (C01..C04): every operand pair is executed on the
// library in compound, binary and (where operands coincide) aliased form, and
// compared with the reference model.
#pragma once
#include "sets.hpp"

inline bool value_ok(const model::Val& r, const model::Val& want) {
    return model::finite(r.desc) && model::cmp(r, want) == 0;
}
inline void arith_case(Ctx& c, const Api* A, const model::Val& a, const model::Val& b, int op) {
    static model::Val want, got;
    if (op == DIV && model::zero(b.d)) return;
    if (!c.begin()) return;
    ++c.states;
    if (op != DIV) model::apply(want, a, b, op, A->base);
    auto judge = [&](const Num& n, const char* form) {
        read(n, got);
        const bool ok = op == DIV ? model::is_quotient(got, a, b, A->base) : value_ok(got, want);
        if (!ok) {
            if (op == DIV) model::div_signed(want, a, b, A->base);
            c.fail(std::string(A->name) + ": " + text(a) + " " + OP_TXT[op] + " " + text(b) + " (" + form + ") gave " + text(got) + ", the exact result is " + text(want));
        }
        ++c.traces; c.transitions += 2;
    };
    {
        Num x(A, a.desc, a.d), y(A, b.desc, b.d);
        {
            Num r(x, y, op);
            judge(r, "binary");
        }
        x.op_assign(y, op);
        judge(x, "compound");
        c.outcome(model::hash(got));
    }
    if (a.desc == b.desc && a.d == b.d) {
        Num x(A, a.desc, a.d);
        Num r(x, x, op);
        judge(r, "binary, both operands the same object");
        x.op_assign(x, op);
        judge(x, "compound, both operands the same object");
    }
}
inline void arith_jobs(std::vector<Job>& jobs, const std::string& what, const Api* A, FormsPtr fa, FormsPtr fb, size_t slices, int op, int signs = 4) {
    pair_jobs(jobs, what, A, fa, fb, slices, [op](Ctx& c, const Api* P, const model::Val& a, const model::Val& b) { arith_case(c, P, a, b, op); }, signs);
}
// All length pairs up to L with structured patterns: one job per length of a.
inline void length_pair_jobs(std::vector<Job>& jobs, const std::string& what, const Api* A, size_t La, size_t Lb, unsigned rich, int op, int signs, size_t step = 1) {
    for (size_t n = 1; n <= La; n += step)
        jobs.push_back({std::string(A->name) + " " + what + " length " + std::to_string(n), [=](Ctx& c) {
            const Forms fa = patterns(A->base, n, rich);
            model::Val a, b;
            for (size_t m = 1; m <= Lb; ++m)
                for (const Digits& db : patterns(A->base, m, rich))
                    for (const Digits& da : fa)
                        for (int sg = 0; sg < signs; ++sg) {
                            a.d = da; b.d = db; a.desc = sg & 1; b.desc = sg >> 1;
                            arith_case(c, A, a, b, op);
                        }
        }});
}
// Operands of n digits around every position p: the carry/borrow/difference
// patterns that depend on one particular position.
inline Forms position_forms(u64 base, size_t n, size_t p) {
    Forms f; const u64 M = base - 1;
    Digits z(n, 0), m(n, M), t;
    t = z; t[p] = 1; f.push_back(t);
    t = z; t[p] = M; f.push_back(t);
    t = m; t[p] = M - 1; f.push_back(t);
    t = m; t[p] = 0; f.push_back(t);
    t = z; t[n - 1] = 1; t[p] = 1; f.push_back(t);
    t = z; t[n - 1] = M; if (p + 1 < n) t[p] = M; f.push_back(t);
    t = z; for (size_t i = p; i < n; ++i) t[i] = M; f.push_back(t);
    t = z; for (size_t i = 0; i <= p; ++i) t[i] = M; f.push_back(t);
    dedupe(f);
    return f;
}
