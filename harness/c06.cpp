#include "arith.hpp"
static void special_case(Ctx& c, const Api* A, const model::Val& a, const model::Val& b) {
    const bool fin = model::finite(a.desc) && model::finite(b.desc);
    if (fin && !model::zero(b.d)) return;
    if (!c.begin()) return;
    ++c.states;
    static model::Val got;
    for (int op = 0; op < 4; ++op) {
        const int want = model::special(a, b, op);
        if (want == model::FINITE_RESULT) continue;
        for (int form = 0; form < 3; ++form) {
            if (form == 2 && !(a.desc == b.desc && a.d == b.d)) continue;
            Num x(A, a.desc, a.d), y(A, b.desc, b.d);
            bool ok = true;
            auto judge = [&](const Num& r) {
                read(r, got);
                c.transitions += 1; ++c.traces; c.outcome(got.desc * 5 + op);
                if (want == model::ZERO_RESULT) ok = model::finite(got.desc) && model::zero(got.d);
                else if (want == model::NONFINITE_RESULT) ok = !model::finite(got.desc) && got.d.empty();
                else if (want == 100) {
                    // the sign of a stored zero may or may not count; non-zero a / zero
                    const bool na = a.desc == D_NEG;
                    ok = got.d.empty() && (b.desc == D_POS ? got.desc == (na ? D_NINF : D_PINF) : got.desc == D_PINF || got.desc == D_NINF);
                }
                else ok = got.desc == want && got.d.empty();
                if (!ok) return;
                const bool inf = !model::finite(got.desc) && got.desc != D_NAN;
                if (A->is_inf(r.buf()) != inf || A->is_nan(r.buf()) != (got.desc == D_NAN)) ok = false;
            };
            if (form == 0) { Num r(x, y, op); judge(r); }
            else { x.op_assign(form == 2 ? x : y, op); judge(x); }
            if (!ok) c.fail(std::string(A->name) + ": " + text(a) + " " + OP_TXT[op] + " " + text(b) + (form == 0 ? "" : form == 1 ? " (compound)" : " (with itself)") + " gave " + text(got));
        }
    }
    // ordering
    if (!fin) {
        auto ord = [](const model::Val& v) { return v.desc == D_PINF ? 1 : v.desc == D_NINF ? -1 : 0; };
        Num x(A, a.desc, a.d), y(A, b.desc, b.d);
        for (int k = 0; k < 6; ++k) {
            const bool r = x.cmp(y, k);
            bool ok;
            if (a.desc == D_NAN || b.desc == D_NAN) {
                if (k == LT || k == GT) ok = !r;
                else if (a.desc == D_NAN && b.desc == D_NAN) ok = true;                 // unspecified
                else ok = k == NE ? r : k == EQ ? !r : !r;
            } else {
                const int w = ord(a) - ord(b);
                const bool t[6] = {w == 0, w != 0, w < 0, w <= 0, w > 0, w >= 0};
                ok = r == t[k];
            }
            if (!ok) c.fail(std::string(A->name) + ": " + text(a) + " " + CMP_TXT[k] + " " + text(b) + " is " + (r ? "true" : "false"));
            ++c.transitions;
        }
    }
}
static void query_case(Ctx& c, const Api* A, const model::Val& a) {
    if (!c.begin()) return;
    ++c.states;
    Num x(A, a.desc, a.d);
    for (int round = 0; round < 2; ++round) {
        const void* p = x.buf();
        const bool inf = a.desc == D_PINF || a.desc == D_NINF, nan = a.desc == D_NAN;
        if (A->is_inf(p) != inf) c.fail(std::string(A->name) + ": isInfinite() wrong for " + text(a));
        if (A->is_nan(p) != nan) c.fail(std::string(A->name) + ": isNan() wrong for " + text(a));
        if (A->is_computable(a.desc) != (!inf && !nan)) c.fail(std::string(A->name) + ": isComputable() wrong for " + desc_text(a.desc));
        if (nan && (A->is_pos(p) || A->is_neg(p))) c.fail(std::string(A->name) + ": a NaN is classified as positive or negative");
        if (!nan && !(a.desc == D_NEG && model::zero(a.d))) {
            const bool neg = a.desc == D_NEG || a.desc == D_NINF;
            if (A->is_neg(p) != neg || A->is_pos(p) != !neg) c.fail(std::string(A->name) + ": isPositive()/isNegative() wrong for " + text(a));
        }
        if ((inf || nan) && (x.size() || A->data_size(p))) c.fail(std::string(A->name) + ": " + desc_text(a.desc) + " holds digits");
        c.transitions += 5; ++c.traces;
        x.set_descriptor(a.desc);
    }
    if (a.desc == D_POS || a.desc == D_NEG) {       // every transition into a special value drops the digits
        for (int d : {D_NAN, D_PINF, D_NINF}) {
            Num y(A, a.desc, a.d);
            y.set_descriptor(d);
            if (y.desc() != d || y.size()) c.fail(std::string(A->name) + ": setDescriptor(" + DESC_TXT[d] + ") on " + text(a) + " gave " + y.text());
            ++c.transitions;
            if (a.d.size() <= 8) {
                Digits m(a.d.rbegin(), a.d.rend());
                Num z(Num::List(), A, d, m);
                if (z.desc() != d || z.size()) c.fail(std::string(A->name) + ": constructing " + DESC_TXT[d] + " with digits gave " + z.text());
                ++c.transitions;
            }
        }
    }
}
// Chains of operations through special values: the descriptor model is finite,
// so all chains up to the depth are explored from every start.
static void chain(Ctx& c, const Api* A, const std::vector<model::Val>& vals, int depth, const Num& cur, const std::string& path) {
    const model::Val a = read(cur);
    if (depth == 0) return;
    for (const model::Val& b : vals) for (int op = 0; op < 4; ++op) {
        const int want = model::special(a, b, op);
        Num y(A, b.desc, b.d), x(Num::Copy(), cur);
        x.op_assign(y, op); ++c.transitions;
        const model::Val r = read(x);
        bool ok = true;
        if (want == model::FINITE_RESULT) ok = model::finite(r.desc);
        else if (want == model::ZERO_RESULT) ok = model::finite(r.desc) && model::zero(r.d);
        else if (want == model::NONFINITE_RESULT || want == 100) ok = !model::finite(r.desc) && r.d.empty();
        else ok = r.desc == want && r.d.empty();
        if (want == model::FINITE_RESULT) {
            model::Val w; model::apply(w, a, b, op, A->base);
            ok = ok && model::cmp(w, r) == 0;
        }
        if (!ok) c.fail(std::string(A->name) + ": after " + path + ", " + text(a) + " " + OP_TXT[op] + "= " + text(b) + " gave " + text(r));
        if (depth > 1 && r.d.size() < 5) chain(c, A, vals, depth - 1, x, path + " " + OP_TXT[op] + "= " + text(b));
        else ++c.traces;
    }
}
static void make(std::vector<Job>& jobs, bool thorough) {
    for (const Api* A : all_apis()) {
        auto vals = std::make_shared<std::vector<model::Val>>();
        for (int d : {D_NAN, D_PINF, D_NINF}) vals->push_back(val(d, Digits()));
        Forms f = short_forms(A->base, thorough ? 6000 : 2500);
        for (size_t n : {3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 129, 257, 513}) for (const Digits& x : patterns(A->base, n, 1)) f.push_back(x);
        for (size_t n = 1; n <= 70; ++n) f.push_back(Digits(n, 0));
        dedupe(f);
        for (const Digits& x : f) for (int s = 0; s < 2; ++s) vals->push_back(val(s, x));
        // every length against every special value and zero divisors of several lengths
        for (size_t n0 = 1; n0 <= size_t(thorough ? 1200 : 600); n0 += 50)
            jobs.push_back({std::string(A->name) + " every length from " + std::to_string(n0), [=](Ctx& c) {
                std::vector<size_t> ns; for (size_t n = n0; n < n0 + 50; ++n) ns.push_back(n);
                if (n0 == 1) for (size_t n : {512, 1023, 1024, 1025, 4096, 16384, 65535, 65536, 65537}) ns.push_back(n);
                for (size_t n : ns) {
                    Forms f = patterns(A->base, n, n > 600 ? 0 : 1); f.push_back(Digits(n, 0));
                    for (const Digits& d : f) for (int s = 0; s < 2; ++s) {
                        const model::Val v = val(s, d);
                        query_case(c, A, v);
                        for (int k : {D_NAN, D_PINF, D_NINF}) { special_case(c, A, v, val(k, {})); special_case(c, A, val(k, {}), v); }
                        for (size_t z : {size_t(0), size_t(1), size_t(2), n}) special_case(c, A, v, val(int(z & 1), Digits(z, 0)));
                        if (model::zero(d)) for (const Digits& e : {Digits{1}, Digits{0, A->base - 1}, Digits(n, A->base - 1)}) for (int t = 0; t < 2; ++t) special_case(c, A, val(t, e), v);
                    }
                }
            }});
        const size_t slices = thorough ? 8 : 2;
        for (size_t s = 0; s < slices; ++s)
            jobs.push_back({std::string(A->name) + " pairs " + std::to_string(s), [=](Ctx& c) {
                for (size_t i = s; i < vals->size(); i += slices) {
                    query_case(c, A, (*vals)[i]);
                    for (size_t j = 0; j < vals->size(); ++j) {
                        const model::Val &a = (*vals)[i], &b = (*vals)[j];
                        if (model::finite(a.desc) && !(model::finite(b.desc) ? model::zero(b.d) : true)) continue;
                        special_case(c, A, a, b);
                    }
                }
            }});
        for (int start = 0; start < 7; ++start)
            jobs.push_back({std::string(A->name) + " chains from " + std::to_string(start), [=](Ctx& c) {
                std::vector<model::Val> v = {val(D_POS, {}), val(D_POS, {1}), val(D_NEG, {A->base - 1, 1}), val(D_NEG, {0}), val(D_PINF, {}), val(D_NINF, {}), val(D_NAN, {})};
                if (!c.begin()) return;
                ++c.states;
                Num s0(A, v[start].desc, v[start].d);
                chain(c, A, v, thorough ? 5 : 4, s0, text(v[start]));
            }});
    }
}
int main(int argc, char** argv) {
    return check_main(argc, argv, make, {
        "Exhaustive over: every pair of {NaN, +INF, -INF, all short stored forms, structured long forms, zeroes of 0..70 digits} with at least one special value or a zero divisor, times the four operators in binary, compound and aliased form and all six comparisons; finite numbers of every length up to 600 (thorough: 1200) and around 2^9..2^16 against every special value and zero divisors of 0, 1, 2 and equally many digits; the queries and digit count on every value; every transition into a special value; all chains of operations up to the depth bound over a seven-value alphabet, each step judged by the extended-real model (finite steps by the exact reference).",
        {"0/0, INF/0 (only required to be non-finite), NaN compared with NaN by ==, !=, <=, >= and the sign contributed by a stored negative zero divisor are left open by the property", "g++ -O2"}});
}
