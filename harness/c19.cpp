#include <cmath>
#include "sets.hpp"
// Radix conversion by n - (n / d) * d and Horner's rule, through the public
// operators only.
static const size_t MAXSTEPS = 20000;
static bool eqval(const model::Val& a, const model::Val& b) { return model::finite(a.desc) && model::finite(b.desc) && model::cmp(a, b) == 0; }
static Digits small(u64 v, u64 base) { Digits d; while (v) { d.push_back(v % base); v /= base; } return d; }
// |n| in base `from` as digits in base `to`, by plain long division.
static Digits convert(Digits d, u64 from, u64 to) {
    Digits out;
    model::trim(d);
    while (!d.empty()) {
        unsigned __int128 rem = 0;
        for (size_t i = d.size(); i-- > 0;) { rem = rem * from + d[i]; d[i] = u64(rem / to); rem %= to; }
        out.push_back(u64(rem)); model::trim(d);
    }
    return out;
}
static void convert_case(Ctx& c, const Api* A, const Api* B, const model::Val& n, const Digits& divisor, u64 to) {
    if (!c.begin()) return;
    ++c.states;
    const std::string what = std::string(A->name) + ": converting " + text(n) + " to base " + (to ? std::to_string(to) : digits_text(divisor));
    const Num d(A, D_POS, divisor);
    Num q(A, n.desc, n.d);
    std::vector<model::Val> rem;
    model::Val t;
    for (;;) {
        if (!model::finite(q.desc())) c.fail(what + ": the quotient became " + q.text());
        read(q, t);
        if (model::zero(t.d)) break;
        if (rem.size() > 64 * (n.d.size() + 1)) c.fail(what + ": the conversion does not end");
        Num q2(q, d, DIV);
        Num p(q2, d, MUL);
        Num r(q, p, SUB);
        rem.push_back(read(r));
        const model::Val& x = rem.back();
        if (!model::finite(x.desc)) c.fail(what + ": a remainder is " + text(x));
        if (model::cmp_abs(x.d, divisor) >= 0) c.fail(what + ": remainder " + text(x) + " is not below the target base");
        if (!model::zero(x.d) && x.desc != n.desc) c.fail(what + ": remainder " + text(x) + " has the wrong sign");
        q.move_assign(q2);
        c.transitions += 4;
    }
    if (to) {       // the digit values themselves
        const Digits want = convert(n.d, A->base, to);
        Digits got;
        for (const model::Val& x : rem) { u64 v = 0; for (size_t i = model::len(x.d); i-- > 0;) v = v * A->base + x.d[i]; got.push_back(v); }
        model::trim(got);
        if (got != want) c.fail(what + ": digits " + digits_text(got) + ", expected " + digits_text(want));
    }
    Num acc(A, D_POS, {});
    for (size_t i = rem.size(); i-- > 0;) {
        Num p(acc, d, MUL);
        Num r(A, rem[i].desc, rem[i].d);
        Num s(p, r, ADD);
        acc.copy_assign(s);
        c.transitions += 3;
    }
    read(acc, t);
    if (!eqval(t, n)) c.fail(what + " and rebuilding it gave " + text(t));
    c.outcome(model::hash(t) + rem.size());
    ++c.traces;
    if (B && to) {  // rebuild in another type, and come back
        Num acc2(B, D_POS, {});
        const Num d2(B, D_POS, small(to, B->base));
        for (size_t i = rem.size(); i-- > 0;) {
            u64 v = 0; for (size_t k = model::len(rem[i].d); k-- > 0;) v = v * A->base + rem[i].d[k];
            acc2.op_assign(d2, MUL);
            const Num r(B, n.desc, small(v, B->base));
            acc2.op_assign(r, ADD);
            c.transitions += 2;
        }
        model::Val w; w.desc = n.desc; w.d = convert(n.d, A->base, B->base);
        read(acc2, t);
        if (!eqval(t, w)) c.fail(what + " and rebuilding it as " + B->name + " gave " + text(t) + ", expected " + text(w));
        ++c.traces;
    }
}
// The byte-string codec of tests/compress_test.cpp, on base-256 digits.
static void codec_case(Ctx& c, const Api* A, const Digits& bytes) {
    if (!c.begin()) return;
    ++c.states;
    Num in(A, D_POS, {}), out(A, D_POS, {});
    for (u64 b : bytes) in.push_back(b);
    in.push_back(0);
    const Num two(A, D_POS, {2});
    u64 word = 0; size_t bits = 0, guard = 0;
    Digits d = in.digits();
    auto flush = [&] { out.push_back(word); word = 0; };
    while (d.size() > 1 || (d.size() == 1 && d[0] > 1)) {
        word |= (d[0] & 1) << bits;
        if (++bits == 8) { bits = 0; flush(); }
        in.op_assign(two, DIV);
        in.get(d);
        ++c.transitions;
        if (++guard > 8 * bytes.size() + 16) c.fail(std::string(A->name) + ": halving " + digits_text(bytes) + " does not end");
    }
    word |= (d.empty() ? 0 : d[0] & 1) << bits;
    ++bits; flush();
    Num dec(A, D_POS, {0});
    Digits o = out.digits();
    for (size_t i = o.size(); i-- > 0;) {
        for (size_t b = i + 1 == o.size() ? bits : 8; b-- > 0;) {
            const Num bit(A, D_POS, {(o[i] >> b) & 1});
            Num p(dec, two, MUL);
            Num s(p, bit, ADD);
            dec.move_assign(s);
            c.transitions += 2;
        }
    }
    const model::Val t = read(dec);
    Digits got = t.d, want = bytes; model::trim(got); model::trim(want);
    if (t.desc != D_POS || got != want) c.fail(std::string(A->name) + ": bytes " + digits_text(bytes) + " (first byte last) decompress to " + text(t));
    ++c.traces; c.outcome(model::hash(t));
}
static void make(std::vector<Job>& jobs, bool thorough) {
    const std::vector<const Api*>& all = all_apis();
    for (size_t k = 0; k < all.size(); ++k) {
        const Api* A = all[k];
        const double bits = double(64 - __builtin_clzll(A->base - 1));
        const Forms vals = [&] {
            Forms f = short_forms(A->base, thorough ? 900 : 500, 1);
            for (size_t n = 2; double(n) * bits <= (thorough ? 260 : 140); n += n < 9 || double(n) * bits < (thorough ? 140 : 60) ? 1 : n / 4) for (const Digits& d : patterns(A->base, n, 1)) f.push_back(d);
            dedupe(f); return f;
        }();
        const FormsPtr fp = share(vals);
        std::vector<u64> targets = {2, 3, 8, 10, 16, 100, 256, 1000, 65536, 1000000000, 4294967296ull, A->base, A->base - 1, A->base + 1};
        std::sort(targets.begin(), targets.end()); targets.erase(std::unique(targets.begin(), targets.end()), targets.end());
        for (u64 to : targets) if (to >= 2)
            jobs.push_back({std::string(A->name) + " to base " + std::to_string(to), [=](Ctx& c) {
                size_t i = 0;
                for (const Digits& d : *fp) for (int s = 0; s < 2; ++s, ++i) {
                    // every target type in turn
                    const Api* B = all_apis()[i % all_apis().size()];
                    convert_case(c, A, B, val(s, d), small(to, A->base), to);
                }
            }});
        for (size_t want : thorough ? std::vector<size_t>{300, 400, 513, 700, 1025, 1300} : std::vector<size_t>{200, 300, 400})
            jobs.push_back({std::string(A->name) + " numbers of " + std::to_string(want) + " bits", [=](Ctx& c) {
                const size_t n = std::max(size_t(double(want) / bits), size_t(2));
                const Forms f = patterns(A->base, n, 0);
                size_t i = 0;
                for (u64 to : targets) if (to >= 2) for (size_t k = 0; k < f.size() && k < 3; ++k, ++i) {
                    // one division doubles its way through the quotient once per set bit
                    const double steps = double(want) / std::log2(double(to));
                    if (steps * double(want) * double(want) / 2 * double(n) > (thorough ? 6e9 : 3e9)) continue;
                    convert_case(c, A, all_apis()[i % all_apis().size()], val(int(i & 1), f[(i + k) % f.size()]), small(to, A->base), to);
                }
            }});
        jobs.push_back({std::string(A->name) + " every pair of types", [=](Ctx& c) {
            for (const Api* B : all_apis()) for (size_t i = 0; i < fp->size(); i += fp->size() > 400 ? fp->size() / 400 : 3) convert_case(c, A, B, val(int(i & 1), (*fp)[i]), small(B->base, A->base), B->base);
        }});
        jobs.push_back({std::string(A->name) + " to long bases", [=](Ctx& c) {
            for (size_t m = 1; m <= size_t(thorough ? 5 : 3); ++m) for (const Digits& dv : patterns(A->base, m, 1)) {
                if (model::zero(dv) || (model::len(dv) == 1 && dv[0] == 1)) continue;
                for (size_t i = 0; i < fp->size(); i += thorough ? 3 : 5) convert_case(c, A, nullptr, val(int(i & 1), (*fp)[i]), dv, 0);
            }
        }});
    }
    for (const Api* A : all) {
        if (A->base != 256) continue;
        for (size_t s = 0; s < 16; ++s)
            jobs.push_back({std::string(A->name) + " byte strings " + std::to_string(s), [=](Ctx& c) {
                if (!s) codec_case(c, A, {});
                for (u64 a = s; a < 256; a += 16) { codec_case(c, A, {a}); for (u64 b = 0; b < 256; ++b) codec_case(c, A, {a, b}); }
                Forms f; append_vectors(f, alphabet(256, thorough ? 3 : 2), 3);
                append_vectors(f, {0, 1, 127, 128, 255}, 4);
                if (thorough) append_vectors(f, {0, 128, 255}, 6);
                for (size_t i = s; i < f.size(); i += 16) codec_case(c, A, f[i]);
            }});
        for (size_t n = 3; n <= size_t(thorough ? 80 : 48); n += n < 17 ? 1 : 3)
            jobs.push_back({std::string(A->name) + " byte strings of length " + std::to_string(n), [=](Ctx& c) { for (const Digits& d : patterns(256, n, 1)) codec_case(c, A, d); }});
    }
}
int main(int argc, char** argv) {
    return check_main(argc, argv, make, {
        "Exhaustive over: every short stored form (both signs) and structured numbers up to 140 (quick) or 260 (thorough) bits, and three of up to 400 bits each (thorough: 1300) where division, quadratic in the bits of the quotient, allows, of every type x 14 target bases (2..2^32, the type's own base and its neighbours) and multi-digit targets: the full divide / multiply / subtract conversion, remainders compared with plain long division, then Horner's rule in the source type and in a second type (every ordered pair of types). The shipped byte codec: every byte string of length 0..2, every string of length 3 and 4 over boundary bytes and structured strings of every length up to 17 and every third up to 48 (quick) or 80 (thorough) on the 8-bit native and the user-defined base-256 type. states = conversions started, transitions = library operations, traces = completed round trips.",
        {"the codec is a transcription of tests/compress_test.cpp with bytes taken as unsigned and 8-bit output words", "numbers longer than the stated bits are not converted (division is quadratic)", "g++ -O2"}});
}
