#include "sets.hpp"
#include "bignum/bignum.h"
#include <sstream>
#include <type_traits>
// Digit integers against the underlying unsigned type, modulo its width.
template <class U> static U wrap(unsigned __int128 x) { return U(x); }
enum { NBIN = 10 };
static const char* const bin_txt[NBIN] = {"+", "-", "*", "/", "%", "&", "|", "^", ">>", "<<"};
static const char* const cmp_txt[6] = {"==", "!=", ">", ">=", "<", "<="};
template <class U> static bool defined(int op, U b) {
    if (op == 3 || op == 4) return b != 0;
    if (op == 8 || op == 9) return b < sizeof(U) * 8;
    return true;
}
template <class U> static U ref(int op, U a, U b) {
    typedef unsigned __int128 W;
    switch (op) {
        case 0: return wrap<U>(W(a) + W(b));
        case 1: return wrap<U>(W(a) - W(b));
        case 2: return wrap<U>(W(a) * W(b));
        case 3: return wrap<U>(W(a) / W(b));
        case 4: return wrap<U>(W(a) % W(b));
        case 5: return wrap<U>(W(a) & W(b));
        case 6: return wrap<U>(W(a) | W(b));
        case 7: return wrap<U>(W(a) ^ W(b));
        case 8: return wrap<U>(W(a) >> b);
        default: return wrap<U>(W(a) << b);
    }
}
static bool refcmp(int k, u64 a, u64 b) {
    switch (k) { case 0: return a == b; case 1: return a != b; case 2: return a > b; case 3: return a >= b; case 4: return a < b; default: return a <= b; }
}
template <class L, class R> static auto bin(int op, const L& l, const R& r) -> decltype(l + r) {
    switch (op) {
        case 0: return l + r; case 1: return l - r; case 2: return l * r; case 3: return l / r; case 4: return l % r;
        case 5: return l & r; case 6: return l | r; case 7: return l ^ r; case 8: return l >> r; default: return l << r;
    }
}
template <class L, class R> static const void* asg(int op, L& l, const R& r) {
    switch (op) {
        case 0: return &(l += r); case 1: return &(l -= r); case 2: return &(l *= r); case 3: return &(l /= r); case 4: return &(l %= r);
        case 5: return &(l &= r); case 6: return &(l |= r); case 7: return &(l ^= r); case 8: return &(l >>= r); default: return &(l <<= r);
    }
}
template <class L, class R> static bool cmpop(int k, const L& l, const R& r) {
    switch (k) { case 0: return l == r; case 1: return l != r; case 2: return l > r; case 3: return l >= r; case 4: return l < r; default: return l <= r; }
}
template <class T, class U> struct Check {
    const char* name;
    void say(Ctx& c, const std::string& s) const { c.log("// " + std::string(name) + ": " + s); }
    void bad(Ctx& c, const std::string& what, u64 got, u64 want) const {
        c.fail(std::string(name) + ": " + what + " gave " + std::to_string(got) + ", the underlying type gives " + std::to_string(want));
    }
    void pair(Ctx& c, U a, U b) const {
        if (!c.begin()) return;
        ++c.states;
        if (c.logging) say(c, "operands " + std::to_string(a) + " and " + std::to_string(b));
        auto what = [&](const char* form, const char* op) { return std::string(form) + " " + std::to_string(a) + " " + op + " " + std::to_string(b); };
        for (int op = 0; op < NBIN; ++op) {
            if (!defined<U>(op, b)) continue;
            const U want = ref<U>(op, a, b);
            const T x(a), y(b);
            const U ia = a, ib = b;
            { const T r = bin<T, T>(op, x, y); if (r.num != want) bad(c, what("wrapper-wrapper", bin_txt[op]), r.num, want); }
            { const T r = bin<T, U>(op, x, ib); if (r.num != want) bad(c, what("wrapper-integer", bin_txt[op]), r.num, want); }
            { const U r = bin<U, T>(op, ia, y); if (r != want) bad(c, what("integer-wrapper", bin_txt[op]), r, want); }
            if (x.num != a || y.num != b || ia != a || ib != b) bad(c, what("an operand was modified by", bin_txt[op]), x.num, a);
            { T m(a); const T n(b); if (asg<T, T>(op, m, n) != &m) bad(c, what("wrong reference returned by compound wrapper-wrapper", bin_txt[op]), 0, 0); if (m.num != want) bad(c, what("compound wrapper-wrapper", bin_txt[op]), m.num, want); if (n.num != b) bad(c, what("right operand modified by compound wrapper-wrapper", bin_txt[op]), n.num, b); }
            { T m(a); const U n = b; if (asg<T, U>(op, m, n) != &m) bad(c, what("wrong reference returned by compound wrapper-integer", bin_txt[op]), 0, 0); if (m.num != want) bad(c, what("compound wrapper-integer", bin_txt[op]), m.num, want); if (n != b) bad(c, what("right operand modified by compound wrapper-integer", bin_txt[op]), n, b); }
            { U m = a; const T n(b); if (asg<U, T>(op, m, n) != &m) bad(c, what("wrong reference returned by compound integer-wrapper", bin_txt[op]), 0, 0); if (m != want) bad(c, what("compound integer-wrapper", bin_txt[op]), m, want); if (n.num != b) bad(c, what("right operand modified by compound integer-wrapper", bin_txt[op]), n.num, b); }
            if (a == b) { T m(a); asg<T, T>(op, m, m); if (m.num != want) bad(c, what("aliased compound", bin_txt[op]), m.num, want); ++c.transitions; }
            c.transitions += 6; ++c.traces;
            c.outcome(u64(want) * 16 + op);
        }
        for (int k = 0; k < 6; ++k) {
            const bool want = refcmp(k, a, b);
            const T x(a), y(b); const U ia = a, ib = b;
            if (cmpop<T, T>(k, x, y) != want) bad(c, what("wrapper-wrapper", cmp_txt[k]), !want, want);
            if (cmpop<T, U>(k, x, ib) != want) bad(c, what("wrapper-integer", cmp_txt[k]), !want, want);
            if (cmpop<U, T>(k, ia, y) != want) bad(c, what("integer-wrapper", cmp_txt[k]), !want, want);
            if (x.num != a || y.num != b) bad(c, what("an operand was modified by", cmp_txt[k]), x.num, a);
            c.transitions += 3; ++c.traces;
        }
        { T x(a); const T y(b); if (&(x = y) != &x) bad(c, what("wrong reference returned by", "="), 0, 0); if (x.num != b || y.num != b) bad(c, what("wrapper", "="), x.num, b); }
        { T x(a); T y(b); if (&(x = std::move(y)) != &x) bad(c, what("wrong reference returned by move", "="), 0, 0); if (x.num != b) bad(c, what("wrapper move", "="), x.num, b); }
        { T x(a); const U y = b; if (&(x = y) != &x) bad(c, what("wrong reference returned by integer", "="), 0, 0); if (x.num != b || y != b) bad(c, what("wrapper = integer", "="), x.num, b); }
        { T x(a); U y = b; if (&(x = std::move(y)) != &x) bad(c, what("wrong reference returned by integer move", "="), 0, 0); if (x.num != b) bad(c, what("wrapper = integer&&", "="), x.num, b); }
        c.transitions += 4;
    }
    void one(Ctx& c, U a) const {
        if (!c.begin()) return;
        ++c.states;
        if (c.logging) say(c, "operand " + std::to_string(a));
        const std::string t = std::to_string(a);
        const T x(a);
        if (x.num != a) bad(c, "construction from " + t, x.num, a);
        { U l = a; T y(l); if (y.num != a) bad(c, "construction from an lvalue " + t, y.num, a); T z(y); if (z.num != a || y.num != a) bad(c, "copy construction of " + t, z.num, a); T w(std::move(z)); if (w.num != a) bad(c, "move construction of " + t, w.num, a); }
        if (static_cast<U>(x) != a) bad(c, "conversion of " + t, static_cast<U>(x), a);
        { const U r = x; if (r != a) bad(c, "implicit conversion of " + t, r, a); }
        if ((!x).num != U(!a)) bad(c, "!" + t, (!x).num, U(!a));
        if ((+x).num != U(+a)) bad(c, "+" + t, (+x).num, U(+a));
        if ((-x).num != ref<U>(1, 0, a)) bad(c, "-" + t, (-x).num, ref<U>(1, 0, a));
        if ((~x).num != U(~a)) bad(c, "~" + t, (~x).num, U(~a));
        if (x.num != a) bad(c, "a unary operator modified " + t, x.num, a);
        { T y(a); T r = y++; if (r.num != a || y.num != ref<U>(0, a, 1)) bad(c, t + "++", y.num, ref<U>(0, a, 1)); }
        { T y(a); T r = y--; if (r.num != a || y.num != ref<U>(1, a, 1)) bad(c, t + "--", y.num, ref<U>(1, a, 1)); }
        { T y(a); T& r = ++y; if (&r != &y || y.num != ref<U>(0, a, 1)) bad(c, "++" + t, y.num, ref<U>(0, a, 1)); }
        { T y(a); T& r = --y; if (&r != &y || y.num != ref<U>(1, a, 1)) bad(c, "--" + t, y.num, ref<U>(1, a, 1)); }
        { T y(a); y = y; if (y.num != a) bad(c, "self assignment of " + t, y.num, a); }
        c.transitions += 14;
        // text round trip, alone and next to other tokens
        for (int base : {10, 16, 8}) {
            std::stringstream s;
            auto flag = base == 16 ? std::ios_base::hex : base == 8 ? std::ios_base::oct : std::ios_base::dec;
            s.setf(flag, std::ios_base::basefield);
            std::ostream& o = (s << x);
            if (&o != static_cast<std::ostream*>(&s)) bad(c, "the stream returned by << for " + t, 0, 1);
            char buf[40]; snprintf(buf, sizeof buf, base == 16 ? "%llx" : base == 8 ? "%llo" : "%llu", (unsigned long long)a);
            if (s.str() != buf) c.fail(std::string(name) + ": " + t + " is written as \"" + s.str() + "\" instead of \"" + buf + "\"");
            s << ' ' << x << ' ' << T(U(a + 1));
            T r1(U(~a)), r2(U(~a)), r3(a);
            std::istream& in = (s >> r1);
            if (&in != static_cast<std::istream*>(&s)) bad(c, "the stream returned by >> for " + t, 0, 1);
            s >> r2 >> r3;
            if (!s) c.fail(std::string(name) + ": reading back \"" + s.str() + "\" fails (base " + std::to_string(base) + ")");
            if (r1.num != a) bad(c, "reading back " + t, r1.num, a);
            if (r2.num != a) bad(c, "reading back a second " + t, r2.num, a);
            if (r3.num != U(a + 1)) bad(c, "reading back " + std::to_string(U(a + 1)), r3.num, U(a + 1));
            c.transitions += 6; ++c.traces;
        }
    }
    std::vector<U> vals(unsigned rich) const {
        std::set<u64> s;
        const unsigned w = sizeof(U) * 8;
        const u64 M = w == 64 ? ~0ull : (1ull << w) - 1;
        for (unsigned i = 0; i <= 72 && i <= M; ++i) s.insert(i);
        for (unsigned p = 0; p < w; ++p) for (int d = -1; d <= 1; ++d) { s.insert(((1ull << p) + d) & M); s.insert((M - (1ull << p) + d) & M); if (rich > 1) { s.insert((M / 3 + (1ull << p)) & M); s.insert((3ull << p) & M); s.insert((5ull << p) & M); } }
        for (u64 k : {2, 3, 5, 7, 10, 255, 256, 1000}) for (int d = -1; d <= 1; ++d) { s.insert((M / k + d) & M); s.insert((k * 7 + d) & M); }
        u64 r = 1; while (r * r <= M && r < (1ull << 32)) r *= 2;
        u64 q = 10; while (q <= M && q < (1ull << 60)) { s.insert(q); s.insert(q - 1); q *= 10; }
        std::vector<U> v; for (u64 x : s) v.push_back(U(x & M));
        std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
        return v;
    }
    void jobs(std::vector<Job>& js, bool thorough, bool full) const {
        const Check self = *this;
        if (sizeof(U) == 1) {
            for (int s = 0; s < 4; ++s) js.push_back({std::string(name) + " all pairs " + std::to_string(s), [=](Ctx& c) { for (int a = s; a < 256; a += 4) for (int b = 0; b < 256; ++b) self.pair(c, U(a), U(b)); }});
            js.push_back({std::string(name) + " all values", [=](Ctx& c) { for (int a = 0; a < 256; ++a) self.one(c, U(a)); }});
        } else {
            const std::vector<U> v = vals(2);
            for (size_t s = 0; s < 4; ++s) js.push_back({std::string(name) + " boundary pairs " + std::to_string(s), [=](Ctx& c) { for (size_t i = s; i < v.size(); i += 4) for (U b : v) self.pair(c, v[i], b); }});
            js.push_back({std::string(name) + " values", [=](Ctx& c) { if (sizeof(U) == 2) for (unsigned a = 0; a < 65536; ++a) self.one(c, U(a)); else for (U a : v) self.one(c, a); }});
            if (sizeof(U) == 2 && full) {
                std::vector<U> w = v;
                if (thorough) { w.clear(); for (unsigned b = 0; b < 65536; ++b) w.push_back(U(b)); }
                const size_t slices = thorough ? 512 : 16;
                for (size_t s = 0; s < slices; ++s) js.push_back({std::string(name) + " every left operand " + std::to_string(s), [=](Ctx& c) { for (unsigned a = s; a < 65536; a += slices) for (U b : w) { self.pair(c, U(a), b); } }});
            }
        }
    }
};
static void constants(Ctx& c) {
    if (!c.begin()) return;
    ++c.states;
    // usable in constant expressions, as the limits of the number types require
    constexpr bn_base10_single d3(BN_UINT32(3)), d4(BN_UINT32(4));
    constexpr bn_base10_single s = d3 + d4 * d4 - BN_UINT32(2);
    static_assert(sizeof(bn_base2_single) == 1 && sizeof(bn_base8_single) == 2 && sizeof(bn_base10_single) == 4 && sizeof(bn_base16_double) == 8, "sizes");
    bn_base10_single z;
    if (s.num != 17 || z.num != 0) c.fail("constant expressions on digits: " + std::to_string(s.num));
    if (bn_uint8().num || bn_uint16().num || bn_uint32().num || bn_base2_single().num || bn_base16_double().num) c.fail("a default-constructed digit is not zero");
    c.transitions += 4; ++c.traces;
}
static void make(std::vector<Job>& js, bool thorough) {
    Check<bn_uint8, BN_UINT8>{"bn_uint8"}.jobs(js, thorough, true);
    Check<bn_base2_single, BN_UINT8>{"bn_base2_single"}.jobs(js, thorough, true);
    Check<bn_uint16, BN_UINT16>{"bn_uint16"}.jobs(js, thorough, true);
    Check<bn_base2_double, BN_UINT16>{"bn_base2_double"}.jobs(js, false, true);
    Check<bn_base8_single, BN_UINT16>{"bn_base8_single"}.jobs(js, thorough, true);
    Check<bn_uint32, BN_UINT32>{"bn_uint32"}.jobs(js, thorough, false);
    Check<bn_base8_double, BN_UINT32>{"bn_base8_double"}.jobs(js, thorough, false);
    Check<bn_base10_single, BN_UINT32>{"bn_base10_single"}.jobs(js, thorough, false);
    Check<bn_base16_single, BN_UINT32>{"bn_base16_single"}.jobs(js, thorough, false);
    Check<bn_base10_double, BN_UINT64>{"bn_base10_double"}.jobs(js, thorough, false);
    Check<bn_base16_double, BN_UINT64>{"bn_base16_double"}.jobs(js, thorough, false);
    js.push_back({"constants", constants});
}
int main(int argc, char** argv) {
    return check_main(argc, argv, make, {
        "Exhaustive over: all 65536 operand pairs for the 8-bit digit types; for the 16-, 32- and 64-bit ones all pairs of boundary values (around every power of two and its complement, fractions of the range, powers of ten), for 16-bit types also every left operand against every boundary right operand (thorough: all 2^32 pairs for bn_uint16 and the base-8 digits); every operator in wrapper-wrapper, wrapper-integer, integer-wrapper and the three compound forms plus aliasing, all comparisons, unary operators, increments, constructions, conversions, and text round trips in dec/hex/oct of all 8- and 16-bit values. Oracle: the operation in 128-bit unsigned arithmetic reduced modulo the width. states = operand pairs, traces = (pair, operator) judged, transitions = operator executions.",
        {"shift counts not below the width and divisions by zero are excluded (undefined for the underlying type)", "32- and 64-bit operands range over boundary values", "g++ -O2"}});
}
