// Reference model: boring arithmetic on sign + base-B digit sequences (least
// significant digit first), written without looking at the library.
#pragma once
#include <algorithm>
#include "api.hpp"

namespace model {

struct Val { int desc = D_POS; Digits d; };         // a stored form

inline bool finite(int desc) { return desc == D_POS || desc == D_NEG; }
inline size_t len(const Digits& d) { size_t n = d.size(); while (n && !d[n - 1]) --n; return n; }
inline bool zero(const Digits& d) { return len(d) == 0; }
inline void trim(Digits& d) { d.resize(len(d)); }

inline int cmp_abs(const Digits& a, const Digits& b) {
    const size_t la = len(a), lb = len(b);
    if (la != lb) return la < lb ? -1 : 1;
    for (size_t i = la; i-- > 0;) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return 0;
}
inline int sign(const Val& v) { return zero(v.d) ? 0 : v.desc == D_NEG ? -1 : 1; }
inline int cmp(const Val& a, const Val& b) {          // finite numbers
    const int sa = sign(a), sb = sign(b);
    if (sa != sb) return sa < sb ? -1 : 1;
    return sa == 0 ? 0 : sa * cmp_abs(a.d, b.d);
}
inline bool same_value(const Val& a, const Val& b) {
    if (finite(a.desc) && finite(b.desc)) return cmp(a, b) == 0;
    return a.desc == b.desc;
}
// r must not alias an operand
inline void add_abs(Digits& r, const Digits& a, const Digits& b, u64 base) {
    const size_t n = std::max(a.size(), b.size());
    r.resize(n + 1);
    u64 c = 0;
    for (size_t i = 0; i < n; ++i) {
        const u64 s = (i < a.size() ? a[i] : 0) + (i < b.size() ? b[i] : 0) + c;
        c = s >= base; r[i] = c ? s - base : s;
    }
    r[n] = c;
    trim(r);
}
inline void sub_abs(Digits& r, const Digits& a, const Digits& b, u64 base) {   // |a| >= |b|
    const size_t n = len(a), m = len(b);
    r.resize(n);
    u64 c = 0;
    for (size_t i = 0; i < n; ++i) {
        const u64 s = (i < m ? b[i] : 0) + c;
        c = a[i] < s; r[i] = c ? a[i] + base - s : a[i] - s;
    }
    trim(r);
}
inline void mul_abs(Digits& r, const Digits& a, const Digits& b, u64 base) {
    const size_t n = len(a), m = len(b);
    r.assign(n + m, 0);
    for (size_t i = 0; i < n; ++i) {
        if (!a[i]) continue;
        u64 c = 0;
        for (size_t j = 0; j < m; ++j) {
            const u64 s = r[i + j] + a[i] * b[j] + c;   // <= 2^64-1 for base <= 2^32
            r[i + j] = s % base; c = s / base;
        }
        r[i + m] += c;
    }
    trim(r);
}
inline void add_signed(Val& r, const Val& a, const Val& b, bool negateB, u64 base) {
    const int sa = sign(a), sb = negateB ? -sign(b) : sign(b);
    if (!sa || !sb || sa == sb) {
        add_abs(r.d, a.d, b.d, base);
        r.desc = (sa < 0 || sb < 0) ? D_NEG : D_POS;
    } else if (cmp_abs(a.d, b.d) >= 0) {
        sub_abs(r.d, a.d, b.d, base);
        r.desc = sa < 0 ? D_NEG : D_POS;
    } else {
        sub_abs(r.d, b.d, a.d, base);
        r.desc = sb < 0 ? D_NEG : D_POS;
    }
    if (r.d.empty()) r.desc = D_POS;
}
inline void mul_signed(Val& r, const Val& a, const Val& b, u64 base) {
    mul_abs(r.d, a.d, b.d, base);
    r.desc = sign(a) * sign(b) < 0 ? D_NEG : D_POS;
}
// Is q the quotient of a / b truncated toward zero?  |q||b| <= |a| < (|q|+1)|b|
inline bool is_quotient(const Val& q, const Val& a, const Val& b, u64 base) {
    static Digits p, s;
    if (!finite(q.desc)) return false;
    for (u64 x : q.d) if (x >= base) return false;
    if (cmp_abs(a.d, b.d) < 0) return zero(q.d);
    if (zero(q.d) || sign(q) != sign(a) * sign(b)) return false;
    if (len(q.d) + len(b.d) > len(a.d) + 2) return false;
    mul_abs(p, q.d, b.d, base);
    if (cmp_abs(p, a.d) > 0) return false;
    add_abs(s, p, b.d, base);
    return cmp_abs(s, a.d) > 0;
}
// Quotient by schoolbook long division with a binary search per digit.
inline void div_signed(Val& r, const Val& a, const Val& b, u64 base) {
    Digits rem, t, one(1, 0), nr;
    const size_t n = len(a.d);
    r.d.assign(n, 0);
    for (size_t i = n; i-- > 0;) {
        rem.insert(rem.begin(), a.d[i]); trim(rem);
        u64 lo = 0, hi = base - 1;
        while (lo < hi) {
            const u64 mid = lo + (hi - lo + 1) / 2;
            one[0] = mid; mul_abs(t, b.d, one, base);
            if (cmp_abs(t, rem) <= 0) lo = mid; else hi = mid - 1;
        }
        if (lo) { one[0] = lo; mul_abs(t, b.d, one, base); sub_abs(nr, rem, t, base); rem.swap(nr); }
        r.d[i] = lo;
    }
    trim(r.d);
    r.desc = sign(a) * sign(b) < 0 && !r.d.empty() ? D_NEG : D_POS;
}
inline void apply(Val& r, const Val& a, const Val& b, int op, u64 base) {   // finite, b != 0 for DIV
    switch (op) {
        case ADD: add_signed(r, a, b, false, base); break;
        case SUB: add_signed(r, a, b, true, base); break;
        case MUL: mul_signed(r, a, b, base); break;
        default: div_signed(r, a, b, base); break;
    }
}
// Extended-real rules. Returns D_POS/D_NEG when the finite rules apply, -1 when
// the result is unspecified, ZERO_RESULT for finite / infinity, else a descriptor.
enum { UNSPECIFIED = -1, FINITE_RESULT = -2, ZERO_RESULT = -3, NONFINITE_RESULT = -4 };
inline int special(const Val& a, const Val& b, int op) {
    if (a.desc == D_NAN || b.desc == D_NAN) return D_NAN;
    const bool ia = !finite(a.desc), ib = !finite(b.desc);
    const bool na = a.desc == D_NEG || a.desc == D_NINF, nb0 = b.desc == D_NEG || b.desc == D_NINF;
    const bool za = !ia && zero(a.d), zb = !ib && zero(b.d);
    switch (op) {
        case ADD: case SUB: {
            const bool nb = op == SUB ? !nb0 : nb0;
            if (ia && ib) return na == nb ? (na ? D_NINF : D_PINF) : D_NAN;
            if (ia) return na ? D_NINF : D_PINF;
            if (ib) return nb ? D_NINF : D_PINF;
            return FINITE_RESULT;
        }
        case MUL:
            if (!ia && !ib) return FINITE_RESULT;
            if (za || zb) return D_NAN;
            return na != nb0 ? D_NINF : D_PINF;
        default:
            if (ia && ib) return D_NAN;
            if (ib) return ZERO_RESULT;
            if (ia) return zb ? NONFINITE_RESULT : na != nb0 ? D_NINF : D_PINF;
            if (zb) return za ? NONFINITE_RESULT : 100;     // 100: infinity with the product sign (sign of a stored zero counts)
            return FINITE_RESULT;
    }
}
inline u64 hash(const Val& v) {
    u64 h = 1469598103934665603ull + v.desc;
    for (u64 x : v.d) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); }
    return h * 0x9ddfea08eb382d69ull;
}
}
