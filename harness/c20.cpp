#include <cmath>
#include <deque>
#include <typeinfo>
#include "sets.hpp"
#include "bignum/bignum.h"
#include "bignum/fourier.h"
typedef long double LD;
typedef std::complex<LD> Z;
static const LD PI = 3.14159265358979323846264338327950288L;
static const std::vector<Z>& roots(size_t n) {
    static std::vector<std::vector<Z>> cache(64);
    std::vector<Z>& r = cache[__builtin_ctzll(n)];
    if (r.size() != n) { r.resize(n); for (size_t k = 0; k < n; ++k) { const LD w = -2 * PI * LD(k) / LD(n); r[k] = Z(std::cos(w), std::sin(w)); } }
    return r;
}
template <class F> struct Tol;
template <> struct Tol<double> { static LD v(size_t n) { return n <= 64 ? 2e-14L : n <= 4096 ? 1e-12L : 2e-11L; } static const char* n() { return "double"; } };
template <> struct Tol<float> { static LD v(size_t n) { return n <= 512 ? 5e-5L : 2e-4L; } static const char* n() { return "float"; } };
template <> struct Tol<LD> { static LD v(size_t n) { return n <= 64 ? 2e-14L : 1e-12L; } static const char* n() { return "long double"; } };
template <class F> static std::string num(const std::complex<F>& z) { char b[80]; snprintf(b, sizeof b, "(%.17g,%.17g)", double(z.real()), double(z.imag())); return b; }
template <class F> static void show(Ctx& c, const cmplx_list_t<F>& x) {
    if (!c.logging) return;
    std::string s = "// #include \"bignum/fourier.h\"  cmplx_list_t<" + std::string(Tol<F>::n()) + "> x{";
    for (size_t i = 0; i < x.size() && i < 64; ++i) s += (i ? "," : "") + num(x[i]);
    c.log(s + (x.size() > 64 ? ", ..." : "") + "}; // length " + std::to_string(x.size()));
}
template <class F, class Want> static void compare(Ctx& c, const cmplx_list_t<F>& y, size_t n, LD norm, const char* what, Want want) {
    if (y.size() != n) c.fail(std::string(what) + ": length " + std::to_string(n) + " became " + std::to_string(y.size()));
    const LD tol = Tol<F>::v(n) * (norm > 1 ? norm : 1);
    for (size_t k = 0; k < n; ++k) {
        const Z w = want(k);
        const LD e = std::abs(Z(y[k].real(), y[k].imag()) - w);
        if (!(e <= tol)) { char b[200]; snprintf(b, sizeof b, " element %zu of %zu (%s) is (%.12g,%.12g), expected (%.12Lg,%.12Lg)", k, n, Tol<F>::n(), double(y[k].real()), double(y[k].imag()), w.real(), w.imag()); c.fail(std::string(what) + ":" + b); }
    }
}
// forward transform of x against `want`, then the inverse against x itself
template <class F, class Want> static void both(Ctx& c, const cmplx_list_t<F>& x, LD norm, Want want) {
    show(c, x);
    cmplx_list_t<F> y(x);
    fft_complex<F>(y);
    compare<F>(c, y, x.size(), norm, "forward transform", want);
    ifft_complex<F>(y);
    compare<F>(c, y, x.size(), norm, "inverse of the forward transform", [&](size_t k) { return Z(x[k].real(), x[k].imag()); });
    y = x; ifft_complex<F>(y); fft_complex<F>(y);
    compare<F>(c, y, x.size(), norm, "forward of the inverse transform", [&](size_t k) { return Z(x[k].real(), x[k].imag()); });
    c.transitions += 4; ++c.traces;
}
template <class F> static void basis(Ctx& c, size_t n, size_t from, size_t step) {
    for (size_t j = from; j < n; j += step) for (int im = 0; im < 4; ++im) {
        if (!c.begin()) continue;
        ++c.states; c.outcome(n * 131071 + j * 4 + im);
        if (im < 2) {           // a unit impulse: its transform is a rotating phasor
            cmplx_list_t<F> x(n); x[j] = im ? std::complex<F>(0, 1) : std::complex<F>(1, 0);
            const std::vector<Z>& r = roots(n);
            both<F>(c, x, 1, [&](size_t k) { const Z w = r[size_t((u64(j) * k) % n)]; return im ? Z(-w.imag(), w.real()) : w; });
        } else {                // a phasor: its transform is an impulse
            cmplx_list_t<F> x(n); const std::vector<Z>& r = roots(n);
            for (size_t k = 0; k < n; ++k) { Z w = std::conj(r[size_t((u64(j) * k) % n)]); if (im == 3) w *= Z(0, 1); x[k] = std::complex<F>(F(w.real()), F(w.imag())); }
            both<F>(c, x, LD(n), [&](size_t k) { return k == j ? (im == 3 ? Z(0, LD(n)) : Z(LD(n), 0)) : Z(0, 0); });
        }
    }
}
template <class F> static void signal_case(Ctx& c, const cmplx_list_t<F>& x) {
    if (!c.begin()) return;
    ++c.states;
    const size_t n = x.size(); const std::vector<Z>& r = roots(n);
    LD norm = 0; for (auto& v : x) norm += std::abs(Z(v.real(), v.imag()));
    both<F>(c, x, norm, [&](size_t k) { Z s = 0; for (size_t i = 0; i < n; ++i) s += Z(x[i].real(), x[i].imag()) * r[(k * i) % n]; return s; });
}
template <class F> static void all_signals(Ctx& c, size_t n, const std::vector<std::complex<F>>& al) {
    std::vector<size_t> idx(n, 0);
    for (;;) {
        cmplx_list_t<F> x(n); for (size_t i = 0; i < n; ++i) x[i] = al[idx[i]];
        signal_case<F>(c, x);
        size_t k = 0; while (k < n && ++idx[k] == al.size()) idx[k++] = 0;
        if (k == n) break;
    }
}
template <class C, class F> static void conv_case(Ctx& c, const Digits& a, const Digits& b, const char* kind) {
    if (a.empty() && b.empty()) return;
    if (!c.begin()) return;
    ++c.states;
    C ca, cb;
    for (u64 v : a) ca.push_back(static_cast<typename C::value_type>(v));
    for (u64 v : b) cb.push_back(static_cast<typename C::value_type>(v));
    if (c.logging) c.log("// convolution (" + std::string(kind) + ", " + Tol<F>::n() + ") of " + digits_text(a) + " and " + digits_text(b));
    cmplx_list_t<F> t = create_fft_table<C, F>(ca, cb);
    const size_t n = t.size();
    const std::string what = std::string(kind) + " " + Tol<F>::n() + " table of " + digits_text(a) + " and " + digits_text(b);
    if (n < a.size() + b.size() || !n || (n & (n - 1))) c.fail(what + ": length " + std::to_string(n) + " for " + std::to_string(a.size()) + " and " + std::to_string(b.size()) + " digits");
    for (size_t i = 0; i < a.size(); ++i) if (u64(ca[i]) != a[i]) c.fail(what + ": an input sequence changed");
    for (size_t i = 0; i < b.size(); ++i) if (u64(cb[i]) != b[i]) c.fail(what + ": an input sequence changed");
    convolute_fft<F>(t);
    ifft_complex<F>(t);
    if (t.size() != n) c.fail(what + ": convolution changes the length");
    Digits w(n, 0);
    for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) w[i + j] += a[i] * b[j];
    for (size_t i = 0; i < n; ++i) {
        const LD e = std::fabs(LD(t[i].real()) - LD(w[i]));
        if (!(e < 0.5L)) { char s[120]; snprintf(s, sizeof s, ": coefficient %zu is %.9g, expected %llu", i, double(t[i].real()), (unsigned long long)w[i]); c.fail(what + s); }
    }
    c.transitions += 3; ++c.traces; c.outcome(model::hash(val(0, w)));
}
static void make(std::vector<Job>& jobs, bool thorough) {
    for (size_t n = 1; n <= size_t(thorough ? 4096 : 1024); n *= 2)
        for (size_t s = 0; s < (n >= 64 ? 16 : 1); ++s) {
            jobs.push_back({"impulses and phasors double length " + std::to_string(n) + " slice " + std::to_string(s), [=](Ctx& c) { basis<double>(c, n, s, n >= 64 ? 16 : 1); }});
            if (n <= 64) jobs.push_back({"impulses and phasors long double length " + std::to_string(n) + " slice " + std::to_string(s), [=](Ctx& c) { basis<LD>(c, n, s, n >= 64 ? 16 : 1); }});
            if (n <= 512) jobs.push_back({"impulses and phasors float length " + std::to_string(n) + " slice " + std::to_string(s), [=](Ctx& c) { basis<float>(c, n, s, n >= 64 ? 16 : 1); }});
        }
    for (size_t n = thorough ? 8192 : 2048; n <= size_t(thorough ? 1 << 20 : 1 << 17); n *= 2)
        for (size_t s = 0; s < 2; ++s)
            jobs.push_back({"impulses and phasors double length " + std::to_string(n) + " slice " + std::to_string(s), [=](Ctx& c) {
                std::vector<size_t> js = {0, 1, 2, 3, n / 8, n / 4, n / 2 - 1, n / 2, n / 2 + 1, n - 2, n - 1};
                if (n > 16384) js = {1, n / 2 + 1, n - 1};
                for (size_t i = s; i < js.size(); i += 2) basis<double>(c, n, js[i], n);
            }});
    typedef std::complex<double> D; typedef std::complex<float> S;
    jobs.push_back({"all signals length 1", [](Ctx& c) {
        for (int a = -20; a <= 20; ++a) for (int b = -20; b <= 20; ++b) { signal_case<double>(c, {D(a, b)}); signal_case<float>(c, {S(float(a), float(b))}); }
    }});
    for (size_t n = 2; n <= 8; n *= 2)
        jobs.push_back({"all signals length " + std::to_string(n), [=](Ctx& c) {
            std::vector<D> al = {D(0, 0), D(1, 0), D(-1, 0), D(0, 1)};
            if (n <= 4) for (D d : {D(0, -1), D(2, -3), D(1000, 0), D(0.5, 0.25), D(-7, 1e6)}) al.push_back(d);
            else if (thorough) al.push_back(D(3, -2));
            all_signals<double>(c, n, al);
            if (n <= 4) all_signals<float>(c, n, {S(0, 0), S(1, 0), S(-1, 0), S(0, 1), S(3, -2)});
        }});
    jobs.push_back({"structured signals", [=](Ctx& c) {
        for (size_t n = 16; n <= size_t(thorough ? 1024 : 256); n *= 2) for (u64 base : {2, 10, 256, 65536}) for (const Digits& p : patterns(base, n, 2)) for (const Digits& q : patterns(base, n, 0)) {
            cmplx_list_t<double> x(n); for (size_t i = 0; i < n; ++i) x[i] = D(double(p[i]) - double(base / 2), double(q[i]));
            signal_case<double>(c, x);
        }
    }});
    // the table's length: every pair of short lengths, and sums around every power of two
    auto table_case = [](Ctx& c, size_t n, size_t m) {
        if (!c.begin() || !(n + m)) return;
        ++c.states; ++c.transitions;
        static const std::vector<uint8_t> zero(8u << 20, 1);
        const std::vector<uint8_t> a(zero.begin(), zero.begin() + n), b(zero.begin(), zero.begin() + m);
        const cmplx_list_t<float> t = create_fft_table<std::vector<uint8_t>, float>(a, b);
        if (c.logging) c.log("// table of " + std::to_string(n) + " and " + std::to_string(m) + " digits");
        if (t.size() < n + m || (t.size() & (t.size() - 1))) c.fail("the table of " + std::to_string(n) + " and " + std::to_string(m) + " digits has length " + std::to_string(t.size()));
        ++c.traces; c.outcome(t.size());
    };
    for (size_t s = 0; s < 4; ++s)
        jobs.push_back({"table lengths " + std::to_string(s), [=](Ctx& c) {
            for (size_t n = s; n <= size_t(thorough ? 600 : 300); n += 4) for (size_t m = 0; m <= size_t(thorough ? 600 : 300); ++m) table_case(c, n, m);
            for (size_t k = 9; k <= size_t(thorough ? 22 : 20); ++k) for (long d = -3; d <= 4; ++d) for (size_t part : {0, 1, 2, 3}) {
                if ((k + part) % 4 != s) continue;
                const size_t sum = (size_t(1) << k) + d, n = part == 0 ? 0 : part == 1 ? 1 : part == 2 ? sum / 2 : sum - 7;
                table_case(c, n, sum - n); table_case(c, sum - n, n);
            }
        }});
    // convolutions
    typedef std::vector<uint8_t> V8; typedef std::vector<uint16_t> V16; typedef std::vector<uint32_t> V32; typedef std::deque<uint16_t> Q16; typedef std::vector<bn_base10_single> VD;
    jobs.push_back({"all short convolutions", [=](Ctx& c) {
        for (u64 base : {2, 3, 10, 256}) {
            const Forms f = short_forms(base, base == 2 ? (thorough ? 520 : 260) : base == 3 ? (thorough ? 370 : 130) : thorough ? 1200 : 160, 1);
            for (const Digits& a : f) for (const Digits& b : f) { conv_case<V16, double>(c, a, b, "16-bit vector"); if (base <= 3) conv_case<V8, float>(c, a, b, "8-bit vector"); }
        }
    }});
    for (size_t n = 0; n <= size_t(thorough ? 80 : 40); ++n)
        jobs.push_back({"convolutions of length " + std::to_string(n), [=](Ctx& c) {
            for (u64 base : {2, 10, 256, 65536}) for (size_t m = 0; m <= size_t(thorough ? 80 : 40); ++m) for (const Digits& a : patterns(base, n, 0)) for (const Digits& b : patterns(base, m, 0)) {
                conv_case<V32, double>(c, a, b, "32-bit vector");
                if (base == 10) conv_case<VD, double>(c, a, b, "vector of decimal digits");
                if (base == 256) { conv_case<V8, double>(c, a, b, "8-bit vector"); conv_case<Q16, double>(c, a, b, "deque"); }
                if (base == 2) conv_case<V8, float>(c, a, b, "8-bit vector");
            }
        }});
    for (size_t n : {127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096})
        jobs.push_back({"long convolutions " + std::to_string(n), [=](Ctx& c) {
            for (u64 base : {2, 10, 256, 10000}) for (size_t m : {size_t(1), size_t(2), size_t(100), n / 2, n - 1, n, n + 1}) {
                if (n > 1100 && !thorough && base != 10) continue;
                for (const Digits& a : patterns(base, n, 0)) for (const Digits& b : patterns(base, m, 0)) { conv_case<V32, double>(c, a, b, "32-bit vector"); if (base == 2 && n <= 1100) conv_case<V8, float>(c, a, b, "8-bit vector"); if (base == 10 && n <= 520) conv_case<V8, LD>(c, a, b, "8-bit vector"); }
            }
        }});
}
int main(int argc, char** argv) {
    return check_main(argc, argv, make, {
        "Direct exploration of fft_complex, ifft_complex, create_fft_table and convolute_fft. Exhaustive over: every unit impulse (real and imaginary) and every phasor of every power-of-two length 1..1024 (quick) or 1..4096 (thorough) in double, up to 512 in float and up to 64 in long double (impulses span all signals by linearity), selected positions up to 2^17/2^20; every signal of length 2..8 over a small alphabet; structured signals against the defining sum. Forward, inverse of forward and forward of inverse are each compared with the definition. The table's length for every pair of lengths up to 300 (600) and for sums within -3..4 of every power of two up to 2^20 (2^22). Convolutions: every pair of short digit sequences over bases 2, 3, 10, 256; every pair of lengths 0..40 (0..80) with structured digits for bases 2..65536 and containers vector/deque of 8, 16, 32-bit integers and of the library's digit type; long ones up to 4096 digits; every coefficient within 0.5 of the integer convolution. states = signals and operand pairs, transitions = calls, traces = complete comparisons.",
        {"tolerance times the l1 norm of the signal: double 2e-14 up to length 64, 1e-12 up to length 4096 and 2e-11 above, float 5e-5 up to length 512 and 2e-4 above, long double 2e-14 up to length 64 and 1e-12 above (the library's constant for pi is a double)", "g++ -O2"}});
}
