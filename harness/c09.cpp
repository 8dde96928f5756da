#include "sets.hpp"
#include <sstream>
static std::string expected(const model::Val& v, int base, bool minus) {
    if (v.desc == D_PINF) return "+INF";
    if (v.desc == D_NINF) return "-INF";
    if (v.desc == D_NAN) return "NaN";
    std::string s = minus ? "-" : "";
    if (v.d.empty()) s += "0";
    char buf[32];
    for (size_t i = v.d.size(); i-- > 0;) {
        const bool up = base & 256, show = base & 512;
        snprintf(buf, sizeof buf, (base & 31) == 16 ? (show ? up ? "%#llX" : "%#llx" : up ? "%llX" : "%llx") : (base & 31) == 8 ? (show ? "%#llo" : "%llo") : "%llu", (unsigned long long)v.d[i]);
        s += buf;
    }
    return s;
}
static void print_case(Ctx& c, const Api* A, const model::Val& v) {
    if (!c.begin()) return;
    ++c.states;
    Num x(A, v.desc, v.d);
    const bool neg = v.desc == D_NEG, negzero = neg && model::zero(v.d);
    static const int modes[] = {10, 16, 8, 10 + 1024, 16 + 256, 16 + 512 + 1024, 8 + 512, 16 + 256 + 512, 16 + 1024, 8 + 1024};
    for (int m = 0; m < (v.d.size() > 5000 ? 4 : 10); ++m) {
        const int base = modes[m];
        bool same = false;
        const std::string s = x.print(base, &same);
        ++c.transitions;
        auto full = [&](bool minus) {
            const std::string e = expected(v, base, minus);
            if (!(base & 1024)) return e;
            return e + ((base & 31) == 16 ? base & 512 ? ",0xff," : ",ff," : (base & 31) == 8 ? ",377," : ",255,") + e;
        };
        if (s != full(neg) && !(negzero && s == full(false)))
            c.fail(std::string(A->name) + ": " + text(v) + " is written as \"" + s + "\", expected \"" + full(neg) + "\"" + (base & 256 ? " (uppercase)" : "") + (base & 512 ? " (showbase)" : "") + (base & 1024 ? " (written twice with 255 between)" : ""));
        if (!same) c.fail(std::string(A->name) + ": operator<< does not return its stream for " + text(v));
        const model::Val t = read(x);
        if (t.desc != v.desc || t.d != v.d) c.fail(std::string(A->name) + ": writing changed " + text(v) + " to " + text(t));
        if (base == 10) { u64 h = 5381; for (char ch : s) h = h * 33 + ch; c.outcome(h); }
    }
    ++c.traces;
}
static void make(std::vector<Job>& jobs, bool thorough) {
    for (const Api* A : all_apis()) {
        jobs.push_back({std::string(A->name) + " short", [=](Ctx& c) {
            Forms f = short_forms(A->base, thorough ? 200000 : 20000, thorough ? 3 : 2);
            for (const Digits& d : f) { print_case(c, A, val(D_POS, d)); print_case(c, A, val(D_NEG, d)); }
            for (int d : {D_NAN, D_PINF, D_NINF}) print_case(c, A, val(d, Digits()));
        }});
        jobs.push_back({std::string(A->name) + " every digit value", [=](Ctx& c) {
            const u64 n = std::min<u64>(A->base, 65536);
            for (u64 d = 0; d < n; ++d) { print_case(c, A, val(D_POS, {d})); print_case(c, A, val(D_NEG, {A->base - 1 - d, d})); }
            if (A->base > 65536) for (u64 d : alphabet(A->base, 3)) for (u64 e : alphabet(A->base, 3)) print_case(c, A, val(D_POS, {d, e}));
        }});
        // long numbers: zero digits at and around every block border
        for (size_t n : {99999, 100000, 100001, 131072, 131073, 200003, 262144})
            jobs.push_back({std::string(A->name) + " very long " + std::to_string(n), [=](Ctx& c) {
                if (!thorough && n > 131073 && A->base > 16) return;
                Digits d(n); for (size_t i = 0; i < n; ++i) d[i] = (i * 11 + i / 7 + 3) % A->base;
                if (!d[n - 1]) d[n - 1] = 1;
                print_case(c, A, val(D_NEG, d));
                Digits z(n, 0); z[n - 1] = A->base - 1; print_case(c, A, val(D_POS, z));
            }});
        jobs.push_back({std::string(A->name) + " lengths", [=](Ctx& c) {
            std::vector<size_t> ns; for (size_t n = 1; n <= size_t(thorough ? 600 : 140); ++n) ns.push_back(n);
            for (size_t n : {255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 10000, 16384, 32768, 65535, 65536, 65537}) ns.push_back(n);
            for (size_t n : ns) for (const Digits& d : patterns(A->base, n, n > 5000 ? 0 : 2)) { print_case(c, A, val(D_POS, d)); print_case(c, A, val(D_NEG, d)); }
        }});
    }
}
int main(int argc, char** argv) {
    return check_main(argc, argv, make, {
        "Exhaustive over: all stored forms of the short digit vectors of every type (both signs), every digit value up to 65535, every length up to the bound and around 2^8..2^16 with structured patterns, numbers of 10^5 to 2^18 digits, and the special values; each written with std::dec, std::hex and std::oct, with std::uppercase and std::showbase, and twice to the same stream with a plain integer between (so the stream keeps its format). The text is compared character for character with a printf rendering; the returned stream and the number afterwards are checked too.",
        {"field width, fill and locale are not explored", "a stored negative zero may be written with or without its sign", "g++ -O2"}});
}
