#include <iostream>
#include <sstream>
#include <streambuf>
#include "api_impl.hpp"
#include "sets.hpp"
// Fault enumeration on output: the stream's buffer refuses the k-th character,
// for every k, every buffering and every way of refusing.
struct Refused {};
struct Narrow : std::streambuf {
    std::string got; size_t room; int how; char space[64]; size_t chunk;
    // how: 0 refuses, 1 throws; chunk: internal buffer, 0 for none
    Narrow(size_t r, int h, size_t c) : room(r), how(h), chunk(c) { if (chunk) setp(space, space + chunk); }
    bool push() {       // moves the internal buffer out
        for (char* p = pbase(); p < pptr(); ++p) { if (got.size() >= room) { const long left = pptr() - p; std::memmove(space, p, size_t(left)); setp(space, space + chunk); pbump(int(left)); return false; } got += *p; }
        setp(space, space + chunk);
        return true;
    }
    int_type overflow(int_type ch) override {
        if (chunk) { if (!push()) { if (how) throw Refused(); return traits_type::eof(); } if (!traits_type::eq_int_type(ch, traits_type::eof())) { *pptr() = char(ch); pbump(1); } return traits_type::not_eof(ch); }
        if (got.size() >= room) { if (how) throw Refused(); return traits_type::eof(); }
        if (!traits_type::eq_int_type(ch, traits_type::eof())) got += char(ch);
        return traits_type::not_eof(ch);
    }
    int sync() override { return !chunk || push() ? 0 : -1; }
};
static std::string decimal(const model::Val& v, bool minus) {
    if (v.desc == D_NAN) return "NaN"; if (v.desc == D_PINF) return "+INF"; if (v.desc == D_NINF) return "-INF";
    std::string s = minus ? "-" : "";
    if (v.d.empty()) return s + "0";
    for (size_t i = v.d.size(); i-- > 0;) s += std::to_string(v.d[i]);
    return s;
}
static std::string brief(const std::string& s) { return s.size() > 60 ? s.substr(0, 50) + "... (" + std::to_string(s.size()) + " characters)" : s; }
// X is a number or a digit integer; both forms of a negative zero are accepted.
template <class X> static void write_case(Ctx& c, const char* type, const X& x, const std::string& t1, const std::string& t2, bool every) {
    auto check = [&](size_t k, int how, size_t chunk, int mask) {
        if (!c.begin()) return;
        ++c.states;
        auto what_text = [&] { return std::string(type) + ": writing " + brief(t1) + " to a stream that accepts " + std::to_string(k) + " characters" + (chunk ? " (buffer of " + std::to_string(chunk) + ")" : "") + (how ? " and then throws" : "") + (mask ? ", exceptions enabled" : ""); };
        struct Lazy { const decltype(what_text)& f; std::string operator+(const std::string& s) const { return f() + s; } } what{what_text};
        if (c.logging) c.log("// " + what_text());
        Narrow buf(k, how, chunk); std::ostream os(&buf);
        if (mask) os.exceptions(std::ios_base::badbit | std::ios_base::failbit);
        bool threw = false, same = true, odd = false;
        try { same = &(os << x) == &os; if (chunk) os.flush(); }
        catch (const std::ios_base::failure&) { threw = true; } catch (const Refused&) { threw = true; if (!how) odd = true; } catch (...) { threw = odd = true; }
        ++c.transitions;
        const std::string& t = buf.got == t2.substr(0, buf.got.size()) && buf.got != t1.substr(0, buf.got.size()) ? t2 : t1;
        if (!same) c.fail(what + ": operator<< does not return its stream");
        if (odd) c.fail(what + ": an exception of another kind comes out");
        if (threw && !mask) c.fail(what + ": an exception comes out although none are enabled");
        if (buf.got != t.substr(0, buf.got.size())) c.fail(what + ": '" + brief(buf.got) + "' is not the beginning of the text");
        if (k >= t1.size() && k >= t2.size()) { if (buf.got.size() != t.size() || threw || !os.good()) c.fail(what + ": the output is incomplete: '" + brief(buf.got) + "'"); }
        else if (k < t1.size() && k < t2.size()) { if (os.good()) c.fail(what + ": the stream does not report the loss"); if (mask && !threw) c.fail(what + ": no exception although enabled"); }
        // the recovered stream writes the whole text, twice
        static std::stringbuf wide; wide.str(""); os.exceptions(std::ios_base::goodbit); os.clear(); os.rdbuf(&wide);
        os << x << ' ' << x;
        const std::string w = wide.str();
        if (w != t1 + " " + t1 && w != t2 + " " + t2) c.fail(what + ": the recovered stream gets '" + brief(w) + "'");
        c.outcome(buf.got.size() * 7 + size_t(how) + chunk); ++c.traces;
    };
    std::vector<size_t> ks;
    for (size_t k = 0; k <= t1.size() + 1; ++k) if (every || k < 30 || k + 30 > t1.size() || k % 37 == 0) ks.push_back(k);
    for (size_t k : ks) for (int how = 0; how < 2; ++how) for (size_t chunk : {0, 1, 4, 16, 64}) for (int mask = 0; mask < 2; ++mask) check(k, how, chunk, mask);
    // a stream that has failed before, or has no buffer, gets nothing
    for (int st = 1; st < 8; ++st) for (int buffer = 0; buffer < 2; ++buffer) {
        if (!c.begin()) continue;
        ++c.states; ++c.transitions;
        std::ios_base::iostate s = std::ios_base::goodbit; if (st & 1) s |= std::ios_base::failbit; if (st & 2) s |= std::ios_base::badbit; if (st & 4) s |= std::ios_base::eofbit;
        Narrow buf(1 << 20, 0, 0); std::ostream os(buffer ? &buf : nullptr); os.setstate(s);
        if (c.logging) c.log(std::string("// ") + type + ": writing " + brief(t1) + " to a stream in state " + std::to_string(st));
        bool threw = false; try { os << x; } catch (...) { threw = true; }
        if (threw || !buf.got.empty() || os.good()) c.fail(std::string(type) + ": a stream that has failed before gets '" + brief(buf.got) + "' for " + brief(t1));
        os.rdbuf(&buf); os.clear(); os << x;
        if (buf.got != t1 && buf.got != t2) c.fail(std::string(type) + ": after clear() the stream gets '" + brief(buf.got) + "' for " + brief(t1));
        c.outcome(u64(st)); ++c.traces;
    }
}
template <class T> static void number_case(Ctx& c, const char* type, const model::Val& v, bool every) {
    T x; ApiImpl<T>::set(&x, v.desc, v.d.data(), v.d.size());
    write_case(c, type, x, decimal(v, v.desc == D_NEG), decimal(v, v.desc == D_NEG && !model::zero(v.d)), every);
    model::Val w; w.desc = ApiImpl<T>::desc(&x); ApiImpl<T>::get(&x, w.d);
    if (w.desc != v.desc || w.d != v.d) c.fail(std::string(type) + ": writing to failing streams changed " + text(v) + " to " + text(w));
}
template <class T> static void add_type(std::vector<Job>& jobs, const char* type, u64 B, bool thorough) {
    const FormsPtr f = share(short_forms(B, thorough ? 4000 : 400, 2));
    for (size_t k = 0; k < 4; ++k) jobs.push_back({std::string(type) + " short " + std::to_string(k), [=](Ctx& c) {
        for (size_t i = k; i < f->size(); i += 4) for (int s = 0; s < 2; ++s) number_case<T>(c, type, val(s, (*f)[i]), true);
        if (!k) for (int d : {D_NAN, D_PINF, D_NINF}) number_case<T>(c, type, val(d, {}), true);
    }});
    for (size_t k = 0; k < 4; ++k) jobs.push_back({std::string(type) + " lengths " + std::to_string(k), [=](Ctx& c) {
        for (size_t n = 1 + k; n <= size_t(thorough ? 200 : 70); n += 4) for (const Digits& d : patterns(B, n, 0)) number_case<T>(c, type, val(int(n & 1), d), true);
    }});
    for (size_t n : {127, 128, 255, 256, 257, 511, 512, 1024}) jobs.push_back({std::string(type) + " length " + std::to_string(n), [=](Ctx& c) {
        for (const Digits& d : patterns(B, n, 0)) number_case<T>(c, type, val(int(n & 1), d), false);
    }});
}
template <class D> static void add_digit(std::vector<Job>& jobs, const char* type, u64 max) {
    jobs.push_back({std::string("digit ") + type, [=](Ctx& c) {
        std::set<u64> vs; for (u64 i = 0; i <= 300 && i <= max; ++i) { vs.insert(i); vs.insert(max - i); } for (u64 p = 1; p && p <= max; p *= 10) { vs.insert(p); vs.insert(p - 1); if (p > max / 10) break; }
        for (u64 v : vs) { const D d{static_cast<typename std::remove_reference<decltype(std::declval<D>().num)>::type>(v)}; write_case(c, type, d, std::to_string(v), std::to_string(v), true); if (u64(d.num) != v) c.fail(std::string(type) + ": writing changed the digit"); }
        // reading back from a stream that ends or fails early
        for (u64 v : vs) for (int tail = 0; tail < 3; ++tail) {
            if (!c.begin()) continue;
            ++c.states; ++c.transitions;
            const std::string t = std::to_string(v);
            if (c.logging) c.log(std::string("// ") + type + ": reading '" + t + "'");
            std::istringstream is(tail == 0 ? t : tail == 1 ? t + " 7" : "  " + t + "x"); D d{}; is >> d;
            if (is.fail() || u64(d.num) != v) c.fail(std::string(type) + ": reading '" + is.str() + "' gives " + std::to_string(u64(d.num)));
            D e{}; std::istringstream bad(tail == 0 ? "" : tail == 1 ? "x" + t : "  "); bad >> e;
            if (!bad.fail()) c.fail(std::string(type) + ": reading '" + bad.str() + "' does not fail");
            bad.clear(); bad.str(t); D r{}; bad >> r;
            if (bad.fail() || u64(r.num) != v) c.fail(std::string(type) + ": after a failed read the stream gives " + std::to_string(u64(r.num)) + " for '" + t + "'");
            c.outcome(v); ++c.traces;
        }
    }});
}
static void assert_jobs(std::vector<Job>& jobs) {
    jobs.push_back({"diagnostics on failing streams", [](Ctx& c) {
        for (const char* msg : {"", "m", "a longer message, of several words"}) for (int sev = 0; sev < 3; ++sev) {
            Narrow whole(1 << 20, 0, 0);
            std::ostream& on = sev == BN_ALERT ? std::cout : std::cerr; std::ostream& off = sev == BN_ALERT ? std::cerr : std::cout;
            std::ios_base::iostate st = std::ios_base::goodbit;
            auto once = [&](std::streambuf* a, std::streambuf* b, bool cond) { int thrown = 0; std::streambuf *o1 = on.rdbuf(a), *o2 = off.rdbuf(b); try { bn_runtime_assert(cond, bn_error_t(sev), msg); } catch (bn_error_t e) { thrown = e == BN_ERROR ? 1 : 2; } catch (...) { thrown = 3; } st = on.rdstate(); on.rdbuf(o1); off.rdbuf(o2); return thrown; };
            Narrow none(1 << 20, 0, 0);
            const int first = once(&whole, &none, false);
            const std::string full = whole.got;
            for (size_t k = 0; k <= full.size() + 1; ++k) for (int how = 0; how < 2; ++how) for (size_t chunk : {0, 4, 64}) {
                if (!c.begin()) continue;
                ++c.states; c.transitions += 3;
                const std::string what = "a failed assertion of severity " + std::to_string(sev) + " with message '" + msg + "' on a stream that accepts " + std::to_string(k) + " characters" + (how ? " and then throws" : "");
                if (c.logging) c.log("// " + what);
                if (first != (sev == BN_ERROR)) c.fail(what + ": without any failure, something else is thrown");
                Narrow buf(k, how, chunk), other(1 << 20, 0, 0);
                const int t = once(&buf, &other, false); const std::ios_base::iostate lost = st;
                if (t != (sev == BN_ERROR)) c.fail(what + (t ? ": throws something else" : ": the error is not thrown"));
                if (buf.got != full.substr(0, buf.got.size())) c.fail(what + ": writes '" + buf.got + "', not the beginning of '" + full + "'");
                if (!other.got.empty()) c.fail(what + ": writes to the other stream");
                if (k >= full.size() && (buf.got != full || lost != std::ios_base::goodbit)) c.fail(what + ": is incomplete");
                if (k < full.size() && lost == std::ios_base::goodbit) c.fail(what + ": the stream does not report the loss");
                Narrow quiet(1 << 20, 0, 0), after(1 << 20, 0, 0);
                if (once(&quiet, &other, true) || !quiet.got.empty()) c.fail(what + ": a satisfied assertion afterwards has an effect");
                if (once(&after, &other, false) != first || after.got != full) c.fail(what + ": the recovered stream gets '" + after.got + "'");
                c.outcome(k); ++c.traces;
            }
        }
    }});
    jobs.push_back({"digit access on failing streams", [](Ctx& c) {
        for (size_t n = 0; n < 5; ++n) for (size_t at = n; at < n + 4; ++at) for (size_t k = 0; k < 120; ++k) for (int constant = 0; constant < 2; ++constant) {
            if (!c.begin()) continue;
            ++c.states; ++c.transitions;
            bignum_base10 x; x.resize(n, bn_base10_single{3}); const bignum_base10& cx = x;
            if (c.logging) c.log("// reading digit " + std::to_string(at) + " of " + std::to_string(n) + " with an error stream of " + std::to_string(k) + " characters");
            Narrow buf(k, 0, 0); std::streambuf* old = std::cerr.rdbuf(&buf); int t = 0;
            try { if (constant) (void)cx[at]; else (void)x[at]; } catch (bn_error_t e) { t = e == BN_ERROR ? 1 : 2; } catch (...) { t = 3; }
            std::cerr.rdbuf(old); std::cerr.clear();
            if (t != 1) c.fail("digit " + std::to_string(at) + " of " + std::to_string(n) + " does not throw the error value when the error stream accepts " + std::to_string(k) + " characters");
            if (x.size() != n) c.fail("a refused digit access changed the number");
            c.outcome(k); ++c.traces;
        }
    }});
}
static void make(std::vector<Job>& jobs, bool thorough) {
    add_type<bignum_base2>(jobs, "bignum_base2", 2, thorough); add_type<bignum_base8>(jobs, "bignum_base8", 8, thorough);
    add_type<bignum_base10>(jobs, "bignum_base10", 10, thorough); add_type<bignum_base16>(jobs, "bignum_base16", 16, thorough);
    add_type<bignum_lowp>(jobs, "bignum_lowp", 256, thorough); add_type<bignum_medp>(jobs, "bignum_medp", 65536, thorough);
    add_type<bignum_highp>(jobs, "bignum_highp", 1ull << 32, thorough);
    add_digit<bn_base2_single>(jobs, "bn_base2_single", 255); add_digit<bn_base10_single>(jobs, "bn_base10_single", 255); add_digit<bn_base16_single>(jobs, "bn_base16_single", 255);
    add_digit<BNIntType<BN_UINT16, 77>>(jobs, "16-bit digit", 65535); add_digit<BNIntType<BN_UINT32, 77>>(jobs, "32-bit digit", 0xFFFFFFFFull); add_digit<BNIntType<BN_UINT64, 77>>(jobs, "64-bit digit", ~0ull);
    assert_jobs(jobs);
}
int main(int argc, char** argv) {
    return check_main(argc, argv, make, {
        "Fault enumeration by exhaustive exploration: every number of a set is written to a stream whose buffer refuses the k-th character, for every k from 0 to beyond the text (every 37th and the ends for long texts), times refusing or throwing, five internal buffer sizes, and stream exceptions on or off; and to streams in every failed state and without a buffer. What arrives must be the beginning of the right text, the stream must report the loss, no exception may come out unless enabled, the number must be unchanged, and the recovered stream must get the complete text. Numbers: all short forms with both signs and the special values of the seven predefined types, structured numbers of every length to 70 (200) and selected lengths to 1024. Digit integers of six types likewise, including reading from streams that end or hold other text. Failed assertions of every severity and refused digit accesses with a failing diagnostic stream, at every character: the error value must still be thrown. states = (value, fault) pairs, transitions = output operations, traces = pairs checked to the end.",
        {"default formatting flags", "\"-0\" and \"0\" are both accepted for a negative zero", "the value left in a digit integer by a failed read is not specified", "diagnostic streams with exceptions enabled are not explored"}});
}
