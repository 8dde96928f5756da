#include "sets.hpp"
#include "bignum/bignum.h"
#include <fcntl.h>
#include <iostream>
#include <sys/mman.h>
#include <unistd.h>
// Captures what reaches file descriptors 1 and 2 while a call runs.
struct Capture {
    int m[2], saved[2];
    Capture() { for (int i = 0; i < 2; ++i) { m[i] = memfd_create("cap", 0); saved[i] = dup(i + 1); } }
    void start() { fflush(nullptr); std::cout.flush(); for (int i = 0; i < 2; ++i) { if (ftruncate(m[i], 0)) {} lseek(m[i], 0, SEEK_SET); dup2(m[i], i + 1); } }
    std::string text[2], unflushed[2];
    void stop() {
        for (int i = 0; i < 2; ++i) text[i] = slurp(i);
        fflush(nullptr); std::cout.flush();
        for (int i = 0; i < 2; ++i) { const std::string all = slurp(i); unflushed[i] = all.substr(std::min(text[i].size(), all.size())); text[i] = all; dup2(saved[i], i + 1); }
    }
    std::string slurp(int i) { off_t n = lseek(m[i], 0, SEEK_END); std::string s(n, 0); if (n && pread(m[i], &s[0], n, 0) != n) s.clear(); return s; }
};
static Capture* cap() { static Capture* c = new Capture; return c; }
// 0: no exception, 1: BN_ERROR, 2: another value of the error type, 3: anything else
template <class F> static int thrown(F f) {
    try { f(); return 0; }
    catch (bn_error_t e) { return e == BN_ERROR ? 1 : 2; }
    catch (...) { return 3; }
}
static void index_case(Ctx& c, const Api* A, const model::Val& v, size_t i) {
    if (!c.begin()) return;
    ++c.states;
    Num x(A, v.desc, v.d);
    auto where = [&](const char* w) { return std::string(A->name) + ": " + text(v) + "[" + std::to_string(i) + "] (" + w + ")"; };
    auto unchanged = [&](const char* w) { model::Val t = read(x); if (t.desc != v.desc || t.d != v.d) c.fail(where(w) + " changed the number to " + text(t)); };
    if (i < v.d.size()) {
        u64 r = 0, s = 0;
        int t = thrown([&] { r = x.at_const(i); s = x.at_mut(i); });
        if (t) c.fail(where("valid index") + " threw");
        if (r != v.d[i] || s != v.d[i]) c.fail(where("valid index") + " yields " + std::to_string(r) + " / " + std::to_string(s));
        unchanged("reading");
        const u64 nd = (v.d[i] + 1) % A->base;
        t = thrown([&] { x.at_set(i, nd); });
        if (t) c.fail(where("assignment") + " threw");
        model::Val w = v; w.d[i] = nd; model::Val got = read(x);
        if (got.desc != w.desc || got.d != w.d) c.fail(where("assignment") + " gave " + text(got) + ", expected " + text(w));
        c.transitions += 3; c.outcome(i < 8 ? i : 8);
    } else {
        for (int mode = 0; mode < 3; ++mode) {
            const char* w = mode == 0 ? "constant" : mode == 1 ? "mutable" : "assignment";
            cap()->start();
            int t = thrown([&] { if (mode == 0) x.at_const(i); else if (mode == 1) x.at_mut(i); else x.at_set(i, 1 % A->base); });
            cap()->stop();
            if (t != 1) c.fail(where(w) + (t == 0 ? " is out of range but did not throw" : " threw something other than the library's error value BN_ERROR"));
            if (cap()->text[1].empty()) c.fail(where(w) + " wrote no message to standard error");
            if (!cap()->unflushed[1].empty()) c.fail(where(w) + ": the message was not written before the throw");
            unchanged(w);
            ++c.transitions;
        }
        c.outcome(100);
    }
    ++c.traces;
}
struct A1 { bool cond; bn_error_t type; std::string msg; int via; };    // via: 0 function, 1 macro
static int run_assert(const A1& a) {
    bool flag = a.cond;
    return thrown([&] {
        if (a.via == 0) bn_runtime_assert(a.cond, a.type, a.msg.c_str());
        else if (a.type == BN_ERROR) BN_ASSERT(flag);
        else if (a.type == BN_WARNING) BN_WARN(flag);
        else BN_ALERT(flag);
    });
}
static void assert_case(Ctx& c, const std::vector<A1>& seq) {
    if (!c.begin()) return;
    ++c.states;
    for (size_t k = 0; k < seq.size(); ++k) {
        const A1& a = seq[k];
        static const char* sev[] = {"ALERT", "WARNING", "ERROR"};
        auto where = [&] { return std::string("assertion ") + std::to_string(k + 1) + " of a sequence (condition " + (a.cond ? "true" : "false") + ", severity " + sev[a.type] + ", " + (a.via ? "macro" : "message of " + std::to_string(a.msg.size()) + " characters") + ")"; };
        cap()->start();
        const int t = run_assert(a);
        cap()->stop();
        ++c.transitions;
        const std::string &o = cap()->text[0], &e = cap()->text[1];
        if (a.cond) {
            if (t) c.fail(where() + " threw");
            if (!o.empty() || !e.empty()) c.fail(where() + " printed \"" + o + e + "\"");
            continue;
        }
        if (a.type == BN_ERROR ? t != 1 : t != 0) c.fail(where() + (t == 0 ? " did not throw" : " threw a wrong value or for a severity that must not throw"));
        const std::string &on = a.type == BN_ALERT ? o : e, &off = a.type == BN_ALERT ? e : o;
        if (!off.empty()) c.fail(where() + " wrote \"" + off + "\" to the wrong stream");
        if (a.type == BN_ERROR && !cap()->unflushed[1].empty()) c.fail(where() + ": the line was not written before the throw");
        if (std::count(on.begin(), on.end(), '\n') != 1 || on.empty() || on.back() != '\n') c.fail(where() + " wrote \"" + on + "\", expected exactly one line");
        if (on.find(sev[a.type]) == std::string::npos) c.fail(where() + " wrote \"" + on + "\" without its severity");
        for (int s = 0; s < 3; ++s) if (s != a.type && a.via == 0 && on.substr(0, on.size() - a.msg.size()).find(sev[s]) != std::string::npos) c.fail(where() + " names another severity: \"" + on + "\"");
        if (a.via == 0 && on.find(a.msg) == std::string::npos) c.fail(where() + " wrote \"" + on + "\" without its message");
        if (a.via == 1 && on.find("flag") == std::string::npos) c.fail(where() + " wrote \"" + on + "\" without the asserted expression");
        c.outcome(a.type + 10 * t);
    }
    ++c.traces;
}
static void make(std::vector<Job>& jobs, bool thorough) {
    for (const Api* A : all_apis()) {
        jobs.push_back({std::string(A->name) + " indexing short", [=](Ctx& c) {
            Forms f = short_forms(A->base, thorough ? 20000 : 3000, 1);
            std::vector<model::Val> vs;
            for (const Digits& d : f) { vs.push_back(val(D_POS, d)); vs.push_back(val(D_NEG, d)); }
            for (int d : {D_NAN, D_PINF, D_NINF}) vs.push_back(val(d, {}));
            for (const model::Val& v : vs) {
                const size_t n = v.d.size();
                std::set<size_t> is;
                for (size_t i = 0; i < n + 3; ++i) is.insert(i);
                for (size_t i : {n + 255, n + 256, size_t(65535), size_t(65536), size_t(1) << 31, (size_t(1) << 32) - 1, size_t(1) << 32, (size_t(1) << 32) + 1, size_t(1) << 63, ~size_t(0), ~size_t(0) - 1}) is.insert(i);
                for (size_t i : is) index_case(c, A, v, i);
            }
        }});
        jobs.push_back({std::string(A->name) + " indexing powers of two", [=](Ctx& c) {
            for (size_t n : {0, 1, 2, 7, 8, 9, 40}) {
                const model::Val v = val(int(n & 1), n ? patterns(A->base, n, 0)[0] : Digits());
                for (int k = 0; k < 64; ++k) for (size_t j : {size_t(0), n - 1, n / 2, ~size_t(0)}) { const size_t i = (size_t(1) << k) + j; if (i >= n) index_case(c, A, v, i); }
                for (size_t j = 1; j <= n + 1; ++j) index_case(c, A, v, ~size_t(0) - j + 1);
            }
        }});
        jobs.push_back({std::string(A->name) + " indexing lengths", [=](Ctx& c) {
            std::vector<size_t> ns; for (size_t n = 1; n <= size_t(thorough ? 600 : 300); ++n) ns.push_back(n);
            for (size_t n : {127, 128, 129, 255, 256, 257, 513, 1025}) ns.push_back(n);
            for (size_t n : ns) for (int sg = 0; sg < 2; ++sg) {
                const Forms pf = patterns(A->base, n, 0); const Digits d = pf[n % pf.size()];
                for (size_t i = 0; i <= n + 1; ++i) index_case(c, A, val(sg, d), i);
                index_case(c, A, val(sg, d), 2 * n); index_case(c, A, val(sg, d), n | 65536); index_case(c, A, val(sg, d), (size_t(1) << 32) + n / 2);
            }
            for (size_t n : {4096, 32769, 65536, 65537, 131073, 1000001}) for (size_t i : {size_t(0), n / 2, n - 1, n, n + 1, size_t(32767), size_t(32768), size_t(65535), size_t(65536), size_t(65537), 2 * n, size_t(131072)}) index_case(c, A, val(D_POS, Digits(n, 1)), i);
        }});
    }
    for (int first = 0; first < 12; ++first)
        jobs.push_back({"assertions " + std::to_string(first), [=](Ctx& c) {
            std::vector<A1> al;
            for (int via = 0; via < 2; ++via) for (int cond = 0; cond < 2; ++cond) for (int t = 0; t < 3; ++t) al.push_back({cond == 1, bn_error_t(t), "message number " + std::to_string(t), via});
            const size_t depth = thorough ? 5 : 4;
            std::vector<size_t> idx(depth, 0); idx[0] = first;
            for (;;) {
                std::vector<A1> seq; for (size_t i : idx) seq.push_back(al[i]);
                assert_case(c, seq);
                size_t k = depth - 1;
                while (k > 0 && ++idx[k] == al.size()) idx[k--] = 0;
                if (k == 0) break;
            }
        }});
    jobs.push_back({"assertion messages", [=](Ctx& c) {
        std::vector<std::string> ms = {"", " ", "%s%n%d", "a\tb", "tail ", std::string("\xc3\xa4\xff")};
        for (size_t n : {1, 2, 15, 16, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 8191, 8192, 10000}) ms.push_back(std::string(n, 'x'));
        for (const std::string& m : ms) for (int cond = 0; cond < 2; ++cond) for (int t = 0; t < 3; ++t) assert_case(c, {A1{cond == 1, bn_error_t(t), m, 0}});
    }});
}
int main(int argc, char** argv) {
    return check_main(argc, argv, make, {
        "Exhaustive over: every short stored form of every type (and the special values) times every index below size+3 and wrap-around indices up to 2^64-1 (for seven sizes 2^k, 2^k-1 and 2^k plus the last or middle index for every k, and every small negative index), every index of structured numbers of every length up to the bound and around 2^7..2^10, selected indices of numbers of 2^12..10^6 digits; valid indices are read through const and mutable access and assigned, invalid ones must throw BN_ERROR after a message reached file descriptor 2. Assertions: all sequences of depth 4 (quick) or 5 over {function, macro} x {true, false} x {alert, warning, error}, and a list of message lengths, observed at file-descriptor level.",
        {"messages contain no newline", "g++ -O2"}});
}
