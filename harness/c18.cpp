#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include "sets.hpp"
// The same enumeration is executed by differently built copies of the library;
// outcomes are compared case by case.
static u64 mixh(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0x9ddfea08eb382d69ull; }
struct Rec {            // one execution of an enumeration
    FILE* out = nullptr;                // emitter
    std::vector<u64>* got = nullptr;    // reference
    long describe = -1; std::string text;
    Ctx* c = nullptr;
    long n = 0;
    std::vector<u64> buf;
    bool describing() const { return n == describe; }
    void done(u64 h) {
        if (got) got->push_back(h);
        if (out && describe < 0) { buf.push_back(h); if (buf.size() >= 4096) flush(); }
        ++n;
    }
    void flush() { if (out && !buf.empty()) { fwrite(buf.data(), 8, buf.size(), out); buf.clear(); } }
    void start() { if (c) { c->begin_dependent(); ++c->states; } }
};
static u64 outcome(const Num& n) {      // value and text
    static model::Val v; read(n, v);
    u64 h = v.desc; const size_t l = model::finite(v.desc) ? model::len(v.d) : v.d.size();
    for (size_t i = 0; i < l; ++i) h = mixh(h, v.d[i]);
    return mixh(h, l);
}
static u64 printed(const Num& n, std::string* t) {
    bool same; u64 h = 3;
    std::string s = n.print(10, &same); if (n.size() < 12) s += " " + n.print(16, &same) + " " + n.print(8, &same);
    for (char ch : s) h = mixh(h, (unsigned char)ch);
    if (t) *t += " text '" + s + "'";
    return h;
}
template <class F> static u64 guard(Rec& r, F f) {
    try { return f(); }
    catch (const std::bad_alloc&) { if (r.describing()) r.text += " throws std::bad_alloc"; return 1001; }
    catch (const std::exception& e) { if (r.describing()) r.text += std::string(" throws ") + e.what(); return 1002; }
    catch (...) { if (r.describing()) r.text += " throws the library's error value"; return 1003; }
}
static double dbits(u64 b) { return std::log2(double(b)); }
static bool cheap(const Api* A, const model::Val& a, const model::Val& b, double lim) {
    return !model::finite(a.desc) || !model::finite(b.desc) || model::zero(b.d) || (double(model::len(a.d)) - double(model::len(b.d)) + 1) * dbits(A->base) <= lim;
}
static void pair_case(Rec& r, const Api* A, const model::Val& a, const model::Val& b, double lim) {
    r.start();
    if (r.describing()) r.text = std::string(A->name) + ": " + text(a) + " and " + text(b) + ":";
    u64 h = 17;
    for (int op = 0; op < 4; ++op) {
        if (op == DIV && !cheap(A, a, b, lim)) continue;
        h = mixh(h, guard(r, [&] {
            Num x(A, a.desc, a.d), y(A, b.desc, b.d);
            Num t(x, y, op); u64 g = outcome(t);
            if (r.describing()) r.text += std::string(" ") + OP_TXT[op] + " gives " + t.text();
            if (op == (int)(a.d.size() + b.d.size()) % 4 && t.size() < 64) g = mixh(g, printed(t, r.describing() ? &r.text : nullptr));
            x.op_assign(y, op); g = mixh(g, outcome(x));
            if (r.describing()) r.text += std::string(" ") + OP_TXT[op] + "= " + x.text();
            y.op_assign(y, op); g = mixh(g, outcome(y));
            return g;
        }));
    }
    h = mixh(h, guard(r, [&] {
        Num x(A, a.desc, a.d), y(A, b.desc, b.d); u64 g = 0;
        for (int q = 0; q < 6; ++q) g = g * 2 + x.cmp(y, q);
        if (r.describing()) r.text += " comparisons " + std::to_string(g);
        return g;
    }));
    r.done(h);
}
struct Step { int kind, i, j; };
static const std::vector<Step>& steps() {
    static const std::vector<Step> al = [] {
        std::vector<Step> v;
        for (int i = 0; i < 2; ++i) {
            for (int op = 0; op < 4; ++op) for (int j = 0; j < 2; ++j) v.push_back({op, i, j});
            for (int k = 4; k <= 17; ++k) v.push_back({k, i, 1 - i});
        }
        return v;
    }();
    return al;
}
static void sequence(Rec& r, const Api* A, const model::Val& a, const model::Val& b, const std::vector<size_t>& idx) {
    r.start();
    if (r.describing()) r.text = std::string(A->name) + ": from " + text(a) + " and " + text(b) + ", steps";
    const u64 M = A->base - 1;
    u64 h = 29;
    Num o[2] = {{A, a.desc, a.d}, {A, b.desc, b.d}};
    for (size_t k : idx) {
        const Step& st = steps()[k];
        Num& x = o[st.i]; Num& y = o[st.j];
        const bool fin = model::finite(x.desc());
        const model::Val va = read(x), vb = read(y);
        h = mixh(h, guard(r, [&]() -> u64 {
            switch (st.kind) {
                case 0: case 1: x.op_assign(y, st.kind); break;
                case 2: if (x.size() + y.size() <= 48) x.op_assign(y, MUL); break;
                case 3: if (cheap(A, va, vb, 150)) x.op_assign(y, DIV); break;
                case 4: x.copy_assign(y); break;
                case 5: x.move_assign(y); break;
                case 6: if (fin) x.push_back(M); break;
                case 7: if (fin) x.push_front(M); break;
                case 8: if (fin && x.size()) x.pop_back(); break;
                case 9: if (fin && x.size()) x.pop_front(); break;
                case 10: if (fin) x.resize(x.size() + 3, M); break;
                case 11: if (fin && x.size()) x.push(1, x.size() / 2); break;
                case 12: if (fin && x.size()) x.pop(x.size() / 2); break;
                case 13: x.clear(); break;
                case 14: x.set_descriptor(D_NINF); break;
                case 15: x.set_descriptor(x.desc() == D_NEG ? D_POS : D_NEG); break;
                case 16: return x.at_const(x.size() / 2);      // throws when empty
                case 17: if (st.i == 0) x.swap(y); break;
            }
            return 5;
        }));
        h = mixh(mixh(h, outcome(o[0])), outcome(o[1]));
        if (r.describing()) r.text += " " + std::to_string(st.kind) + ":" + std::to_string(st.i) + std::to_string(st.j) + "=>" + o[0].text() + "," + o[1].text();
    }
    r.done(h);
}
static const size_t PARTS = 6;
static void enumerate(Rec& r, const Api* A, size_t part, bool thorough) {
    const u64 B = A->base;
    model::Val a, b;
    if (part < 2) {
        std::vector<model::Val> v;
        for (const Digits& d : short_forms(B, thorough ? 1200 : B == 2 ? 62 : 64, 1)) for (int s = 0; s < 2; ++s) v.push_back(val(s, d));
        for (int d : {D_NAN, D_PINF, D_NINF}) v.push_back(val(d, {}));
        for (size_t i = part; i < v.size(); i += 2) for (const model::Val& w : v) pair_case(r, A, v[i], w, 300);
    } else if (part < 4) {
        const size_t L = thorough ? 70 : 34;
        int k = 0;
        for (size_t n = 1 + part - 2; n <= L; n += 2) for (size_t m = 0; m <= L; ++m)
            for (const Digits& x : patterns(B, n, 0)) for (const Digits& y : patterns(B, m, thorough ? 1 : 0)) {
                ++k; if (!thorough && k % 6) continue;
                pair_case(r, A, val(k & 1, x), val((k >> 1) & 1, y), thorough ? 300 : 70);
            }
    } else if (part == 4) {
        const std::vector<std::pair<model::Val, model::Val>> starts = {{val(D_NEG, {B - 1, 0, 1}), val(D_POS, {})}, {val(D_POS, {B - 1, B - 1}), val(D_NEG, {0, 1})}, {val(D_POS, {1}), val(D_PINF, {})}};
        const size_t depth = thorough ? 4 : 3, S = steps().size();
        std::vector<size_t> idx(depth, 0);
        for (size_t s = 0; s < starts.size(); ++s) {
            if (!thorough && s == 1 + B % 2) continue;
            std::fill(idx.begin(), idx.end(), 0);
            for (;;) {
                sequence(r, A, starts[s].first, starts[s].second, idx);
                size_t k = 0; while (k < depth && ++idx[k] == S) idx[k++] = 0;
                if (k == depth) break;
            }
        }
    } else {
        for (size_t n : {60, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 512, 513, 1000, 1024, 1025}) {
            if (!thorough && B > 256 && n > 300) continue;
            const Forms f = patterns(B, n, 0);
            for (size_t i = 0; i < f.size(); ++i) for (size_t m : {size_t(1), size_t(40), n - 1, n, n + 1}) {
                if (!thorough && n > 200 && m != n && m != 1) continue;
                const Forms g = patterns(B, m, 0);
                for (const Digits& y : g) { if (!thorough && n > 70 && y != g[i % 2 % g.size()]) continue; pair_case(r, A, val(int(i & 1), f[i]), val(D_NEG, y), 70); }
            }
        }
    }
}
// ---------------------------------------------------------------------------
static std::vector<std::pair<std::string, std::string>> g_variants;
static std::string command(const std::string& exe, size_t api, size_t part, bool thorough, long describe) {
    return "GLIBC_TUNABLES=glibc.malloc.perturb=165 " + exe + " --emit " + std::to_string(api) + " " + std::to_string(part) + " " + (thorough ? "1" : "0") + " " + std::to_string(describe) + " 2>/dev/null";
}
static std::string described(const std::string& exe, size_t api, size_t part, bool thorough, long idx) {
    FILE* f = popen(command(exe, api, part, thorough, idx).c_str(), "r");
    std::string s; char b[4096]; size_t k; while (f && (k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k);
    if (f) pclose(f);
    return s;
}
static Digits convert(Digits d, u64 from, u64 to) {
    Digits out; model::trim(d);
    while (!d.empty()) {
        unsigned __int128 rem = 0;
        for (size_t i = d.size(); i-- > 0;) { rem = rem * from + d[i]; d[i] = u64(rem / to); rem %= to; }
        out.push_back(u64(rem)); model::trim(d);
    }
    return out;
}
static void make(std::vector<Job>& jobs, bool thorough) {
    const std::vector<const Api*>& all = all_apis();
    for (size_t part = 0; part < PARTS; ++part) for (size_t k = 0; k < all.size(); ++k)
        jobs.push_back({std::string(all[k]->name) + " part " + std::to_string(part), [=](Ctx& c) {
            std::vector<u64> mine; Rec r; r.got = &mine; r.c = &c;
            const bool was = c.logging; (void)was;
            enumerate(r, all_apis()[k], part, thorough);
            for (u64 h : mine) c.outcome(h);
            c.transitions += mine.size();
            for (const auto& v : g_variants) {
                FILE* f = popen(command(v.second, k, part, thorough, -1).c_str(), "r");
                size_t i = 0; u64 h;
                bool bad = !f;
                while (!bad && fread(&h, 8, 1, f) == 1) { if (i >= mine.size() || h != mine[i]) { bad = true; break; } ++i; if (i % 4096 == 0) c.begin_dependent(), --c.cases; }
                if (f) pclose(f);
                if (bad || i != mine.size()) {
                    Rec d; d.describe = long(i); d.n = 0; enumerate(d, all_apis()[k], part, thorough);
                    c.cases = long(i) + 1;
                    c.fail("configuration " + v.first + (bad ? " disagrees with the reference configuration. Reference: " : " stops (crash or hang) at this case. Reference: ") + d.text + " ||| " + v.first + ": " + described(v.second, k, part, thorough, long(i)));
                }
                c.transitions += i; c.traces += i;
            }
        }});
    // the same integers in every base
    auto ints = std::make_shared<std::vector<model::Val>>();
    for (u64 v = 0; v < (thorough ? 300 : 34); ++v) for (int s = 0; s < 2; ++s) ints->push_back(val(s, v ? Digits{v} : Digits{}));
    for (u64 b : {10, 16, 256, 1000, 65536}) for (size_t n = 1; n <= 4; ++n) for (long e = -1; e <= 1; ++e) { Digits p(n + 1, 0); p[n] = 1; Digits d = convert(p, b, 1ull << 32); d[0] += u64(e); if (e == -1) { d = convert(Digits(n, b - 1), b, 1ull << 32); } ints->push_back(val(int(n & 1), d)); }
    for (size_t n = 1; n <= size_t(thorough ? 12 : 5); ++n) for (const Digits& d : patterns(1ull << 32, n, 0)) ints->push_back(val(int(n & 1), d));
    const size_t S = 16;
    for (size_t s = 0; s < S; ++s)
        jobs.push_back({"the same integers in every base " + std::to_string(s), [=](Ctx& c) {
            const std::vector<const Api*>& apis = all_apis();
            std::vector<std::vector<Digits>> conv(apis.size());
            for (size_t k = 0; k < apis.size(); ++k) for (const model::Val& v : *ints) conv[k].push_back(convert(v.d, 1ull << 32, apis[k]->base));
            for (size_t i = s; i < ints->size(); i += S) for (size_t j = 0; j < ints->size(); ++j) for (int op = 0; op < 4; ++op) {
                const model::Val &a = (*ints)[i], &b = (*ints)[j];
                if (op == DIV && (model::zero(b.d) || (double(model::len(a.d)) - double(model::len(b.d))) * 32 > 100)) continue;
                if (!c.begin()) continue;
                ++c.states;
                model::Val first, t;
                for (size_t k = 0; k < apis.size(); ++k) {
                    const Num x(apis[k], a.desc, conv[k][i]), y(apis[k], b.desc, conv[k][j]);
                    const Num r(x, y, op);
                    read(r, t); t.d = convert(t.d, apis[k]->base, 1ull << 32); if (t.d.empty() && model::finite(t.desc)) t.desc = D_POS;
                    if (!k) first = t;
                    else if (t.desc != first.desc || t.d != first.d) c.fail(text(a) + " " + OP_TXT[op] + " " + text(b) + " (digits in base 2^32) is " + text(t) + " computed with " + apis[k]->name + " but " + text(first) + " computed with " + apis[0]->name);
                    ++c.transitions;
                }
                ++c.traces; c.outcome(model::hash(first));
            }
        }});
}
int main(int argc, char** argv) {
    if (argc > 5 && !strcmp(argv[1], "--emit")) {
        alarm(atol(argv[4]) ? 3000 : 200);
        Rec r; r.out = stdout; r.describe = atol(argv[5]);
        const size_t k = size_t(atol(argv[2]));
        enumerate(r, all_apis().at(k), size_t(atol(argv[3])), atol(argv[4]) != 0);
        if (r.describe >= 0) fputs(r.text.c_str(), stdout);
        r.flush(); fflush(stdout);
        return 0;
    }
    for (int i = 1; i + 1 < argc; ++i) if (!strncmp(argv[i], "--v_", 4)) g_variants.push_back({argv[i] + 4, argv[i + 1]});
    return check_main(argc, argv, make, {
        "The same enumeration - every pair of short stored forms and special values under all operators and comparisons, all pairs of lengths up to 34 (quick, every sixth combination of digit patterns) or 70 (thorough), long numbers, and every sequence of 44 steps (arithmetic, copies, moves, edits, descriptor changes, checked access) on two live objects up to depth 3 or 4 - is executed by the reference build (g++ -O2, vector) and by every variant build, and the outcome (value, text, comparison results, exception) of each case is compared. The same integer operations are carried out in all 12 number types and the resulting integers compared. states = cases, transitions = executions over all builds, traces = agreements between two builds or between all bases.",
        {"the variant builds are listed in DESIGN.md: g++ and clang++ at several optimisation levels, BN_DEBUG, deque storage, pattern-initialised automatic variables and perturbed heap memory"}});
}
