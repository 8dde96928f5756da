#include "sets.hpp"
// Digit editing: every sequence of edits up to the depth, from several start
// states, mirrored on an ordinary sequence.
struct M { int desc; Digits d; };
static void expect(Ctx& c, const Num& n, const M& m, const std::string& path) {
    static Digits t;
    n.get(t);
    if (n.desc() != m.desc || t != m.d || n.size() != m.d.size() || n.A->data_size(n.buf()) != m.d.size())
        c.fail(std::string(n.A->name) + ": after " + path + " the number is " + n.text() + " (size() " + std::to_string(n.size()) + "), an ordinary sequence holds " + value_text(m.desc, m.d));
}
struct Edit { int kind; u64 digit; size_t pos; };
static std::vector<Edit> edits_for(const M& m, u64 base) {
    std::vector<Edit> e;
    const size_t n = m.d.size();
    const u64 M1 = base - 1, mid = base / 2;
    e.push_back({0, M1, 0}); e.push_back({0, 0, 0});                     // push_front
    e.push_back({2, 1, 0}); e.push_back({2, 0, 0});                      // push_back
    if (n) { e.push_back({1, 0, 0}); e.push_back({3, 0, 0}); }           // pop_front, pop_back
    std::set<size_t> ps = {0, n / 2, n}; if (n > 1) ps.insert(n - 1); if (n > 1) ps.insert(1);
    for (size_t p : ps) e.push_back({4, mid, p});                        // push at
    for (size_t p : ps) if (p < n) e.push_back({5, 0, p});               // pop at
    for (size_t p : ps) if (p < n) e.push_back({6, M1 - (p & 1), p});    // assign a digit
    for (size_t k : {size_t(0), n ? n - 1 : 0, n + 2}) e.push_back({7, 1, k});    // resize with a digit
    e.push_back({8, 0, n + 1}); if (n) e.push_back({8, 0, n - 1});       // resize with zeroes
    e.push_back({9, 0, 0});                                              // clear
    for (u64 d : {D_POS, D_NEG, D_NAN, D_PINF, D_NINF}) e.push_back({10, d, 0});
    return e;
}
static bool apply(Num& x, M& m, const Edit& e, std::string& what) {
    switch (e.kind) {
        case 0: x.push_front(e.digit); m.d.insert(m.d.begin(), e.digit); what = "push_front(" + std::to_string(e.digit) + ")"; break;
        case 1: x.pop_front(); m.d.erase(m.d.begin()); what = "pop_front()"; break;
        case 2: x.push_back(e.digit); m.d.push_back(e.digit); what = "push_back(" + std::to_string(e.digit) + ")"; break;
        case 3: x.pop_back(); m.d.pop_back(); what = "pop_back()"; break;
        case 4: x.push(e.digit, e.pos); m.d.insert(m.d.begin() + e.pos, e.digit); what = "push(" + std::to_string(e.digit) + ", " + std::to_string(e.pos) + ")"; break;
        case 5: x.pop(e.pos); m.d.erase(m.d.begin() + e.pos); what = "pop(" + std::to_string(e.pos) + ")"; break;
        case 6: x.at_set(e.pos, e.digit); m.d[e.pos] = e.digit; what = "[" + std::to_string(e.pos) + "] = " + std::to_string(e.digit); break;
        case 7: x.resize(e.pos, e.digit); m.d.resize(e.pos, e.digit); what = "resize(" + std::to_string(e.pos) + ", " + std::to_string(e.digit) + ")"; break;
        case 8: x.resize0(e.pos); m.d.resize(e.pos, 0); what = "resize(" + std::to_string(e.pos) + ")"; break;
        case 9: x.clear(); m.d.clear(); m.desc = D_POS; what = "clear()"; break;
        default: x.set_descriptor(int(e.digit)); m.desc = int(e.digit); if (!model::finite(m.desc)) m.d.clear(); what = std::string("setDescriptor(") + DESC_TXT[e.digit] + ")"; break;
    }
    return true;
}
// Every single edit of a number of n digits: every position, every size.
static void every_edit(Ctx& c, const Api* A, size_t n, bool thorough) {
    const u64 B = A->base, M1 = B - 1;
    Digits d(n); for (size_t i = 0; i < n; ++i) d[i] = (i * 5 + 1 + i / 7) % B;
    for (int sign = 0; sign < 2; ++sign) {
        const M start = {sign, d};
        const Num cur(A, sign, d);
        std::vector<Edit> all;
        for (u64 v : {u64(0), u64(1), M1}) { all.push_back({0, v, 0}); all.push_back({2, v, 0}); }
        if (n) { all.push_back({1, 0, 0}); all.push_back({3, 0, 0}); }
        for (size_t p = 0; p <= n; ++p) { all.push_back({4, M1, p}); all.push_back({4, 0, p}); if (p < n) { all.push_back({5, 0, p}); all.push_back({6, (d[p] + 1) % B, p}); all.push_back({6, 0, p}); } }
        for (size_t k = 0; k <= n + 40; ++k) { all.push_back({7, M1, k}); if (thorough || k > n || n < 40) all.push_back({7, 1, k}); all.push_back({8, 0, k}); }
        for (size_t k : {2 * n, 2 * n + 1, n + 64, n + 100, n + 257}) { all.push_back({7, M1, k}); all.push_back({8, 0, k}); }
        all.push_back({9, 0, 0});
        for (const Edit& e : all) {
            if (!c.begin()) continue;
            ++c.states; ++c.transitions;
            Num x(Num::Copy(), cur); M m = start; std::string what;
            apply(x, m, e, what);
            expect(c, x, m, "starting with " + value_text(sign, d) + ", " + what);
            if (m.d.empty() == d.empty()) c.outcome(model::hash(val(m.desc, m.d)));
            ++c.traces;
        }
    }
}
static void walk(Ctx& c, const Num& cur, const M& m, int depth, const std::string& path) {
    for (const Edit& e : edits_for(m, cur.A->base)) {
        // numbers that are not finite hold no digits: adding digits to them is outside the property
        if (!model::finite(m.desc) && e.kind != 9 && e.kind != 10) continue;
        Num x(Num::Copy(), cur); M n = m; std::string what;
        apply(x, n, e, what);
        ++c.transitions;
        const std::string p = path + ", " + what;
        expect(c, x, n, p);
        if (depth > 1) walk(c, x, n, depth - 1, p); else { ++c.traces; c.outcome(model::hash(val(n.desc, n.d))); }
    }
}
// The same on very long numbers, at selected positions and sizes.
static void long_edit(Ctx& c, const Api* A, size_t n) {
    const u64 B = A->base, M1 = B - 1;
    Digits d(n); for (size_t i = 0; i < n; ++i) d[i] = (i * 5 + 1 + i / 7) % B;
    std::set<size_t> ps = {0, 1, 2, n / 2, n - 2, n - 1, n};
    for (size_t k = 128; k <= n; k *= 2) for (size_t q : {k - 1, k, k + 1}) ps.insert(q);
    for (size_t k = 100; k <= n; k *= 10) for (size_t q : {k - 1, k, k + 1}) ps.insert(q);
    std::vector<Edit> all = {{0, 1, 0}, {2, 0, 0}, {2, 1, 0}, {1, 0, 0}, {3, 0, 0}, {9, 0, 0}, {7, 1, n + 1}, {7, M1, 2 * n}, {8, 0, 2 * n + 1}, {8, 0, n + 65536}};
    for (size_t p : ps) if (p <= n) { all.push_back({4, M1, p}); all.push_back({7, 1, p}); all.push_back({8, 0, p}); if (p < n) { all.push_back({5, 0, p}); all.push_back({6, (d[p] + 1) % B, p}); } }
    for (size_t i = 0; i < all.size(); ++i) {
        if (!c.begin()) continue;
        ++c.states; c.transitions += 3;
        const int sign = int(i & 1);
        Num x(A, sign, d); M m = {sign, d}; std::string what, w2;
        apply(x, m, all[i], what);
        expect(c, x, m, "starting with " + std::to_string(n) + " digits, " + what);
        if (m.d.size() < 300000) { apply(x, m, {2, 1, 0}, w2); apply(x, m, {0, M1, 0}, w2); expect(c, x, m, "starting with " + std::to_string(n) + " digits, " + what + ", push_back(1), push_front"); }
        c.outcome(model::hash(val(m.desc, m.d)));
        ++c.traces;
    }
}
// One live object through a whole script without copies (capacity effects).
static void live_script(Ctx& c, const Api* A, size_t n, int variant) {
    if (!c.begin()) return;
    ++c.states;
    Num x(A); M m = {D_POS, {}};
    std::string what;
    u64 s = n * 2654435761u + variant;
    auto rnd = [&] { s = s * 6364136223846793005ull + 1442695040888963407ull; return s >> 33; };
    for (size_t i = 0; i < n; ++i) {
        Edit e; e.digit = rnd() % A->base; e.pos = 0;
        const size_t k = m.d.size();
        switch (variant) {
            case 0: e.kind = 0; break;
            case 1: e.kind = 2; break;
            case 2: e.kind = 4; e.pos = k / 2; break;
            case 3: e.kind = i % 3 == 2 && k ? 1 : 2; break;
            case 4: e.kind = i % 3 == 2 && k ? 3 : 0; break;
            case 5: e.kind = i % 4 == 3 && k ? 5 : 4; e.pos = e.kind == 5 ? rnd() % k : rnd() % (k + 1); break;
            default: e.kind = 7; e.pos = rnd() % 97; break;
        }
        apply(x, m, e, what);
        ++c.transitions;
        expect(c, x, m, "step " + std::to_string(i) + " of script " + std::to_string(variant) + " (" + what + ")");
    }
    while (!m.d.empty()) {
        Edit e = {variant & 1 ? 1 : 3, 0, 0};
        apply(x, m, e, what); ++c.transitions;
        expect(c, x, m, "unwinding script " + std::to_string(variant));
    }
    ++c.traces;
}
// Construction from a list (most significant digit first) drops leading zeroes.
static void construction(Ctx& c, const Api* A, int desc, const Digits& msd) {
    if (!c.begin()) return;
    ++c.states;
    Num x(Num::List(), A, desc, msd);
    ++c.transitions; ++c.traces;
    M m = {desc, {}};
    if (model::finite(desc)) { m.d.assign(msd.rbegin(), msd.rend()); model::trim(m.d); }
    // zero may be held as no digit or as a single zero digit
    if (m.d.empty() && model::finite(desc) && x.size() == 1 && A->data_at(x.buf(), 0) == 0 && x.desc() == desc) return;
    expect(c, x, m, "construction from {" + std::string(DESC_TXT[desc]) + ", list of " + std::to_string(msd.size()) + " digits " + digits_text(Digits(msd.rbegin(), msd.rend())) + "}");
    c.outcome(model::hash(val(m.desc, m.d)));
}
static void make(std::vector<Job>& jobs, bool thorough) {
    for (const Api* A : all_apis()) {
        const u64 B = A->base;
        jobs.push_back({std::string(A->name) + " construction", [=](Ctx& c) {
            if (c.begin()) {
                ++c.states;
                Num z(A); expect(c, z, M{D_POS, {}}, "default construction");
                ++c.transitions; ++c.traces;
            }
            Forms f;
            const std::vector<u64> small = B <= 3 ? alphabet(B) : std::vector<u64>{0, 1, B - 1};
            for (size_t n = 0; n <= 8; ++n) append_vectors(f, n <= 2 ? alphabet(B, 2) : n <= 5 || thorough ? small : std::vector<u64>{0, B - 1}, n);
            for (size_t lead = 0; lead <= 20; ++lead) { Digits d(20); for (size_t i = 0; i < 20; ++i) d[i] = i < lead ? 0 : (i * 7 + 3) % B; f.push_back(d); if (lead < 20) { d[lead] = 1; f.push_back(d); } }
            for (const Digits& msd : f) for (int desc = 0; desc < 5; ++desc) construction(c, A, desc, msd);
        }});
        // lists of every length, with every number of leading zeroes at selected ones
        jobs.push_back({std::string(A->name) + " construction from lists of every length", [=](Ctx& c) {
            std::set<size_t> lens; for (size_t n = 9; n <= size_t(thorough ? 2100 : 700); ++n) lens.insert(n);
            for (size_t n : {1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8193, 10000, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 131073}) lens.insert(n);
            for (size_t n : lens) {
                std::set<size_t> zeroes = {0, 1, 2, n / 2, n - 2, n - 1, n};
                for (size_t k = 4; k < n; k *= 2) for (size_t z : {k - 1, k, k + 1, n - k}) zeroes.insert(z);
                if (n <= 70 || (n >= 253 && n <= 260)) for (size_t z = 0; z <= n; ++z) zeroes.insert(z);
                for (size_t z : zeroes) if (z <= n) {
                    Digits d(n); for (size_t i = z; i < n; ++i) d[i] = (i * 7 + 3 + i / 11) % B;
                    if (z < n && !d[z]) d[z] = 1;
                    construction(c, A, (n + z) & 1, d);
                    if (z == n / 2) for (int desc = 2; desc < 5; ++desc) construction(c, A, desc, d);
                }
            }
        }});
        std::vector<M> starts = {{D_POS, {}}, {D_NEG, {}}, {D_POS, {0}}, {D_POS, {1}}, {D_NEG, {B - 1, 1}}, {D_POS, {0, 1, 0}}, {D_NEG, {1, 0, B - 1, B / 2, 1}}, {D_PINF, {}}, {D_NAN, {}}};
        { M m = {D_NEG, {}}; for (size_t i = 0; i < 16; ++i) m.d.push_back((i * 5 + 1) % B); starts.push_back(m); }
        { M m = {D_POS, {}}; for (size_t i = 0; i < 33; ++i) m.d.push_back((i * 3 + 2) % B); starts.push_back(m); }
        for (size_t s = 0; s < starts.size(); ++s)
            jobs.push_back({std::string(A->name) + " edit sequences from start " + std::to_string(s), [=](Ctx& c) {
                for (const Edit& e : edits_for(starts[s], B)) {     // one case per first edit
                    if (!model::finite(starts[s].desc) && e.kind < 9) continue;
                    if (!c.begin()) continue;
                    ++c.states;
                    Num x(A, starts[s].desc, starts[s].d); M m = starts[s]; std::string what;
                    apply(x, m, e, what); ++c.transitions;
                    const std::string p = "starting with " + value_text(starts[s].desc, starts[s].d) + ", " + what;
                    expect(c, x, m, p);
                    walk(c, x, m, thorough ? 4 : 3, p);
                }
            }});
        jobs.push_back({std::string(A->name) + " live scripts", [=](Ctx& c) {
            for (size_t n : {9, 33, 70, 130, 300, 1030}) for (int v = 0; v < 7; ++v) live_script(c, A, n, v);
        }});
        for (size_t part = 0; part < 4; ++part)
            jobs.push_back({std::string(A->name) + " every edit at every length " + std::to_string(part), [=](Ctx& c) {
                for (size_t n = part; n <= size_t(thorough ? 400 : 160); n += 4) every_edit(c, A, n, thorough);
                for (size_t n : {127, 128, 129, 255, 256, 257, 511, 512, 513, 1024}) if ((n + n / 256) % 4 == part) every_edit(c, A, n, thorough);
            }});
        for (size_t n : {1000, 2049, 4096, 10001, 32769, 65535, 65536, 65537, 70000, 100001, 131073})
            jobs.push_back({std::string(A->name) + " edits of " + std::to_string(n) + " digits", [=](Ctx& c) { long_edit(c, A, n); }});
        // setting a sign keeps the digits at every length
        jobs.push_back({std::string(A->name) + " descriptors at every length", [=](Ctx& c) {
            for (size_t n = 0; n <= 140; ++n) for (const Digits& d : patterns(B, n, 1)) for (int from : {D_POS, D_NEG}) for (int to = 0; to < 5; ++to) {
                if (!c.begin()) continue;
                ++c.states;
                Num x(A, from, d); x.set_descriptor(to);
                M m = {to, model::finite(to) ? d : Digits()};
                expect(c, x, m, "setDescriptor(" + std::string(DESC_TXT[to]) + ") on " + value_text(from, d));
                x.clear(); expect(c, x, M{D_POS, {}}, "clear() on " + value_text(to, m.d));
                c.transitions += 2; ++c.traces;
            }
        }});
    }
}
int main(int argc, char** argv) {
    return check_main(argc, argv, make, {
        "Exhaustive over: all construction lists of 0..8 digits over the (boundary) digits and 20-digit lists with every number of leading zeroes, times five descriptors; lists of every length up to 700 (quick) or 2100 (thorough) and selected lengths up to 131073, with every number of leading zeroes up to 70 digits and selected numbers above; every sequence of edits up to depth 4 (quick) or 5 (thorough) from eleven start states, with front/middle/back positions and every descriptor, mirrored step by step on std::vector; every single edit (every position, every size up to 40 more digits) of numbers of every length up to 160 (quick) or 400 (thorough) and selected lengths up to 1024; edits of numbers of 1000 to 131073 digits at and around every power of 2 and 10; long live scripts without copies; every descriptor change and clear at every length up to 140. states = construction inputs and first-edit roots, transitions = edits executed, traces = complete sequences.",
        {"pushing digits onto an infinity or NaN is outside the property", "the front is index 0, the least significant digit, as implemented (header comments of push_front/push_back say the opposite; see DESIGN.md)", "g++ -O2"}});
}
