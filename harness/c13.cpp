#include "sets.hpp"
static bool same(const model::Val& a, const model::Val& b) { return a.desc == b.desc && a.d == b.d; }
static void scramble(Num& n, u64 base) {
    for (size_t i = 0; i < n.size(); ++i) n.at_set(i, (n.at_mut(i) + 1) % base);
    n.push_back(1); n.push_front(1); n.set_descriptor(D_NEG);
}
static void need(Ctx& c, const Num& n, const model::Val& w, const std::string& what) {
    static model::Val t; read(n, t);
    if (!same(t, w)) c.fail(std::string(n.A->name) + ": " + what + ": found " + text(t) + ", expected " + text(w));
}
static void need_reset(Ctx& c, const Num& n, const std::string& what) {
    static model::Val t; read(n, t);
    if (t.desc != D_POS || !model::zero(t.d)) c.fail(std::string(n.A->name) + ": " + what + " leaves the source as " + text(t) + " instead of a positive zero");
}
static void single_case(Ctx& c, const Api* A, const model::Val& a) {
    if (!c.begin()) return;
    ++c.states;
    Num x(A, a.desc, a.d);
    Num y(Num::Copy(), x); need(c, y, a, "copy construction of " + text(a)); need(c, x, a, "source of a copy construction");
    const void* r = x.copy_assign(x); need(c, x, a, "self assignment of " + text(a));
    if (r != x.buf()) c.fail(std::string(A->name) + ": copy assignment does not return its target");
    scramble(y, A->base); need(c, x, a, "source after its copy was modified");
    Num z(Num::Copy(), x); scramble(x, A->base); need(c, z, a, "copy after its source was modified");
    Num m(Num::Move(), z); need(c, m, a, "move construction from " + text(a)); need_reset(c, z, "move construction from " + text(a));
    Num w(Num::Copy(), z); need_reset(c, w, "copying a moved-from number");
    z.push_back(1); need(c, z, val(D_POS, model::zero(read(w).d) && read(w).d.size() ? Digits{0, 1} : Digits{1}), "reuse of a moved-from number");
    need(c, m, a, "move target after the source was reused");
    z.copy_assign(m); need(c, z, a, "assignment to a moved-from number");
    c.transitions += 12; ++c.traces; c.outcome(model::hash(a));
}
static void pair_case(Ctx& c, const Api* A, const model::Val& a, const model::Val& b) {
    if (!c.begin()) return;
    ++c.states;
    const std::string n = text(a) + " <- " + text(b);
    Num x(A, a.desc, a.d), y(A, b.desc, b.d);
    if (x.copy_assign(y) != x.buf()) c.fail(std::string(A->name) + ": copy assignment does not return its target");
    need(c, x, b, "copy assignment " + n); need(c, y, b, "source of copy assignment " + n);
    scramble(x, A->base); need(c, y, b, "source after its assigned copy was modified");
    x.copy_assign(y); scramble(y, A->base); need(c, x, b, "assigned copy after its source was modified");
    Num p(A, a.desc, a.d), q(A, b.desc, b.d);
    if (p.move_assign(q) != p.buf()) c.fail(std::string(A->name) + ": move assignment does not return its target");
    need(c, p, b, "move assignment " + n); need_reset(c, q, "move assignment " + n);
    q.push_back(1); q.set_descriptor(D_NEG); need(c, p, b, "move target after the source was reused");
    scramble(p, A->base); model::Val t = read(q);
    if (t.desc != D_NEG || t.d.empty() || t.d.back() != 1) c.fail(std::string(A->name) + ": a reused moved-from number changed with its former content: " + text(t));
    Num s(A, a.desc, a.d), u(A, b.desc, b.d);
    s.swap(u); need(c, s, b, "swap of " + text(a) + " and " + text(b)); need(c, u, a, "swap of " + text(a) + " and " + text(b));
    s.swap(u); need(c, s, a, "second swap"); need(c, u, b, "second swap");
    scramble(s, A->base); need(c, u, b, "swapped number after the other was modified");
    c.transitions += 11; ++c.traces;
}
// All sequences of transfers between three live objects and one modification each.
static void sequences(Ctx& c, const Api* A, size_t depth, size_t first) {
    const u64 B = A->base;
    const model::Val init[3] = {val(D_NEG, {B - 1, 0, 1}), val(D_POS, {}), val(D_PINF, {})};
    struct Step { int kind, i, j; };
    std::vector<Step> al;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { al.push_back({0, i, j}); if (i != j) al.push_back({1, i, j}); if (i < j) al.push_back({2, i, j}); }
    for (int i = 0; i < 3; ++i) { al.push_back({3, i, 0}); al.push_back({4, i, 0}); al.push_back({5, i, (i + 1) % 3}); al.push_back({6, i, (i + 2) % 3}); }
    if (first >= al.size()) return;
    std::vector<size_t> idx(depth, 0); idx[0] = first;
    for (;;) {
        if (c.begin()) {
            ++c.states;
            Num o[3] = {{A, init[0].desc, init[0].d}, {A, init[1].desc, init[1].d}, {A, init[2].desc, init[2].d}};
            model::Val m[3] = {init[0], init[1], init[2]};
            std::string path;
            for (size_t k : idx) {
                const Step& s = al[k];
                switch (s.kind) {
                    case 0: o[s.i].copy_assign(o[s.j]); m[s.i] = model::Val(m[s.j]); break;
                    case 1: o[s.i].move_assign(o[s.j]); m[s.i] = m[s.j]; m[s.j] = model::Val(); break;
                    case 2: o[s.i].swap(o[s.j]); std::swap(m[s.i], m[s.j]); break;
                    case 3: if (model::finite(m[s.i].desc)) { o[s.i].push_back(1); m[s.i].d.push_back(1); } break;
                    case 4: o[s.i].clear(); m[s.i] = model::Val(); break;
                    case 5: { Num t(Num::Copy(), o[s.i]); if (model::finite(m[s.i].desc)) t.push_front(1); o[s.j].move_assign(t); m[s.j] = m[s.i]; if (model::finite(m[s.i].desc)) m[s.j].d.insert(m[s.j].d.begin(), 1); break; }
                    default: { Num t(Num::Move(), o[s.i]); o[s.j].copy_assign(t); m[s.j] = m[s.i]; m[s.i] = model::Val(); break; }
                }
                ++c.transitions;
                path += " " + std::to_string(s.kind) + ":" + std::to_string(s.i) + std::to_string(s.j);
                for (int q = 0; q < 3; ++q) {
                    model::Val t = read(o[q]);
                    const bool ok = same(t, m[q]) || (m[q].d.empty() && m[q].desc == D_POS && t.desc == D_POS && model::zero(t.d) && t.d.size() <= 1);
                    if (!ok) c.fail(std::string(A->name) + ": after steps" + path + " object " + std::to_string(q) + " is " + text(t) + ", expected " + text(m[q]));
                    m[q] = t;       // a zero may be held as [] or [0]
                }
            }
            ++c.traces;
        }
        size_t k = depth - 1;
        while (k > 0 && ++idx[k] == al.size()) idx[k--] = 0;
        if (k == 0) break;
    }
}
static void make(std::vector<Job>& jobs, bool thorough) {
    for (const Api* A : all_apis()) {
        auto vals = std::make_shared<std::vector<model::Val>>();
        for (const Digits& d : short_forms(A->base, thorough ? 3000 : 1000, 1)) for (int s = 0; s < 2; ++s) vals->push_back(val(s, d));
        for (int d : {D_NAN, D_PINF, D_NINF}) vals->push_back(val(d, {}));
        for (size_t n : {3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 513, 1025}) for (const Digits& d : patterns(A->base, n, 0)) vals->push_back(val(n & 1, d));
        for (size_t s = 0; s < 4; ++s)
            jobs.push_back({std::string(A->name) + " pairs " + std::to_string(s), [=](Ctx& c) {
                for (size_t i = s; i < vals->size(); i += 4) {
                    single_case(c, A, (*vals)[i]);
                    for (size_t j = 0; j < vals->size(); ++j) pair_case(c, A, (*vals)[i], (*vals)[j]);
                }
            }});
        jobs.push_back({std::string(A->name) + " lengths", [=](Ctx& c) {
            for (size_t n = 0; n <= size_t(thorough ? 1100 : 600); ++n) for (const Digits& d : patterns(A->base, n, 1)) { single_case(c, A, val(D_NEG, d)); single_case(c, A, val(D_POS, d)); }
            for (size_t n = 1; n <= size_t(thorough ? 1100 : 600); ++n) for (size_t m : {size_t(0), size_t(1), n / 2, n - 1, n, n + 1, 2 * n, n + 200}) {
                const Forms f = patterns(A->base, n, 0), h = patterns(A->base, m, 0);
                for (size_t i = 0; i < f.size(); ++i) pair_case(c, A, val(int(i & 1), f[i]), val(int(i >> 1 & 1), h[i % h.size()]));
            }
            for (size_t n : {1000, 1024, 2048, 4096, 10000, 16384, 32768, 65535, 65536, 65537, 100000, 131072, 131073, 1000000}) for (const Digits& d : patterns(A->base, n, 0)) { single_case(c, A, val(D_NEG, d)); pair_case(c, A, val(D_POS, {1}), val(D_NEG, d)); pair_case(c, A, val(D_POS, d), val(D_NEG, {1})); }
        }});
        for (size_t f = 0; f < 30; ++f)
            jobs.push_back({std::string(A->name) + " transfer sequences " + std::to_string(f), [=](Ctx& c) { sequences(c, A, thorough ? 5 : 4, f); }});
    }
}
int main(int argc, char** argv) {
    return check_main(argc, argv, make, {
        "Exhaustive over: every short stored form, special value and structured long number as the value of a single object and as every (target, source) pair for copy construction, copy assignment, self assignment, move construction, move assignment and swap, each followed by modifications of both sides; every length up to 600 (thorough: 1100), alone and as target of sources with 0, 1, half, one less, as many, one more, twice as many and 200 more digits; lengths up to 10^6; every sequence of 27 transfer and modification steps between three live objects up to depth 4 (quick) or 5 (thorough), compared with plain values after every step. states = configurations and sequences, transitions = library operations, traces = complete scripts.",
        {"self move assignment is not constrained", "g++ -O2"}});
}
