#include <chrono>
#include <cmath>
#include <map>
#include "sched.hpp"
#include "bignum/bn_except.h"
#include "sets.hpp"
static u64 mixh(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0x9ddfea08eb382d69ull; }
// What one thread does with its own number x and the shared numbers s and t.
enum { OWN_OP_SHARED, SHARED_OP_OWN, SHARED_OP_SHARED, OWN_COMPOUND_SHARED, OWN_SELF, COPY_SHARED, ASSIGN_SHARED, COMPARE_SHARED, PRINT_SHARED, QUERY_SHARED, MOVE_OWN, EDIT_OWN, REJECTED, LITERAL, RESIGN_OWN, KINDS };
struct Act { int kind, op; };
static std::vector<Act> acts() {
    std::vector<Act> v;
    for (int op = 0; op < 4; ++op) for (int k : {OWN_OP_SHARED, SHARED_OP_OWN, OWN_COMPOUND_SHARED, SHARED_OP_SHARED}) v.push_back({k, op});
    for (int op : {ADD, MUL, SUB, DIV}) v.push_back({OWN_SELF, op});
    for (int k : {COPY_SHARED, ASSIGN_SHARED, COMPARE_SHARED, PRINT_SHARED, QUERY_SHARED, MOVE_OWN, EDIT_OWN, REJECTED, LITERAL, RESIGN_OWN}) v.push_back({k, 0});
    return v;
}
static std::string act_text(const Act& a) {
    static const char* t[] = {"own % shared", "shared % own", "shared % other shared", "own %= shared", "own %= own", "copy construction from shared", "assignment of shared to own", "comparison of own with shared", "streaming shared", "reading digits and classification of shared", "moving own", "digit edits of own", "rejected index into own and shared", "construction from a digit list", "setting own to infinity and back"};
    std::string s = t[a.kind]; const size_t p = s.find('%'); if (p != std::string::npos) s.replace(p, 1, OP_TXT[a.op]);
    return s;
}
struct Env { const Api* A; const Num* s; const Num* t; model::Val own; };
static u64 form(const Num& n, std::string* txt) { const model::Val v = read(n); if (txt) *txt += text(v) + " "; return model::hash(v); }
static void perform(const Env& e, const Act& a, Num& x, u64& h, std::string& txt) {
    const Num& s = *e.s; const Num& t = *e.t;
    switch (a.kind) {
        case OWN_OP_SHARED: { Num r(x, s, a.op); h = mixh(h, form(r, &txt)); break; }
        case SHARED_OP_OWN: { Num r(s, x, a.op); h = mixh(h, form(r, &txt)); break; }
        case SHARED_OP_SHARED: { Num r(s, t, a.op); h = mixh(h, form(r, &txt)); break; }
        case OWN_COMPOUND_SHARED: x.op_assign(s, a.op); break;
        case OWN_SELF: x.op_assign(x, a.op); break;
        case COPY_SHARED: { Num r(Num::Copy(), s); h = mixh(h, form(r, &txt)); r.push_back(1); break; }
        case ASSIGN_SHARED: x.copy_assign(t); break;
        case COMPARE_SHARED: for (int q = 0; q < 6; ++q) h = h * 4 + x.cmp(s, q) * 2 + s.cmp(t, q); txt += std::to_string(h) + " "; break;
        case PRINT_SHARED: { bool b; const std::string p = s.print(10, &b); for (char c : p) h = mixh(h, (unsigned char)c); txt += p.substr(0, 60) + " "; break; }
        case QUERY_SHARED: for (size_t i = 0; i < s.size(); ++i) h = mixh(h, s.at_const(i)); h = mixh(h, s.desc() * 8 + e.A->is_neg(s.buf()) * 4 + e.A->is_inf(s.buf()) * 2 + e.A->is_nan(s.buf())); break;
        case EDIT_OWN: {
            const u64 M = e.A->base - 1; void* q = x.buf();
            e.A->push_back(q, M); e.A->push_front(q, 1); e.A->push(q, M, 1); h = mixh(h, form(x, &txt));
            e.A->at_set(q, 0, M); e.A->pop(q, 1); e.A->resize(q, x.size() + 2, 1); h = mixh(h, form(x, &txt));
            e.A->pop_back(q); e.A->pop_front(q); e.A->resize0(q, x.size() + 1); break; }
        case REJECTED:
            for (int w = 0; w < 3; ++w) try { h = mixh(h, w == 0 ? e.A->at_const(s.buf(), s.size()) : w == 1 ? e.A->at_mut(x.buf(), x.size()) : e.A->at_const(x.buf(), ~size_t(0))); txt += "no rejection "; } catch (bn_error_t q) { h = mixh(h, 77 + int(q)); }
            break;
        case LITERAL: { Num r(e.A, 0, {}); alignas(16) char raw[256]; const u64 m[8] = {0, 1, e.A->base - 1, 0, 1, 1, 0, e.A->base - 1}; for (size_t n : {3u, 8u}) { e.A->construct_list(raw, D_NEG, m, n); e.A->copy_assign(r.buf(), raw); e.A->destroy(raw); h = mixh(h, form(r, &txt)); } break; }
        case RESIGN_OWN: e.A->set_descriptor(x.buf(), D_NINF); x.op_assign(s, ADD); h = mixh(h, form(x, &txt)); e.A->clear(x.buf()); e.A->set_descriptor(x.buf(), D_NEG); e.A->push_back(x.buf(), 1); break;
        case MOVE_OWN: { Num m(Num::Move(), x); h = mixh(h, form(m, &txt)); x.move_assign(m); break; }
    }
    h = mixh(h, form(x, &txt));
}
static Script script(const Env& e, const std::vector<Act>& as) {
    return [e, as] {
        ThreadResult r; r.hash = 5;
        Num x(e.A, e.own.desc, e.own.d);
        for (const Act& a : as) perform(e, a, x, r.hash, r.text);
        return r;
    };
}
static bool g_thorough = false;
// Time for preempted schedules: shared among the pairs of a job, so that many
// conflicting pairs cannot keep the check from ending.
struct Budget {
    double total, left; size_t pairs;
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    explicit Budget(size_t n) : total(g_thorough ? 300 : 40), left(total), pairs(n) {}
    double next() {
        left = total - std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        const double n = pairs ? double(pairs--) : 1;
        return left <= 0 ? 0 : std::min(g_thorough ? 60.0 : 15.0, 4 * left / n);
    }
};
// All schedules of the two scripts up to the preemption bound; executions that
// differ only in the order of independent accesses are explored once.
static void explore(Ctx& c, const std::string& name, const Script& a, const Script& b, const ThreadResult ref[2], const std::function<uint64_t()>& after, double budget) {
    std::vector<uintptr_t> conf;
    const std::vector<long> none;
    const auto start_time = std::chrono::steady_clock::now();
    auto spent = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - start_time).count(); };
    auto judge = [&](const Execution& e, int start, const std::vector<long>& s) {
        c.transitions += e.accesses;
        std::string sc = "thread " + std::to_string(start) + " first"; for (long p : s) sc += ", switch before conflicting access " + std::to_string(p);
        if (e.status == Execution::STUCK) c.fail(name + ": no result under the schedule: " + sc);
        if (e.status == Execution::DEADLOCK) c.fail(name + ": deadlock under the schedule: " + sc);
        if (e.status == Execution::CRASH) c.fail(name + ": crash under the schedule: " + sc);
        if (e.status == Execution::SHARED_CHANGED) c.fail(name + ": a shared number was modified: " + sc);
        for (int i = 0; i < 2; ++i) if (e.r[i].hash != ref[i].hash) c.fail(name + ": thread " + std::to_string(i + 1) + " obtains " + e.r[i].text + "; alone it obtains " + ref[i].text + "; schedule: " + sc);
        ++c.traces;
    };
    for (int round = 0; round < 6; ++round) {
        bool again = false;
        for (int start = 1; start <= 2; ++start) {
            Execution e0 = execute(a, b, start, none, conf, 0, after);
            judge(e0, start, none);
            again |= e0.grew;
        }
        if (!again) break;
    }
    c.outcome(conf.size() * 7919 + ref[0].hash);
    if (conf.empty()) return;       // every interleaving is equivalent to the ones executed
    // Preemption bounds are iterated, so that a budget cuts the deepest one short.
    bool cut = false;
    for (size_t bound = 1; bound <= (g_thorough ? 3u : 2u) && !cut; ++bound)
    for (int round = 0; round < 4; ++round) {
        bool grew = false;
        std::function<void(int, std::vector<long>&, size_t)> dfs = [&](int start, std::vector<long>& s, size_t depth) {
            c.begin_dependent(); --c.cases;
            std::vector<uintptr_t> k = conf;
            const Execution e = execute(a, b, start, s, k, 0, after);
            judge(e, start, s);
            if (k.size() > conf.size()) { conf = k; grew = true; return; }
            if (depth == bound) return;
            for (long p = s.empty() ? 0 : s.back() + 1; p < e.points && !grew; ++p) {
                if (spent() > budget) { cut = true; return; }
                s.push_back(p); dfs(start, s, depth + 1); s.pop_back(); }
        };
        for (int start = 1; start <= 2 && !grew; ++start) { std::vector<long> s; dfs(start, s, 0); }
        if (!grew || cut) break;
    }
    c.capped += cut;
}
struct Shape { std::string name; model::Val own1, own2, s, t; };
static std::vector<Shape> shapes(u64 B) {
    const u64 M = B - 1;
    std::vector<Shape> v;
    v.push_back({"short", val(D_NEG, {M, 1}), val(D_POS, {0, 1, M}), val(D_POS, {M, M}), val(D_NEG, {1})});
    v.push_back({"medium", val(D_POS, patterns(B, 9, 0)[0]), val(D_NEG, patterns(B, 7, 0)[1]), val(D_NEG, patterns(B, 8, 0)[2]), val(D_POS, patterns(B, 6, 0)[0])});
    v.push_back({"mixed", val(D_POS, Digits{M, 0, 1, 0}), val(D_POS, {}), val(D_PINF, {}), val(D_POS, {0})});
    return v;
}
static void make(std::vector<Job>& jobs, bool thorough) {
    g_thorough = thorough;
    use_arenas();
    const std::vector<Act> al = acts();
    for (const Api* A : all_apis()) for (size_t sh = 0; sh < 3; ++sh) for (size_t part = 0; part < 2; ++part)
        jobs.push_back({std::string(A->name) + " " + shapes(A->base)[sh].name + " " + std::to_string(part), [=](Ctx& c) {
            const Shape S = shapes(A->base)[sh];
            const Num s(A, S.s.desc, S.s.d), t(A, S.t.desc, S.t.d);
            const Env e1 = {A, &s, &t, S.own1}, e2 = {A, &s, &t, S.own2};
            const std::function<uint64_t()> after = [&]() -> uint64_t { const model::Val a = read(s), b = read(t); return a.desc != S.s.desc || a.d != S.s.d || b.desc != S.t.desc || b.d != S.t.d; };
            // scripts of one action, and of an action followed by a multiplication or division (quick) / any action (thorough)
            std::vector<std::vector<Act>> sc;
            for (const Act& a : al) sc.push_back({a});
            if (thorough) for (size_t i = 0; i < al.size(); ++i) for (size_t j = i % 5; j < al.size(); j += 5) sc.push_back({al[i], al[j]});
            else for (size_t i = 0; i < al.size(); i += 5) sc.push_back({al[i], {OWN_COMPOUND_SHARED, int(i / 5) % 4}});
            std::vector<ThreadResult> ref[2];
            std::vector<uintptr_t> dummy;
            for (int w = 0; w < 2; ++w) for (const auto& as : sc) { dummy.clear(); const Script p = script(w ? e2 : e1, as); ref[w].push_back(execute(p, p, 1, {}, dummy, 1, nullptr).r[0]); }
            Budget budget(sc.size() * sc.size() / 2);
            for (size_t i = part; i < sc.size(); i += 2) for (size_t j = 0; j < sc.size(); ++j) {
                if (thorough && i >= al.size() && j >= al.size() && (i + j) % 7) continue;
                if (!c.begin()) continue;
                ++c.states;
                std::string name = std::string(A->name) + ": thread 1 (own number " + text(S.own1) + "):";
                for (const Act& a : sc[i]) name += " " + act_text(a) + ";";
                name += " thread 2 (own number " + text(S.own2) + "):";
                for (const Act& a : sc[j]) name += " " + act_text(a) + ";";
                name += " shared numbers " + text(S.s) + " and " + text(S.t);
                if (c.logging) { c.log("// " + name); }
                const bool was = c.logging; c.logging = false;
                const ThreadResult r[2] = {ref[0][i], ref[1][j]};
                explore(c, name, script(e1, sc[i]), script(e2, sc[j]), r, after, budget.next());
                c.logging = was;
            }
        }});
    // different types and sizes at the same time
    for (const Api* A : all_apis())
        jobs.push_back({std::string(A->name) + " with every other type", [=](Ctx& c) {
            Budget budget(600);
            for (const Api* B : all_apis()) for (int sizes = 0; sizes < 5; ++sizes) {
                if (sizes > 2 && !thorough && B != A && B->base + 1 != A->base && B->width != 16) continue;
                if (sizes > 2 && B->base > A->base * 100) continue;
                const size_t n = sizes == 0 ? 2 : sizes == 1 ? 12 : sizes == 2 ? 40 : sizes == 3 ? 130 : 33, m = sizes == 0 ? 5 : sizes == 1 ? 3 : sizes == 2 ? 40 : sizes == 3 ? 90 : 260;
                const Num s1(A, D_POS, patterns(A->base, n, 0)[0]), t1(A, D_NEG, patterns(A->base, 2, 0)[0]);
                const Num s2(B, D_POS, patterns(B->base, m, 0)[0]), t2(B, D_NEG, patterns(B->base, 2, 0)[1]);
                const Env e1 = {A, &s1, &t1, val(D_NEG, patterns(A->base, n, 0)[1])}, e2 = {B, &s2, &t2, val(D_POS, patterns(B->base, m, 0)[2])};
                for (int o1 = 0; o1 < 4; ++o1) for (int o2 = 0; o2 < 4; ++o2) {
                    if (!thorough && o1 != MUL && o2 != MUL && o1 != o2) continue;
                    if (sizes == 2 && !thorough && (o1 != MUL || o2 != MUL)) continue;
                    if (sizes > 2 && (o1 == DIV || o2 == DIV || (!thorough && (o1 == SUB || o2 == SUB || o1 + o2 == 0)))) continue;
                    if (!c.begin()) continue;
                    ++c.states;
                    const Script p = script(e1, {{OWN_OP_SHARED, o1}, {COMPARE_SHARED, 0}}), q = script(e2, {{OWN_COMPOUND_SHARED, o2}, {PRINT_SHARED, 0}});
                    const std::string name = std::string("thread 1: ") + A->name + " " + text(e1.own) + " " + OP_TXT[o1] + " ..., thread 2: " + B->name + " " + text(e2.own) + " " + OP_TXT[o2] + "= ...";
                    if (c.logging) c.log("// " + name);
                    const bool was = c.logging; c.logging = false;
                    std::vector<uintptr_t> d;
                    ThreadResult r[2]; r[0] = execute(p, p, 1, {}, d, 1, nullptr).r[0]; d.clear(); r[1] = execute(q, q, 1, {}, d, 1, nullptr).r[0];
                    explore(c, name, p, q, r, nullptr, budget.next());
                    c.logging = was;
                }
            }
        }});
}
int main(int argc, char** argv) {
    return check_main(argc, argv, make, {
        "Stateless exploration of real threads. The library is compiled so that every load, store, block copy, atomic and static-initialisation guard calls the explorer's scheduler; each execution runs in a process of its own and both threads' results are compared with the results the thread obtains alone in a fresh process. For every pair of scripts (every arithmetic operator with own and shared operands in every role, self operations, copies, assignment, comparison, streaming, reading, moves, digit edits, rejected indexing, digit lists, sign changes; one or two actions per thread; 3 operand shapes, 12 types, and pairs of different types and sizes) both sequential orders are executed and all accessed locations recorded. If no location is written by one thread and touched by the other, all interleavings are equivalent to the executed ones (exact partial-order reduction); otherwise every schedule with up to 2 (quick) or 3 (thorough) preemptions at accesses to such locations is executed, bounds iterated, within a time budget per job (pairs cut short by it are counted in cases_capped). states = pairs of scripts, transitions = memory accesses executed under the scheduler, traces = schedules in which both threads obtained their sequential results.",
        {"sequentially consistent memory", "two threads", "accesses inside the precompiled C++ runtime (streams) are not scheduling points", "thread-sanitizer instrumentation of g++ -O1"}});
}
