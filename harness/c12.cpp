#include "sets.hpp"
#include <cstdlib>
#include <new>
// The k-th allocation made by the operation fails, for every k.
static bool g_armed = false, g_deep = false;
static long g_left = 0, g_live = 0, g_count = 0;
static void* grab(size_t n) {
    if (g_armed) { ++g_count; if (--g_left == 0) throw std::bad_alloc(); }
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    ++g_live;
    return p;
}
static void drop(void* p) { if (p) { --g_live; free(p); } }
void* operator new(size_t n) { return grab(n); }
void* operator new[](size_t n) { return grab(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return grab(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return grab(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { drop(p); }
void operator delete[](void* p) noexcept { drop(p); }
void operator delete(void* p, size_t) noexcept { drop(p); }
void operator delete[](void* p, size_t) noexcept { drop(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { drop(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { drop(p); }

enum Kind { COMPOUND, SELF, BINARY, BINARY_SELF, COPY_CTOR, COPY_ASSIGN, LIST_CTOR, PUSH_FRONT, PUSH_BACK, PUSH_MID, RESIZE, COMPARE, MOVE_CTOR, MOVE_ASSIGN, SWAP };
static const char* kind_name[] = {"compound", "compound with itself", "binary", "binary with itself", "copy construction", "copy assignment", "construction", "push_front", "push_back", "push in the middle", "resize", "comparison", "move construction", "move assignment", "swap"};
struct Slack { size_t a, b; };      // spare capacity given to the operands

static const long FREE = 1L << 60;      // an injection point no operation reaches
static void oom_case(Ctx& c, const Api* A, const model::Val& a, const model::Val& b, Kind kind, int op, int slack) {
    if (!c.begin()) return;
    ++c.states;
    static model::Val t;
    t.d.reserve(4096);
    // every fault point up to 400; of an operation that makes more allocations
    // than that, also about 200 evenly spaced ones and the last 100
    long total = -1;
    for (long k = 1;;) {
        // memory kept for later use (a cache) stops growing, a leak does not
        int grown = 0;
    again:
        const long live0 = g_live;
        bool failed = false; const char* wrong = nullptr;
        std::string msg;
        {
            alignas(16) unsigned char xb[128], yb[128], rb[128];
            A->construct(xb); A->construct(yb);
            A->set(xb, a.desc, a.d.data(), a.d.size()); A->set(yb, b.desc, b.d.data(), b.d.size());
            if (slack) {        // leave spare capacity, so that only some of the steps allocate
                A->resize0(xb, a.d.size() + 40); A->resize0(xb, a.d.size());
                if (slack > 1) { A->resize0(yb, b.d.size() + 40); A->resize0(yb, b.d.size()); }
            }
            bool made = false, boolres = false;
            std::vector<u64> msd(a.d.rbegin(), a.d.rend());
            const size_t mid = a.d.size() / 2;
            g_left = k; g_count = 0;
            try {
                g_armed = true;
                switch (kind) {
                    case COMPOUND: A->op_assign(xb, yb, op); break;
                    case SELF: A->op_assign(xb, xb, op); break;
                    case BINARY: A->op_binary(rb, xb, yb, op); made = true; break;
                    case BINARY_SELF: A->op_binary(rb, xb, xb, op); made = true; break;
                    case COPY_CTOR: A->copy_construct(rb, xb); made = true; break;
                    case COPY_ASSIGN: A->copy_assign(xb, yb); break;
                    case LIST_CTOR: made = A->construct_list(rb, a.desc, msd.data(), msd.size()); break;
                    case PUSH_FRONT: A->push_front(xb, 1); break;
                    case PUSH_BACK: A->push_back(xb, 1); break;
                    case PUSH_MID: A->push(xb, 1, mid); break;
                    case RESIZE: A->resize(xb, a.d.size() + 50, 1); break;
                    case COMPARE: for (int q = 0; q < 6; ++q) boolres ^= A->cmp(xb, yb, q); break;
                    case MOVE_CTOR: A->move_construct(rb, xb); made = true; break;
                    case MOVE_ASSIGN: A->move_assign(xb, yb); break;
                    case SWAP: A->swap(xb, yb); break;
                }
                g_armed = false;
            }
            catch (const std::bad_alloc&) { g_armed = false; failed = true; }
            catch (const std::exception& e) { g_armed = false; failed = true; wrong = "the failure surfaced as another exception than std::bad_alloc"; msg = e.what(); }
            catch (...) { g_armed = false; failed = true; wrong = "the failure surfaced as another exception than std::bad_alloc"; }
            ++c.transitions; c.outcome(failed * 1000 + k * 16 + kind);
            auto name = [&] { return std::string(A->name) + ": " + kind_name[kind] + (kind <= BINARY_SELF ? std::string(" ") + OP_TXT[op] : "") + " on " + text(a) + " and " + text(b) + ", allocation " + std::to_string(k) + " fails: "; };
            if (g_count >= k && !failed) c.fail(name() + "the failure did not reach the caller");
            if (wrong) c.fail(name() + wrong + " " + msg);
            auto stored = [&](const void* p) { t.desc = A->desc(p); A->get(p, t.d); };
            if (failed) {
                stored(yb);
                if (t.desc != b.desc || t.d != b.d) c.fail(name() + "the right operand became " + text(t));
                stored(xb);
                if (kind == COMPOUND || kind == SELF) {
                    if ((t.desc != D_PINF && t.desc != D_NINF) || !t.d.empty() || A->size(xb)) c.fail(name() + "the target is left as " + text(t) + " instead of an infinity without digits");
                } else if (t.desc != a.desc || t.d != a.d) c.fail(name() + "an operand became " + text(t));
                // reusable by assignment, and fully functional afterwards
                A->copy_assign(xb, yb);
                stored(xb); if (t.desc != b.desc || t.d != b.d) c.fail(name() + "assigning to the target afterwards gave " + text(t));
                const u64 two[2] = {1, 1};
                A->set(yb, D_POS, two, 2); A->copy_assign(xb, yb); A->op_assign(xb, yb, ADD);
                stored(xb);
                model::Val w, o = val(D_POS, {1, 1}); model::apply(w, o, o, ADD, A->base);
                if (!model::finite(t.desc) || model::cmp(t, w)) c.fail(name() + "arithmetic on the reassigned target gave " + text(t));
                c.transitions += 3;
            }
            if (made) A->destroy(rb);
            A->destroy(xb); A->destroy(yb);
        }
        if (g_live - long(msg.size() > 15) > live0) {
            if (++grown < 40) goto again;
            c.fail(std::string(A->name) + ": " + kind_name[kind] + (kind <= BINARY_SELF ? std::string(" ") + OP_TXT[op] : "") + " on " + text(a) + " and " + text(b) + (failed ? " leaks when allocation " + std::to_string(k) + " fails: " : " leaks: ") + std::to_string(g_live - live0) + " block(s)");
        }
        if (!failed) { if (k != FREE) { ++c.traces; break; } total = g_count; }
        if (k < 400) ++k;
        else if (total < 0) k = FREE;
        else if (k == FREE) k = 401;
        else k += k < total - 100 ? std::max(1L, std::min(total - 100 - k, (total - 500) / 200)) : 1;
    }
}
static void all_kinds(Ctx& c, const Api* A, const model::Val& a, const model::Val& b, int slack, double bits) {
    for (int op = 0; op < 4; ++op) {
        if (op == DIV && model::finite(a.desc) && model::finite(b.desc) && !model::zero(b.d) && (double(model::len(a.d)) - double(model::len(b.d))) * bits > (g_deep ? 70 : 30)) continue;
        oom_case(c, A, a, b, COMPOUND, op, slack);
        oom_case(c, A, a, b, BINARY, op, slack);
        if (a.d == b.d && a.desc == b.desc) { oom_case(c, A, a, b, SELF, op, slack); oom_case(c, A, a, b, BINARY_SELF, op, slack); }
    }
    oom_case(c, A, a, b, COPY_ASSIGN, 0, slack);
    oom_case(c, A, a, b, COMPARE, 0, slack);
    oom_case(c, A, a, b, MOVE_ASSIGN, 0, slack);
    oom_case(c, A, a, b, SWAP, 0, slack);
}
static void one_operand(Ctx& c, const Api* A, const model::Val& a, int slack) {
    const model::Val z = val(D_NEG, {1, 1});
    oom_case(c, A, a, z, COPY_CTOR, 0, slack);
    oom_case(c, A, a, z, MOVE_CTOR, 0, slack);
    if (a.d.size() <= 8 || a.d.size() == 20) oom_case(c, A, a, z, LIST_CTOR, 0, slack);
    if (model::finite(a.desc)) for (Kind k : {PUSH_FRONT, PUSH_BACK, PUSH_MID, RESIZE}) oom_case(c, A, a, z, k, 0, slack);
}
static void make(std::vector<Job>& jobs, bool thorough) {
    g_deep = thorough;
    for (const Api* A : all_apis()) {
        const double bits = double(64 - __builtin_clzll(A->base - 1));
        auto vals = std::make_shared<std::vector<model::Val>>();
        for (const Digits& d : short_forms(A->base, thorough ? 250 : 45, 1)) for (int s = 0; s < 2; ++s) vals->push_back(val(s, d));
        for (int d : {D_NAN, D_PINF, D_NINF}) vals->push_back(val(d, {}));
        for (size_t s = 0; s < 4; ++s)
            jobs.push_back({std::string(A->name) + " short pairs " + std::to_string(s), [=](Ctx& c) {
                for (size_t i = s; i < vals->size(); i += 4) {
                    for (int slack = 0; slack < 2; ++slack) one_operand(c, A, (*vals)[i], slack);
                    for (size_t j = 0; j < vals->size(); ++j) all_kinds(c, A, (*vals)[i], (*vals)[j], int((i + j) % 3), bits);
                }
            }});
        for (size_t n : thorough ? std::vector<size_t>{3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 31, 32, 33, 40, 64, 65, 100, 128, 129, 257} : std::vector<size_t>{3, 5, 8, 9, 16, 17, 20, 33, 66, 130, 257})
            jobs.push_back({std::string(A->name) + " lengths " + std::to_string(n), [=](Ctx& c) {
                int k = 0;
                for (const Digits& x : patterns(A->base, n, 1)) {
                    for (int slack = 0; slack < 3; ++slack) one_operand(c, A, val(k & 1, x), slack);
                    for (size_t m : {size_t(1), size_t(2), n - 1, n, n + 1, 2 * n}) {
                        if (m == 2 * n && n > 20 && !thorough) continue;
                        for (const Digits& y : patterns(A->base, m, 0)) {
                            ++k;
                            if (n > 12 && k % (thorough ? 4 : n > 200 ? 307 : n > 40 ? 61 : n > 20 ? 24 : 7)) continue;
                            all_kinds(c, A, val(k & 1, x), val((k >> 1) & 1, y), k % 3, bits);
                        }
                    }
                    if (n <= 12 || (n <= 40 && ++k % 4 == 0)) all_kinds(c, A, val(D_NEG, x), val(D_NEG, x), 0, bits);
                }
            }});
    }
}
int main(int argc, char** argv) {
    return check_main(argc, argv, make, {
        "Fault enumeration by exhaustive exploration: for every operation (compound, binary and aliased arithmetic, copies, moves, swap, comparison, construction, digit edits) on every pair of short stored forms and special values and on structured longer operands, with and without spare capacity, the operation is executed once per allocation it makes with exactly that allocation failing (every one of the first 400; of any beyond those, about 200 evenly spaced ones and the last 100). After each failure: exception type, target form, all other operands, later reuse and the number of live blocks. states = (operation, operands), transitions = executions with an injected outcome and recovery calls, traces = (operation, operands) explored through every fault point up to the fault-free run.",
        {"allocations are those made through operator new (the default allocator)", "streaming is excluded: standard streams turn allocation failures into badbit", "which infinity a failed compound assignment leaves is not specified", "g++ -O2"}});
}
