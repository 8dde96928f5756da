// Operations in every phase of a program's life. The explorer starts itself
// again for every selection of phases; the child computes in these phases only
// and reports fingerprints, which are compared with those of a plain main().
#include <cmath>
#include <csignal>
#include <cstdlib>
#include <iostream>
#include <pthread.h>
#include <spawn.h>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
#include "life.hpp"
#include "sets.hpp"
#include "bignum/bignum.h"
#include "bignum/fourier.h"
extern char** environ;
static const char* const PHASE_TXT[PHASES] = {"the first constructor of a static object", "constructors of static objects ahead of the library's", "constructors of static objects behind the library's",
    "main", "a destructor during unwinding", "a forked child", "a second thread", "thread_local destructors of a thread", "thread specific data destructors", "thread_local destructors of the main thread",
    "an exit handler", "destructors of static objects behind the library's", "destructors of static objects ahead of the library's", "the last destructor of a static object"};
// Nothing here may have a destructor: the phases reach beyond main.
struct Rec { int phase, probe; u64 h; };
static int* g_spec;             // fd, type, mask, only this probe, exit from the second thread
static bool parse() {
    if (g_spec) return g_spec[0] >= 0;
    g_spec = new int[5]{-1, 0, 0, -1, 0};
    if (const char* s = getenv("BN_LIFE")) sscanf(s, "%d %d %d %d %d", g_spec, g_spec + 1, g_spec + 2, g_spec + 3, g_spec + 4);
    return g_spec[0] >= 0;
}
static void tell(const Rec* r, size_t n) {
    const char* p = reinterpret_cast<const char*>(r); size_t left = n * sizeof(Rec);
    while (left) { ssize_t k = write(g_spec[0], p, left); if (k <= 0) _exit(77); p += k; left -= size_t(k); }
}
static u64 mixh(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0x9ddfea08eb382d69ull; }
static u64 form(u64 h, const Num& n) { h = mixh(h, n.desc() + 10); for (u64 d : n.digits()) h = mixh(h, d); return h; }
static const std::vector<model::Val>& values(const Api* A) {
    static std::vector<model::Val>* cache = new std::vector<model::Val>[64];
    size_t k = 0; while (all_apis()[k] != A) ++k;
    std::vector<model::Val>& v = cache[k];
    if (v.empty()) {
        const u64 M = A->base - 1;
        v = {val(D_POS, {}), val(D_POS, {1}), val(D_NEG, {M, 0, 1}), val(D_NEG, {0}), val(D_POS, {M, M, M}), val(D_PINF, {}), val(D_NAN, {}), val(D_NEG, {0, 1, 0}),
             val(D_POS, patterns(A->base, 20, 0)[2]), val(D_NEG, patterns(A->base, 40, 0)[1])};
    }
    return v;
}
static bool cheap(const Api* A, const model::Val& a, const model::Val& b) {
    return !model::finite(a.desc) || !model::finite(b.desc) || model::zero(b.d) || (double(model::len(a.d)) - double(model::len(b.d)) + 1) * std::log2(double(A->base)) < 60;
}
static size_t probes(const Api* A) { const size_t n = values(A).size(); return n * n + n + 8; }
static std::string probe_text(const Api* A, size_t k) {
    const auto& v = values(A); const size_t n = v.size();
    if (k < n * n) return std::string(A->name) + ": operators and comparisons on " + text(v[k / n]) + " and " + text(v[k % n]);
    if (k < n * n + n) return std::string(A->name) + ": streaming, copying and editing " + text(v[k - n * n]);
    return "transforms of length " + std::to_string(1u << (k - n * n - n));
}
static u64 probe(const Api* A, size_t k) {
    const auto& v = values(A); const size_t n = v.size(); u64 h = 99;
    if (k < n * n) {
        const model::Val &a = v[k / n], &b = v[k % n];
        for (int op = 0; op < 4; ++op) {
            if (op == DIV && !cheap(A, a, b)) continue;
            Num x(A, a.desc, a.d), y(A, b.desc, b.d);
            { Num r(x, y, op); h = form(h, r); }
            x.op_assign(y, op); h = form(h, x);
            y.op_assign(y, op); h = form(h, y);
        }
        Num x(A, a.desc, a.d), y(A, b.desc, b.d);
        for (int q = 0; q < 6; ++q) h = mixh(h, x.cmp(y, q));
        return h;
    }
    if (k < n * n + n) {
        const model::Val& a = v[k - n * n];
        Num x(A, a.desc, a.d);
        for (int b : {10, 16, 8}) { bool same; for (char ch : x.print(b, &same)) h = mixh(h, (unsigned char)ch); }
        Num c(Num::Copy(), x); Num m(Num::Move(), c); Num o(A, D_NEG, {1, 1}); o.copy_assign(m); m.swap(o); c.move_assign(o);
        h = form(h, c); h = form(h, m);
        if (model::finite(a.desc)) { c.push_back(1); c.push_front(0); c.push(1, 1); c.resize(c.size() + 3, 1); h = form(h, c); c.pop(1); c.pop_back(); c.pop_front(); h = form(h, c); }
        std::ostringstream said; std::streambuf* old = std::cerr.rdbuf(said.rdbuf());
        int w = 0; try { m.at_const(m.size()); } catch (const std::exception&) { w = 1; } catch (...) { w = 2; }
        std::cerr.rdbuf(old); std::cerr.clear();
        for (char ch : said.str()) h = mixh(h, (unsigned char)ch);
        c.set_descriptor(D_NAN); c.clear();
        return form(mixh(h, w), c);
    }
    const size_t len = size_t(1) << (k - n * n - n);
    cmplx_list_t<double> x(len); for (size_t i = 0; i < len; ++i) x[i] = std::complex<double>(double((i * 3) % 10), double((i * 7) % 10));
    fft_complex<double>(x); ifft_complex<double>(x);
    for (auto& z : x) { h = mixh(h, u64(std::llround(z.real() * 1000) + 100000)); h = mixh(h, u64(std::llround(z.imag() * 1000) + 100000)); }
    return h;
}
static u64 guarded(const Api* A, size_t k) { try { return probe(A, k); } catch (...) { return 4711; } }
// A number that lives through all phases and changes in each of them.
static void chain_step(Num& n, int phase) {
    const u64 M = n.A->base - 1;
    n.op_assign(Num(n.A, D_POS, {M, 1}), MUL);
    n.op_assign(Num(n.A, phase & 1 ? D_NEG : D_POS, {M, u64(phase) % (M + 1), 1}), phase & 2 ? ADD : SUB);
    if (phase % 5 == 4) n.op_assign(Num(n.A, D_NEG, {1, 1}), DIV);
}
static Num* g_chain;
void life_phase(int ph) {
    if (!parse() || !(g_spec[2] >> ph & 1)) return;
    const Api* A = all_apis()[size_t(g_spec[1])];
    Rec r[260]; size_t n = 0;
    r[0] = {ph, -1, 0}; tell(r, 1);
    if (g_spec[3] >= 0) { r[n++] = {ph, g_spec[3], guarded(A, size_t(g_spec[3]))}; tell(r, n); return; }
    for (size_t k = 0; k < probes(A); ++k) r[n++] = {ph, int(k), guarded(A, k)};
    if (!g_chain) g_chain = new Num(A, D_POS, {1});
    if (ph != P_FORK) chain_step(*g_chain, ph);         // the child's number is not the parent's
    r[n++] = {ph, 1000, form(1, *g_chain)};
    tell(r, n);
}
// Numbers inside static and thread_local objects.
struct Held { Num a, b; Held(const Api* A) : a(A, D_NEG, {1, 0, 1}), b(A, D_POS, Digits(40, A->base - 1)) { a.op_assign(b, MUL); } };
struct Holder { int phase = -1; Held* h = nullptr; alignas(Held) unsigned char mem[sizeof(Held)];
    void open(int ph) { if (parse() && (g_spec[2] >> ph & 1)) { phase = ph; h = new (mem) Held(all_apis()[size_t(g_spec[1])]); } }
    void close() { if (h) { h->b.op_assign(h->a, SUB); const Rec r = {phase, 1001, form(form(1, h->a), h->b)}; h->~Held(); h = nullptr; tell(&r, 1); } } };
static Holder* holder_of(int ph) { static Holder* all = new Holder[PHASES]; return all + ph; }
LifeObject::LifeObject(int b, int e) : end(e) { life_phase(b); holder_of(b)->open(b); }
LifeObject::~LifeObject() { life_phase(end); holder_of(end == P_LAST ? P_EARLY : end == P_DTOR_BEFORE ? P_BEFORE : P_AFTER)->close(); }
struct TlsObject { int phase = -1; ~TlsObject() { if (phase >= 0) { life_phase(phase); holder_of(phase)->close(); } } };
static thread_local TlsObject t_object;
static void on_exit_handler() { life_phase(P_ATEXIT); }
static void on_thread_data(void*) { life_phase(P_TSD); }
static pthread_key_t g_key;
struct Unwinder { ~Unwinder() { life_phase(P_UNWIND); } };
static void* thread_body(void*) {
    t_object.phase = P_TLS; holder_of(P_TLS)->open(P_TLS);
    pthread_setspecific(g_key, &g_key);
    life_phase(P_THREAD);
    if (g_spec[4]) exit(0);
    return nullptr;
}
static int life_main() {
    atexit(on_exit_handler);
    t_object.phase = P_MAIN_TLS; holder_of(P_MAIN_TLS)->open(P_MAIN_TLS);
    life_phase(P_MAIN);
    try { Unwinder u; throw 1; } catch (int) {}
    if (g_spec[2] >> P_FORK & 1) { const pid_t p = fork(); if (!p) { life_phase(P_FORK); _exit(0); } int st = 0; waitpid(p, &st, 0); if (st) _exit(78); }
    pthread_key_create(&g_key, on_thread_data);
    pthread_t t; if (pthread_create(&t, nullptr, thread_body, nullptr)) _exit(79);
    pthread_join(t, nullptr);
    return 0;
}

static std::string mask_text(int mask) { std::string s; for (int p = 0; p < PHASES; ++p) if (mask >> p & 1) s += (s.empty() ? "" : ", ") + std::string(PHASE_TXT[p]); return s; }
struct Refs { std::vector<u64> h; u64 held; };
static Refs refs_of(const Api* A) {
    Refs r; for (size_t k = 0; k < probes(A); ++k) r.h.push_back(guarded(A, k));
    Held x(A); x.b.op_assign(x.a, SUB); r.held = form(form(1, x.a), x.b);
    return r;
}
static void life_case(Ctx& c, size_t api, const Refs& ref, int mask, int only, int from_thread) {
    if (!c.begin()) return;
    const Api* A = all_apis()[api];
    ++c.states;
    const std::string where = std::string(A->name) + " used in: " + mask_text(mask) + (from_thread ? " (exit called by the second thread)" : "");
    if (c.logging) c.log("// a program with " + where + (only >= 0 ? ", " + probe_text(A, size_t(only)) : ""));
    int fd[2]; if (pipe(fd)) c.fail("internal: pipe");
    char spec[100]; snprintf(spec, sizeof spec, "BN_LIFE=%d %zu %d %d %d", fd[1], api, mask, only, from_thread);
    std::vector<char*> env; for (char** e = environ; *e; ++e) env.push_back(*e);
    env.push_back(spec); env.push_back(nullptr);
    char name[] = "life"; char* argv[] = {name, nullptr};
    pid_t pid = 0;
    posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_addclose(&fa, fd[0]);
    if (posix_spawn(&pid, "/proc/self/exe", &fa, nullptr, argv, env.data())) c.fail("internal: spawn");
    posix_spawn_file_actions_destroy(&fa);
    close(fd[1]);
    std::string in; char buf[8192]; ssize_t n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0) in.append(buf, size_t(n));
    close(fd[0]);
    int st = 0; waitpid(pid, &st, 0);
    const Rec* r = reinterpret_cast<const Rec*>(in.data()); const size_t m = in.size() / sizeof(Rec);
    int seen = 0, last = -1; size_t got = 0;
    Num chain(A, D_POS, {1});
    for (size_t i = 0; i < m; ++i) {
        if (r[i].probe == -1) { last = r[i].phase; seen |= 1 << last; ++c.states; continue; }
        ++got; ++c.traces; c.transitions += 10; c.outcome(r[i].h);
        const std::string in_phase = std::string(" in ") + PHASE_TXT[r[i].phase] + " (" + where + ")";
        if (r[i].probe == 1000) { if (r[i].phase != P_FORK) chain_step(chain, r[i].phase); if (r[i].h != form(1, chain)) c.fail(std::string(A->name) + ": a number kept since the first phase is not what it should be" + in_phase); }
        else if (r[i].probe == 1001) { if (r[i].h != ref.held) c.fail(std::string(A->name) + ": the numbers held by an object with static or thread storage changed, its constructor ran" + in_phase); }
        else if (r[i].h != ref.h[size_t(r[i].probe)]) c.fail(probe_text(A, size_t(r[i].probe)) + ": the outcome differs from the outcome in main()" + in_phase);
    }
    if (st) c.fail(std::string(A->name) + ": the program ends with status " + std::to_string(WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st)) + ", last phase " + (last < 0 ? "none" : PHASE_TXT[last]) + " (" + where + ")");
    // with exit() called by the second thread the main thread's own never end
    const int expect = from_thread ? mask & ~(1 << P_MAIN_TLS | 1 << P_TSD) : mask;
    if ((seen & expect) != expect) c.fail("internal: phases missing: " + mask_text(expect & ~seen));
}
static void make(std::vector<Job>& jobs, bool thorough) {
    const std::vector<const Api*>& all = all_apis();
    std::vector<int> masks;
    for (int m = 1; m < 1 << PHASES; ++m) { const int k = __builtin_popcount(unsigned(m)); if (k <= (thorough ? 3 : 2) || k >= PHASES - (thorough ? 2 : 1)) masks.push_back(m); }
    for (size_t a = 0; a < all.size(); ++a) {
        const size_t S = thorough ? 16 : 4;
        for (size_t s = 0; s < S; ++s) {
            jobs.push_back({std::string(all[a]->name) + " selections of phases " + std::to_string(s), [=](Ctx& c) {
                const Refs ref = refs_of(all_apis()[a]);
                for (size_t i = s; i < masks.size(); i += S) for (int t = 0; t < 2; ++t) if (thorough || !t || i % 5 == 0) life_case(c, a, ref, masks[i], -1, t);
            }});
            jobs.push_back({std::string(all[a]->name) + " single computations " + std::to_string(s), [=](Ctx& c) {
                const Refs ref = refs_of(all_apis()[a]);
                for (size_t k = s; k < probes(all_apis()[a]); k += S) for (int ph = 0; ph < PHASES; ++ph) {
                    if (k >= ref.h.size() - 8 && a) continue;
                    if (!thorough && (k + size_t(ph) + a) % 4) continue;
                    life_case(c, a, ref, 1 << ph, int(k), 0);
                    if (thorough && ph != P_LAST) life_case(c, a, ref, 1 << ph | 1 << P_LAST, int(k), 0);
                }
            }});
        }
    }
}
int main(int argc, char** argv) {
    if (parse()) return life_main();
    return check_main(argc, argv, make, {
        "The explorer restarts itself for selections of 14 phases of a program's life (constructors of static objects before and behind the library's in link order, main, unwinding, a forked child, a second thread, thread_local and thread specific data destructors, exit handlers, destructors of static objects) and computes in exactly these phases: every selection of up to 2 (thorough: 3) phases and all but at most 1 (2), with exit() called by the main or by the second thread; operators in all forms and comparisons on all pairs of ten values, streaming, copies, moves, edits, rejected indexing, transforms, for each of the 12 types; a number that lives through all phases, numbers inside static and thread_local objects. Also single computations alone in a process in every phase (quick: one in four). Every fingerprint is compared with that of a plain main(). states = phases entered and programs run, transitions = library calls (at least), traces = fingerprints compared.",
        {"gcc -O1 with -fsanitize=address,undefined; the link order is harness, library, harness", "outcomes are compared with the library in main(), so a result wrong everywhere is not reported here"}, true});
}
