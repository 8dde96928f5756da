#include "arith.hpp"
#include "bignum/bignum.h"
// Successive +1 / -1 against a plain odometer.
static void up(model::Val& v, u64 base) {
    if (v.desc == D_NEG && !model::zero(v.d)) {             // towards zero
        for (size_t i = 0; i < v.d.size(); ++i) { if (v.d[i]) { --v.d[i]; break; } v.d[i] = base - 1; }
        model::trim(v.d); if (v.d.empty()) v.desc = D_POS; return;
    }
    v.desc = D_POS;
    for (size_t i = 0;; ++i) { if (i == v.d.size()) { v.d.push_back(1); break; } if (v.d[i] + 1 < base) { ++v.d[i]; break; } v.d[i] = 0; }
}
static void step(model::Val& v, u64 base, bool plus) {
    if (plus) { up(v, base); return; }
    // v - 1 = -((-v) + 1)
    model::Val t = v; t.desc = v.desc == D_NEG && !model::zero(v.d) ? D_POS : D_NEG; if (model::zero(t.d)) t.desc = D_POS;
    up(t, base);
    v.d = t.d; v.desc = model::zero(t.d) ? D_POS : t.desc == D_NEG ? D_POS : D_NEG;
}
static void judge(Ctx& c, const Num& n, const model::Val& want, const char* what, u64 k, const std::string& start) {
    static model::Val got; read(n, got);
    bool ok = model::finite(got.desc) && model::cmp(got, want) == 0;
    for (u64 d : got.d) ok = ok && d < n.A->base;
    if (!ok) c.fail(std::string(n.A->name) + ": starting from " + start + ", " + what + " number " + std::to_string(k) + " shows " + text(got) + " instead of " + text(want));
    ++c.transitions;
}
static void run_count(Ctx& c, const Api* A, const model::Val& start, u64 steps) {
    if (!c.begin()) return;
    ++c.states;
    Num x(A, start.desc, start.d), one(A, D_POS, {1});
    model::Val m = start; model::trim(m.d);
    const std::string s = text(start);
    for (u64 k = 1; k <= steps; ++k) { x.op_assign(one, ADD); step(m, A->base, true); judge(c, x, m, "increment", k, s); }
    c.outcome(model::hash(m));
    for (u64 k = 1; k <= 2 * steps; ++k) { x.op_assign(one, SUB); step(m, A->base, false); judge(c, x, m, "decrement", k, s); }
    for (u64 k = 1; k <= steps; ++k) { x.op_assign(one, ADD); step(m, A->base, true); judge(c, x, m, "second increment", k, s); }
    if (model::cmp(m, start)) c.fail("internal: odometer");
    ++c.traces;
}
template <class D> static void lim(Ctx& c, const char* name, u64 want) {
    if (!c.begin()) return;
    ++c.states; c.transitions += 2; ++c.traces;
    c.log(std::string("// limits of ") + name);
    if (bn_min_limit<D>() != 0) c.fail(std::string("bn_min_limit<") + name + "> is " + std::to_string(bn_min_limit<D>()));
    if (bn_max_limit<D>() != want) c.fail(std::string("bn_max_limit<") + name + "> is " + std::to_string(bn_max_limit<D>()) + " instead of " + std::to_string(want));
}
template <class L> static void lims(Ctx& c, const char* name) {
    if (!c.begin()) return;
    ++c.states; c.transitions += 4; ++c.traces;
    if (u64(L::SINGLE_BASE_MIN) != bn_min_limit<typename L::base_single>() || u64(L::SINGLE_BASE_MAX) != bn_max_limit<typename L::base_single>() ||
        u64(L::DOUBLE_BASE_MIN) != bn_min_limit<typename L::base_double>() || u64(L::DOUBLE_BASE_MAX) != bn_max_limit<typename L::base_double>())
        c.fail(std::string(name) + ": the enumerated limits differ from those of its digit types");
}
static void make(std::vector<Job>& jobs, bool thorough) {
    jobs.push_back({"limits", [](Ctx& c) {
        lim<BN_UINT8>(c, "BN_UINT8", 255); lim<BN_UINT16>(c, "BN_UINT16", 65535); lim<BN_UINT32>(c, "BN_UINT32", 4294967295u); lim<BN_UINT64>(c, "BN_UINT64", ~0ull);
        lim<bn_base2_single>(c, "bn_base2_single", 1); lim<bn_base2_double>(c, "bn_base2_double", 3);
        lim<bn_base8_single>(c, "bn_base8_single", 7); lim<bn_base8_double>(c, "bn_base8_double", 63);
        lim<bn_base10_single>(c, "bn_base10_single", 9); lim<bn_base10_double>(c, "bn_base10_double", 99);
        lim<bn_base16_single>(c, "bn_base16_single", 15); lim<bn_base16_double>(c, "bn_base16_double", 255);
        lims<bn_limits_lowp>(c, "bn_limits_lowp"); lims<bn_limits_medp>(c, "bn_limits_medp"); lims<bn_limits_highp>(c, "bn_limits_highp");
        lims<bn_limits_base2>(c, "bn_limits_base2"); lims<bn_limits_base8>(c, "bn_limits_base8"); lims<bn_limits_base10>(c, "bn_limits_base10"); lims<bn_limits_base16>(c, "bn_limits_base16");
        for (const Api* A : all_apis()) {
            if (!c.begin()) continue;
            ++c.states; c.transitions += 4; ++c.traces;
            if (A->lim[0] || A->lim[2]) c.fail(std::string(A->name) + ": the minimum digit is not 0");
            if (A->lim[1] != A->base - 1 || A->lim[3] != A->base - 1) c.fail(std::string(A->name) + ": the maximum digit is " + std::to_string(A->lim[1]) + "/" + std::to_string(A->lim[3]) + " instead of " + std::to_string(A->base - 1));
        }
    }});
    for (const Api* A : all_apis()) {
        const u64 B = A->base;
        jobs.push_back({std::string(A->name) + " counting from zero", [=](Ctx& c) {
            run_count(c, A, val(D_POS, {}), thorough ? 12000000 : 1200000);
            for (int n = 0; n < 3; ++n) for (int s = 0; s < 2; ++s) run_count(c, A, val(s, Digits(n, 0)), std::min<u64>(B * 2 + 3, 2000));
        }});
        jobs.push_back({std::string(A->name) + " counting across every short number", [=](Ctx& c) {
            for (const Digits& d : short_forms(B, thorough ? 200000 : 20000)) for (int s = 0; s < 2; ++s) run_count(c, A, val(s, d), 3);
            if (B > 16) for (u64 d : B <= 65536 ? std::vector<u64>() : alphabet(B, 3)) for (u64 e : alphabet(B, 3)) run_count(c, A, val(D_POS, {d, e}), 3);
            if (B <= 65536) for (u64 d = 0; d < B; ++d) run_count(c, A, val(d & 1, {d}), 1);
        }});
        jobs.push_back({std::string(A->name) + " counting across powers of the base", [=](Ctx& c) {
            std::vector<size_t> ns; for (size_t n = 1; n <= size_t(thorough ? 2100 : 1100); ++n) ns.push_back(n);
            for (size_t n : {255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 2048, 4096, 10000, 16384, 32768, 65535, 65536, 65537, 100000, 131072, 131073, 262144}) ns.push_back(n);
            for (size_t n : ns) {
                Digits d(n + 1, B - 1); d[n] = 0; d[0] = B > 3 ? B - 3 : 0;      // B^n - small
                const u64 k = n > 300 ? 3 : std::min<u64>(B + 3, 40);
                for (int s = 0; s < 2; ++s) { model::Val v = val(s, d); model::trim(v.d); run_count(c, A, v, k); v.d.push_back(0); if (n % 8 == 1) run_count(c, A, v, 4); }
                if (n > 20000 && n % 4) continue;
                for (const Digits& p : patterns(B, n, n > 300 ? 0 : 1)) run_count(c, A, val(n & 1, p), 2);
            }
        }});
        // carries into and out of every position
        jobs.push_back({std::string(A->name) + " carries of every length", [=](Ctx& c) {
            const size_t n = thorough ? 300 : 130;
            for (size_t p = 0; p <= n; ++p) for (u64 top : {u64(0), B / 2, B - 2 < B ? B - 2 : 0, B - 1}) for (int s = 0; s < 2; ++s) {
                Digits d(n + 1, 0); for (size_t i = 0; i < p; ++i) d[i] = B - 1; d[p] = top;
                d[n] = d[n] ? d[n] : 1;
                run_count(c, A, val(s, d), 2);
                for (size_t i = 0; i < p; ++i) d[i] = 0; 
                run_count(c, A, val(s, d), 2);
            }
        }});
    }
}
int main(int argc, char** argv) {
    return check_main(argc, argv, make, {
        "Exhaustive over: every integer from -N to N (N = 1200000 quick, 12000000 thorough) visited by += 1 and -= 1 on one live object per type; counting up, down through the start and back from every short stored form, across every power of the base up to 1100 (thorough: 2100) digits and listed lengths up to 2^18 digits, from structured numbers of every length, and carries/borrows of every length into every kind of digit. After each step the stored digits must be those of a plain odometer. All published limits compared with the documented bases. states = starting points, transitions = single increments and decrements judged, traces = complete counting runs.",
        {"g++ -O2"}});
}
