#include <deque>
#include <exception>
#include <thread>
#include "arith.hpp"
#include "bignum/bignum.h"
// The library's debug mode (this file and the library are built with BN_DEBUG)
// and its exception types.
#ifndef BN_DEBUG
#error "build with -DBN_DEBUG"
#endif
template <class C> static C make_c(const Digits& d) { C c; for (u64 v : d) c.push_back(static_cast<typename C::value_type>(v)); return c; }
template <class C> static Digits back(const C& c) { Digits d(c.size()); for (size_t i = 0; i < d.size(); ++i) d[i] = static_cast<u64>(c[i]); return d; }

template <class L, class C> struct Guard {
    static void run(Ctx& c, const char* kind, const Digits& a, const Digits& b) {
        if (!c.begin()) return;
        ++c.states; ++c.transitions;
        const u64 base = u64(L::SINGLE_BASE_MAX) + 1;
        static Digits want;
        if (c.logging) c.log(std::string("// debug mode, abs_val_sub on ") + kind + ": " + digits_text(a) + " minus " + digits_text(b));
        auto name = [&] { return std::string(kind) + ": abs_val_sub of " + digits_text(a) + " and " + digits_text(b); };
        C x = make_c<C>(a); const C y = make_c<C>(b);
        const int o = model::cmp_abs(a, b);
        int thrown = 0;
        try { abs_val_sub<L, C>(x, y); }
        catch (const BNUnderflow& e) { thrown = 1; if (!e.what() || !*e.what()) c.fail(name() + ": the exception has no text"); }
        catch (...) { thrown = 2; }
        if (thrown == 2) c.fail(name() + " throws something that is not a BNUnderflow");
        if (thrown != (o < 0)) c.fail(name() + (thrown ? " throws BNUnderflow although the first is not smaller" : " is not refused in debug mode"));
        if (back(y) != b) c.fail(name() + " changed its second argument");
        if (o < 0) { if (back(x) != a) c.fail(name() + " was refused but changed its first argument to " + digits_text(back(x))); }
        else { model::sub_abs(want, a, b, base); const Digits r = back(x); if (model::cmp_abs(r, want) || (!r.empty() && !r.back())) c.fail(name() + " gave " + digits_text(r) + ", expected " + digits_text(want)); for (u64 d : r) if (d >= base) c.fail(name() + ": a digit reaches the base"); }
        if (o == 0) { C z = make_c<C>(a); bool t = false; try { abs_val_sub<L, C>(z, z); } catch (...) { t = true; } if (t || !model::zero(val(D_POS, back(z)).d)) c.fail(name() + " with itself is not zero"); }
        // refused calls may be repeated, and the container used on
        if (o < 0) {
            bool again = false; try { abs_val_sub<L, C>(x, y); } catch (const std::exception& e) { again = true; }
            if (!again) c.fail(name() + " is accepted the second time");
            C r = y; bool t = false; try { abs_val_sub<L, C>(r, x); } catch (...) { t = true; }
            model::sub_abs(want, b, a, base);
            if (t || model::cmp_abs(back(r), want)) c.fail(name() + ": afterwards the reverse difference fails");
        }
        c.outcome(u64(o + 1) * 31 + x.size());
        ++c.traces;
    }
};
template <class L, class C> static void add_type(std::vector<Job>& jobs, const char* kind, bool thorough) {
    const u64 base = u64(L::SINGLE_BASE_MAX) + 1, M = base - 1;
    typedef Guard<L, C> G;
    const FormsPtr s = share(short_forms(base, thorough ? 2500 : 700));
    for (size_t k = 0; k < 4; ++k) jobs.push_back({std::string(kind) + " short " + std::to_string(k), [=](Ctx& c) {
        for (size_t i = k; i < s->size(); i += 4) for (const Digits& b : *s) G::run(c, kind, (*s)[i], b);
    }});
    for (size_t k = 0; k < 4; ++k) jobs.push_back({std::string(kind) + " first different digit " + std::to_string(k), [=](Ctx& c) {
        const size_t top = thorough ? 260 : 70;
        for (size_t n = 1 + k; n <= top; n += 4) for (u64 f : {u64(0), u64(1), M, base / 2}) for (size_t p = 0; p < n; ++p) for (int up = 0; up < 2; ++up) for (int lower = 0; lower < 3; ++lower) for (size_t zero = 0; zero < 3; ++zero) {
            // equal digits but for position p; below it the order may be the opposite
            Digits a(n, f), b(n, f);
            if (up) { if (a[p] == M) b[p] = M - 1; else a[p] = f + 1; } else { if (b[p] == M) a[p] = M - 1; else b[p] = f + 1; }
            if (lower) for (size_t i = 0; i < p; ++i) { (up ? b : a)[i] = lower == 1 ? M : base / 2; (up ? a : b)[i] = 0; }
            if (zero) for (size_t i = 0; i < (zero == 1 ? 1 : 5); ++i) (up ? b : a).push_back(0);
            G::run(c, kind, a, b); if (zero == 0) G::run(c, kind, b, a);
        }
    }});
    jobs.push_back({std::string(kind) + " lengths", [=](Ctx& c) {
        const size_t top = thorough ? 400 : 130;
        for (size_t n = 0; n <= top; ++n) for (size_t m : {size_t(0), size_t(1), n / 2, n - 1, n, n + 1, 2 * n + 3}) {
            if (m > 2 * top + 3) continue;
            for (const Digits& a : patterns(base, n)) for (const Digits& b : patterns(base, m)) G::run(c, kind, a, b);
        }
        for (size_t n : {1023, 1024, 1025, 4096, 65535, 65536}) for (int d : {-1, 0, 1}) { Digits a(n, M), b(n + d, M); G::run(c, kind, a, b); b.assign(n, M); b[0] = 0; G::run(c, kind, b, a); G::run(c, kind, a, b); }
    }});
}
// Exceptions as objects: every script of steps over one exception object.
// A class that is not publicly a std::exception must not stop the build.
template <class E> static const std::exception* as_std(const E& e) {
    if constexpr (std::is_convertible<const E*, const std::exception*>::value) return &e; else return nullptr;
}
struct Holder { std::exception_ptr p; };
template <class E> static void exception_jobs(std::vector<Job>& jobs, const char* name, bool thorough) {
    enum { COPY, MOVE, ASSIGN, MOVE_ASSIGN, THROW_VALUE, AS_STD, PTR, OTHER_THREAD, NESTED, UNWIND, BY_VALUE, STEPS };
    static const char* nm[STEPS] = {"copy construct", "move construct", "copy assign", "move assign", "throw and catch", "throw and catch as std::exception", "keep as std::exception_ptr", "rethrow in another thread", "rethrow from a handler", "throw through destructors", "catch by value"};
    for (int first = 0; first < STEPS; ++first) jobs.push_back({std::string(name) + " scripts from " + nm[first], [=](Ctx& c) {
        const int depth = thorough ? 5 : 4; long total = 1; for (int i = 1; i < depth; ++i) total *= STEPS;
        const std::string text0 = E().what();
        for (long k = 0; k < total; ++k) {
            if (!c.begin()) continue;
            long q = k; E e; const char* const same = e.what(); std::string script;
            if (!same || !*same) c.fail(std::string(name) + " has no text");
            ++c.states;
            for (int i = 0; i < depth; ++i) {
                const int s = i ? int(q % STEPS) : first; if (i) q /= STEPS;
                script += std::string(i ? ", " : "") + nm[s]; ++c.transitions;
                if (c.logging) c.log(std::string("// ") + name + ": " + nm[s]);
                bool got = false; std::string seen;
                auto see = [&](const auto& y) { got = true; const std::exception* const px = as_std(y); if (!px) c.fail(std::string(name) + " is not a std::exception"); const std::exception& x = *px; seen = x.what() ? x.what() : ""; if (!dynamic_cast<const E*>(&x)) c.fail(std::string(name) + " lost its type after: " + script); };
                switch (s) {
                    case COPY: { E t(e); see(t); e = t; break; }
                    case MOVE: { E t(std::move(e)); see(t); e = std::move(t); break; }
                    case ASSIGN: { E t; E& r = (t = e); see(r); if (&r != &t) c.fail("copy assignment does not return its target"); e = t; break; }
                    case MOVE_ASSIGN: { E t; E& r = (t = std::move(e)); see(r); if (&r != &t) c.fail("move assignment does not return its target"); e = t; break; }
                    case THROW_VALUE: try { throw e; } catch (E& x) { see(x); e = x; } catch (...) {} break;
                    case AS_STD: try { throw e; } catch (const std::exception& x) { see(x); } catch (...) {} break;
                    case PTR: { Holder h; try { throw e; } catch (...) { h.p = std::current_exception(); } Holder g2 = h; h.p = nullptr; try { std::rethrow_exception(g2.p); } catch (const E& x) { see(x); e = x; } catch (...) {} break; }
                    case OTHER_THREAD: { if (total > 2000 && i && k % 16) { see(e); break; } std::exception_ptr p = std::make_exception_ptr(e); std::thread([&] { try { std::rethrow_exception(p); } catch (const std::exception& x) { see(x); } catch (...) {} }).join(); break; }
                    case NESTED: try { try { throw e; } catch (const std::exception&) { throw; } } catch (const E& x) { see(x); } catch (...) {} break;
                    case UNWIND: { struct D { int* n; ~D() { try { throw E(); } catch (const std::exception& x) { if (*x.what()) ++*n; } } }; int n = 0; try { D a{&n}, b{&n}; throw e; } catch (const E& x) { see(x); } catch (...) {} if (n != 2) c.fail("exceptions thrown during unwinding are lost: " + script); break; }
                    case BY_VALUE: try { throw e; } catch (E x) { see(x); e = x; } catch (...) {} break;
                }
                if (!got) c.fail(std::string(name) + " was not caught as itself after: " + script);
                if (seen != text0 || e.what() != text0) c.fail(std::string(name) + " says '" + seen + "' instead of '" + text0 + "' after: " + script);
            }
            c.outcome(u64(k)); ++c.traces;
        }
    }});
}
static void make(std::vector<Job>& jobs, bool thorough) {
#define BOTH(L, S, N) add_type<L, std::vector<S>>(jobs, "vectors of " N, thorough); add_type<L, std::deque<S>>(jobs, "deques of " N, thorough);
    BOTH(bn_limits_base2, bn_base2_single, "base 2") BOTH(bn_limits_base8, bn_base8_single, "base 8") BOTH(bn_limits_base10, bn_base10_single, "base 10") BOTH(bn_limits_base16, bn_base16_single, "base 16")
    BOTH(bn_limits_lowp, BN_UINT8, "base 2^8") BOTH(bn_limits_medp, BN_UINT16, "base 2^16") BOTH(bn_limits_highp, BN_UINT32, "base 2^32")
    exception_jobs<BNUnderflow>(jobs, "BNUnderflow", thorough); exception_jobs<BNNaN>(jobs, "BNNaN", thorough);
    // no operator on numbers lets the guard's exception out, and all results stay exact
    for (const Api* A : all_apis()) {
        FormsPtr f = share(short_forms(A->base, thorough ? 300 : 110, 1));
        for (int op = ADD; op <= DIV; ++op)
            pair_jobs(jobs, std::string("operator ") + OP_TXT[op] + " in debug mode", A, f, f, 1, [op](Ctx& c, const Api* P, const model::Val& a, const model::Val& b) { arith_case(c, P, a, b, op); });
        FormsPtr g1 = share([&] { Forms x; for (size_t n : {3, 8, 17, 33, 64, 100}) if (n < 60 || A->base < 60000) for (const Digits& d : patterns(A->base, n)) x.push_back(d); dedupe(x); return x; }());
        for (int op = ADD; op <= DIV; ++op) // quotients of many bits take long
            if (op != DIV || A->base <= 16 || thorough)
            pair_jobs(jobs, std::string("operator ") + OP_TXT[op] + " on longer numbers in debug mode", A, g1, g1, 2, [op](Ctx& c, const Api* P, const model::Val& a, const model::Val& b) {
                if (op == DIV && a.d.size() > b.d.size() && (a.d.size() - b.d.size()) * (P->base > 60000 ? 32 : P->base > 16 ? 8 : 3) > 200) return;
                arith_case(c, P, a, b, op);
            });
    }
}
int main(int argc, char** argv) {
    return check_main(argc, argv, make, {
        "The explorer and the library are built in the library's debug mode. abs_val_sub is executed on every pair of short digit sequences, on every pair of equal sequences that first differ at a given position (every length to 70/260, every position, opposite order below it, leading zeroes), and on pairs of structured sequences of every length to 130 (400) and selected ones to 65537: it must throw BNUnderflow exactly when the first magnitude is smaller, leave both arguments alone then (also when repeated), and give the difference otherwise. All four operators are executed on all pairs of short and of structured numbers of every configuration and must return the exact result. Every script of 4 (5) steps over an exception object (copies, moves, assignments, throwing, catching as itself, by value and as std::exception, exception_ptr, other threads, rethrowing, unwinding) must keep type and text. states = argument pairs or scripts, transitions = calls or steps, traces = pairs or scripts checked to the end.",
        {"only digit sequences whose digits are below the base", "the text of an exception is compared with the text of a new one, not with fixed words"}});
}
