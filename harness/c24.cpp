#include <deque>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <numeric>
#include <queue>
#include <set>
#include <tuple>
#include "api_impl.hpp"
#include "sets.hpp"
// Numbers in standard containers and algorithms. Every algorithm runs twice:
// on the library's numbers and on plain values (Ref) that follow the model.
typedef Bignum<bn_limits_base10, std::deque<bn_base10_single>> deque_base10;
typedef Bignum<bn_limits_highp, std::deque<BN_UINT32>> deque_highp;

static u64 refbase;
struct Ref {
    model::Val v;
    Ref() {}
    Ref(const model::Val& x) : v(x) {}
    Ref(const Ref&) = default;
    Ref(Ref&& o) : v(std::move(o.v)) { o.v = model::Val(); }
    Ref& operator=(const Ref&) = default;
    Ref& operator=(Ref&& o) { if (this != &o) { v = std::move(o.v); o.v = model::Val(); } return *this; }
    static int rank(const model::Val& x) { return x.desc == D_PINF ? 1 : x.desc == D_NINF ? -1 : 0; }
    int cmp(const Ref& o) const {
        if (model::finite(v.desc) && model::finite(o.v.desc)) return model::cmp(v, o.v);
        return rank(v) - rank(o.v);
    }
    bool operator==(const Ref& o) const { return cmp(o) == 0; }
    bool operator!=(const Ref& o) const { return cmp(o) != 0; }
    bool operator<(const Ref& o) const { return cmp(o) < 0; }
    bool operator<=(const Ref& o) const { return cmp(o) <= 0; }
    bool operator>(const Ref& o) const { return cmp(o) > 0; }
    bool operator>=(const Ref& o) const { return cmp(o) >= 0; }
    Ref op(const Ref& o, int k) const { Ref r; model::apply(r.v, v, o.v, k, refbase); return r; }
    Ref operator+(const Ref& o) const { return op(o, ADD); }
    Ref operator-(const Ref& o) const { return op(o, SUB); }
    Ref operator*(const Ref& o) const { return op(o, MUL); }
};
template <class T> static T number(const model::Val& v) { T x; ApiImpl<T>::set(&x, v.desc, v.d.data(), v.d.size()); return x; }
template <class T> static model::Val form(const T& x) { model::Val v; v.desc = ApiImpl<T>::desc(&x); ApiImpl<T>::get(&x, v.d); return v; }
template <> model::Val form<Ref>(const Ref& x) { return x.v; }
// The result of one run: numbers, and positions or truth values.
template <class X> struct Out {
    std::vector<X> v; std::vector<long> n;
    template <class It> void add(It b, It e) { for (; b != e; ++b) v.push_back(*b); n.push_back(long(v.size())); }
    void say(long k) { n.push_back(k); }
};
typedef unsigned Mask;
enum { STABLE = 1, FINITE = 2, SORTED = 4, NANOK = 8, CUBIC = 16 };
template <class X> struct Algos {
    typedef std::vector<X> V;
    struct A { const char* name; Mask m; void (*run)(const V&, Out<X>&); };
    static V sorted(V v) { std::stable_sort(v.begin(), v.end()); return v; }
    static const std::vector<A>& all() {
        static const std::vector<A> a = {
            {"std::sort", 0, [](const V& s, Out<X>& o) { V v = s; std::sort(v.begin(), v.end()); o.add(v.begin(), v.end()); }},
            {"std::sort with std::greater", 0, [](const V& s, Out<X>& o) { V v = s; std::sort(v.begin(), v.end(), std::greater<X>()); o.add(v.begin(), v.end()); }},
            {"std::stable_sort", STABLE, [](const V& s, Out<X>& o) { V v = s; std::stable_sort(v.begin(), v.end()); o.add(v.begin(), v.end()); }},
            {"std::stable_sort with >", STABLE, [](const V& s, Out<X>& o) { V v = s; std::stable_sort(v.begin(), v.end(), [](const X& a, const X& b) { return a > b; }); o.add(v.begin(), v.end()); }},
            {"std::stable_sort with !(>=)", STABLE, [](const V& s, Out<X>& o) { V v = s; std::stable_sort(v.begin(), v.end(), [](const X& a, const X& b) { return !(a >= b); }); o.add(v.begin(), v.end()); }},
            {"std::stable_sort with !(<=)", STABLE, [](const V& s, Out<X>& o) { V v = s; std::stable_sort(v.begin(), v.end(), [](const X& a, const X& b) { return !(a <= b); }); o.add(v.begin(), v.end()); }},
            {"std::sort of a deque", 0, [](const V& s, Out<X>& o) { std::deque<X> v(s.begin(), s.end()); std::sort(v.begin(), v.end()); o.add(v.begin(), v.end()); }},
            {"heaps", 0, [](const V& s, Out<X>& o) { V v; for (const X& x : s) { v.push_back(x); std::push_heap(v.begin(), v.end()); o.say(std::is_heap(v.begin(), v.end())); }
                o.add(v.begin(), v.end()); V w = s; std::make_heap(w.begin(), w.end()); std::sort_heap(w.begin(), w.end()); o.add(w.begin(), w.end());
                while (!v.empty()) { std::pop_heap(v.begin(), v.end()); o.v.push_back(std::move(v.back())); v.pop_back(); } }},
            {"std::priority_queue", 0, [](const V& s, Out<X>& o) { std::priority_queue<X> q; for (const X& x : s) q.push(x); while (!q.empty()) { o.v.push_back(q.top()); q.pop(); } }},
            {"std::partial_sort", 0, [](const V& s, Out<X>& o) { V v = s; std::partial_sort(v.begin(), v.begin() + v.size() / 2, v.end()); o.add(v.begin(), v.begin() + v.size() / 2); V w((s.size() + 1) / 2); std::partial_sort_copy(s.begin(), s.end(), w.begin(), w.end()); o.add(w.begin(), w.end()); }},
            {"std::nth_element", 0, [](const V& s, Out<X>& o) { if (s.empty()) return; V v = s; auto m = v.begin() + v.size() / 2; std::nth_element(v.begin(), m, v.end()); o.v.push_back(*m); for (auto i = v.begin(); i != m; ++i) o.say(*i <= *m); for (auto i = m; i != v.end(); ++i) o.say(*i >= *m); }},
            {"merging", STABLE, [](const V& s, Out<X>& o) { auto mid = s.begin() + s.size() / 2; V a(s.begin(), mid), b(mid, s.end()); a = sorted(a); b = sorted(b); V r; std::merge(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); o.add(r.begin(), r.end());
                V v = a; v.insert(v.end(), b.begin(), b.end()); std::inplace_merge(v.begin(), v.begin() + a.size(), v.end()); o.add(v.begin(), v.end()); o.say(std::includes(a.begin(), a.end(), b.begin(), b.end())); }},
            {"set algorithms", STABLE, [](const V& s, Out<X>& o) { auto mid = s.begin() + s.size() / 2; V a(s.begin(), mid), b(mid, s.end()); a = sorted(a); b = sorted(b); V r;
                std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); o.add(r.begin(), r.end()); r.clear();
                std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); o.add(r.begin(), r.end()); r.clear();
                std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); o.add(r.begin(), r.end()); r.clear();
                std::set_symmetric_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); o.add(r.begin(), r.end()); }},
            {"binary searches", STABLE, [](const V& s, Out<X>& o) { const V v = sorted(s); for (const X& x : s) { o.say(std::lower_bound(v.begin(), v.end(), x) - v.begin()); o.say(std::upper_bound(v.begin(), v.end(), x) - v.begin()); auto r = std::equal_range(v.begin(), v.end(), x); o.say(r.second - r.first); o.say(std::binary_search(v.begin(), v.end(), x)); } }},
            {"minima, maxima and order queries", STABLE, [](const V& s, Out<X>& o) { o.say(std::min_element(s.begin(), s.end()) - s.begin()); o.say(std::max_element(s.begin(), s.end()) - s.begin()); auto m = std::minmax_element(s.begin(), s.end()); o.say(m.first - s.begin()); o.say(m.second - s.begin());
                o.say(std::is_sorted_until(s.begin(), s.end()) - s.begin()); o.say(std::is_sorted(s.begin(), s.end(), std::greater_equal<X>())); for (size_t i = 1; i < s.size(); ++i) { o.v.push_back(std::min(s[i - 1], s[i])); o.v.push_back(std::max(s[i - 1], s[i])); } }},
            {"searches and counts", STABLE, [](const V& s, Out<X>& o) { o.say(std::adjacent_find(s.begin(), s.end()) - s.begin()); for (const X& x : s) { o.say(std::count(s.begin(), s.end(), x)); o.say(std::find(s.begin(), s.end(), x) - s.begin()); }
                for (size_t k = 0; k <= s.size(); k += s.size() < 100 ? 1 : s.size() / 8) { V a(s.begin(), s.begin() + k), b(s.begin() + k, s.end()); o.say(a < b); o.say(a == b); o.say(std::search(s.begin(), s.end(), b.begin(), b.end()) - s.begin()); o.say(std::is_permutation(s.begin(), s.end(), V(s.rbegin(), s.rend()).begin())); } }},
            {"std::unique and std::remove", STABLE, [](const V& s, Out<X>& o) { V v = s; v.erase(std::unique(v.begin(), v.end()), v.end()); o.add(v.begin(), v.end()); if (s.empty()) return; v = s; const X x = v.back(); v.erase(std::remove(v.begin(), v.end(), x), v.end()); o.add(v.begin(), v.end());
                v = s; v.erase(std::remove_if(v.begin(), v.end(), [&](const X& y) { return y < x; }), v.end()); o.add(v.begin(), v.end()); v = s; std::replace(v.begin(), v.end(), x, s.front()); o.add(v.begin(), v.end()); }},
            {"partitions", STABLE, [](const V& s, Out<X>& o) { if (s.empty()) return; V v = s; const X x = s[s.size() / 2]; std::stable_partition(v.begin(), v.end(), [&](const X& y) { return y < x; }); o.add(v.begin(), v.end()); V w = s; o.say(std::partition(w.begin(), w.end(), [&](const X& y) { return y > x; }) - w.begin()); w = sorted(w); o.add(w.begin(), w.end()); }},
            {"permutations", STABLE, [](const V& s, Out<X>& o) { V v = s; for (int k = 0; k < 4; ++k) { o.say(std::next_permutation(v.begin(), v.end())); o.add(v.begin(), v.end()); } v = s; o.say(std::prev_permutation(v.begin(), v.end())); o.add(v.begin(), v.end()); }},
            {"rotating and reversing", STABLE | NANOK | CUBIC, [](const V& s, Out<X>& o) { V v = s; std::reverse(v.begin(), v.end()); o.add(v.begin(), v.end()); for (size_t k = 0; k <= s.size(); ++k) { v = s; std::rotate(v.begin(), v.begin() + k, v.end()); o.add(v.begin(), v.end()); } std::deque<X> d(s.begin(), s.end()); if (d.size()) std::rotate(d.begin(), d.begin() + 1, d.end()); o.add(d.begin(), d.end()); }},
            {"swapping and moving ranges", STABLE | NANOK, [](const V& s, Out<X>& o) { const size_t h = s.size() / 2; V v = s; std::swap_ranges(v.begin(), v.begin() + h, v.begin() + (s.size() - h)); o.add(v.begin(), v.end()); V w; std::move(v.begin(), v.end(), std::back_inserter(w)); o.add(w.begin(), w.end());
                w = s; w.resize(s.size() + 2); std::move_backward(w.begin(), w.begin() + s.size(), w.end()); o.add(w.begin() + 2, w.end()); v = s; w.swap(v); o.add(w.begin(), w.end()); o.add(v.begin() + 2, v.end()); if (s.size() > 1) { v = s; std::iter_swap(v.begin(), v.end() - 1); std::swap(v[0], v[1]); o.add(v.begin(), v.end()); } }},
            {"inserting into a vector", STABLE | NANOK | CUBIC, [](const V& s, Out<X>& o) { for (size_t p = 0; p <= s.size(); ++p) for (size_t q : {size_t(0), s.size() / 2, s.size() - 1}) { if (q >= s.size()) continue; V v = s; v.insert(v.begin() + p, v[q]); o.add(v.begin(), v.end()); v = s; v.reserve(2 * s.size() + 1); v.insert(v.begin() + p, v[q]); o.add(v.begin(), v.end()); v = s; v.insert(v.begin() + p, 2, v[q]); o.add(v.begin(), v.end()); v = s; v.emplace(v.begin() + p, std::move(v[q])); o.say(long(v.size())); v = s; v.insert(v.begin() + p, s.begin(), s.end()); o.add(v.begin(), v.end()); } }},
            {"erasing from a vector", STABLE | NANOK | CUBIC, [](const V& s, Out<X>& o) { for (size_t p = 0; p < s.size(); ++p) { V v = s; v.erase(v.begin() + p); o.add(v.begin(), v.end()); for (size_t q = p; q <= s.size(); ++q) { v = s; v.erase(v.begin() + p, v.begin() + q); o.add(v.begin(), v.end()); } } }},
            {"growing and shrinking a vector", STABLE | NANOK, [](const V& s, Out<X>& o) { V v; for (const X& x : s) { v.push_back(x); v.push_back(v.front()); v.push_back(v.back()); } o.add(v.begin(), v.end()); v.shrink_to_fit(); v.reserve(v.size() + 50); v.resize(v.size() + 3); o.add(v.begin(), v.end()); if (s.size()) { v.resize(v.size() + 2, v[0]); v.assign(3, s[0]); } o.add(v.begin(), v.end()); v = s; V w = std::move(v); v = w; v.insert(v.end(), w.begin(), w.end()); if (v.size()) v.pop_back(); o.add(v.begin(), v.end()); v.clear(); v = w; o.add(v.begin(), v.end()); } },
            {"a deque", STABLE | NANOK | CUBIC, [](const V& s, Out<X>& o) { std::deque<X> d; for (const X& x : s) { d.push_front(x); d.push_back(d.front()); d.emplace_front(d.back()); } o.add(d.begin(), d.end()); for (size_t p = 0; p <= s.size(); ++p) { std::deque<X> e(s.begin(), s.end()); if (s.size()) { e.insert(e.begin() + p, e[0]); e.erase(e.begin() + s.size() - p); } o.add(e.begin(), e.end()); } while (d.size() > 1) { d.pop_front(); d.pop_back(); } o.add(d.begin(), d.end()); }},
            {"lists", STABLE, [](const V& s, Out<X>& o) { std::list<X> l(s.begin(), s.end()), k(s.rbegin(), s.rend()); l.sort(); k.sort(); o.add(l.begin(), l.end()); o.add(k.begin(), k.end()); l.merge(k); o.add(l.begin(), l.end()); l.unique(); o.add(l.begin(), l.end()); if (s.size()) { l.remove(s[0]); if (!l.empty()) l.splice(l.begin(), l, std::prev(l.end())); } o.add(l.begin(), l.end());
                std::forward_list<X> f(s.begin(), s.end()); f.sort(); f.unique(); f.reverse(); o.add(f.begin(), f.end()); }},
            {"std::set and std::multiset", STABLE, [](const V& s, Out<X>& o) { std::set<X> t; std::multiset<X> m; std::set<X, std::greater<X>> g; for (const X& x : s) { o.say(t.insert(x).second); m.insert(x); g.insert(x); } o.add(t.begin(), t.end()); o.add(m.begin(), m.end()); o.add(g.begin(), g.end());
                for (const X& x : s) { o.say(long(t.count(x))); o.say(long(m.count(x))); o.say(std::distance(m.begin(), m.lower_bound(x))); o.say(std::distance(m.begin(), m.upper_bound(x))); o.say(t.find(x) != t.end()); } for (size_t i = 0; i < s.size(); i += 2) { o.say(long(t.erase(s[i]))); o.say(long(m.erase(s[i]))); o.add(t.begin(), t.end()); o.add(m.begin(), m.end()); } }},
            {"std::map", STABLE, [](const V& s, Out<X>& o) { std::map<X, X> m; std::map<X, size_t> k; for (size_t i = 0; i < s.size(); ++i) { m[s[i]] = s[s.size() - 1 - i]; k[s[i]] += i + 1; } for (const auto& e : m) { o.v.push_back(e.first); o.v.push_back(e.second); } for (const auto& e : k) o.say(long(e.second)); for (const X& x : s) { auto i = m.find(x); o.say(i != m.end()); if (i != m.end()) { o.v.push_back(i->second); m.erase(i); } } std::map<X, size_t> c = std::move(k); for (const auto& e : c) o.v.push_back(e.first); }},
            {"pairs, tuples and arrays", STABLE, [](const V& s, Out<X>& o) { for (size_t i = 2; i < s.size(); ++i) { std::pair<X, X> p(s[i - 2], s[i]), q(s[i - 1], s[i - 2]); o.say(p < q); o.say(p == q); o.say(p >= q); std::swap(p, q); o.v.push_back(p.first); o.v.push_back(q.second); auto t = std::make_tuple(s[i], s[i - 1], int(i)), u = std::make_tuple(s[i], s[i - 2], int(i)); o.say(t < u); o.say(t == u); X x, y; std::tie(x, y, std::ignore) = t; o.v.push_back(x); o.v.push_back(y); const V il{s[i], s[i - 1], s[i - 2]}; o.add(il.begin(), il.end()); X a[3] = {s[i], s[i - 1], s[i - 2]}, b[3] = {s[0], s[1], s[2]}; std::swap(a, b); o.add(a, a + 3); o.add(b, b + 3); } }},
            {"std::accumulate", FINITE, [](const V& s, Out<X>& o) { o.v.push_back(std::accumulate(s.begin(), s.end(), X())); o.v.push_back(std::accumulate(s.rbegin(), s.rend(), X(), std::minus<X>())); if (s.size() && s.size() < 8) o.v.push_back(std::accumulate(s.begin() + 1, s.end(), s[0], std::multiplies<X>())); }},
            {"std::partial_sum and std::adjacent_difference", FINITE, [](const V& s, Out<X>& o) { V v = s, w; std::partial_sum(v.begin(), v.end(), v.begin()); o.add(v.begin(), v.end()); std::adjacent_difference(v.begin(), v.end(), std::back_inserter(w)); o.add(w.begin(), w.end()); std::adjacent_difference(v.begin(), v.end(), v.begin()); o.add(v.begin(), v.end()); }},
            {"std::inner_product and std::transform", FINITE, [](const V& s, Out<X>& o) { if (s.size() > 40) return; o.v.push_back(std::inner_product(s.begin(), s.end(), s.rbegin(), X())); V v = s; std::transform(v.begin(), v.end(), s.rbegin(), v.begin(), std::minus<X>()); o.add(v.begin(), v.end()); std::transform(v.begin(), v.end(), v.begin(), v.begin(), std::plus<X>()); o.add(v.begin(), v.end()); }},
        };
        return a;
    }
};
static std::string seq_text(const std::vector<model::Val>& s) {
    std::string t = "{";
    for (size_t i = 0; i < s.size(); ++i) { if (i == 12) { t += " ... " + std::to_string(s.size()) + " numbers"; break; } t += (i ? ", " : "") + text(s[i]); }
    return t + "}";
}
template <class T> static void run_all(Ctx& c, const char* type, const std::vector<model::Val>& s) {
    bool fin = true, nan = false;
    for (const model::Val& v : s) { if (!model::finite(v.desc)) fin = false; if (v.desc == D_NAN) nan = true; }
    const auto &on = Algos<T>::all(); const auto &plain = Algos<Ref>::all();
    std::vector<T> a; std::vector<Ref> r;
    for (const model::Val& v : s) { a.push_back(number<T>(v)); r.push_back(Ref(v)); }
    for (size_t k = 0; k < on.size(); ++k) {
        if (((on[k].m & FINITE) && !fin) || (nan && !(on[k].m & NANOK)) || ((on[k].m & CUBIC) && s.size() > 40)) continue;
        if (!c.begin()) continue;
        ++c.states; ++c.transitions;
        if (c.logging) c.log(std::string("// ") + on[k].name + " on " + type + " numbers " + seq_text(s));
        Out<T> x; Out<Ref> y;
        on[k].run(a, x); plain[k].run(r, y);
        const std::string what = std::string(type) + ": " + on[k].name + " on " + seq_text(s);
        if (x.n != y.n || x.v.size() != y.v.size()) c.fail(what + " finds other positions, counts or answers than with the integers");
        for (size_t i = 0; i < x.v.size(); ++i) {
            const model::Val f = form(x.v[i]); const model::Val& w = y.v[i].v;
            const bool ok = model::finite(w.desc) && model::finite(f.desc) ? ((on[k].m & STABLE) ? f.desc == w.desc && f.d == w.d : model::cmp(f, w) == 0) : f.desc == w.desc && f.d.empty();
            if (!ok) c.fail(what + " gives " + text(f) + " as number " + std::to_string(i) + ", the integers give " + text(w));
            for (u64 d : f.d) if (d >= refbase) c.fail(what + ": a digit reaches the base in " + text(f));
        }
        for (size_t i = 0; i < s.size(); ++i) { const model::Val f = form(a[i]); if (f.desc != s[i].desc || f.d != s[i].d) c.fail(what + " changed its source"); }
        c.outcome(x.v.empty() ? u64(x.n.size()) : model::hash(form(x.v[x.v.size() / 2])));
        ++c.traces;
    }
}
static std::vector<model::Val> letters(u64 B, int set) {
    const u64 M = B - 1;
    Digits lng(20); for (size_t i = 0; i < 20; ++i) lng[i] = (i * 7 + 3) % B; lng[19] = M;
    Digits lower = lng; lower[7] = (lower[7] + M) % B == M ? lower[7] : (lower[7] + M) % B; if (lower == lng) { lower = lng; lower[0] = (lower[0] + 1) % B; }
    Digits padded = lng; padded.push_back(0);
    if (set == 0) return {val(D_POS, {}), val(D_POS, {1}), val(D_NEG, {M}), val(D_POS, {0, 1}), val(D_NEG, {M, 0}), val(D_PINF, {})};
    if (set == 1) return {val(D_NEG, {0}), val(D_POS, {0, 0}), val(D_NEG, {1, 1}), val(D_POS, lng), val(D_POS, padded), val(D_NINF, {})};
    if (set == 2) return {val(D_NEG, lng), val(D_NEG, lower), val(D_POS, {M, M}), val(D_POS, lower), val(D_NEG, padded), val(D_POS, {M})};
    if (set == 4) { // equally long numbers that differ in one digit
        Digits a(70); for (size_t i = 0; i < 70; ++i) a[i] = (i * 5 + 1) % B; a[69] = 1;
        auto with = [&](size_t p, u64 add) { Digits d = a; d[p] = (d[p] + add) % B; return d; };
        return {val(D_POS, a), val(D_POS, with(0, 1)), val(D_POS, with(35, 1)), val(D_NEG, with(0, 1)), val(D_NEG, with(1, 1)), val(D_NEG, a)};
    }
    return {val(D_NAN, {}), val(D_POS, lng), val(D_NEG, {0, 1}), val(D_POS, {}), val(D_PINF, {}), val(D_NEG, {0})};
}
template <class T> static void add_type(std::vector<Job>& jobs, const char* type, u64 B, bool thorough) {
    for (int set = 0; set < 5; ++set) for (size_t first = 0; first < 6; ++first)
        jobs.push_back({std::string(type) + " all sequences, numbers " + std::to_string(set) + ", first " + std::to_string(first), [=](Ctx& c) {
            refbase = B;
            const std::vector<model::Val> al = letters(B, set);
            const size_t top = thorough ? 6 : set < 2 ? 5 : 4;
            std::vector<model::Val> s;
            if (!first) run_all<T>(c, type, s);
            for (size_t n = 1; n <= top; ++n) {
                size_t total = 1; for (size_t i = 1; i < n; ++i) total *= 6;
                for (size_t k = 0; k < total; ++k) {
                    s.assign(1, al[first]);
                    for (size_t i = 1, q = k; i < n; ++i, q /= 6) s.push_back(al[q % 6]);
                    run_all<T>(c, type, s);
                }
            }
        }});
    for (int shape = 0; shape < 11; ++shape) jobs.push_back({std::string(type) + " long sequences of shape " + std::to_string(shape), [=](Ctx& c) {
        refbase = B;
        std::vector<size_t> ns; for (size_t n = 6; n <= size_t(thorough ? 140 : 40); ++n) ns.push_back(n);
        for (size_t n : {63, 64, 65, 127, 128, 129, 200, 257}) ns.push_back(n);
        if (thorough) for (size_t n : {511, 512, 513, 1000, 1500}) ns.push_back(n);
        for (size_t n : ns) {
            std::vector<model::Val> s;
            for (size_t i = 0; i < n; ++i) {
                u64 v = 0;
                switch (shape) {
                    case 0: v = i; break;                                                   // ascending
                    case 1: v = n - i; break;                                               // descending
                    case 2: v = i < n / 2 ? i : n - i; break;                               // up and down
                    case 3: v = i % 3; break;                                               // few different numbers
                    case 4: v = (i * 2654435761u) >> 7 & 1023; break;                       // scattered
                    case 5: v = i % 2 ? n + i : n - i; break;                               // alternating
                    case 6: v = i % 2 ? i / 2 : n / 2 + i / 2; break;                       // against the median of three
                    case 8: case 9: case 10: v = (i * 7919u) % 97; break;                   // equally long, see below
                    default: v = ((i * 40503u) & 65535) * (i % 5 ? 1 : 65537); break;       // different lengths
                }
                Digits d; u64 q = v; while (q) { d.push_back(q % B); q /= B; }
                if (shape >= 8) {                                                           // one digit differs, at several positions
                    const size_t len = shape == 8 ? 34 : shape == 9 ? 65 : 150;
                    Digits e(len); for (size_t j = 0; j < len; ++j) e[j] = (j * 3 + 1) % B;
                    if (!e[len - 1]) e[len - 1] = 1;
                    const size_t at = (v / 7) % 4, p = at == 0 ? 0 : at == 1 ? 1 : at == 2 ? len / 2 : len - 2;
                    e[p] = (e[p] + v) % B; d = e;
                }
                if (i % 7 == 3) d.push_back(0);                                             // a leading zero digit
                s.push_back(val((shape >= 4 && i % 3 == 0) ? D_NEG : D_POS, d));
            }
            run_all<T>(c, type, s);
        }
    }});
}
static void make(std::vector<Job>& jobs, bool thorough) {
    add_type<bignum_base2>(jobs, "bignum_base2", 2, thorough); add_type<bignum_base8>(jobs, "bignum_base8", 8, thorough);
    add_type<bignum_base10>(jobs, "bignum_base10", 10, thorough); add_type<bignum_base16>(jobs, "bignum_base16", 16, thorough);
    add_type<bignum_lowp>(jobs, "bignum_lowp", 256, thorough); add_type<bignum_medp>(jobs, "bignum_medp", 65536, thorough);
    add_type<bignum_highp>(jobs, "bignum_highp", 1ull << 32, thorough);
    add_type<deque_base10>(jobs, "base 10 in a deque", 10, thorough); add_type<deque_highp>(jobs, "base 2^32 in a deque", 1ull << 32, thorough);
}
int main(int argc, char** argv) {
    return check_main(argc, argv, make, {
        "Every algorithm and container script of a fixed list (sorting, stable sorting, heaps, selection, merging, set algorithms, binary and linear searches, minima, partitions, permutations, rotations, range moves and swaps, insertion and erasure at every position of vectors and deques, lists, sets, multisets, maps, pairs and tuples, folds and differences) is executed on the library's numbers and on plain model values, and all resulting numbers, positions, counts and answers are compared; stable algorithms and containers must also keep the stored forms. Exhaustive over: every sequence of up to 5 (quick; 4 for three of the alphabets) or 6 (thorough) numbers over five alphabets of six numbers (zeroes of several forms, signs, leading zero digits, long numbers, equally long numbers differing in one digit, infinities; NaN for the algorithms that do not compare), and eleven shapes of sequences of every length from 6 to 40 (140) and selected lengths up to 257 (1500), for the seven predefined types and two deque-based ones. states = (sequence, algorithm) pairs, transitions = algorithm runs, traces = runs whose every result agreed.",
        {"numbers that compare equal are told apart only where the algorithm is stable", "sequences with NaN are only given to operations that never compare", "g++ -O2"}});
}
