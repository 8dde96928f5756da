#pragma once
#include <cstring>
#include <deque>
#include <initializer_list>
#include <new>
#include <sstream>
#include <utility>
#include "bignum/bignum.h"
#include "api.hpp"

template <class T> struct ApiImpl {
    typedef typename T::bn_single S;
    static T& t(void* p) { return *static_cast<T*>(p); }
    static const T& t(const void* p) { return *static_cast<const T*>(p); }
    static S dig(u64 v) { return static_cast<S>(v); }
    static void construct(void* p) { new (p) T(); }
    static void destroy(void* p) { t(p).~T(); }
    static void set(void* p, int desc, const u64* d, size_t n) {
        T& x = t(p);
        x.setDescriptor(static_cast<bn_desc_t>(desc));
        x.numData.clear();
        for (size_t i = 0; i < n; ++i) x.numData.push_back(dig(d[i]));
    }
    static bool construct_list(void* p, int desc, const u64* m, size_t n) {
        const bn_desc_t d = static_cast<bn_desc_t>(desc);
        switch (n) {
            case 0: new (p) T(d, {}); return true;
            case 1: new (p) T(d, {dig(m[0])}); return true;
            case 2: new (p) T(d, {dig(m[0]), dig(m[1])}); return true;
            case 3: new (p) T(d, {dig(m[0]), dig(m[1]), dig(m[2])}); return true;
            case 4: new (p) T(d, {dig(m[0]), dig(m[1]), dig(m[2]), dig(m[3])}); return true;
            case 5: new (p) T(d, {dig(m[0]), dig(m[1]), dig(m[2]), dig(m[3]), dig(m[4])}); return true;
            case 6: new (p) T(d, {dig(m[0]), dig(m[1]), dig(m[2]), dig(m[3]), dig(m[4]), dig(m[5])}); return true;
            case 7: new (p) T(d, {dig(m[0]), dig(m[1]), dig(m[2]), dig(m[3]), dig(m[4]), dig(m[5]), dig(m[6])}); return true;
            case 8: new (p) T(d, {dig(m[0]), dig(m[1]), dig(m[2]), dig(m[3]), dig(m[4]), dig(m[5]), dig(m[6]), dig(m[7])}); return true;
            case 20: { // a long literal, for size-dependent construction code
                new (p) T(d, {dig(m[0]), dig(m[1]), dig(m[2]), dig(m[3]), dig(m[4]), dig(m[5]), dig(m[6]), dig(m[7]),
                              dig(m[8]), dig(m[9]), dig(m[10]), dig(m[11]), dig(m[12]), dig(m[13]), dig(m[14]), dig(m[15]),
                              dig(m[16]), dig(m[17]), dig(m[18]), dig(m[19])});
                return true;
            }
            default: {  // any other length: a list over an array, laid out as this compiler lays out its own
                std::vector<S> digits(n);
                for (size_t i = 0; i < n; ++i) digits[i] = dig(m[i]);
                struct { const S* first; size_t count; } raw = {digits.data(), n};
                std::initializer_list<S> list;
                static_assert(sizeof raw == sizeof list, "layout of std::initializer_list");
                std::memcpy(static_cast<void*>(&list), &raw, sizeof list);
                if (list.begin() != digits.data() || list.size() != n) return false;
                new (p) T(d, list);
                return true;
            }
        }
    }
    static int desc(const void* p) { return static_cast<int>(t(p).getDescriptor()); }
    static size_t size(const void* p) { return t(p).size(); }
    static size_t data_size(const void* p) { return t(p).getData().size(); }
    static u64 data_at(const void* p, size_t i) { return static_cast<u64>(t(p).getData()[i]); }
    static void get(const void* p, Digits& out) {
        const typename T::container_type& c = t(p).getData();
        out.resize(c.size());
        for (size_t i = 0; i < out.size(); ++i) out[i] = static_cast<u64>(c[i]);
    }
    static const void* op_assign(void* a, const void* b, int op) {
        switch (op) {
            case ADD: return &(t(a) += t(b));
            case SUB: return &(t(a) -= t(b));
            case MUL: return &(t(a) *= t(b));
            default:  return &(t(a) /= t(b));
        }
    }
    static void op_binary(void* r, const void* a, const void* b, int op) {
        switch (op) {
            case ADD: new (r) T(t(a) + t(b)); break;
            case SUB: new (r) T(t(a) - t(b)); break;
            case MUL: new (r) T(t(a) * t(b)); break;
            default:  new (r) T(t(a) / t(b)); break;
        }
    }
    static bool cmp(const void* a, const void* b, int c) {
        switch (c) {
            case EQ: return t(a) == t(b);
            case NE: return t(a) != t(b);
            case LT: return t(a) < t(b);
            case LE: return t(a) <= t(b);
            case GT: return t(a) > t(b);
            default: return t(a) >= t(b);
        }
    }
    static void copy_construct(void* r, const void* a) { new (r) T(t(a)); }
    static void move_construct(void* r, void* a) { new (r) T(std::move(t(a))); }
    static const void* copy_assign(void* a, const void* b) { return &(t(a) = t(b)); }
    static const void* move_assign(void* a, void* b) { return &(t(a) = std::move(t(b))); }
    static void swap(void* a, void* b) { using std::swap; swap(t(a), t(b)); }
    static void push_front(void* a, u64 d) { t(a).push_front(dig(d)); }
    static void pop_front(void* a) { t(a).pop_front(); }
    static void push_back(void* a, u64 d) { t(a).push_back(dig(d)); }
    static void pop_back(void* a) { t(a).pop_back(); }
    static void push(void* a, u64 d, size_t i) { t(a).push(dig(d), i); }
    static void pop(void* a, size_t i) { t(a).pop(i); }
    static void resize(void* a, size_t n, u64 d) { t(a).resize(n, dig(d)); }
    static void resize0(void* a, size_t n) { t(a).resize(n); }
    static void clear(void* a) { t(a).clear(); }
    static void set_descriptor(void* a, int d) { t(a).setDescriptor(static_cast<bn_desc_t>(d)); }
    static u64 at_const(const void* a, size_t i) { return static_cast<u64>(t(a)[i]); }
    static u64 at_mut(void* a, size_t i) { return static_cast<u64>(t(a)[i]); }
    static void at_set(void* a, size_t i, u64 d) { t(a)[i] = dig(d); }
    static bool is_pos(const void* a) { return t(a).isPositive(); }
    static bool is_neg(const void* a) { return t(a).isNegative(); }
    static bool is_inf(const void* a) { return t(a).isInfinite(); }
    static bool is_nan(const void* a) { return t(a).isNan(); }
    static bool is_computable(int d) { return T::isComputable(static_cast<bn_desc_t>(d)); }
    static std::string print(const void* a, int base, bool* same) {
        std::ostringstream s;
        if ((base & 31) == 16) s << std::hex;
        else if ((base & 31) == 8) s << std::oct;
        if (base & 256) s << std::uppercase;
        if (base & 512) s << std::showbase;
        if (base & 1024) s << t(a) << ',' << 255 << ',';
        std::ostream& o = (static_cast<std::ostream&>(s) << t(a));
        if (same) *same = (&o == static_cast<std::ostream*>(&s));
        return s.str();
    }
};

template <class T, class limits_t>
Api make_api(const char* name, const char* preamble, u64 base, bool custom, bool native, unsigned width) {
    typedef ApiImpl<T> I;
    Api a = Api();
    a.name = name; a.preamble = preamble; a.base = base; a.custom = custom; a.native = native; a.width = width;
    a.objsize = sizeof(T);
#define F(f) a.f = &I::f
    F(construct); F(destroy); F(set); F(construct_list); F(desc); F(size); F(data_size); F(data_at); F(get);
    F(op_assign); F(op_binary); F(cmp); F(copy_construct); F(move_construct); F(copy_assign); F(move_assign);
    F(swap); F(push_front); F(pop_front); F(push_back); F(pop_back); F(push); F(pop); F(resize); F(resize0);
    F(clear); F(set_descriptor); F(at_const); F(at_mut); F(at_set); F(is_pos); F(is_neg); F(is_inf); F(is_nan);
    F(is_computable); F(print);
#undef F
    a.lim[0] = limits_t::SINGLE_BASE_MIN;
    a.lim[1] = limits_t::SINGLE_BASE_MAX;
    a.lim[2] = bn_min_limit<typename limits_t::base_single>();
    a.lim[3] = bn_max_limit<typename limits_t::base_single>();
    return a;
}

#define STR2(...) #__VA_ARGS__
#define STR(...) STR2(__VA_ARGS__)

// Declares a user-defined base the way tests/compress_test.cpp does.
#define CUSTOM_BASE(B, UINT) \
    typedef BNIntType<UINT, B> bn_c##B##_single; \
    template <> constexpr bn_u64_t bn_min_limit<bn_c##B##_single>() { return 0; } \
    template <> constexpr bn_u64_t bn_max_limit<bn_c##B##_single>() { return (B) - 1; } \
    typedef BNLimitsType<bn_c##B##_single, bn_c##B##_single> bn_limits_c##B; \
    typedef Bignum<bn_limits_c##B, std::vector<bn_c##B##_single>> bignum_c##B;

typedef void (*Registrar)(std::vector<const Api*>&);
struct RegisterApis { RegisterApis(Registrar); };
#ifdef USE_DEQUE       // the same types with digits in a deque
#define NUMBER_TYPE(T, L) Bignum<L, std::deque<typename L::base_single>>
#else
#define NUMBER_TYPE(T, L) T
#endif
#define REGISTER(T, L, BASE, CUSTOM, NATIVE, WIDTH, PRE) \
    do { typedef NUMBER_TYPE(T, L) number_t_; static Api a_ = make_api<number_t_, L>(#T, PRE, BASE, CUSTOM, NATIVE, WIDTH); v.push_back(&a_); } while (0)
