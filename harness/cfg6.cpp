// Bases whose products reach the limit of exact floating-point sums within a
// few digits; only linked into the checks that ask for them.
#include "api_impl.hpp"
#define CUSTOM_TXT(B, U) "typedef BNIntType<" #U ", " #B "> c" #B "_s;\n" \
  "template <> constexpr bn_u64_t bn_min_limit<c" #B "_s>() { return 0; }\n" \
  "template <> constexpr bn_u64_t bn_max_limit<c" #B "_s>() { return (" #B ") - 1; }\n" \
  "typedef Bignum<BNLimitsType<c" #B "_s, c" #B "_s>, std::vector<c" #B "_s>> bignum_c" #B ";\n"
CUSTOM_BASE(1000000, BN_UINT32)
CUSTOM_BASE(16777216, BN_UINT32)
const std::vector<const Api*>& wide_apis() {
    static const std::vector<const Api*> r = [] {
        std::vector<const Api*> v = all_apis();
        REGISTER(bignum_c1000000, bn_limits_c1000000, 1000000, true, false, 32, CUSTOM_TXT(1000000, BN_UINT32));
        REGISTER(bignum_c16777216, bn_limits_c16777216, 16777216, true, false, 32, CUSTOM_TXT(16777216, BN_UINT32));
        extra_apis() = v;
        return v;
    }();
    return r;
}
