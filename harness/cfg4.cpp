#include "api_impl.hpp"
#define CUSTOM_TXT(B, U) "typedef BNIntType<" #U ", " #B "> c" #B "_s;\n" \
  "template <> constexpr bn_u64_t bn_min_limit<c" #B "_s>() { return 0; }\n" \
  "template <> constexpr bn_u64_t bn_max_limit<c" #B "_s>() { return (" #B ") - 1; }\n" \
  "typedef Bignum<BNLimitsType<c" #B "_s, c" #B "_s>, std::vector<c" #B "_s>> bignum_c" #B ";\n"
CUSTOM_BASE(3, BN_UINT8)
CUSTOM_BASE(128, BN_UINT8)
void register4(std::vector<const Api*>& v) {
    REGISTER(bignum_highp, bn_limits_highp, 4294967296ull, false, true, 32, "");
    REGISTER(bignum_c3, bn_limits_c3, 3, true, false, 8, CUSTOM_TXT(3, BN_UINT8));
    REGISTER(bignum_c128, bn_limits_c128, 128, true, false, 8, CUSTOM_TXT(128, BN_UINT8));
}
