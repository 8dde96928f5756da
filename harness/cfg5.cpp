#include "api_impl.hpp"
#define CUSTOM_TXT(B, U) "typedef BNIntType<" #U ", " #B "> c" #B "_s;\n" \
  "template <> constexpr bn_u64_t bn_min_limit<c" #B "_s>() { return 0; }\n" \
  "template <> constexpr bn_u64_t bn_max_limit<c" #B "_s>() { return (" #B ") - 1; }\n" \
  "typedef Bignum<BNLimitsType<c" #B "_s, c" #B "_s>, std::vector<c" #B "_s>> bignum_c" #B ";\n"
CUSTOM_BASE(256, BN_UINT16)
CUSTOM_BASE(1000, BN_UINT16)
CUSTOM_BASE(1000000000, BN_UINT32)
void register5(std::vector<const Api*>& v) {
    REGISTER(bignum_c256, bn_limits_c256, 256, true, false, 16, CUSTOM_TXT(256, BN_UINT16));
    REGISTER(bignum_c1000, bn_limits_c1000, 1000, true, false, 16, CUSTOM_TXT(1000, BN_UINT16));
    REGISTER(bignum_c1000000000, bn_limits_c1000000000, 1000000000, true, false, 32, CUSTOM_TXT(1000000000, BN_UINT32));
}
