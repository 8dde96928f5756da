#include "api_impl.hpp"
void register2(std::vector<const Api*>& v) {
    REGISTER(bignum_base10, bn_limits_base10, 10, false, false, 32, "");
    REGISTER(bignum_base16, bn_limits_base16, 16, false, false, 32, "");
}
