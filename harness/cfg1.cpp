#include "api_impl.hpp"
void register1(std::vector<const Api*>& v) {
    REGISTER(bignum_base2, bn_limits_base2, 2, false, false, 8, "");
    REGISTER(bignum_base8, bn_limits_base8, 8, false, false, 16, "");
}
