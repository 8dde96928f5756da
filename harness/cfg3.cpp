#include "api_impl.hpp"
void register3(std::vector<const Api*>& v) {
    REGISTER(bignum_lowp, bn_limits_lowp, 256, false, true, 8, "");
    REGISTER(bignum_medp, bn_limits_medp, 65536, false, true, 16, "");
}
