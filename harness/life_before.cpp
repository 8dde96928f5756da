#include "life.hpp"
__attribute__((init_priority(101))) static LifeObject g_early(P_EARLY, P_LAST);
static LifeObject g_before(P_BEFORE, P_DTOR_BEFORE);
