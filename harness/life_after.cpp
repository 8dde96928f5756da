#include "life.hpp"
static LifeObject g_after(P_AFTER, P_DTOR_AFTER);
