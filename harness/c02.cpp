#define OPERATION SUB
#include "c01.cpp"
