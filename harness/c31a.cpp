// C31 and C32 for ANTEX files
#define WITH_ANTEX
#include "c31.cpp"
