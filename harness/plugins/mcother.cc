#define KIND 1
#include "mcgood.cc"
