// The other instantiations of the dynamic index scenarios.
#define DYN_B 1
#include "dynamic.cpp"
