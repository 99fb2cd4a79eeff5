// C16: all graphs of four edges (the verifiers compiled for cycles of four)
#define PS 4
#define SMALL
#include "pow_mc.cpp"
