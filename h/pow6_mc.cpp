// C16: all small graphs of six edges (the verifiers compiled for cycles of six)
#define PS 6
#define SMALL
#include "pow_mc.cpp"
