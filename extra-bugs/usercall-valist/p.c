
#include <stdio.h>
#include <interflop/interflop.h>
volatile double A = 1.0, B = 3.0;
int main() { interflop_call(INTERFLOP_SET_PRECISION_BINARY64, 5, 37, 41, 43, 47); printf("%a\n", A / B); }
