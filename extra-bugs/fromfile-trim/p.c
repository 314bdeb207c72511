
#include <stdio.h>
volatile double A = 1.0, B = 3.0;
int main() { printf("%a\n", A / B); }
