
#include <stdio.h>
volatile double A = 1.0, B = 3.0, C = 7.0;
double f(void) { return A / B; }
double g(void) { return A / C; }
int main() { printf("%a\n%a\n", f(), g()); }
