
#include <pthread.h>
#include <stdlib.h>
volatile double A = 1.5, B = 3.0;
static volatile int n;
static void *work(void *p) { for (;;) { volatile double x = A * B; (void)x; n++; } return 0; }
int main() { pthread_t t; pthread_create(&t, 0, work, 0); while (n < 1000) ; return 0; }
