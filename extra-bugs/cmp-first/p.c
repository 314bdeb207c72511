
volatile double A = 1.5, B = 3.0;
int main() { return A < B ? 0 : 1; }
