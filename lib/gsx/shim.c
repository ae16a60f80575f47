/* rand() under the control of the replay; loaded with LD_PRELOAD */
static const int *seq; static int n, pos; static unsigned lcg = 12345;
void gsx_rand(const int *s, int k) { seq = s; n = k; pos = 0; }
int rand(void) { if (n > 0) { int v = seq[pos % n]; pos++; return v; } lcg = lcg * 1103515245u + 12345u; return (int)(lcg >> 1); }
void srand(unsigned s) { (void)s; }
