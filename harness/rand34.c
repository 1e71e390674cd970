// Linked into the sanitized benchmark generator: random numbers with extremes mixed in, chosen by the environment.
#include <limits.h>
#include <stdlib.h>
static unsigned long long state;
int rand(void) {
    const char *m = getenv("RAND34");
    static unsigned long long k;
    if (!state) state = m && m[0] ? strtoull(m + 1, 0, 10) * 2 + 1 : 88172645463325252ull;
    ++k;
    state ^= state << 13; state ^= state >> 7; state ^= state << 17;
    int r = (int)(state >> 33);
    switch (m ? m[0] : 0) {
    case '0': return 0;
    case 'M': return RAND_MAX;
    case 'c': return (int)(k & INT_MAX);
    case 'a': return k & 1 ? RAND_MAX : 0;
    case 'z': return (state & 7) == 0 ? 0 : (state & 7) == 1 ? RAND_MAX : r;
    case 'd': return (state & 3) == 0 ? r - r % 10000 : (state & 3) == 1 ? r - r % 840 + 839 : r;
    }
    return r;
}
void srand(unsigned s) { (void)s; }
