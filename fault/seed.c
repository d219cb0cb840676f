// Preloaded into the real dump_syms: random numbers and clocks are functions of SEED.
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <sys/random.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

static unsigned long long state;
static int on;
__attribute__((constructor)) static void init(void) {
    char *s = getenv("SEED");
    on = s != 0;
    state = s ? strtoull(s, 0, 10) * 0x9e3779b97f4a7c15ull + 1 : 0;
}
static unsigned char next(void) {
    state ^= state << 13;
    state ^= state >> 7;
    state ^= state << 17;
    return state >> 32;
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (!on) return syscall(SYS_getrandom, b, n, f);
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = next();
    return n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }
int clock_gettime(clockid_t c, struct timespec *t) {
    int r = syscall(SYS_clock_gettime, c, t);
    if (on && !r) { t->tv_sec += state % 1000000; t->tv_nsec = (t->tv_nsec + state % 1000) % 1000000000; }
    return r;
}
