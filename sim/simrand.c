/* Entropy seam: getrandom() answers from a seeded stream once simrand_seed()
   was called in the process; before that it is the system's. */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

static int on;
static uint64_t s;
static unsigned long draws;

void simrand_seed(uint64_t seed) { s = seed; on = 1; }
unsigned long simrand_draws(void) { return draws; }

static uint64_t next(void) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

ssize_t getrandom(void *buf, size_t len, unsigned flags) {
    if (!on) return syscall(SYS_getrandom, buf, len, flags);
    unsigned char *p = buf;
    for (size_t i = 0; i < len; i++) { if (i % 8 == 0) draws++; p[i] = next() >> 32; }
    return (ssize_t)len;
}

int getentropy(void *buf, size_t len) { return getrandom(buf, len, 0) == (ssize_t)len ? 0 : -1; }
