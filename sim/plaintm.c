/* Reference model: a plain one-tape Turing machine, one cell and one step at
 * a time.  Nothing here is derived from the repository's code. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef struct {
    int states, colors;
    int16_t wr[64 * 64];   /* -1: undefined */
    int8_t  dir[64 * 64];  /* -1 / +1 */
    int16_t nx[64 * 64];
    uint8_t *tape;
    long size, pos, lo, hi; /* lo..hi: cells ever touched */
    long marks;
    int state;
    long long steps;
    int status;            /* 0 running, 1 halted (undefined), 2 tape exhausted */
} TM;

TM *tm_new(int states, int colors, const int16_t *tab, long half) {
    TM *m = calloc(1, sizeof *m);
    m->states = states; m->colors = colors;
    for (int s = 0; s < states; s++)
        for (int c = 0; c < colors; c++) {
            const int16_t *t = tab + 3 * (s * colors + c);
            m->wr[s * 64 + c] = t[0];
            m->dir[s * 64 + c] = t[1] ? 1 : -1;
            m->nx[s * 64 + c] = t[2];
        }
    m->size = 2 * half + 1;
    m->tape = calloc(m->size, 1);
    m->pos = m->lo = m->hi = half;
    return m;
}
void tm_free(TM *m) { free(m->tape); free(m); }

/* load a configuration: cells left of head (nearest first), scan, right */
int tm_load(TM *m, int state, const uint8_t *l, long nl, int scan, const uint8_t *r, long nr) {
    long half = m->size / 2;
    if (nl >= half - 2 || nr >= half - 2) return -1;
    memset(m->tape, 0, m->size);
    m->pos = half; m->lo = half - nl; m->hi = half + nr;
    m->marks = scan != 0;
    m->tape[half] = scan;
    for (long i = 0; i < nl; i++) { m->tape[half - 1 - i] = l[i]; m->marks += l[i] != 0; }
    for (long i = 0; i < nr; i++) { m->tape[half + 1 + i] = r[i]; m->marks += r[i] != 0; }
    m->state = state; m->status = 0; m->steps = 0;
    return 0;
}

static inline int step1(TM *m) {
    if (m->state < 0 || m->state >= m->states) { m->status = 1; return 1; }
    int c = m->tape[m->pos];
    if (c >= m->colors) { m->status = 1; return 1; }
    int k = m->state * 64 + c;
    int w = m->wr[k];
    if (w < 0) { m->status = 1; return 1; }
    long np = m->pos + m->dir[k];
    if (np < 0 || np >= m->size) { m->status = 2; return 1; }
    m->tape[m->pos] = w;
    m->marks += (w != 0) - (c != 0);
    m->pos = np;
    if (np < m->lo) m->lo = np;
    if (np > m->hi) m->hi = np;
    m->state = m->nx[k];
    m->steps++;
    return 0;
}

long long tm_run(TM *m, long long n) {
    long long s0 = m->steps;
    for (long long i = 0; i < n; i++) if (step1(m)) break;
    return m->steps - s0;
}

/* the slots of the next n steps, backwards from the end of out; how many */
long long tm_trail(TM *m, uint8_t *out, long long n) {
    long long i = 0;
    while (i < n) {
        out[n - 1 - i++] = m->state * 16 + m->tape[m->pos];
        if (step1(m)) break;
    }
    return i;
}

static int match(TM *m, const uint8_t *l, long nl, const uint8_t *r, long nr) {
    long p = m->pos;
    long al = p - m->lo, ar = m->hi - p;
    for (long i = 0; i < nl; i++) { int c = i < al ? m->tape[p - 1 - i] : 0; if (c != l[i]) return 0; }
    for (long i = 0; i < nr; i++) { int c = i < ar ? m->tape[p + 1 + i] : 0; if (c != r[i]) return 0; }
    for (long i = nl; i < al; i++) if (m->tape[p - 1 - i]) return 0;
    for (long i = nr; i < ar; i++) if (m->tape[p + 1 + i]) return 0;
    return 1;
}

int tm_match(TM *m, int state, const uint8_t *l, long nl, int scan, const uint8_t *r, long nr) {
    return m->state == state && m->tape[m->pos] == scan && match(m, l, nl, r, nr);
}

/* advance at least `min` steps, then until the configuration matches.
 * >=0 steps advanced; -1 halted first; -2 fuel; -3 tape exhausted */
long long tm_seek(TM *m, int state, const uint8_t *l, long nl, int scan,
                  const uint8_t *r, long nr, long long min, long long fuel) {
    long marks = scan != 0;
    for (long i = 0; i < nl; i++) marks += l[i] != 0;
    for (long i = 0; i < nr; i++) marks += r[i] != 0;
    long long s0 = m->steps;
    for (;;) {
        if (m->steps - s0 >= min && m->state == state && m->marks == marks
            && m->tape[m->pos] == scan && match(m, l, nl, r, nr))
            return m->steps - s0;
        if (m->steps - s0 >= fuel) return -2;
        if (step1(m)) return m->status == 2 ? -3 : -1;
    }
}

/* run until (blank tape) or halt or fuel: returns step count of the first
 * blank tape after >=1 step, -1 halted, -2 fuel, -3 exhausted */
long long tm_seek_blank(TM *m, long long fuel) {
    long long s0 = m->steps;
    for (;;) {
        if (m->steps - s0 >= fuel) return -2;
        if (step1(m)) return m->status == 2 ? -3 : -1;
        if (m->marks == 0) return m->steps;
    }
}

/* run until the head is in a configuration that provably runs off for ever:
 * state q scans 0, everything ahead is 0, and (q,0) keeps q moving ahead.
 * returns step count at that configuration; -1 halted, -2 fuel, -3 */
long long tm_seek_spin(TM *m, long long fuel) {
    long long s0 = m->steps;
    for (;;) {
        int c = m->tape[m->pos];
        if (c == 0 && m->state >= 0 && m->state < m->states) {
            int k = m->state * 64;
            if (m->wr[k] >= 0 && m->nx[k] == m->state) {
                long e = m->dir[k] > 0 ? m->hi : m->lo; int clear = 1;
                for (long p = m->pos; ; p += m->dir[k]) {
                    if (m->tape[p]) { clear = 0; break; }
                    if (p == e) break;
                }
                if (clear) return m->steps;
            }
        }
        if (m->steps - s0 >= fuel) return -2;
        if (step1(m)) return m->status == 2 ? -3 : -1;
    }
}

void tm_info(TM *m, long long *out) {
    out[0] = m->state; out[1] = m->tape[m->pos]; out[2] = m->steps; out[3] = m->marks;
    out[4] = m->status; out[5] = m->pos - m->lo; out[6] = m->hi - m->pos;
    out[7] = m->pos - m->size / 2;
}
void tm_cells(TM *m, uint8_t *l, uint8_t *r) {
    for (long i = 0; i < m->pos - m->lo; i++) l[i] = m->tape[m->pos - 1 - i];
    for (long i = 0; i < m->hi - m->pos; i++) r[i] = m->tape[m->pos + 1 + i];
}
