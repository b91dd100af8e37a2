/* Lazily grown tree of programs, by the definition.

   A program starts as A0 -> 1RB and a choice for B0 and is run on blank tape.
   When it asks for an instruction it does not have, every instruction over the
   states and colors used so far and one new one of each (while there are any)
   is tried.  A branch ends when the program spins out, blanks the tape, has
   made `lim` moves since the last choice, or has no more slots to fill; it is
   a leaf of the tree if its instructions go to the last state and print the
   last color. A move over a run of one color that stays in its state is one. */
#include <stdlib.h>
#include <string.h>

#define LEN 16384
typedef struct { unsigned char t[LEN]; int pos, lo, hi; } Tape;   /* lo..hi touched */

static int S, C, maxfill;
static long lim;
static int prog[16][16][3];      /* [state][color] -> color, right, next; -1 undefined */
static char *buf;
static size_t used, cap;
static long leaves;

static void emit(void) {
    int top_s = 0, top_c = 0;
    for (int s = 0; s < S; s++) for (int c = 0; c < C; c++) if (prog[s][c][0] >= 0) {
        if (prog[s][c][2] == S - 1) top_s = 1;
        if (prog[s][c][0] == C - 1) top_c = 1;
    }
    if (!top_s || !top_c) return;
    if (used + 4096 > cap) { cap = cap ? cap * 2 : 1 << 16; buf = realloc(buf, cap); }
    for (int s = 0; s < S; s++) {
        if (s) { buf[used++] = ' '; buf[used++] = ' '; }
        for (int c = 0; c < C; c++) {
            if (c) buf[used++] = ' ';
            int *i = prog[s][c];
            if (i[0] < 0) { memcpy(buf + used, "...", 3); used += 3; }
            else { buf[used++] = '0' + i[0]; buf[used++] = i[1] ? 'R' : 'L'; buf[used++] = 'A' + i[2]; }
        }
    }
    buf[used++] = '\n';
    leaves++;
}

static int blank_side(const Tape *t, int right) {
    if (right) { for (int p = t->pos + 1; p <= t->hi; p++) if (t->t[p]) return 0; }
    else for (int p = t->pos - 1; p >= t->lo; p--) if (t->t[p]) return 0;
    return 1;
}

/* 1: wants an instruction (state in *st); 0: branch ends */
static int go(Tape *t, int *st) {
    for (long n = 0; n < lim; n++) {
        int c = t->t[t->pos], *i = prog[*st][c];
        if (i[0] < 0) return 1;
        int same = i[2] == *st, d = i[1] ? 1 : -1;
        if (same && c == 0 && blank_side(t, i[1])) return 0;
        do {
            t->t[t->pos] = i[0];
            t->pos += d;
            if (t->pos < 2 || t->pos > LEN - 3) abort();
            if (t->pos < t->lo) t->lo = t->pos;
            if (t->pos > t->hi) t->hi = t->pos;
        } while (same && t->t[t->pos] == c);
        *st = i[2];
        if (!t->t[t->pos] && blank_side(t, 0) && blank_side(t, 1)) return 0;
    }
    return 0;
}

static void grow(Tape *t, int st, int filled, int ms, int mc) {   /* ms, mc: greatest used */
    if (!go(t, &st)) { emit(); return; }
    int c = t->t[t->pos];
    int ts = ms + 1 < S ? ms + 1 : S - 1, tc = mc + 1 < C ? mc + 1 : C - 1;
    Tape *u = filled + 1 < maxfill ? malloc(sizeof *u) : NULL;
    for (int nc = 0; nc <= tc; nc++) for (int r = 0; r < 2; r++) for (int ns = 0; ns <= ts; ns++) {
        int *i = prog[st][c];
        i[0] = nc; i[1] = r; i[2] = ns;
        if (!u) emit();
        else {
            memcpy(u->t + t->lo, t->t + t->lo, t->hi - t->lo + 1);
            memset(u->t, 0, t->lo); memset(u->t + t->hi + 1, 0, LEN - t->hi - 1);
            u->pos = t->pos; u->lo = t->lo; u->hi = t->hi;
            grow(u, st, filled + 1, ns > ms ? ns : ms, nc > mc ? nc : mc);
        }
        i[0] = -1;
    }
    free(u);
}

/* returns the number of leaves; *text is malloc'ed */
long tree(int states, int colors, int halt, long sim_lim, char **text, size_t *len) {
    S = states; C = colors; lim = sim_lim; maxfill = S * C - (halt ? 1 : 0);
    used = cap = 0; buf = NULL; leaves = 0;
    memset(prog, -1, sizeof prog);
    prog[0][0][0] = 1; prog[0][0][1] = 1; prog[0][0][2] = 1;
    int ts = S < 3 ? S - 1 : 2, tc = C < 3 ? C - 1 : 2;
    Tape *t = malloc(sizeof *t);
    for (int nc = 0; nc <= tc; nc++) for (int r = 0; r < 2; r++) for (int ns = 0; ns <= ts; ns++) {
        prog[1][0][0] = nc; prog[1][0][1] = r; prog[1][0][2] = ns;
        memset(t->t, 0, LEN);
        t->pos = LEN / 2; t->lo = t->pos - 1; t->hi = t->pos; t->t[t->pos - 1] = 1;
        grow(t, 1, 2, ns > 1 ? ns : 1, nc > 1 ? nc : 1);
    }
    free(t);
    *text = buf; *len = used;
    return leaves;
}
