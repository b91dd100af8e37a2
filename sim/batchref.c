/* Reference for the batch machines: a plain machine on blank tape that stops on
 * a halt, on a blank tape, or on leaving the cells it has visited for good. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

/* table: print, right, next for each state and color; next >= states halts.
 * out: instructions begun, marks. 1 stopped, 0 still running after limit, -1 no memory */
int batch_ref(int states, int colors, const int16_t *table, long limit, long *out) {
    long half = 1024, size = 2 * half, pos = half, lo = half, hi = half, steps = 0, marks = 0;
    uint8_t *tape = calloc(size, 1);
    int state = 0;
    for (;;) {
        if (steps == limit) { free(tape); return 0; }
        steps++;
        const int16_t *i = table + 3 * (state * colors + tape[pos]);
        if (tape[pos] == 0 && i[2] == state && pos == (i[1] ? hi : lo)) break;
        marks += (i[0] != 0) - (tape[pos] != 0);
        tape[pos] = i[0];
        if (marks == 0) break;
        pos += i[1] ? 1 : -1;
        if (pos < lo) lo = pos;
        if (pos > hi) hi = pos;
        if (i[2] >= states) break;
        state = i[2];
        if (pos == 0 || pos == size - 1) {
            uint8_t *t = calloc(2 * size, 1);
            if (!t) { free(tape); return -1; }
            memcpy(t + size / 2, tape, size);
            free(tape);
            tape = t; pos += size / 2; lo += size / 2; hi += size / 2; size *= 2;
        }
    }
    free(tape);
    out[0] = steps;
    out[1] = marks;
    return 1;
}
