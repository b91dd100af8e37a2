/* One of the repository's batch machines behind simulated standard streams.
 *
 * MACHINE is its source, included as it is with main renamed. Standard input is
 * a stream whose reads give the sizes of the plan and that ends, or fails, where
 * the plan says; standard output one whose writes are as short as the plan says.
 * usage: batch INPUT READS END FAIL WRITES */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#define main machine_main
#include MACHINE
#undef main
#undef L
#undef R

static int in_fd, n_reads, at_read, n_writes, at_write, fail;
static long at, end, reads[4096], writes[4096];

static ssize_t take(void *c, char *buf, size_t size) {
    (void)c;
    if (at >= end) {
        if (fail) { errno = EIO; return -1; }
        return 0;
    }
    if (at_read < n_reads && (size_t)reads[at_read] < size) size = reads[at_read];
    at_read++;
    if ((long)size > end - at) size = end - at;
    ssize_t n = pread(in_fd, buf, size, at);
    if (n > 0) at += n;
    return n;
}

static ssize_t put(void *c, const char *buf, size_t size) {
    (void)c;
    size_t done = 0;
    while (done < size) {               /* a cookie may not write short, so be short below it */
        size_t k = size - done;
        if (at_write < n_writes && (size_t)writes[at_write] < k) k = writes[at_write];
        at_write++;
        ssize_t n = write(1, buf + done, k);
        if (n < 0) return 0;
        done += n;
    }
    return done;
}

static int list(char *s, long *to) {
    int n = 0;
    for (char *p = strtok(s, ","); p && n < 4096; p = strtok(NULL, ",")) to[n++] = atol(p);
    return n;
}

int main(int argc, char **argv) {
    if (argc == 2) { printf("%ld %d %d\n", (long)XLIMIT, STATES, COLORS); return 0; }
    in_fd = open(argv[1], O_RDONLY);
    n_reads = list(argv[2], reads);
    end = atol(argv[3]);
    fail = atoi(argv[4]);
    n_writes = list(argv[5], writes);
    stdin = fopencookie(NULL, "r", (cookie_io_functions_t){ .read = take });
    stdout = fopencookie(NULL, "w", (cookie_io_functions_t){ .write = put });
    int rc = machine_main();
    fflush(stdout);
    return rc;
}
