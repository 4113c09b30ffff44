/* The child process of the process monitor. argv[1]: control descriptor; argv[2]: script:
   oN/eN write N bytes to stdout/stderr, g wait for the parent (acknowledges what came before),
   iN read N bytes from stdin and copy them to stdout, c copy stdin to stdout until it ends,
   d close stdout, xN exit with N, k kill itself. Byte k of an output stream is 'a' + k % 23 with
   a newline at every k % 17 == 5. */
#include <signal.h>
#include <stdlib.h>
#include <unistd.h>
static void out(int fd, long n, long *k) {
    char b[4096];
    while (n > 0) {
        long m = n < (long)sizeof b ? n : (long)sizeof b;
        for (long i = 0; i < m; ++i, ++*k) b[i] = *k % 17 == 5 ? '\n' : (char)('a' + *k % 23);
        for (long o = 0; o < m;) { ssize_t w = write(fd, b + o, (size_t)(m - o)); if (w < 0) return; o += w; }
        n -= m;
    }
}
int main(int argc, char **argv) {
    int ctl = atoi(argv[1]);
    long k[2] = {0, 0};
    signal(SIGPIPE, SIG_IGN);
    for (char *s = argv[2]; *s;) {
        char op = *s++;
        long n = strtol(s, &s, 10);
        char b[4096];
        ssize_t r;
        switch (op) {
        case 'o': out(1, n, &k[0]); break;
        case 'e': out(2, n, &k[1]); break;
        case 'g': if (write(ctl, "a", 1) != 1) return 3; if (read(ctl, b, 1) != 1) return 3; break;
        case 'i': while (n > 0 && (r = read(0, b, n < 4096 ? (size_t)n : 4096)) > 0) { for (ssize_t o = 0, w; o < r; o += w) if ((w = write(1, b + o, (size_t)(r - o))) < 0) break; n -= r; } break;
        case 'c': while ((r = read(0, b, sizeof b)) > 0) for (ssize_t o = 0, w; o < r; o += w) if ((w = write(1, b + o, (size_t)(r - o))) < 0) return 4; break;
        case 'd': close(1); break;
        case 'x': _exit((int)n);
        case 'k': kill(getpid(), SIGKILL);
        }
    }
    return 0;
}
