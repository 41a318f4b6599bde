/* The programs the shell under test launches: one binary, its behaviour
   chosen by the name it is called by.  See Tools in spec/DuneEval.tla. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>

static const char pattern[] = "0123456789abcdef";

static void put(const void *p, size_t n) {
    const char *c = p;
    while (n > 0) {
        ssize_t k = write(1, c, n);
        if (k <= 0) _exit(1);
        c += k;
        n -= (size_t)k;
    }
}

static char *slurp(size_t *n) {
    size_t cap = 1 << 16, len = 0;
    char *buf = malloc(cap);
    for (;;) {
        ssize_t k = read(0, buf + len, cap - len);
        if (k <= 0) break;
        len += (size_t)k;
        if (len == cap) buf = realloc(buf, cap *= 2);
    }
    *n = len;
    return buf;
}

int main(int argc, char **argv) {
    const char *name = strrchr(argv[0], '/');
    name = name ? name + 1 : argv[0];
    size_t n, i;
    signal(SIGPIPE, SIG_DFL);
    if (!strcmp(name, "vargv")) {
        for (int k = 1; k < argc; k++) { put("[", 1); put(argv[k], strlen(argv[k])); put("]\n", 2); }
    } else if (!strcmp(name, "venv")) {
        for (int k = 1; k < argc; k++) {
            const char *v = getenv(argv[k]);
            put(argv[k], strlen(argv[k]));
            if (v) { put("=", 1); put(v, strlen(v)); } else put(" unset", 6);
            put("\n", 1);
        }
    } else if (!strcmp(name, "vwhere")) {
        char *d = getcwd(NULL, 0);
        if (d) put(d, strlen(d));
        put("\n", 1);
    } else if (!strcmp(name, "vcat")) {
        char buf[65536];
        ssize_t k;
        while ((k = read(0, buf, sizeof buf)) > 0) put(buf, (size_t)k);
    } else if (!strcmp(name, "vupper")) {
        char *b = slurp(&n);
        for (i = 0; i < n; i++) if (b[i] >= 'a' && b[i] <= 'z') b[i] -= 32;
        put(b, n);
    } else if (!strcmp(name, "vtake")) {
        long want = argc > 1 ? atol(argv[1]) : 0;
        char c;
        while (want-- > 0 && read(0, &c, 1) == 1) put(&c, 1);
    } else if (!strcmp(name, "vgen")) {
        long left = argc > 1 ? atol(argv[1]) : 0;
        char buf[4096];
        for (i = 0; i < sizeof buf; i++) buf[i] = pattern[i % 16];
        while (left > 0) { size_t k = left < 4096 ? (size_t)left : 4096; put(buf, k); left -= (long)k; }
    } else if (!strcmp(name, "vcount")) {
        char *b = slurp(&n), out[64];
        int ok = 1;
        for (i = 0; i < n; i++) if (b[i] != pattern[i % 16]) ok = 0;
        put(out, (size_t)sprintf(out, "%zu %s\n", n, ok ? "ok" : "other"));
    } else if (!strcmp(name, "vlast")) {
        char *b = slurp(&n);
        if (n > 0) {
            if (b[n - 1] == '\n') n--;
            for (i = n; i > 0 && b[i - 1] != '\n'; i--) ;
            put(b + i, n - i);
            put("\n", 1);
        }
    } else if (!strcmp(name, "vbytes")) {
        for (int k = 1; k < argc; k++) { unsigned char c = (unsigned char)atoi(argv[k]); put(&c, 1); }
    } else if (!strcmp(name, "vdup")) {
        char *b = slurp(&n);
        put(b, n); put(b, n);
    } else if (!strcmp(name, "vstatus")) {
        return argc > 1 ? atoi(argv[1]) : 0;
    }
    return 0;
}
