/* Stands between the code under test and a process it starts, to misbehave in place of the process.
 *  procshim exit K                      does nothing, exits with K (K >= 0) or dies of signal -K
 *  procshim out N K -- CMD...           runs CMD, passes on N bytes of its output (-1: all), then ends as K
 *  procshim file PATH N K -- CMD...     runs CMD, cuts PATH to N bytes (-1: leaves it), then ends as K
 *  procshim line L VALUE -- CMD...      runs CMD, with the last field of output line L replaced
 */
#define _GNU_SOURCE
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
static void end(int k) { if (k < 0) { signal(-k, SIG_DFL); raise(-k); } _exit(k); }
static void put(const char *b, size_t n) { while (n) { ssize_t k = write(1, b, n); if (k <= 0) return; b += k; n -= (size_t)k; } }
int main(int argc, char **argv)
{
    if (argc < 3) return 125;
    if (!strcmp(argv[1], "exit")) end(atoi(argv[2]));
    int at = 0;
    for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--")) { at = i + 1; break; }
    if (!at || at >= argc) return 125;
    int cap = strcmp(argv[1], "file") != 0, p[2] = {-1, -1};
    if (cap && pipe(p)) return 125;
    pid_t pid = fork();
    if (pid < 0) return 125;
    if (!pid) { if (cap) { dup2(p[1], 1); close(p[0]); close(p[1]); } execvp(argv[at], argv + at); _exit(127); }
    char *buf = NULL; size_t len = 0;
    if (cap) { close(p[1]); char t[65536]; ssize_t k; while ((k = read(p[0], t, sizeof t)) > 0) { buf = realloc(buf, len + (size_t)k); memcpy(buf + len, t, (size_t)k); len += (size_t)k; } }
    int st = 0; waitpid(pid, &st, 0);
    int own = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
    if (!strcmp(argv[1], "out")) { long n = atol(argv[2]); if (n < 0 || (size_t)n > len) n = (long)len; put(buf, (size_t)n); end(atoi(argv[3])); }
    if (!strcmp(argv[1], "file")) { long n = atol(argv[3]); if (n >= 0 && truncate(argv[2], n)) {} end(atoi(argv[4])); }
    if (!strcmp(argv[1], "line")) {
        long l = atol(argv[2]); size_t a = 0; long k = 0;
        while (a < len) {
            size_t e = a; while (e < len && buf[e] != '\n') e++;
            if (k == l) { size_t c = e; while (c > a && buf[c - 1] != ',') c--; put(buf + a, c - a); put(argv[3], strlen(argv[3])); put("\n", e < len); }
            else put(buf + a, (e < len ? e + 1 : e) - a);
            a = e + 1; k++;
        }
        end(own);
    }
    return 125;
}
