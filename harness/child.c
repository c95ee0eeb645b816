/* A program for os.spawn() to start: reports how it was started in rep/<pid> next to its own directory's parent
 * (environment excepted, whatever it is asked comes in its arguments), then does what its arguments say:
 * @out HEX, @err HEX, @rep N, @cat, @sleep MS, @exit N, @sig N, @stop, @kill PID SIG, @zombies, @@ (end of commands). */
#define _GNU_SOURCE
#include <dirent.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <unistd.h>

extern char **environ;

static void hex(FILE *f, const char *k, const char *s)
{
    fprintf(f, "%s ", k);
    for (; *s; s++) fprintf(f, "%02x", (unsigned char)*s);
    fputc('\n', f);
}

static void put(int fd, const char *s)
{
    size_t n = strlen(s) / 2, i;
    char *b = malloc(n + 1), *p = b;
    for (i = 0; i < n; i++) { unsigned v; sscanf(s + 2 * i, "%2x", &v); b[i] = (char)v; }
    while (n) { ssize_t w = write(fd, p, n); if (w <= 0) _exit(77); p += w; n -= (size_t)w; }
}

static int children(int parent, int *zombies)
{
    DIR *d = opendir("/proc"); struct dirent *e; int n = 0;
    *zombies = 0;
    while (d && (e = readdir(d))) {
        char p[300], st[600]; FILE *f; size_t l; char *q; int pp; char c;
        if (e->d_name[0] < '0' || e->d_name[0] > '9' || atoi(e->d_name) == getpid()) continue;
        snprintf(p, sizeof(p), "/proc/%s/stat", e->d_name);
        f = fopen(p, "r"); if (!f) continue;
        l = fread(st, 1, sizeof(st) - 1, f); st[l] = 0; fclose(f);
        q = strrchr(st, ')'); if (!q || sscanf(q + 1, " %c %d", &c, &pp) != 2) continue;
        if (pp == parent) { n++; if (c == 'Z') ++*zombies; }
    }
    if (d) closedir(d);
    return n;
}

int main(int argc, char **argv)
{
    char exe[5000], rep[6000], cwd[5000]; ssize_t n; char *s; int i; FILE *f; DIR *d; struct dirent *e;
    struct rlimit nocore = { 0, 0 };
    int fds[1000], nfd = 0;

    setrlimit(RLIMIT_CORE, &nocore);
    d = opendir("/proc/self/fd");
    while (d && (e = readdir(d)))
        if (e->d_name[0] != '.' && atoi(e->d_name) != dirfd(d) && nfd < 1000) fds[nfd++] = atoi(e->d_name);
    if (d) closedir(d);
    n = readlink("/proc/self/exe", exe, sizeof(exe) - 1);
    if (n < 0) return 70;
    exe[n] = 0;
    strcpy(rep, exe);
    s = strrchr(rep, '/'); if (s) *s = 0;
    s = strrchr(rep, '/'); if (s) *s = 0;
    sprintf(rep + strlen(rep), "/rep/%d", (int)getpid());
    f = fopen(rep, "w");
    if (!f) return 71;
    hex(f, "exe", exe);
    if (!getcwd(cwd, sizeof(cwd))) return 72;
    hex(f, "cwd", cwd);
    for (i = 1; i < argc; i++) hex(f, "arg", argv[i]);
    for (i = 0; environ[i]; i++) hex(f, "env", environ[i]);
    for (i = 0; i < nfd; i++) fprintf(f, "fd %d\n", fds[i]);
    fclose(f);

    for (i = 1; i < argc; i++) {
        const char *a = argv[i];
        if (!strcmp(a, "@@") || a[0] != '@') break;
        else if (!strcmp(a, "@out")) put(1, argv[++i]);
        else if (!strcmp(a, "@err")) put(2, argv[++i]);
        else if (!strcmp(a, "@rep")) { int k = atoi(argv[++i]); for (; k > 0; k--) put(1, "616263640a"); }
        else if (!strcmp(a, "@cat")) { char b[4096]; ssize_t r; while ((r = read(0, b, sizeof(b))) > 0) if (write(1, b, (size_t)r) != r) _exit(78); if (r < 0) _exit(79); }
        else if (!strcmp(a, "@sleep")) usleep((useconds_t)atoi(argv[++i]) * 1000U);
        else if (!strcmp(a, "@exit")) _exit(atoi(argv[++i]));
        else if (!strcmp(a, "@sig")) { int k = atoi(argv[++i]); signal(k, SIG_DFL); raise(k); }
        else if (!strcmp(a, "@stop")) raise(SIGSTOP);
        else if (!strcmp(a, "@kill")) { int p = atoi(argv[i + 1]); if (p > 1) kill(p, atoi(argv[i + 2])); i += 2; }
        else if (!strcmp(a, "@zombies")) {
            int k, z = 0, c = 0; char b[100];
            for (k = 0; k < 600; k++) { c = children(getppid(), &z); if (!c) break; usleep(10000); }
            sprintf(b, "children %d zombies %d\n", c, z);
            if (write(1, b, strlen(b)) < 0) return 73;
        }
        else return 74;
    }
    return 0;
}
