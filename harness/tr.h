/* Recording for the sequential drivers: every script runs in a process of its
   own that appends events to shared memory; the parent writes one line per
   script.  Script file: "S id", optional "G json members", operations, "E". */
#ifndef TR_H
#define TR_H

#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>

#define TR_SIZE (8 << 20)
#define TR_LINES 8192

typedef struct
{
    volatile int len;
    volatile int lock;
    char buf[TR_SIZE];
} Tr;

static Tr *tr;

static void
trlock (void)
{
    while (__sync_lock_test_and_set (&tr->lock, 1))
        ;
}

/* one event: e, o, a, b, c, r and n further numbers */
static void
trx (const char *e, const char *o, long a, long b, long c, long r, int n, const long *x)
{
    char *p;
    int i, l;

    trlock ();
    l = tr->len;
    if (l + 200 + n * 21 > TR_SIZE)
        _exit (98);
    p = tr->buf + l;
    p += sprintf (p, "%s{\"e\":\"%s\",\"o\":\"%s\",\"a\":%ld,\"b\":%ld,\"c\":%ld,\"r\":%ld",
                  l ? "," : "", e, o, a, b, c, r);
    if (n) {
        p += sprintf (p, ",\"x\":[");
        for (i = 0; i < n; i++)
            p += sprintf (p, "%s%ld", i ? "," : "", x[i]);
        p += sprintf (p, "]");
    }
    p += sprintf (p, "}");
    tr->len = p - tr->buf;
    __sync_lock_release (&tr->lock);
}

static void
trv (const char *e, const char *o, long a, long b, long c, long r)
{
    trx (e, o, a, b, c, r, 0, NULL);
}

static void
trcrash (int code, long where)
{
    trv ("crash", "nop", code, where, 0, 0);
    _exit (0);
}

/* executes the lines of one script */
static void trscript (char **line, int n);

static int
trmain (int argc, char **argv)
{
    static char id[256], cfg[4096];
    static char *line[TR_LINES];
    char *txt = NULL, *p, *q;
    FILE *fi, *fo;
    long size;
    int n = 0;

    if (argc < 3)
        return 2;
    tr = mmap (NULL, sizeof (Tr), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fi = fopen (argv[1], "r");
    fo = fopen (argv[2], "w");
    if (tr == MAP_FAILED || !fi || !fo)
        return 2;
    fseek (fi, 0, SEEK_END);
    size = ftell (fi);
    rewind (fi);
    txt = mmap (NULL, size + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (fread (txt, 1, size, fi) != size)
        return 2;
    for (p = txt; *p; p = q) {
        q = strchr (p, '\n');
        if (!q)
            return 2;
        *q++ = 0;
        if (p[0] == 'S' && p[1] == ' ') {
            snprintf (id, sizeof (id), "%s", p + 2);
            cfg[0] = 0;
            n = 0;
        } else if (p[0] == 'G' && p[1] == ' ') {
            snprintf (cfg, sizeof (cfg), ",%s", p + 2);
        } else if (p[0] == 'E' && !p[1]) {
            int st = 0;
            pid_t pid;

            tr->len = 0;
            tr->lock = 0;
            fflush (fo);
            pid = fork ();
            if (pid == 0) {
                alarm (20);
                trscript (line, n);
                trv ("final", "nop", 0, 0, 0, 0);
                _exit (0);
            }
            if (pid < 0 || waitpid (pid, &st, 0) != pid)
                return 2;
            tr->lock = 0;
            if (st)
                trv ("crash", "nop", 1000 + (WIFSIGNALED (st) ? WTERMSIG (st) : WEXITSTATUS (st)), 0, 0, 0);
            fprintf (fo, "{\"id\":\"%s\"%s,\"ev\":[%.*s]}\n", id, cfg, tr->len, tr->buf);
        } else {
            if (n == TR_LINES)
                return 2;
            line[n++] = p;
        }
    }
    if (fclose (fo))
        return 2;
    return 0;
}

/* numbers of a line after its first word */
static int
trargs (char *line, char *op, unsigned long *a, int max)
{
    int n = 0, k = 0;

    if (sscanf (line, "%31s%n", op, &k) != 1)
        return -1;
    for (line += k; n < max; line += k) {
        char *e;
        while (*line == ' ')
            line++;
        if (!*line)
            break;
        a[n++] = *line == '-' ? (unsigned long)strtol (line, &e, 10) : strtoul (line, &e, 10);
        k = e - line;
    }
    return n;
}

#endif
