/* Driver of name lookups from the tasks of several controlled threads. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <netdb.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/socket.h>

#include <hev-task.h>
#include <hev-task-dns.h>
#include <hev-task-system.h>

#define SC_PTHREAD
#define SC_POINTS 2000000
#include "baton.h"

#define FDS 2048

static char **lines;
static int nlines;
static char isopen[FDS], wasopen[FDS]; /* made through the stand-ins */
static int fdowner[FDS];
static int nextfd = 64;
static int gate[64];
static int norelay, nohelper; /* which descriptor of a thread, of the helper is refused */
static __thread int nmade, running;

static void
sc_refused (void)
{
    trv ("note", "refuse", sc_me, 0, 0, 0);
}

static void
sc_access (void *p, int size, int kind, int mo)
{
    Blk *b = mem_find (p);

    if (b && b->dead)
        trcrash (-4, sc_me); /* released memory */
}

/* ------------------------------------------------------------ stand-ins -- */
int __real_close (int fd);
int __real_poll (struct pollfd *f, nfds_t n, int timeout);

/* numbers are never used again */
static int
fdnew (int fd)
{
    int n;

    if (fd < 0)
        return fd;
    n = fcntl (fd, F_DUPFD_CLOEXEC, nextfd);
    __real_close (fd);
    if (n >= 0 && n < FDS) {
        nextfd = n + 1;
        isopen[n] = wasopen[n] = 1;
        fdowner[n] = sc_me;
    }
    return n;
}

static void
fduse (int fd)
{
    sc_point ();
    if (fd < 0 || fd >= FDS || (wasopen[fd] && !isopen[fd]))
        trcrash (-18, sc_me); /* not open any more */
}

static int
fdrefused (void)
{
    if (sc_me && (running || sc_daemon[sc_me]))
        nmade++;
    if (sc_me && ((sc_daemon[sc_me] && nmade == nohelper) || (running && nmade == norelay))) {
        trv ("note", "refuse", sc_me, 0, 0, 0);
        errno = EMFILE;
        return 1;
    }
    return 0;
}

int __real_epoll_create (int n);
int
__wrap_epoll_create (int n)
{
    return fdrefused () ? -1 : fdnew (__real_epoll_create (n));
}

int __real_epoll_create1 (int n);
int
__wrap_epoll_create1 (int n)
{
    return fdrefused () ? -1 : fdnew (__real_epoll_create1 (n));
}

int __real_socketpair (int d, int t, int p, int fd[2]);
int
__wrap_socketpair (int d, int t, int p, int fd[2])
{
    int v[2];

    if (fdrefused ())
        return -1;
    if (__real_socketpair (d, t, p, v) < 0)
        return -1;
    fd[0] = fdnew (v[0]);
    fd[1] = fdnew (v[1]);
    return 0;
}

int
__wrap_close (int fd)
{
    fduse (fd);
    if (wasopen[fd])
        isopen[fd] = 0;
    return __real_close (fd);
}

ssize_t __real_read (int fd, void *b, size_t n);
ssize_t
__wrap_read (int fd, void *b, size_t n)
{
    fduse (fd);
    return __real_read (fd, b, n);
}

ssize_t __real_write (int fd, const void *b, size_t n);
ssize_t
__wrap_write (int fd, const void *b, size_t n)
{
    ssize_t r;

    fduse (fd);
    r = __real_write (fd, b, n);
    sc_point ();
    return r;
}

static const int
fdready (void *p)
{
    struct pollfd *f = p;

    return __real_poll (f, 1, 0) > 0;
}

int
__wrap_poll (struct pollfd *f, nfds_t n, int timeout)
{
    int i;

    for (i = 0; i < n; i++)
        fduse (f[i].fd);
    return __real_poll (f, n, 0) ? __real_poll (f, n, 0) : __real_poll (f, n, timeout < 0 ? 100 : timeout);
}

int __real_epoll_ctl (int fd, int op, int target, struct epoll_event *ev);
int
__wrap_epoll_ctl (int fd, int op, int target, struct epoll_event *ev)
{
    fduse (fd);
    fduse (target);
    return __real_epoll_ctl (fd, op, target, ev);
}

int __real_epoll_wait (int fd, struct epoll_event *ev, int n, int timeout);
int
__wrap_epoll_wait (int fd, struct epoll_event *ev, int n, int timeout)
{
    struct pollfd f = { fd, POLLIN };
    int r;

    fduse (fd);
    for (;;) {
        r = __real_epoll_wait (fd, ev, n, 0);
        if (r || !timeout)
            break;
        if (!sc_on)
            return __real_epoll_wait (fd, ev, n, timeout);
        sc_wait (fdready, &f);
    }
    sc_point ();
    return r;
}

int
__wrap_epoll_pwait (int fd, struct epoll_event *ev, int n, int timeout, const sigset_t *set)
{
    return __wrap_epoll_wait (fd, ev, n, timeout);
}

/* ------------------------------------------------------------- resolver -- */
typedef struct
{
    int id, kind, hold; /* hold: gate, or -points */
    int ret, err;
} Query;

static struct addrinfo answers[256], hint[256];
static Query query[256];

static const int
opened (void *p)
{
    return *(int *)p;
}

/* what takes place in the resolver */
static void
resolve (Query *q, int ok)
{
    int i;

    trv ("look", "nop", sc_me, q->id, ok, 0);
    if (q->hold > 0 && !gate[q->hold])
        sc_wait (opened, &gate[q->hold]);
    for (i = 0; i < -q->hold; i++)
        sc_point ();
}

int
__wrap_getaddrinfo (const char *node, const char *service, const struct addrinfo *h, struct addrinfo **res)
{
    int id = node ? atoi (node + 1) : 0, ok;
    Query *q = &query[id];

    ok = service && atoi (service) == 1000 + id && h == (id % 2 ? &hint[id] : NULL) && !q->kind;
    resolve (q, ok);
    if (q->ret == 0)
        *res = &answers[id];
    errno = q->err;
    return q->ret;
}

int
__wrap_getnameinfo (const struct sockaddr *a, socklen_t n, char *node, socklen_t nn, char *service, socklen_t ns,
                    int flags)
{
    int id = a->sa_family, ok;
    Query *q = &query[id];

    ok = n == sizeof (*a) && nn == 20 + id % 7 && ns == 10 + id % 5 && flags == id % 9 && q->kind;
    resolve (q, ok);
    if (q->ret == 0) {
        snprintf (node, nn, "n%d", id);
        snprintf (service, ns, "s%d", id);
    }
    errno = q->err;
    return q->ret;
}

static void
lookup (int t, int n, int id)
{
    Query *q = &query[id];
    long x[2];
    int r, e;

    trv ("call", "lookup", t, n, id, 0);
    if (!q->kind) {
        struct addrinfo *res = NULL;
        char node[16], service[16];

        sprintf (node, "q%d", id);
        sprintf (service, "%d", 1000 + id);
        errno = 0;
        r = hev_task_dns_getaddrinfo (node, service, id % 2 ? &hint[id] : NULL, &res);
        e = errno;
        x[1] = res ? res - answers : 0;
        memset (node, 0, sizeof (node));
    } else {
        struct sockaddr a = { 0 };
        char node[32] = "", service[32] = "";

        a.sa_family = id;
        errno = 0;
        r = hev_task_dns_getnameinfo (&a, sizeof (a), node, 20 + id % 7, service, 10 + id % 5, id % 9);
        e = errno;
        x[1] = node[0] && !strcmp (node + 1, service + 1) ? atoi (node + 1) : 0;
    }
    x[0] = e;
    trx ("ret", "lookup", t, n, id, r, 2, x);
}

/* ---------------------------------------------------------------- tasks -- */
typedef struct
{
    int t, n;
    char *prog;
} Job;

/* y yield, l<id> lookup, o<gate> open */
static void
task_entry (void *data)
{
    Job *j = data;
    char *p = j->prog;

    while (*p && *p != ' ') {
        char o = *p++;
        int v = strtol (p, &p, 10);
        switch (o) {
        case 'y':
            hev_task_yield (HEV_TASK_YIELD);
            break;
        case 'l':
            lookup (j->t, j->n, v);
            break;
        case 'o':
            gate[v] = 1;
            trv ("op", "open", j->t, j->n, v, 0);
            break;
        }
    }
}

/* system thread refused-descriptor prog prog ... */
static void
system_run (int t, char *line)
{
    static __thread Job jobs[16];
    char *p = line;
    int n = 0, i, k;

    sscanf (line, "%*s %*d %*d%n", &k);
    trv ("call", "system", t, 0, 0, 0);
    if (hev_task_system_init () < 0)
        trcrash (-1, t);
    for (p += k; *p && n < 15;) {
        HevTask *task;
        while (*p == ' ')
            p++;
        jobs[++n].t = t;
        jobs[n].n = n;
        jobs[n].prog = p;
        task = hev_task_new (32768);
        hev_task_run (task, task_entry, &jobs[n]);
        while (*p && *p != ' ')
            p++;
    }
    running = 1;
    hev_task_system_run ();
    running = 0;
    trv ("op", "ran", t, 0, 0, 0);
    hev_task_system_fini ();
    /* what is left of descriptors and memory */
    for (i = k = 0; i < FDS; i++)
        k += isopen[i] && fdowner[i] == t;
    for (i = n = 0; i < mem_n; i++)
        n += mem_blk[i].owner == t && !mem_blk[i].dead;
    trv ("ret", "system", t, k, n, 0);
}

static void
work (int t)
{
    unsigned long a[2];
    char op[32];
    int i;

    mem_owner = t;
    for (i = 0; i < nlines; i++)
        if (trargs (lines[i], op, a, 2) >= 1 && !strcmp (op, "system") && a[0] == t)
            system_run (t, lines[i]);
}

static void
trscript (char **line, int n)
{
    unsigned long a[4096];
    char op[32];
    int i, j, k, threads = 0;

    lines = line;
    nlines = n;
    for (i = 0; i < n; i++) {
        if (!strncmp (line[i], "system", 6))
            continue;
        k = trargs (line[i], op, a, 4096);
        if (!strcmp (op, "threads")) {
            threads = a[0];
        } else if (!strcmp (op, "at")) {
            for (j = 0; j + 1 < k; j += 2) {
                sc_at[sc_nat] = a[j];
                sc_to[sc_nat++] = a[j + 1];
            }
        } else if (!strcmp (op, "random")) {
            sc_seed = a[0];
            sc_rand = a[1];
        } else if (!strcmp (op, "spurious")) {
            sc_spur = a[0];
        } else if (!strcmp (op, "nothread")) {
            sc_nocreate = a[0];
        } else if (!strcmp (op, "nofd")) { /* of a thread, of the helper */
            norelay = a[0];
            nohelper = a[1];
        } else if (!strcmp (op, "q")) { /* id, kind, hold, result, errno */
            Query *q = &query[a[0]];
            q->id = a[0];
            q->kind = a[1];
            q->hold = a[2];
            q->ret = a[3];
            q->err = a[4];
        }
    }
    sc_all (threads, work);
    mem_check_all ();
}

int
main (int argc, char **argv)
{
    return trmain (argc, argv);
}
