/* Driver of calls that obtain memory, address space or descriptors: any one of
   the requests made during a call can be refused.  What is held is recorded as
   blocks, pages and descriptors. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/un.h>

static int refuse (void);
#define MEM_REFUSED() refuse ()
#include "mem.h"

#include <hev-task.h>
#include <hev-task-call.h>
#include <hev-task-channel.h>
#include <hev-task-channel-select.h>
#include <hev-task-io.h>
#include <hev-task-cio.h>
#include <hev-task-cio-buffer.h>
#include <hev-task-cio-fd.h>
#include <hev-task-cio-null.h>
#include <hev-task-cio-socket.h>
#include <hev-task-io-pipe.h>
#include <hev-task-io-socket.h>
#include <hev-task-system.h>
#include <hev-circular-buffer.h>
#include <hev-memory-allocator.h>

#define FDS 4096
#define HANDLES 256

static int inside, asked, at; /* in a call, requests so far, which to refuse */
static char live[FDS];
static long pages;
static char **lines;
static int nlines;
static const char *dir;

static int
refuse (void)
{
    if (!inside || ++asked != at)
        return 0;
    trv ("refused", "nop", asked, 0, 0, 0);
    return 1;
}

/* ------------------------------------------------------------- stand-ins -- */
static int
opened (int fd)
{
    if (inside && fd >= 0 && fd < FDS)
        live[fd] = 1;
    return fd;
}

#define FDCALL(name, args, real)                                               \
    int __real_##name args;                                                    \
    int __wrap_##name args                                                     \
    {                                                                          \
        if (refuse ()) {                                                       \
            errno = EMFILE;                                                    \
            return -1;                                                         \
        }                                                                      \
        return opened (__real_##name real);                                    \
    }
FDCALL (socket, (int a, int b, int c), (a, b, c))
FDCALL (dup, (int a), (a))
FDCALL (dup2, (int a, int b), (a, b))
FDCALL (dup3, (int a, int b, int c), (a, b, c))
FDCALL (accept, (int a, struct sockaddr *b, socklen_t *c), (a, b, c))
FDCALL (accept4, (int a, struct sockaddr *b, socklen_t *c, int d), (a, b, c, d))
FDCALL (eventfd, (unsigned a, int b), (a, b))

#define PAIRCALL(name, args, real, v)                                          \
    int __real_##name args;                                                    \
    int __wrap_##name args                                                     \
    {                                                                          \
        int r;                                                                 \
        if (refuse ()) {                                                       \
            errno = EMFILE;                                                    \
            return -1;                                                         \
        }                                                                      \
        r = __real_##name real;                                                \
        if (r == 0) {                                                          \
            opened (v[0]);                                                     \
            opened (v[1]);                                                     \
        }                                                                      \
        return r;                                                              \
    }
PAIRCALL (pipe, (int *v), (v), v)
PAIRCALL (pipe2, (int *v, int f), (v, f), v)
PAIRCALL (socketpair, (int a, int b, int c, int *v), (a, b, c, v), v)

int __real_open (const char *p, int f, ...);
int __real_openat (int d, const char *p, int f, ...);
int
__wrap_open (const char *p, int f, ...)
{
    va_list ap;
    int m;

    va_start (ap, f);
    m = f & O_CREAT ? va_arg (ap, int) : 0;
    va_end (ap);
    if (refuse ()) {
        errno = EMFILE;
        return -1;
    }
    return opened (__real_open (p, f, m));
}
int
__wrap_openat (int d, const char *p, int f, ...)
{
    va_list ap;
    int m;

    va_start (ap, f);
    m = f & O_CREAT ? va_arg (ap, int) : 0;
    va_end (ap);
    if (refuse ()) {
        errno = EMFILE;
        return -1;
    }
    return opened (__real_openat (d, p, f, m));
}

int __real_ioctl (int fd, unsigned long req, void *arg);
int
__wrap_ioctl (int fd, unsigned long req, ...)
{
    va_list ap;
    void *arg;

    va_start (ap, req);
    arg = va_arg (ap, void *);
    va_end (ap);
    if (req == FIONBIO && refuse ()) {
        errno = ENOMEM;
        return -1;
    }
    return __real_ioctl (fd, req, arg);
}

int __real_fcntl (int fd, int cmd, long arg);
int
__wrap_fcntl (int fd, int cmd, ...)
{
    va_list ap;
    long arg;
    int r;

    va_start (ap, cmd);
    arg = va_arg (ap, long);
    va_end (ap);
    if ((cmd == F_SETFL || cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && refuse ()) {
        errno = ENOMEM;
        return -1;
    }
    r = __real_fcntl (fd, cmd, arg);
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)
        opened (r);
    return r;
}

int __real_epoll_ctl (int fd, int op, int target, struct epoll_event *ev);
int
__wrap_epoll_ctl (int fd, int op, int target, struct epoll_event *ev)
{
    if (op == EPOLL_CTL_ADD && refuse ()) {
        errno = ENOSPC;
        return -1;
    }
    return __real_epoll_ctl (fd, op, target, ev);
}

int __real_close (int fd);
int
__wrap_close (int fd)
{
    if (fd >= 0 && fd < FDS) {
        if (inside && !live[fd])
            trcrash (-18, fd);
        live[fd] = 0;
    }
    return __real_close (fd);
}

void *__real_mmap (void *p, size_t n, int prot, int flags, int fd, off_t off);
void *
__wrap_mmap (void *p, size_t n, int prot, int flags, int fd, off_t off)
{
    void *r;

    if (refuse ()) {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    r = __real_mmap (p, n, prot, flags, fd, off);
    if (inside && r != MAP_FAILED)
        pages += (n + 4095) / 4096;
    return r;
}
int __real_munmap (void *p, size_t n);
int
__wrap_munmap (void *p, size_t n)
{
    int r = __real_munmap (p, n);

    if (inside && r == 0)
        pages -= (n + 4095) / 4096;
    return r;
}
int __real_mprotect (void *p, size_t n, int prot);
int
__wrap_mprotect (void *p, size_t n, int prot)
{
    if (refuse ()) {
        errno = ENOMEM;
        return -1;
    }
    return __real_mprotect (p, n, prot);
}

/* -------------------------------------------------------------- recording -- */
static void
hold (long *x)
{
    int i;

    x[0] = x[2] = 0;
    x[1] = pages;
    for (i = 0; i < mem_n; i++)
        x[0] += !mem_blk[i].dead;
    for (i = 0; i < FDS; i++)
        x[2] += live[i];
}

static void
held (const char *e, const char *o, long a, long b, long c, long r)
{
    long x[3];

    hold (x);
    trx (e, o, a, b, c, r, 3, x);
}

/* ----------------------------------------------------------------- things -- */
typedef struct
{
    char name[32];
    const char *kind; /* its name, if there */
    long a, b;
    void *p, *q;
    int fd[2];   /* what it was given or gave */
    int far[2];  /* our ends */
} Thing;

static Thing thing[HANDLES];
static int done;

static void
taskentry (void *data)
{
    volatile char room[1024];
    int i;

    for (i = 0; i < sizeof (room); i++)
        room[i] = i;
    hev_task_yield (HEV_TASK_YIELD);
    for (i = 0; i < sizeof (room); i++)
        if (room[i] != (char)i)
            trcrash (-6, 0);
    done = *(int *)data;
}

static void
callentry (HevTaskCall *c)
{
    hev_task_yield (HEV_TASK_YIELD);
    hev_task_call_set_retval (c, &done);
}

static int
yielder (HevTaskYieldType type, void *data)
{
    return ++*(int *)data > 100;
}

static void
pair (int *v)
{
    if (__real_socketpair (AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, v))
        abort ();
}

/* 1: it works */
static int
stage (HevTaskCIO *c, int far, int peek)
{
    char a[8], b[8];
    int n = 0;

    if (write (far, "abcdef", 6) != 6)
        abort ();
    if (peek && (hev_task_cio_buffer_peek (HEV_TASK_CIO_BUFFER (c), a, 1) != 1 || a[0] != 'a'))
        return 0;
    if (hev_task_cio_read_exact (c, b, 6, yielder, &n) != 6 || memcmp (b, "abcdef", 6))
        return 0;
    if (hev_task_cio_write_exact (c, "uvwxyz", 6, yielder, &n) != 6)
        return 0;
    if (hev_task_cio_flush (c, yielder, &n) < 0)
        return 0;
    return read (far, b, 6) == 6 && !memcmp (b, "uvwxyz", 6);
}

static int
works (Thing *t)
{
    char buf[64];
    int n = 0, v = 4711, p[2];

    if (!strcmp (t->kind, "task")) {
        done = 0;
        hev_task_ref (t->p);
        hev_task_run (t->p, taskentry, &v);
        while (!done && n++ < 100)
            hev_task_yield (HEV_TASK_YIELD);
        while (hev_task_get_state (t->p) != HEV_TASK_STOPPED && n++ < 100)
            hev_task_yield (HEV_TASK_YIELD);
        return done == v;
    }
    if (!strcmp (t->kind, "call"))
        return hev_task_call_jump (t->p, callentry) == &done;
    if (!strcmp (t->kind, "chan")) {
        if (!t->b || !t->a)
            return 1;
        return hev_task_channel_write (t->p, "Q", 1) == 1 && hev_task_channel_read (t->q, buf, 1) == 1 &&
               buf[0] == 'Q' && hev_task_channel_write (t->q, "R", 1) == 1 &&
               hev_task_channel_read (t->p, buf, 1) == 1 && buf[0] == 'R';
    }
    if (!strcmp (t->kind, "sel"))
        return !hev_task_channel_select_read (t->p, 0) && !hev_task_channel_select_write (t->p, 0);
    if (!strcmp (t->kind, "ring")) {
        struct iovec v[2];
        size_t sum = 0;
        int i;

        n = hev_circular_buffer_writing (t->p, v);
        for (i = 0; i < n; i++) {
            memset (v[i].iov_base, 0x5a, v[i].iov_len);
            sum += v[i].iov_len;
        }
        hev_circular_buffer_write_finish (t->p, sum);
        hev_circular_buffer_read_finish (t->p, sum);
        return sum == t->a && hev_circular_buffer_get_max_size (t->p) == t->a;
    }
    if (!strcmp (t->kind, "cnull")) {
        n = 0;
        return hev_task_cio_write (t->p, "abc", 3, yielder, &n) == 3;
    }
    if (!strcmp (t->kind, "cfd") || !strcmp (t->kind, "csock"))
        return stage (t->p, t->far[0], 0);
    if (!strcmp (t->kind, "cbuf")) {
        HevTaskCIO *c, *low;
        int r;

        pair (p);
        low = HEV_TASK_CIO (hev_task_cio_fd_new (p[0], p[0]));
        hev_object_ref (HEV_OBJECT (t->p)); /* taken away below */
        c = hev_task_cio_push (t->p, low);
        r = stage (c, p[1], t->a);
        if (hev_task_cio_pop (c) != low)
            return 0;
        hev_object_unref (HEV_OBJECT (low));
        __real_close (p[1]);
        return r;
    }
    /* descriptors do not block */
    for (n = 0; n < 2; n++)
        if (t->fd[n] >= 0 && !(__real_fcntl (t->fd[n], F_GETFL, 0) & O_NONBLOCK))
            return 0;
    if (!strcmp (t->kind, "pipe") || !strcmp (t->kind, "pair"))
        return write (t->fd[1], "S", 1) == 1 && read (t->fd[0], buf, 2) == 1 && buf[0] == 'S';
    return 1;
}

static void
donate (Thing *t, int n)
{
    int v[2];

    pair (v);
    live[v[0]] = 1;
    t->fd[0] = t->fd[1] = v[0];
    t->far[0] = v[1];
    if (n > 1) {
        t->fd[1] = __real_dup (v[0]);
        live[t->fd[1]] = 1;
    }
}

static int
make (Thing *t, int h, int *given)
{
    char path[512];
    int lst = -1, v[2] = { -1, -1 }, r = 0;
    struct sockaddr_un sa = { AF_UNIX };
    socklen_t sl = sizeof (sa);

    t->fd[0] = t->fd[1] = t->far[0] = t->far[1] = -1;
    t->p = t->q = NULL;
    *given = 0;
    if (!strcmp (t->kind, "cfd")) {
        donate (t, t->a + 1);
        *given = t->a + 1;
    } else if (!strcmp (t->kind, "csock")) {
        donate (t, 1);
        *given = 1;
    } else if (!strncmp (t->kind, "dup", 3)) {
        pair (v);
    } else if (!strcmp (t->kind, "accept")) {
        lst = __real_socket (AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0);
        bind (lst, (void *)&sa, sizeof (sa_family_t)); /* a name of its own */
        listen (lst, 4);
        getsockname (lst, (void *)&sa, &sl);
        v[0] = __real_socket (AF_UNIX, SOCK_STREAM, 0);
        if (connect (v[0], (void *)&sa, sl) < 0)
            abort ();
    }
    snprintf (path, sizeof (path), "%s/f%d", dir, h);

    held ("call", "new", h, *given, 0, 0);
    inside = 1;
    if (!strcmp (t->kind, "task"))
        t->p = hev_task_new (t->a);
    else if (!strcmp (t->kind, "call"))
        t->p = hev_task_call_new (t->a + sizeof (HevTaskCall), t->b);
    else if (!strcmp (t->kind, "chan"))
        r = t->b ? hev_task_channel_new_with_buffers ((void *)&t->p, (void *)&t->q, t->a, t->b)
                 : hev_task_channel_new ((void *)&t->p, (void *)&t->q);
    else if (!strcmp (t->kind, "sel"))
        t->p = hev_task_channel_select_new ();
    else if (!strcmp (t->kind, "ring"))
        t->p = hev_circular_buffer_new (t->a);
    else if (!strcmp (t->kind, "cfd"))
        t->p = hev_task_cio_fd_new (t->fd[0], t->fd[1]);
    else if (!strcmp (t->kind, "csock"))
        t->p = hev_task_cio_socket_new (AF_UNIX, t->fd[0]);
    else if (!strcmp (t->kind, "cnull"))
        t->p = hev_task_cio_null_new ();
    else if (!strcmp (t->kind, "cbuf"))
        t->p = hev_task_cio_buffer_new (t->a, t->b);
    else if (!strcmp (t->kind, "pipe"))
        r = hev_task_io_pipe_pipe (t->fd);
    else if (!strcmp (t->kind, "pair"))
        r = hev_task_io_socket_socketpair (AF_UNIX, SOCK_STREAM, 0, t->fd);
    else if (!strcmp (t->kind, "sock"))
        r = t->fd[0] = hev_task_io_socket_socket (t->a ? AF_UNIX : AF_INET, t->b ? SOCK_DGRAM : SOCK_STREAM, 0);
    else if (!strcmp (t->kind, "dup"))
        r = t->fd[0] = hev_task_io_dup (v[0]);
    else if (!strcmp (t->kind, "dup2"))
        r = t->fd[0] = hev_task_io_dup2 (v[0], 700 + h);
    else if (!strcmp (t->kind, "open"))
        r = t->fd[0] = hev_task_io_open (path, O_CREAT | O_RDWR, 0600);
    else if (!strcmp (t->kind, "openat"))
        r = t->fd[0] = hev_task_io_openat (AT_FDCWD, path, O_CREAT | O_RDWR, 0600);
    else if (!strcmp (t->kind, "creat"))
        r = t->fd[0] = hev_task_io_creat (path, 0600);
    else if (!strcmp (t->kind, "accept"))
        r = t->fd[0] = hev_task_io_socket_accept (lst, NULL, NULL, NULL, NULL);
    else
        abort ();
    inside = 0;
    if (t->fd[0] < 0 && t->fd[1] < 0 && !strcmp (t->kind, "chan"))
        r = r < 0 ? -1 : 0;
    else if (t->p)
        r = 0;
    else if (t->fd[0] < 0 || *given)
        r = -1;

    if (lst >= 0) {
        __real_close (lst);
        t->far[0] = v[0];
    } else if (v[0] >= 0) {
        __real_close (v[0]);
        __real_close (v[1]);
    }
    return r < 0 ? -1 : 0;
}

static void
drop (Thing *t)
{
    int i;

    inside = 1;
    if (!strcmp (t->kind, "task")) {
        hev_task_unref (t->p);
    } else if (!strcmp (t->kind, "call")) {
        hev_task_call_destroy (t->p);
    } else if (!strcmp (t->kind, "chan")) {
        hev_task_channel_destroy (t->p);
        hev_task_channel_destroy (t->q);
    } else if (!strcmp (t->kind, "sel")) {
        hev_task_channel_select_destroy (t->p);
    } else if (!strcmp (t->kind, "ring")) {
        hev_circular_buffer_unref (t->p);
    } else if (t->kind[0] == 'c' && t->p) {
        hev_object_unref (HEV_OBJECT (t->p));
    } else {
        for (i = 0; i < 2; i++)
            if (t->fd[i] >= 0)
                close (t->fd[i]);
    }
    inside = 0;
    for (i = 0; i < 2; i++)
        if (t->far[i] >= 0)
            __real_close (t->far[i]);
    t->kind = NULL;
}

/* forwards between two pairs: 1 if all arrived, 0 if nothing, -1 else */
static int
forward (int cio, long size)
{
    int a[2], b[2], r, s, n = 0;
    char buf[8];

    pair (a);
    pair (b);
    if (write (a[1], "forth", 5) != 5 || write (b[1], "back", 4) != 4)
        abort ();
    shutdown (a[1], SHUT_WR);
    if (cio) {
        HevTaskCIO *x, *y;

        live[a[0]] = live[b[0]] = 1;
        x = HEV_TASK_CIO (hev_task_cio_fd_new (a[0], a[0]));
        y = HEV_TASK_CIO (hev_task_cio_fd_new (b[0], b[0]));
        if (size & 1)
            x = hev_task_cio_push (HEV_TASK_CIO (hev_task_cio_buffer_new (size, size)), x);
        held ("call", "once", 0, 0, 0, 0);
        inside = 1;
        hev_task_cio_splice (x, y, size, yielder, &n);
        inside = 0;
        held ("ret", "once", 0, 0, 0, 0);
        hev_object_unref (HEV_OBJECT (x));
        hev_object_unref (HEV_OBJECT (y));
    } else {
        held ("call", "once", 0, 0, 0, 0);
        inside = 1;
        hev_task_io_splice (a[0], a[0], b[0], b[0], size, yielder, &n);
        inside = 0;
        held ("ret", "once", 0, 0, 0, 0);
        __real_close (a[0]);
        __real_close (b[0]);
    }
    r = read (b[1], buf, 8);
    s = read (a[1], buf, 8);
    __real_close (a[1]);
    __real_close (b[1]);
    return r == 5 ? 1 : r <= 0 && s <= 0 ? 0 : -1;
}

static void
entry (void *data)
{
    char op[32];
    unsigned long a[8];
    int i, r, given;

    for (i = 0; i < nlines; i++) {
        memset (a, 0, sizeof (a));
        trargs (lines[i], op, a, 8);
        asked = at = 0;
        if (!strcmp (op, "use")) {
            if (!thing[a[0]].kind)
                continue;
            held ("call", "use", a[0], 0, 0, 0);
            r = works (&thing[a[0]]);
            held ("ret", "use", a[0], 0, 0, r);
        } else if (!strcmp (op, "del")) {
            if (!thing[a[0]].kind)
                continue;
            held ("call", "del", a[0], 0, 0, 0);
            drop (&thing[a[0]]);
            held ("ret", "del", a[0], 0, 0, 0);
        } else if (!strcmp (op, "splice") || !strcmp (op, "csplice")) {
            at = a[1];
            r = forward (op[0] == 'c', a[0]);
            trv ("op", "moved", r, 0, 0, 0);
        } else { /* kind: handle, two numbers, request to refuse */
            Thing *t = &thing[a[0]];

            if (t->kind)
                continue;
            strcpy (t->name, op);
            t->kind = t->name;
            t->a = a[1];
            t->b = a[2];
            at = a[3];
            r = make (t, a[0], &given);
            held ("ret", "new", a[0], given, a[4], r);
            if (r < 0) {
                int k;

                for (k = 0; k < 2; k++) {
                    if (given && t->fd[k] >= 0 && (k == 0 || t->fd[1] != t->fd[0]))
                        close (t->fd[k]);
                    if (t->far[k] >= 0)
                        __real_close (t->far[k]);
                }
                t->kind = NULL;
                if (given)
                    held ("op", "back", a[0], given, 0, 0);
            }
        }
        mem_check_all ();
    }
    for (i = 0; i < HANDLES; i++)
        if (thing[i].kind) {
            held ("call", "del", i, 0, 0, 0);
            drop (&thing[i]);
            held ("ret", "del", i, 0, 0, 0);
        }
}

static void
trscript (char **line, int n)
{
    HevTask *t;

    signal (SIGPIPE, SIG_IGN);
    dir = getenv ("RDRV_DIR");
    lines = line;
    nlines = n;
    if (hev_task_system_init () < 0)
        trcrash (-1, 0);
    t = hev_task_new (262144);
    hev_task_run (t, entry, NULL);
    hev_task_system_run ();
    hev_task_system_fini ();
    held ("op", "end", 0, 0, 0, 0);
}

int
main (int argc, char **argv)
{
    return trmain (argc, argv);
}
