/* Driver of objects and stages: creating, referencing, stacking, using and
   releasing them in any order. */
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/un.h>

#include <hev-task.h>
#include <hev-task-io.h>
#include <hev-task-cio.h>
#include <hev-task-cio-fd.h>
#include <hev-task-cio-null.h>
#include <hev-task-cio-socket.h>
#include <hev-task-cio-buffer.h>
#include <hev-task-system.h>
#include <hev-object.h>
#include <hev-object-atomic.h>

#include "mem.h"

#define OBJS 64
#define FDS 16

enum { READ, WRITE, READV, WRITEV, READ_D, WRITE_D, READV_D, WRITEV_D, FLUSH, GETFD, METHODS };

/* ----------------------------------------------------------- descriptors -- */
static int fds[FDS]; /* 2i and 2i+1 are connected */
static int nfds;
static char ways[FDS]; /* s: stream socket, p: pipe, u: datagram, 4, 6 */
static struct sockaddr_storage addrs[FDS];
static socklen_t alens[FDS];
static int logging;

int __real_close (int fd);

int
__wrap_close (int fd)
{
    int i;

    if (logging) {
        for (i = 0; i < nfds; i++)
            if (fds[i] == fd) {
                trv ("sys", "close", i, 0, 0, 0);
                fds[i] = -1;
                return __real_close (fd);
            }
        trv ("sys", "close", -1, 0, 0, 0);
        return -1;
    }
    return __real_close (fd);
}

static void
nonblock (int fd)
{
    fcntl (fd, F_SETFL, fcntl (fd, F_GETFL) | O_NONBLOCK);
}

static void
pairs (char way)
{
    int p[2], i, k = nfds;

    if (way == 'p') {
        if (pipe (p) < 0)
            _exit (97);
    } else if (way == '4' || way == '6') {
        for (i = 0; i < 2; i++) {
            struct sockaddr_in a4 = { .sin_family = AF_INET, .sin_addr.s_addr = htonl (INADDR_LOOPBACK) };
            struct sockaddr_in6 a6 = { .sin6_family = AF_INET6, .sin6_addr = IN6ADDR_LOOPBACK_INIT };
            void *a = way == '4' ? (void *)&a4 : (void *)&a6;

            p[i] = socket (way == '4' ? AF_INET : AF_INET6, SOCK_DGRAM, 0);
            alens[k + i] = way == '4' ? sizeof (a4) : sizeof (a6);
            if (p[i] < 0 || bind (p[i], a, alens[k + i]) < 0 ||
                getsockname (p[i], (void *)&addrs[k + i], &alens[k + i]) < 0)
                _exit (97);
        }
    } else {
        if (socketpair (AF_UNIX, way == 'u' ? SOCK_DGRAM : SOCK_STREAM, 0, p) < 0)
            _exit (97);
    }
    nonblock (p[0]);
    nonblock (p[1]);
    /* far from those of the process */
    fds[k] = fcntl (p[0], F_DUPFD, 100);
    fds[k + 1] = fcntl (p[1], F_DUPFD, 100);
    close (p[0]);
    close (p[1]);
    ways[k] = ways[k + 1] = way;
    nfds += 2;
}

/* bytes waiting at each descriptor */
static void
waiting (long *u)
{
    int i;

    for (i = 0; i < nfds; i++) {
        int n = -1;
        if (ways[i] == 'p' && i % 2)
            n = 0; /* writing end */
        else if (fds[i] >= 0 && ioctl (fds[i], FIONREAD, &n) < 0)
            n = -1;
        u[i] = n;
    }
}

/* --------------------------------------------------------------- stages -- */
typedef struct
{
    HevTaskCIO base;
    int id;
    int knows; /* operations it answers itself */
} Probe;

static void *objs[OBJS];
static long hits[8];
static int nhits;

static long
hit (HevTaskCIO *base, int m)
{
    Probe *p = (Probe *)base;

    hits[nhits++ % 8] = p->id;
    base->err = 100 + m;
    return p->id;
}

#define PASS(m, f, ...)                                                        \
    if (!(((Probe *)b)->knows & (1 << m)))                                     \
        return hev_task_cio_next_##f (b, ##__VA_ARGS__);                       \
    return hit (b, m);

static ssize_t
p_read (HevTaskCIO *b, void *p, size_t n)
{
    PASS (READ, read, p, n)
}
static ssize_t
p_write (HevTaskCIO *b, const void *p, size_t n)
{
    PASS (WRITE, write, p, n)
}
static ssize_t
p_readv (HevTaskCIO *b, const struct iovec *v, int n)
{
    PASS (READV, readv, v, n)
}
static ssize_t
p_writev (HevTaskCIO *b, const struct iovec *v, int n)
{
    PASS (WRITEV, writev, v, n)
}
static ssize_t
p_read_d (HevTaskCIO *b, void *p, size_t n, void *a)
{
    PASS (READ_D, read_dgram, p, n, a)
}
static ssize_t
p_write_d (HevTaskCIO *b, const void *p, size_t n, const void *a)
{
    PASS (WRITE_D, write_dgram, p, n, a)
}
static ssize_t
p_readv_d (HevTaskCIO *b, const struct iovec *v, int n, void *a)
{
    PASS (READV_D, readv_dgram, v, n, a)
}
static ssize_t
p_writev_d (HevTaskCIO *b, const struct iovec *v, int n, const void *a)
{
    PASS (WRITEV_D, writev_dgram, v, n, a)
}
static long
p_ctrl (HevTaskCIO *b, int ctrl, long l, void *p)
{
    int m = ctrl == HEV_TASK_CIO_CTRL_FLUSH ? FLUSH : GETFD;

    if (!(((Probe *)b)->knows & (1 << m)))
        return hev_task_cio_next_ctrl (b, ctrl, l, p);
    return hit (b, m);
}

static void
p_destruct (HevObject *o)
{
    trv ("note", "gone", ((Probe *)o)->id, 0, 0, 0);
    HEV_TASK_CIO_TYPE->destruct (o);
    free (o);
}

static HevTaskCIOClass probe_class, plain_class;

static void *
probe_new (int id, int knows)
{
    Probe *p = calloc (1, sizeof (*p));
    HevTaskCIOClass *k = &probe_class;

    if (!k->base.name) {
        memcpy (k, HEV_TASK_CIO_TYPE, sizeof (*k));
        k->base.name = "Probe";
        k->base.destruct = p_destruct;
        k->read = p_read;
        k->write = p_write;
        k->readv = p_readv;
        k->writev = p_writev;
        k->read_dgram = p_read_d;
        k->write_dgram = p_write_d;
        k->readv_dgram = p_readv_d;
        k->writev_dgram = p_writev_d;
        k->ctrl = p_ctrl;
    }
    hev_task_cio_construct (&p->base);
    HEV_OBJECT (p)->klass = HEV_OBJECT_CLASS (k);
    p->id = id;
    p->knows = knows;
    return p;
}

/* a derived type that changes nothing but the release */
static void *
plain_new (int id)
{
    Probe *p = calloc (1, sizeof (*p));
    HevTaskCIOClass *k = &plain_class;

    if (!k->base.name) {
        memcpy (k, HEV_TASK_CIO_TYPE, sizeof (*k));
        k->base.name = "Plain";
        k->base.destruct = p_destruct;
    }
    hev_task_cio_construct (&p->base);
    HEV_OBJECT (p)->klass = HEV_OBJECT_CLASS (k);
    p->id = id;
    return p;
}

/* -------------------------------------------------------- plain objects -- */
typedef struct
{
    HevObjectAtomic base;
    int id;
    int level;
    int left;
} Thing;

/* types derived one from the other; each releases what it added */
#define LEVELS 4
static HevObjectClass thing_class[2][LEVELS];

static void
thing_destruct (HevObject *o, int atomic, int level)
{
    Thing *t = (Thing *)o;

    if (t->left != level)
        trcrash (-4, t->id);
    t->left--;
    trv ("note", "level", t->id, level, 0, 0);
    if (level) {
        thing_class[atomic][level - 1].destruct (o);
        return;
    }
    (atomic ? HEV_OBJECT_ATOMIC_TYPE : HEV_OBJECT_TYPE)->destruct (o);
    trv ("note", "gone", t->id, 0, 0, 0);
    free (t);
}
#define TD(a, l)                                                               \
    static void td##a##l (HevObject *o)                                        \
    {                                                                          \
        thing_destruct (o, a, l);                                              \
    }
TD (0, 0) TD (0, 1) TD (0, 2) TD (0, 3) TD (1, 0) TD (1, 1) TD (1, 2) TD (1, 3)

static void *
thing_iface (HevObject *o, void *what)
{
    return (char *)what + ((Thing *)o)->id;
}

static void *
thing_new (int id, int atomic, int level)
{
    static void (*td[2][LEVELS]) (HevObject *) = { { td00, td01, td02, td03 }, { td10, td11, td12, td13 } };
    Thing *t = calloc (1, sizeof (*t));
    int i;

    for (i = 0; i < LEVELS; i++) {
        HevObjectClass *k = &thing_class[atomic][i];
        if (!k->name) {
            memcpy (k, i ? &thing_class[atomic][i - 1] : atomic ? HEV_OBJECT_ATOMIC_TYPE : HEV_OBJECT_TYPE, sizeof (*k));
            k->name = "Thing";
            k->destruct = td[atomic][i];
            k->iface = thing_iface;
        }
    }
    if ((atomic ? hev_object_atomic_construct (&t->base) : hev_object_construct (&t->base.base)) < 0)
        trcrash (-1, 0);
    HEV_OBJECT (t)->klass = &thing_class[atomic][level];
    t->id = id;
    t->level = t->left = level;
    return t;
}

/* ----------------------------------------------------------------- use -- */
static struct iovec *
two (unsigned char *p, long n)
{
    static struct iovec v[2];

    v[0].iov_base = p;
    v[0].iov_len = n / 3;
    v[1].iov_base = p + n / 3;
    v[1].iov_len = n - n / 3;
    return v;
}

static int
never (HevTaskYieldType type, void *data)
{
    return 1;
}

static void
use (int h, int m, long n, int to)
{
    static unsigned char buf[65536];
    static struct sockaddr_storage from;
    HevTaskCIO *s = objs[h];
    long x[8 + FDS * 2], r = 0;
    int i, bad = 0, got = -1;

    memset (hits, 0, sizeof (hits));
    nhits = 0;
    memset (x, 0, sizeof (x));
    memset (&from, 0, sizeof (from));
    waiting (x + 8);
    for (i = 0; i < nfds; i++) {
        struct pollfd p = { fds[i], POLLOUT, 0 };
        if (fcntl (fds[i], F_GETFD) >= 0 && (fcntl (fds[i], F_GETFL) & O_ACCMODE) != O_RDONLY && poll (&p, 1, 0) == 0)
            x[4] |= 1 << i;
    }
    if (m == WRITE || m == WRITEV || m == WRITE_D || m == WRITEV_D)
        for (i = 0; i < n; i++)
            buf[i] = i * 7 + m + h;
    else
        memset (buf, 0xee, sizeof (buf));
    switch (m) {
    case READ:
        r = hev_task_cio_read (s, buf, n, never, NULL);
        break;
    case WRITE:
        r = hev_task_cio_write (s, buf, n, never, NULL);
        break;
    case READV:
        r = hev_task_cio_readv (s, two (buf, n), 2, never, NULL);
        break;
    case WRITEV:
        r = hev_task_cio_writev (s, two (buf, n), 2, never, NULL);
        break;
    case READ_D:
        r = hev_task_cio_read_dgram (s, buf, n, &from, never, NULL);
        break;
    case WRITE_D:
        r = hev_task_cio_write_dgram (s, buf, n, to >= 0 ? &addrs[to] : NULL, never, NULL);
        break;
    case READV_D:
        r = hev_task_cio_readv_dgram (s, two (buf, n), 2, &from, never, NULL);
        break;
    case WRITEV_D:
        r = hev_task_cio_writev_dgram (s, two (buf, n), 2, to >= 0 ? &addrs[to] : NULL, never, NULL);
        break;
    case FLUSH:
        r = hev_task_cio_flush (s, never, NULL);
        break;
    case GETFD:
        r = hev_task_cio_get_fd (s, n);
        for (i = 0; i < nfds; i++)
            if (r >= 0 && fds[i] == r) {
                r = 1000 + i;
                break;
            }
        break;
    }
    if (s->err == EAGAIN && r == -2)
        r = -3;
    /* data comes from "feed", whose bytes tell their number */
    if (!nhits && r > 0 && (m == READ || m == READV || m == READ_D || m == READV_D)) {
        for (i = 1; i < r; i++)
            if (buf[i] != (unsigned char)(buf[0] + i))
                bad = 1;
        for (i = r; i < n; i++)
            if (buf[i] != 0xee)
                bad = 1;
        if (m == READ_D || m == READV_D)
            for (i = 0; i < nfds; i++)
                if (alens[i] && !memcmp (&from, &addrs[i], alens[i]))
                    got = i;
    }
    if (bad)
        trcrash (-6, h);
    x[0] = nhits;
    x[1] = hits[0];
    x[2] = s->err;
    x[3] = got;
    waiting (x + 8 + FDS);
    trx ("op", "use", h, m, n, r, 8 + FDS * 2, x);
}

/* what was written can be read at the other end */
static void
drain (int f, long n)
{
    static unsigned char buf[65536];
    long r = read (fds[f], buf, n ? n : sizeof (buf));
    long i;

    for (i = 0; i < r; i++)
        if (buf[i] != (unsigned char)(buf[0] + i * 7))
            trcrash (-6, f);
    trv ("op", "drain", f, 0, 0, r);
}

static void
feed (int f, long n)
{
    static unsigned char buf[65536];
    static unsigned char seq;
    long i;
    int to = f ^ 1;

    for (i = 0; i < n; i++)
        buf[i] = seq + i;
    seq += n;
    if (alens[to])
        i = sendto (fds[f], buf, n, 0, (void *)&addrs[to], alens[to]);
    else
        i = write (fds[f], buf, n);
    trv ("op", "feed", f, 0, 0, i);
}

static void
trscript (char **line, int n)
{
    unsigned long a[16];
    char op[32];
    int i, h, k;

    if (hev_task_system_init () < 0)
        trcrash (-1, 0);
    for (i = 0; i < n; i++) {
        memset (a, 0, sizeof (a));
        k = trargs (line[i], op, a, 16);
        h = a[0];
        if (!strcmp (op, "pair")) {
            pairs (a[0]);
            continue;
        }
        if (!strcmp (op, "feed")) {
            feed (a[0], a[1]);
            continue;
        }
        if (!strcmp (op, "drain")) {
            drain (a[0], a[1]);
            continue;
        }
        if (!strcmp (op, "fill")) {
            static char fill[700];
            while (write (fds[a[0]], fill, sizeof (fill)) > 0)
                ;
            while (write (fds[a[0]], fill, 1) > 0)
                ;
            continue;
        }
        if (!strcmp (op, "rest")) {
            static char rest[65536];
            while (read (fds[a[0]], rest, sizeof (rest)) > 0)
                ;
            continue;
        }
        if (!strcmp (op, "use")) {
            use (h, a[1], a[2], k > 3 ? (int)a[3] : -1);
            continue;
        }
        mem_log = logging = 1;
        if (!strcmp (op, "new")) {
            int fi = a[2], fo = a[3];
            int b0 = mem_n;

            mem_log = 0;
            switch (a[1]) {
            case 'P':
                objs[h] = probe_new (h, a[2]);
                break;
            case 'p':
                objs[h] = plain_new (h);
                break;
            case 'b':
                objs[h] = hev_task_cio_buffer_new (a[2], a[3]);
                break;
            case 'n':
                objs[h] = hev_task_cio_null_new ();
                break;
            case 'f':
                objs[h] = hev_task_cio_fd_new (fi < 0 ? -1 : fds[fi], fo < 0 ? -1 : fds[fo]);
                break;
            case 's':
                objs[h] = hev_task_cio_socket_new (ways[fi] == '4' ? AF_INET : ways[fi] == '6' ? AF_INET6 : AF_UNIX,
                                                   fds[fi]);
                break;
            case 'o':
                objs[h] = thing_new (h, 0, a[2]);
                break;
            case 'a':
                objs[h] = thing_new (h, 1, a[2]);
                break;
            }
            a[4] = b0;
            a[5] = mem_n;
            trx ("op", "new", h, a[1], 0, objs[h] != NULL, 4, (long *)a + 2);
        } else if (!strcmp (op, "ref")) {
            hev_object_ref (objs[h]);
            trv ("op", "ref", h, 0, 0, 0);
        } else if (!strcmp (op, "unref")) {
            hev_object_unref (objs[h]);
            trv ("op", "unref", h, 0, 0, 0);
        } else if (!strcmp (op, "push")) {
            void *p = hev_task_cio_push (objs[h], objs[a[1]]);
            trv ("op", "push", h, a[1], 0, p == objs[h]);
        } else if (!strcmp (op, "pop")) {
            void *p = hev_task_cio_pop (objs[h]);
            int r = 0;

            for (k = 1; k < OBJS; k++)
                if (p && objs[k] == p)
                    r = k;
            trv ("op", "pop", h, 0, 0, p ? r ? r : -1 : 0);
        } else if (!strcmp (op, "iface")) {
            static char what[OBJS + 1];
            char *p = HEV_OBJECT_GET_IFACE (objs[h], what);
            trv ("op", "iface", h, 0, 0, p - what);
        }
        mem_log = logging = 0;
        mem_check_all ();
    }
    hev_task_system_fini ();
    mem_check_all ();
}

int
main (int argc, char **argv)
{
    return trmain (argc, argv);
}
