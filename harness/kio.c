/*
 * Descriptor operations of the task-level harness: registration, raw traffic
 * of the other side, and the library's I/O calls on position-coded streams.
 */
#include "vrt.h"

#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <stddef.h>

#include <hev-task-cio.h>
#include <hev-task-cio-buffer.h>
#include <hev-task-cio-fd.h>

#define IOMAX (1 << 17)
#define ALL (POLLIN | POLLOUT)

void *__real_malloc (size_t);

enum
{
    F_STREAM,
    F_PIPE,
    F_DGRAM,
    F_LISTEN,
    F_SEQ,
};

#define STREAM(f) (k->fdtype[f] == F_STREAM || k->fdtype[f] == F_PIPE)

void *
vio_buf (int t)
{
    if (!k->iobuf[t])
        k->iobuf[t] = __real_malloc (IOMAX + 128);
    return k->iobuf[t];
}

static void
nonblock (int fd)
{
    int on = 1;

    ioctl (fd, FIONBIO, &on);
}

static void
autobind (int fd)
{
    struct sockaddr_un a = { .sun_family = AF_UNIX };

    if (bind (fd, (void *)&a, sizeof (sa_family_t)) < 0)
        abort ();
}

void
vio_open (void)
{
    Script *s = k->sc;
    int i, j;

    for (i = 0; i < MAXFD; i++) {
        k->fd[i] = -1;
        k->alias[i] = -1;
    }
    for (i = 0; i < s->nfdset; i++) {
        for (j = 0; j < s->fdset[i].count && k->nfd + 1 < MAXFD; j++) {
            int p[2], type = s->fdset[i].type, sb = s->fdset[i].sndbuf, x;

            switch (type) {
            case F_STREAM:
            case F_DGRAM:
            case F_SEQ:
                if (socketpair (AF_UNIX,
                                type == F_STREAM ? SOCK_STREAM :
                                type == F_DGRAM  ? SOCK_DGRAM :
                                                   SOCK_SEQPACKET,
                                0, p) < 0)
                    abort ();
                for (x = 0; x < 2 && sb; x++)
                    setsockopt (p[x], SOL_SOCKET, SO_SNDBUF, &sb, sizeof (sb));
                if (type == F_DGRAM)
                    autobind (p[1]);
                break;
            case F_PIPE:
                if (pipe (p) < 0)
                    abort ();
                if (sb)
                    fcntl (p[1], F_SETPIPE_SZ, sb);
                break;
            case F_LISTEN:
                p[0] = socket (AF_UNIX, SOCK_STREAM, 0);
                autobind (p[0]);
                if (listen (p[0], 64) < 0)
                    abort ();
                p[1] = socket (AF_UNIX, SOCK_STREAM, 0);
                break;
            }
            for (x = 0; x < 2; x++) {
                nonblock (p[x]);
                k->fd[k->nfd] = p[x];
                k->fdtype[k->nfd] = type;
                k->nfd++;
            }
        }
    }
}

/* registrations made on behalf of a task end with it */
void
vio_leave (int t)
{
    int i;

    for (i = 0; i < k->nfd; i++)
        if (k->fdreg[i] == t && k->fd[i] >= 0) {
            vcall (t, O_fdel, i, 0, 0);
            vret (t, O_fdel, i, 0, 0, hev_task_del_fd (k->task[t], k->fd[i]));
            k->fdreg[i] = 0;
        }
}

/* what a program does before an I/O call: have the descriptor registered to
   itself in both directions */
static void
enrol (int t, int f)
{
    if (k->fdreg[f] == t && k->fdint[f] == ALL)
        return;
    if (!k->fdreg[f])
        hev_task_add_fd (k->task[t], k->fd[f], ALL);
    else
        hev_task_mod_fd (k->task[t], k->fd[f], ALL);
    k->fdreg[f] = t;
    k->fdint[f] = ALL;
}

/* -------------------------------------------------------------- content -- */

static uint8_t
pat (int f, int64_t i)
{
    return i * 31 + (i >> 8) * 7 + f * 101 + 13;
}

static void
put_pat (int f, uint8_t *p, int64_t pos, int64_t n)
{
    int64_t i;

    for (i = 0; i < n; i++)
        p[i] = pat (f, pos + i);
}

/* bytes read at f from position pos on */
static void
check_pat (int t, int f, const uint8_t *p, int64_t pos, int64_t n)
{
    int64_t i;
    int g = f ^ 1;

    for (i = 0; i < n; i++) {
        int64_t q = pos + i;
        uint8_t w;
        if (k->alias[g] >= 0 && q >= k->al_w[g])
            w = pat (k->alias[g], k->al_o[g] + q - k->al_w[g]);
        else
            w = pat (g, q);
        if (p[i] != w) {
            vcrash (t, -6, q);
            return;
        }
    }
}

static int
unread (int f)
{
    int n = 0;

    if (k->fd[f] < 0 || ioctl (k->fd[f], FIONREAD, &n) < 0)
        return 0;
    return n;
}

/* a transfer ended without telling how much was moved */
static void
resync (int f, int writing)
{
    int g = f ^ 1;

    if (k->fdbusy[g] || k->fd[g] < 0) {
        k->fdbad[f] = k->fdbad[g] = 1;
        return;
    }
    if (writing)
        k->wpos[f] = k->rpos[g] + unread (g);
    else
        k->rpos[f] = k->wpos[g] - unread (f);
}

/* ------------------------------------------------------------- yielder -- */

typedef struct
{
    int t, kind, left, calls, aborted, splice;
    int magic;
} Yc;

static int
yielder (HevTaskYieldType type, void *data)
{
    Yc *y = data;

    if (y->magic != 0x59c || (!y->splice && type != HEV_TASK_WAITIO)) {
        vcrash (0, -7, type);
        return 0;
    }
    y->calls++;
    k->split[y->t] = 1;
    if (y->left && --y->left == 0) {
        y->aborted = 1;
        return 1;
    }
    hev_task_yield (y->kind == 2 ? HEV_TASK_YIELD : type);
    return 0;
}

static void
detail (Yc *y, int err, int64_t e1, int64_t e2, int64_t e3)
{
    k->xx[0] = y->kind;
    k->xx[1] = y->calls;
    k->xx[2] = y->aborted;
    k->xx[3] = err;
    k->xx[4] = e1;
    k->xx[5] = e2;
    k->xx[6] = e3;
    k->nxx = 7;
}

/* splits n bytes at p into m pieces, some of them empty */
static void
split (struct iovec *v, int m, uint8_t *p, size_t n, int seed)
{
    size_t unit = 1 + (seed / 3) % 4;
    int i, even = seed % 3 == 0;

    /* where the bytes are likely to come apart: parts of the amount, or what
       a socket with the least memory takes at once */
    unit = n % unit ? (n > 4032 ? 4032 : 1) : n / unit;
    for (i = 0; i < m; i++) {
        size_t z = n;
        if (i < m - 1) {
            z = ((seed + i * 5) % 4 == 0) ? 0 : (size_t)(seed * 37 + i * 101) % (n + 1);
            if (even && z)
                z = unit < n ? unit : n;
        }
        v[i].iov_base = p;
        v[i].iov_len = z;
        p += z;
        n -= z;
    }
}

/* a stream over copies of descriptors, with a stage above it */
static HevTaskCIO *
stream (int in, int out, int stage)
{
    int i = dup (in), o = in == out ? i : dup (out);
    HevTaskCIO *s = HEV_TASK_CIO (hev_task_cio_fd_new (i, o)), *b;
    char c;

    if (!s)
        abort ();
    if (!stage)
        return s;
    b = HEV_TASK_CIO (hev_task_cio_buffer_new (stage > 1 ? 100 : 0, stage > 2 ? 50 : 0));
    if (!b)
        abort ();
    s = hev_task_cio_push (b, s);
    if (stage > 1)
        hev_task_cio_buffer_peek (HEV_TASK_CIO_BUFFER (b), &c, 1);
    return s;
}

#define PADDING 0xe7

typedef union
{
    struct cmsghdr h;
    char b[CMSG_SPACE (sizeof (int))];
} Ctl;

static void
put_control (struct msghdr *mh, Ctl *c)
{
    memset (c, 0, sizeof (*c));
    c->h.cmsg_level = SOL_SOCKET;
    c->h.cmsg_type = SCM_RIGHTS;
    c->h.cmsg_len = CMSG_LEN (sizeof (int));
    *(int *)CMSG_DATA (&c->h) = 2;
    mh->msg_control = c;
    mh->msg_controllen = sizeof (*c);
}

static void
drop_control (struct msghdr *mh)
{
    struct cmsghdr *c;

    if (mh->msg_controllen > 256)
        return;
    for (c = CMSG_FIRSTHDR (mh); c; c = CMSG_NXTHDR (mh, c))
        if (c->cmsg_type == SCM_RIGHTS && c->cmsg_len == CMSG_LEN (sizeof (int)))
            close (*(int *)CMSG_DATA (c));
}

/* ior: descriptor, count, mode, yielder kind, abort at, pieces
   modes: 0 read 1 readv 2 recv 3 recv all 4 recvfrom 5 recvfrom all
          6 recvmsg 7 recvmsg all 8 recv peek */
static int
do_read (int t, int64_t *a)
{
    int f = a[0], g = f ^ 1, mode = a[2], i, fd = k->fd[f];
    size_t n = a[1];
    Yc y = { t, a[3], a[4], 0, 0, 0, 0x59c };
    HevTaskIOYielder yf = y.kind ? yielder : NULL;
    int np = a[5] > 0 ? a[5] : 1;
    uint8_t *b = vio_buf (t);
    struct iovec v[8], w[8];
    struct msghdr mh, mo;
    struct sockaddr_un sa;
    socklen_t sl = sizeof (sa);
    char ctl[256];
    ssize_t r;
    int err = 0, named = 0, flags = 0;

    if (fd < 0 || k->fdbusy[f] || k->fdbad[f] || n > IOMAX || np > 8)
        SKIP;
    if (k->fdtype[f] == F_LISTEN || (k->fdtype[f] == F_PIPE && (f & 1)))
        SKIP;
    if (k->fdtype[f] == F_PIPE && mode > 1)
        mode &= 1;
    enrol (t, f);
    k->fdbusy[f] = 1;
    memset (b, PADDING, n + 64);
    split (v, np, b, n, (int)n + f + a[6]);
    memcpy (w, v, sizeof (v));
    memset (&mh, 0, sizeof (mh));
    mh.msg_iov = v;
    mh.msg_iovlen = np;
    mh.msg_name = &sa;
    mh.msg_namelen = sizeof (sa);
    mh.msg_control = ctl;
    mh.msg_controllen = sizeof (ctl);
    mh.msg_flags = 0x1000;
    mo = mh;
    memset (&sa, 0, sizeof (sa));
    vcall (t, O_ior, f, n, mode);
    errno = 0;
    switch (mode) {
    case 0:
        r = hev_task_io_read (fd, b, n, yf, &y);
        break;
    case 1:
        r = hev_task_io_readv (fd, v, np, yf, &y);
        break;
    case 2:
    case 3:
    case 8:
        r = hev_task_io_socket_recv (fd, b, n,
                                     mode == 3 ? MSG_WAITALL :
                                     mode == 8 ? MSG_PEEK :
                                                 0,
                                     yf, &y);
        break;
    case 4:
    case 5:
        r = hev_task_io_socket_recvfrom (fd, b, n, mode == 5 ? MSG_WAITALL : 0,
                                         (void *)&sa, &sl, yf, &y);
        break;
    default:
        r = hev_task_io_socket_recvmsg (fd, &mh, mode == 7 ? MSG_WAITALL : 0, yf,
                                        &y);
        break;
    }
    if (r == -1)
        err = errno;
    k->fdbusy[f] = 0;
    if (memcmp (v, w, np * sizeof (v[0])) || mh.msg_iov != mo.msg_iov ||
        mh.msg_iovlen != mo.msg_iovlen || mh.msg_name != mo.msg_name ||
        mh.msg_control != mo.msg_control)
        vcrash (t, -8, 0);
    for (i = 0; i < 64; i++)
        if (b[n + i] != PADDING) {
            vcrash (t, -9, 0);
            break;
        }
    if (r >= 0 && r < n) {
        for (i = r; i < n; i++)
            if (b[i] != PADDING) {
                vcrash (t, -10, i);
                break;
            }
    }
    if (STREAM (f)) {
        if (r > 0)
            check_pat (t, f, b, k->rpos[f], r);
        if (r > 0 && mode != 8)
            k->rpos[f] += r;
        if (r < 0)
            resync (f, 0);
    } else if (r > 0) {
        /* messages: number in the first byte, then a pattern */
        for (i = 1; i < r; i++)
            if (b[i] != (uint8_t)(b[0] * 3 + i * 11)) {
                vcrash (t, -6, i);
                break;
            }
    }
    if (r >= 0 && (mode == 4 || mode == 6)) {
        /* the sender's name, as the system call gives it */
        struct sockaddr_un pa;
        socklen_t pl = sizeof (pa), gl = mode == 4 ? sl : mh.msg_namelen;
        memset (&pa, 0, sizeof (pa));
        named = 2;
        if (k->fdtype[f] == F_DGRAM) {
            if (k->fd[g] >= 0 && getsockname (k->fd[g], (void *)&pa, &pl) == 0) {
                /* an unbound sender has no name */
                if (pl <= sizeof (sa_family_t))
                    pl = gl <= sizeof (sa_family_t) ? gl : 0;
                named = gl == pl && memcmp (&pa, &sa, pl) == 0;
            }
        } else {
            named = gl == 0 || gl == sizeof (sa_family_t);
        }
    }
    if (r >= 0 && mode == 6) {
        flags = mh.msg_flags & (MSG_TRUNC | MSG_CTRUNC | 0x1000);
        if ((mh.msg_controllen != 0) != (!STREAM (f) && r > 0 && k->ctlmsg[b[0]]))
            named = 0;
        drop_control (&mh);
    }
    detail (&y, err, named, flags, r > 0 && !STREAM (f) ? b[0] : 0);
    vret (t, O_ior, f, n, mode, r);
    return 0;
}

/* iow: descriptor, count, mode, yielder kind, abort at, pieces, how they are cut */
static int
do_write (int t, int64_t *a)
{
    int f = a[0], mode = a[2], i, fd = k->fd[f];
    size_t n = a[1];
    Yc y = { t, a[3], a[4], 0, 0, 0, 0x59c };
    HevTaskIOYielder yf = y.kind ? yielder : NULL;
    int np = a[5] > 0 ? a[5] : 1;
    uint8_t *b = vio_buf (t);
    struct iovec v[8], w[8];
    struct msghdr mh, mo;
    Ctl ctl;
    ssize_t r;
    int err = 0, id = 0;

    if (fd < 0 || k->fdbusy[f] || k->fdbad[f] || n > IOMAX || np > 8)
        SKIP;
    if (k->fdtype[f] == F_LISTEN || (k->fdtype[f] == F_PIPE && !(f & 1)))
        SKIP;
    if (k->fdtype[f] == F_PIPE && mode > 1)
        mode &= 1;
    /* every attempt to write to a full pipe is reported to its reading end */
    if (k->fdtype[f] == F_PIPE && k->fdreg[f ^ 1] && !k->fdbusy[f ^ 1]) {
        hev_task_del_fd (k->task[t], k->fd[f ^ 1]);
        k->fdreg[f ^ 1] = 0;
    }
    enrol (t, f);
    k->fdbusy[f] = 1;
    if (STREAM (f)) {
        put_pat (f, b, k->wpos[f], n);
    } else {
        id = ++k->msgid & 0xff;
        for (i = 0; i < n; i++)
            b[i] = i ? (uint8_t)(id * 3 + i * 11) : id;
    }
    split (v, np, b, n, (int)n + f + a[6]);
    memcpy (w, v, sizeof (v));
    memset (&mh, 0, sizeof (mh));
    mh.msg_iov = v;
    mh.msg_iovlen = np;
    /* some messages carry a descriptor */
    if (mode == 9 || (mode == 6 && n > 0 && k->fdtype[f] == F_DGRAM && id % 3 == 0))
        put_control (&mh, &ctl);
    if (!STREAM (f))
        k->ctlmsg[id] = mh.msg_controllen != 0;
    mo = mh;
    vcall (t, O_iow, f, n, mode);
    errno = 0;
    switch (mode) {
    case 0:
        r = hev_task_io_write (fd, b, n, yf, &y);
        break;
    case 1:
        r = hev_task_io_writev (fd, v, np, yf, &y);
        break;
    case 2:
    case 3:
        r = hev_task_io_socket_send (fd, b, n, mode == 3 ? MSG_WAITALL : 0, yf,
                                     &y);
        break;
    case 4:
    case 5: {
        struct sockaddr_un to;
        socklen_t tl = sizeof (to);
        /* to the bound end by name */
        if (k->fdtype[f] != F_DGRAM || (f & 1) || k->fd[f ^ 1] < 0 ||
            getsockname (k->fd[f ^ 1], (void *)&to, &tl) < 0)
            tl = 0;
        r = hev_task_io_socket_sendto (fd, b, n, mode == 5 ? MSG_WAITALL : 0,
                                       tl ? (void *)&to : NULL, tl, yf, &y);
        break;
    }
    default:
        r = hev_task_io_socket_sendmsg (fd, &mh, mode >= 7 ? MSG_WAITALL : 0, yf,
                                        &y);
        break;
    }
    if (r == -1)
        err = errno;
    k->fdbusy[f] = 0;
    if (memcmp (v, w, np * sizeof (v[0])) || memcmp (&mh, &mo, sizeof (mh)))
        vcrash (t, -8, 0);
    if (STREAM (f)) {
        if (r > 0)
            k->wpos[f] += r;
        if (r < 0)
            resync (f, 1);
    }
    detail (&y, err, 0, 0, id);
    vret (t, O_iow, f, n, mode, r);
    return 0;
}

/* ---------------------------------------------------------- connect ---- */

int __real_connect (int fd, const struct sockaddr *a, socklen_t n);

/* answers prepared by the script; each is an errno or 0 */
int
__wrap_connect (int fd, const struct sockaddr *a, socklen_t n)
{
    int e;

    if (!k || !k->nconn)
        return __real_connect (fd, a, n);
    e = k->conn[k->connpos < k->nconn ? k->connpos : k->nconn - 1];
    k->connpos++;
    if (!e)
        return 0;
    errno = e;
    return -1;
}

/* ------------------------------------------------------------------------- */

static int
io_nonblocking (int fd)
{
    int fl = fcntl (fd, F_GETFL);

    return fd >= 0 && (fl & O_NONBLOCK);
}

/* every way to obtain a descriptor from the library */
static int
make_fd (int t, int how)
{
    char dir[] = "/tmp/verif-kio-XXXXXX", path[64];
    int p[2] = { -1, -1 }, fd = -1, r = 0, i;

    if (!mkdtemp (dir))
        SKIP;
    snprintf (path, sizeof (path), "%s/f", dir);
    vcall (t, O_mkfd, how, 0, 0);
    switch (how) {
    case 0:
        p[0] = hev_task_io_open (path, O_CREAT | O_RDWR, 0600);
        break;
    case 1:
        p[0] = hev_task_io_creat (path, 0600);
        break;
    case 2: {
        int d = open (dir, O_RDONLY | O_DIRECTORY);
        p[0] = hev_task_io_openat (d, "f", O_CREAT | O_RDWR, 0600);
        if (p[0] >= 0) {
            close (p[0]);
            p[0] = hev_task_io_openat (d, "f", O_RDONLY);
        }
        close (d);
        break;
    }
    case 3:
        if (pipe (p) == 0) {
            close (p[1]);
            p[1] = hev_task_io_dup (p[0]);
        }
        break;
    case 4:
        if (pipe (p) == 0) {
            int q = dup (p[0]);
            close (p[1]);
            p[1] = hev_task_io_dup2 (p[0], q);
            if (p[1] != q)
                r = 1;
        }
        break;
    case 5:
        if (hev_task_io_pipe_pipe (p) < 0)
            r = 1;
        break;
    case 6:
        p[0] = hev_task_io_socket_socket (AF_UNIX, SOCK_STREAM, 0);
        break;
    case 7:
        if (hev_task_io_socket_socketpair (AF_UNIX, SOCK_STREAM, 0, p) < 0)
            r = 1;
        break;
    case 8:
        p[0] = hev_task_io_socket_socket (AF_INET, SOCK_DGRAM, 0);
        break;
    case 9:
        /* failures are passed on and leave nothing open */
        fd = dup (0);
        close (fd);
        if (hev_task_io_open ("/nonexistent/x", O_RDONLY) >= 0 ||
            hev_task_io_dup (-1) >= 0 || hev_task_io_dup2 (-1, fd) >= 0 ||
            hev_task_io_socket_socket (AF_UNIX, 77, 0) >= 0 ||
            hev_task_io_socket_socketpair (AF_INET, SOCK_STREAM, 0, p) >= 0)
            r = 1;
        i = dup (0);
        if (i != fd)
            r = 1;
        close (i);
        p[0] = -1;
        break;
    }
    if (how <= 2) {
        struct stat st;
        if (stat (path, &st) < 0 || (st.st_mode & 0777) != 0600)
            r = 1;
        if (how < 2 && p[0] >= 0 && write (p[0], "x", 1) != 1)
            r = 1;
        if (how == 1) {
            close (p[0]);
            p[0] = hev_task_io_creat (path, 0600);
            if (p[0] < 0 || fstat (p[0], &st) < 0 || st.st_size != 0)
                r = 1;
        }
    }
    if (how != 9 && (p[0] < 0 || !io_nonblocking (p[0])))
        r = 1;
    if ((how == 3 || how == 4 || how == 5 || how == 7) &&
        (p[1] < 0 || p[1] == p[0] || !io_nonblocking (p[1])))
        r = 1;
    vret (t, O_mkfd, how, 0, 0, r);
    for (i = 0; i < 2; i++)
        if (p[i] >= 0)
            close (p[i]);
    unlink (path);
    rmdir (dir);
    return 0;
}

static void
raw_put (int t, int f, int64_t n)
{
    uint8_t *b = vio_buf (t);
    ssize_t r = -1;

    if (k->fd[f] < 0 || k->fdbusy[f] || n > IOMAX || k->fdbad[f] ||
        (k->fdtype[f] == F_PIPE && !(f & 1)) || k->fdtype[f] == F_LISTEN)
        return;
    if (STREAM (f)) {
        put_pat (f, b, k->wpos[f], n);
        r = write (k->fd[f], b, n);
        if (r > 0)
            k->wpos[f] += r;
        vlog (EV_NOTE, t, O_fput, f, n, 0, r);
    } else {
        int i, id = ++k->msgid & 0xff;
        for (i = 0; i < n; i++)
            b[i] = i ? (uint8_t)(id * 3 + i * 11) : id;
        r = write (k->fd[f], b, n);
        vlog (EV_NOTE, t, O_fput, f, n, id, r);
    }
}

/* reads bytes and counts what comes with them */
static ssize_t
raw_get (int fd, void *b, size_t n, int *rights)
{
    struct iovec v = { b, n };
    char ctl[1024] __attribute__ ((aligned (8)));
    struct msghdr mh = { .msg_iov = &v, .msg_iovlen = 1, .msg_control = ctl, .msg_controllen = sizeof (ctl) };
    struct cmsghdr *c;
    ssize_t r = recvmsg (fd, &mh, 0);
    int *p;

    *rights = 0;
    if (r < 0)
        return r;
    for (c = CMSG_FIRSTHDR (&mh); c; c = CMSG_NXTHDR (&mh, c))
        for (p = (int *)CMSG_DATA (c); c->cmsg_type == SCM_RIGHTS && (char *)p < (char *)c + c->cmsg_len; p++) {
            close (*p);
            ++*rights;
        }
    return r;
}

int
vexec_io (int t, Op *op)
{
    int64_t *a = op->arg;
    int64_t r;
    int i;

    switch (op->o) {
    case O_fadd:
    case O_fmod:
        /* task, descriptor, events */
        if (k->fd[a[1]] < 0 || !k->alive[a[0]] || !k->started[a[0]])
            SKIP;
        vcall (t, op->o, a[0], a[1], a[2]);
        r = (op->o == O_fadd ? hev_task_add_fd : hev_task_mod_fd) (
            k->task[a[0]], k->fd[a[1]], a[2]);
        if (r == 0) {
            k->fdreg[a[1]] = a[0];
            k->fdint[a[1]] = a[2];
        }
        vret (t, op->o, a[0], a[1], a[2], r);
        break;
    case O_fdel:
        if (k->fd[a[0]] < 0)
            SKIP;
        vcall (t, O_fdel, a[0], 0, 0);
        r = hev_task_del_fd (k->task[t], k->fd[a[0]]);
        if (r == 0)
            k->fdreg[a[0]] = 0;
        vret (t, O_fdel, a[0], 0, 0, r);
        break;
    case O_fput:
        raw_put (t, a[0], a[1]);
        break;
    case O_mput:
        /* a2 descriptors from a0 in steps of 2 */
        for (i = 0; i < a[2]; i++) {
            int f = a[0] + 2 * i;
            if (f < k->nfd && k->fd[f] >= 0 &&
                write (k->fd[f], vio_buf (t), a[1]) < 0) {
            }
        }
        vlog (EV_NOTE, t, op->o, a[0], a[1], a[2], 0);
        break;
    case O_fget: {
        int f = a[0];
        if (k->fd[f] < 0 || k->fdbusy[f] || k->fdbad[f] || a[1] > IOMAX ||
            (k->fdtype[f] == F_PIPE && (f & 1)))
            SKIP;
        if (k->fdtype[f] == F_LISTEN) {
            r = accept (k->fd[f], NULL, NULL);
            if (r >= 0)
                close (r);
            vlog (EV_NOTE, t, op->o, f, a[1], 0, r >= 0 ? 0 : -1);
            break;
        }
        i = 0;
        if (k->fdtype[f] == F_STREAM)
            r = raw_get (k->fd[f], vio_buf (t), a[1], &i);
        else
            r = read (k->fd[f], vio_buf (t), a[1]);
        if (r > 0 && STREAM (f)) {
            check_pat (t, f, vio_buf (t), k->rpos[f], r);
            k->rpos[f] += r;
        }
        vlog (EV_NOTE, t, op->o, f, a[1], i, r);
        break;
    }
    case O_fclose:
        if (k->fd[a[0]] < 0 || k->fdbusy[a[0]] || k->fdpoll[a[0]])
            SKIP;
        i = unread (a[0]);
        close (k->fd[a[0]]);
        k->fd[a[0]] = -1;
        k->fdreg[a[0]] = 0;
        vlog (EV_NOTE, t, op->o, a[0], i, 0, 0);
        break;
    case O_fshut:
        /* ends writing only */
        if (k->fd[a[0]] < 0 || k->fdbusy[a[0]] || k->fdtype[a[0]] != F_STREAM)
            SKIP;
        shutdown (k->fd[a[0]], SHUT_WR);
        vlog (EV_NOTE, t, op->o, a[0], 0, 0, 0);
        break;
    case O_ior:
        return do_read (t, a);
    case O_iow:
        return do_write (t, a);
    case O_fconn: {
        struct sockaddr_un sa;
        socklen_t sl = sizeof (sa);
        int s;
        if (k->fd[a[0]] < 0 || k->fdtype[a[0]] != F_LISTEN)
            SKIP;
        getsockname (k->fd[a[0]], (void *)&sa, &sl);
        s = socket (AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0);
        i = k->nconn;
        k->nconn = 0;
        r = connect (s, (void *)&sa, sl);
        k->nconn = i;
        vlog (EV_NOTE, t, op->o, a[0], 0, 0, r);
        break;
    }
    case O_ioacc: {
        /* descriptor, yielder kind, abort at */
        Yc y = { t, a[1], a[2], 0, 0, 0, 0x59c };
        struct sockaddr_un sa;
        socklen_t sl = sizeof (sa);
        int e;
        if (k->fd[a[0]] < 0 || k->fdtype[a[0]] != F_LISTEN || k->fdbusy[a[0]])
            SKIP;
        enrol (t, a[0]);
        k->fdbusy[a[0]] = 1;
        vcall (t, O_ioacc, a[0], 0, 0);
        r = hev_task_io_socket_accept (k->fd[a[0]], (void *)&sa, &sl,
                                       y.kind ? yielder : NULL, &y);
        e = errno;
        k->fdbusy[a[0]] = 0;
        if (r >= 0) {
            if (!io_nonblocking (r) || sl != sizeof (sa_family_t))
                vcrash (t, -11, r);
            close (r);
            r = 0;
            e = 0;
        }
        detail (&y, e, 0, 0, 0);
        vret (t, O_ioacc, a[0], 0, 0, r);
        break;
    }
    case O_ioconn: {
        /* descriptor, yielder kind, abort at, answers... */
        Yc y = { t, a[1], a[2], 0, 0, 0, 0x59c };
        struct sockaddr_un sa = { .sun_family = AF_UNIX };
        int e;
        if (k->fd[a[0]] < 0 || k->fdbusy[a[0]] || k->nconn)
            SKIP;
        enrol (t, a[0]);
        k->fdbusy[a[0]] = 1;
        k->connpos = 0;
        for (i = 3; i < MAXARG && a[i]; i++)
            k->conn[i - 3] = a[i] > 0 ? a[i] : 0;
        k->nconn = i - 3;
        for (i = 0; i < k->nconn && i < NX; i++)
            k->xx[i] = k->conn[i];
        k->nxx = i;
        vlog (EV_NOTE, t, O_ioconn, a[0], 0, 0, 0);
        vcall (t, O_ioconn, a[0], k->nconn, 0);
        errno = 0;
        r = hev_task_io_socket_connect (k->fd[a[0]], (void *)&sa, sizeof (sa),
                                        y.kind ? yielder : NULL, &y);
        e = r == -1 ? errno : 0;
        k->fdbusy[a[0]] = 0;
        i = k->nconn;
        k->nconn = 0;
        detail (&y, e, k->connpos, 0, 0);
        vret (t, O_ioconn, a[0], i, 0, r);
        break;
    }
    case O_iopoll: {
        /* timeout, entries: descriptor, events */
        HevTaskIOPollFD pf[16], po[16];
        int n = 0, e;
        for (i = 0; i < 16 && a[1 + 2 * i + 1] >= 0 && a[1 + 2 * i] >= 0; i++) {
            int f = a[1 + 2 * i] - 1;
            if (f < 0)
                break;
            /* one task at a time */
            if (f < k->nfd && k->fdpoll[f])
                SKIP;
            pf[n].fd = f >= k->nfd ? -1 : k->fd[f] < 0 ? 9999 : k->fd[f];
            k->xx[2 * n] = f >= k->nfd ? -1 : f;
            k->xx[2 * n + 1] = a[2 + 2 * i];
            pf[n].events = a[2 + 2 * i];
            pf[n].revents = 0x7777;
            po[n] = pf[n];
            n++;
        }
        k->nxx = 2 * n;
        vlog (EV_NOTE, t, O_iopoll, a[0], n, 0, 0);
        for (i = 0; i < n; i++) {
            int f = a[1 + 2 * i] - 1;
            if (f >= k->nfd || k->fd[f] < 0)
                continue;
            k->fdpoll[f]++;
            if (k->fdreg[f] && k->fdreg[f] != t)
                hev_task_del_fd (k->task[t], k->fd[f]);
            k->fdreg[f] = t;
            k->fdint[f] = 0;
        }
        vcall (t, O_iopoll, a[0], n, 0);
        errno = 0;
        r = hev_task_io_poll (pf, n, a[0]);
        e = r < 0 ? errno : 0;
        for (i = 0; i < n; i++) {
            int f = a[1 + 2 * i] - 1;
            if (f < k->nfd && k->fdpoll[f])
                k->fdpoll[f]--;
        }
        for (i = 0; i < n; i++) {
            if (pf[i].fd != po[i].fd || pf[i].events != po[i].events)
                vcrash (t, -12, i);
            k->xx[i] = pf[i].revents;
        }
        k->xx[n] = e;
        k->nxx = n + 1;
        vret (t, O_iopoll, a[0], n, 0, r);
        break;
    }
    case O_pollerr: {
        /* more descriptors than allowed: the system call fails */
        HevTaskIOPollFD pf[4];
        struct rlimit old, lim;
        getrlimit (RLIMIT_NOFILE, &old);
        lim = old;
        lim.rlim_cur = 3;
        for (i = 0; i < 4; i++) {
            pf[i].fd = -1;
            pf[i].events = POLLIN;
        }
        vcall (t, O_pollerr, a[0], 0, 0);
        setrlimit (RLIMIT_NOFILE, &lim);
        errno = 0;
        r = hev_task_io_poll (pf, 4, a[0]);
        k->xx[0] = errno;
        k->nxx = 1;
        setrlimit (RLIMIT_NOFILE, &old);
        vret (t, O_pollerr, a[0], 0, 0, r);
        break;
    }
    case O_splice: {
        /* in a, out a, in b, out b, buffer, yielder kind, abort at,
           between streams: 1 + stage above a + 4 * stage above b */
        HevTaskCIO *cio[2] = { NULL, NULL };
        Yc y = { t, a[5], a[6], 0, 0, 1, 0x59c };
        for (i = 0; i < 4; i++)
            if (k->fd[a[i]] < 0 || k->fdbusy[a[i]] || k->fdbad[a[i]])
                SKIP;
        if (k->alias[a[1]] >= 0 || k->alias[a[3]] >= 0)
            SKIP;
        for (i = 0; i < 4; i++) {
            enrol (t, a[i]);
            k->fdbusy[a[i]] = 1;
        }
        /* a's input goes to b's output and the reverse */
        k->alias[a[3]] = a[0] ^ 1;
        k->al_w[a[3]] = k->wpos[a[3]];
        k->al_o[a[3]] = k->rpos[a[0]];
        k->alias[a[1]] = a[2] ^ 1;
        k->al_w[a[1]] = k->wpos[a[1]];
        k->al_o[a[1]] = k->rpos[a[2]];
        for (i = 0; i < 4; i++)
            k->xx[i] = a[i];
        k->xx[4] = (a[7] > 0) + (a[7] > 1);
        k->nxx = 5;
        vlog (EV_NOTE, t, O_splice, 0, 0, 0, 0);
        if (a[7]) {
            cio[0] = stream (k->fd[a[0]], k->fd[a[1]], (a[7] - 1) % 4);
            cio[1] = stream (k->fd[a[2]], k->fd[a[3]], (a[7] - 1) / 4);
        }
        vcall (t, O_splice, a[0], a[2], a[4]);
        if (a[7]) {
            hev_task_cio_splice (cio[0], cio[1], a[4], y.kind ? yielder : NULL, &y);
            for (i = 0; i < 2; i++)
                hev_object_unref (HEV_OBJECT (cio[i]));
        } else {
            hev_task_io_splice (k->fd[a[0]], k->fd[a[1]], k->fd[a[2]], k->fd[a[3]],
                                a[4], y.kind ? yielder : NULL, &y);
        }
        for (i = 0; i < 4; i++) {
            k->fdbusy[a[i]] = 0;
            k->fdbad[a[i]] = 1;
        }
        detail (&y, 0, 0, 0, 0);
        vret (t, O_splice, a[0], a[2], a[4], 0);
        break;
    }
    case O_mkfd:
        return make_fd (t, a[0]);
    default:
        abort ();
    }
    return 0;
}
