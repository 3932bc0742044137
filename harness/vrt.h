/*
 * Runtime shared by the task-level harness programs: event log, script
 * representation, virtual clock and the link-time stand-ins.
 *
 * All state hangs off one thread-local pointer so that several threads can
 * execute independent scripts at the same time.
 */
#ifndef VRT_H
#define VRT_H

#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

#include <hev-task.h>
#include <hev-task-call.h>
#include <hev-task-channel-select.h>
#include <hev-task-channel.h>
#include <hev-task-cond.h>
#include <hev-task-io.h>
#include <hev-task-io-pipe.h>
#include <hev-task-io-poll.h>
#include <hev-task-io-socket.h>
#include <hev-task-mutex.h>
#include <hev-task-system.h>
#include <hev-memory-allocator.h>

#define MAXT 320      /* tasks per script */
#define MAXOPS 40000  /* operations per script */
#define MAXSTEP 6000  /* script steps */
#define MAXEV 60000   /* recorded events */
#define MAXARG 36
#define MAXFD 4096    /* descriptors per script */
#define MAXRES 8

enum
{
    EV_CALL,
    EV_RET,
    EV_OP,
    EV_QUIET,
    EV_TIME,
    EV_START,
    EV_DONE,
    EV_SYSRET,
    EV_FINAL,
    EV_CRASH,
    EV_FREE,
    EV_NOTE,
};

#define OPS(X)                                                              \
    X (nop)                                                                 \
    X (yield)                                                               \
    X (waitio)                                                              \
    X (wake)                                                                \
    X (lock)                                                                \
    X (trylock)                                                             \
    X (unlock)                                                              \
    X (cwait)                                                               \
    X (ctimed)                                                              \
    X (csig)                                                                \
    X (cbc)                                                                 \
    X (sleep)                                                               \
    X (usleep)                                                              \
    X (join)                                                                \
    X (spawn)                                                               \
    X (exit)                                                                \
    X (ret)                                                                 \
    X (setprio)                                                             \
    X (getprio)                                                             \
    X (ref)                                                                 \
    X (unref)                                                               \
    X (burn)                                                                \
    X (chw)                                                                 \
    X (chr)                                                                 \
    X (chd)                                                                 \
    X (seladd)                                                              \
    X (seldel)                                                              \
    X (selr)                                                                \
    X (selw)                                                                \
    X (create)                                                              \
    X (dcheck)                                                              \
    X (rel)                                                                 \
    X (scall)                                                               \
    X (deep)                                                                \
    X (fadd)                                                                \
    X (fmod)                                                                \
    X (fdel)                                                                \
    X (fput)                                                                \
    X (fget)                                                                \
    X (fclose)                                                              \
    X (intr)                                                                \
    X (mput)                                                                \
    X (poll)                                                                \
    X (ior)                                                                 \
    X (iow)                                                                 \
    X (ioacc)                                                               \
    X (fconn)                                                               \
    X (ioconn)                                                              \
    X (iopoll)                                                              \
    X (pollerr)                                                             \
    X (splice)                                                              \
    X (mkfd)                                                                \
    X (fshut)

enum
{
#define X(n) O_##n,
    OPS (X)
#undef X
        O_COUNT
};

#define NX 34
#define NGT 16 /* descriptors whose readiness is recorded */

typedef struct
{
    int e, t, o;
    int64_t a, b, c, r;
    int nx;
    int64_t x[NX];   /* details of I/O calls */
    int p[NGT];      /* readiness of the descriptors */
    int u[NGT];      /* bytes to be read from them */
    uint8_t st[32]; /* state of the first tasks, when recorded */
} Event;

typedef struct
{
    int o;
    int64_t arg[MAXARG];
} Op;

typedef struct
{
    int t;          /* task */
    int first, cnt; /* operations */
} Cmd;

typedef struct
{
    int kind;       /* 'B' burst, 'A' advance to timer, 'D' advance by, ... */
    int first, cnt; /* commands of a burst */
    int64_t arg;
} Step;

typedef struct
{
    char id[64];
    char cfg[512]; /* extra JSON members copied to the trace */
    int ntask;     /* tasks 1..ntask */
    int freerun;
    int states;
    int keepref;
    int autorun[MAXT]; /* started before the run */
    int prio[MAXT];
    int64_t sec, nsec; /* initial clock */
    int nstep, nop, ncmd;
    int nm, nc; /* mutexes, condition variables */
    int nchan;
    struct
    {
        unsigned size, bufs;
    } chan[16];
    int nsel;
    int nfdset;
    struct
    {
        int type, sndbuf, count;
    } fdset[16];
    int gt; /* record readiness */

    /* not cleared */
    Step step[MAXSTEP];
    Cmd cmd[MAXOPS];
    Op op[MAXOPS];
} Script;

typedef struct
{
    int nev;
    int overflow;
    Event ev[MAXEV];
} Log;

#define NPAY 80000

typedef struct K
{
    Script *sc;
    Log *log;

    HevTask *task[MAXT];
    int alive[MAXT];   /* harness holds a usable pointer */
    int idle[MAXT];    /* worker waits for a command */
    int inop[MAXT];    /* worker is inside a library call */
    int started[MAXT]; /* started and not ended */
    Cmd *pend[MAXT];
    int quit[MAXT];
    int ownrefs[MAXT]; /* references owned by the script */
    HevTask *ctl;
    int ctlfd;
    int ctlgo;
    int spins; /* polls since the last event */
    int stepno;
    int closing;

    /* virtual clock and timer */
    int64_t sec, nsec;
    int tfd;
    int armed, fired;
    int64_t tsec, tnsec;
    int epfd;

    HevTaskMutex m[16];
    int holder[16];
    HevTaskCond c[16];

    HevTaskChannel *ch[32];
    int chbusy[32], chsel[32];
    int msgid;
    HevTaskChannelSelect *sel[8];
    int selown[8];

    int fd[MAXFD]; /* pairs: 2i and 2i+1 are connected */
    int nfd;
    int fdtype[MAXFD];
    int fdbusy[MAXFD];  /* in use by a call */
    int fdpoll[MAXFD];  /* polled by that many entries */
    int fdreg[MAXFD];   /* task it is registered to by the harness */
    int fdint[MAXFD];   /* ... with these events */
    int fdbad[MAXFD];   /* position unknown: not used any more */
    int64_t wpos[MAXFD], rpos[MAXFD];
    uint8_t ctlmsg[256]; /* messages that carry a descriptor */
    int alias[MAXFD];   /* what is written here stems from that descriptor */
    int64_t al_w[MAXFD], al_o[MAXFD];
    int64_t xx[NX];
    int nxx;
    int split[MAXT]; /* the call was left in between */
    uint8_t *iobuf[MAXT];
    int conn[32], nconn, connpos;

    jmp_buf out;
    int reached_end;
    int startno[MAXT];
    int intr_left;
    int creating;
    int joining[MAXT];
    int nres[MAXT];
    void *res[MAXT][MAXRES];
    uint8_t *pay[MAXT];
} K;

extern __thread K *k;

void vlog (int e, int t, int o, int64_t a, int64_t b, int64_t c, int64_t r);
void vcall (int t, int o, int64_t a, int64_t b, int64_t c);
void vret (int t, int o, int64_t a, int64_t b, int64_t c, int64_t r);
void vtime (void);
void vadvance_us (int64_t us);
void vspawn (int by, int t);
int vexec_io (int t, Op *op);
void vio_open (void);
void vio_leave (int t);
void *vio_buf (int t);
void vcrash (int t, int code, int64_t x);
#define SKIP return 0

#endif
