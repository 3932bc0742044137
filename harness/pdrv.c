/* Driver of task stacks and calls on separate stacks.  Every task executes a
   tree of nested calls; frames check their locals, registers and results. */
#include <signal.h>

#include <hev-task.h>
#include <hev-task-call.h>
#include <hev-task-system.h>
#include <hev-memory-allocator.h>

#include "mem.h"

#define TASKS 33
#define FRAMES 4000
#define EVENTS 20000
#define MARK 40

/* events are kept as numbers: stacks may be too small for printing */
typedef struct
{
    const char *e, *o;
    long a, b, c, r;
    uintptr_t lo, hi;
} Ev;

static Ev evs[EVENTS];
static int nevs;

static void
put (const char *e, const char *o, long a, long b, long c, long r, uintptr_t lo, uintptr_t hi)
{
    Ev *v = &evs[nevs];

    if (nevs == EVENTS)
        _exit (97);
    nevs++;
    v->e = e;
    v->o = o;
    v->a = a;
    v->b = b;
    v->c = c;
    v->r = r;
    v->lo = lo;
    v->hi = hi;
}

static void
flush (void)
{
    int i;

    for (i = 0; i < nevs; i++) {
        Ev *v = &evs[i];
        long x[4] = { v->lo >> 24, v->lo & 0xffffff, v->hi >> 24, v->hi & 0xffffff };
        trx (v->e, v->o, v->a, v->b, v->c, v->r, v->hi ? 4 : 0, x);
    }
    nevs = 0;
}

/* ---------------------------------------------------------------- frames -- */
typedef struct
{
    volatile unsigned char *p;
    int t;
} Mark;

static Mark marks[FRAMES]; /* of live frames */
static int nframes;

static unsigned char
pat (int f, int i)
{
    unsigned x = (f * 131 + i) * 2654435761u;
    return x >> 19;
}

static int
intact (int f)
{
    int i;

    for (i = 0; i < MARK; i++)
        if (marks[f].p[i] != pat (f, i))
            return 0;
    return 1;
}

typedef struct
{
    char op;
    long a[3];
} Op;

typedef struct
{
    HevTask *task;
    int size, alive, runs;
    Op *ops;
    int n, at;
    uintptr_t top;
} Prog;

static Op ops[TR_LINES];
static Prog prog[TASKS];

#ifdef __x86_64__
/* fn (arg) with known contents in all registers a call has to preserve;
   returns how many of them changed */
long regcall (void (*fn) (void *), void *arg, long seed);
__asm__ (".text\n.globl regcall\n.type regcall,@function\nregcall:\n"
         "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
         "sub $24,%rsp\nmov %rdx,(%rsp)\nmov %rsp,8(%rsp)\n"
         "mov %rdi,%rax\nmov %rsi,%rdi\n"
         "lea 1(%rdx),%rbx\nlea 2(%rdx),%rbp\nlea 3(%rdx),%r12\n"
         "lea 4(%rdx),%r13\nlea 5(%rdx),%r14\nlea 6(%rdx),%r15\n"
         "call *%rax\n"
         "xor %eax,%eax\nmov (%rsp),%rdx\n"
         "lea 1(%rdx),%rcx\ncmp %rcx,%rbx\nje 1f\ninc %eax\n1:\n"
         "lea 2(%rdx),%rcx\ncmp %rcx,%rbp\nje 1f\ninc %eax\n1:\n"
         "lea 3(%rdx),%rcx\ncmp %rcx,%r12\nje 1f\ninc %eax\n1:\n"
         "lea 4(%rdx),%rcx\ncmp %rcx,%r13\nje 1f\ninc %eax\n1:\n"
         "lea 5(%rdx),%rcx\ncmp %rcx,%r14\nje 1f\ninc %eax\n1:\n"
         "lea 6(%rdx),%rcx\ncmp %rcx,%r15\nje 1f\ninc %eax\n1:\n"
         "cmp %rsp,8(%rsp)\nje 1f\ninc %eax\n1:\n"
         "add $24,%rsp\npop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\n"
         "ret\n.size regcall,.-regcall\n");
#else
static long
regcall (void (*fn) (void *), void *arg, long seed)
{
    fn (arg);
    return 0;
}
#endif

static long body (int t, int f);
static void task_entry (void *data);

static void
do_yield (void *a)
{
    hev_task_yield ((long)a);
}

static void
do_sleep (void *a)
{
    hev_task_usleep ((long)a);
}

/* a call and the space in front of its stack */
typedef struct
{
    HevTaskCall call;
    int t, f, size, leaf;
    long ret;
    int aligned, entered;
    void *got;
} Ctx;

/* writes below the frame down to lo, waits, and checks what no frame used */
static int __attribute__ ((noinline)) touch (uintptr_t lo, int seed, int wait)
{
    volatile unsigned char *p, *q = (volatile unsigned char *)__builtin_frame_address (0) - 320;
    volatile unsigned char *end = q - 1500;

    for (p = (volatile unsigned char *)lo; p < q; p++)
        *p = ((uintptr_t)p + seed) * 7;
    if (wait)
        hev_task_yield (HEV_TASK_YIELD);
    for (p = (volatile unsigned char *)lo; p < end; p++)
        if (*p != (unsigned char)(((uintptr_t)p + seed) * 7))
            return 0;
    return 1;
}

/* the result of frame f */
static void *
value (int f)
{
    return (void *)(f % 4 == 0 ? 0L : f % 4 == 1 ? -(long)f : f % 4 == 2 ? (long)f << 40 : f);
}

static void __attribute__ ((noinline)) call_entry (HevTaskCall *call)
{
    Ctx *x = (Ctx *)call;
    uintptr_t fa = (uintptr_t)__builtin_frame_address (0);

    x->entered++;
    x->aligned = fa % 16 == 0;
    put ("in", "call", x->t, x->f, x->size, 0, fa - x->size + 160, fa);
    if (x->leaf)
        x->ret = touch (fa - x->size + 160, x->f, 0) ? x->f : -1;
    else
        x->ret = body (x->t, x->f);
    hev_task_call_set_retval (call, value (x->f));
}

static void
do_call (void *a)
{
    Ctx *x = a;

    x->got = hev_task_call_jump (&x->call, call_entry);
}

static void
leave (int f, int t, const char *o, long r, int ok)
{
    put ("out", o, t, f, ok, r, 0, 0);
}

static int
frame (void)
{
    if (nframes == FRAMES)
        _exit (96);
    return nframes++;
}

static long __attribute__ ((noinline)) plain (int t, int f, int pad)
{
    volatile unsigned char more[pad + 16];
    int i, ok = 1;
    long r;

    for (i = 0; i < pad; i++)
        more[i] = pat (f, i + 7);
    put ("in", "fn", t, f, 0, 0, 0, 0);
    r = body (t, f);
    for (i = 0; i < pad; i++)
        ok = ok && more[i] == pat (f, i + 7);
    return ok ? r : -1;
}

static void
over (int t, int f)
{
    volatile unsigned char *p = (volatile unsigned char *)__builtin_frame_address (0) - 64;

    put ("over", "nop", t, f, 0, 0, 0, 0);
    for (;; p -= 256)
        *p = 0x99;
}

static void
on_fault (int sig, siginfo_t *si, void *uc)
{
    int i, t, ok = 1;
    uintptr_t a = (uintptr_t)si->si_addr;

    for (t = 1; t < TASKS && !(prog[t].alive && hev_task_self () == prog[t].task); t++)
        ;
    if (t == TASKS)
        _exit (95);
    flush ();
    for (i = 0; i < nframes; i++)
        if (marks[i].p && marks[i].t != t)
            ok = ok && intact (i);
    trv ("fault", "nop", t, a <= prog[t].top && prog[t].top - a < 100000000 ? prog[t].top - a : 100000000, ok, 0);
    trv ("final", "fault", 0, 0, 0, 0);
    _exit (0);
}

/* the operations of a frame up to its end; its value */
static long
body (int t, int f)
{
    volatile unsigned char mark[MARK];
    int i, ok = 1;
    long r = f, *a;
    Op *op;
    Prog *q;

    for (i = 0; i < MARK; i++)
        mark[i] = pat (f, i);
    marks[f].t = t;
    marks[f].p = mark;
    while (prog[t].at < prog[t].n && (op = &prog[t].ops[prog[t].at++])->op != ']') {
        a = op->a;
        ok = ok && marks[f].p == mark && intact (f);
        switch (op->op) {
        case 'y':
            ok = ok && !regcall (do_yield, (void *)HEV_TASK_YIELD, f * 1000003L);
            break;
        case 'w':
            ok = ok && !regcall (do_yield, (void *)HEV_TASK_WAITIO, f * 1000003L);
            break;
        case 's':
            ok = ok && !regcall (do_sleep, (void *)a[0], f * 1000003L);
            break;
        case 'f': {
            int g = frame ();
            long s = plain (t, g, a[0]);
            leave (g, t, "fn", s, s != -1);
            break;
        }
        case 'c': {
            /* base, size, leaf */
            int g = frame (), j, good;
            unsigned char *extra;
            HevTaskCall *c = hev_task_call_new (sizeof (Ctx) + a[0], a[1]);
            Ctx *x = (Ctx *)c;
            long s;

            if (!c)
                _exit (94);
            x->t = t;
            x->f = g;
            x->size = a[1];
            x->leaf = a[2];
            x->entered = 0;
            extra = (unsigned char *)(x + 1);
            for (j = 0; j < a[0]; j++)
                extra[j] = pat (g, j + 3);
            marks[g].p = NULL;
            good = !regcall (do_call, x, g * 1000003L) && x->entered == 1 && x->aligned;
            s = x->got == value (g) ? x->ret : -2;
            for (j = 0; j < a[0]; j++)
                good = good && extra[j] == pat (g, j + 3);
            if (a[2]) {
                put ("out", "call", t, g, good && s == g, s, 0, 0);
            } else {
                leave (g, t, "call", s, good);
            }
            hev_task_call_destroy (c);
            break;
        }
        case 't': /* all of the stack */
            if ((uintptr_t)mark < prog[t].top - prog[t].size || (uintptr_t)mark > prog[t].top)
                break;
            if (!touch (prog[t].top - prog[t].size + 768, f, a[0]))
                ok = 0;
            break;
        case 'n': /* another task */
            q = &prog[a[0]];
            if (q->alive || !q->n || q->runs == 3)
                break;
            if (!q->task) {
                q->task = hev_task_new (q->size);
                if (!q->task)
                    _exit (93);
                if (q->size < 0)
                    q->size = 65536;
            }
            q->alive = 1;
            q->runs++;
            q->at = 0;
            put ("run", "nop", a[0], q->size, 0, 0, 0, 0);
            hev_task_ref (q->task);
            hev_task_run (q->task, task_entry, (void *)a[0]);
            break;
        case 'd': /* forget it */
            q = &prog[a[0]];
            if (!q->task || q->alive || hev_task_get_state (q->task) != HEV_TASK_STOPPED)
                break;
            hev_task_unref (q->task);
            q->task = NULL;
            break;
        case 'x': /* leaves without returning */
            for (i = 0; i < nframes; i++)
                if (marks[i].t == t)
                    marks[i].p = NULL;
            prog[t].alive = 0;
            put ("exit", "nop", t, 0, 0, 0, 0, 0);
            hev_task_exit ();
            put ("crash", "nop", -1, t, 0, 0, 0, 0);
            break;
        case 'o':
            over (t, f);
            break;
        }
    }
    ok = ok && marks[f].p == mark && intact (f);
    marks[f].p = NULL;
    /* the value is what the frame was told when it began */
    return ok ? r : -1;
}

static void
task_entry (void *data)
{
    int t = (long)data, f = frame ();
    uintptr_t fa = (uintptr_t)__builtin_frame_address (0);
    long r;

    prog[t].top = fa;
    put ("in", "task", t, f, prog[t].size, 0, fa - prog[t].size + 512, fa);
    r = body (t, f);
    put ("out", "task", t, f, r == f && fa % 16 == 0, r, 0, 0);
    prog[t].alive = 0;
}

static void
main_entry (void *data)
{
    int i, any;

    prog[0].size = 262144;
    put ("run", "nop", 0, prog[0].size, 0, 0, 0, 0);
    task_entry (NULL);
    do {
        hev_task_yield (HEV_TASK_YIELD);
        for (any = 0, i = 1; i < TASKS; i++) {
            if (!prog[i].alive)
                continue;
            any = 1;
            if (hev_task_get_state (prog[i].task) == HEV_TASK_WAITING)
                hev_task_wakeup (prog[i].task);
        }
    } while (any);
    for (i = 1; i < TASKS; i++)
        if (prog[i].task) {
            while (hev_task_get_state (prog[i].task) != HEV_TASK_STOPPED)
                hev_task_yield (HEV_TASK_YIELD);
            hev_task_unref (prog[i].task);
        }
}

static void
trscript (char **line, int n)
{
    static unsigned char alt[65536];
    stack_t st = { .ss_sp = alt, .ss_size = sizeof (alt) };
    struct sigaction sa = { .sa_sigaction = on_fault, .sa_flags = SA_SIGINFO | SA_ONSTACK };
    int i, t = 0;
    HevTask *task;

    for (i = 0; i < n; i++) {
        if (line[i][0] == 'T') {
            int size;
            sscanf (line[i] + 1, "%d %d", &t, &size);
            if (t < 0 || t >= TASKS)
                _exit (92);
            prog[t].size = size;
            prog[t].ops = ops + i + 1;
            prog[t].n = 0;
        } else {
            sscanf (line[i], "%c %ld %ld %ld", &ops[i].op, &ops[i].a[0], &ops[i].a[1], &ops[i].a[2]);
            prog[t].n++;
            if (line[i][0] == 'o') {
                sigaltstack (&st, NULL);
                sigaction (SIGSEGV, &sa, NULL);
            }
        }
    }
    if (hev_task_system_init () < 0)
        trcrash (-1, 0);
    task = hev_task_new (262144);
    hev_task_run (task, main_entry, NULL);
    hev_task_system_run ();
    hev_task_system_fini ();
    flush ();
    mem_check_all ();
}

int
main (int argc, char **argv)
{
    return trmain (argc, argv);
}
