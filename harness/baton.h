/* Controlled threads: real threads of which one runs at a time.  The library
   is compiled with thread instrumentation; the functions its accesses call are
   defined here and are the points where another thread may go on. */
#ifndef BATON_H
#define BATON_H

#include <pthread.h>
#include <semaphore.h>
#include <stdint.h>

#ifndef SC_BARE
#include "mem.h"
#endif

#define SC_MAX 8
#ifndef SC_POINTS
#define SC_POINTS 200000
#endif
#define SC_TURN 5000 /* points of one thread in a row */

static int sc_n, sc_on;               /* threads, controlled */
static __thread int sc_me;            /* 1.. inside a controlled thread */
static sem_t sc_sem[SC_MAX + 1];
static int sc_live[SC_MAX + 1];
static int sc_daemon[SC_MAX + 1]; /* need not end */
static const int (*sc_waits[SC_MAX + 1]) (void *); /* cannot go on until this is true */
static void *sc_warg[SC_MAX + 1];
static pthread_t sc_thr[SC_MAX + 1];
static void (*sc_entry) (int);
static long sc_points, sc_turn;
/* at which points to change to which thread; afterwards the lowest */
static long sc_at[4096];
static int sc_to[4096];
static int sc_nat, sc_iat;
/* instead of the above: seeded choice with a chance of 1 in sc_rand */
static unsigned sc_seed, sc_rand;

int __real_pthread_create (pthread_t *th, const pthread_attr_t *a, void *(*fn) (void *), void *arg);
int __real_pthread_join (pthread_t th, void **res);
int __real_sem_init (sem_t *s, int shared, unsigned n);
int __real_sem_wait (sem_t *s);
int __real_sem_post (sem_t *s);
#ifndef SC_PTHREAD
#define __real_sem_init sem_init
#define __real_sem_wait sem_wait
#define __real_sem_post sem_post
#define __real_pthread_create pthread_create
#define __real_pthread_join pthread_join
#endif

static int
sc_can (int t)
{
    if (!sc_live[t])
        return 0;
    if (sc_waits[t] && !sc_waits[t](sc_warg[t]))
        return 0;
    return 1;
}

static unsigned
sc_next (void)
{
    sc_seed = sc_seed * 1103515245 + 12345;
    return sc_seed >> 16;
}

static int
sc_choose (int leave)
{
    int i, c[SC_MAX + 1], n = 0, t = 0;

    if (sc_rand) {
        if (!leave && sc_next () % sc_rand)
            return sc_me;
        for (i = 1; i <= sc_n; i++)
            if (sc_can (i))
                c[n++] = i;
        return n ? c[sc_next () % n] : 0;
    }
    while (sc_iat < sc_nat && sc_at[sc_iat] < sc_points)
        sc_iat++;
    if (sc_iat < sc_nat && sc_at[sc_iat] == sc_points) {
        t = sc_to[sc_iat++];
        if (t >= 1 && t <= sc_n && sc_can (t))
            return t;
    }
    if (!leave && ++sc_turn < SC_TURN)
        return sc_me;
    /* the lowest; after a long turn the next */
    for (i = 0; i < sc_n; i++) {
        t = (leave ? i : (sc_me + i) % sc_n) + 1;
        if (sc_can (t))
            return t;
    }
    return 0;
}

static void
sc_switch (int t)
{
    int me = sc_me;

    if (t == me)
        return;
    sc_turn = 0;
    __real_sem_post (&sc_sem[t]);
    while (__real_sem_wait (&sc_sem[me]) < 0)
        ;
}

static void
sc_point (void)
{
    if (!sc_on || !sc_me)
        return;
    if (++sc_points > SC_POINTS)
        trcrash (-14, sc_me);
    sc_switch (sc_choose (0));
}

/* nobody can go on: the end, when none has to */
static int
sc_stuck (void)
{
    int i;

    for (i = 1; i <= sc_n; i++)
        if (sc_live[i] && !sc_daemon[i])
            trcrash (-15, i);
    return 0;
}

/* go on when cond is true */
static void __attribute__ ((unused))
sc_wait (const int (*cond) (void *), void *arg)
{
    int t;

    if (!sc_on || !sc_me)
        return;
    sc_points++;
    sc_waits[sc_me] = cond;
    sc_warg[sc_me] = arg;
    t = sc_choose (1);
    if (!t)
        t = sc_stuck ();
    sc_switch (t);
    sc_waits[sc_me] = NULL;
}

static void *
sc_run (void *arg)
{
    int t;

    sc_me = (int)(intptr_t)arg;
    while (__real_sem_wait (&sc_sem[sc_me]) < 0)
        ;
    sc_entry (sc_me);
    sc_live[sc_me] = 0;
    t = sc_choose (1);
    if (!t)
        t = sc_stuck ();
    sc_turn = 0;
    __real_sem_post (&sc_sem[t]);
    return NULL;
}

/* runs entry (1) .. entry (n) */
static void
sc_all (int n, void (*entry) (int))
{
    int i;

    sc_n = n;
    sc_entry = entry;
    for (i = 0; i <= SC_MAX; i++)
        __real_sem_init (&sc_sem[i], 0, 0);
    for (i = 1; i <= n; i++) {
        sc_live[i] = 1;
        __real_pthread_create (&sc_thr[i], NULL, sc_run, (void *)(intptr_t)i);
    }
    sc_on = 1;
    __real_sem_post (&sc_sem[sc_choose (1)]);
    while (__real_sem_wait (&sc_sem[0]) < 0)
        ;
    sc_on = 0;
    for (i = 1; i <= n; i++)
        __real_pthread_join (sc_thr[i], NULL);
}

/* ------------------------------------------------------ instrumentation -- */
enum { SC_LOAD, SC_STORE, SC_RMW, SC_FENCE, SC_READ, SC_WRITE };
/* every access before which others had their chance; to be defined */
static void sc_access (void *p, int size, int kind, int mo);

static void
sc_do (void *p, int size, int kind, int mo)
{
    if (!sc_on || !sc_me)
        return;
    sc_point ();
    sc_access (p, size, kind, mo);
}

static int
sc_stack (void *p)
{
    char here;
    long d = (char *)p - &here;
    return d > -65536 && d < 65536;
}

#define PLAIN(n)                                                               \
    void __tsan_read##n (void *p)                                              \
    {                                                                          \
        if (!sc_stack (p))                                                     \
            sc_do (p, n, SC_READ, -1);                                         \
    }                                                                          \
    void __tsan_write##n (void *p)                                             \
    {                                                                          \
        if (!sc_stack (p))                                                     \
            sc_do (p, n, SC_WRITE, -1);                                        \
    }                                                                          \
    void __tsan_unaligned_read##n (void *p)                                    \
    {                                                                          \
        __tsan_read##n (p);                                                    \
    }                                                                          \
    void __tsan_unaligned_write##n (void *p)                                   \
    {                                                                          \
        __tsan_write##n (p);                                                   \
    }
PLAIN (1) PLAIN (2) PLAIN (4) PLAIN (8) PLAIN (16)

void
__tsan_read_range (void *p, long n)
{
    if (!sc_stack (p))
        sc_do (p, n, SC_READ, -1);
}
void
__tsan_write_range (void *p, long n)
{
    if (!sc_stack (p))
        sc_do (p, n, SC_WRITE, -1);
}
void
__tsan_vptr_update (void **a, void *b)
{
}
void
__tsan_vptr_read (void **a)
{
}
void
__tsan_init (void)
{
}
void
__tsan_func_entry (void *p)
{
}
void
__tsan_func_exit (void)
{
}

#define ATOMIC(n, T)                                                           \
    T __tsan_atomic##n##_load (const volatile T *p, int mo)                    \
    {                                                                          \
        sc_do ((void *)p, n / 8, SC_LOAD, mo);                                 \
        return *p;                                                             \
    }                                                                          \
    void __tsan_atomic##n##_store (volatile T *p, T v, int mo)                 \
    {                                                                          \
        sc_do ((void *)p, n / 8, SC_STORE, mo);                                \
        *p = v;                                                                \
    }                                                                          \
    T __tsan_atomic##n##_exchange (volatile T *p, T v, int mo)                 \
    {                                                                          \
        sc_do ((void *)p, n / 8, SC_RMW, mo);                                  \
        return __atomic_exchange_n (p, v, 5);                                  \
    }                                                                          \
    T __tsan_atomic##n##_fetch_add (volatile T *p, T v, int mo)                \
    {                                                                          \
        sc_do ((void *)p, n / 8, SC_RMW, mo);                                  \
        return __atomic_fetch_add (p, v, 5);                                   \
    }                                                                          \
    T __tsan_atomic##n##_fetch_sub (volatile T *p, T v, int mo)                \
    {                                                                          \
        sc_do ((void *)p, n / 8, SC_RMW, mo);                                  \
        return __atomic_fetch_sub (p, v, 5);                                   \
    }                                                                          \
    T __tsan_atomic##n##_fetch_and (volatile T *p, T v, int mo)                \
    {                                                                          \
        sc_do ((void *)p, n / 8, SC_RMW, mo);                                  \
        return __atomic_fetch_and (p, v, 5);                                   \
    }                                                                          \
    T __tsan_atomic##n##_fetch_or (volatile T *p, T v, int mo)                 \
    {                                                                          \
        sc_do ((void *)p, n / 8, SC_RMW, mo);                                  \
        return __atomic_fetch_or (p, v, 5);                                    \
    }                                                                          \
    T __tsan_atomic##n##_fetch_xor (volatile T *p, T v, int mo)                \
    {                                                                          \
        sc_do ((void *)p, n / 8, SC_RMW, mo);                                  \
        return __atomic_fetch_xor (p, v, 5);                                   \
    }                                                                          \
    int __tsan_atomic##n##_compare_exchange_strong (volatile T *p, T *e, T v,  \
                                                    int mo, int fmo)           \
    {                                                                          \
        if (sc_on && sc_me)                                                    \
            sc_point ();                                                       \
        if (*p == *e) {                                                        \
            if (sc_on && sc_me)                                                \
                sc_access ((void *)p, n / 8, SC_RMW, mo);                      \
            *p = v;                                                            \
            return 1;                                                          \
        }                                                                      \
        if (sc_on && sc_me)                                                    \
            sc_access ((void *)p, n / 8, SC_LOAD, fmo);                        \
        *e = *p;                                                               \
        return 0;                                                              \
    }                                                                          \
    int __tsan_atomic##n##_compare_exchange_weak (volatile T *p, T *e, T v,    \
                                                  int mo, int fmo)             \
    {                                                                          \
        return __tsan_atomic##n##_compare_exchange_strong (p, e, v, mo, fmo);  \
    }                                                                          \
    T __tsan_atomic##n##_compare_exchange_val (volatile T *p, T e, T v,        \
                                               int mo, int fmo)                \
    {                                                                          \
        __tsan_atomic##n##_compare_exchange_strong (p, &e, v, mo, fmo);        \
        return e;                                                              \
    }
ATOMIC (8, uint8_t)
ATOMIC (16, uint16_t)
ATOMIC (32, uint32_t)
ATOMIC (64, uint64_t)

void
__tsan_atomic_thread_fence (int mo)
{
    sc_do (NULL, 0, SC_FENCE, mo);
}
void
__tsan_atomic_signal_fence (int mo)
{
}

/* memory functions the compiler leaves alone */
void *
__tsan_memcpy (void *d, const void *s, unsigned long n)
{
    return memcpy (d, s, n);
}
void *
__tsan_memset (void *d, int c, unsigned long n)
{
    return memset (d, c, n);
}
void *
__tsan_memmove (void *d, const void *s, unsigned long n)
{
    return memmove (d, s, n);
}

/* -------------------------------------------------- threads of the library -- */
#ifdef SC_PTHREAD
#include <errno.h>

#define SC_OBJS 256

typedef struct
{
    void *p;
    int owner;           /* mutex: holder; once: 1 running, 2 done */
} ScObj;

static ScObj sc_objs[SC_OBJS];
static void *sc_cv[SC_MAX + 1]; /* condition variable waited for */
static unsigned sc_spur;        /* chance of 1 in that many of waking without reason */
static int sc_created, sc_nocreate; /* threads made; which of them is refused */
static void sc_refused (void);      /* to be defined */
static void *(*sc_fn[SC_MAX + 1]) (void *);
static void *sc_arg[SC_MAX + 1];

static ScObj *
sc_obj (void *p)
{
    int i;

    for (i = 0; i < SC_OBJS; i++) {
        if (!sc_objs[i].p)
            sc_objs[i].p = p;
        if (sc_objs[i].p == p)
            return &sc_objs[i];
    }
    abort ();
}

static const int
sc_unowned (void *p)
{
    return !((ScObj *)p)->owner;
}

static const int
sc_over (void *p)
{
    return ((ScObj *)p)->owner == 2;
}

static const int
sc_signalled (void *p)
{
    return !*(void **)p;
}

static const int
sc_ended (void *p)
{
    return !*(int *)p;
}

int
__wrap_pthread_mutex_lock (pthread_mutex_t *m)
{
    ScObj *o = sc_obj (m);

    sc_point ();
    if (o->owner && o->owner == (sc_me ? sc_me : -1))
        trcrash (-19, sc_me); /* waits for itself */
    while (o->owner)
        sc_wait (sc_unowned, o);
    o->owner = sc_me ? sc_me : -1;
    return 0;
}

int
__wrap_pthread_mutex_trylock (pthread_mutex_t *m)
{
    ScObj *o = sc_obj (m);

    sc_point ();
    if (o->owner)
        return EBUSY;
    o->owner = sc_me ? sc_me : -1;
    return 0;
}

int
__wrap_pthread_mutex_unlock (pthread_mutex_t *m)
{
    ScObj *o = sc_obj (m);

    if (o->owner != (sc_me ? sc_me : -1))
        trcrash (-20, sc_me); /* not the holder */
    o->owner = 0;
    sc_point ();
    return 0;
}

int
__wrap_pthread_spin_lock (pthread_spinlock_t *m)
{
    return __wrap_pthread_mutex_lock ((void *)m);
}

int
__wrap_pthread_spin_trylock (pthread_spinlock_t *m)
{
    return __wrap_pthread_mutex_trylock ((void *)m);
}

int
__wrap_pthread_spin_unlock (pthread_spinlock_t *m)
{
    return __wrap_pthread_mutex_unlock ((void *)m);
}

/* readers one at a time too */
int
__wrap_pthread_rwlock_rdlock (pthread_rwlock_t *m)
{
    return __wrap_pthread_mutex_lock ((void *)m);
}

int
__wrap_pthread_rwlock_wrlock (pthread_rwlock_t *m)
{
    return __wrap_pthread_mutex_lock ((void *)m);
}

int
__wrap_pthread_rwlock_unlock (pthread_rwlock_t *m)
{
    return __wrap_pthread_mutex_unlock ((void *)m);
}

static const int
sc_counted (void *p)
{
    return ((ScObj *)p)->owner > 0;
}

int
__wrap_sem_init (sem_t *s, int shared, unsigned n)
{
    sc_obj (s)->owner = n;
    return 0;
}

int
__wrap_sem_wait (sem_t *s)
{
    ScObj *o = sc_obj (s);

    sc_point ();
    while (!o->owner)
        sc_wait (sc_counted, o);
    o->owner--;
    return 0;
}

int
__wrap_sem_trywait (sem_t *s)
{
    ScObj *o = sc_obj (s);

    sc_point ();
    if (!o->owner) {
        errno = EAGAIN;
        return -1;
    }
    o->owner--;
    return 0;
}

int
__wrap_sem_post (sem_t *s)
{
    sc_obj (s)->owner++;
    sc_point ();
    return 0;
}

int
__wrap_pthread_cond_wait (pthread_cond_t *c, pthread_mutex_t *m)
{
    ScObj *o = sc_obj (m);

    if (o->owner != sc_me)
        trcrash (-20, sc_me);
    o->owner = 0;
    if (sc_spur && sc_next () % sc_spur == 0) {
        sc_point ();
    } else {
        sc_cv[sc_me] = c;
        sc_wait (sc_signalled, &sc_cv[sc_me]);
    }
    return __wrap_pthread_mutex_lock (m);
}

int
__wrap_pthread_cond_broadcast (pthread_cond_t *c)
{
    int i;

    sc_point ();
    for (i = 1; i <= sc_n; i++)
        if (sc_cv[i] == c)
            sc_cv[i] = NULL;
    return 0;
}

int
__wrap_pthread_cond_signal (pthread_cond_t *c)
{
    int i, n = 0, w[SC_MAX + 1];

    sc_point ();
    for (i = 1; i <= sc_n; i++)
        if (sc_cv[i] == c)
            w[n++] = i;
    if (n)
        sc_cv[w[sc_rand ? sc_next () % n : 0]] = NULL;
    return 0;
}

int
__wrap_pthread_once (pthread_once_t *c, void (*fn) (void))
{
    ScObj *o = sc_obj (c);

    sc_point ();
    if (o->owner == 0) {
        o->owner = 1;
        fn ();
        o->owner = 2;
    }
    while (o->owner != 2)
        sc_wait (sc_over, o);
    return 0;
}

static void *
sc_run2 (void *arg)
{
    int t = (int)(intptr_t)arg;

    sc_me = t;
    while (__real_sem_wait (&sc_sem[t]) < 0)
        ;
    sc_fn[t](sc_arg[t]);
    sc_live[t] = 0;
    t = sc_choose (1);
    if (!t)
        t = sc_stuck ();
    sc_turn = 0;
    __real_sem_post (&sc_sem[t]);
    return NULL;
}

/* threads of the library need not end */
int
__wrap_pthread_create (pthread_t *th, const pthread_attr_t *a, void *(*fn) (void *), void *arg)
{
    int t;

    if (!sc_on)
        return __real_pthread_create (th, a, fn, arg);
    sc_point ();
    if (++sc_created == sc_nocreate || sc_n == SC_MAX) {
        sc_refused ();
        return EAGAIN;
    }
    t = sc_n + 1;
    sc_fn[t] = fn;
    sc_arg[t] = arg;
    sc_live[t] = 1;
    sc_daemon[t] = 1;
    sc_waits[t] = NULL;
    if (__real_pthread_create (&sc_thr[t], NULL, sc_run2, (void *)(intptr_t)t))
        return EAGAIN;
    sc_n = t;
    *th = sc_thr[t];
    sc_point ();
    return 0;
}

int
__wrap_pthread_join (pthread_t th, void **res)
{
    int i;

    for (i = 1; i <= sc_n; i++)
        if (pthread_equal (th, sc_thr[i]))
            while (sc_on && sc_live[i])
                sc_wait (sc_ended, &sc_live[i]);
    return __real_pthread_join (th, res);
}
#endif

#endif
