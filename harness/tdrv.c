/* Driver of objects shared by threads. */
#include <hev-object.h>
#include <hev-object-atomic.h>
#include <hev-task.h>
#include <hev-task-io.h>
#include <hev-task-cio.h>
#include <hev-task-cio-null.h>
#include <hev-task-cio-buffer.h>

#include "baton.h"

#define OBJS 8

typedef struct
{
    HevObjectAtomic base;
    int id;
} Thing;

static Thing *objs[OBJS];
static char **lines;
static int nlines;

static void
sc_access (void *p, int size, int kind, int mo)
{
    Blk *b = mem_find (p);
    int i;

    if (b && b->dead)
        trcrash (-4, sc_me); /* released memory */
    if (kind == SC_FENCE) {
        trv ("mem", "fence", sc_me, 0, mo, 0);
        return;
    }
    for (i = 1; i < OBJS; i++)
        if (objs[i] && (Thing *)p >= objs[i] && (Thing *)p < objs[i] + 1 && kind <= SC_RMW)
            trv ("mem", kind == SC_LOAD ? "load" : kind == SC_STORE ? "store" : "rmw", sc_me, i, mo, 0);
}

static void
thing_destruct (HevObject *o)
{
    Thing *t = (Thing *)o;

    trv ("destroy", "nop", sc_me, t->id, 0, 0);
    HEV_OBJECT_ATOMIC_TYPE->destruct (o);
    free (t);
}

static HevObjectClass thing_class;

static Thing *
thing_new (int id)
{
    Thing *t = calloc (1, sizeof (*t));
    HevObjectClass k;

    hev_object_atomic_construct (&t->base);
    memcpy (&k, HEV_OBJECT_ATOMIC_TYPE, sizeof (k));
    k.name = "Thing";
    k.destruct = thing_destruct;
    thing_class = k;
    HEV_OBJECT (t)->klass = &thing_class;
    t->id = id;
    return t;
}

/* a new object of a provided type in every thread at once, then released */
static void
fresh (int t, int kind, int id)
{
    HevObject *o;

    trv ("call", "fresh", t, kind, 0, 0);
    if (kind == 0) {
        Thing *x = thing_new (id);
        objs[id] = x;
        o = HEV_OBJECT (x);
    } else if (kind == 1) {
        o = calloc (1, sizeof (HevObject));
        hev_object_construct (o);
    } else if (kind == 2) {
        o = HEV_OBJECT (hev_task_cio_null_new ());
    } else {
        o = HEV_OBJECT (hev_task_cio_push (HEV_TASK_CIO (hev_task_cio_buffer_new (8, 8)),
                                           HEV_TASK_CIO (hev_task_cio_null_new ())));
    }
    hev_object_ref (o);
    hev_object_unref (o);
    if (kind >= 2 && hev_task_cio_write (HEV_TASK_CIO (o), "abc", 3, NULL, NULL) != 3)
        trcrash (-6, t);
    if (kind == 0)
        trv ("note", "fresh", t, id, 0, 0);
    else
        hev_object_unref (o);
    if (kind == 0) {
        trv ("call", "unref", t, id, 0, 0);
        hev_object_unref (o);
    }
}

static void
work (int t)
{
    unsigned long a[8];
    char op[32];
    int i;

    for (i = 0; i < nlines; i++) {
        if (trargs (lines[i], op, a, 8) < 2 || a[0] != t)
            continue;
        if (!strcmp (op, "ref")) {
            trv ("call", "ref", t, a[1], 0, 0);
            hev_object_ref (HEV_OBJECT (objs[a[1]]));
        } else if (!strcmp (op, "unref")) {
            HevObject *o = HEV_OBJECT (objs[a[1]]);
            trv ("call", "unref", t, a[1], 0, 0);
            hev_object_unref (o);
        } else if (!strcmp (op, "use")) {
            trv ("call", "use", t, a[1], 0, 0);
            sc_point ();
        } else if (!strcmp (op, "fresh")) {
            fresh (t, a[1], a[2]);
        }
    }
}

static void
trscript (char **line, int n)
{
    unsigned long a[4096];
    char op[32];
    int i, j, k, threads = 0;

    lines = line;
    nlines = n;
    for (i = 0; i < n; i++) {
        k = trargs (line[i], op, a, 4096);
        if (!strcmp (op, "threads")) {
            threads = a[0];
        } else if (!strcmp (op, "new")) { /* object, references */
            objs[a[0]] = thing_new (a[0]);
            for (j = 1; j < a[1]; j++)
                hev_object_ref (HEV_OBJECT (objs[a[0]]));
            trv ("op", "new", a[0], a[1], 0, 0);
        } else if (!strcmp (op, "at")) {
            for (j = 0; j + 1 < k; j += 2) {
                sc_at[sc_nat] = a[j];
                sc_to[sc_nat++] = a[j + 1];
            }
        } else if (!strcmp (op, "random")) {
            sc_seed = a[0];
            sc_rand = a[1];
        }
    }
    sc_all (threads, work);
    mem_check_all ();
}

int
main (int argc, char **argv)
{
    return trmain (argc, argv);
}
