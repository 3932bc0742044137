/* Stand-ins for the system allocator: every block is surrounded by red zones,
   never handed out twice, and checked when released and at the end. */
#ifndef MEM_H
#define MEM_H

#include <errno.h>

#include "tr.h"

#define MEM_ARENA (2UL << 30)
#define MEM_BLOCKS 65536
#define MEM_ZONE 80
#define MEM_DEAD 0xdd
#define MEM_EDGE 0xc7
#define MEM_FRESH 0xa5

typedef struct
{
    unsigned char *p;
    size_t size;
    int dead;
    int owner; /* thread */
} Blk;

static unsigned char *mem_base, *mem_next;
static Blk mem_blk[MEM_BLOCKS];
static int mem_n, mem_log;
static __thread int mem_fail, mem_owner;

/* another reason to refuse */
#ifndef MEM_REFUSED
#define MEM_REFUSED() 0
#endif

static void
mem_check (Blk *b)
{
    int i;

    for (i = 0; i < MEM_ZONE; i++)
        if (b->p[-1 - i] != MEM_EDGE || b->p[b->size + i] != MEM_EDGE)
            trcrash (-9, b - mem_blk);
    if (b->dead)
        for (i = 0; i < b->size; i++)
            if (b->p[i] != MEM_DEAD)
                trcrash (-3, b - mem_blk);
}

static void
mem_check_all (void)
{
    int i;

    for (i = 0; i < mem_n; i++)
        mem_check (&mem_blk[i]);
}

static Blk *
mem_find (const void *p)
{
    int i;

    for (i = mem_n - 1; i >= 0; i--)
        if ((unsigned char *)p >= mem_blk[i].p - MEM_ZONE &&
            (unsigned char *)p < mem_blk[i].p + mem_blk[i].size + MEM_ZONE)
            return &mem_blk[i];
    return NULL;
}

static void *
mem_get (size_t align, size_t size)
{
    unsigned char *p;
    Blk *b;

    if (!mem_base) {
        mem_base = mmap (NULL, MEM_ARENA, PROT_READ | PROT_WRITE,
                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mem_next = mem_base;
    }
    if ((mem_fail && --mem_fail == 0) || MEM_REFUSED ()) {
        if (mem_log)
            trv ("sys", "nomem", 0, 0, 0, 0);
        return NULL;
    }
    if (size > (256 << 20) || mem_n == MEM_BLOCKS ||
        mem_next + size + 4 * MEM_ZONE + 3 * align > mem_base + MEM_ARENA) {
        if (mem_log)
            trv ("sys", "nomem", 0, 0, 0, 0);
        return NULL;
    }
    p = mem_next + MEM_ZONE;
    /* not better aligned than promised */
    p = (unsigned char *)((((uintptr_t)p + 2 * align - 1) & ~(2 * align - 1)) + align);
    b = &mem_blk[mem_n++];
    b->p = p;
    b->size = size;
    b->dead = 0;
    b->owner = mem_owner;
    memset (p - MEM_ZONE, MEM_EDGE, MEM_ZONE);
    memset (p, MEM_FRESH, size);
    memset (p + size, MEM_EDGE, MEM_ZONE);
    mem_next = p + size + MEM_ZONE;
    if (mem_log)
        trv ("sys", "alloc", b - mem_blk, size, 0, 0);
    return p;
}

void *
__wrap_malloc (size_t size)
{
    return mem_get (16, size);
}

void *
__wrap_memalign (size_t align, size_t size)
{
    return mem_get (align < 16 ? 16 : align, size);
}

void *
__wrap_aligned_alloc (size_t align, size_t size)
{
    return __wrap_memalign (align, size);
}

int
__wrap_posix_memalign (void **res, size_t align, size_t size)
{
    void *p = __wrap_memalign (align, size);

    if (!p)
        return ENOMEM;
    *res = p;
    return 0;
}

void
__wrap_free (void *p)
{
    Blk *b;

    if (!p)
        return;
    b = mem_find (p);
    if (!b || b->p != p || b->dead)
        trcrash (-2, b ? b - mem_blk : -1);
    mem_check (b);
    b->dead = 1;
    memset (p, MEM_DEAD, b->size);
    if (mem_log)
        trv ("sys", "free", b - mem_blk, 0, 0, 0);
}

void *
__wrap_calloc (size_t n, size_t size)
{
    void *p;

    if (size && n > (size_t)-1 / size)
        return NULL;
    p = __wrap_malloc (n * size);
    if (p)
        memset (p, 0, n * size);
    return p;
}

void *
__wrap_realloc (void *p, size_t size)
{
    Blk *b;
    void *q;

    if (!p)
        return __wrap_malloc (size);
    b = mem_find (p);
    if (!b || b->p != p || b->dead)
        trcrash (-2, b ? b - mem_blk : -1);
    if (!size) {
        __wrap_free (p);
        return NULL;
    }
    q = __wrap_malloc (size);
    if (!q)
        return NULL;
    memcpy (q, p, size < b->size ? size : b->size);
    __wrap_free (p);
    return q;
}

void *
__wrap_reallocarray (void *p, size_t n, size_t size)
{
    if (size && n > (size_t)-1 / size)
        return NULL;
    return __wrap_realloc (p, n * size);
}

char *
__wrap_strdup (const char *s)
{
    char *p = __wrap_malloc (strlen (s) + 1);

    return p ? strcpy (p, s) : NULL;
}

#endif
