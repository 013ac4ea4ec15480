/* Generic executor of operation scripts on generated pbtools messages.
 *
 * Reads requests "u32 length, script" on stdin and answers "u32 length,
 * response" on stdout. A script is a sequence of operations on slots; every
 * slot owns one workspace, allocated with its exact size so that
 * AddressSanitizer sees any access outside. All knowledge about the messages
 * comes from the tables in driver.h.
 */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include "pbtools.h"
#include "driver.h"

#define NSLOTS 8

struct user_mem { struct user_mem *next; void *p; };

struct slot {
    uint8_t *block;
    uint8_t *map;               /* Giant workspace, instead of a block. */
    size_t map_size;
    uint8_t *ws;
    size_t size;
    size_t pre;
    void *root;
    const struct msg *m;
    struct user_mem *mem;
};

struct rbuf { uint8_t *p; size_t n, cap; };

struct ctx {
    struct slot slots[NSLOTS];
    const uint8_t *in, *end;
    struct rbuf out;
};

static void die(const char *what)
{
    fprintf(stderr, "DRIVER-ERROR: %s\n", what);
    fflush(stderr);
    _exit(97);
}

static void found(const char *what)
{
    fprintf(stderr, "DRIVER-FOUND: %s\n", what);
    fflush(stderr);
#ifdef PBV_FUZZ
    abort();
#else
    _exit(98);
#endif
}

/* ------- counting of dynamic memory use in the code under test ------- */

static __thread int in_lib __attribute__((unused));
static int lib_allocs;

#ifdef PBV_WRAP
void *__real_malloc(size_t n);
void *__real_calloc(size_t a, size_t b);
void *__real_realloc(void *p, size_t n);
void __real_free(void *p);
void *__wrap_malloc(size_t n)
{
    if (in_lib) __atomic_fetch_add(&lib_allocs, 1, __ATOMIC_RELAXED);
    return __real_malloc(n);
}
void *__wrap_calloc(size_t a, size_t b)
{
    if (in_lib) __atomic_fetch_add(&lib_allocs, 1, __ATOMIC_RELAXED);
    return __real_calloc(a, b);
}
void *__wrap_realloc(void *p, size_t n)
{
    if (in_lib) __atomic_fetch_add(&lib_allocs, 1, __ATOMIC_RELAXED);
    return __real_realloc(p, n);
}
void __wrap_free(void *p)
{
    if (in_lib) __atomic_fetch_add(&lib_allocs, 1, __ATOMIC_RELAXED);
    __real_free(p);
}
#endif

/* ------- counting of basic blocks, bytes moved and stack use ------- */

#ifdef PBV_COUNT
static uint64_t work, last_work;
static uintptr_t stack_top, stack_low;
void __sanitizer_cov_trace_pc(void)
{
    uintptr_t at = (uintptr_t)__builtin_frame_address(0);
    work++;
    if (at < stack_low) stack_low = at;
}
void *__real_memcpy(void *d, const void *s, size_t n);
void *__real_memmove(void *d, const void *s, size_t n);
void *__real_memset(void *d, int c, size_t n);
int __real_memcmp(const void *a, const void *b, size_t n);
size_t __real_strlen(const char *s);
void *__wrap_memcpy(void *d, const void *s, size_t n)
{
    work += n;
    return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n)
{
    work += n;
    return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n)
{
    work += n;
    return __real_memset(d, c, n);
}
int __wrap_memcmp(const void *a, const void *b, size_t n)
{
    work += n;
    return __real_memcmp(a, b, n);
}
size_t __wrap_strlen(const char *s)
{
    size_t n = __real_strlen(s);
    work += n;
    return n;
}
#define LIB(expr) do {                                                  \
        work = 0;                                                       \
        stack_top = stack_low = (uintptr_t)__builtin_frame_address(0);  \
        expr;                                                           \
        last_work = work;                                               \
    } while (0)
#else
#define LIB(expr) do { in_lib = 1; expr; in_lib = 0; } while (0)
#endif

/* ------------------------------ buffers ------------------------------ */

static void put(struct rbuf *b, const void *p, size_t n)
{
    if (b->n + n > b->cap) {
        b->cap = (b->n + n) * 2 + 256;
        b->p = realloc(b->p, b->cap);
        if (b->p == NULL) die("memory");
    }
    if (n > 0) {
        memcpy(b->p + b->n, p, n);
        b->n += n;
    }
}
static void put8(struct rbuf *b, uint8_t v) { put(b, &v, 1); }
static void put16(struct rbuf *b, uint16_t v) { put(b, &v, 2); }
static void put32(struct rbuf *b, uint32_t v) { put(b, &v, 4); }
static void put64(struct rbuf *b, uint64_t v) { put(b, &v, 8); }

static const uint8_t *get(struct ctx *c, size_t n)
{
    const uint8_t *p = c->in;
    if ((size_t)(c->end - c->in) < n) die("short script");
    c->in += n;
    return p;
}
static uint8_t get8(struct ctx *c) { return *get(c, 1); }
static uint16_t get16(struct ctx *c) { uint16_t v; memcpy(&v, get(c, 2), 2); return v; }
static uint32_t get32(struct ctx *c) { uint32_t v; memcpy(&v, get(c, 4), 4); return v; }
static uint64_t get64(struct ctx *c) { uint64_t v; memcpy(&v, get(c, 8), 8); return v; }

/* ------------------------------- slots ------------------------------- */

static void *user_copy(struct slot *s, const void *p, size_t n, int nul)
{
    struct user_mem *u = malloc(sizeof(*u));
    uint8_t *q = malloc(n + (size_t)nul);
    if (u == NULL || (q == NULL && n + (size_t)nul > 0)) die("memory");
    if (n > 0) memcpy(q, p, n);
    if (nul) q[n] = 0;
    u->p = q;
    u->next = s->mem;
    s->mem = u;
    return q;
}

/* Giant memory, never written so hardly there, with an inaccessible page behind. */
static uint8_t *giant(size_t size, uint8_t **map, size_t *map_size)
{
    size_t page = 4096;

    *map_size = ((size + page - 1) / page + 1) * page;
    *map = mmap(NULL, *map_size, PROT_READ | PROT_WRITE,
                MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (*map == MAP_FAILED) die("giant mmap");
    mprotect(*map + *map_size - page, page, PROT_NONE);
    return *map + *map_size - page - size;
}

/* A giant string, made of the same memory over and over. */
static char *giant_string(size_t length, uint8_t **map, size_t *map_size)
{
    size_t chunk = 1 << 24, i;
    int fd = memfd_create("giant", 0);
    uint8_t *p;

    if (fd < 0 || ftruncate(fd, (off_t)chunk) != 0) die("memfd");
    *map_size = (length / chunk + 2) * chunk;
    *map = mmap(NULL, *map_size, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE,
                -1, 0);
    if (*map == MAP_FAILED) die("giant mmap");
    p = mmap(NULL, chunk, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) die("giant mmap");
    memset(p, 'x', chunk);
    munmap(p, chunk);
    for (i = 0; i < *map_size; i += chunk) {
        if (mmap(*map + i, chunk, PROT_READ | PROT_WRITE,
                 MAP_FIXED | (i + chunk < *map_size ? MAP_SHARED : MAP_PRIVATE), fd, 0)
            == MAP_FAILED) die("giant mmap");
    }
    close(fd);
    (*map)[*map_size - 1] = 0;
    return (char *)*map + *map_size - 1 - length;
}

static void slot_free(struct slot *s)
{
    if (s->map != NULL) munmap(s->map, s->map_size);
    while (s->mem) {
        struct user_mem *u = s->mem;
        s->mem = u->next;
        free(u->p);
        free(u);
    }
    free(s->block);
    memset(s, 0, sizeof(*s));
}

static void slot_check(struct slot *s)
{
    size_t i;
    for (i = 0; i < s->pre; i++) {
        if (s->block[i] != 0xc3) found("write in front of the workspace");
    }
}

static void slot_fill(struct slot *s, int fill)
{
    size_t i;
    if (fill == 0xee) {
        uint32_t x = 2463534242u;
        for (i = 0; i < s->size; i++) {
            x ^= x << 13; x ^= x >> 17; x ^= x << 5;
            s->ws[i] = (uint8_t)x;
        }
    } else if (fill != 0xff) {
        if (s->size > 0) memset(s->ws, fill, s->size);
    }
    /* 0xff: leave the memory as it comes (never written). */
}

static void slot_new(struct slot *s, const struct msg *m, size_t size, int mis,
                     int fill)
{
    slot_free(s);
    s->pre = (size_t)mis;
    s->block = malloc(size + s->pre);
    if (s->block == NULL && size + s->pre > 0) die("memory");
    if (s->pre > 0) memset(s->block, 0xc3, s->pre);
    s->ws = s->block + s->pre;
    s->size = size;
    s->m = m;
    slot_fill(s, fill);
    LIB(s->root = m->new_(s->ws, size));
    if (s->root != NULL) {
        if ((uint8_t *)s->root < s->ws
            || (uint8_t *)s->root + m->size > s->ws + size) {
            found("message outside the workspace");
        }
        if (((uintptr_t)s->root % sizeof(void *)) != 0) {
            found("misaligned message");
        }
    }
    slot_check(s);
}

static struct slot *get_slot(struct ctx *c)
{
    unsigned i = get8(c);
    if (i >= NSLOTS) die("bad slot");
    return &c->slots[i];
}

/* ------------------------- building a message ------------------------- */

/* Layout shared by all repeated structs. */
struct rep { int length; void *items; };

static int build(struct ctx *c, struct slot *s, const struct msg *m, char *p);

static int set_scalar(struct ctx *c, struct slot *s, const struct fld *f, char *p)
{
    uint64_t v;
    uint32_t n;

    if (f->kind == K_STRING) {
        n = get32(c);
        *(char **)p = user_copy(s, get(c, n), n, 1);
        return 0;
    }
    if (f->kind == K_BYTES) {
        struct pbtools_bytes_t *b = (struct pbtools_bytes_t *)p;
        n = get32(c);
        b->buf_p = user_copy(s, get(c, n), n, 0);
        b->size = n;
        return 0;
    }
    v = get64(c);
    switch (f->kind) {
    case K_I32: *(int32_t *)p = (int32_t)(uint32_t)v; break;
    case K_U32: *(uint32_t *)p = (uint32_t)v; break;
    case K_I64: *(int64_t *)p = (int64_t)v; break;
    case K_U64: *(uint64_t *)p = v; break;
    case K_F32: { uint32_t w = (uint32_t)v; memcpy(p, &w, 4); break; }
    case K_F64: memcpy(p, &v, 8); break;
    case K_BOOL: *(bool *)p = (v != 0); break;
    case K_ENUM:
        if (f->esize != 4) die("enum size");
        { uint32_t w = (uint32_t)v; memcpy(p, &w, 4); }
        break;
    default: die("kind");
    }
    return 0;
}

static int build(struct ctx *c, struct slot *s, const struct msg *m, char *p)
{
    int n = get16(c);
    int res;

    while (n-- > 0) {
        unsigned idx = get16(c);
        const struct fld *f;
        int mode, i;
        if (idx >= (unsigned)m->nfields) {          /* Deselect oneof. */
            idx -= (unsigned)m->nfields;
            if (idx >= (unsigned)m->noneofs) die("bad oneof");
            uint32_t zero = 0;
            memcpy(p + m->oneof_offs[idx], &zero, 4);
            continue;
        }
        f = &m->fields[idx];
        switch (f->label) {
        case L_PLAIN:
        case L_ONEOF:
            if (f->kind == K_MSG) {
                mode = get8(c);
                if (mode == 0) {
                    *(void **)(p + f->off) = NULL;
                    break;
                }
                if (mode == 1) {
                    LIB(res = f->alloc(p));
                    if (res != 0) return res;
                    if (*(void **)(p + f->off) == NULL) found("alloc gave NULL");
                }
                res = build(c, s, &pbv_msgs[f->sub], *(char **)(p + f->off));
                if (res != 0) return res;
            } else {
                if (f->label == L_ONEOF) {
                    mode = get8(c);
                    if (mode == 1) LIB(f->select(p));
                    if (mode == 3) {            /* Select only. */
                        LIB(f->select(p));
                        break;
                    }
                }
                set_scalar(c, s, f, p + f->off);
            }
            break;
        case L_OPTIONAL:
            mode = get8(c);
            *(bool *)(p + f->off2) = (mode != 0);
            if (mode != 0) set_scalar(c, s, f, p + f->off);
            break;
        case L_REPEATED: {
            struct rep *r = (struct rep *)(p + f->off);
            int count;
            mode = get8(c);
            count = (int)get32(c);
            if (mode == 0) {
                r->length = 0;
                break;
            }
            if (mode == 1 || mode == 3) {
                LIB(res = f->alloc_n(p, count));
                if (res != 0) return res;
                if (r->length != count) found("alloc gave another length");
                if (mode == 3) break;           /* Leave elements as allocated. */
            } else if (count > r->length) {
                die("in place edit too long");
            }
            for (i = 0; i < count; i++) {
                char *e = (char *)r->items + (size_t)i * f->esize;
                if (f->kind == K_MSG) {
                    res = build(c, s, &pbv_msgs[f->sub], e);
                    if (res != 0) return res;
                } else {
                    set_scalar(c, s, f, e);
                }
            }
            break;
        }
        default:
            die("label");
        }
    }
    return 0;
}

/* ------------------------ dumping of a message ------------------------ */

static void dump(struct rbuf *o, const struct msg *m, const char *p);

static void dump_scalar(struct rbuf *o, const struct fld *f, const char *p)
{
    uint64_t v = 0;
    size_t n;

    switch (f->kind) {
    case K_STRING:
        if (*(char *const *)p == NULL) found("string is NULL");
        n = strlen(*(char *const *)p);
        put32(o, (uint32_t)n);
        put(o, *(char *const *)p, n);
        return;
    case K_BYTES: {
        const struct pbtools_bytes_t *b = (const struct pbtools_bytes_t *)p;
        if (b->size > 0x7fffffff) found("bytes size");
        put32(o, (uint32_t)b->size);
        put(o, b->buf_p, b->size);
        return;
    }
    case K_I32: v = (uint64_t)(int64_t)*(const int32_t *)p; break;
    case K_U32: v = *(const uint32_t *)p; break;
    case K_I64: v = (uint64_t)*(const int64_t *)p; break;
    case K_U64: v = *(const uint64_t *)p; break;
    case K_F32: { uint32_t w; memcpy(&w, p, 4); v = w; (void)*(const volatile float *)p; break; }
    case K_F64: memcpy(&v, p, 8); (void)*(const volatile double *)p; break;
    case K_BOOL: {
        uint8_t w;
        memcpy(&w, p, 1);
        if (w > 1) found("bool neither true nor false");
        v = w;
        break;
    }
    case K_ENUM: { int32_t w; memcpy(&w, p, 4); v = (uint64_t)(int64_t)w; break; }
    default: die("kind");
    }
    put64(o, v);
}

static void dump(struct rbuf *o, const struct msg *m, const char *p)
{
    int i, j;
    size_t at = o->n;
    uint16_t count = 0;

    put16(o, 0);
    for (i = 0; i < m->nfields; i++) {
        const struct fld *f = &m->fields[i];
        switch (f->label) {
        case L_PLAIN:
            put16(o, (uint16_t)i);
            if (f->kind == K_MSG) {
                const char *q = *(char *const *)(p + f->off);
                put8(o, q != NULL);
                if (q) dump(o, &pbv_msgs[f->sub], q);
            } else {
                dump_scalar(o, f, p + f->off);
            }
            break;
        case L_ONEOF: {
            uint32_t ch;
            memcpy(&ch, p + f->off2, 4);
            if (ch != (uint32_t)f->choice) continue;
            put16(o, (uint16_t)i);
            put8(o, 1);
            if (f->kind == K_MSG) {
                const char *q = *(char *const *)(p + f->off);
                if (q == NULL) found("selected oneof message is NULL");
                dump(o, &pbv_msgs[f->sub], q);
            } else {
                dump_scalar(o, f, p + f->off);
            }
            break;
        }
        case L_OPTIONAL: {
            uint8_t w;
            put16(o, (uint16_t)i);
            memcpy(&w, p + f->off2, 1);
            if (w > 1) found("is_present neither true nor false");
            put8(o, w);
            if (w) dump_scalar(o, f, p + f->off);
            break;
        }
        case L_REPEATED: {
            const struct rep *r = (const struct rep *)(p + f->off);
            put16(o, (uint16_t)i);
            if (r->length < 0) found("negative length");
            put8(o, 1);
            put32(o, (uint32_t)r->length);
            for (j = 0; j < r->length; j++) {
                const char *e = (const char *)r->items + (size_t)j * f->esize;
                if (f->kind == K_MSG) dump(o, &pbv_msgs[f->sub], e);
                else dump_scalar(o, f, e);
            }
            break;
        }
        }
        count++;
    }
    for (i = 0; i < m->noneofs; i++) {
        uint32_t ch;
        int ok;
        memcpy(&ch, p + m->oneof_offs[i], 4);
        ok = (ch == 0);
        for (j = 0; j < m->nfields && !ok; j++) {
            ok = (m->fields[j].label == L_ONEOF
                  && m->fields[j].off2 == m->oneof_offs[i]
                  && (uint32_t)m->fields[j].choice == ch);
        }
        if (!ok) found("oneof choice is no declared member");
    }
    memcpy(o->p + at, &count, 2);
}

/* All content of a decoded message must lie in its workspace. */

static void inside(const struct slot *s, const void *p, size_t n, const char *what)
{
    const uint8_t *q = p;
    if (n == 0) return;
    if (q < s->ws || q > s->ws + s->size || n > (size_t)(s->ws + s->size - q)) {
        found(what);
    }
}

static void ownership(const struct slot *s, const struct msg *m, const char *p);

static void ownership_value(const struct slot *s, const struct fld *f, const char *p)
{
    if (f->kind == K_STRING) {
        const char *q = *(char *const *)p;
        if (*q != 0) inside(s, q, strlen(q) + 1, "string outside the workspace");
    } else if (f->kind == K_BYTES) {
        const struct pbtools_bytes_t *b = (const struct pbtools_bytes_t *)p;
        inside(s, b->buf_p, b->size, "bytes outside the workspace");
    } else if (f->kind == K_MSG) {
        ownership(s, &pbv_msgs[f->sub], p);
    }
}

static void ownership(const struct slot *s, const struct msg *m, const char *p)
{
    int i, j;

    inside(s, p, m->size, "message outside the workspace");
    if (((uintptr_t)p % sizeof(void *)) != 0) found("misaligned message");
    for (i = 0; i < m->nfields; i++) {
        const struct fld *f = &m->fields[i];
        const char *q = p + f->off;
        if (f->label == L_REPEATED) {
            const struct rep *r = (const struct rep *)q;
            if (r->length > 0) {
                inside(s, r->items, (size_t)r->length * f->esize,
                       "items outside the workspace");
            }
            for (j = 0; j < r->length; j++) {
                ownership_value(s, f, (const char *)r->items + (size_t)j * f->esize);
            }
            continue;
        }
        if (f->label == L_ONEOF) {
            uint32_t ch;
            memcpy(&ch, p + f->off2, 4);
            if (ch != (uint32_t)f->choice) continue;
        }
        if (f->label == L_OPTIONAL && !*(const bool *)(p + f->off2)) continue;
        if (f->kind == K_MSG) {
            q = *(char *const *)q;
            if (q == NULL) continue;
        }
        ownership_value(s, f, q);
    }
}

/* ----------------------------- operations ----------------------------- */

/* An input shared by all slots and threads, in read-only memory that ends at
 * a page nobody may access. */
static uint8_t *shared_base, *shared;
static size_t shared_pages, shared_n;

static void shared_set(const uint8_t *p, size_t n)
{
    size_t page = 4096;
    if (shared_base != NULL) munmap(shared_base, shared_pages);
    shared_pages = ((n + page - 1) / page + 1) * page;
    shared_base = mmap(NULL, shared_pages, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (shared_base == MAP_FAILED) die("mmap");
    shared = shared_base + shared_pages - page - n;
    shared_n = n;
    if (n > 0) memcpy(shared, p, n);
    if (shared_pages > page) mprotect(shared_base, shared_pages - page, PROT_READ);
    mprotect(shared_base + shared_pages - page, page, PROT_NONE);
}

static int do_decode(struct slot *s, const uint8_t *data, size_t n, int mis,
                     int *modified)
{
    uint8_t *block = malloc(n + (size_t)mis);
    uint8_t *buf = block + mis;
    int res;

    if (n > 0) memcpy(buf, data, n);
    LIB(res = s->m->decode(s->root, buf, n));
    *modified = (n > 0 && memcmp(buf, data, n) != 0);
    if (n > 0) memset(buf, 0xdd, n);
    free(block);
    slot_check(s);
    return res;
}


static int do_encode(struct slot *s, size_t size, int mis, uint8_t **block_pp,
                     uint8_t **buf_pp)
{
    int res, i;
    uint8_t *block = malloc(size + (size_t)mis);

    if (block == NULL && size + (size_t)mis > 0) die("memory");
    if (size + (size_t)mis > 0) memset(block, 0xc3, size + (size_t)mis);
    LIB(res = s->m->encode(s->root, block + mis, size));
    for (i = 0; i < mis; i++) {
        if (block[i] != 0xc3) found("write in front of the encode buffer");
    }
    if (res > 0 && (size_t)res > size) found("encoded size beyond the buffer");
    *block_pp = block;
    *buf_pp = block + mis;
    return res;
}

static const struct msg *get_msg(struct ctx *c)
{
    unsigned i = get16(c);
    if (i >= (unsigned)pbv_nmsgs || pbv_msgs[i].new_ == NULL) die("bad message");
    return &pbv_msgs[i];
}

static void run(struct ctx *c);

struct thr { struct ctx c; pthread_t t; pthread_barrier_t *bar; };

static void *thr_main(void *p)
{
    struct thr *t = p;
    pthread_barrier_wait(t->bar);
    run(&t->c);
    return NULL;
}

static void need_root(struct slot *s)
{
    if (s->root == NULL) die("no message in slot");
}

static void run_one(struct ctx *c)
{
    int op = get8(c);

    switch (op) {
    case 'N': {
        struct slot *s = get_slot(c);
        const struct msg *m = get_msg(c);
        uint32_t size = get32(c);
        int mis = get8(c), fill = get8(c);
        slot_new(s, m, size, mis, fill);
        put8(&c->out, s->root != NULL);
        break;
    }
    case 'R': {                                 /* New in the same workspace. */
        struct slot *s = get_slot(c);
        const struct msg *m = get_msg(c);
        s->m = m;
        LIB(s->root = m->new_(s->ws, s->size));
        slot_check(s);
        put8(&c->out, s->root != NULL);
        break;
    }
    case 'B': {
        struct slot *s = get_slot(c);
        uint32_t n = get32(c);
        const uint8_t *next = c->in + n;
        int res;
        need_root(s);
        res = build(c, s, s->m, s->root);
        if (res == 0 && c->in != next) die("build script length");
        c->in = next;
        slot_check(s);
        put32(&c->out, (uint32_t)res);
        break;
    }
    case 'A': {                                 /* Allocate a repeated field. */
        struct slot *s = get_slot(c);
        unsigned idx = get16(c);
        int count = (int)get32(c);
        const struct fld *f;
        int res;
        need_root(s);
        f = &s->m->fields[idx];
        if (f->label != L_REPEATED) die("not repeated");
        LIB(res = f->alloc_n(s->root, count));
        slot_check(s);
        put32(&c->out, (uint32_t)res);
        put32(&c->out, (uint32_t)((struct rep *)((char *)s->root + f->off))->length);
        break;
    }
    case 'E': {
        struct slot *s = get_slot(c);
        uint32_t size = get32(c);
        int mis = get8(c), res;
        uint8_t *block, *buf;
        need_root(s);
        res = do_encode(s, size, mis, &block, &buf);
        slot_check(s);
        put32(&c->out, (uint32_t)res);
        if (res > 0) put(&c->out, buf, (size_t)res);
        free(block);
        break;
    }
    case 'D': {
        struct slot *s = get_slot(c);
        int mis = get8(c);
        uint32_t n = get32(c);
        const uint8_t *p = get(c, n);
        int res, modified;
        need_root(s);
        res = do_decode(s, p, n, mis, &modified);
        put32(&c->out, (uint32_t)res);
        put8(&c->out, (uint8_t)modified);
        break;
    }
    case 'G': {                                 /* Set the shared input. */
        uint32_t n = get32(c);
        shared_set(get(c, n), n);
        break;
    }
    case 'H': {                                 /* Decode the shared input. */
        struct slot *s = get_slot(c);
        int res;
        need_root(s);
        LIB(res = s->m->decode(s->root, shared, shared_n));
        slot_check(s);
        put32(&c->out, (uint32_t)res);
        break;
    }
    case 'M': {                                 /* New in a giant workspace. */
        struct slot *s = get_slot(c);
        const struct msg *m = get_msg(c);
        uint64_t size = get64(c);
        slot_free(s);
        s->ws = giant(size, &s->map, &s->map_size);
        s->size = size;
        s->m = m;
        LIB(s->root = m->new_(s->ws, size));
        if (s->root != NULL && ((uint8_t *)s->root < s->ws
                                || (uint8_t *)s->root + m->size > s->ws + size)) {
            found("message outside the workspace");
        }
        put8(&c->out, s->root != NULL);
        break;
    }
    case 'K': {                                 /* Encode into a giant buffer. */
        struct slot *s = get_slot(c);
        uint64_t size = get64(c);
        uint8_t *map, *buf;
        size_t map_size;
        int res;
        need_root(s);
        buf = giant(size, &map, &map_size);
        LIB(res = s->m->encode(s->root, buf, size));
        put32(&c->out, (uint32_t)res);
        if (res > 0) put(&c->out, buf, (size_t)res);
        munmap(map, map_size);
        break;
    }
    case 'J': {                                 /* Decode a giant input. */
        struct slot *s = get_slot(c);
        uint64_t size = get64(c);
        uint32_t n = get32(c);
        const uint8_t *p = get(c, n);
        uint8_t *map, *buf;
        size_t map_size;
        int res;
        need_root(s);
        buf = giant(size, &map, &map_size);
        memcpy(buf, p, n);
        LIB(res = s->m->decode(s->root, buf, size));
        put32(&c->out, (uint32_t)res);
        munmap(map, map_size);
        break;
    }
    case 'P': {                                 /* Giant string or bytes field, encoded. */
        struct slot *s = get_slot(c);
        const struct fld *f;
        char *p;
        uint64_t length;
        uint32_t size;
        uint8_t *map, *block, *buf;
        size_t map_size;
        int res;
        f = &s->m->fields[get16(c)];
        length = get64(c);
        size = get32(c);
        need_root(s);
        p = (char *)s->root + f->off;
        if (f->label == L_ONEOF) LIB(f->select(s->root));
        if (f->label == L_OPTIONAL) *(bool *)((char *)s->root + f->off2) = true;
        if (f->label == L_REPEATED) {
            LIB(res = f->alloc_n(s->root, 1));
            if (res != 0) die("giant item");
            p = (char *)((struct rep *)p)->items;
        }
        if (f->kind == K_STRING) {
            *(char **)p = giant_string(length, &map, &map_size);
        } else {
            struct pbtools_bytes_t *b = (struct pbtools_bytes_t *)p;
            b->buf_p = giant(length, &map, &map_size);
            b->size = length;
        }
        res = do_encode(s, size, 0, &block, &buf);
        put32(&c->out, (uint32_t)res);
        free(block);
        munmap(map, map_size);
        s->root = NULL;
        break;
    }
    case 'Q': {                                 /* Ownership of content. */
        struct slot *s = get_slot(c);
        need_root(s);
        ownership(s, s->m, s->root);
        break;
    }
    case 'U': {
        struct slot *s = get_slot(c);
        size_t at = c->out.n;
        uint32_t n;
        need_root(s);
        put32(&c->out, 0);
        dump(&c->out, s->m, s->root);
        n = (uint32_t)(c->out.n - at - 4);
        memcpy(c->out.p + at, &n, 4);
        break;
    }
    case 'F':
        slot_free(get_slot(c));
        break;
    case 'W':                                   /* Decode sweep. */
    case 'V': {                                 /* Build sweep. */
        struct slot s;
        struct rbuf ref = { 0 }, now = { 0 };
        const struct msg *m = get_msg(c);
        uint32_t lo = get32(c), hi = get32(c), step = get32(c), big = get32(c), i;
        int mis = get8(c), fill = get8(c);
        uint32_t n = get32(c);
        const uint8_t *data = get(c, n), *next = c->in;
        size_t at = c->out.n;
        int modified, res, bad = 0;

        memset(&s, 0, sizeof(s));
        put32(&c->out, 0);
        put32(&c->out, 0);
        for (i = 0; ; ) {
            uint32_t size = (i == 0 ? big : lo + (i - 1) * step);
            uint8_t code;
            if (i > 0 && size > hi) break;
            slot_new(&s, m, size, mis, fill);
            if (s.root == NULL) {
                code = 'N';
            } else {
                int ok;
                if (op == 'W') {
                    res = do_decode(&s, data, n, mis, &modified);
                    ok = (res == (int)n && !modified);
                    code = (res == -PBTOOLS_OUT_OF_MEMORY) ? 'M' : 'E';
                } else {
                    struct ctx b;
                    memset(&b, 0, sizeof(b));
                    b.in = data;
                    b.end = data + n;
                    res = build(&b, &s, m, s.root);
                    slot_check(&s);
                    ok = (res == 0);
                    code = (res < 0) ? 'M' : 'E';
                }
                if (!ok && code == 'E') bad = res;
                if (ok) {
                    now.n = 0;
                    dump(&now, m, s.root);
                    if (i == 0) {
                        put(&ref, now.p, now.n);
                        code = 'K';
                    } else {
                        code = (now.n == ref.n
                                && memcmp(now.p, ref.p, now.n) == 0) ? 'K' : 'X';
                    }
                }
            }
            put8(&c->out, code);
            i++;
        }
        slot_free(&s);
        free(ref.p);
        free(now.p);
        n = (uint32_t)(c->out.n - at - 8);
        memcpy(c->out.p + at, &n, 4);
        memcpy(c->out.p + at + 4, &bad, 4);
        c->in = next;
        break;
    }
    case 'C': {                                 /* Encode buffer size sweep. */
        struct slot *s = get_slot(c);
        uint32_t big = get32(c), lo = get32(c), hi = get32(c), step = get32(c), size;
        int mis = get8(c), res, len, bad = 0;
        uint8_t *rblock, *rbuf, *block, *buf;
        size_t at = c->out.n;
        uint32_t n;

        need_root(s);
        len = do_encode(s, big, mis, &rblock, &rbuf);
        put32(&c->out, (uint32_t)len);
        put32(&c->out, 0);
        put32(&c->out, 0);
        if (len >= 0) {
            for (size = lo; size <= hi; size += step) {
                uint8_t code;
                res = do_encode(s, size, mis, &block, &buf);
                if (res == len && (len == 0
                                   || memcmp(buf, rbuf, (size_t)len) == 0)) {
                    code = 'K';
                } else if (res == -PBTOOLS_ENCODE_BUFFER_FULL) {
                    code = 'F';
                } else {
                    code = 'X';
                    bad = res;
                }
                free(block);
                put8(&c->out, code);
            }
        }
        free(rblock);
        n = (uint32_t)(c->out.n - at - 12);
        memcpy(c->out.p + at + 4, &n, 4);
        memcpy(c->out.p + at + 8, &bad, 4);
        break;
    }
    case 'S': {
        int code = (int)get32(c);
        const char *s = pbtools_error_code_to_string(code);
        uint32_t n = (uint32_t)strlen(s);
        put32(&c->out, n);
        put(&c->out, s, n);
        break;
    }
    case 'T': {
        int n = get8(c), i;
        struct thr *t = calloc((size_t)n, sizeof(*t));
        pthread_barrier_t bar;

        pthread_barrier_init(&bar, NULL, (unsigned)n);
        for (i = 0; i < n; i++) {
            uint32_t len = get32(c);
            t[i].c.in = get(c, len);
            t[i].c.end = t[i].c.in + len;
            t[i].bar = &bar;
        }
        for (i = 0; i < n; i++) {
            if (pthread_create(&t[i].t, NULL, thr_main, &t[i]) != 0) die("thread");
        }
        for (i = 0; i < n; i++) {
            int j;
            pthread_join(t[i].t, NULL);
            put32(&c->out, (uint32_t)t[i].c.out.n);
            put(&c->out, t[i].c.out.p, t[i].c.out.n);
            free(t[i].c.out.p);
            for (j = 0; j < NSLOTS; j++) slot_free(&t[i].c.slots[j]);
        }
        pthread_barrier_destroy(&bar);
        free(t);
        break;
    }
    case 'I': {
        int i;
        put32(&c->out, (uint32_t)pbv_nmsgs);
        for (i = 0; i < pbv_nmsgs; i++) put32(&c->out, (uint32_t)pbv_msgs[i].size);
        break;
    }
    case 'Z':
        put32(&c->out, (uint32_t)__atomic_exchange_n(&lib_allocs, 0, __ATOMIC_RELAXED));
        break;
#ifdef PBV_COUNT
    case 'X':                                   /* Cost of the last operation. */
        put64(&c->out, last_work);
        put64(&c->out, (uint64_t)(stack_top - stack_low));
        break;
#endif
    default:
        die("bad operation");
    }
}

static void run(struct ctx *c)
{
    while (c->in < c->end) run_one(c);
}

#ifdef PBV_FUZZ
/* libFuzzer entry: choice of message, workspace size and misalignment, then
 * the encoded bytes. */
int LLVMFuzzerTestOneInput(const uint8_t *data, size_t n)
{
    static const uint8_t fills[4] = { 0x00, 0xa5, 0xee, 0xee };
    struct slot s, t;
    struct rbuf a = { 0 }, b = { 0 };
    const struct msg *m;
    int res, mod, len, tries = 0;
    uint8_t *block, *buf;
    size_t size, most = 16;
    int i;
    uint8_t head[4];

    if (n < 4) return -1;
    memcpy(head, data, 4);
    data += 4;
    n -= 4;
    do {
        m = &pbv_msgs[(head[0] + tries++) % pbv_nmsgs];
    } while (m->new_ == NULL && tries <= pbv_nmsgs);
    if (m->new_ == NULL) return -1;
    size = head[1] < 64 ? head[2] * 16u + head[1] : 1024u + n * 64u;
    memset(&s, 0, sizeof(s));
    memset(&t, 0, sizeof(t));
    slot_new(&s, m, size, head[3] & 7, fills[(head[3] >> 3) & 3]);
    if (s.root != NULL) {
        res = do_decode(&s, data, n, (head[3] >> 5) & 3, &mod);
        if (mod) found("decode modified its input");
        if (res > 0 && (size_t)res != n) found("decode result is not the input length");
        if (res == 0 && n != 0) found("decode of data reports zero bytes");
        if (res < -PBTOOLS_LENGTH_DELIMITED_OVERFLOW) found("unknown error code");
        if (res >= 0) {
            ownership(&s, s.m, s.root);
            dump(&a, m, s.root);
            len = do_encode(&s, n * 12 + 64, 0, &block, &buf);
            if (len < 0) found("an accepted message cannot be encoded");
            for (i = 0; i < pbv_nmsgs; i++) {
                if (pbv_msgs[i].size > most) most = pbv_msgs[i].size;
            }
            slot_new(&t, m, 4096 + (n / 2 + 4) * (most + 64), 0, 0xff);
            res = do_decode(&t, buf, (size_t)len, 0, &mod);
            if (res != len) found("own encoding is not accepted");
            dump(&b, m, t.root);
            if (a.n != b.n || memcmp(a.p, b.p, a.n) != 0) {
                found("encode and decode change the content");
            }
            free(block);
        }
    }
    slot_free(&s);
    slot_free(&t);
    free(a.p);
    free(b.p);
    return 0;
}
#endif

#ifndef PBV_FUZZ
static int read_all(void *p, size_t n)
{
    uint8_t *q = p;
    while (n > 0) {
        ssize_t r = read(0, q, n);
        if (r <= 0) return -1;
        q += r;
        n -= (size_t)r;
    }
    return 0;
}

static void write_all(const void *p, size_t n)
{
    const uint8_t *q = p;
    while (n > 0) {
        ssize_t r = write(1, q, n);
        if (r <= 0) _exit(96);
        q += r;
        n -= (size_t)r;
    }
}

int main(void)
{
    static struct ctx c;
    uint32_t n;
    int i;

    while (read_all(&n, 4) == 0) {
        uint8_t *req = malloc(n ? n : 1);
        if (req == NULL || read_all(req, n) != 0) return 1;
        c.in = req;
        c.end = req + n;
        c.out.n = 0;
        run(&c);
        n = (uint32_t)c.out.n;
        write_all(&n, 4);
        write_all(c.out.p, n);
        free(req);
    }
    for (i = 0; i < NSLOTS; i++) slot_free(&c.slots[i]);
    free(c.out.p);
    return 0;
}
#endif
