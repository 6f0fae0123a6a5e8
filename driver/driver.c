/* Concrete replay of one call of the library per case.
 * The objects of /repo/src are linked with malloc/free/calloc/realloc/rand/srand/time
 * wrapped, so that every block they allocate is seen here, is filled with 0xA5, can be
 * made to fail, and is matched with its own deallocation function. */
#include <signal.h>
#include <sys/time.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include "src/core/allocator.h"
#include "src/core/tensor.h"
#include "src/core/types.h"
#include "src/basic/broadcast.h"
#include "src/basic/cast.h"
#include "src/basic/duplicate.h"
#include "src/basic/factories.h"
#include "src/basic/index_utils.h"
#include "src/basic/reshape.h"
#include "src/basic/slice.h"
#include "src/basic/squeeze.h"
#include "src/math/binary_op.h"
#include "src/math/dot.h"
#include "src/math/matmul.h"
#include "src/math/sqrt.h"
#include "src/nn/batch_norm.h"
#include "src/nn/conv.h"
#include "src/nn/dropout.h"
#include "src/nn/pooling.h"
#include "src/nn/relu.h"
#include "src/nn/sigmoid.h"
#include "src/nn/softmax.h"
#include "src/nn/tanh.h"

extern void *__real_malloc(size_t);
extern void __real_free(void *);

/* ---- tracked blocks ---- */
enum { FAM_MALLOC, FAM_RAW };
typedef struct Blk { void *p; size_t n; int fam, live; } Blk;
#define MAXBLK (1 << 22)
static Blk blks[MAXBLK];
static int nblk, nalloc, fail_at, failed;
static char notes[4096];
static void note(const char *s) {
  if (strlen(notes) + strlen(s) + 2 < sizeof notes) { if (notes[0]) strcat(notes, "; "); strcat(notes, s); }
}
static void *take(size_t n, int fam) {
  int k = nalloc++;
  if (k == fail_at) { failed = 1; return NULL; }
  if (n > (size_t)1 << 33) { note("unreasonable allocation size"); return NULL; }
  void *p = __real_malloc(n);
  if (!p) return NULL;
  memset(p, 0xA5, n);
  if (nblk == MAXBLK) { note("too many blocks"); return p; }
  blks[nblk].p = p; blks[nblk].n = n; blks[nblk].fam = fam; blks[nblk].live = 1; nblk++;
  return p;
}
static Blk *find(void *p) {
  for (int i = nblk - 1; i >= 0; --i) if (blks[i].p == p && blks[i].live) return &blks[i];
  return NULL;
}
static void drop(void *p, int fam) {
  if (!p) return;
  Blk *b = find(p);
  if (!b) { note("release of a block that is not live"); return; }
  if (b->fam != fam) note("block released by the wrong allocator");
  b->live = 0;
  while (nblk && !blks[nblk - 1].live) nblk--;
  /* the memory stays poisoned by the sanitizer from here on */
  __real_free(p);
}
static int tracking;
void *__wrap_malloc(size_t n) { return tracking ? take(n, FAM_MALLOC) : __real_malloc(n); }
void __wrap_free(void *p) { if (tracking) drop(p, FAM_MALLOC); else __real_free(p); }
void *__wrap_calloc(size_t a, size_t b) { void *p = __wrap_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void *__wrap_realloc(void *p, size_t n) {
  if (!p) return __wrap_malloc(n);
  Blk *b = find(p); size_t o = b ? b->n : 0;
  void *q = __wrap_malloc(n);
  if (q) { memcpy(q, p, o < n ? o : n); __wrap_free(p); }
  return q;
}
static void *raw_alloc(size_t n) { return take(n, FAM_RAW); }
static void raw_free(void *p) { drop(p, FAM_RAW); }

/* ---- random stream ---- */
static uint32_t rstate; static int nrand; static int rvals[65536];
int __wrap_rand(void) {
  rstate = rstate * 1664525u + 1013904223u;
  int v = (int)(rstate >> 1);
  if (nrand < 65536) rvals[nrand++] = v;
  return v;
}
void __wrap_srand(unsigned s) { (void)s; }
time_t __wrap_time(time_t *t) { if (t) *t = 12345; return 12345; }

/* ---- input ---- */
static unsigned char *buf; static size_t blen, bpos;
static void die(const char *s) { fprintf(stderr, "driver: %s\n", s); _exit(97); }
static void get(void *d, size_t n) { if (bpos + n > blen) die("short case"); memcpy(d, buf + bpos, n); bpos += n; }
static uint8_t g8(void) { uint8_t v; get(&v, 1); return v; }
static int32_t g32(void) { int32_t v; get(&v, 4); return v; }
static int64_t g64(void) { int64_t v; get(&v, 8); return v; }

typedef struct Mem { unsigned char *p, *copy; size_t n; char name[32]; int mut; } Mem;
static Mem mems[256]; static int nmem;
static void *keep(const void *d, size_t n, const char *what, int idx) {
  unsigned char *p = __real_malloc(n ? n : 1), *c = __real_malloc(n ? n : 1);
  memcpy(p, d, n); memcpy(c, d, n);
  Mem *m = &mems[nmem++];
  m->mut = 0; m->p = p; m->copy = c; m->n = n; snprintf(m->name, sizeof m->name, "%s%d", what, idx);
  return p;
}

static void hex(const void *p, size_t n) {
  const unsigned char *c = p;
  for (size_t i = 0; i < n; ++i) printf("%02x", c[i]);
}

/* a tensor handed out by the library; returns 0 when it is not a complete tensor */
static int whole(Tensor t, Blk **b) {
  b[0] = b[1] = b[2] = b[3] = b[4] = NULL;
  if (!(b[0] = find(t)) || b[0]->n < sizeof(struct _TensorImpl)) return 0;
  if (!(b[1] = find(t->storage)) || b[1]->n < sizeof(struct _StorageImpl)) return 0;
  if (t->shape.ndim < 0 || t->shape.ndim > 64) return 0;
  size_t nd = t->shape.ndim;
  if (t->shape.dims && !(b[2] = find(t->shape.dims))) return 0;
  if (t->shape.layout.min2maj && !(b[3] = find(t->shape.layout.min2maj))) return 0;
  if (nd && (!b[2] || b[2]->n < nd * 8 || !b[3] || b[3]->n < nd * 8)) return 0;
  if (t->storage->data && !(b[4] = find(t->storage->data))) return 0;
  return 1;
}

/* ---- functions ---- */
#include "clients.c"
typedef struct { const char *name; void *f; int kind; } Fn;
#define F(n) { #n, (void *)n, 0 }
static Fn fns[] = {
  F(aitisa_create), F(aitisa_destroy), F(aitisa_resolve), F(aitisa_full), F(aitisa_cast), F(aitisa_duplicate),
  F(aitisa_reshape), F(aitisa_slice), F(aitisa_squeeze), F(aitisa_broadcast_array), F(aitisa_coords_to_linidx),
  F(aitisa_linidx_to_coords), F(aitisa_coords_to_offset), F(aitisa_offset_to_coords), F(aitisa_get_stride),
  F(aitisa_get_all_strides), F(aitisa_add), F(aitisa_sub), F(aitisa_mul), F(aitisa_div), F(aitisa_dot), F(aitisa_matmul),
  F(aitisa_sqrt), F(aitisa_batch_norm), F(aitisa_conv), F(aitisa_conv2d), F(aitisa_conv3d), F(aitisa_dropout), F(aitisa_pooling), F(aitisa_relu),
  F(aitisa_sigmoid), F(aitisa_softmax), F(aitisa_tanh),
  F(cl_get), F(cl_set), F(cl_geta), F(cl_seta), F(cl_cast), F(cl_item), F(cl_resolve), F(cl_fields), F(cl_create_destroy), F(cl_destroy),
  F(cl_dup_outlives), F(cl_roundtrip_lin), F(cl_roundtrip_coords), F(cl_reshape_back), { 0, 0, 0 } };

static int curcase;
static void on_alarm(int s) {
  (void)s; static const char m[] = "TIMEOUT\n";
  if (write(1, m, sizeof m - 1) < 0) _exit(98);
  _exit(98);
}

/* processor time, so that a loaded machine does not look like a call that never returns */
static void limit(int sec) {
  struct itimerval t = {{0, 0}, {sec, 0}};
  setitimer(ITIMER_PROF, &t, NULL);
  alarm(sec ? 40 * sec : 0);
}

int main(void) {
  signal(SIGALRM, on_alarm);
  signal(SIGPROF, on_alarm);
  aitisa_set_default_cpu_raw_alloc(raw_alloc);
  aitisa_set_default_cpu_raw_dealloc(raw_free);
  for (;;) {
    uint32_t n;
    if (fread(&n, 1, 4, stdin) != 4) return 0;
    buf = __real_malloc(n); blen = n; bpos = 0;
    if (fread(buf, 1, n, stdin) != n) return 0;
    curcase = g32();
    char name[80]; int k = g8(); get(name, k); name[k] = 0;
    fail_at = -1; failed = 0; nalloc = 0; nblk = 0; nmem = 0; notes[0] = 0; nrand = 0; rstate = 12345 + curcase;
    int want_fail = g32();
    int nargs = g8();
    long a[12] = {0}; double d[2] = {0}; int na = 0, nd = 0;
    long made[16];
    void *slot = NULL, *buffers[16]; size_t bufn[16]; int nbuf = 0;
    void *owned[4]; int nowned = 0;
    tracking = 1;
    printf("BEGIN %d\n", curcase); fflush(stdout);
    for (int i = 0; i < nargs; ++i) {
      int c = g8(); made[i] = 0;
      switch (c) {
      case 'I': made[i] = g64(); break;
      case 'F': get(&d[nd++], 8); break;
      case 'T': case 'U': case 'M': {
        struct _TensorImpl t; struct _StorageImpl s; memset(&t, 0, sizeof t); memset(&s, 0, sizeof s);
        int code = g32(), es = g32(), dev = g32(), id = g32(), r = g32();
        int64_t *dm = NULL, *mm = NULL, sz = 1;
        int64_t tmp[64], tm2[64];
        for (int j = 0; j < r; ++j) { tmp[j] = g64(); sz *= tmp[j]; tm2[j] = r - 1 - j; }
        int nb = g32();
        s.dtype.code = code; s.dtype.size = es; s.device.type = dev; s.device.id = id; s.size = sz;
        t.size = sz; t.offset = 0; t.shape.ndim = r; t.shape.layout.type = LAYOUT_DENSE;
        if (c != 'U') {
          if (r) { dm = keep(tmp, r * 8, "dims", i); mm = keep(tm2, r * 8, "min2maj", i); }
          s.data = keep(buf + bpos, nb, "data", i);
          if (c == 'M') { mems[nmem - 1].mut = 1; }
          t.shape.dims = dm; t.shape.layout.min2maj = mm;
          t.storage = keep(&s, sizeof s, "storage", i);
          made[i] = (long)keep(&t, sizeof t, "tensor", i);
        } else { /* built from library blocks: the handle is owned by the callee (aitisa_destroy) */
          if (r) { dm = take(r * 8, FAM_RAW); mm = take(r * 8, FAM_RAW); memcpy(dm, tmp, r * 8); memcpy(mm, tm2, r * 8); }
          s.data = take(nb, FAM_RAW); memcpy(s.data, buf + bpos, nb);
          t.shape.dims = dm; t.shape.layout.min2maj = mm;
          t.storage = take(sizeof s, FAM_RAW); memcpy(t.storage, &s, sizeof s);
          Tensor h = take(sizeof t, FAM_RAW); memcpy(h, &t, sizeof t);
          slot = __real_malloc(8); *(Tensor *)slot = h; made[i] = (long)slot;
        }
        bpos += nb; break;
      }
      case 'R': made[i] = made[g8()]; break;
      case 'i': { int m = g32(); made[i] = (long)keep(buf + bpos, m * 4, "array", i); bpos += m * 4; break; }
      case 'q': { int m = g32(); made[i] = (long)keep(buf + bpos, m * 8, "array", i); bpos += m * 8; break; }
      case 's': { int m = g32(); made[i] = (long)keep(buf + bpos, m, "string", i); bpos += m; break; }
      case 'n': made[i] = 0; break;
      case 'O': slot = __real_malloc(8); memset(slot, 0x5A, 8); made[i] = (long)slot; break;
      case 'B': { int m = g32(); buffers[nbuf] = __real_malloc(m); memset(buffers[nbuf], 0xA5, m); bufn[nbuf] = m; made[i] = (long)buffers[nbuf++]; break; }
      case 'W': { int m = g32(); void *p = take(m, FAM_RAW); memcpy(p, buf + bpos, m); bpos += m; owned[nowned++] = p; made[i] = (long)p; break; }
      default: die("argument kind");
      }
      if (c != 'F') a[na++] = made[i];
    }
    void *f = NULL;
    for (Fn *p = fns; p->name; ++p) if (!strcmp(p->name, name)) f = p->f;
    if (!f) die("unknown function");
    nalloc = 0; fail_at = want_fail;
    limit(10);
    long r = ((long (*)(long, long, long, long, long, long, long, long, long, long, long, long, double, double))f)(
        a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], d[0], d[1]);
    limit(0);
    fail_at = -1;
    printf("RET %ld %d\n", r, (int)r);
    printf("ALLOC %d %d\n", nalloc, failed);
    for (int i = 0; i < nmem; ++i)
      if (mems[i].mut) { printf("MUT %s ", mems[i].name); hex(mems[i].p, mems[i].n); printf("\n"); }
      else if (memcmp(mems[i].p, mems[i].copy, mems[i].n)) printf("MODIFIED %s\n", mems[i].name);
    for (int i = 0; i < nowned; ++i) { Blk *b = find(owned[i]); printf("OWNED %d %d\n", i, b != NULL); }
    for (int i = 0; i < nbuf; ++i) { printf("BUF %d ", i); hex(buffers[i], bufn[i]); printf("\n"); }
    if (nrand) { printf("RAND"); for (int i = 0; i < nrand; ++i) printf(" %d", rvals[i]); printf("\n"); }
    Blk *b[5] = {0};
    int have = 0;
    if (slot) {
      uint64_t raw; memcpy(&raw, slot, 8);
      if (raw == 0x5A5A5A5A5A5A5A5Aull) printf("OUT untouched\n");
      else if (!raw) printf("OUT null\n");
      else {
        int isin = 0;
        for (int i = 0; i < nmem; ++i) if ((uint64_t)mems[i].p == raw) isin = 1;
        Tensor t = (Tensor)raw;
        if (isin) printf("OUT input\n");
        else if (!whole(t, b)) printf("OUT broken\n");
        else {
          have = 1;
          int fam = b[0]->fam == FAM_RAW && b[1]->fam == FAM_RAW && (!b[2] || b[2]->fam == FAM_RAW) && (!b[3] || b[3]->fam == FAM_RAW) && (!b[4] || b[4]->fam == FAM_RAW);
          int64_t nb = b[4] ? (int64_t)b[4]->n : 0;
          int ow = -1; for (int i = 0; i < nowned; ++i) if (owned[i] == t->storage->data) ow = i;
          int al = 0;
          for (int i = 0; i < 5; ++i) for (int j = 0; j < i; ++j) if (b[i] && b[i] == b[j]) al = 1;
          printf("OUT tensor size %ld offset %ld ndim %ld layout %d code %d es %d dev %d id %d ssize %ld bytes %ld owned %d alias %d fam %d dims",
                 (long)t->size, (long)t->offset, (long)t->shape.ndim, (int)t->shape.layout.type, (int)t->storage->dtype.code, (int)t->storage->dtype.size,
                 (int)t->storage->device.type, (int)t->storage->device.id, (long)t->storage->size, (long)nb, ow, al, fam);
          for (int64_t i = 0; i < t->shape.ndim; ++i) printf(" %ld", (long)t->shape.dims[i]);
          printf(" m");
          for (int64_t i = 0; i < t->shape.ndim; ++i) printf(" %ld", (long)t->shape.layout.min2maj[i]);
          printf(" nulls %d\nDATA ", (t->shape.dims == NULL) + (t->shape.layout.min2maj == NULL));
          if (b[4]) hex(t->storage->data, nb);
          printf("\n");
        }
      }
    }
    int leak = 0;
    for (int i = 0; i < nblk; ++i) {
      if (!blks[i].live) continue;
      int ok = 0;
      for (int j = 0; j < 5; ++j) if (have && b[j] == &blks[i]) ok = 1;
      for (int j = 0; j < nowned; ++j) if (blks[i].p == owned[j]) ok = 1;
      if (!ok) leak++;
    }
    printf("LEAK %d\n", leak);
    if (notes[0]) { printf("NOTE %s\n", notes); notes[0] = 0; }
    fflush(stdout);
    if (have && strcmp(name, "aitisa_destroy")) {
      limit(10);
      Status s = aitisa_destroy((Tensor *)slot);
      limit(0);
      int left = 0;
      for (int j = 0; j < 5; ++j) if (b[j] && b[j]->live) left++;
      printf("DESTROY %d %d %d\n", (int)s, left, *(void **)slot == NULL);
      for (int i = 0; i < nmem; ++i)
        if (!mems[i].mut && memcmp(mems[i].p, mems[i].copy, mems[i].n)) printf("MODIFIED %s after destroy\n", mems[i].name);
      if (notes[0]) printf("NOTE destroy: %s\n", notes);
    }
    printf("END\n"); fflush(stdout);
    tracking = 0;
    for (int i = 0; i < nblk; ++i) if (blks[i].live) __real_free(blks[i].p);
    for (int i = 0; i < nmem; ++i) { __real_free(mems[i].p); __real_free(mems[i].copy); }
    for (int i = 0; i < nbuf; ++i) __real_free(buffers[i]);
    if (slot) __real_free(slot);
    __real_free(buf);
  }
}
