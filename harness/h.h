/* Common part of the replay/bounded harness: random numbers, allocation tracking, a reference
 * model of trees written independently of the library, and helpers that build and inspect trees
 * through the public interface. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <limits.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <signal.h>
#include <zlib.h>
#include "kvtree.h"
#include "kvtree_util.h"
#include "kvtree_helpers.h"
#include "kvtree_io.h"

static const char *what = "start";          /* what the harness is doing, for failure reports */
static uint64_t rs = 1;
static uint64_t rnd(void) {
  uint64_t z = (rs += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static int rn(int n) { return n <= 0 ? 0 : (int)(rnd() % (uint64_t)n); }
static uint64_t case_seed;
static int report_fd = 1;
static int harness_rank = 0;

static void fail_(int line, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  char b[2000];
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  fflush(stdout);
  dprintf(report_fd, "FAIL rank %d case-seed %llu [%s]: %s (harness line %d)\n", harness_rank, (unsigned long long)case_seed, what, b, line);
  _exit(3);
}
#define FAILED(...) fail_(__LINE__, __VA_ARGS__)
#define CHECK(c, ...) do { if (!(c)) fail_(__LINE__, __VA_ARGS__); } while (0)

/* ------------------------------------------------------------- allocation tracking (--wrap) */
#ifndef NO_ALLOC_TRACK
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void __real_free(void *);
char *__real_strdup(const char *); char *__real_strndup(const char *, size_t);
static size_t AT = 1 << 16;                  /* slots in use; 1 << 21 for the large cases */
static void *at[1 << 21]; static long at_live; static int at_on;
static size_t at_max;                        /* largest single request while tracking */
static void at_add(void *p) {
  if (!at_on || !p) return;
  size_t i = ((uintptr_t)p >> 4) & (AT - 1);
  for (size_t n = 0; n < AT; n++, i = (i + 1) & (AT - 1)) if (!at[i] || at[i] == (void *)1) { at[i] = p; at_live++; return; }
}
static void at_del(void *p) {
  size_t i = ((uintptr_t)p >> 4) & (AT - 1);
  for (size_t n = 0; n < AT && at[i]; n++, i = (i + 1) & (AT - 1)) if (at[i] == p) { at[i] = (void *)1; at_live--; return; }
}
static size_t at_limit = (size_t)-1;
void *__wrap_malloc(size_t n) { if (n > at_limit) FAILED("a buffer of %zu bytes is requested", n); if (at_on && n > at_max) at_max = n; void *p = __real_malloc(n); at_add(p); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); at_add(p); return p; }
void *__wrap_realloc(void *o, size_t n) { if (o) at_del(o); void *p = __real_realloc(o, n); at_add(p); return p; }
char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); at_add(p); return p; }
char *__wrap_strndup(const char *s, size_t n) { char *p = __real_strndup(s, n); at_add(p); return p; }
void __wrap_free(void *p) { if (p) at_del(p); __real_free(p); }
static void at_start(void) { memset(at, 0, AT * sizeof *at); at_live = 0; at_max = 0; at_on = 1; }
static void at_check(void) { at_on = 0; CHECK(at_live == 0, "%ld allocations were never released", at_live); }
static int at_save_off(void) { int o = at_on; at_on = 0; return o; }
static void at_restore(int o) { at_on = o; }
#else
static void at_start(void) {}
static void at_check(void) {}
static int at_save_off(void) { return 0; }
static void at_restore(int o) {}
#endif

/* ------------------------------------------------------------- reference model */
typedef struct M M;
typedef struct { char *key; M *sub; kvtree *ptr; } E;
struct M { int n; E *e; };
#ifndef NO_ALLOC_TRACK
#define m_alloc __real_malloc
#define m_realloc __real_realloc
#define m_free __real_free
#define m_strdup __real_strdup
#else
#define m_alloc malloc
#define m_realloc realloc
#define m_free free
#define m_strdup strdup
#endif
static M *m_new(void) { M *m = m_alloc(sizeof *m); m->n = 0; m->e = NULL; return m; }
static void m_del(M *m) {
  if (!m) return;
  for (int i = 0; i < m->n; i++) { m_free(m->e[i].key); m_del(m->e[i].sub); }
  m_free(m->e); m_free(m);
}
static int m_find(const M *m, const char *k) {
  if (m) for (int i = 0; i < m->n; i++) if (!strcmp(m->e[i].key, k)) return i;
  return -1;
}
static E *m_add(M *m, const char *k) {
  int i = m_find(m, k);
  if (i >= 0) return &m->e[i];
  m->e = m_realloc(m->e, (m->n + 1) * sizeof(E));
  E *e = &m->e[m->n++];
  e->key = m_strdup(k); e->sub = NULL; e->ptr = NULL;
  return e;
}
static void m_rm(M *m, int i) {
  m_free(m->e[i].key); m_del(m->e[i].sub);
  m->e[i] = m->e[--m->n];
}
static void m_merge(M *d, const M *s) {
  if (!s) return;
  for (int i = 0; i < s->n; i++) {
    E *e = m_add(d, s->e[i].key);
    if (!e->sub) e->sub = m_new();
    m_merge(e->sub, s->e[i].sub);
  }
}
static M *m_copy(const M *s) { M *m = m_new(); m_merge(m, s); return m; }

/* ------------------------------------------------------------- keys and trees */
static const char *KEYS[] = {"a", "b", "c", "", "10", "2", "-1", "0", "1", "2147483647", "-2147483648", "2147483646", "9", "11",
  "key with space", "%s", "\xff\x80", "ab", "-10", "A", "RANK", "a.b/c"};
#define NKEYS ((int)(sizeof KEYS / sizeof *KEYS))
static char longkey[4000];
static int key_style;       /* 0 any, 1 integers only, 2 no blanks/odd */
static const char *rkey(void) {
  static char b[8][4000]; static int bi;
  char *o = b[bi++ & 7];
  int z = rn(100);
  if (key_style == 1) {
    static const int ed[] = {0, 1, -1, 2, 9, 10, 11, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 1000000000, -1000000000, 2000000000, -2000000000};
    if (z < 50) snprintf(o, 4000, "%d", ed[rn(15)]);
    else if (z < 80) snprintf(o, 4000, "%d", (int)(uint32_t)rnd());
    else snprintf(o, 4000, "%d", rn(40) - 20);
    return o;
  }
  if (z < 40) return KEYS[rn(5)];
  if (z < 75) return KEYS[rn(NKEYS)];
  if (z < 90) { snprintf(o, 4000, "k%d", rn(30)); return o; }
  if (z < 97) { snprintf(o, 4000, "%d", (int)(uint32_t)rnd()); return o; }
  int n = 100 + rn(z < 99 ? 300 : 3000), same = rn(2) ? n - 1 - rn(3) : 0;      /* half of the long keys share all but their end */
  for (int i = 0; i < n; i++) o[i] = i < same ? 'p' : 'a' + rn(26);
  if (same && rn(2)) { n = (int[]){127, 128, 129, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 1026, 2049}[rn(15)]; memset(o, 'p', n); o[n - 1] = 'a' + rn(3); }
  o[n] = 0;
  return o;
}
static kvtree *k_from(const M *m) {      /* build through the public interface; remembers the pointers in m */
  kvtree *h = kvtree_new();
  CHECK(h != NULL, "kvtree_new returned nothing");
  for (int i = 0; m && i < m->n; i++) {
    kvtree *c = m->e[i].sub ? k_from(m->e[i].sub) : NULL;
    CHECK(kvtree_set(h, m->e[i].key, c) == c, "kvtree_set(%s) did not return the given value", m->e[i].key);
    m->e[i].ptr = c;
  }
  return h;
}
static int missing_ok = 1;
static M *m_random(int depth, int width) {
  M *m = m_new();
  int n = rn(width + 1);
  for (int i = 0; i < n; i++) {
    E *e = m_add(m, rkey());
    if (!e->sub && (!missing_ok || rn(4))) e->sub = depth > 0 ? m_random(depth - 1, width) : m_new();
  }
  return m;
}

/* full comparison of a tree with its model; exact: also identity of subtrees */
static void k_is(const kvtree *h, const M *m, int exact, const char *path) {
  int n = m ? m->n : 0, seen = 0;
  char sub[300];
  CHECK(kvtree_size(h) == n, "size is %d, expected %d, at path %.200s", kvtree_size(h), n, path);
  kvtree_elem **back = h ? &((kvtree *)h)->lh_first : NULL;
  for (kvtree_elem *e = kvtree_elem_first(h); e != NULL; e = kvtree_elem_next(e)) {
    char *k = kvtree_elem_key(e);
    CHECK(k != NULL, "element without key at %.200s", path);
    int i = m_find(m, k);
    CHECK(i >= 0, "unexpected key %.200s at %.200s", k, path);
    CHECK(++seen <= n, "more elements than expected (or a key twice) at %.200s", path);
    CHECK(e->pointers.le_prev == back && *back == e, "list links are inconsistent at %.200s", path);
    back = &e->pointers.le_next;
    if (exact) CHECK(kvtree_elem_hash(e) == m->e[i].ptr, "key %.200s at %.200s holds another subtree than the one stored", k, path);
    CHECK(kvtree_elem_get(h, k) == e, "key %.200s is found at another element at %.200s", k, path);
    CHECK(kvtree_get(h, k) == kvtree_elem_hash(e), "lookup of %.200s at %.200s differs from the element", k, path);
    snprintf(sub, sizeof sub, "%.200s/%.60s", path, k);
    k_is(kvtree_elem_hash(e), m->e[i].sub, exact, sub);
  }
  CHECK(seen == n, "walk visits %d of %d elements at %.200s", seen, n, path);
}
/* the model of a tree as it is now */
static M *m_of(const kvtree *h) {
  M *m = m_new();
  for (kvtree_elem *e = kvtree_elem_first(h); e; e = kvtree_elem_next(e)) {
    E *x = m_add(m, kvtree_elem_key(e));
    x->ptr = kvtree_elem_hash(e);
    if (x->ptr) x->sub = m_of(x->ptr);
  }
  return m;
}
static void m_resync(const kvtree *h, M *m) {
  for (int i = 0; m && i < m->n; i++) {
    m->e[i].ptr = kvtree_get(h, m->e[i].key);
    if (m->e[i].ptr && !m->e[i].sub) m->e[i].sub = m_new();
    if (!m->e[i].ptr) { m_del(m->e[i].sub); m->e[i].sub = NULL; }
    else m_resync(m->e[i].ptr, m->e[i].sub);
  }
}

/* ------------------------------------------------------------- reference format */
typedef struct { unsigned char *p; size_t n, cap; } Buf;
static void b_put(Buf *b, const void *d, size_t n) {
  if (b->n + n > b->cap) { b->cap = (b->n + n) * 2 + 64; b->p = m_realloc(b->p, b->cap); }
  if (n) memcpy(b->p + b->n, d, n);
  b->n += n;
}
static void b_be(Buf *b, uint64_t v, int w) { unsigned char c[8]; for (int i = 0; i < w; i++) c[i] = (unsigned char)(v >> (8 * (w - 1 - i))); b_put(b, c, w); }
static void b_tree(Buf *b, const kvtree *h) {
  uint32_t n = 0;
  for (kvtree_elem *e = h ? h->lh_first : NULL; e; e = e->pointers.le_next) n++;
  b_be(b, n, 4);
  for (kvtree_elem *e = h ? h->lh_first : NULL; e; e = e->pointers.le_next) { b_put(b, e->key, strlen(e->key) + 1); b_tree(b, e->hash); }
}
static uint32_t ref_crc(const unsigned char *p, size_t n) {
  static uint32_t tab[256];
  if (!tab[1]) for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = c & 1 ? 0xedb88320u ^ (c >> 1) : c >> 1; tab[i] = c; }
  uint32_t c = 0xffffffffu;
  for (size_t i = 0; i < n; i++) c = tab[(c ^ p[i]) & 255] ^ (c >> 8);
  return c ^ 0xffffffffu;
}
/* header constants of the documented format */
#define R_MAGIC 0x951fc3f5u
#define R_TYPE 1
#define R_VERSION 1
static Buf ref_persist(const kvtree *h) {
  Buf t = {0}, b = {0};
  b_tree(&t, h);
  b_be(&b, R_MAGIC, 4); b_be(&b, R_TYPE, 2); b_be(&b, R_VERSION, 2);
  b_be(&b, 20 + t.n + 4, 8); b_be(&b, 1, 4);
  b_put(&b, t.p, t.n);
  b_be(&b, ref_crc(b.p, b.n), 4);
  m_free(t.p);
  return b;
}
/* ------------------------------------------------------------- what was covered */
static uint64_t m_hash(const M *m) {
  uint64_t h = 0x1234;
  for (int i = 0; m && i < m->n; i++) {
    for (const char *c = m->e[i].key; *c; c++) h = (h ^ (unsigned char)*c) * 0x100000001b3ULL;
    h = (h ^ (m->e[i].sub ? m_hash(m->e[i].sub) : 7)) * 0x9e3779b97f4a7c15ULL;
  }
  return h;
}
static uint64_t s_hash(const char *s) { uint64_t h = 99; for (; *s; s++) h = (h ^ (unsigned char)*s) * 0x100000001b3ULL; return h; }
#define NSEEN (1 << 18)
static uint64_t seen_[NSEEN]; static long cov_cases, cov_distinct; static int samples_;
static void note(uint64_t h, int nontrivial) {
  cov_cases++;
  if (!nontrivial) return;
  if (!h) h = 1;
  size_t i = (h >> 17) & (NSEEN - 1);
  for (int n = 0; n < NSEEN; n++, i = (i + 1) & (NSEEN - 1)) { if (seen_[i] == h) return; if (!seen_[i]) { seen_[i] = h; cov_distinct++; return; } }
}
static void sample(const char *fmt, ...) {
  if (samples_ >= 3) return;
  samples_++;
  va_list ap; va_start(ap, fmt); char b[700]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  for (char *c = b; *c; c++) if (*c < 32 || *c > 126) *c = '?';
  dprintf(report_fd, "SAMPLE %s\n", b);
}
static int m_text(const M *m, char *b, int n) {
  int o = snprintf(b, n, "{");
  for (int i = 0; m && i < m->n && o < n - 60; i++) {
    o += snprintf(b + o, n - o, "%s%.20s", i ? "," : "", m->e[i].key);
    if (m->e[i].sub && m->e[i].sub->n) { o += snprintf(b + o, n - o, ":"); o += m_text(m->e[i].sub, b + o, n - o - 30); }
  }
  if (o < n - 2) o += snprintf(b + o, n - o, "}");
  return o;
}
static void note_tree(const M *m, const char *w) {
  note(m_hash(m) ^ s_hash(w), m && m->n > 0);
  if (samples_ < 3 && m && m->n > 1) { char b[500]; m_text(m, b, 300); sample("%s on %s", w, b); }
}
static int report_ok(const char *prop) { dprintf(report_fd, "OK %s evaluations %ld distinct %ld\n", prop, cov_cases, cov_distinct); return 0; }
/* the library logs to standard output: keep that away from the report */
void __sanitizer_set_report_fd(void *);
static void quiet_stderr(void) { if (report_fd == 1) report_fd = dup(1); __sanitizer_set_report_fd((void *)(intptr_t)report_fd); int nf = open("/dev/null", O_WRONLY); if (nf >= 0) { dup2(nf, 1); close(nf); } int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 2); close(fd); } }
