/* Bounded/replay harness for the in-memory part (C01-C11, C21, C22).
 * usage: h_tree <property> <seed> <cases>       exit 0: nothing found, 3: a failing case was found */
#include "h.h"

typedef struct { kvtree *h; M *m; } T;
static T top;

/* pick a random node of the tree */
static T pick(void) {
  T t = top;
  for (;;) {
    int n = t.m->n, c[64], k = 0;
    for (int i = 0; i < n && k < 64; i++) if (t.m->e[i].ptr) c[k++] = i;
    if (!k || rn(2)) return t;
    int i = c[rn(k)];
    if (!t.m->e[i].sub) t.m->e[i].sub = m_new();
    t = (T){t.m->e[i].ptr, t.m->e[i].sub};
  }
}
static const char *pickkey(const M *m) { return (m->n && rn(3)) ? m->e[rn(m->n)].key : rkey(); }
static char keybuf[4000];
static const char *kcopy(const char *k) { snprintf(keybuf, sizeof keybuf, "%s", k); return keybuf; }
static char valbuf[4000];

static void free_elem(kvtree_elem *e) { kvtree *h = e->hash; kvtree_delete(&h); char *k = e->key; __wrap_free(k); __wrap_free(e); }
static void all_ok(int exact) { k_is(top.h, top.m, exact, ""); }

/* ------------------------------------------------------------------ single operations */
static void op_set(void) {
  T t = pick(); const char *k = kcopy(pickkey(t.m));
  M *sm = rn(5) ? m_random(rn(3), 3) : NULL;
  kvtree *s = sm ? k_from(sm) : NULL;
  what = "kvtree_set";
  CHECK(kvtree_set(t.h, k, s) == s, "does not return the value set");
  E *e = m_add(t.m, k);
  m_del(e->sub);
  e->sub = sm; e->ptr = s;
}
static void op_unset(void) {
  T t = pick(); const char *k = kcopy(pickkey(t.m));
  what = "kvtree_unset";
  CHECK(kvtree_unset(t.h, k) == KVTREE_SUCCESS, "fails");
  int i = m_find(t.m, k);
  if (i >= 0) m_rm(t.m, i);
}
static void op_unset_all(void) {
  T t = pick();
  if (rn(3)) return;
  what = "kvtree_unset_all";
  kvtree_unset_all(t.h);
  while (t.m->n) m_rm(t.m, 0);
}
static void op_get(void) {
  T t = pick(); const char *k = kcopy(pickkey(t.m));
  what = "lookup";
  int i = m_find(t.m, k);
  CHECK(kvtree_get(t.h, k) == (i >= 0 ? t.m->e[i].ptr : NULL), "kvtree_get(%.100s) returns the wrong tree", k);
  kvtree_elem *e = kvtree_elem_get(t.h, k);
  CHECK((e != NULL) == (i >= 0), "kvtree_elem_get(%.100s) is wrong", k);
  if (e) CHECK(!strcmp(kvtree_elem_key(e), k) && kvtree_elem_key_int(e) == atoi(k), "element key");
  char *v = kvtree_elem_get_first_val(t.h, k), *w = kvtree_get_val(t.h, k);
  M *s = i >= 0 ? t.m->e[i].sub : NULL;
  int n = s ? s->n : 0;
  CHECK((v != NULL) == (n > 0), "first value of %.100s", k);
  if (v) CHECK(m_find(s, v) >= 0, "first value of %.100s is no value of it", k);
  CHECK((w != NULL) == (n == 1), "kvtree_get_val(%.100s) with %d values", k, n);
  if (w) CHECK(!strcmp(w, s->e[0].key), "kvtree_get_val(%.100s)", k);
}
static void op_extract(void) {
  T t = pick(); const char *k = kcopy(pickkey(t.m));
  int i = m_find(t.m, k), z = rn(4);
  if (z == 0) {
    what = "kvtree_extract";
    kvtree *s = kvtree_extract(t.h, k);
    CHECK(s == (i >= 0 ? t.m->e[i].ptr : NULL), "returns the wrong tree");
    if (s) k_is(s, t.m->e[i].sub, 1, "(extracted)");
    if (i >= 0) m_rm(t.m, i);
    kvtree_delete(&s);
    CHECK(s == NULL, "kvtree_delete leaves the pointer");
    return;
  }
  kvtree_elem *e = NULL;
  if (z == 1) { what = "kvtree_elem_extract"; e = kvtree_elem_extract(t.h, k); }
  else if (z == 2) {
    what = "kvtree_elem_extract_int";
    int v = atoi(k);
    char b[20]; snprintf(b, 20, "%d", v); i = m_find(t.m, b);
    e = kvtree_elem_extract_int(t.h, v);
  } else {
    what = "kvtree_elem_extract_by_addr";
    if (i < 0) return;
    kvtree_elem *x = kvtree_elem_get(t.h, k);
    e = kvtree_elem_extract_by_addr(t.h, x);
    CHECK(e == x, "returns another element");
  }
  CHECK((e != NULL) == (i >= 0), "element %s", e ? "invented" : "not found");
  if (e) {
    CHECK(!strcmp(e->key, t.m->e[i].key), "wrong element extracted: %.100s", e->key);
    CHECK(e->hash == t.m->e[i].ptr, "wrong subtree");
    if (e->hash) k_is(e->hash, t.m->e[i].sub, 1, "(extracted)");
    free_elem(e);
    m_rm(t.m, i);
  }
}
static void op_merge(void) {
  T t = pick();
  M *sm = rn(8) ? m_random(rn(4), 4) : NULL;
  if (sm && rn(2) && t.m->n) {     /* overlapping keys */
    for (int i = 0; i < 3; i++) {
      E *o = &t.m->e[rn(t.m->n)];
      E *e = m_add(sm, o->key);
      if (!e->sub && rn(3)) { e->sub = rn(2) && o->sub ? m_copy(o->sub) : m_random(2, 3); }
    }
  }
  kvtree *s = sm ? k_from(sm) : NULL;
  what = "kvtree_merge";
  CHECK(kvtree_merge(t.h, s) == KVTREE_SUCCESS, "fails");
  m_merge(t.m, sm);
  k_is(t.h, t.m, 0, "(destination)");
  if (s) k_is(s, sm, 1, "(source)");
  m_resync(t.h, t.m);
  k_is(t.h, t.m, 1, "(destination)");
  /* no shared memory: destroy the source, then look at the destination again */
  kvtree_delete(&s);
  m_del(sm);
  k_is(t.h, t.m, 1, "(destination after the source is deleted)");
}
static int rint_(void) { static const int ed[] = {0, 1, -1, INT_MAX, INT_MIN, 10, -10, 9, 99}; return rn(2) ? ed[rn(9)] : (int)(uint32_t)rnd(); }
static void op_kv(void) {
  T t = pick();
  const char *k = kcopy(pickkey(t.m));
  int i = m_find(t.m, k);
  M *s = i >= 0 ? t.m->e[i].sub : NULL;
  const char *v0 = s && s->n && rn(2) ? s->e[rn(s->n)].key : rkey();
  snprintf(valbuf, sizeof valbuf, "%s", v0);
  int isint = rn(2), iv = 0;
  if (isint) { iv = rn(3) ? rint_() : atoi(valbuf); snprintf(valbuf, sizeof valbuf, "%d", iv); }
  const char *v = valbuf;
  int j = m_find(s, v);
  switch (rn(3)) {
  case 0: {
    what = isint ? "kvtree_set_kv_int" : "kvtree_set_kv";
    kvtree *r = isint ? kvtree_set_kv_int(t.h, k, iv) : kvtree_set_kv(t.h, k, v);
    CHECK(r != NULL, "returns nothing");
    E *e = m_add(t.m, k);
    kvtree *old1 = e->ptr;
    if (!e->sub) e->sub = m_new();
    E *f = m_add(e->sub, v);
    kvtree *old2 = f->ptr;
    e->ptr = kvtree_get(t.h, k);
    CHECK(!old1 || e->ptr == old1, "the existing subtree of the key was replaced");
    f->ptr = kvtree_get(e->ptr, v);
    CHECK(!old2 || f->ptr == old2, "the existing subtree of the pair was replaced");
    CHECK(r == f->ptr, "returns another tree than the one stored under the pair");
    if (!f->sub) f->sub = m_new();
    break; }
  case 1: {
    what = isint ? "kvtree_get_kv_int" : "kvtree_get_kv";
    kvtree *r = isint ? kvtree_get_kv_int(t.h, k, iv) : kvtree_get_kv(t.h, k, v);
    CHECK(r == (j >= 0 ? s->e[j].ptr : NULL), "returns the wrong tree");
    break; }
  default: {
    what = isint ? "kvtree_unset_kv_int" : "kvtree_unset_kv";
    if (isint) kvtree_unset_kv_int(t.h, k, iv); else kvtree_unset_kv(t.h, k, v);
    if (j >= 0) m_rm(s, j);
    /* a key that had no value before is outside of the property: follow the library there */
    if (i >= 0 && (!s || s->n == 0)) {
      if (j >= 0) m_rm(t.m, i);
      else if (!kvtree_elem_get(t.h, k)) m_rm(t.m, i);
    }
  } }
}

static int rform(const char **tok, char *text, int *kind, long long *num, char *str) {
  static const char *F[] = {"%s", "%d", "%lld", "%lu", "%#x", "%#lx", "%llu", "%p"};
  int z = rn(4) ? rn(2) : rn(8);
  *tok = F[z]; *kind = z;
  static const long long ed[] = {0, 1, -1, INT_MAX, INT_MIN, LLONG_MAX, LLONG_MIN, 0xffffffffLL, 0x100000000LL, 10};
  long long v = rn(2) ? ed[rn(10)] : (long long)(rnd() >> rn(64));
  if (rn(3) == 0) v = rn(3);
  *num = v;
  switch (z) {
  case 0: snprintf(str, 1000, "%.900s", rkey()); strcpy(text, str); break;
  case 1: *num = (int)v; sprintf(text, "%d", (int)v); break;
  case 2: sprintf(text, "%lld", v); break;
  case 3: sprintf(text, "%lu", (unsigned long)v); break;
  case 4: *num = (unsigned)v; sprintf(text, "%#x", (unsigned)v); break;
  case 5: sprintf(text, "%#lx", (unsigned long)v); break;
  case 6: sprintf(text, "%llu", (unsigned long long)v); break;
  case 7: sprintf(text, "%p", (void *)v); break;
  }
  return z;
}
/* on x86-64 every integer/pointer argument occupies one 8-byte slot, so one call form serves all */
typedef union { long long l; char *s; } A_;
static void op_setf(void) {
  T t = pick();
  int n = 1 + rn(4);
  const char *tok[5]; static char text[5][1100], str[5][1100]; int kind[5]; long long num[5]; A_ a[5];
  char fmt[100] = "";
  M *m = t.m;
  for (int i = 0; i < n; i++) {
    rform(&tok[i], text[i], &kind[i], &num[i], str[i]);
    if (rn(2) && m && m->n) {      /* follow an existing path */
      kind[i] = 0; tok[i] = "%s"; snprintf(str[i], 1100, "%.900s", m->e[rn(m->n)].key); strcpy(text[i], str[i]);
    }
    if (kind[i] == 0) a[i].s = str[i]; else a[i].l = num[i];
    if (i && rn(9)) strcat(fmt, rn(5) ? " " : "  "); else if (i) strcat(fmt, " ");
    strcat(fmt, tok[i]);
    int j = m_find(m, text[i]);
    m = j >= 0 ? m->e[j].sub : NULL;
  }
  if (rn(6) == 0) strcat(fmt, " ");
  if (rn(2)) {
    what = "kvtree_getf";
    kvtree *x = t.h; M *y = t.m;
    for (int i = 0; i < n && x; i++) { int j = m_find(y, text[i]); x = j >= 0 ? y->e[j].ptr : NULL; y = j >= 0 ? y->e[j].sub : NULL; }
    kvtree *r = kvtree_getf(t.h, fmt, a[0], a[1], a[2], a[3], a[4]);
    CHECK(r == x, "returns the wrong tree for \"%s\"", fmt);
    return;
  }
  what = "kvtree_setf";
  M *sm = rn(3) ? m_random(rn(2), 3) : NULL;
  kvtree *s = sm ? k_from(sm) : NULL;
  CHECK(kvtree_setf(t.h, s, fmt, a[0], a[1], a[2], a[3], a[4]) == s, "does not return the value set for \"%s\"", fmt);
  M *y = t.m; kvtree *x = t.h;
  for (int i = 0; i < n - 1; i++) {
    E *e = m_add(y, text[i]);
    kvtree *p = kvtree_get(x, text[i]);
    CHECK(p != NULL, "no tree at key %d (%.100s) of \"%s\"", i, text[i], fmt);
    CHECK(!e->ptr || e->ptr == p, "existing tree on the way was replaced");
    e->ptr = p;
    if (!e->sub) e->sub = m_new();
    x = p; y = e->sub;
  }
  E *e = m_add(y, text[n - 1]);
  m_del(e->sub); e->sub = sm; e->ptr = s;
}
/* too long keys and unsupported conversions must never silently give a path */
static void setf_bad(void) {
  static const char *BF[] = {"%x", "%i", "key", "%c", "%5d", "%s%d", "%ld", "%", "%s %q", "%d x"};
  for (int z = 0; z < 12; z++) for (int get = 0; get < 2; get++) {
    what = get ? "kvtree_getf with a bad key" : "kvtree_setf with a bad key";
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      quiet_stderr();
      kvtree *h = kvtree_new();
      static char big[3000]; memset(big, 'x', sizeof big - 1);
      const char *f; char *a0 = "1";
      if (z < 10) f = BF[z]; else { f = z == 10 ? "%s" : "%s %d"; a0 = big; if (z == 11) big[1024] = 0; }
      if (z == 8) kvtree_set(h, "1", kvtree_new());
      if (z == 9) kvtree_set(h, "7", kvtree_new());
      kvtree *r;
      if (z == 9) r = get ? kvtree_getf(h, f, 7, 7, 7) : kvtree_setf(h, kvtree_new(), f, 7, 7, 7);
      else r = get ? kvtree_getf(h, f, a0, 7, 7) : kvtree_setf(h, kvtree_new(), f, a0, 7, 7);
      _exit(r != NULL ? 77 : 0);
    }
    int st; waitpid(p, &st, 0);
    CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 77), "an unsupported conversion or too long key (case %d) gave a path", z);
    CHECK(!(WIFSIGNALED(st) && (WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGBUS)), "crash on case %d", z);
  }
  /* longest keys that fit */
  what = "kvtree_setf with a long key";
  for (int n = 1000; n <= 1023; n++) {
    kvtree *h = kvtree_new();
    char k[1100]; memset(k, 'y', n); k[n] = 0;
    kvtree_setf(h, kvtree_new(), "%s %d", k, 5);
    kvtree *s = kvtree_get(h, k);
    CHECK(s && kvtree_size(h) == 1 && kvtree_get(s, "5") && kvtree_getf(h, "%s %d", k, 5) == kvtree_get(s, "5"), "key of %d characters", n);
    kvtree_delete(&h);
  }
}

static void one_value(M *m, const char *k, kvtree *h) {
  E *e = m_add(m, k);
  m_del(e->sub); e->sub = m_new(); e->ptr = kvtree_get(h, k);
  CHECK(e->ptr && kvtree_size(e->ptr) == 1, "key %.100s holds %d values", k, kvtree_size(e->ptr));
  kvtree_elem *x = kvtree_elem_first(e->ptr);
  E *f = m_add(e->sub, kvtree_elem_key(x));
  f->ptr = kvtree_elem_hash(x);
  CHECK(!f->ptr || kvtree_size(f->ptr) == 0, "the value has a subtree");
  if (f->ptr) f->sub = m_new();
}
static uint64_t rv(void) {
  static const uint64_t ed[] = {0, 1, 7, 8, 9, 10, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull,
    0xffffffffffffffffull, 0xfffffffffffffffeull, 100, 010, 077};
  return rn(2) ? ed[rn(17)] : rnd() >> rn(64);
}
static void op_util(void) {
  T t = pick();
  const char *k = kcopy(pickkey(t.m));
  if (strlen(k) > 1000) keybuf[1000] = 0;
  int i = m_find(t.m, k);
  M *s = i >= 0 ? t.m->e[i].sub : NULL;
  uint64_t v = rv();
  if (rn(4) == 0) {       /* getter without a value */
    what = "typed getter of a missing value";
    int none = !s || s->n == 0;
    if (!none) return;
    unsigned long a = 4711; uLong c = 4712; int d = 4713; char *p = (char *)4714; int64_t q = 4715; void *w = (void *)4716; double g = 47.25;
    CHECK(kvtree_util_get_bytecount(t.h, k, &a) != KVTREE_SUCCESS && a == 4711, "get_bytecount");
    CHECK(kvtree_util_get_unsigned_long(t.h, k, &a) != KVTREE_SUCCESS && a == 4711, "get_unsigned_long");
    CHECK(kvtree_util_get_crc32(t.h, k, &c) != KVTREE_SUCCESS && c == 4712, "get_crc32");
    CHECK(kvtree_util_get_int(t.h, k, &d) != KVTREE_SUCCESS && d == 4713, "get_int");
    CHECK(kvtree_util_get_str(t.h, k, &p) != KVTREE_SUCCESS && p == (char *)4714, "get_str");
    CHECK(kvtree_util_get_int64(t.h, k, &q) != KVTREE_SUCCESS && q == 4715, "get_int64");
    CHECK(kvtree_util_get_ptr(t.h, k, &w) != KVTREE_SUCCESS && w == (void *)4716, "get_ptr");
    CHECK(kvtree_util_get_double(t.h, k, &g) != KVTREE_SUCCESS && g == 47.25, "get_double");
    return;
  }
  switch (rn(7)) {
  case 0: what = "kvtree_util bytecount"; { unsigned long r = 5; kvtree_util_set_bytecount(t.h, k, v); CHECK(kvtree_util_get_bytecount(t.h, k, &r) == KVTREE_SUCCESS && r == v, "set %llu got %lu", (unsigned long long)v, r); } break;
  case 1: what = "kvtree_util crc32"; { uLong r = 5; kvtree_util_set_crc32(t.h, k, (uint32_t)v); CHECK(kvtree_util_get_crc32(t.h, k, &r) == KVTREE_SUCCESS && r == (uint32_t)v, "set %u got %lu", (uint32_t)v, r); } break;
  case 2: what = "kvtree_util int"; { int r = 5; kvtree_util_set_int(t.h, k, (int)v); CHECK(kvtree_util_get_int(t.h, k, &r) == KVTREE_SUCCESS && r == (int)v, "set %d got %d", (int)v, r); } break;
  case 3: what = "kvtree_util unsigned long"; { unsigned long r = 5; kvtree_util_set_unsigned_long(t.h, k, v); CHECK(kvtree_util_get_unsigned_long(t.h, k, &r) == KVTREE_SUCCESS && r == v, "set %llu got %lu", (unsigned long long)v, r); } break;
  case 4: what = "kvtree_util str"; { char *r = NULL; snprintf(valbuf, sizeof valbuf, "%s", rkey()); kvtree_util_set_str(t.h, k, valbuf); CHECK(kvtree_util_get_str(t.h, k, &r) == KVTREE_SUCCESS && r && !strcmp(r, valbuf), "set %.100s", valbuf); } break;
  case 5: what = "kvtree_util int64"; { int64_t r = 5; kvtree_util_set_int64(t.h, k, (int64_t)v); CHECK(kvtree_util_get_int64(t.h, k, &r) == KVTREE_SUCCESS && r == (int64_t)v, "set %lld got %lld", (long long)v, (long long)r); } break;
  case 6: what = "kvtree_util ptr"; { void *r = &r; if (v == 0) v = 16; kvtree_util_set_ptr(t.h, k, (void *)v); CHECK(kvtree_util_get_ptr(t.h, k, &r) == KVTREE_SUCCESS && r == (void *)v, "set %p got %p", (void *)v, r); } break;
  }
  one_value(t.m, k, t.h);
}

static void op_sort(void) {
  T t = pick();
  int z = rn(3), dir = rn(2) ? KVTREE_SORT_ASCENDING : KVTREE_SORT_DESCENDING;
  if (z == 2) {
    what = "kvtree_list_int";
    int n = -5, *v = (int *)8;
    kvtree_list_int(t.h, &n, &v);
    CHECK(n == t.m->n, "%d keys listed, expected %d", n, t.m->n);
    if (n == 0) return;
    int *w = m_alloc(n * sizeof(int));
    for (int i = 0; i < n; i++) w[i] = atoi(t.m->e[i].key);
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (w[j] < w[i]) { int x = w[i]; w[i] = w[j]; w[j] = x; }
    for (int i = 0; i < n; i++) CHECK(v[i] == w[i], "entry %d is %d, expected %d", i, v[i], w[i]);
    m_free(w);
    kvtree_free(&v);
    return;
  }
  what = z ? "kvtree_sort" : "kvtree_sort_int";
  if (z) kvtree_sort(t.h, dir); else kvtree_sort_int(t.h, dir);
  k_is(t.h, t.m, 1, "(sorted)");
  kvtree_elem *p = NULL;
  for (kvtree_elem *e = kvtree_elem_first(t.h); e; p = e, e = kvtree_elem_next(e)) {
    if (!p) continue;
    long long c = z ? strcmp(p->key, e->key) : (long long)atoi(p->key) - atoi(e->key);
    if (dir == KVTREE_SORT_DESCENDING) c = -c;
    CHECK(c <= 0, "%.100s comes before %.100s", p->key, e->key);
  }
}

static void op_pack(int unpack) {
  T t = pick();
  Buf b = {0};
  b_tree(&b, rn(20) ? t.h : NULL);
  kvtree *h = b.n == 4 && rn(4) == 0 ? NULL : t.h;
  what = "kvtree_pack_size";
  size_t n = kvtree_pack_size(h);
  Buf r = {0}; b_tree(&r, h);
  CHECK(n == r.n, "%zu, expected %zu", n, r.n);
  what = "kvtree_pack";
  unsigned char *p = m_alloc(n + 32), *x = m_alloc(n);
  memset(p, 0xA5, n + 32);
  CHECK(kvtree_pack((char *)p + 16, h) == n, "returned size differs from kvtree_pack_size");
  CHECK(!memcmp(p + 16, r.p, n), "bytes differ from the documented format");
  for (int i = 0; i < 16; i++) CHECK(p[i] == 0xA5 && p[16 + n + i] == 0xA5, "writes outside of the packed bytes");
  CHECK(kvtree_pack((char *)x, h) == n, "size");
  if (unpack) {
    what = "kvtree_unpack";
    kvtree *u = kvtree_new();
    CHECK(kvtree_unpack((char *)x, u) == n, "consumes another number of bytes");
    M *m = m_of(h);
    k_is(u, m, 0, "(unpacked)");
    m_del(m);
    kvtree_delete(&u);
  }
  CHECK(!memcmp(x, r.p, n), "packed bytes changed");
  m_free(p); m_free(x); m_free(r.p); m_free(b.p);
}

/* ------------------------------------------------------------------ C10 */
#define C10(W) do { \
    unsigned char buf[40], old[40]; size_t pos = p0; uint##W##_t out = (uint##W##_t)0x1122334455667788ull, o0 = out; \
    for (int i = 0; i < 40; i++) buf[i] = old[i] = (unsigned char)rnd(); \
    unsigned char *heap = m_alloc(size ? size : 1); memcpy(heap, buf, size); \
    int fits = p0 <= size && size - p0 >= W / 8; \
    int rc = kvtree_pack_uint##W##_t(heap, size, &pos, (uint##W##_t)v); \
    CHECK((rc == KVTREE_SUCCESS) == fits, "pack%d at %zu of %zu returns %d", W, p0, size, rc); \
    CHECK(pos == (fits ? p0 + W / 8 : p0), "pack%d leaves position %zu (was %zu)", W, pos, p0); \
    if (fits) for (int i = 0; i < W / 8; i++) old[p0 + i] = (unsigned char)((uint##W##_t)v >> (W - 8 - 8 * i)); \
    CHECK(!memcmp(heap, old, size), "pack%d: wrong bytes", W); \
    pos = p0; \
    rc = kvtree_unpack_uint##W##_t(heap, size, &pos, &out); \
    CHECK((rc == KVTREE_SUCCESS) == fits, "unpack%d at %zu of %zu returns %d", W, p0, size, rc); \
    CHECK(pos == (fits ? p0 + W / 8 : p0), "unpack%d leaves position %zu", W, pos); \
    CHECK(out == (fits ? (uint##W##_t)v : o0), "unpack%d: wrong value", W); \
    CHECK(!memcmp(heap, old, size), "unpack%d changes the buffer", W); \
    pos = 1; out = o0; \
    CHECK(kvtree_pack_uint##W##_t(NULL, size, &pos, 1) != KVTREE_SUCCESS && kvtree_pack_uint##W##_t(heap, size, NULL, 1) != KVTREE_SUCCESS, "missing argument"); \
    CHECK(kvtree_unpack_uint##W##_t(NULL, size, &pos, &out) != KVTREE_SUCCESS && kvtree_unpack_uint##W##_t(heap, size, NULL, &out) != KVTREE_SUCCESS \
          && kvtree_unpack_uint##W##_t(heap, size, &pos, NULL) != KVTREE_SUCCESS, "missing argument"); \
    CHECK(pos == 1 && out == o0 && !memcmp(heap, old, size), "failed call has an effect"); \
    m_free(heap); } while (0)
static void case_ints(void) {
  what = "fixed-width integers";
  for (size_t size = 0; size <= 24; size++) for (int d = -9; d <= 34; d++) {
    size_t p0 = d < 0 ? SIZE_MAX + 1 + d : (size_t)d;
    if (d > 26) p0 = (size_t)rnd() | ((size_t)1 << 63);
    uint64_t v = rn(3) ? rnd() : rv();
    C10(16); C10(32); C10(64);
  }
}
static void case_persist(void) {
  T t = pick();
  what = "kvtree_write_persist";
  Buf b = ref_persist(t.h);
  void *p = NULL; size_t n = 0;
  CHECK(kvtree_write_persist(&p, &n, t.h) == KVTREE_SUCCESS, "fails");
  CHECK(n == b.n, "reports %zu bytes, expected %zu", n, b.n);
  CHECK(!memcmp(p, b.p, n), "bytes differ from the documented file format");
  kvtree_free(&p);
  void *q = (void *)8; size_t k = 9;
  CHECK(kvtree_write_persist(&q, &k, NULL) != KVTREE_SUCCESS, "a missing tree is accepted");
  CHECK(kvtree_write_persist(NULL, &k, t.h) != KVTREE_SUCCESS, "a missing output is accepted");
  q = NULL;
  CHECK(kvtree_write_persist(&q, NULL, t.h) != KVTREE_SUCCESS, "a missing output is accepted");
  m_free(b.p);
}

/* ------------------------------------------------------------------ C21 */
static void exp_tree(Buf *b, const kvtree *h, int ind, int mode) {
  for (kvtree_elem *e = h ? h->lh_first : NULL; e; e = e->pointers.le_next) {
    for (int i = 0; i < ind + 2; i++) b_put(b, " ", 1);
    b_put(b, e->key, strlen(e->key));
    if (mode == KVTREE_PRINT_KEYVAL && e->hash && e->hash->lh_first && !e->hash->lh_first->pointers.le_next
        && (!e->hash->lh_first->hash || !e->hash->lh_first->hash->lh_first)) {
      b_put(b, " = ", 3);
      b_put(b, e->hash->lh_first->key, strlen(e->hash->lh_first->key));
      b_put(b, "\n", 1);
      continue;
    }
    b_put(b, "\n", 1);
    exp_tree(b, e->hash, ind + 2, mode);
  }
}
static void print_case(kvtree *h, int ind, int mode) {
  what = mode == KVTREE_PRINT_TREE ? "kvtree_print (tree)" : "kvtree_print (keyval)";
  char name[] = "/tmp/hprintXXXXXX";
  int fd = mkstemp(name);
  CHECK(fd >= 0, "no scratch file");
  unlink(name);
  fflush(stdout);
  int old = dup(1);
  dup2(fd, 1);
  if (mode == KVTREE_PRINT_TREE && rn(2)) kvtree_print(h, ind); else kvtree_print_mode(h, ind, mode);
  fflush(stdout);
  dup2(old, 1); close(old);
  off_t n = lseek(fd, 0, SEEK_END);
  char *p = m_alloc(n + 1);
  CHECK(pread(fd, p, n, 0) == n, "scratch read");
  p[n] = 0;
  close(fd);
  /* lines about missing subtrees are not keys */
  Buf got = {0};
  for (char *l = p; l < p + n;) {
    char *nl = memchr(l, '\n', p + n - l);
    size_t len = nl ? nl - l + 1 : p + n - l;
    char *s = l; while (*s == ' ') s++;
    if (strncmp(s, "NULL LIST\n", 10) && strncmp(s, "NULL ELEMENT\n", 13)) b_put(&got, l, len);
    l += len;
  }
  Buf b = {0};
  exp_tree(&b, h, ind, mode);
  b_put(&b, "", 1); b_put(&got, "", 1);
  CHECK(b.n == got.n && !memcmp(b.p, got.p, b.n), "printed text differs (%zu bytes, expected %zu)", got.n - 1, b.n - 1);
  m_free(b.p); m_free(got.p); m_free(p);
  what = "kvtree_log";
  kvtree_log(h, 1, ind);
}
static void case_print(int idx) {
  if (idx % 50 == 7) {      /* deep trees and large indentation */
    kvtree *h = kvtree_new(), *c = h;
    int d = 300 + rn(500);
    for (int i = 0; i < d; i++) { char k[20]; snprintf(k, 20, "d%d", i); kvtree *n = kvtree_new(); kvtree_set(c, k, n); c = n; }
    print_case(h, rn(2) ? 0 : 1000 + rn(200), rn(2) ? KVTREE_PRINT_TREE : KVTREE_PRINT_KEYVAL);
    kvtree_delete(&h);
    return;
  }
  T t = pick();
  static const int in[] = {0, 1, 2, 3, 7, 40, 1021, 1022, 1023, 1024, 1030, 2050, -1, -2, -3, -4, -7, -100, -3000};
  print_case(t.h, in[rn(19)], rn(2) ? KVTREE_PRINT_TREE : KVTREE_PRINT_KEYVAL);
}

/* ------------------------------------------------------------------ C22 */
static void case_null(void) {
  what = "missing tree or key";
  T t = pick();
  kvtree *h = t.h, *z = NULL;
  CHECK(kvtree_size(NULL) == 0, "kvtree_size");
  CHECK(!kvtree_get(NULL, "a") && !kvtree_get(h, NULL) && !kvtree_get(NULL, NULL), "kvtree_get");
  CHECK(!kvtree_set(NULL, "a", NULL) && !kvtree_set(h, NULL, NULL), "kvtree_set");
  CHECK(!kvtree_extract(NULL, "a") && !kvtree_extract(h, NULL), "kvtree_extract");
  kvtree_unset(NULL, "a"); kvtree_unset(h, NULL); kvtree_unset_all(NULL);
  CHECK(kvtree_merge(NULL, h) != KVTREE_SUCCESS && kvtree_merge(NULL, NULL) != KVTREE_SUCCESS, "kvtree_merge into nothing");
  CHECK(kvtree_merge(h, NULL) == KVTREE_SUCCESS, "kvtree_merge of nothing");
  CHECK(!kvtree_elem_first(NULL) && !kvtree_elem_next(NULL) && !kvtree_elem_key(NULL) && !kvtree_elem_hash(NULL) && kvtree_elem_key_int(NULL) == 0, "element access");
  CHECK(!kvtree_elem_get(NULL, "a") && !kvtree_elem_get(h, NULL), "kvtree_elem_get");
  CHECK(!kvtree_elem_get_first_val(NULL, "a") && !kvtree_elem_get_first_val(h, NULL) && !kvtree_get_val(NULL, "a") && !kvtree_get_val(h, NULL), "values");
  CHECK(!kvtree_elem_extract(NULL, "a") && !kvtree_elem_extract(h, NULL) && !kvtree_elem_extract_int(NULL, 3), "extract");
  CHECK(!kvtree_set_kv(NULL, "a", "b") && !kvtree_set_kv(h, NULL, "b") && !kvtree_set_kv(h, "zz", NULL), "kvtree_set_kv");
  CHECK(!kvtree_set_kv_int(NULL, "a", 1) && !kvtree_set_kv_int(h, NULL, 1), "kvtree_set_kv_int");
  CHECK(!kvtree_get_kv(NULL, "a", "b") && !kvtree_get_kv(h, NULL, "b") && !kvtree_get_kv(h, "a", NULL), "kvtree_get_kv");
  CHECK(!kvtree_get_kv_int(NULL, "a", 1) && !kvtree_get_kv_int(h, NULL, 1), "kvtree_get_kv_int");
  if (t.m->n) {         /* no value: nothing is removed, except perhaps a key that has no value at all */
    int i = rn(t.m->n); kvtree_unset_kv(h, t.m->e[i].key, NULL);
    if ((!t.m->e[i].sub || !t.m->e[i].sub->n) && !kvtree_elem_get(h, t.m->e[i].key)) m_rm(t.m, i);
    k_is(h, t.m, 1, "after kvtree_unset_kv without value");
  }
  kvtree_unset_kv(NULL, "a", "b"); kvtree_unset_kv(h, NULL, "b"); kvtree_unset_kv_int(NULL, "a", 1); kvtree_unset_kv_int(h, NULL, 1);
  CHECK(!kvtree_setf(NULL, NULL, "%s", "a") && !kvtree_getf(NULL, "%s", "a"), "setf/getf");
  CHECK(!kvtree_setf(h, NULL, "%s", (char *)NULL) && !kvtree_getf(h, "%s", (char *)NULL), "setf/getf without key");
  kvtree_sort(NULL, 0); kvtree_sort_int(NULL, 1);
  int n = 5, *v = (int *)8;
  kvtree_list_int(NULL, &n, &v);
  CHECK(n == 0 && v == NULL, "kvtree_list_int");
  kvtree_delete(NULL); kvtree_delete(&z);
  CHECK(kvtree_pack_size(NULL) == 4, "kvtree_pack_size");
  char b[8] = "xxxxxxx";
  CHECK(kvtree_pack(b, NULL) == 4 && !memcmp(b, "\0\0\0\0xxx", 7), "kvtree_pack");
  CHECK(kvtree_unpack(b, NULL) == 0, "kvtree_unpack into nothing");
  void *p = NULL; size_t sz = 3;
  CHECK(kvtree_write_persist(&p, &sz, NULL) != KVTREE_SUCCESS, "kvtree_write_persist");
  CHECK(kvtree_write_file("/nonexistent/dir/x", NULL) != KVTREE_SUCCESS && kvtree_write_file(NULL, h) != KVTREE_SUCCESS, "kvtree_write_file");
  CHECK(kvtree_read_file(NULL, h) != KVTREE_SUCCESS && kvtree_read_file("/dev/null", NULL) != KVTREE_SUCCESS, "kvtree_read_file");
  CHECK(kvtree_write_fd(NULL, 1, h) < 0 && kvtree_write_fd("x", -1, h) < 0 && kvtree_write_fd("x", 1, NULL) < 0, "kvtree_write_fd");
  CHECK(kvtree_read_fd(NULL, 0, h) < 0 && kvtree_read_fd("x", -1, h) < 0 && kvtree_read_fd("x", 0, NULL) < 0, "kvtree_read_fd");
  CHECK(kvtree_read_with_lock("/dev/null", NULL) != KVTREE_SUCCESS && kvtree_write_with_lock("/nonexistent/x", NULL) != KVTREE_SUCCESS, "with_lock");
  int fd = -1;
  CHECK(kvtree_lock_open_read("/nonexistent/x", &fd, NULL) != KVTREE_SUCCESS, "kvtree_lock_open_read");
  fd = -1;
  CHECK(kvtree_write_close_unlock("/nonexistent/x", &fd, h) != KVTREE_SUCCESS, "kvtree_write_close_unlock without descriptor");
  kvtree_util_set_int(NULL, "a", 1); kvtree_util_set_int(h, NULL, 1);
  kvtree_util_set_str(NULL, "a", "b"); kvtree_util_set_str(h, NULL, "b");
  kvtree_util_set_bytecount(NULL, "a", 1); kvtree_util_set_bytecount(h, NULL, 1);
  kvtree_util_set_crc32(NULL, "a", 1); kvtree_util_set_crc32(h, NULL, 1);
  kvtree_util_set_unsigned_long(NULL, "a", 1); kvtree_util_set_unsigned_long(h, NULL, 1);
  kvtree_util_set_int64(NULL, "a", 1); kvtree_util_set_int64(h, NULL, 1);
  kvtree_util_set_ptr(NULL, "a", &n); kvtree_util_set_ptr(h, NULL, &n);
  kvtree_util_set_double(NULL, "a", 1.0); kvtree_util_set_double(h, NULL, 1.0);
  unsigned long ul = 3; uLong uc = 3; int iv = 3; char *sv = (char *)3; int64_t i64 = 3; void *pv = (void *)3; double dv = 3;
  for (int g = 0; g < 2; g++) {
    kvtree *x = g ? h : NULL; const char *k = g ? NULL : "a";
    CHECK(kvtree_util_get_bytecount(x, k, &ul) && kvtree_util_get_unsigned_long(x, k, &ul) && kvtree_util_get_crc32(x, k, &uc) && kvtree_util_get_int(x, k, &iv)
          && kvtree_util_get_str(x, k, &sv) && kvtree_util_get_int64(x, k, &i64) && kvtree_util_get_ptr(x, k, &pv) && kvtree_util_get_double(x, k, &dv), "getter succeeds");
    CHECK(ul == 3 && uc == 3 && iv == 3 && sv == (char *)3 && i64 == 3 && pv == (void *)3 && dv == 3, "getter changes its output");
  }
  fflush(stdout);
  int old = dup(1), dn = open("/dev/null", O_WRONLY);
  dup2(dn, 1); close(dn);
  kvtree_print(NULL, 0); kvtree_print_mode(NULL, 3, KVTREE_PRINT_KEYVAL); kvtree_log(NULL, 1, 0);
  fflush(stdout);
  dup2(old, 1); close(old);
}

/* ------------------------------------------------------------------ large cases: wide levels, long keys, deep trees, large sizes */
#include <sys/mman.h>
static int cmp_key(const void *a, const void *b) { return strcmp(*(char *const *)a, *(char *const *)b); }
static int cmp_int_(const void *a, const void *b) { return *(const int *)a < *(const int *)b ? -1 : *(const int *)a > *(const int *)b; }
/* comparison without a search per key; keeps the recursion off for children of wide levels */
static void k_fast(const kvtree *h, const M *m, const char *where) {
  int n = m ? m->n : 0, i = 0;
  CHECK(kvtree_size(h) == n, "size is %d, expected %d (%s)", kvtree_size(h), n, where);
  char **a = m_alloc((n + 1) * sizeof *a), **b = m_alloc((n + 1) * sizeof *b);
  for (kvtree_elem *e = kvtree_elem_first(h); e; e = kvtree_elem_next(e)) { CHECK(i < n, "more than %d elements (%s)", n, where); a[i++] = kvtree_elem_key(e); }
  CHECK(i == n, "%d of %d elements (%s)", i, n, where);
  for (i = 0; i < n; i++) b[i] = m->e[i].key;
  qsort(a, n, sizeof *a, cmp_key); qsort(b, n, sizeof *b, cmp_key);
  for (i = 0; i < n; i++) CHECK(!strcmp(a[i], b[i]), "key %.60s expected, %.60s found (%s)", b[i], a[i], where);
  m_free(a); m_free(b);
}
static kvtree *unpack_wide(int n, int step, M *m) {
  Buf b = {0};
  b_be(&b, n, 4);
  m->e = m_realloc(m->e, n * sizeof(E));
  for (int i = 0; i < n; i++) {
    char k[20]; snprintf(k, sizeof k, "%d", (int)((unsigned)i * (unsigned)step));
    b_put(&b, k, strlen(k) + 1); b_be(&b, 0, 4);
    m->e[i] = (E){m_strdup(k), m_new(), NULL};
  }
  m->n = n;
  kvtree *h = kvtree_new();
  what = "kvtree_unpack of a wide level";
  CHECK(kvtree_unpack((char *)b.p, h) == b.n, "consumes another number of bytes than the %zu of %d elements", b.n, n);
  m_free(b.p);
  k_fast(h, m, "unpacked");
  return h;
}
static void check_bytes(int P, kvtree *h) {
  if (P == 8 || P == 9 || P == 2) {
    Buf r = {0}; b_tree(&r, h);
    what = "kvtree_pack_size of a large tree";
    CHECK(kvtree_pack_size(h) == r.n, "%zu, expected %zu", kvtree_pack_size(h), r.n);
    unsigned char *p = m_alloc(r.n + 1); p[r.n] = 0x5a;
    what = "kvtree_pack of a large tree";
    CHECK(kvtree_pack((char *)p, h) == r.n && !memcmp(p, r.p, r.n) && p[r.n] == 0x5a, "bytes differ from the documented format");
    if (P != 8) {
      what = "kvtree_unpack of a large tree";
      kvtree *u = kvtree_new();
      CHECK(kvtree_unpack((char *)r.p, u) == r.n, "consumes another number of bytes");
      Buf q = {0}; b_tree(&q, u);
      M *m = m_new(); CHECK(q.n == r.n, "the unpacked tree has another size");
      m_del(m); m_free(q.p);
      CHECK(kvtree_size(u) == kvtree_size(h), "%d elements, expected %d", kvtree_size(u), kvtree_size(h));
      kvtree_delete(&u);
    }
    m_free(p); m_free(r.p);
  }
  if (P == 11) {
    Buf b = ref_persist(h);
    void *p = NULL; size_t n = 0;
    what = "kvtree_write_persist of a large tree";
    CHECK(kvtree_write_persist(&p, &n, h) == KVTREE_SUCCESS && n == b.n && !memcmp(p, b.p, n), "bytes differ from the documented file format (%zu bytes, expected %zu)", n, b.n);
    kvtree_free(&p); m_free(b.p);
  }
}
static void check_sorted(kvtree *h, int ints, int dir) {
  kvtree_elem *p = NULL;
  for (kvtree_elem *e = kvtree_elem_first(h); e; p = e, e = kvtree_elem_next(e)) if (p) {
    long long c = ints ? (long long)atoi(p->key) - atoi(e->key) : strcmp(p->key, e->key);
    CHECK(dir == KVTREE_SORT_DESCENDING ? c >= 0 : c <= 0, "%.100s comes before %.100s", p->key, e->key);
  }
}
static void sort_all(kvtree *h, M *m) {
  int dirs[2] = {KVTREE_SORT_DESCENDING, KVTREE_SORT_ASCENDING};
  for (int d = 0; d < 2; d++) {
    what = "kvtree_sort_int of a wide level"; kvtree_sort_int(h, dirs[d]); k_fast(h, m, "sorted"); check_sorted(h, 1, dirs[d]);
    what = "kvtree_sort of a wide level"; kvtree_sort(h, dirs[d]); k_fast(h, m, "sorted"); check_sorted(h, 0, dirs[d]);
  }
  what = "kvtree_list_int of a wide level";
  int n = 0, *v = NULL;
  kvtree_list_int(h, &n, &v);
  CHECK(n == m->n, "%d keys listed, expected %d", n, m->n);
  int *w = m_alloc((n + 1) * sizeof *w);
  for (int i = 0; i < n; i++) w[i] = atoi(m->e[i].key);
  qsort(w, n, sizeof *w, cmp_int_);
  for (int i = 0; i < n; i++) CHECK(v[i] == w[i], "entry %d is %d, expected %d", i, v[i], w[i]);
  m_free(w); kvtree_free(&v);
}
static void scale(int P) {
  AT = 1 << 21;
  case_seed = rs;
  /* long keys that differ only at their end */
  static const int L[] = {63, 127, 254, 255, 256, 257, 511, 1022, 1023, 1024, 1025, 2047, 4094, 4095, 4096, 8191, 8192, 16384, 32766, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 100000};
  static char k[3][100010];
  for (unsigned i = 0; i < sizeof L / sizeof *L; i++) {
    M *m = m_new();
    for (int j = 0; j < 3; j++) { memset(k[j], 'p', L[i]); k[j][L[i]] = j == 2 ? 0 : 'a' + j; k[j][L[i] + 1] = 0; m_add(m, k[j])->sub = m_random(1, 2); }
    at_start();
    what = "long keys with a common beginning";
    kvtree *h = k_from(m); k_is(h, m, 1, "");
    if (P == 3 || P == 1 || P == 2) { kvtree *d = kvtree_new(); what = "kvtree_merge with long keys"; kvtree_merge(d, h); kvtree_merge(d, h); k_is(d, m, 0, ""); kvtree_delete(&d); k_is(h, m, 1, ""); }
    if (P == 4) { for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { M *q = m_find(m, k[a]) >= 0 ? m_add(m, k[a])->sub : NULL; kvtree_set_kv(h, k[a], k[b]); if (!m_add(q, k[b])->sub) m_add(q, k[b])->sub = m_new(); m_resync(h, m); k_is(h, m, 1, ""); }
      for (int a = 0; a < 3; a++) { kvtree_unset_kv(h, k[0], k[a]); M *q = m_add(m, k[0])->sub; m_rm(q, m_find(q, k[a])); if (!q->n) { m_rm(m, m_find(m, k[0])); k_is(h, m, 1, ""); break; } k_is(h, m, 1, ""); } }
    if (P == 5) for (int a = 0; a < 3; a++) { char *r = NULL; kvtree_util_set_str(h, k[a], k[(a + 1) % 3]); CHECK(kvtree_util_get_str(h, k[a], &r) == KVTREE_SUCCESS && r && !strcmp(r, k[(a + 1) % 3]), "string of %d characters", L[i]); one_value(m, k[a], h); k_is(h, m, 1, ""); }
    if (P == 7) { kvtree_sort(h, KVTREE_SORT_DESCENDING); k_is(h, m, 1, ""); check_sorted(h, 0, KVTREE_SORT_DESCENDING); kvtree_sort(h, KVTREE_SORT_ASCENDING); k_is(h, m, 1, ""); check_sorted(h, 0, KVTREE_SORT_ASCENDING); }
    if (P == 21) { print_case(h, 3, KVTREE_PRINT_TREE); print_case(h, 0, KVTREE_PRINT_KEYVAL); }
    check_bytes(P, h);
    if (P == 1 || P == 2) for (int j = 0; j < 3; j++) {
      int x = m_find(m, k[j]);
      what = "kvtree_extract / kvtree_unset of long keys";
      if (j == 1) { kvtree *s = kvtree_extract(h, k[j]); CHECK(s == m->e[x].ptr, "returns the wrong tree"); kvtree_delete(&s); } else kvtree_unset(h, k[j]);
      m_rm(m, x); k_is(h, m, 1, "");
    }
    kvtree_delete(&h); at_check(); m_del(m);
    note(L[i] * 77777L + P, 1);
  }
  /* wide levels */
  static const int W[] = {100, 127, 128, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 2500};
  for (unsigned i = 0; i < sizeof W / sizeof *W; i++) {
    int n = W[i];
    M *m = m_new();
    at_start();
    kvtree *h = kvtree_new();
    what = "building a wide level";
    for (int j = 0; j < n; j++) { char b[20]; snprintf(b, 20, "%d", (int)((unsigned)(j * 7919u) % (unsigned)n) - n / 2); kvtree *s = kvtree_new(); CHECK(kvtree_set(h, b, s) == s, "kvtree_set"); m->e = m_realloc(m->e, (j + 1) * sizeof(E)); m->e[m->n++] = (E){m_strdup(b), NULL, s}; }
    k_fast(h, m, "built");
    if (P == 3 || P == 2) { kvtree *d = kvtree_new(); what = "kvtree_merge of a wide level"; CHECK(kvtree_merge(d, h) == KVTREE_SUCCESS, "fails"); k_fast(d, m, "merged"); kvtree_merge(d, h); k_fast(d, m, "merged again"); kvtree_delete(&d); k_fast(h, m, "source"); }
    if (P == 7 || P == 2) sort_all(h, m);
    if (P == 21) { print_case(h, 0, KVTREE_PRINT_TREE); print_case(h, 0, KVTREE_PRINT_KEYVAL); }
    check_bytes(P, h);
    if (P == 1 || P == 2) {
      what = "unsetting of a wide level";
      for (int j = 0; j < n; j++) CHECK(kvtree_get(h, m->e[j].key) == m->e[j].ptr, "kvtree_get(%s)", m->e[j].key);
      for (int j = n - 1; j >= 0; j -= 2) { kvtree_unset(h, m->e[j].key); m_free(m->e[j].key); m->e[j] = m->e[--m->n]; }
      k_fast(h, m, "after kvtree_unset");
      kvtree_unset_all(h); CHECK(kvtree_size(h) == 0, "kvtree_unset_all leaves %d elements", kvtree_size(h));
    }
    what = "kvtree_delete";
    kvtree_delete(&h); at_check(); m_del(m);
    note(n * 99991L + P, 1);
  }
  /* very wide levels, built by unpacking */
  static const int X[] = {32767, 32768, 65535, 65536, 70001};
  for (unsigned i = 0; i < sizeof X / sizeof *X; i++) if (P == 1 || P == 2 || P == 7 || P == 8 || P == 9 || P == 11) {
    M *m = m_new();
    at_start();
    kvtree *h = unpack_wide(X[i], 7919 * 17, m);
    if (P == 7) sort_all(h, m);
    check_bytes(P, h);
    if (P == 1) for (int j = 0; j < 40; j++) { int x = rn(m->n); kvtree_unset(h, m->e[x].key); m_rm(m, x); }
    k_fast(h, m, "at last");
    what = "kvtree_delete";
    kvtree_delete(&h); at_check(); m_del(m);
    note(X[i] * 1000003L + P, 1);
  }
  /* deep trees */
  static const int D[] = {31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 2000};
  for (unsigned i = 0; i < sizeof D / sizeof *D; i++) {
    at_start();
    M *m = m_new(), *x = m;
    for (int j = 0; j < D[i]; j++) { E *e = m_add(x, j % 2 ? "key" : "val"); e->sub = m_new(); x = e->sub; }
    kvtree *h = k_from(m);
    what = "a deep tree";
    k_is(h, m, 1, "");
    if (P == 3 || P == 2) { kvtree *d = kvtree_new(); kvtree_merge(d, h); k_is(d, m, 0, "merged"); kvtree_merge(d, h); k_is(d, m, 0, "merged"); kvtree_delete(&d); k_is(h, m, 1, ""); }
    check_bytes(P, h);
    if (P == 21) { print_case(h, 0, KVTREE_PRINT_TREE); print_case(h, -5, KVTREE_PRINT_KEYVAL); }
    what = "deleting a deep tree";
    kvtree_delete(&h); at_check(); m_del(m);
    note(D[i] * 31337L + P, 1);
  }
  AT = 1 << 16;
}
/* sizes beyond 2 and 4 GiB: the same subtree hangs below many keys (it is only packed), so that little memory is used */
static void huge(int P, int keys, size_t klen) {
  case_seed = keys;
  kvtree *h = kvtree_new(), *leaf = kvtree_new();
  char *big = mmap(NULL, klen + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (big == MAP_FAILED) return;
  memset(big, 'h', klen);
  kvtree_set(leaf, big, kvtree_new());
  size_t exp = 4;
  for (int i = 0; i < keys; i++) { char b[20]; snprintf(b, 20, "%d", i); kvtree_set(h, b, leaf); exp += strlen(b) + 1 + 4 + klen + 1 + 4; }
  what = "a tree of several GiB";
  CHECK(kvtree_pack_size(h) == exp, "kvtree_pack_size reports %zu, expected %zu", kvtree_pack_size(h), exp);
  note(keys * 5L + P, 1);
  if (P == 8 || P == 9) {
    char *p = mmap(NULL, exp, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p != MAP_FAILED) {
      CHECK(kvtree_pack(p, h) == exp, "kvtree_pack reports another size");
      size_t at = 4;
      for (kvtree_elem *e = h->lh_first; e; e = e->pointers.le_next) { CHECK(!strcmp(p + at, e->key), "key %s is not at its place", e->key); at += strlen(e->key) + 1 + 4 + klen + 1 + 4; }
      if (P == 9) { kvtree *u = kvtree_new(); CHECK(kvtree_unpack(p, u) == exp, "kvtree_unpack consumes another number of bytes"); CHECK(kvtree_size(u) == keys, "keys"); kvtree_delete(&u); }
      munmap(p, exp);
    }
  }
  if (P == 11) {
    void *p = NULL; size_t n = 0;
    CHECK(kvtree_write_persist(&p, &n, h) == KVTREE_SUCCESS, "kvtree_write_persist fails");
    CHECK(n == exp + 24, "kvtree_write_persist reports %zu bytes, expected %zu", n, exp + 24);
    Buf b = {0}; b_be(&b, n, 8);
    CHECK(!memcmp((char *)p + 8, b.p, 8), "the size in the header differs");
    uLong c = crc32(0, NULL, 0);
    for (size_t o = 0; o < n - 4; o += 1 << 20) c = crc32(c, (Bytef *)p + o, n - 4 - o < (1 << 20) ? n - 4 - o : 1 << 20);
    b.n = 0; b_be(&b, c, 4);
    CHECK(!memcmp((char *)p + n - 4, b.p, 4), "the checksum differs");
    m_free(b.p); kvtree_free(&p);
  }
  munmap(big, klen + 1);
  for (kvtree_elem *e = h->lh_first; e; e = e->pointers.le_next) e->hash = NULL;
  kvtree_delete(&h); kvtree_delete(&leaf);
}
/* ------------------------------------------------------------------ driver */
static void one_case(const char *prop, int idx) {
  case_seed = rs;
  key_style = 0; missing_ok = 1;
  int P = atoi(prop + 1);
  if (P == 7) key_style = rn(2);
  top.m = m_random(rn(4), 5);
  if (P == 7 && rn(6) == 0) { m_del(top.m); top.m = m_new(); int n = rn(300); for (int i = 0; i < n; i++) { E *e = m_add(top.m, rkey()); if (!e->sub) e->sub = m_new(); } }
  if (P == 10) { note(rs, 1); if (idx < 1) sample("widths 16/32/64, every position of a buffer, from random state %llu", (unsigned long long)rs); case_ints(); m_del(top.m); return; }
  at_start();
  what = "building a tree";
  top.h = k_from(top.m);
  all_ok(1);
  int n = P == 21 || P == 22 ? 3 : 12;
  for (int i = 0; i < n; i++) {
    int w = -1;
    switch (P) {
    case 1: w = rn(6) == 5 ? 9 : rn(5); break;
    case 2: w = rn(11); break;
    case 3: w = rn(3) ? 5 : rn(5); break;
    case 4: w = rn(4) ? 6 : rn(5); break;
    case 5: w = rn(4) ? 7 : rn(5); break;
    case 6: w = rn(4) ? 8 : rn(5); break;
    case 7: w = rn(3) ? 9 : rn(5); break;
    case 8: w = rn(2) ? 10 : rn(5); break;
    case 9: w = rn(2) ? 11 : rn(5); break;
    case 11: w = rn(2) ? 12 : rn(5); break;
    case 21: w = 13; break;
    case 22: w = 14; break;
    }
    switch (w) {
    case 0: op_set(); break;
    case 1: op_unset(); break;
    case 2: op_unset_all(); break;
    case 3: op_get(); break;
    case 4: op_extract(); break;
    case 5: op_merge(); break;
    case 6: op_kv(); break;
    case 7: op_util(); break;
    case 8: op_setf(); break;
    case 9: op_sort(); break;
    case 10: op_pack(P == 2); break;
    case 11: op_pack(1); break;
    case 12: case_persist(); break;
    case 13: case_print(idx); break;
    case 14: case_null(); break;
    default: FAILED("unknown property %s", prop);
    }
    all_ok(1);
    note_tree(top.m, what);
  }
  what = "kvtree_delete";
  CHECK(kvtree_delete(&top.h) == KVTREE_SUCCESS && top.h == NULL, "does not clear the caller's pointer");
  at_check();
  m_del(top.m);
}
int main(int argc, char **argv) {
  if (argc < 4) return 2;
  const char *prop = argv[1];
  rs = strtoull(argv[2], NULL, 10) * 1000003 + atoi(prop + 1);
  int n = atoi(argv[3]);
  quiet_stderr();
  if (!strcmp(prop, "C06")) setf_bad();
  int P = atoi(prop + 1);
  unsigned long s0 = strtoul(argv[2], NULL, 10);
  if (s0 % 8 == 1 && P != 6 && P != 10 && P != 22) scale(P);
  if (s0 % 1000 == 1 && (P == 8 || P == 9 || P == 11)) { huge(P, 35, 64 << 20); if (P != 9) huge(P, 67, 64 << 20); }
  for (int i = 0; i < n; i++) one_case(prop, i);
  return report_ok(prop);
}
