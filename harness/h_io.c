/* Files: transfers, round trips, damaged files, injected failures, locking, file sets (C12-C16, C20).
 * usage: h_io <Cxx> <seed> <cases> <scratch-dir>
 * Every system call the library makes on a file goes through the wrappers below, which keep a shadow
 * table of the descriptors and can inject short counts, interruptions and errors. */
#include "h.h"
#include <sys/mman.h>
#include <dirent.h>

static char dir[600];

#include "shadow.h"

/* ------------------------------------------------------------------ files */
static char path[3000];
static void put_file(const char *p, const void *d, size_t n) {
  int fd = __real_open(p, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd < 0) { perror(p); exit(2); }
  size_t k = 0;
  while (k < n) { ssize_t r = __real_write(fd, (char *)d + k, n - k); if (r <= 0) exit(2); k += r; }
  __real_close(fd);
}
static Buf get_file(const char *p, int *exists) {
  Buf b = {0};
  int fd = __real_open(p, O_RDONLY);
  *exists = fd >= 0;
  if (fd < 0) return b;
  char c[65536]; ssize_t r;
  while ((r = __real_read(fd, c, sizeof c)) > 0) b_put(&b, c, r);
  __real_close(fd);
  return b;
}
static void file_holds(const char *p, const kvtree *h, const char *op) {
  int ex;
  Buf g = get_file(p, &ex), w = ref_persist(h);
  CHECK(ex, "%s reports success, but there is no file", op);
  CHECK(g.n == w.n, "%s reports success, but the file has %zu bytes instead of %zu", op, g.n, w.n);
  for (size_t i = 0; i < g.n; i++) CHECK(g.p[i] == w.p[i], "%s reports success, but byte %zu of the file is %02x instead of %02x", op, i, g.p[i], w.p[i]);
  m_free(g.p); m_free(w.p);
}
static void fresh(void) { static int n; snprintf(path, sizeof path, "%s/f%d", dir, n++ % 4); unlink(path); }
static M *rtree(void) {
  int z = rn(40);
  if (z == 0) { M *m = m_new(); int n = 200 + rn(3000); for (int i = 0; i < n; i++) { char k[40]; snprintf(k, sizeof k, "key-%d-%d", i, rn(1000)); E *e = m_add(m, k); if (!e->sub) e->sub = m_new(); } return m; }
  if (z == 1) return m_new();
  if (z == 2) { M *r = m_new(), *m = r; for (int i = 0; i < 300; i++) { E *e = m_add(m, rn(2) ? "x" : ""); e->sub = m_new(); m = e->sub; } return r; }
  return m_random(rn(4), 5);
}
/* a tree, also as written: a missing subtree is read back as an empty one */
static M *filled(const M *m) { M *r = m_new(); m_merge(r, m); return r; }

/* earlier content of the file: 0 none, 1 empty, 2 a longer tree, 3 a shorter tree, 4 garbage longer than anything */
static M *prior(int kind) {
  fresh();
  M *m = NULL;
  if (kind == 1) put_file(path, "", 0);
  if (kind == 2 || kind == 3) {
    m = m_new();
    int n = kind == 2 ? 50 + rn(100) : 1;
    for (int i = 0; i < n; i++) { char k[80]; snprintf(k, sizeof k, "earlier-content-of-this-file-%d", i); m_add(m, k)->sub = m_new(); }
    kvtree *h = k_from(m);
    Buf b = ref_persist(h);
    put_file(path, b.p, b.n);
    m_free(b.p); kvtree_delete(&h);
  }
  if (kind == 4) { size_t n = 5000 + rn(100000); char *g = m_alloc(n); for (size_t i = 0; i < n; i++) g[i] = (char)rnd(); put_file(path, g, n); m_free(g); }
  return m;
}
enum { W_FILE, W_LOCK, W_PAIR, W_FD, NW };
static const char *WN[] = {"kvtree_write_file", "kvtree_write_with_lock", "kvtree_lock_open_read+kvtree_write_close_unlock", "kvtree_write_fd"};
/* writes h with API w; returns 1 for reported success. M of the earlier content for the pair */
static int do_write(int w, kvtree *h, M *old) {
  int rc;
  need_lock = (w == W_LOCK || w == W_PAIR);
  if (w == W_FD) {
    int fd = __real_open(path, O_RDWR | O_CREAT | O_TRUNC, 0600);
    lib_start();
    F[fd].open = 1;
    ssize_t n = kvtree_write_fd(path, fd, h);
    lib_stop();
    Buf b = ref_persist(h);
    if (n >= 0) CHECK((size_t)n == b.n, "kvtree_write_fd returns %zd for %zu bytes", n, b.n);
    m_free(b.p);
    __real_close(fd);
    return n >= 0;
  }
  lib_start();
  if (w == W_FILE) rc = kvtree_write_file(path, h);
  else if (w == W_LOCK) rc = kvtree_write_with_lock(path, h);
  else {
    int fd = 12345;
    kvtree *d = kvtree_new();
    rc = kvtree_lock_open_read(path, &fd, d);
    if (rc == KVTREE_SUCCESS) {
      CHECK(fd >= 0, "kvtree_lock_open_read reports success without a descriptor");
      if (check_close) CHECK(F[fd].open, "kvtree_lock_open_read reports success, but the file is not open");
      if (check_locks) CHECK(F[fd].lock == 2, "kvtree_lock_open_read returns without holding the exclusive lock");
      k_is(d, old, 0, "");
      rc = kvtree_write_close_unlock(path, &fd, h);
      if (check_close) CHECK(fd == -1, "kvtree_write_close_unlock leaves the descriptor set");
    } else if (check_close) CHECK(fd < 0, "kvtree_lock_open_read fails, but hands out descriptor %d", fd);
    kvtree_delete(&d);
  }
  lib_stop();
  all_closed(WN[w]);
  if (check_close) CHECK(!(close_failed && rc == KVTREE_SUCCESS), "%s reports success although closing the file failed", WN[w]);
  return rc == KVTREE_SUCCESS;
}
enum { R_FILE, R_LOCK, R_LOR, R_FD, NR };
static const char *RN[] = {"kvtree_read_file", "kvtree_read_with_lock", "kvtree_lock_open_read", "kvtree_read_fd"};
static ssize_t last_read;
static int do_read(int r, kvtree *d) {
  int rc;
  need_lock = (r == R_LOCK || r == R_LOR);
  if (r == R_FD) {
    int fd = __real_open(path, O_RDONLY);
    lib_start();
    if (fd >= 0) F[fd].open = 1;
    last_read = kvtree_read_fd(path, fd, d);
    lib_stop();
    if (fd >= 0) __real_close(fd);
    return last_read >= 0;
  }
  lib_start();
  if (r == R_FILE) rc = kvtree_read_file(path, d);
  else if (r == R_LOCK) rc = kvtree_read_with_lock(path, d);
  else {
    int fd = 12345;
    rc = kvtree_lock_open_read(path, &fd, d);
    if (rc == KVTREE_SUCCESS) {
      if (check_locks) CHECK(fd >= 0 && F[fd].lock == 2, "kvtree_lock_open_read returns without holding the exclusive lock");
      CHECK(fd >= 0, "kvtree_lock_open_read reports success without a descriptor");
      kvtree_close_with_unlock(path, fd);
    } else if (check_close) CHECK(fd < 0, "kvtree_lock_open_read fails, but hands out descriptor %d", fd);
  }
  lib_stop();
  all_closed(RN[r]);
  if (check_close && r != R_LOR) CHECK(!(close_failed && rc == KVTREE_SUCCESS), "%s reports success although closing the file failed", RN[r]);
  return rc == KVTREE_SUCCESS;
}

/* ------------------------------------------------------------------ C12 */
static void case_round(void) {
  what = "writing and reading a file";
  f_act = 0; rand_short = rn(2) ? 30 : 0;
  M *m = rtree();
  at_start();
  kvtree *h = k_from(m);
  int w = rn(NW), pk = rn(w == W_PAIR ? 4 : 5);
  M *old = prior(pk);
  static char wh[300]; snprintf(wh, sizeof wh, "%s, earlier content %d, short counts %d%%", WN[w], pk, rand_short); what = wh;
  note_tree(m, wh);
  CHECK(do_write(w, h, old), "%s fails on a healthy system", WN[w]);
  k_is(h, m, 1, "");
  file_holds(path, h, WN[w]);
  int r = rn(NR);
  static char wr[400]; snprintf(wr, sizeof wr, "%s after %s, short counts %d%%", RN[r], WN[w], rand_short); what = wr;
  M *dm = rn(2) ? m_new() : m_random(2, 4);
  kvtree *d = k_from(dm);
  CHECK(do_read(r, d), "%s fails on a file that was written successfully", RN[r]);
  m_merge(dm, m);
  k_is(d, dm, 0, "");
  Buf b = ref_persist(h);
  if (r == R_FD) CHECK((size_t)last_read == b.n, "kvtree_read_fd returns %zd for a file of %zu bytes", last_read, b.n);
  m_free(b.p);
  file_holds(path, h, "the earlier write");
  kvtree_delete(&d); kvtree_delete(&h);
  at_check();
  m_del(m); m_del(dm); m_del(old);
}
/* two threads of control use the file one after the other; here also writing through a descriptor in the middle of a file */

/* ------------------------------------------------------------------ C13 */
static uint64_t be(const unsigned char *p, int w) { uint64_t v = 0; while (w--) v = v << 8 | *p++; return v; }
static void set_be(unsigned char *p, uint64_t v, int w) { while (w--) { p[w] = (unsigned char)v; v >>= 8; } }
/* parse a packed tree; -1 malformed. On success *used is its size */
static M *ref_parse(const unsigned char *p, size_t n, size_t *used, int *dup, int depth) {
  if (n < 4 || depth > 5000) return NULL;
  uint64_t c = be(p, 4);
  size_t o = 4;
  if (c > INT_MAX) return NULL;
  M *m = m_new();
  for (uint64_t i = 0; i < c; i++) {
    const unsigned char *e = o <= n ? memchr(p + o, 0, n - o) : NULL;
    if (!e) { m_del(m); return NULL; }
    char *k = (char *)p + o;
    o = (size_t)(e - p) + 1;
    size_t u; M *s = ref_parse(p + o, n - o, &u, dup, depth + 1);
    if (!s) { m_del(m); return NULL; }
    if (m_find(m, k) >= 0) { *dup = 1; m_del(s); }
    else m_add(m, k)->sub = s;
    o += u;
  }
  *used = o;
  return m;
}
static void fix_crc(Buf *b, size_t size) { if (size >= 24 && size <= b->n) set_be(b->p + size - 4, ref_crc(b->p, size - 4), 4); }
static void check_bytes(Buf *b, const char *desc) {
  /* what the file is */
  int must_fail = 0, must_work = 0, dup = 0;
  M *m = NULL; const char *why = "";
  if (b->n > 0) {
    if (b->n < 20) { must_fail = 1; why = "no complete header"; }
    else if (be(b->p, 4) != R_MAGIC || be(b->p + 4, 2) != R_TYPE || be(b->p + 6, 2) != R_VERSION) { must_fail = 1; why = "foreign header"; }
    else {
      uint64_t sz = be(b->p + 8, 8); uint32_t fl = be(b->p + 16, 4);
      int crc = fl & 1;
      if (sz < 20u || (crc && sz < 24)) { must_fail = 1; why = "impossible size field"; }
      else if (sz > b->n) { must_fail = 1; why = "shorter than it claims"; }
      else if (crc && be(b->p + sz - 4, 4) != ref_crc(b->p, sz - 4)) { must_fail = 1; why = "checksum does not match"; }
      else {
        size_t used = 0, room = sz - 20 - (crc ? 4 : 0);
        m = ref_parse(b->p + 20, room, &used, &dup, 0);
        if (m && used == room && !dup && fl <= 1) must_work = 1;
        if (!m) { must_fail = 1; why = "no complete packed tree within the size (and before the checksum)"; }
      }
    }
  }
  put_file(path, b->p, b->n);
  note(s_hash(desc) ^ (b->n ? ref_crc(b->p, b->n) : 0), 1);
  sample("%s", desc);
  for (int k = 0; k < 2; k++) {
    int r = rn(NR);
    static char wh[400]; snprintf(wh, sizeof wh, "%s of a file: %s (%zu bytes)", RN[r], desc, b->n); what = wh;
    M *dm = rn(2) ? m_new() : m_random(2, 3);
    at_start();
    kvtree *d = k_from(dm);
    int ok = do_read(r, d);
    if (b->n == 0) {
      if (r == R_FD) CHECK(last_read == 0, "kvtree_read_fd returns %zd for an empty file", last_read);
      k_is(d, dm, 1, "");
    }
    if (must_fail) CHECK(!ok, "the read reports success: %s", why);
    if (b->n > 0 && ok && r == R_FD) CHECK(last_read > 0, "kvtree_read_fd returns %zd for a file with data", last_read);
    if (!ok) k_is(d, dm, 1, "");
    if (must_work) { CHECK(ok, "a well-formed file is refused"); }
    if (ok && m && !dup && b->n > 0) { M *x = m_copy(dm); m_merge(dm, m); m_del(x); k_is(d, dm, 0, ""); }
    kvtree_delete(&d);
    at_check();
    m_del(dm);
  }
  m_del(m);
}
/* a file whose checksum bytes are at the same time the end of its packed tree */
static void overlapping(Buf *b) {
  for (int t = 0; t < 2000; t++) {
    b->n = 0;
    int pre = 1 + rn(6);
    b_be(b, R_MAGIC, 4); b_be(b, R_TYPE, 2); b_be(b, R_VERSION, 2); b_be(b, 20 + 4 + pre + 4 + 1 + 4, 8); b_be(b, 1, 4);
    b_be(b, 1, 4);
    for (int i = 0; i < pre; i++) { char c = (char)(1 + rn(255)); b_put(b, &c, 1); }
    size_t at = b->n;
    b_be(b, 0, 4); b_be(b, 0, 1);
    /* the checksum is affine in the four bytes at `at`; make it zero (= the count of an empty subtree) */
    uint32_t c0 = ref_crc(b->p, b->n), col[32], rhs = c0, sol = 0, val[32], comb[32];
    for (int i = 0; i < 32; i++) { set_be(b->p + at, 1u << i, 4); col[i] = ref_crc(b->p, b->n) ^ c0; }
    memset(val, 0, sizeof val); memset(comb, 0, sizeof comb);
    for (int i = 0; i < 32; i++) {
      uint32_t v = col[i], c = 1u << i;
      for (int j = 31; j >= 0 && v; j--) if (v >> j & 1) { if (val[j]) { v ^= val[j]; c ^= comb[j]; } else { val[j] = v; comb[j] = c; v = 0; } }
    }
    for (int j = 31; j >= 0; j--) if (rhs >> j & 1) { rhs ^= val[j]; sol ^= comb[j]; }
    set_be(b->p + at, sol, 4);
    if (ref_crc(b->p, b->n) != 0 || memchr(b->p + at, 0, 4)) continue;
    b_be(b, 0, 4);
    return;
  }
}
static void case_corrupt(void) {
  f_act = 0; rand_short = 0;
  M *m = rn(3) ? m_random(rn(3), 3) : m_random(3, 5);
  kvtree *h = k_from(m);
  Buf o = ref_persist(h);
  kvtree_delete(&h);
  m_del(m);
  fresh();
  check_bytes(&o, "intact");
  int rounds = 12;
  while (rounds--) {
    Buf b = {0}; b_put(&b, o.p, o.n);
    char desc[200];
    int z = rn(13);
    size_t sz = b.n;
    switch (z) {
    case 0: { size_t n = rnd() % (b.n + 1); b.n = n; snprintf(desc, sizeof desc, "cut to %zu of %zu bytes", n, o.n); break; }
    case 1: { size_t i = rnd() % b.n; int x = 1 + rn(255); b.p[i] ^= x; snprintf(desc, sizeof desc, "byte %zu changed by %02x", i, x); break; }
    case 2: { size_t i = rnd() % 20; int x = 1 << rn(8); b.p[i] ^= x; fix_crc(&b, sz); snprintf(desc, sizeof desc, "header byte %zu changed by %02x, checksum recomputed", i, x); break; }
    case 3: {
      static const int64_t ed[] = {0, 1, 4, 8, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, -1, -2, -4, -20, INT64_MAX, INT64_MIN, INT64_MIN + 20, INT32_MAX, 0x100000000, 0x100000018, 0xffffffff};
      int64_t v = rn(3) ? ed[rn(sizeof ed / sizeof *ed)] : (int64_t)b.n + rn(41) - 20;
      set_be(b.p + 8, (uint64_t)v, 8);
      if (rn(2)) { if ((uint64_t)v <= b.n) fix_crc(&b, v); else fix_crc(&b, b.n); }
      snprintf(desc, sizeof desc, "size field %lld for %zu bytes", (long long)v, b.n); break; }
    case 4: {
      static const uint32_t ed[] = {0, 1, 2, 3, 0xffffffff, 0x7fffffff, 0x80000000, 0x7ffffffe, 0x10000, 0x1000000};
      uint32_t c = ed[rn(10)];
      set_be(b.p + 20, c, 4); fix_crc(&b, sz);
      snprintf(desc, sizeof desc, "top count %u, checksum recomputed", c); break; }
    case 5: {   /* damage inside the packed tree, valid checksum */
      int n = 1 + rn(3);
      for (int i = 0; i < n && b.n > 24; i++) { size_t j = 20 + rnd() % (b.n - 24); b.p[j] = rn(2) ? (unsigned char)rnd() : rn(2) ? 0 : 0xff; }
      fix_crc(&b, sz);
      snprintf(desc, sizeof desc, "packed tree damaged, checksum recomputed"); break; }
    case 6: {   /* no checksum */
      set_be(b.p + 16, 0, 4);
      set_be(b.p + 8, b.n - 4, 8); b.n -= 4;
      if (rn(2) && b.n > 20) { size_t j = 20 + rnd() % (b.n - 20); b.p[j] = (unsigned char)rnd(); }
      if (rn(2)) b.n -= rnd() % (b.n + 1 > 30 ? 10 : 1);
      snprintf(desc, sizeof desc, "without checksum"); break; }
    case 7: { int n = 1 + rn(50); for (int i = 0; i < n; i++) { char c = (char)rnd(); b_put(&b, &c, 1); } snprintf(desc, sizeof desc, "%d extra bytes at the end", n); break; }
    case 8: { b.n = 0; snprintf(desc, sizeof desc, "empty"); break; }
    case 9: { int n = rn(60); b.n = 0; for (int i = 0; i < n; i++) { char c = (char)rnd(); b_put(&b, &c, 1); } snprintf(desc, sizeof desc, "%d random bytes", n); break; }
    case 10: {  /* cut, but size field and checksum consistent: the packed tree itself is incomplete */
      size_t n = 20 + rnd() % (b.n - 23);
      b.n = n; b_be(&b, 0, 4); set_be(b.p + 8, b.n, 8); fix_crc(&b, b.n);
      snprintf(desc, sizeof desc, "packed tree cut to %zu bytes, size and checksum consistent", n - 20); break; }
    case 12: { overlapping(&b); snprintf(desc, sizeof desc, "the packed tree runs into the checksum"); break; }
    case 11: { uint64_t x = be(b.p + b.n - 4, 4); set_be(b.p + b.n - 4, rn(2) ? x + 1 : x ^ (1u << rn(32)), 4); snprintf(desc, sizeof desc, "checksum changed"); break; }
    }
    check_bytes(&b, desc);
    m_free(b.p);
  }
  m_free(o.p);
}

/* ------------------------------------------------------------------ C14 */
static void case_transfer(void) {
  int wr = rn(2), big = rn(6) == 0;
  sc_size = big ? (size_t)1 + ((rnd() & 0x1ffffffffULL)) : (size_t)rn(rn(2) ? 20 : 3000);
  if (big && rn(2)) sc_size = 0x80000000ULL + rn(5) - 2;
  if (big && rn(4) == 0) sc_size = 0x100000000ULL + rn(5) - 2;
  sc_done = 0; sc_calls = 0; sc_mode = rn(5);
  sc_eof = (long)(sc_size ? rnd() % sc_size : 0);
  if (sc_mode == 4 && rn(3) == 0) sc_eof = sc_size + 1;
  unsigned char *mem = NULL, *copy = NULL;
  if (big) { sc_base = mmap(NULL, sc_size, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (sc_base == MAP_FAILED) return; sc_data = NULL; }
  else {
    mem = malloc(sc_size + 1); copy = malloc(sc_size + 1);
    sc_base = (char *)mem; sc_data = copy;
    for (size_t i = 0; i < sc_size; i++) { mem[i] = (unsigned char)rnd(); copy[i] = (unsigned char)rnd(); }
    mem[sc_size] = 0xa5;
  }
  unsigned char *orig = mem ? malloc(sc_size + 1) : NULL;
  if (mem) memcpy(orig, wr ? mem : copy, sc_size);
  static char wh[200]; snprintf(wh, sizeof wh, "%s of %zu bytes, mode %d, limit %ld", wr ? "kvtree_write_attempt" : "kvtree_read_attempt", sc_size, sc_mode, sc_eof); what = wh;
  note(s_hash(wh), sc_size > 0);
  sample("%s", wh);
  scripted = 1; f_errno = rerr(); errno = rn(2) ? 0 : EINTR;
  ssize_t n = wr ? kvtree_write_attempt("f", 900, sc_base, sc_size) : kvtree_read_attempt("f", 900, sc_base, sc_size);
  scripted = 0;
  if (n == (ssize_t)sc_size) CHECK(sc_done == sc_size, "reports the full length after moving %zu bytes", sc_done);
  if (n >= 0 && n != (ssize_t)sc_size) CHECK(!wr && (sc_mode == 4 || sc_done == (size_t)n), "returns %zd after moving %zu bytes", n, sc_done);
  switch (sc_mode) {
  case 0: case 1: CHECK(n == (ssize_t)sc_size, "returns %zd although nothing but short counts and interruptions happened", n); break;
  case 2: CHECK(n == (ssize_t)sc_size || n < 0, "returns %zd", n); break;
  case 3: CHECK(sc_size == 0 ? n == 0 : n < 0, "returns %zd although the error persists", n); CHECK(sc_calls < 100000, "%ld attempts", sc_calls); break;
  case 4: if (!wr && sc_size) CHECK(n == (ssize_t)(sc_eof < (long)sc_size ? sc_eof : (long)sc_size), "returns %zd at end of file after %zu bytes", n, sc_done);
          if (wr && sc_eof < (long)sc_size) CHECK(n < 0, "returns %zd although nothing more is accepted", n); break;
  }
  if (mem) {
    CHECK(memcmp(mem, orig, wr ? sc_size : sc_done) == 0, "bytes changed on the way");
    CHECK(memcmp(copy, orig, wr ? sc_done : sc_size) == 0, "bytes changed on the way");
    CHECK(mem[sc_size] == 0xa5, "writes behind the buffer");
    free(mem); free(copy); free(orig);
  } else munmap(sc_base, sc_size);
  sc_data = NULL;
}

/* ------------------------------------------------------------------ C15, C16: every call fails in turn */
static void faults(int locks) {
  int reading = rn(2);
  check_locks = locks; check_close = !locks;
  M *m = rn(4) ? m_random(rn(3), 4) : rtree();
  int api;
  do { api = reading ? rn(NR) : rn(NW); } while (reading ? (api == R_FD || (locks && api == R_FILE)) : (api == W_FD || (locks && api == W_FILE)));
  rand_short = rn(3) ? 0 : 20;
  uint64_t keep = rnd();
  long total = -1;
  static char wh[400];
  for (long at = -1; at < (total > 60 ? 60 : total) || at < 0; at++)
    for (int act = at < 0 ? A_NONE : A_ERR; act <= (at < 0 ? A_NONE : A_EINTR); act++) {
      rs = keep;
      int pk = rn(api == W_PAIR && !reading ? 4 : 5);
      at_start();
      kvtree *h = k_from(m);
      M *old = NULL, *dm = NULL; kvtree *d = NULL;
      if (reading) {
        fresh();
        Buf b = ref_persist(h);
        put_file(path, b.p, b.n);
        m_free(b.p);
        dm = rn(2) ? m_new() : m_random(2, 3);
        d = k_from(dm);
      } else old = prior(pk);
      f_act = act; f_at = at; f_errno = (act == A_ERR || act == A_ERRALL) ? rerr() : EIO;
      snprintf(wh, sizeof wh, "%s, call %ld: %s, earlier content %d", reading ? RN[api] : WN[api], at, AN[act], pk);
      what = wh;
      note_tree(m, wh);
      int ok = reading ? do_read(api, d) : do_write(api, h, old);
      if (at < 0) { total = ncalls; CHECK(ok, "fails on a healthy system"); }
      else { snprintf(wh, sizeof wh, "%s, call %ld (%s): %s, earlier content %d", reading ? RN[api] : WN[api], at, f_kind >= 0 ? KN[f_kind] : "none", AN[act], pk); }
      int fk = f_kind;
      if (locks) {
        if (fk == K_LOCK && act == A_ERRALL && kcalls[K_LOCK] > 0) {
          /* was the acquisition the call that failed? */
          if (read_done == 0 && write_done == 0) CHECK(!ok, "reports success although the lock could not be obtained");
        }
      } else if (ok) {
        if (reading) { M *x = m_copy(dm); m_merge(x, m); k_is(d, x, 0, ""); m_del(x); }
        else file_holds(path, h, WN[api]);
      }
      f_act = 0;
      kvtree_delete(&d); kvtree_delete(&h);
      at_check();
      m_del(old); m_del(dm);
    }
  rs = keep; rnd();
  m_del(m);
}
/* failures while a single process writes or reads a whole file set */
static void fill_ranks(M *m, int n);
static void rm_set(const char *prefix);
static void faults_set(void) {
  check_close = 1; check_locks = 0; need_lock = 0; rand_short = 0;
  M *m = m_new(); int n = 1 + rn(4); fill_ranks(m, n);
  int per = 1 + rn(n); char b[20]; snprintf(b, sizeof b, "%d", per); setenv("KVTREE_ENTRIES_PER_FILE", b, 1);
  char pre[800]; snprintf(pre, sizeof pre, "%s/set", dir);
  static char wh[300];
  long total = -1;
  for (long at = -1; at < (total > 60 ? 60 : total) || at < 0; at++)
    for (int act = at < 0 ? A_NONE : A_ERR; act <= (at < 0 ? A_NONE : A_ERRALL); act++) {
      rm_set(pre);
      kvtree *h = k_from(m);
      f_act = act; f_at = at;
      snprintf(wh, sizeof wh, "kvtree_write_to_gather, %d ranks, %d per file, call %ld: %s", n, per, at, AN[act]); what = wh;
      note_tree(m, wh);
      lib_start();
      int rc = kvtree_write_to_gather(pre, h, n);
      lib_stop();
      if (at < 0) { total = ncalls; CHECK(rc == KVTREE_SUCCESS, "fails on a healthy system"); }
      all_closed("kvtree_write_to_gather");
      CHECK(!(close_failed && rc == KVTREE_SUCCESS), "reports success although closing a file failed");
      f_act = 0;
      if (rc == KVTREE_SUCCESS) {
        kvtree *d = kvtree_new();
        CHECK(kvtree_read_scatter_single(pre, d) == KVTREE_SUCCESS, "reports success, but the set can not be read back");
        M *x = filled(m); k_is(d, x, 0, ""); m_del(x);
        kvtree_delete(&d);
      }
      kvtree_delete(&h);
    }
  /* and reading */
  rm_set(pre);
  kvtree *h = k_from(m);
  CHECK(kvtree_write_to_gather(pre, h, n) == KVTREE_SUCCESS, "fails");
  total = -1;
  for (long at = -1; at < (total > 60 ? 60 : total) || at < 0; at++)
    for (int act = at < 0 ? A_NONE : A_ERR; act <= (at < 0 ? A_NONE : A_ERRALL); act++) {
      kvtree *d = kvtree_new();
      f_act = act; f_at = at;
      snprintf(wh, sizeof wh, "kvtree_read_scatter_single, %d ranks, %d per file, call %ld: %s", n, per, at, AN[act]); what = wh;
      note_tree(m, wh);
      lib_start();
      int rc = kvtree_read_scatter_single(pre, d);
      lib_stop();
      f_act = 0;
      if (at < 0) { total = ncalls; CHECK(rc == KVTREE_SUCCESS, "fails on a healthy system"); }
      all_closed("kvtree_read_scatter_single");
      CHECK(!(close_failed && rc == KVTREE_SUCCESS), "reports success although closing a file failed");
      if (rc == KVTREE_SUCCESS) { M *x = filled(m); k_is(d, x, 0, ""); m_del(x); }
      kvtree_delete(&d);
    }
  kvtree_delete(&h);
  rm_set(pre);
  unsetenv("KVTREE_ENTRIES_PER_FILE");
  m_del(m);
}
/* concurrent read-modify-write and readers */
static void concurrent(int procs, int iters) {
  what = "concurrent increments under kvtree_lock_open_read/kvtree_write_close_unlock";
  check_locks = check_close = 0; f_act = 0; rand_short = 0; need_lock = 0; tracking = 0;
  fresh();
  pid_t pid[16];
  int np = 0;
  fflush(stdout);
  for (int p = 0; p < procs; p++) if ((pid[np] = fork()) == 0) {
    rs += p * 7919;
    for (int i = 0; i < iters; i++) {
      kvtree *h = kvtree_new(); int fd = -1;
      CHECK(kvtree_lock_open_read(path, &fd, h) == KVTREE_SUCCESS, "can not lock and read");
      char *v = kvtree_get_val(h, "COUNT");
      int c = v ? atoi(v) : 0;
      if (v) {   /* the filler must match the counter: no mixture of two versions */
        int n = kvtree_size(kvtree_get(h, "FILL"));
        CHECK(n == (c * 37) % 11, "a reader under the lock sees a mixture of versions (count %d, filler %d)", c, n);
      }
      kvtree *w = kvtree_new();
      kvtree_set_kv_int(w, "COUNT", c + 1);
      kvtree *f = kvtree_set(w, "FILL", kvtree_new());
      for (int k = 0; k < ((c + 1) * 37) % 11; k++) { char b[60]; snprintf(b, sizeof b, "filler-key-number-%d", k); kvtree_set(f, b, kvtree_new()); }
      CHECK(kvtree_write_close_unlock(path, &fd, w) == KVTREE_SUCCESS, "can not write back");
      kvtree_delete(&w); kvtree_delete(&h);
    }
    _exit(0);
  } else np++;
  for (int p = 0; p < 2; p++) if ((pid[np] = fork()) == 0) {
    int last = 0;
    for (int i = 0; i < iters; i++) {
      kvtree *h = kvtree_new();
      CHECK(kvtree_read_with_lock(path, h) == KVTREE_SUCCESS, "can not read under the shared lock");
      char *v = kvtree_get_val(h, "COUNT");
      int c = v ? atoi(v) : 0;
      CHECK(c >= last, "the counter goes back from %d to %d", last, c);
      if (v) CHECK(kvtree_size(kvtree_get(h, "FILL")) == (c * 37) % 11, "a reader under the lock sees a mixture of versions");
      last = c;
      kvtree_delete(&h);
    }
    _exit(0);
  } else np++;
  int bad = 0;
  for (int p = 0; p < np; p++) { int st; waitpid(pid[p], &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = 1; }
  if (bad) FAILED("a concurrent process reported a failure");
  kvtree *h = kvtree_new();
  CHECK(kvtree_read_file(path, h) == KVTREE_SUCCESS, "can not read the result");
  char *v = kvtree_get_val(h, "COUNT");
  CHECK(v && atoi(v) == procs * iters, "%d increments by %d processes gave %s", procs * iters, procs, v ? v : "nothing");
  kvtree_delete(&h);
}

/* ------------------------------------------------------------------ C20 */
static int rank_gaps;
static void fill_ranks(M *m, int n) {
  int *p = m_alloc((n + 1) * sizeof(int));
  for (int i = 0; i < n; i++) p[i] = i;
  if (rank_gaps) { int top = rn(3) ? rn(6) : rn(20); for (int i = 0; i < n; i++) { p[i] = i ? p[i - 1] + 1 : 0; if (rn(3) == 0) p[i] += top ? rn(top) : 0; if (rn(40) == 0) p[i] += 100000; } }
  for (int i = n - 1; i > 0; i--) { int j = rn(i + 1); int t = p[i]; p[i] = p[j]; p[j] = t; }
  for (int i = 0; i < n; i++) {
    char k[20]; snprintf(k, sizeof k, "%d", p[i]);
    E *e = m_add(m, k);
    int z = rn(8);
    e->sub = z == 0 ? NULL : z == 1 ? m_new() : m_random(rn(3), 3);
    if (z > 1 && rn(2)) { E *f = m_add(e->sub, rn(2) ? "RANK" : "LEVEL"); if (!f->sub) { f->sub = m_new(); m_add(f->sub, "5")->sub = m_new(); } }
  }
  m_free(p);
}
static int match_part(const char *d, const char *base) {
  size_t l = strlen(base);
  if (strncmp(d, base, l)) return 0;
  if (!d[l]) return 1;
  if (d[l] != '.') return 0;
  return strspn(d + l, ".0123456789") == strlen(d + l);
}
static void split_path(const char *p, char *dn, char *bn) {
  const char *s = strrchr(p, '/');
  if (s) { snprintf(dn, 3000, "%.*s", (int)(s - p), p); snprintf(bn, 3000, "%s", s + 1); }
  else { strcpy(dn, "."); snprintf(bn, 3000, "%s", p); }
}
static void rm_set(const char *prefix) {
  static char dn[3000], bn[3000], f[6100];
  split_path(prefix, dn, bn);
  DIR *d = opendir(dn);
  if (!d) return;
  struct dirent *e;
  while ((e = readdir(d))) if (match_part(e->d_name, bn)) { snprintf(f, sizeof f, "%s/%s", dn, e->d_name); unlink(f); }
  closedir(d);
}
static char deep[2000];
static void case_set(void) {
  f_act = 0; rand_short = 0; check_locks = check_close = 0; need_lock = 0;
  static const char *names[] = {"set", "rank2file", "a.b", "a+b", "s[e]t", "x*", "p.0.1", "a b", "q$", "^s", "(x", "s.0", "%s%d", "s\\d", "."  "hidden", "r-.0.7.0", "ab", "bset"};
  char pre[3000], pre2[3000];
  int z = rn(20);
  const char *nm = names[rn(sizeof names / sizeof *names)];
  char nb[300];
  if (z < 14) snprintf(pre, sizeof pre, "%s/%s", dir, nm);
  else if (z < 16) snprintf(pre, sizeof pre, "%s", nm);                       /* relative to the working directory */
  else if (z < 18) { int n = 150 + rn(90); for (int i = 0; i < n; i++) nb[i] = 'a' + rn(26); nb[n] = 0; snprintf(pre, sizeof pre, "%s/%s", dir, nb); }
  else snprintf(pre, sizeof pre, "%s/%s", deep, nm);
  int n = rn(5) ? rn(12) : rn(60);
  if (rn(60) == 0) n = 300 + rn(300);
  if (n == 0 && rn(2)) n = 1;
  int per = 1 + rn(rn(2) ? 4 : n + 2);
  int zero = rn(40) == 0;                                      /* a count below one must not hang */
  char eb[20]; snprintf(eb, sizeof eb, "%d", zero ? -rn(3) : per);
  int envset = rn(4) != 0;
  if (envset) setenv("KVTREE_ENTRIES_PER_FILE", eb, 1); else unsetenv("KVTREE_ENTRIES_PER_FILE");
  static char wh[4000]; snprintf(wh, sizeof wh, "file set %.300s..., %d ranks, %s entries per file", pre, n, envset ? eb : "default"); what = wh;
  rank_gaps = rn(3) == 0;
  M *m = m_new(); fill_ranks(m, n);
  rank_gaps = 0;
  rm_set(pre);
  note_tree(m, wh);
  /* another set beside it, under a similar name */
  M *m2 = NULL;
  if (rn(2) && z < 14) {
    static const char *sfx[] = {"2", "x", ".0", "-b"};
    if (rn(2)) snprintf(pre2, sizeof pre2, "%s%s", pre, sfx[rn(4)]); else snprintf(pre2, sizeof pre2, "%s/%c%s", dir, 'a' + rn(26), nm);
    rm_set(pre2);
    m2 = m_new(); fill_ranks(m2, 1 + rn(5));
    kvtree *h2 = k_from(m2);
    CHECK(kvtree_write_to_gather(pre2, h2, m2->n) == KVTREE_SUCCESS, "writing another set fails");
    kvtree_delete(&h2);
  }
  at_start();
  kvtree *h = k_from(m);
  CHECK(kvtree_write_to_gather(pre, h, n) == KVTREE_SUCCESS, "kvtree_write_to_gather fails");
  k_is(h, m, 1, "");
  kvtree *d = kvtree_new();
  int rc = kvtree_read_scatter_single(pre, d);
  CHECK(rc == KVTREE_SUCCESS, "kvtree_read_scatter_single fails on a complete set");
  M *x = filled(m);
  k_is(d, x, 0, "");
  kvtree_delete(&d);
  kvtree_delete(&h);
  at_check();
  m_del(x);
  if (m2) {
    d = kvtree_new();
    CHECK(kvtree_read_scatter_single(pre2, d) == KVTREE_SUCCESS, "the other set %.300s can not be read any more", pre2);
    x = filled(m2); k_is(d, x, 0, ""); m_del(x);
    kvtree_delete(&d);
    rm_set(pre2);
  }
  /* a damaged set */
  static char parts[700][300]; int np = 0;
  static char dn[3000], bn[3000], f[6100];
  split_path(pre, dn, bn);
  DIR *dd = opendir(dn);
  struct dirent *e;
  size_t bl = strlen(bn);
  while ((e = readdir(dd))) if (!strncmp(e->d_name, bn, bl) && (e->d_name[bl] == 0 || (!strncmp(e->d_name + bl, ".0.", 3) && strspn(e->d_name + bl + 3, "0123456789") == strlen(e->d_name + bl + 3)))) if (np < 700) snprintf(parts[np++], 300, "%s", e->d_name);
  closedir(dd);
  int expect = 1 + (n + (envset ? per : 8192) - 1) / (envset ? per : 8192);
  if (np == expect && !(zero && envset)) {
    int v = rn(np);
    snprintf(f, sizeof f, "%s/%s", dn, parts[v]);
    int how = rn(4), ex;
    Buf b = get_file(f, &ex);
    const char *hn[] = {"removed", "cut", "changed", "emptied"};
    snprintf(wh, sizeof wh, "file set %.300s..., %d ranks, %d per file, %.250s %s", pre, n, envset ? per : 8192, parts[v], hn[how]);
    if (how == 0) unlink(f);
    else if (how == 1) put_file(f, b.p, 1 + rnd() % (b.n - 1));
    else if (how == 2) { size_t i = rnd() % b.n; int x = 1 << rn(8); if (i == 19 && x == 1) x = 2; /* clearing the flag itself declares a file without checksum */ b.p[i] ^= x; put_file(f, b.p, b.n); }
    else put_file(f, "", 0);
    d = kvtree_new();
    CHECK(kvtree_read_scatter_single(pre, d) != KVTREE_SUCCESS, "kvtree_read_scatter_single reports success");
    kvtree_delete(&d);
    m_free(b.p);
  }
  rm_set(pre);
  m_del(m); m_del(m2);
  unsetenv("KVTREE_ENTRIES_PER_FILE");
}

/* around the default number of entries per file (8192), once per some runs */
static void case_bigset(void) {
  int n = 8190 + rn(5);
  static char wh[100]; snprintf(wh, sizeof wh, "file set of %d ranks, default entries per file", n); what = wh;
  char pre[600]; snprintf(pre, sizeof pre, "%s/big", dir);
  unsetenv("KVTREE_ENTRIES_PER_FILE");
  kvtree *h = kvtree_new();
  for (int i = 0; i < n; i++) {
    char k[20]; snprintf(k, sizeof k, "%d", i);
    kvtree *v = kvtree_new(); kvtree_set(v, k, kvtree_new());
    kvtree_set(h, k, v);
  }
  CHECK(kvtree_write_to_gather(pre, h, n) == KVTREE_SUCCESS, "kvtree_write_to_gather fails");
  kvtree *d = kvtree_new();
  CHECK(kvtree_read_scatter_single(pre, d) == KVTREE_SUCCESS, "kvtree_read_scatter_single fails on a complete set");
  static char seen[9000]; memset(seen, 0, sizeof seen);
  int c = 0;
  for (kvtree_elem *e = kvtree_elem_first(d); e; e = kvtree_elem_next(e), c++) {
    int r = kvtree_elem_key_int(e);
    CHECK(r >= 0 && r < n && !seen[r], "rank %d read back wrongly or twice", r);
    seen[r] = 1;
    kvtree *s = kvtree_elem_hash(e);
    char k[20]; snprintf(k, sizeof k, "%d", r);
    CHECK(s && kvtree_size(s) == 1 && kvtree_get(s, k), "rank %d has lost its entry", r);
  }
  CHECK(c == n, "%d of %d ranks read back", c, n);
  kvtree_delete(&d); kvtree_delete(&h);
  rm_set(pre);
}
int main(int argc, char **argv) {
  if (argc < 5) return 2;
  const char *prop = argv[1];
  rs = strtoull(argv[2], NULL, 10) * 1000003 + atoi(prop + 1);
  int n = atoi(argv[3]);
  snprintf(dir, sizeof dir, "%s", argv[4]);
  if (chdir(dir)) { perror(dir); return 2; }
  quiet_stderr();
  int P = atoi(prop + 1);
  if (P == 20) {
    char c[200]; memset(c, 'd', 180); c[180] = 0;
    snprintf(deep, sizeof deep, "%s", dir);
    for (int i = 0; i < 6; i++) { strcat(deep, "/"); strcat(deep, c); mkdir(deep, 0700); }
  }
  if (P == 20 && strtoull(argv[2], NULL, 10) % 16 == 1) case_bigset();
  for (int i = 0; i < n; i++) {
    case_seed = rs; key_style = 0; missing_ok = 1;
    switch (P) {
    case 12: check_locks = check_close = 0; case_round(); break;
    case 13: check_locks = check_close = 0; case_corrupt(); break;
    case 14: case_transfer(); break;
    case 15: if (rn(4)) faults(0); else faults_set(); break;
    case 16: faults(1); if (i % 200 == 0) concurrent(4, 40); break;
    case 20: case_set(); break;
    default: return 2;
    }
  }
  return report_ok(prop);
}
