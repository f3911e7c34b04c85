/* Messages, exchange, gathered file sets (C17-C19): every rank is a thread of this process, scheduled one
 * at a time by the stand-in MPI.    usage: h_mpi <Cxx> <seed> <cases> <scratch-dir> */
#include "h.h"
#include "fakempi/fakempi.h"
#include "shadow.h"
#include "kvtree_mpi.h"
#include <dirent.h>

static char dir[600];
unsigned long kv_segsize = 1024 * 1024;
static M *filled(const M *m) { M *r = m_new(); m_merge(r, m); return r; }
static M *rtree(void) {
  int z = rn(30);
  if (z == 0) { M *m = m_new(); int n = 200 + rn(400); for (int i = 0; i < n; i++) { char k[40]; snprintf(k, sizeof k, "key-%d-%d", i, rn(1000)); E *e = m_add(m, k); if (!e->sub) e->sub = m_new(); } return m; }
  if (z < 4) return m_new();
  return m_random(rn(4), 4);
}
static char wh[900];

/* ------------------------------------------------------------------ C17 */
#define MAXT 40
static struct { int kind, a, b, root; int perm[MAXP], inv[MAXP]; } step_[MAXT];
static int nstep;
static M *tree_[MAXT][MAXP];
static void dirty_stack(void) { volatile char b[4000]; for (int i = 0; i < 4000; i++) b[i] = (char)(0x11 + i % 3); }
static void after_recv(kvtree *d, const M *sent, const char *op) { M *x = filled(sent); what = op; k_is(d, x, 0, ""); m_del(x); }
static void job_p2p(int me) {
  for (int s = 0; s < nstep; s++) {
    M *mine = tree_[s][me];
    kvtree *h = mine ? k_from(mine) : NULL;
    M *dm = rn(2) ? m_new() : m_random(2, 3);
    kvtree *d = k_from(dm);
    switch (step_[s].kind) {
    case 0:
      if (me == step_[s].a) { CHECK(kvtree_send(h, step_[s].b, MPI_COMM_WORLD) == KVTREE_SUCCESS, "kvtree_send fails"); k_is(d, dm, 1, ""); }
      else if (me == step_[s].b) { dirty_stack(); CHECK(kvtree_recv(d, step_[s].a, MPI_COMM_WORLD) == KVTREE_SUCCESS, "kvtree_recv fails"); after_recv(d, tree_[s][step_[s].a], "kvtree_send/kvtree_recv"); }
      else if (me % 3 == 0) {
        dirty_stack();
        CHECK(kvtree_send(h, MPI_PROC_NULL, MPI_COMM_WORLD) == KVTREE_SUCCESS, "kvtree_send to nobody fails");
        dirty_stack();
        what = "kvtree_recv from nobody";
        at_limit = 100000000;
        kvtree_recv(d, MPI_PROC_NULL, MPI_COMM_WORLD);
        at_limit = (size_t)-1;
        if (kvtree_size(d)) k_is(d, dm, 1, "");
      }
      break;
    case 1: {
      int to = step_[s].perm[me], from = step_[s].inv[me];
      dirty_stack();
      CHECK(kvtree_sendrecv(h, to, d, from, MPI_COMM_WORLD) == KVTREE_SUCCESS, "kvtree_sendrecv fails");
      if (from != MPI_PROC_NULL) after_recv(d, tree_[s][from], "kvtree_sendrecv");
      else { what = "kvtree_sendrecv without a partner to receive from"; k_is(d, dm, 1, ""); }
      break; }
    case 2: {
      kvtree *x = me == step_[s].root ? h : d;
      if (!x) { x = d; kvtree_unset_all(d); }
      CHECK(kvtree_bcast(x, step_[s].root, MPI_COMM_WORLD) == KVTREE_SUCCESS, "kvtree_bcast fails");
      if (me != step_[s].root) after_recv(d, tree_[s][step_[s].root], "kvtree_bcast");
      break; }
    }
    what = "the sent tree";
    if (mine) k_is(h, mine, 1, "");
    kvtree_delete(&h); kvtree_delete(&d);
    m_del(dm);
  }
}
static void case_p2p(void) {
  int np = 1 + rn(rn(4) ? 5 : 12);
  sync_sends = rn(2);
  nstep = 1 + rn(6);
  for (int s = 0; s < nstep; s++) {
    for (int i = 0; i < np; i++) tree_[s][i] = rn(20) ? rtree() : NULL;
    int k = step_[s].kind = np == 1 ? 1 + rn(2) : rn(3);
    step_[s].root = rn(np);
    if (k == 0) { step_[s].a = rn(np); do step_[s].b = rn(np); while (step_[s].b == step_[s].a); }
    if (k == 1) {
      for (int i = 0; i < np; i++) step_[s].perm[i] = i;
      for (int i = np - 1; i > 0; i--) { int j = rn(i + 1), t = step_[s].perm[i]; step_[s].perm[i] = step_[s].perm[j]; step_[s].perm[j] = t; }
      for (int i = 0; i < np; i++) step_[s].inv[i] = MPI_PROC_NULL;
      for (int i = 0; i < np; i++) { if (rn(4) == 0) step_[s].perm[i] = MPI_PROC_NULL; else step_[s].inv[step_[s].perm[i]] = i; }
    }
    if (k == 2 && !tree_[s][step_[s].root]) tree_[s][step_[s].root] = m_new();
  }
  snprintf(wh, sizeof wh, "%d ranks, %d steps, first kind %d, %s sends", np, nstep, step_[0].kind, sync_sends ? "synchronous" : "buffered"); what = wh;
  for (int s = 0; s < nstep; s++) for (int i = 0; i < np; i++) note_tree(tree_[s][i], wh);
  at_start();
  run_ranks(np, job_p2p);
  what = wh;
  at_check();
  for (int s = 0; s < nstep; s++) for (int i = 0; i < np; i++) m_del(tree_[s][i]);
}

/* ------------------------------------------------------------------ C22: transfers of missing trees */
static int nl_root; static M *nl_m[MAXP];
static void job_null(int me) {
  int np; MPI_Comm_size(MPI_COMM_WORLD, &np);
  kvtree *h = k_from(nl_m[me]);
  M *em = m_new();
  CHECK(kvtree_exchange_sendq(NULL, rn(3), h) != KVTREE_SUCCESS && kvtree_exchange_sendq(NULL, 0, NULL) != KVTREE_SUCCESS, "kvtree_exchange_sendq into nothing reports success");
  kvtree *q = kvtree_new();
  CHECK(kvtree_exchange_sendq(q, 3, NULL) == KVTREE_SUCCESS, "kvtree_exchange_sendq of nothing");
  M *qm = m_new(); m_add(qm, "3")->sub = m_new(); k_is(q, qm, 0, "queued nothing"); m_del(qm); kvtree_delete(&q);
  CHECK(kvtree_recv(NULL, (me + 1) % np, MPI_COMM_WORLD) != KVTREE_SUCCESS, "kvtree_recv into nothing reports success");
  CHECK(kvtree_send(NULL, MPI_PROC_NULL, MPI_COMM_WORLD) == KVTREE_SUCCESS, "kvtree_send to nobody");
  /* a missing tree travels as an empty one; a message nobody wants is taken off the network */
  kvtree *d = kvtree_new(); kvtree_set(d, "old", kvtree_new());
  CHECK(kvtree_sendrecv(NULL, (me + 1) % np, d, (me + np - 1) % np, MPI_COMM_WORLD) == KVTREE_SUCCESS, "kvtree_sendrecv of nothing");
  k_is(d, em, 0, "received for nothing sent");
  CHECK(kvtree_sendrecv(h, (me + 1) % np, NULL, (me + np - 1) % np, MPI_COMM_WORLD) == KVTREE_SUCCESS, "kvtree_sendrecv into nothing");
  kvtree_set(d, "old", kvtree_new());
  CHECK(kvtree_bcast(me == nl_root ? NULL : d, nl_root, MPI_COMM_WORLD) == KVTREE_SUCCESS, "kvtree_bcast of nothing");
  if (me != nl_root) k_is(d, em, 0, "broadcast of nothing");
  CHECK(kvtree_bcast(me == nl_root ? h : NULL, nl_root, MPI_COMM_WORLD) == KVTREE_SUCCESS, "kvtree_bcast into nothing");
  kvtree_unset_all(d);
  kvtree_exchange(NULL, d, MPI_COMM_WORLD); k_is(d, em, 0, "exchange of nothing");
  kvtree_exchange_direction(NULL, d, MPI_COMM_WORLD, KVTREE_EXCHANGE_LEFT); k_is(d, em, 0, "exchange of nothing");
  if (nl_m[me]) k_is(h, nl_m[me], 0, "the tree of the caller");
  kvtree_delete(&d); kvtree_delete(&h); m_del(em);
}
static void case_nullmpi(void) {
  int np = 2 + rn(5);
  nl_root = rn(np); sync_sends = rn(2);
  for (int i = 0; i < np; i++) nl_m[i] = rn(6) ? m_random(rn(3), 3) : NULL;
  snprintf(wh, sizeof wh, "missing trees, %d ranks, root %d", np, nl_root); what = wh;
  for (int i = 0; i < np; i++) note_tree(nl_m[i], wh);
  at_start();
  run_ranks(np, job_null);
  what = wh;
  at_check();
  for (int i = 0; i < np; i++) m_del(nl_m[i]);
}

/* ------------------------------------------------------------------ C18 */
static M *msg_[MAXP][MAXP]; static unsigned char has_[MAXP][MAXP];
static int ex_mode, ex_n, ex_q;
static void job_exchange(int me) {
  M *sm = m_new();
  kvtree *send = kvtree_new(), *recv = kvtree_new();
  int order[MAXP];
  for (int i = 0; i < ex_n; i++) order[i] = i;
  for (int i = ex_n - 1; i > 0; i--) { int j = rn(i + 1), t = order[i]; order[i] = order[j]; order[j] = t; }
  for (int k = 0; k < ex_n; k++) {
    int d = order[k];
    if (!has_[me][d]) continue;
    char b[20]; snprintf(b, sizeof b, "%d", d);
    if (ex_q && msg_[me][d]) {
      /* through the queue function, in two halves */
      M *h1 = m_new(), *h2 = m_new();
      for (int i = 0; i < msg_[me][d]->n; i++) { M *q = msg_[me][d]->e[i].sub; int both = rn(3) == 0;      /* the halves may share a key: part of its tree in each */
        E *e = m_add(i % 2 ? h1 : h2, msg_[me][d]->e[i].key); e->sub = q ? m_new() : NULL;
        E *f = NULL; if (both) { f = m_add(i % 2 ? h2 : h1, msg_[me][d]->e[i].key); f->sub = q ? m_new() : NULL; }
        for (int j = 0; q && j < q->n; j++) { E *g = m_add(both && rn(2) ? f->sub : e->sub, q->e[j].key); g->sub = q->e[j].sub ? m_copy(q->e[j].sub) : NULL; } }
      kvtree *a = k_from(h1), *c = k_from(h2);
      CHECK(kvtree_exchange_sendq(send, d, a) == KVTREE_SUCCESS && kvtree_exchange_sendq(send, d, c) == KVTREE_SUCCESS, "kvtree_exchange_sendq fails");
      k_is(a, h1, 1, ""); k_is(c, h2, 1, "");
      kvtree_delete(&a); kvtree_delete(&c);
      m_del(h1); m_del(h2);
    } else { kvtree_set(send, b, msg_[me][d] ? k_from(msg_[me][d]) : NULL); }
  }
  m_del(sm); sm = m_of(send);
  int rc = ex_mode == 0 ? kvtree_exchange(send, recv, MPI_COMM_WORLD) : kvtree_exchange_direction(send, recv, MPI_COMM_WORLD, ex_mode == 1 ? KVTREE_EXCHANGE_LEFT : KVTREE_EXCHANGE_RIGHT);
  CHECK(rc == KVTREE_SUCCESS, "the exchange fails");
  k_is(send, sm, 1, "");
  M *x = m_new();
  for (int s = 0; s < ex_n; s++) if (has_[s][me]) { char b[20]; snprintf(b, sizeof b, "%d", s); E *e = m_add(x, b); e->sub = filled(msg_[s][me]); }
  k_is(recv, x, 0, "received");
  m_del(x); m_del(sm);
  kvtree_delete(&send); kvtree_delete(&recv);
}
static const char *EM[] = {"kvtree_exchange", "kvtree_exchange_direction LEFT", "kvtree_exchange_direction RIGHT"};
static void run_exchange(void) {
  char pat[200]; int o = 0; pat[0] = 0;
  for (int i = 0; i < ex_n; i++) for (int d = 0; d < ex_n; d++) if (has_[i][d] && o < 170) o += snprintf(pat + o, sizeof pat - o, " %d>%d", i, d);
  snprintf(wh, sizeof wh, "%s, %d ranks, messages%s", EM[ex_mode], ex_n, pat); what = wh;
  uint64_t hh = s_hash(wh); for (int i = 0; i < ex_n; i++) for (int d = 0; d < ex_n; d++) hh = hh * 31 + (has_[i][d] ? m_hash(msg_[i][d]) : 3);
  note(hh, o > 0); if (o > 0) sample("%s", wh);
  at_start();
  run_ranks(ex_n, job_exchange);
  at_check();
}
static void case_exchange(void) {
  ex_n = 1 + rn(rn(3) ? 9 : 20);
  if (rn(40) == 0) ex_n = 31 + rn(4);
  ex_mode = rn(3); ex_q = rn(2); sync_sends = rn(2);
  int dens = rn(5) == 0 ? 100 : rn(4) == 0 ? 200 / ex_n + 1 : rn(100), pattern = rn(8), off = rn(ex_n);
  for (int i = 0; i < ex_n; i++) for (int d = 0; d < ex_n; d++) {
    has_[i][d] = pattern == 0 ? d == (i + off) % ex_n : pattern == 1 ? (i == off || d == off) && rn(2) : rn(100) < dens;
    msg_[i][d] = !has_[i][d] ? NULL : rn(8) == 0 ? NULL : m_random(rn(3), 3);
    if (msg_[i][d] && rn(3) == 0) { E *e = m_add(msg_[i][d], rn(2) ? "D" : "S"); if (!e->sub) e->sub = m_new(); char b[9]; snprintf(b, 9, "%d", rn(ex_n)); if (!m_add(e->sub, b)->sub) m_add(e->sub, b)->sub = m_new(); }
  }
  run_exchange();
  for (int i = 0; i < ex_n; i++) for (int d = 0; d < ex_n; d++) { m_del(msg_[i][d]); msg_[i][d] = NULL; }
}
/* every pattern of up to three ranks, every single message of up to 12 */
static long exhaustive_exchange(void) {
  long n = 0;
  sync_sends = 1; ex_q = 0;
  for (ex_n = 1; ex_n <= 3; ex_n++) for (long p = 0; p < 1L << (ex_n * ex_n); p++) for (ex_mode = 0; ex_mode < 3; ex_mode++) {
    if (ex_n == 3 && ex_mode != p % 3) continue;
    for (int i = 0; i < ex_n; i++) for (int d = 0; d < ex_n; d++) {
      has_[i][d] = p >> (i * ex_n + d) & 1;
      msg_[i][d] = NULL;
      if (has_[i][d]) { char b[30]; snprintf(b, sizeof b, "from-%d-to-%d", i, d); msg_[i][d] = m_new(); m_add(msg_[i][d], b)->sub = m_new(); }
    }
    run_exchange(); n++;
    for (int i = 0; i < ex_n; i++) for (int d = 0; d < ex_n; d++) m_del(msg_[i][d]);
  }
  for (ex_n = 4; ex_n <= 12; ex_n++) for (int a = 0; a < ex_n; a++) for (ex_mode = 0; ex_mode < 3; ex_mode++) {
    /* every rank sends over the distance a */
    memset(has_, 0, sizeof has_);
    for (int i = 0; i < ex_n; i++) { int d = (i + a) % ex_n; has_[i][d] = 1; char b[30]; snprintf(b, sizeof b, "from-%d-to-%d", i, d); msg_[i][d] = m_new(); m_add(msg_[i][d], b)->sub = m_new(); }
    run_exchange(); n++;
    for (int i = 0; i < ex_n; i++) { int d = (i + a) % ex_n; m_del(msg_[i][d]); }
    /* a single message */
    memset(has_, 0, sizeof has_);
    int s = rn(ex_n), d = (s + a) % ex_n;
    has_[s][d] = 1; msg_[s][d] = m_new(); m_add(msg_[s][d], "single")->sub = m_new();
    run_exchange(); n++;
    m_del(msg_[s][d]);
  }
  memset(msg_, 0, sizeof msg_);
  return n;
}

/* ------------------------------------------------------------------ C19 */
static char prefix[3000], deep[2000];
static M *data_[MAXP]; static int rcs[MAXP]; static M *got_[MAXP];
static void job_write(int me) {
  kvtree *h = k_from(data_[me]);
  rcs[me] = kvtree_write_gather(prefix, h, MPI_COMM_WORLD);
  k_is(h, data_[me], 1, "");
  kvtree_delete(&h);
}
static void job_read(int me) {
  kvtree *d = kvtree_new();
  rcs[me] = kvtree_read_scatter(prefix, d, MPI_COMM_WORLD);
  got_[me] = m_of(d);
  kvtree_delete(&d);
}
static int all_same(int np, const char *op) {
  int ok = rcs[0] == KVTREE_SUCCESS;
  for (int i = 1; i < np; i++) CHECK((rcs[i] == KVTREE_SUCCESS) == ok, "%s succeeds on one rank and fails on another", op);
  return ok;
}
static void cmp_model(const M *a, const M *b, int rank) {
  CHECK(a->n == b->n, "rank %d gets %d keys back instead of %d", rank, a->n, b->n);
  for (int i = 0; i < b->n; i++) {
    int k = m_find(a, b->e[i].key);
    CHECK(k >= 0, "rank %d does not get key %.100s back", rank, b->e[i].key);
    M none = {0, NULL};
    cmp_model(a->e[k].sub ? a->e[k].sub : &none, b->e[i].sub ? b->e[i].sub : &none, rank);
  }
}
static void split_path(const char *p, char *dn, char *bn) {
  const char *s = strrchr(p, '/');
  if (s) { snprintf(dn, 3000, "%.*s", (int)(s - p), p); snprintf(bn, 3000, "%s", s + 1); }
  else { strcpy(dn, "."); snprintf(bn, 3000, "%s", p); }
}
static char parts[300][300]; static int nparts;
static char dn[3000], bn[3000], ff[6100];
static void list_set(int del) {
  split_path(prefix, dn, bn);
  nparts = 0;
  DIR *d = opendir(dn);
  if (!d) return;
  struct dirent *e; size_t l = strlen(bn);
  while ((e = readdir(d))) if (!strncmp(e->d_name, bn, l) && strspn(e->d_name + l, ".0123456789") == strlen(e->d_name + l)) {
    if (nparts < 300) snprintf(parts[nparts++], 300, "%s", e->d_name);
    if (del) { snprintf(ff, sizeof ff, "%s/%s", dn, e->d_name); unlink(ff); }
  }
  closedir(d);
}
static void scratch_names(void) {
  static const char *names[] = {"set", "a.b", "p.0.1", "x*", "s[1]", "%s%d", ".hidden", "r 1"};
  const char *nm = names[rn(8)];
  int z = rn(12);
  if (z < 8) snprintf(prefix, sizeof prefix, "%s/%s", dir, nm);
  else if (z < 10) snprintf(prefix, sizeof prefix, "%s", nm);
  else snprintf(prefix, sizeof prefix, "%s/%s", deep, nm);
}
static M *rdata(int big) {
  if (!big) return rn(5) ? m_random(rn(4), 4) : m_new();
  M *m = m_new();
  int n = 100 + rn(600);      /* up to about 2 MB */
  static char k[3100];
  for (int i = 0; i < n; i++) { int l = 1000 + rn(2000); memset(k, 'a' + rn(26), l); snprintf(k + l, 20, "%d", i); m_add(m, k)->sub = m_new(); }
  return m;
}
static void case_gather(void) {
  check_locks = 0; check_close = 1; need_lock = 0; f_act = 0; rand_short = rn(4) ? 0 : 20;
  int np = 1 + rn(rn(4) ? 6 : 12);
  sync_sends = rn(2);
  int seg = rn(4);
  kv_segsize = seg == 0 ? 1024 * 1024 : seg == 1 ? 400 + rn(600) : 220 + rn(200);
  if (seg > 1 && rn(2)) np += rn(20);
  int big = seg == 0 && rn(2);
  if (big) np = 1 + rn(5);
  for (int i = 0; i < np; i++) { data_[i] = rdata(big && rn(3)); }
  scratch_names();
  list_set(1);
  snprintf(wh, sizeof wh, "%d ranks, segment %lu%s, set %.300s", np, kv_segsize, big ? ", large trees" : "", prefix); what = wh;
  { uint64_t hh = s_hash(wh); for (int i = 0; i < np; i++) hh = hh * 31 + m_hash(data_[i]); note(hh, 1); sample("%.300s", wh); }
  at_start(); lib_start();
  run_ranks(np, job_write);
  lib_stop();
  CHECK(all_same(np, "kvtree_write_gather"), "kvtree_write_gather fails on a healthy system");
  all_closed("kvtree_write_gather");
  list_set(0);
  snprintf(wh, sizeof wh, "reading back: %d ranks, segment %lu%s, %d files, set %.300s", np, kv_segsize, big ? ", large trees" : "", nparts, prefix); what = wh;
  lib_start();
  run_ranks(np, job_read);
  lib_stop();
  CHECK(all_same(np, "kvtree_read_scatter"), "kvtree_read_scatter fails on a complete set");
  all_closed("kvtree_read_scatter");
  at_check();
  for (int i = 0; i < np; i++) { M *x = filled(data_[i]); cmp_model(got_[i], x, i); m_del(x); m_del(got_[i]); got_[i] = NULL; }
  /* another number of ranks */
  int np2; do np2 = 1 + rn(np + 4); while (np2 == np);
  snprintf(wh, sizeof wh, "a set of %d ranks read by %d, segment %lu, %d files", np, np2, kv_segsize, nparts); what = wh;
  lib_start(); run_ranks(np2, job_read); lib_stop();
  all_closed("kvtree_read_scatter");
  CHECK(!all_same(np2, "kvtree_read_scatter"), "kvtree_read_scatter reports success");
  for (int i = 0; i < np2; i++) { m_del(got_[i]); got_[i] = NULL; }
  /* a missing or damaged file */
  if (nparts > 0) {
    int v = rn(nparts), how = rn(4), fd; static const char *hn[] = {"removed", "cut", "changed", "emptied"};
    snprintf(ff, sizeof ff, "%s/%s", dn, parts[v]);
    snprintf(wh, sizeof wh, "a set of %d ranks, %d files, %.250s %s", np, nparts, parts[v], hn[how]); what = wh;
    struct stat st; stat(ff, &st);
    if (how == 0) unlink(ff);
    else if (how == 1) { if (truncate(ff, 1 + rnd() % (st.st_size - 1))) exit(2); }
    else if (how == 3) { if (truncate(ff, 0)) exit(2); }
    else { fd = __real_open(ff, O_RDWR); unsigned char c; off_t o = rnd() % st.st_size; __real_pread(fd, &c, 1, o); { int x = 1 << rn(8); if (o == 19 && x == 1) x = 2; /* clearing the flag itself declares a file without checksum */ c ^= x; } __real_pwrite(fd, &c, 1, o); __real_close(fd); }
    at_start(); lib_start(); run_ranks(np, job_read); lib_stop();
    all_closed("kvtree_read_scatter");
    at_check();
    CHECK(!all_same(np, "kvtree_read_scatter"), "kvtree_read_scatter reports success");
    for (int i = 0; i < np; i++) { m_del(got_[i]); got_[i] = NULL; }
  }
  /* an injected failure while writing, then while reading */
  for (int rd = 0; rd < 2; rd++) {
    list_set(1);
    if (rd) { f_act = 0; run_ranks(np, job_write); CHECK(all_same(np, "kvtree_write_gather"), "fails"); }
    f_at = rn(rd ? 4 + 3 * np : 6 + np); f_act = rn(2) ? A_ERR : A_ERRALL; rand_short = 0;
    snprintf(wh, sizeof wh, "%s, %d ranks, segment %lu, call %ld: %s", rd ? "kvtree_read_scatter" : "kvtree_write_gather", np, kv_segsize, f_at, AN[f_act]); what = wh;
    lib_start(); run_ranks(np, rd ? job_read : job_write); lib_stop();
    int fk = f_kind, nclose = close_failed; f_act = 0;
    snprintf(wh, sizeof wh, "%s, %d ranks, segment %lu, call %ld (%s) failing", rd ? "kvtree_read_scatter" : "kvtree_write_gather", np, kv_segsize, f_at, fk >= 0 ? KN[fk] : "none"); what = wh;
    all_closed(rd ? "kvtree_read_scatter" : "kvtree_write_gather");
    int ok = all_same(np, rd ? "kvtree_read_scatter" : "kvtree_write_gather");
    CHECK(!(ok && nclose), "reports success although closing a file failed");
    if (ok && !rd) { run_ranks(np, job_read); CHECK(all_same(np, "kvtree_read_scatter"), "the set can not be read although writing reported success"); }
    if (ok) for (int i = 0; i < np; i++) { M *x = filled(data_[i]); cmp_model(got_[i], x, i); m_del(x); }
    for (int i = 0; i < np; i++) { m_del(got_[i]); got_[i] = NULL; }
  }
  list_set(1);
  for (int i = 0; i < np; i++) m_del(data_[i]);
}

int main(int argc, char **argv) {
  if (argc < 5) return 2;
  const char *prop = argv[1];
  rs = strtoull(argv[2], NULL, 10) * 1000003 + atoi(prop + 1);
  int n = atoi(argv[3]);
  snprintf(dir, sizeof dir, "%s", argv[4]);
  if (chdir(dir)) { perror(dir); return 2; }
  quiet_stderr();
  char c[200]; memset(c, 'd', 180); c[180] = 0;
  snprintf(deep, sizeof deep, "%s", dir);
  for (int i = 0; i < 6; i++) { strcat(deep, "/"); strcat(deep, c); mkdir(deep, 0700); }
  int P = atoi(prop + 1);
  long extra = 0;
  if (P == 18 && strcmp(argv[2], "0") && atoi(argv[2]) % 8 == 1) extra = exhaustive_exchange();
  for (int i = 0; i < n; i++) {
    case_seed = rs; key_style = 0; missing_ok = 1;
    switch (P) {
    case 22: case_nullmpi(); break;
    case 17: case_p2p(); break;
    case 18: case_exchange(); break;
    case 19: case_gather(); break;
    default: return 2;
    }
  }
  (void)extra;
  return report_ok(prop);
}
