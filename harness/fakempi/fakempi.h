/* implementation of the stand-in; included once, after h.h */
#include "mpi.h"
#include <pthread.h>
#include <semaphore.h>
#define MAXP 80
static int np_; static int sync_sends;              /* standard sends complete only when matched */
static __thread int me_ = -1;
typedef int (*Pred)(void *);
typedef struct { pthread_t t; sem_t go; int done; Pred pred; void *arg; const char *op; long seq; } Rank;
static Rank R_[MAXP];
static sem_t main_go;
typedef struct { int src, dst, tag, ctx, matched, eager; const void *buf; size_t n; void *copy; } Msg;
typedef struct { int used, recv, done; void *buf; size_t cap; int peer, tag, ctx; long msg; MPI_Status st; int owner; } Req;
static Msg *msgs; static long nmsg, cmsg;
static Req *reqs; static long nreq, creq;
static int rm_(void) { return me_; }

static int ready(int r) { return !R_[r].done && (!R_[r].pred || R_[r].pred(R_[r].arg)); }
static void pick_next(void) {
  int c[MAXP], n = 0, left = 0;
  for (int i = 0; i < np_; i++) { if (!R_[i].done) left++; if (ready(i)) c[n++] = i; }
  if (!left) { sem_post(&main_go); return; }
  if (!n) {
    char b[1200]; int o = 0; b[0] = 0;
    for (int i = 0; i < np_ && o < 1000; i++) if (!R_[i].done) o += snprintf(b + o, sizeof b - o, " rank %d in %s;", i, R_[i].op);
    FAILED("the operation never completes:%s", b);
  }
  sem_post(&R_[c[rn(n)]].go);
}
static void block(Pred p, void *a, const char *op) {
  R_[me_].pred = p; R_[me_].arg = a; R_[me_].op = op;
  if (p && p(a) && rn(3)) { R_[me_].pred = NULL; return; }
  pick_next();
  sem_wait(&R_[me_].go);
  harness_rank = me_;
  R_[me_].pred = NULL;
}
static void yield_(void) { block(NULL, NULL, "running"); }
static size_t tsize(MPI_Datatype t) {
  switch (t) {
  case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_PACKED: case MPI_INT8_T: case MPI_UINT8_T: case MPI_C_BOOL: return 1;
  case MPI_SHORT: case MPI_UNSIGNED_SHORT: case MPI_INT16_T: case MPI_UINT16_T: return 2;
  case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: case MPI_INT32_T: case MPI_UINT32_T: return 4;
  case MPI_LONG: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_DOUBLE: case MPI_INT64_T: case MPI_UINT64_T: case MPI_AINT: case MPI_2INT: return 8;
  }
  FAILED("unknown MPI datatype %d", t);
  return 0;
}
static void peer_ok(int p, int any) { CHECK((p >= 0 && p < np_) || p == MPI_PROC_NULL || (any && p == MPI_ANY_SOURCE), "communication with rank %d of %d", p, np_); }
static long new_req(void) {
  if (nreq == creq) { creq = creq * 2 + 64; reqs = m_realloc(reqs, creq * sizeof *reqs); }
  memset(&reqs[nreq], 0, sizeof *reqs);
  reqs[nreq].used = 1; reqs[nreq].owner = me_; reqs[nreq].msg = -1;
  return nreq++;
}
static void progress(void) {             /* match receives, in order of posting, with messages in order of sending */
  for (long i = 0; i < nreq; i++) {
    Req *q = &reqs[i];
    if (!q->used || !q->recv || q->done) continue;
    for (long k = 0; k < nmsg; k++) {
      Msg *m = &msgs[k];
      if (m->matched || m->dst != q->owner || m->ctx != q->ctx || (q->peer != MPI_ANY_SOURCE && m->src != q->peer) || (q->tag != MPI_ANY_TAG && m->tag != q->tag)) continue;
      CHECK(m->n <= q->cap, "rank %d receives a message of %zu bytes into %zu bytes", q->owner, m->n, q->cap);
      if (m->n) memcpy(q->buf, m->copy ? m->copy : m->buf, m->n);
      m_free(m->copy); m->copy = NULL;
      m->matched = 1; q->done = 1;
      q->st.MPI_SOURCE = m->src; q->st.MPI_TAG = m->tag; q->st.bytes = m->n; q->st.MPI_ERROR = 0;
      break;
    }
  }
}
static long post_send(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, int sync) {
  CHECK(n >= 0, "negative count");
  CHECK(c == MPI_COMM_WORLD || c >= 10, "unexpected communicator");
  peer_ok(dst, 0);
  long r = new_req();
  if (dst == MPI_PROC_NULL) { reqs[r].done = 1; return r; }
  if (nmsg == cmsg) { cmsg = cmsg * 2 + 64; msgs = m_realloc(msgs, cmsg * sizeof *msgs); }
  Msg *m = &msgs[nmsg++];
  memset(m, 0, sizeof *m);
  m->src = me_; m->dst = dst; m->tag = tag; m->ctx = c; m->n = n * tsize(t); m->buf = b;
  if (!sync) { m->copy = m_alloc(m->n + 1); memcpy(m->copy, b, m->n); reqs[r].done = 1; }
  reqs[r].msg = nmsg - 1;
  progress();
  return r;
}
static long post_recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c) {
  CHECK(n >= 0, "negative count");
  CHECK(c == MPI_COMM_WORLD || c >= 10, "unexpected communicator");
  peer_ok(src, 1);
  long r = new_req();
  Req *q = &reqs[r];
  q->recv = 1; q->buf = b; q->cap = n * tsize(t); q->peer = src; q->tag = tag; q->ctx = c;
  if (src == MPI_PROC_NULL) { q->done = 1; q->st.MPI_SOURCE = MPI_PROC_NULL; q->st.MPI_TAG = MPI_ANY_TAG; q->st.bytes = 0; }
  progress();
  return r;
}
static int req_done(void *a) { long r = *(long *)a; return reqs[r].done || (!reqs[r].recv && reqs[r].msg >= 0 && msgs[reqs[r].msg].matched); }
static void finish(long r, MPI_Status *s, const char *op) {
  block(req_done, &r, op);
  if (s && reqs[r].recv) *s = reqs[r].st;
  reqs[r].used = 0;
}
static void world_reset(void) {
  for (long k = 0; k < nmsg; k++) { CHECK(msgs[k].matched, "a message from rank %d to rank %d is never received", msgs[k].src, msgs[k].dst); m_free(msgs[k].copy); }
  for (long i = 0; i < nreq; i++) CHECK(!reqs[i].used, "rank %d leaves a request open", reqs[i].owner);
  nmsg = nreq = 0;
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { finish(post_send(b, n, t, d, tag, c, sync_sends), NULL, "MPI_Send"); return 0; }
int MPI_Rsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return MPI_Send(b, n, t, d, tag, c); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { finish(post_send(b, n, t, d, tag, c, 1), NULL, "MPI_Ssend"); return 0; }
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st) { finish(post_recv(b, n, t, s, tag, c), st, "MPI_Recv"); return 0; }
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { *r = (int)post_send(b, n, t, d, tag, c, 1); yield_(); return 0; }
int MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { return MPI_Isend(b, n, t, d, tag, c, r); }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r) { *r = (int)post_recv(b, n, t, s, tag, c); yield_(); return 0; }
int MPI_Wait(MPI_Request *r, MPI_Status *s) {
  if (*r == MPI_REQUEST_NULL) return 0;
  CHECK(*r >= 0 && *r < nreq && reqs[*r].used && reqs[*r].owner == me_, "wait on an invalid request");
  finish(*r, s, "MPI_Wait"); *r = MPI_REQUEST_NULL; return 0;
}
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *s) { for (int i = 0; i < n; i++) MPI_Wait(&r[i], s ? &s[i] : NULL); return 0; }
int MPI_Test(MPI_Request *r, int *f, MPI_Status *s) { yield_(); long q = *r; *f = q < 0 || req_done(&q); if (*f) MPI_Wait(r, s); return 0; }
int MPI_Testall(int n, MPI_Request *r, int *f, MPI_Status *s) { yield_(); *f = 1; for (int i = 0; i < n; i++) { long q = r[i]; if (q >= 0 && !req_done(&q)) *f = 0; } if (*f) MPI_Waitall(n, r, s); return 0; }
struct any { int n; MPI_Request *r; };
static int any_done(void *a) { struct any *x = a; int live = 0; for (int i = 0; i < x->n; i++) if (x->r[i] >= 0) { long q = x->r[i]; live = 1; if (req_done(&q)) return 1; } return !live; }
int MPI_Waitany(int n, MPI_Request *r, int *ix, MPI_Status *s) {
  struct any x = {n, r};
  block(any_done, &x, "MPI_Waitany");
  *ix = MPI_UNDEFINED;
  for (int i = 0; i < n; i++) if (r[i] >= 0) { long q = r[i]; if (req_done(&q)) { *ix = i; MPI_Wait(&r[i], s); break; } }
  return 0;
}
struct pr { int src, tag, ctx, me; };
static long probe_find(struct pr *p) { for (long k = 0; k < nmsg; k++) if (!msgs[k].matched && msgs[k].dst == p->me && msgs[k].ctx == p->ctx && (p->src == MPI_ANY_SOURCE || p->src == msgs[k].src) && (p->tag == MPI_ANY_TAG || p->tag == msgs[k].tag)) return k; return -1; }
static int probe_ok(void *a) { return probe_find(a) >= 0; }
int MPI_Iprobe(int src, int tag, MPI_Comm c, int *f, MPI_Status *s) {
  struct pr p = {src, tag, c, me_};
  yield_();
  long k = probe_find(&p);
  *f = k >= 0;
  if (s && k >= 0) { s->MPI_SOURCE = msgs[k].src; s->MPI_TAG = msgs[k].tag; s->bytes = msgs[k].n; }
  return 0;
}
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status *s) {
  struct pr p = {src, tag, c, me_}; int f;
  if (src == MPI_PROC_NULL) { if (s) { s->MPI_SOURCE = MPI_PROC_NULL; s->MPI_TAG = MPI_ANY_TAG; s->bytes = 0; } return 0; }
  block(probe_ok, &p, "MPI_Probe");
  long k = probe_find(&p); (void)f;
  if (s) { s->MPI_SOURCE = msgs[k].src; s->MPI_TAG = msgs[k].tag; s->bytes = msgs[k].n; }
  return 0;
}
int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) { *n = (int)(s->bytes / tsize(t)); return 0; }
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype st, int d, int stag, void *rb, int rn_, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *stat) {
  long a = post_recv(rb, rn_, rt, s, rtag, c), b = post_send(sb, sn, st, d, stag, c, 1);
  finish(a, stat, "MPI_Sendrecv"); finish(b, NULL, "MPI_Sendrecv");
  return 0;
}
/* collectives: every rank leaves when all have come */
typedef struct { const char *kind; int root, n, arrived, left; void *data[MAXP]; size_t len[MAXP]; } Coll;
static Coll *colls[100000]; static long ncoll;
static int coll_full(void *a) { return ((Coll *)a)->arrived == np_; }
static Coll *coll_enter(const char *kind, const void *b, size_t len, int root, MPI_Comm c) {
  CHECK(c == MPI_COMM_WORLD || c >= 10, "unexpected communicator");
  long s = R_[me_].seq++;
  CHECK(s < 100000, "too many collectives");
  if (s >= ncoll) { colls[s] = m_alloc(sizeof(Coll)); memset(colls[s], 0, sizeof(Coll)); colls[s]->kind = kind; colls[s]->root = root; ncoll = s + 1; }
  Coll *x = colls[s];
  CHECK(!strcmp(x->kind, kind) && x->root == root, "ranks disagree: %s(root %d) meets %s(root %d)", kind, root, x->kind, x->root);
  x->data[me_] = m_alloc(len + 1);
  if (len && b) memcpy(x->data[me_], b, len);
  x->len[me_] = len;
  x->arrived++;
  block(coll_full, x, kind);
  return x;
}
static void coll_leave(Coll *x) {
  if (++x->left == np_) { for (int i = 0; i < np_; i++) { m_free(x->data[i]); x->data[i] = NULL; } }
}
static void coll_reset(void) { for (long i = 0; i < ncoll; i++) { CHECK(colls[i]->left == np_, "%s is not completed by every rank", colls[i]->kind); m_free(colls[i]); } ncoll = 0; for (int i = 0; i < MAXP; i++) R_[i].seq = 0; }
#define RED(T) { T *x = a; const T *y = b; for (int i = 0; i < n; i++) switch (op) { \
  case MPI_MAX: if (y[i] > x[i]) x[i] = y[i]; break; case MPI_MIN: if (y[i] < x[i]) x[i] = y[i]; break; case MPI_SUM: x[i] += y[i]; break; case MPI_PROD: x[i] *= y[i]; break; \
  case MPI_LAND: x[i] = x[i] && y[i]; break; case MPI_LOR: x[i] = x[i] || y[i]; break; case MPI_LXOR: x[i] = !x[i] != !y[i]; break; \
  case MPI_BAND: x[i] = (T)((long)x[i] & (long)y[i]); break; case MPI_BOR: x[i] = (T)((long)x[i] | (long)y[i]); break; case MPI_BXOR: x[i] = (T)((long)x[i] ^ (long)y[i]); break; default: FAILED("unknown operation"); } break; }
static void reduce_into(void *a, const void *b, int n, MPI_Datatype t, MPI_Op op) {
  switch (t) {
  case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_INT8_T: RED(signed char)
  case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_UINT8_T: case MPI_C_BOOL: RED(unsigned char)
  case MPI_SHORT: case MPI_INT16_T: RED(short)
  case MPI_UNSIGNED_SHORT: case MPI_UINT16_T: RED(unsigned short)
  case MPI_INT: case MPI_INT32_T: RED(int)
  case MPI_UNSIGNED: case MPI_UINT32_T: RED(unsigned)
  case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: case MPI_AINT: RED(long)
  case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: RED(unsigned long)
  case MPI_FLOAT: RED(float)
  case MPI_DOUBLE: RED(double)
  default: FAILED("reduction of an unexpected datatype");
  }
}
static const void *inplace(const void *s, const void *r) { return s == MPI_IN_PLACE ? r : s; }
int MPI_Barrier(MPI_Comm c) { coll_leave(coll_enter("MPI_Barrier", NULL, 0, 0, c)); return 0; }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) {
  CHECK(root >= 0 && root < np_, "root %d of %d", root, np_);
  Coll *x = coll_enter("MPI_Bcast", b, n * tsize(t), root, c);
  CHECK(x->len[root] == n * tsize(t), "broadcast of %zu bytes is received as %zu bytes", x->len[root], n * tsize(t));
  if (me_ != root) memcpy(b, x->data[root], x->len[root]);
  coll_leave(x); return 0;
}
static void red(Coll *x, void *r, int lo, int hi, int n, MPI_Datatype t, MPI_Op op) {
  memcpy(r, x->data[lo], n * tsize(t));
  for (int i = lo + 1; i < hi; i++) { CHECK(x->len[i] == n * tsize(t), "counts differ"); reduce_into(r, x->data[i], n, t, op); }
}
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { Coll *x = coll_enter("MPI_Allreduce", inplace(s, r), n * tsize(t), 0, c); red(x, r, 0, np_, n, t, op); coll_leave(x); return 0; }
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { Coll *x = coll_enter("MPI_Reduce", inplace(s, r), n * tsize(t), root, c); if (me_ == root) red(x, r, 0, np_, n, t, op); coll_leave(x); return 0; }
int MPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { Coll *x = coll_enter("MPI_Scan", inplace(s, r), n * tsize(t), 0, c); red(x, r, 0, me_ + 1, n, t, op); coll_leave(x); return 0; }
int MPI_Exscan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { Coll *x = coll_enter("MPI_Exscan", inplace(s, r), n * tsize(t), 0, c); if (me_ > 0) red(x, r, 0, me_, n, t, op); coll_leave(x); return 0; }
int MPI_Allgather(const void *s, int sn, MPI_Datatype st, void *r, int rn_, MPI_Datatype rt, MPI_Comm c) {
  Coll *x = coll_enter("MPI_Allgather", s == MPI_IN_PLACE ? (char *)r + me_ * rn_ * tsize(rt) : s, s == MPI_IN_PLACE ? rn_ * tsize(rt) : sn * tsize(st), 0, c);
  for (int i = 0; i < np_; i++) memcpy((char *)r + i * rn_ * tsize(rt), x->data[i], x->len[i]);
  coll_leave(x); return 0;
}
int MPI_Gather(const void *s, int sn, MPI_Datatype st, void *r, int rn_, MPI_Datatype rt, int root, MPI_Comm c) {
  Coll *x = coll_enter("MPI_Gather", s == MPI_IN_PLACE ? (char *)r + me_ * rn_ * tsize(rt) : s, s == MPI_IN_PLACE ? rn_ * tsize(rt) : sn * tsize(st), root, c);
  if (me_ == root) for (int i = 0; i < np_; i++) memcpy((char *)r + i * rn_ * tsize(rt), x->data[i], x->len[i]);
  coll_leave(x); return 0;
}
int MPI_Gatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rc, const int *ds, MPI_Datatype rt, int root, MPI_Comm c) {
  Coll *x = coll_enter("MPI_Gatherv", s, sn * tsize(st), root, c);
  if (me_ == root) for (int i = 0; i < np_; i++) { CHECK(x->len[i] <= rc[i] * tsize(rt), "gather overruns"); memcpy((char *)r + ds[i] * tsize(rt), x->data[i], x->len[i]); }
  coll_leave(x); return 0;
}
int MPI_Scatter(const void *s, int sn, MPI_Datatype st, void *r, int rn_, MPI_Datatype rt, int root, MPI_Comm c) {
  Coll *x = coll_enter("MPI_Scatter", me_ == root ? s : NULL, me_ == root ? np_ * sn * tsize(st) : 0, root, c);
  memcpy(r, (char *)x->data[root] + me_ * rn_ * tsize(rt), rn_ * tsize(rt));
  coll_leave(x); return 0;
}
int MPI_Alltoall(const void *s, int sn, MPI_Datatype st, void *r, int rn_, MPI_Datatype rt, MPI_Comm c) {
  Coll *x = coll_enter("MPI_Alltoall", s, np_ * sn * tsize(st), 0, c);
  for (int i = 0; i < np_; i++) memcpy((char *)r + i * rn_ * tsize(rt), (char *)x->data[i] + me_ * sn * tsize(st), rn_ * tsize(rt));
  coll_leave(x); return 0;
}
int MPI_Comm_rank(MPI_Comm c, int *r) { *r = c == MPI_COMM_SELF ? 0 : me_; return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { *n = c == MPI_COMM_SELF ? 1 : np_; return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) { Coll *x = coll_enter("MPI_Comm_dup", NULL, 0, 0, c); coll_leave(x); *o = 10 + (int)R_[me_].seq; return 0; }
int MPI_Comm_free(MPI_Comm *c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Abort(MPI_Comm c, int rc) { FAILED("MPI_Abort(%d)", rc); return 0; }
double MPI_Wtime(void) { return 0; }
int MPI_Type_size(MPI_Datatype t, int *n) { *n = (int)tsize(t); return 0; }
int MPI_Init(int *a, char ***b) { return 0; }
int MPI_Init_thread(int *a, char ***b, int c, int *d) { if (d) *d = c; return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Initialized(int *f) { *f = 1; return 0; }
int MPI_Finalized(int *f) { *f = 0; return 0; }
int MPI_Get_processor_name(char *b, int *n) { strcpy(b, "host"); *n = 4; return 0; }
int MPI_Error_string(int e, char *b, int *n) { strcpy(b, "error"); *n = 5; return 0; }

/* run f on every rank */
static void (*job_)(int);
static void *rank_main(void *a) {
  me_ = (int)(intptr_t)a;
  sem_wait(&R_[me_].go);
  harness_rank = me_;
  job_(me_);
  R_[me_].done = 1;
  pick_next();
  return NULL;
}
static void run_ranks(int np, void (*f)(int)) {
  np_ = np; job_ = f;
  sem_init(&main_go, 0, 0);
  int tr = at_save_off();
  for (int i = 0; i < np; i++) {
    memset(&R_[i], 0, sizeof R_[i]);
    R_[i].op = "running";
    sem_init(&R_[i].go, 0, 0);
  }
  pthread_attr_t at_; pthread_attr_init(&at_); pthread_attr_setstacksize(&at_, 1 << 20);
  for (int i = 0; i < np; i++) if (pthread_create(&R_[i].t, &at_, rank_main, (void *)(intptr_t)i)) { perror("pthread_create"); exit(2); }
  at_restore(tr);
  pick_next();
  sem_wait(&main_go);
  tr = at_save_off();
  for (int i = 0; i < np; i++) pthread_join(R_[i].t, NULL);
  at_restore(tr);
  harness_rank = 0;
  world_reset();
  coll_reset();
}
