/* Client programs of the library.  Each is verified like a function of the library, against the
 * contracts only: what they return is a consequence (a lemma) of the contracts.  They are compiled
 * with the headers of the tree under check. */
#include "kvtree.h"
#include "kvtree_util.h"
#include "kvtree_helpers.h"
#include <string.h>
#include <stdlib.h>

/* C01 */
int client_set_get(kvtree* h, const char* key, kvtree* sub)
{
  kvtree_set(h, key, sub);
  return kvtree_get(h, key) == sub;
}
int client_unset_get(kvtree* h, const char* key)
{
  kvtree_unset(h, key);
  return kvtree_get(h, key) == NULL && kvtree_elem_get(h, key) == NULL;
}
int client_extract_other(kvtree* h, const char* key, const char* other)
{
  kvtree* before = kvtree_get(h, other);
  kvtree* sub = kvtree_extract(h, key);
  int ok = kvtree_get(h, other) == before && kvtree_get(h, key) == NULL;
  kvtree_delete(&sub);
  return ok;
}
int client_set_other(kvtree* h, const char* key, const char* other, kvtree* sub)
{
  kvtree* before = kvtree_get(h, other);
  kvtree_set(h, key, sub);
  return kvtree_get(h, other) == before;
}
/* a list built and torn down: nothing is lost */
int client_life(const char* a, const char* b)
{
  kvtree* t = kvtree_new();
  kvtree_set(t, a, kvtree_new());
  kvtree_set(t, b, kvtree_new());
  kvtree_set(t, a, NULL);
  int n = kvtree_size(t);
  kvtree_delete(&t);
  return n == 2 && t == NULL;
}
/* C04 */
int client_kv(kvtree* h, const char* key, const char* val)
{
  kvtree* v = kvtree_set_kv(h, key, val);
  return v != NULL && kvtree_get_kv(h, key, val) == v && kvtree_set_kv(h, key, val) == v;
}
int client_kv_int(kvtree* h, const char* key, int val)
{
  kvtree* v = kvtree_set_kv_int(h, key, val);
  return v != NULL && kvtree_get_kv_int(h, key, val) == v;
}
int client_kv_unset(kvtree* h, const char* key, const char* val)
{
  kvtree_set_kv(h, key, val);
  kvtree_unset_kv(h, key, val);
  return kvtree_get_kv(h, key, val) == NULL;
}
/* C05 */
#define ROUND(name, setter, getter, type) \
int client_##name(kvtree* h, const char* key, type val) \
{ \
  type out; \
  setter(h, key, val); \
  return getter(h, key, &out) == KVTREE_SUCCESS && out == val; \
}
ROUND(int, kvtree_util_set_int, kvtree_util_get_int, int)
ROUND(bytecount, kvtree_util_set_bytecount, kvtree_util_get_bytecount, unsigned long)
ROUND(unsigned_long, kvtree_util_set_unsigned_long, kvtree_util_get_unsigned_long, unsigned long)
ROUND(int64, kvtree_util_set_int64, kvtree_util_get_int64, int64_t)
ROUND(ptr, kvtree_util_set_ptr, kvtree_util_get_ptr, void*)
int client_crc32(kvtree* h, const char* key, uint32_t val)
{
  uLong out;
  kvtree_util_set_crc32(h, key, val);
  return kvtree_util_get_crc32(h, key, &out) == KVTREE_SUCCESS && out == val;
}
int client_str(kvtree* h, const char* key, const char* val)
{
  char* out;
  kvtree_util_set_str(h, key, val);
  return kvtree_util_get_str(h, key, &out) == KVTREE_SUCCESS && strcmp(out, val) == 0;
}
/* a second setter on another key does not disturb the first */
int client_two(kvtree* h, const char* a, const char* b, int v, int64_t w)
{
  int x;
  int64_t y;
  kvtree_util_set_int(h, a, v);
  kvtree_util_set_int64(h, b, w);
  if (kvtree_util_get_int64(h, b, &y) != KVTREE_SUCCESS || y != w) {
    return 0;
  }
  return kvtree_util_get_int(h, a, &x) == KVTREE_SUCCESS && x == v;
}
/* overwriting with another type leaves one value */
int client_overwrite(kvtree* h, const char* key, unsigned long a, int b)
{
  kvtree_util_set_bytecount(h, key, a);
  kvtree_util_set_int(h, key, b);
  return kvtree_size(kvtree_get(h, key)) == 1;
}
/* C06 */
int client_format(kvtree* h, kvtree* sub, const char* key, int val)
{
  if (kvtree_setf(h, sub, "%s %d", key, val) != sub) {
    return 0;
  }
  return kvtree_getf(h, "%s %d", key, val) == sub && kvtree_get_kv_int(h, key, val) == sub;
}
int client_format3(kvtree* h, kvtree* sub, const char* a, const char* b, const char* c)
{
  if (kvtree_setf(h, sub, "%s %s %s", a, b, c) != sub) {
    return 0;
  }
  return kvtree_getf(h, "%s %s %s", a, b, c) == sub && kvtree_get(kvtree_get(kvtree_get(h, a), b), c) == sub;
}
/* C08, C09 */
int client_pack_unpack(const kvtree* src, kvtree** out)
{
  size_t n = kvtree_pack_size(src);
  char* buf = (char*) kvtree_malloc(n, __FILE__, __LINE__);
  kvtree* dst = kvtree_new();
  size_t w = kvtree_pack(buf, src);
  size_t r = kvtree_unpack(buf, dst);
  kvtree_free(&buf);
  *out = dst;
  return w == n && r == n;
}
/* C10 */
#define INTS(name, w, type) \
int client_ints##w(char* buf, size_t size, size_t* pos, type val) \
{ \
  size_t start = *pos; \
  type out; \
  if (kvtree_pack_##name(buf, size, pos, val) != KVTREE_SUCCESS) { \
    return *pos == start; \
  } \
  if (*pos != start + w) { \
    return 0; \
  } \
  *pos = start; \
  return kvtree_unpack_##name(buf, size, pos, &out) == KVTREE_SUCCESS && out == val && *pos == start + w; \
}
INTS(uint16_t, 2, uint16_t)
INTS(uint32_t, 4, uint32_t)
INTS(uint64_t, 8, uint64_t)
