// Runtime of translated Go code: the built-in operations on slices, strings and maps, and 256-bit arithmetic.
#include <stdint.h>
#include <string.h>
void* __vc_calloc(uint64_t n, uint64_t m);
void __vc_unsupported(const char*);
uint8_t __vc_peek(_Bool c, const void* p, uint64_t i);
struct slice { void* p; uint64_t n, cap; };
struct str { const char* p; uint64_t n; };
void* __vc_calloc1(uint64_t n) { return __vc_calloc(1, n); }
// growth of an appended slice: the language leaves the new capacity open
void vcgo_append(struct slice* r, void* p, uint64_t n, uint64_t cap, const void* q, uint64_t m, uint64_t es) {
  if (m == 0) { r->p = p; r->n = n; r->cap = cap; return; }
  if (n + m <= cap) {
    memmove((char*)p + n * es, q, m * es);
  } else {
    cap = n + m;
    void* b = __vc_calloc(1, cap * es);
    memcpy(b, p, n * es);
    memmove((char*)b + n * es, q, m * es);
    p = b;
  }
  r->p = p; r->n = n + m; r->cap = cap;
}
void* vcgo_dup(const void* p, uint64_t n) { void* b = __vc_calloc(1, n); memcpy(b, p, n); return b; }
void vcgo_concat(struct str* r, const char* p, uint64_t n, const char* q, uint64_t m) {
  char* b = __vc_calloc(1, n + m);
  memcpy(b, p, n);
  memcpy(b + n, q, m);
  r->p = b; r->n = n + m;
}
uint8_t vcgo_streq(const char* p, uint64_t n, const char* q, uint64_t m) { return n == m && memcmp(p, q, n) == 0; }
int64_t vcgo_bytes_compare(const uint8_t* p, uint64_t n, const uint8_t* q, uint64_t m) {
  uint64_t k = n < m ? n : m;
  if (n == 32 && m == 32) {
    typedef unsigned _BitInt(256) W;
    W a = 0, b = 0;
    for (int i = 0; i < 32; i++) { a = a << 8 | p[i]; b = b << 8 | q[i]; }
    return a < b ? -1 : a > b;
  }
  int c = memcmp(p, q, k);
  if (c) return c < 0 ? -1 : 1;
  return n < m ? -1 : n > m;
}
uint8_t vcgo_bytes_equal(const uint8_t* p, uint64_t n, const uint8_t* q, uint64_t m) { return n == m && memcmp(p, q, n) == 0; }
// maps: association lists
struct entry { struct entry* next; void* key; void* val; };
struct map { struct entry* first; uint64_t n; };
void* vcgo_map_new(void) { return __vc_calloc(1, sizeof(struct map)); }
static uint8_t same(const void* a, const void* b, uint64_t ks, uint64_t str) {
  if (str) { const struct str *x = a, *y = b; return x->n == y->n && memcmp(x->p, y->p, x->n) == 0; }
  return memcmp(a, b, ks) == 0;
}
uint8_t vcgo_map_get(struct map* m, const void* k, uint64_t ks, uint64_t str, void* v, uint64_t vs) {
  if (m)
    for (struct entry* e = m->first; e; e = e->next)
      if (same(e->key, k, ks, str)) { memcpy(v, e->val, vs); return 1; }
  memset(v, 0, vs);
  return 0;
}
void vcgo_map_set(struct map* m, const void* k, uint64_t ks, uint64_t str, const void* v, uint64_t vs) {
  for (struct entry* e = m->first; e; e = e->next)
    if (same(e->key, k, ks, str)) { memcpy(e->val, v, vs); return; }
  struct entry* e = __vc_calloc(1, sizeof(struct entry));
  e->key = __vc_calloc(1, ks);
  e->val = __vc_calloc(1, vs);
  memcpy(e->key, k, ks);
  memcpy(e->val, v, vs);
  e->next = m->first;
  m->first = e;
  m->n++;
}
void vcgo_map_del(struct map* m, const void* k, uint64_t ks, uint64_t str) {
  if (!m) return;
  for (struct entry** e = &m->first; *e; e = &(*e)->next)
    if (same((*e)->key, k, ks, str)) { *e = (*e)->next; m->n--; return; }
}
uint64_t vcgo_map_len(struct map* m) { return m ? m->n : 0; }
struct iter { struct map* m; struct entry* e; };
uint8_t vcgo_map_next(struct iter* it, void* k, uint64_t ks, void* v, uint64_t vs) {
  if (it->m) { it->e = it->m->first; it->m = 0; } else if (it->e) it->e = it->e->next;
  if (!it->e) return 0;
  memcpy(k, it->e->key, ks);
  memcpy(v, it->e->val, vs);
  return 1;
}
// ---- 256-bit integers (little-endian words, the representation of uint256.Int)
typedef unsigned _BitInt(256) U;
typedef signed _BitInt(256) S;
typedef unsigned _BitInt(512) D;
static U ld(const void* p) { U v; memcpy(&v, p, 32); return v; }
static void sv(void* p, U v) { memcpy(p, &v, 32); }
static U be(const uint8_t* p) { U a = 0; for (int i = 0; i < 32; i++) a = a << 8 | p[i]; return a; }
void vcgo_u_add(void* z, const void* x, const void* y) { sv(z, ld(x) + ld(y)); }
void vcgo_u_sub(void* z, const void* x, const void* y) { sv(z, ld(x) - ld(y)); }
void vcgo_u_mul(void* z, const void* x, const void* y) { sv(z, ld(x) * ld(y)); }
void vcgo_u_div(void* z, const void* x, const void* y) { U b = ld(y); sv(z, b == 0 ? 0 : ld(x) / b); }
void vcgo_u_mod(void* z, const void* x, const void* y) { U b = ld(y); sv(z, b == 0 ? 0 : ld(x) % b); }
static U sdiv(U a, U b) {
  if (b == 0) return 0;
  _Bool na = (S)a < 0, nb = (S)b < 0;
  U q = (na ? 0 - a : a) / (nb ? 0 - b : b);
  return na != nb ? 0 - q : q;
}
static U smod(U a, U b) {
  if (b == 0) return 0;
  _Bool na = (S)a < 0, nb = (S)b < 0;
  U q = (na ? 0 - a : a) % (nb ? 0 - b : b);
  return na ? 0 - q : q;
}
void vcgo_u_sdiv(void* z, const void* x, const void* y) { sv(z, sdiv(ld(x), ld(y))); }
void vcgo_u_smod(void* z, const void* x, const void* y) { sv(z, smod(ld(x), ld(y))); }
void vcgo_u_addmod(void* z, const void* x, const void* y, const void* m) { U n = ld(m); sv(z, n == 0 ? 0 : (U)((D)((D)ld(x) + (D)ld(y)) % (D)n)); }
void vcgo_u_mulmod(void* z, const void* x, const void* y, const void* m) { U n = ld(m); sv(z, n == 0 ? 0 : (U)((D)((D)ld(x) * (D)ld(y)) % (D)n)); }
void __vc_uf(const char* name, void* out, uint64_t outlen, const void* in, uint64_t inlen);
void vcgo_u_exp(void* z, const void* x, const void* y) { U a[2] = {ld(x), ld(y)}; U r; __vc_uf("exp256", &r, 32, a, 64); sv(z, r); }
void vcgo_u_shl(void* z, const void* x, uint64_t n) { sv(z, n >= 256 ? 0 : ld(x) << n); }
void vcgo_u_shr(void* z, const void* x, uint64_t n) { sv(z, n >= 256 ? 0 : ld(x) >> n); }
void vcgo_u_sar(void* z, const void* x, uint64_t n) { sv(z, (U)((S)ld(x) >> (n >= 256 ? 255 : n))); }
// extends the sign of x from byte b (b < 31)
void vcgo_u_signext(void* z, const void* x, const void* y) {
  U b = ld(y), v = ld(x);
  if (b >= 31) { sv(z, v); return; }
  unsigned s = 8 * (31 - (unsigned)b);
  sv(z, (U)((S)(v << s) >> s));
}
void vcgo_u_byte(void* z, const void* x, const void* n) { U b = ld(n), v = ld(x); sv(z, b >= 32 ? 0 : (v >> 8 * (31 - (unsigned)b)) & 0xff); }
int64_t vcgo_u_cmp(const void* x, const void* y) { U a = ld(x), b = ld(y); return a < b ? -1 : a > b; }
uint8_t vcgo_u_lt(const void* x, const void* y) { return ld(x) < ld(y); }
uint8_t vcgo_u_slt(const void* x, const void* y) { return (S)ld(x) < (S)ld(y); }
uint8_t vcgo_u_eq(const void* x, const void* y) { return ld(x) == ld(y); }
uint64_t vcgo_u_bitlen(const void* x) {
  const uint64_t* w = x;
  for (int i = 3; i >= 0; i--) if (w[i]) return 64 * i + 64 - __builtin_clzll(w[i]);
  return 0;
}
void vcgo_u_frombe(void* z, const void* p) { sv(z, be(p)); }
void vcgo_u_tobe(void* p, const void* x) { U v = ld(x); uint8_t* q = p; for (int i = 31; i >= 0; i--) { q[i] = (uint8_t)v; v >>= 8; } }
uint8_t vcgo_u_addov(void* z, const void* x, const void* y) { U a = ld(x), s = a + ld(y); sv(z, s); return s < a; }
uint8_t vcgo_u_subov(void* z, const void* x, const void* y) { U a = ld(x), b = ld(y); sv(z, a - b); return a < b; }
uint8_t vcgo_u_mulov(void* z, const void* x, const void* y) { D p = (D)ld(x) * (D)ld(y); sv(z, (U)p); return (p >> 256) != 0; }
// specification helpers: big-endian words of the contracts
void vcgo_w_add(void* z, const void* x, const void* y) { U v = be(x) + be(y); vcgo_u_tobe(z, &v); }
