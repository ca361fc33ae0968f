// Run-time support of lowered Go code (symbolic build only).
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64; typedef int32_t i32;
typedef unsigned _BitInt(256) u256; typedef _BitInt(256) s256; typedef unsigned _BitInt(512) u512; typedef unsigned __int128 u128;
typedef struct { const u8 *p; u64 n; } str;
typedef struct { u8 *p; u64 n, c; } slice;
typedef struct { const struct td *t; void *d; } iface;
struct td { _Bool (*eq)(const void *, const void *); const char *name; u64 namelen, size, kind, ekind, esize; void *cols[]; };
_Noreturn void go_panic_ext(const char *m);   // ends the path as a panic
void go_extern_ext(const char *m);            // unknown external function
_Noreturn void go_panic_msg(const char *m) { go_panic_ext(m); }
_Noreturn void go_panic(const struct td *t, void *d) {
  if (t && t->kind == 24) { str *s = d; if (s->n) go_panic_ext((const char *)s->p); }
  go_panic_ext(t ? t->name : "panic(nil)");
}
void go_extern(const char *m) { go_extern_ext(m); }
void *go_new(u64 n) { return calloc(1, n ? n : 1); }

_Bool go_streq(const u8 *a, u64 n, const u8 *b, u64 m) { return n == m && (a == b || memcmp(a, b, n) == 0); }
_Bool go_streq_mem(const str *a, const str *b) { return go_streq(a->p, a->n, b->p, b->n); }
i32 go_strcmp(const u8 *a, u64 n, const u8 *b, u64 m) {
  u64 k = n < m ? n : m;
  int r = k ? memcmp(a, b, k) : 0;
  if (r) return r < 0 ? -1 : 1;
  return n < m ? -1 : n > m;
}
i64 go_strcmp3(const u8 *a, u64 n, const u8 *b, u64 m) { return go_strcmp(a, n, b, m); }
i64 go_bytescmp(const u8 *a, u64 n, u64 c, const u8 *b, u64 m, u64 d) { return go_strcmp(a, n, b, m); }
_Bool go_byteseq(const u8 *a, u64 n, u64 c, const u8 *b, u64 m, u64 d) { return go_streq(a, n, b, m); }
str go_strcat(const u8 *a, u64 n, const u8 *b, u64 m) {
  if (!n) return (str){b, m};
  if (!m) return (str){a, n};
  u8 *p = malloc(n + m);
  memcpy(p, a, n); memcpy(p + n, b, m);
  return (str){p, n + m};
}
str go_bytes2str(const u8 *a, u64 n) { u8 *p = malloc(n + 1); memcpy(p, a, n); p[n] = 0; return (str){p, n}; }
u8 *go_str2bytes(const u8 *a, u64 n) { u8 *p = malloc(n ? n : 1); memcpy(p, a, n); return p; }
_Bool go_eq_uncomparable(const void *a, const void *b) { go_panic_ext("comparing uncomparable type"); }
_Bool go_ifaceeq(const struct td *a, const struct td *b, void *x, void *y) {
  if (a != b) return 0;
  if (!a) return 1;
  if (!a->eq) return x == y;
  return a->eq(x, y);
}
_Bool go_ifaceeq_mem(const iface *a, const iface *b) { return go_ifaceeq(a->t, b->t, a->d, b->d); }

void *go_makeslice(i64 n, i64 c, u64 es) {
  if (n < 0 || c < n) go_panic_ext("makeslice: len out of range");
  if (c > (1ll << 40)) go_panic_ext("makeslice: cap out of range");
  return go_new((u64)c * es);
}
void go_makenozero(slice *o, i64 n) { o->p = go_makeslice(n, n, 1); o->n = o->c = n; }
void go_append(slice *o, u8 *p, u64 n, u64 c, const u8 *q, u64 m, u64 es) {
  u64 l = n + m;
  if (l > c) {
    u64 nc = 2 * c; if (nc < l) nc = l; if (nc < 4) nc = 4;
    u8 *np = go_new(nc * es);
    memmove(np, p, n * es);
    p = np; c = nc;
  }
  memmove(p + n * es, q, m * es);
  o->p = p; o->n = l; o->c = c;
}

// ---- maps: insertion-ordered list of entries {key, value, live}
struct map { u64 ks, vs, n, used, cap, stride; _Bool (*eq)(const void *, const void *); u8 *e; };
static u64 al8(u64 n) { return (n + 7) & ~7ull; }
struct map *go_makemap(u64 ks, u64 vs, void *eq) {
  struct map *m = go_new(sizeof *m);
  m->ks = ks; m->vs = vs; m->eq = eq; m->stride = al8(ks) + al8(vs) + 8;
  return m;
}
static u8 *find(struct map *m, const void *k) {
  u64 lv = m->stride - 8;
  for (u64 i = 0; i < m->used; i++) {
    u8 *e = m->e + i * m->stride;
    if (e[lv] && m->eq(e, k)) return e;
  }
  return 0;
}
void *go_mapaccess(struct map *m, const void *k) {
  if (!m) return 0;
  u8 *e = find(m, k);
  return e ? e + al8(m->ks) : 0;
}
void *go_mapassign(struct map *m, const void *k) {
  if (!m) go_panic_ext("assignment to entry in nil map");
  u8 *e = find(m, k);
  if (!e) {
    if (m->used == m->cap) {
      u64 nc = m->cap ? 2 * m->cap : 4;
      u8 *ne = go_new(nc * m->stride);
      memcpy(ne, m->e, m->used * m->stride);
      m->e = ne; m->cap = nc;
    }
    e = m->e + m->used++ * m->stride;
    memcpy(e, k, m->ks);
    e[m->stride - 8] = 1;
    m->n++;
  }
  return e + al8(m->ks);
}
void go_mapdelete(struct map *m, const void *k) {
  if (!m) return;
  u8 *e = find(m, k);
  if (e) { e[m->stride - 8] = 0; m->n--; memset(e + al8(m->ks), 0, m->vs); }
}
void go_mapclear(struct map *m) { if (m) { for (u64 i = 0; i < m->used; i++) m->e[i * m->stride + m->stride - 8] = 0; m->n = 0; } }
u64 go_maplen(struct map *m) { return m ? m->n : 0; }
struct iter { struct map *m; u64 i; };
struct iter *go_mapiter(struct map *m) { struct iter *it = go_new(sizeof *it); it->m = m; return it; }
void *go_mapnext(struct iter *it) {
  struct map *m = it->m;
  while (m && it->i < m->used) {
    u8 *e = m->e + it->i++ * m->stride;
    if (e[m->stride - 8]) return e;
  }
  return 0;
}

// ---- runes
u64 go_decoderune(const u8 *p, i64 n, i64 i) {
  if (i >= n) return 0;
  u32 a = p[i];
  if (a < 0x80) return 1ull << 32 | a;
  if (a >= 0xc2 && a <= 0xdf && i + 1 < n && (p[i + 1] & 0xc0) == 0x80) return 2ull << 32 | (a & 0x1f) << 6 | (p[i + 1] & 0x3f);
  if (a >= 0xe0 && a <= 0xef && i + 2 < n && (p[i + 1] & 0xc0) == 0x80 && (p[i + 2] & 0xc0) == 0x80) {
    u32 r = (a & 15) << 12 | (p[i + 1] & 0x3f) << 6 | (p[i + 2] & 0x3f);
    if (r >= 0x800 && !(r >= 0xd800 && r < 0xe000)) return 3ull << 32 | r;
  }
  if (a >= 0xf0 && a <= 0xf4 && i + 3 < n && (p[i + 1] & 0xc0) == 0x80 && (p[i + 2] & 0xc0) == 0x80 && (p[i + 3] & 0xc0) == 0x80) {
    u32 r = (a & 7) << 18 | (p[i + 1] & 0x3f) << 12 | (p[i + 2] & 0x3f) << 6 | (p[i + 3] & 0x3f);
    if (r >= 0x10000 && r < 0x110000) return 4ull << 32 | r;
  }
  return 1ull << 32 | 0xfffd;
}
static u64 enc(u8 *o, u32 r) {
  if (r < 0x80) { o[0] = r; return 1; }
  if (r < 0x800) { o[0] = 0xc0 | r >> 6; o[1] = 0x80 | (r & 0x3f); return 2; }
  if (r >= 0x110000 || (r >= 0xd800 && r < 0xe000)) r = 0xfffd;
  if (r < 0x10000) { o[0] = 0xe0 | r >> 12; o[1] = 0x80 | (r >> 6 & 0x3f); o[2] = 0x80 | (r & 0x3f); return 3; }
  o[0] = 0xf0 | r >> 18; o[1] = 0x80 | (r >> 12 & 0x3f); o[2] = 0x80 | (r >> 6 & 0x3f); o[3] = 0x80 | (r & 0x3f);
  return 4;
}
str go_rune2str(u32 r) { u8 *p = malloc(4); u64 n = enc(p, r); return (str){p, n}; }
str go_runes2str(const u32 *r, u64 n) {
  u8 *p = malloc(4 * n + 1); u64 l = 0;
  for (u64 i = 0; i < n; i++) l += enc(p + l, r[i]);
  return (str){p, l};
}
void go_str2runes(slice *o, const u8 *p, u64 n) {
  u32 *r = malloc(4 * n + 4); u64 k = 0;
  for (i64 i = 0; i < (i64)n;) { u64 x = go_decoderune(p, n, i); r[k++] = (u32)x; i += x >> 32; }
  o->p = (u8 *)r; o->n = k; o->c = n + 1;
}
i64 go_indexbytestr(const u8 *p, u64 n, u8 c) { for (u64 i = 0; i < n; i++) if (p[i] == c) return i; return -1; }
i64 go_indexbyte(const u8 *p, u64 n, u64 cc, u8 c) { return go_indexbytestr(p, n, c); }
i64 go_countbytestr(const u8 *p, u64 n, u8 c) { i64 r = 0; for (u64 i = 0; i < n; i++) r += p[i] == c; return r; }
i64 go_countbyte(const u8 *p, u64 n, u64 cc, u8 c) { return go_countbytestr(p, n, c); }
i64 go_strindex(const u8 *p, u64 n, const u8 *q, u64 m) { for (u64 i = 0; i + m <= n; i++) if (memcmp(p + i, q, m) == 0) return i; return -1; }

// ---- synchronisation (single thread of control)
int pthread_mutex_lock(void *); int pthread_mutex_unlock(void *); int pthread_rwlock_rdlock(void *); int pthread_rwlock_unlock(void *);
void go_mutex_lock(u32 *m) { pthread_mutex_lock(m); } void go_mutex_unlock(u32 *m) { pthread_mutex_unlock(m); } _Bool go_trylock(void *m) { pthread_mutex_lock(m); return 1; }
void go_rlock(void *m) { pthread_rwlock_rdlock(m); } void go_runlock(void *m) { pthread_rwlock_unlock(m); }
void sym_shared(u64); void sym_op(u64);
void go_sym_Shared(u64 n) { sym_shared(n); } void go_sym_Op(u64 n) { sym_op(n); }
u64 go_atomic_add64(u64 *p, u64 d) { return *p += d; } u32 go_atomic_add32(u32 *p, u32 d) { return *p += d; }
u64 go_atomic_load64(u64 *p) { return *p; } u32 go_atomic_load32(u32 *p) { return *p; }
void *go_atomic_load64p(void **p) { return *p; } void go_atomic_store64p(void **p, void *v) { *p = v; }
void go_atomic_store64(u64 *p, u64 v) { *p = v; } void go_atomic_store32(u32 *p, u32 v) { *p = v; }
void go_nop0(void) {} void go_nop1(void *p) {} void go_nop2(void *p, void *q) {}

// ---- bits
struct p2 { u64 a, b; };
void go_mul64(struct p2 *o, u64 x, u64 y) { u128 r = (u128)x * y; o->a = r >> 64; o->b = (u64)r; }
void go_add64(struct p2 *o, u64 x, u64 y, u64 c) { u128 r = (u128)x + y + c; o->a = (u64)r; o->b = r >> 64; }
void go_sub64(struct p2 *o, u64 x, u64 y, u64 c) { u128 r = (u128)x - y - c; o->a = (u64)r; o->b = (u64)(r >> 64) & 1; }
void go_div64(struct p2 *o, u64 hi, u64 lo, u64 y) { if (y <= hi) go_panic_ext("Div64"); u128 n = (u128)hi << 64 | lo; o->a = (u64)(n / y); o->b = (u64)(n % y); }
i64 go_clz64(u64 x) { return x ? __builtin_clzll(x) : 64; } i64 go_len64(u64 x) { return 64 - go_clz64(x); }
i64 go_clz32(u32 x) { return go_clz64(x) - 32; } i64 go_clz8(u8 x) { return go_clz64(x) - 56; } i64 go_len32(u32 x) { return go_len64(x); } i64 go_len8(u8 x) { return go_len64(x); }
i64 go_ctz64(u64 x) { return x ? __builtin_ctzll(x) : 64; } i64 go_popcnt64(u64 x) { return __builtin_popcountll(x); } u64 go_bswap64(u64 x) { return __builtin_bswap64(x); }
#define NEED(k) if (n < k) go_panic_ext("index out of range")
typedef u64 __attribute__((aligned(1))) u64a; typedef u32 __attribute__((aligned(1))) u32a; typedef u16 __attribute__((aligned(1))) u16a; typedef u256 __attribute__((aligned(8))) u256a;
// receiver types are empty structs, passed as a pointer
u64 go_be64(void *r, const u8 *p, u64 n, u64 c) { NEED(8); return __builtin_bswap64(*(u64a *)p); }
u32 go_be32(void *r, const u8 *p, u64 n, u64 c) { NEED(4); return __builtin_bswap32(*(u32a *)p); }
u16 go_be16(void *r, const u8 *p, u64 n, u64 c) { NEED(2); return __builtin_bswap16(*(u16a *)p); }
void go_putbe64(void *r, u8 *p, u64 n, u64 c, u64 v) { NEED(8); *(u64a *)p = __builtin_bswap64(v); }
void go_putbe32(void *r, u8 *p, u64 n, u64 c, u32 v) { NEED(4); *(u32a *)p = __builtin_bswap32(v); }
void go_putbe16(void *r, u8 *p, u64 n, u64 c, u16 v) { NEED(2); *(u16a *)p = __builtin_bswap16(v); }
u64 go_f64bits(double d) { u64 u; memcpy(&u, &d, 8); return u; } double go_f64frombits(u64 u) { double d; memcpy(&d, &u, 8); return d; }

// ---- type descriptors
str go_tdname(const struct td *t, void *d) { return t ? (str){(const u8 *)t->name, t->namelen} : (str){(const u8 *)"<nil>", 5}; }
i64 go_tdkind(const struct td *t, void *d) { return t ? t->kind : 0; }
i64 go_tdelem(const struct td *t, void *d) { return t ? t->ekind : 0; }
i64 go_tdsize(const struct td *t, void *d) { return t ? t->size : 0; }
i64 go_tdesize(const struct td *t, void *d) { return t ? t->esize : 0; }
_Bool go_sametype(const struct td *t, void *d, const struct td *s, void *e) { return t == s; }
void *go_dataptr(const struct td *t, void *d) { return d; }
struct closure { _Bool (*fn)(i64, i64, struct closure *); };
void go_sortslice(const struct td *t, slice *s, struct closure *less) {
  u64 es = t->esize; u8 *tmp = go_new(es);
  for (i64 i = 1; i < (i64)s->n; i++)
    for (i64 j = i; j > 0 && less->fn(j, j - 1, less); j--) {
      memcpy(tmp, s->p + j * es, es); memcpy(s->p + j * es, s->p + (j - 1) * es, es); memcpy(s->p + (j - 1) * es, tmp, es);
    }
}

// ---- harness interface
u64 sym_param(const char *); void sym_bytes(void *, u64, const char *); void sym_bytes_i(void *, u64, const char *, u64); u64 sym_u64(const char *); void sym_assume(u64);
void sym_uf(const char *, const void *, u64, void *, u64); const u8 *sym_ufbytes(const char *, const void *, u64, u64); void sym_event(const char *, const void *, u64);
void sym_eventv(const char *, const void *, u64, const void *, u64); void sym_fresh(const char *, void *, u64); void sym_fresh_reset(void); void sym_out(const char *, const void *, u64);
void sym_out_u64(const char *, u64); void sym_check(u64, const char *); void sym_check_u64(u64, u64, const char *); void sym_reach(const char *); void evmsym_keccak(const void *, u64, void *);
u64 go_sym_Param(const char *n, u64 l) { return sym_param(n); }
void go_sym_Bytes(u8 *p, u64 n, u64 c, const char *s, u64 l) { if (n) sym_bytes(p, n, s); }
void go_sym_BytesI(u8 *p, u64 n, u64 c, const char *s, u64 l, u64 i) { if (n) sym_bytes_i(p, n, s, i); }
u64 go_sym_U64(const char *s, u64 l) { return sym_u64(s); }
u64 go_sym_U64I(const char *s, u64 l, u64 i) { u8 b[8]; sym_bytes_i(b, 8, s, i); return __builtin_bswap64(*(u64a *)b); }
u8 go_sym_U8(const char *s, u64 l) { u8 b; sym_bytes(&b, 1, s); return b; }
u8 go_sym_U8I(const char *s, u64 l, u64 i) { u8 b; sym_bytes_i(&b, 1, s, i); return b; }
_Bool go_sym_Bool(const char *s, u64 l) { u8 b; sym_bytes(&b, 1, s); sym_assume(b < 2); return b != 0; }
void go_sym_Assume(_Bool c) { sym_assume(c); }
void go_sym_UF(const char *s, u64 l, const u8 *p, u64 n, u64 c, u8 *q, u64 m, u64 d) { sym_uf(s, p, n, q, m); }
void go_sym_UFBytes(slice *o, const char *s, u64 l, const u8 *p, u64 n, u64 c, u64 mx) { o->p = (u8 *)sym_ufbytes(s, p, n, mx); o->n = o->c = mx; }
void go_sym_Event(const char *s, u64 l, const u8 *p, u64 n, u64 c) { sym_event(s, p, n); }
void go_sym_EventV(const char *s, u64 l, const u8 *p, u64 n, u64 c, const u8 *q, u64 m, u64 d) { sym_eventv(s, p, n, q, m); }
void go_sym_Fresh(const char *s, u64 l, u8 *p, u64 n, u64 c) { sym_fresh(s, p, n); }
u64 go_sym_FreshU64(const char *s, u64 l) { u8 b[8]; sym_fresh(s, b, 8); return __builtin_bswap64(*(u64a *)b); }
u8 go_sym_FreshU8(const char *s, u64 l) { u8 b; sym_fresh(s, &b, 1); return b; }
void go_sym_FreshReset(void) { sym_fresh_reset(); }
void go_sym_Out(const char *s, u64 l, const u8 *p, u64 n, u64 c) { sym_out(s, p, n); }
void go_sym_OutU64(const char *s, u64 l, u64 v) { sym_out_u64(s, v); }
void go_sym_Check(_Bool c, const char *s, u64 l) { sym_check(c, s); }
void go_sym_CheckU64(u64 a, u64 b, const char *s, u64 l) { sym_check_u64(a, b, s); }
void sym_sel(u64, void *, const void *, u64);
void go_sym_Sel(_Bool c, u8 *d, u64 n, u64 dc, const u8 *p, u64 m, u64 pc) { if (m < n) n = m; if (n) sym_sel(c, d, p, n); }
void go_sym_Reach(const char *s, u64 l) { sym_reach(s); }
void go_sym_Keccak(const u8 *p, u64 n, u64 c, u8 *o, u64 m, u64 d) { evmsym_keccak(p, n, o); }

// ---- holiman/uint256 on 256-bit integers
#define R(x) (*(const u256a *)(x))
#define S(x) ((s256)R(x))
#define Z(e) { u256 r_ = (u256)(e); *(u256a *)z = r_; return z; }
void go_bswap_mem(void *, const void *);
static u256 go_bswap256(u256 v) { u256 r; go_bswap_mem(&r, &v); return r; }
static u256 load_be(const u8 *p, u64 n) { u256 r = 0; u8 b[32]; memset(b, 0, 32); memcpy(b + 32 - n, p, n); r = *(u256a *)b; return go_bswap256(r); }
void *u256_NewInt(u64 v) { u8 *z = malloc(32); Z(v) }
void *u256_Clear(u8 *z) Z(0)
void *u256_Set(u8 *z, u8 *x) Z(R(x))
void *u256_Clone(u8 *x) { u8 *z = malloc(32); Z(R(x)) }
void *u256_SetUint64(u8 *z, u64 v) Z(v)
void *u256_SetOne(u8 *z) Z(1)
void *u256_SetAllOne(u8 *z) Z(~(u256)0)
void *u256_Add(u8 *z, u8 *x, u8 *y) Z(R(x) + R(y))
void u256_IAdd(u8 *z, u8 *x) { *(u256a *)z = R(z) + R(x); }
void *u256_AddUint64(u8 *z, u8 *x, u64 y) Z(R(x) + y)
void *u256_Sub(u8 *z, u8 *x, u8 *y) Z(R(x) - R(y))
void *u256_SubUint64(u8 *z, u8 *x, u64 y) Z(R(x) - y)
__attribute__((noinline)) void *u256_Mul(u8 *z, u8 *x, u8 *y) Z(R(x) * R(y))
void *u256_Div(u8 *z, u8 *x, u8 *y) { if (R(y) == 0) Z(0) Z(R(x) / R(y)) }
void *u256_Mod(u8 *z, u8 *x, u8 *y) { if (R(y) == 0) Z(0) Z(R(x) % R(y)) }
void *u256_SDiv(u8 *z, u8 *x, u8 *y) { u256 a = R(x), b = R(y); if (b == 0) Z(0) u256 q = ((s256)a < 0 ? -a : a) / ((s256)b < 0 ? -b : b); Z(((s256)a < 0) != ((s256)b < 0) ? -q : q) }
void *u256_SMod(u8 *z, u8 *x, u8 *y) { u256 a = R(x), b = R(y); if (b == 0) Z(0) u256 q = ((s256)a < 0 ? -a : a) % ((s256)b < 0 ? -b : b); Z((s256)a < 0 ? -q : q) }
void *u256_AddMod(u8 *z, u8 *x, u8 *y, u8 *m) { if (R(m) == 0) Z(0) unsigned _BitInt(264) t = (unsigned _BitInt(264))R(x) + R(y); Z(t % (unsigned _BitInt(264))R(m)) }
void *u256_MulMod(u8 *z, u8 *x, u8 *y, u8 *m) { if (R(m) == 0) Z(0) u512 t = (u512)R(x) * R(y); Z(t % (u512)R(m)) }
void evmsym_exp(const void *, const void *, void *);
void *u256_Exp(u8 *z, u8 *x, u8 *y) { u256 r; evmsym_exp(x, y, &r); Z(r) }
void *u256_Neg(u8 *z, u8 *x) Z(-R(x))
void *u256_Abs(u8 *z, u8 *x) { if (S(x) < 0) Z(-R(x)) Z(R(x)) }
void *u256_Not(u8 *z, u8 *x) Z(~R(x))
void *u256_And(u8 *z, u8 *x, u8 *y) Z(R(x) & R(y))
void *u256_Or(u8 *z, u8 *x, u8 *y) Z(R(x) | R(y))
void *u256_Xor(u8 *z, u8 *x, u8 *y) Z(R(x) ^ R(y))
void *u256_Lsh(u8 *z, u8 *x, u64 n) { u256 a = n < 256 ? R(x) << (n & 255) : 0; Z(a) }
void *u256_Rsh(u8 *z, u8 *x, u64 n) { u256 a = n < 256 ? R(x) >> (n & 255) : 0; Z(a) }
void *u256_SRsh(u8 *z, u8 *x, u64 n) { s256 a = S(x) >> (n < 256 ? n : 255); Z(a) }
void *u256_Byte(u8 *z, u8 *n) { if (R(n) >= 32) Z(0) u64 k = (u64)R(n); Z((R(z) >> (248 - 8 * k)) & 0xff) }
void *u256_ExtendSign(u8 *z, u8 *x, u8 *b) { if (R(b) > 30) Z(R(x)) u64 k = 248 - 8 * (u64)R(b); Z((s256)(R(x) << k) >> k) }
_Bool u256_Lt(u8 *z, u8 *x) { return R(z) < R(x); }
_Bool u256_Gt(u8 *z, u8 *x) { return R(z) > R(x); }
_Bool u256_Slt(u8 *z, u8 *x) { return S(z) < S(x); }
_Bool u256_Sgt(u8 *z, u8 *x) { return S(z) > S(x); }
_Bool u256_Eq(u8 *z, u8 *x) { return R(z) == R(x); }
i64 u256_Cmp(u8 *z, u8 *x) { return R(z) < R(x) ? -1 : R(z) == R(x) ? 0 : 1; }
i64 u256_Scmp(u8 *z, u8 *x) { return S(z) < S(x) ? -1 : S(z) == S(x) ? 0 : 1; }
i64 u256_CmpUint64(u8 *z, u64 x) { return R(z) < x ? -1 : R(z) == x ? 0 : 1; }
_Bool u256_LtUint64(u8 *z, u64 x) { return R(z) < x; }
_Bool u256_GtUint64(u8 *z, u64 x) { return R(z) > x; }
_Bool u256_IsZero(u8 *z) { return R(z) == 0; }
i64 u256_Sign(u8 *z) { return R(z) == 0 ? 0 : S(z) < 0 ? -1 : 1; }
_Bool u256_IsUint64(u8 *z) { return R(z) >> 64 == 0; }
u64 u256_Uint64(u8 *z) { return *(u64 *)z; }
struct ub { u64 v; u8 o; };
void u256_Uint64WithOverflow(struct ub *o, u8 *z) { o->v = *(u64 *)z; o->o = R(z) >> 64 != 0; }
struct pb { void *v; u8 o; };
void u256_AddOverflow(struct pb *o, u8 *z, u8 *x, u8 *y) { u256 a = R(x), r = a + R(y); *(u256a *)z = r; o->v = z; o->o = r < a; }
void u256_SubOverflow(struct pb *o, u8 *z, u8 *x, u8 *y) { u256 a = R(x), b = R(y); *(u256a *)z = a - b; o->v = z; o->o = a < b; }
void u256_MulOverflow(struct pb *o, u8 *z, u8 *x, u8 *y) { u512 p = (u512)R(x) * R(y); *(u256a *)z = (u256)p; o->v = z; o->o = p >> 256 != 0; }
struct pp { void *a, *b; };
void u256_DivMod(struct pp *o, u8 *z, u8 *x, u8 *y, u8 *m) { u256 a = R(x), b = R(y); *(u256a *)m = b ? a % b : 0; *(u256a *)z = b ? a / b : 0; o->a = z; o->b = m; }
i64 u256_BitLen(u8 *z) { u64 *w = (u64 *)z; for (int i = 3; i > 0; i--) if (w[i]) return 64 * i + go_len64(w[i]); return go_len64(w[0]); }
i64 u256_ByteLen(u8 *z) {
  u64 *w = (u64 *)z;
  for (int i = 3; i > 0; i--) if (w[i]) return 8 * i + (go_len64(w[i]) + 7) / 8;
  return (go_len64(w[0]) + 7) / 8;
}
void *u256_SetBytes(u8 *z, u8 *p, u64 n, u64 c) { if (n > 32) { p += n - 32; n = 32; } Z(load_be(p, n)) }
#define SB(k) void *u256_SetBytes##k(u8 *z, u8 *p, u64 n, u64 c) { NEED(k); Z(load_be(p, k)) }
SB(1) SB(2) SB(4) SB(8) SB(20) SB(32)
void go_amount_add(u8 *o, u8 *a, u8 *b) { *(u256a *)o = go_bswap256(go_bswap256(R(a)) + go_bswap256(R(b))); }
void go_amount_sub(u8 *o, u8 *a, u8 *b) { *(u256a *)o = go_bswap256(go_bswap256(R(a)) - go_bswap256(R(b))); }
i64 go_amount_cmp(u8 *a, u8 *b) { u256 x = go_bswap256(R(a)), y = go_bswap256(R(b)); return (i64)(x > y) - (i64)(x < y); }
void u256_Bytes32(u8 *o, u8 *z) { *(u256a *)o = go_bswap256(R(z)); }
void u256_Bytes20(u8 *o, u8 *z) { u8 b[32]; *(u256a *)b = go_bswap256(R(z)); memcpy(o, b + 12, 20); }
void u256_Bytes(slice *o, u8 *z) { i64 n = u256_ByteLen(z); u8 *b = malloc(32); *(u256a *)b = go_bswap256(R(z)); o->p = b + 32 - n; o->n = o->c = n; }
void u256_PutUint256(u8 *z, u8 *p, u64 n, u64 c) { NEED(32); *(u256a *)p = go_bswap256(R(z)); }
void u256_WriteToArray32(u8 *z, u8 *p) { *(u256a *)p = go_bswap256(R(z)); }
void u256_WriteToArray20(u8 *z, u8 *p) { u256_Bytes20(p, z); }
void u256_WriteToSlice(u8 *z, u8 *p, u64 n, u64 c) { u8 b[32]; *(u256a *)b = go_bswap256(R(z)); if (n >= 32) { memset(p, 0, n - 32); memcpy(p + n - 32, b, 32); } else memcpy(p, b + 32 - n, n); }
