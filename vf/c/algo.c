/* Algorithms run over generated input, natively and in wasm.  algo(k, n): n bytes of input in inbuf; returns the number of
   bytes written to outbuf. */
#define N 512
static u8 inbuf[N];
static u8 outbuf[8192];
static u32 op;
static void put(u8 x) { if (op < sizeof outbuf) outbuf[op++] = x; }
static void put32(u32 x) { for (int i = 0; i < 4; i++) put((u8)(x >> 8 * i)); }
static void put64(u64 x) { for (int i = 0; i < 8; i++) put((u8)(x >> 8 * i)); }

/* sha256 */
static const u32 K[64] = {
  0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,
  0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,
  0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,
  0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
  0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,
  0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2 };
#define RR(x, n) ((x) >> (n) | (x) << (32 - (n)))
static void sha_block(u32 *h, const u8 *p) {
  u32 w[64];
  for (int i = 0; i < 16; i++) w[i] = (u32)p[4*i] << 24 | (u32)p[4*i+1] << 16 | (u32)p[4*i+2] << 8 | p[4*i+3];
  for (int i = 16; i < 64; i++) {
    u32 a = RR(w[i-15], 7) ^ RR(w[i-15], 18) ^ w[i-15] >> 3, b = RR(w[i-2], 17) ^ RR(w[i-2], 19) ^ w[i-2] >> 10;
    w[i] = w[i-16] + a + w[i-7] + b;
  }
  u32 v[8];
  memcpy(v, h, 32);
  for (int i = 0; i < 64; i++) {
    u32 s1 = RR(v[4], 6) ^ RR(v[4], 11) ^ RR(v[4], 25), ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
    u32 t1 = v[7] + s1 + ch + K[i] + w[i], s0 = RR(v[0], 2) ^ RR(v[0], 13) ^ RR(v[0], 22);
    u32 t2 = s0 + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
    memmove(v + 1, v, 28);
    v[4] += t1; v[0] = t1 + t2;
  }
  for (int i = 0; i < 8; i++) h[i] += v[i];
}
static void a_sha(u32 n) {
  u32 h[8] = { 0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19 };
  u8 last[128] = { 0 };
  u32 i = 0, r;
  if (n > 130) n = 130;
  for (; i + 64 <= n; i += 64) sha_block(h, inbuf + i);
  r = n - i;
  memcpy(last, inbuf + i, r);
  last[r] = 0x80;
  u32 tot = r < 56 ? 64 : 128;
  for (int k = 0; k < 8; k++) last[tot - 1 - k] = (u8)((u64)n * 8 >> 8 * k);
  for (u32 k = 0; k < tot; k += 64) sha_block(h, last + k);
  for (int k = 0; k < 8; k++) put32(h[k]);
}

/* quicksort with a comparison function pointer over records */
struct rec { i32 key; u8 tag; f32 w; };
typedef int (*cmp)(const void *, const void *);
static int c_key(const void *a, const void *b) { const struct rec *x = a, *y = b; return (x->key > y->key) - (x->key < y->key); }
static int c_tag(const void *a, const void *b) { const struct rec *x = a, *y = b; return x->tag != y->tag ? x->tag - y->tag : c_key(a, b); }
static int c_w(const void *a, const void *b) { const struct rec *x = a, *y = b; return x->w < y->w ? -1 : x->w > y->w ? 1 : c_tag(a, b); }
static void swapn(u8 *a, u8 *b, u32 n) { while (n--) { u8 t = *a; *a++ = *b; *b++ = t; } }
static void qs(u8 *base, i32 n, u32 sz, cmp f) {
  if (n < 2) return;
  u8 piv[32];
  memcpy(piv, base + (u32)(n / 2) * sz, sz);
  i32 i = 0, j = n - 1;
  while (i <= j) {
    while (f(base + (u32)i * sz, piv) < 0) i++;
    while (f(base + (u32)j * sz, piv) > 0) j--;
    if (i <= j) { swapn(base + (u32)i * sz, base + (u32)j * sz, sz); i++; j--; }
  }
  qs(base, j + 1, sz, f);
  qs(base + (u32)i * sz, n - i, sz, f);
}
static void a_sort(u32 n) {
  static struct rec r[64];
  static const cmp fs[3] = { c_key, c_tag, c_w };
  u32 m = n / 6; if (m > 40) m = 40;
  for (u32 i = 0; i < m; i++) {
    const u8 *p = inbuf + 6 * i;
    r[i].key = (i32)(i8)p[0] * 1000 + p[1]; r[i].tag = p[2] & 3; r[i].w = (f32)((p[3] | p[4] << 8) % 97) / 8.0f;
  }
  qs((u8 *)r, (i32)m, sizeof *r, fs[n % 3]);
  for (u32 i = 0; i < m; i++) { put32((u32)r[i].key); put(r[i].tag); put32((u32)bits_f32(r[i].w)); }
}

/* crc32, adler, fnv */
static void a_crc(u32 n) {
  static u32 tab[256];
  if (!tab[1]) for (u32 i = 0; i < 256; i++) { u32 c = i; for (int k = 0; k < 8; k++) c = c & 1 ? 0xedb88320u ^ c >> 1 : c >> 1; tab[i] = c; }
  u32 c = ~0u, a = 1, b = 0; u64 h = 0xcbf29ce484222325ull;
  for (u32 i = 0; i < n; i++) { c = tab[(c ^ inbuf[i]) & 255] ^ c >> 8; a = (a + inbuf[i]) % 65521; b = (b + a) % 65521; h = (h ^ inbuf[i]) * 0x100000001b3ull; }
  put32(~c); put32(b << 16 | a); put64(h);
}

/* LZ77 and back */
static void a_lz(u32 n) {
  static u8 comp[2048], back[1024];
  u32 o = 0, i = 0;
  if (n > 160) n = 160;
  while (i < n) {
    u32 bl = 0, bo = 0;
    for (u32 s = i > 63 ? i - 63 : 0; s < i; s++) {
      u32 l = 0;
      while (l < 60 && i + l < n && inbuf[s + l] == inbuf[i + l]) l++;
      if (l > bl) { bl = l; bo = i - s; }
    }
    if (bl >= 3) { comp[o++] = (u8)(0x80 | bl); comp[o++] = (u8)bo; i += bl; }
    else { comp[o++] = 1; comp[o++] = inbuf[i++]; }
  }
  u32 w = 0;
  for (u32 k = 0; k < o; k += 2) {
    if (comp[k] & 0x80) { u32 l = comp[k] & 0x7f, d = comp[k + 1]; while (l--) { back[w] = back[w - d]; w++; } }
    else back[w++] = comp[k + 1];
  }
  put32(o); put32(w);
  int same = w == n;
  for (u32 k = 0; k < n; k++) same &= back[k] == inbuf[k];
  put((u8)same);
  for (u32 k = 0; k < o; k++) put(comp[k]);
}

/* big integers: product and decimal digits */
static void a_big(u32 n) {
  u32 a[16] = { 0 }, b[16] = { 0 }, c[33] = { 0 };
  for (u32 i = 0; i < n && i < 64; i++) { u32 *t = i & 1 ? a : b; t[i / 8 % 8] |= (u32)inbuf[i] << (i / 2 % 4 * 8); }
  for (int i = 0; i < 8; i++) {
    u64 cy = 0;
    for (int j = 0; j < 8; j++) { u64 t = (u64)a[i] * b[j] + c[i + j] + cy; c[i + j] = (u32)t; cy = t >> 32; }
    c[i + 8] = (u32)cy;
  }
  u8 dig[200]; int nd = 0;
  for (;;) {
    u64 r = 0; int nz = 0;
    for (int i = 15; i >= 0; i--) { r = r << 32 | c[i]; c[i] = (u32)(r / 1000000000u); r %= 1000000000u; nz |= c[i] != 0; }
    for (int k = 0; k < 9 && nd < 200; k++) { dig[nd++] = (u8)('0' + r % 10); r /= 10; }
    if (!nz) break;
  }
  while (nd > 1 && dig[nd - 1] == '0') nd--;
  while (nd) put(dig[--nd]);
}

/* linear algebra */
static void a_mat(u32 n) {
  f64 m[6][7];
  for (int i = 0; i < 6; i++) for (int j = 0; j < 7; j++) { u32 k = (u32)(i * 7 + j); m[i][j] = k < n ? (i8)inbuf[k] / 4.0 : i == j; }
  f64 det = 1;
  for (int c = 0; c < 6; c++) {
    int p = c;
    for (int r = c + 1; r < 6; r++) if (__builtin_fabs(m[r][c]) > __builtin_fabs(m[p][c])) p = r;
    if (m[p][c] == 0) { det = 0; continue; }
    if (p != c) { for (int j = 0; j < 7; j++) { f64 t = m[p][j]; m[p][j] = m[c][j]; m[c][j] = t; } det = -det; }
    det *= m[c][c];
    for (int r = 0; r < 6; r++) if (r != c) { f64 f = m[r][c] / m[c][c]; for (int j = c; j < 7; j++) m[r][j] -= f * m[c][j]; }
  }
  put64(bits_f64(det));
  for (int i = 0; i < 6; i++) put64(bits_f64(m[i][6] / m[i][i]));
  f32 s = 0;
  for (u32 i = 0; i + 1 < n; i++) s += __builtin_sqrtf((f32)inbuf[i]) * (f32)(i8)inbuf[i + 1];
  put32((u32)bits_f32(s));
}

/* a heap allocator and a hash map of lists on top of it */
struct node { struct node *next; u32 key, val; };
static u64 arena[400]; static u32 ap; static struct node *freel;
static struct node *nalloc(void) { if (freel) { struct node *n = freel; freel = n->next; return n; }
  if ((ap + 2) * 8 > sizeof arena - 16) return 0; struct node *n = (struct node *)(arena + ap); ap += (sizeof *n + 7) / 8; return n; }
static void a_map(u32 n) {
  struct node *tab[13]; memset(tab, 0, sizeof tab); ap = 0; freel = 0;
  for (u32 i = 0; i + 1 < n; i += 2) {
    u32 key = inbuf[i] & 0x3f; struct node **p = &tab[key * 2654435761u % 13];
    while (*p && (*p)->key != key) p = &(*p)->next;
    switch (inbuf[i] >> 6) {
      case 0: case 1: if (!*p) { struct node *x = nalloc(); if (!x) { put(0xee); break; } x->next = 0; x->key = key; x->val = 0; *p = x; }
        (*p)->val = (*p)->val * 3 + inbuf[i + 1]; put((u8)(*p)->val); break;
      case 2: if (*p) { struct node *x = *p; *p = x->next; x->next = freel; freel = x; put(0xdd); } else put(0xcc); break;
      default: if (*p) put32((*p)->val); else put(0xbb);
    }
  }
  for (int k = 0; k < 13; k++) for (struct node *x = tab[k]; x; x = x->next) { put((u8)x->key); put32(x->val); }
}

/* utf-8 to code points and base64 */
static void a_text(u32 n) {
  if (n > 200) n = 200;
  for (u32 i = 0; i < n;) {
    u32 c = inbuf[i++]; int k = c < 0x80 ? 0 : c >> 5 == 6 ? 1 : c >> 4 == 14 ? 2 : c >> 3 == 30 ? 3 : -1;
    if (k < 0) { put32(0xfffd); continue; }
    if (k) c &= 0x3fu >> k;
    while (k && i < n && inbuf[i] >> 6 == 2) { c = c << 6 | (inbuf[i++] & 63u); k--; }
    put32(k ? 0xfffd : c);
  }
  static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  for (u32 i = 0; i < n; i += 3) {
    u32 v = (u32)inbuf[i] << 16 | (i + 1 < n ? (u32)inbuf[i + 1] << 8 : 0) | (i + 2 < n ? inbuf[i + 2] : 0);
    for (int k = 3; k >= 0; k--) put(3 - k <= (int)(n - i) ? (u8)A[v >> 6 * k & 63] : '=');
  }
}

/* a stack machine with a dense switch */
static void a_vm(u32 n) {
  i64 st[16]; u32 sp = 0, pc = 0; int steps = 400;
  memset(st, 0, sizeof st);
  while (pc < n && steps--) {
    u8 c = inbuf[pc++];
    i64 a = st[sp & 15], b = st[(sp - 1) & 15];
    switch (c & 31) {
      case 0: sp++; st[sp & 15] = pc < n ? (i8)inbuf[pc++] : 0; break;
      case 1: sp--; st[sp & 15] = (i64)((u64)a + (u64)b); break;
      case 2: sp--; st[sp & 15] = (i64)((u64)b - (u64)a); break;
      case 3: sp--; st[sp & 15] = (i64)((u64)a * (u64)b); break;
      case 4: sp--; st[sp & 15] = div_i64(b, a); break;
      case 5: sp--; st[sp & 15] = rem_i64(b, a); break;
      case 6: sp--; st[sp & 15] = shl_i64(b, a); break;
      case 7: sp--; st[sp & 15] = shr_i64(b, a); break;
      case 8: st[sp & 15] = b; st[(sp - 1) & 15] = a; break;
      case 9: sp++; st[sp & 15] = a; break;
      case 10: if (a) { pc = (u32)((pc + (u32)(c >> 5)) % n); } break;
      case 11: if (a > 0) { pc = (u32)((pc + n - (u32)(c >> 5)) % n); st[sp & 15] = a - 1; } break;
      case 12: st[sp & 15] = (i64)(u64)__builtin_popcountll((u64)a); break;
      case 13: st[sp & 15] = (i64)from_f64_i64(__builtin_sqrt(__builtin_fabs((f64)a))); break;
      case 14: st[sp & 15] = a < b; break;
      case 15: st[sp & 15] = ~a; break;
      case 16: put64((u64)a); break;
      case 17: st[sp & 15] = (i32)a; break;
      case 18: st[sp & 15] = (i8)a; break;
      case 19: st[sp & 15] = (i64)(u64)(u16)a; break;
      case 20: st[sp & 15] = (i64)(u32)a; break;
      case 21: st[sp & 15] = (i64)((u64)a << 13 | (u64)a >> 51); break;
      case 22: { f32 f = (f32)a; st[sp & 15] = (i64)bits_f32(f / 3.0f); break; }
      case 23: { f64 f = (f64)(u64)a; st[sp & 15] = (i64)bits_f64(__builtin_floor(f / 7.0)); break; }
      default: sp--;
    }
  }
  for (int i = 0; i < 16; i++) put64((u64)st[i]);
}

/* edit distance, primes, float to decimal */
static void a_misc(u32 n) {
  u32 m = n / 2 < 24 ? n / 2 : 24;
  u16 row[25], prev[25];
  for (u32 j = 0; j <= m; j++) prev[j] = (u16)j;
  for (u32 i = 1; i <= m; i++) {
    row[0] = (u16)i;
    for (u32 j = 1; j <= m; j++) { u32 d = prev[j - 1] + (inbuf[i - 1] % 4 != inbuf[m + j - 1] % 4), e = prev[j] + 1u, f = row[j - 1] + 1u; row[j] = (u16)(d < e ? d < f ? d : f : e < f ? e : f); }
    memcpy(prev, row, sizeof row);
  }
  put((u8)prev[m]);
  u8 sv[40]; memset(sv, 0xff, sizeof sv);
  for (u32 i = 2; i < 320; i++) if (sv[i >> 3] >> (i & 7) & 1) for (u32 j = i * i; j < 320; j += i) sv[j >> 3] &= (u8)~(1u << (j & 7));
  put(sv[n % 40]);
  f64 x = 0; for (u32 i = 0; i < n && i < 8; i++) x = x * 10 + (inbuf[i] % 10) / 8.0;
  u32 ip = (u32)from_f64_u32(x); put32(ip); f64 fr = x - (f64)ip;
  for (int k = 0; k < 10; k++) { fr *= 10; u32 d = (u32)from_f64_u32(fr); put((u8)('0' + d % 10)); fr -= (f64)d; }
}
/* every integer operation on values that stay in use after it, and conversions between all the widths */
static u64 acc;
#define A(e) acc = acc * 0x9e3779b97f4a7c15u + (u64)(e);
__attribute__((noinline)) static void a_ops64(u64 x, u64 y) {
  A((i64)(i32)x) A(x) A((i64)(i16)x) A(x) A((i64)(i8)x) A(x ^ y) A((i64)(i32)(x + y)) A((u32)x) A((u16)x) A((u8)y) A(y)
  A(x / (y | 1)) A(x % (y | 1)) A((i64)(x >> 1) / (i64)((y >> 3) | 1)) A((i64)(x >> 1) % -(i64)((y >> 2) | 1)) A(x) A(y)
  A(x << (y & 63)) A(x >> (y & 63)) A((i64)x >> (y & 63)) A(x << (y & 63) | x >> (-y & 63)) A(x >> (y & 63) | x << (-y & 63)) A(y)
  A(x < y) A((i64)x < (i64)y) A(x <= y) A((i64)x >= (i64)y) A(x == y) A(x != y) A(x)
  A(__builtin_clzll(x | 1)) A(__builtin_ctzll(x | 1ull << 63)) A(__builtin_popcountll(x)) A(~x) A(-x) A(x & y) A(x | y) A(x ^ y) A(x - y) A(x * y) A(x) A(y)
  A(bits_f64((f64)(i64)x)) A(bits_f64((f64)x)) A(bits_f32((f32)(i64)x)) A(bits_f32((f32)x)) A(x > y ? x : y) A((i64)x > (i64)y ? y : x) A(x) A(y)
}
__attribute__((noinline)) static void a_ops32(u32 x, u32 y) {
  A((i32)(i16)x) A(x) A((i32)(i8)x) A(x) A((i64)(i32)x) A((u64)x) A((u16)x) A((u8)y) A(x + y)
  A(x / (y | 1)) A(x % (y | 1)) A((i32)(x >> 1) / (i32)((y >> 3) | 1)) A((i32)(x >> 1) % -(i32)((y >> 2) | 1)) A(x) A(y)
  A(x << (y & 31)) A(x >> (y & 31)) A((i32)x >> (y & 31)) A(x << (y & 31) | x >> (-y & 31)) A(x >> (y & 31) | x << (-y & 31)) A(y)
  A(x < y) A((i32)x < (i32)y) A(x <= y) A((i32)x >= (i32)y) A(x == y) A(x != y) A(x)
  A(__builtin_clz(x | 1)) A(__builtin_ctz(x | 1u << 31)) A(__builtin_popcount(x)) A(~x) A(-x) A(x & y) A(x | y) A(x ^ y) A(x - y) A(x * y) A(x) A(y)
  A(bits_f64((f64)(i32)x)) A(bits_f64((f64)x)) A(bits_f32((f32)(i32)x)) A(bits_f32((f32)x)) A(x > y ? x : y) A((i32)x > (i32)y ? y : x) A(x) A(y)
}
__attribute__((noinline)) static void a_opsf(f64 x, f64 y) {
  f32 p = (f32)x, q = (f32)y;
  A(bits_f64(x + y)) A(bits_f64(x - y)) A(bits_f64(x * y)) A(bits_f64(x / y)) A(bits_f64(__builtin_sqrt(x))) A(bits_f64(-x)) A(bits_f64(__builtin_fabs(y))) A(bits_f64(x))
  A(bits_f64(__builtin_floor(x))) A(bits_f64(__builtin_ceil(x))) A(bits_f64(__builtin_trunc(x))) A(bits_f64(__builtin_rint(y))) A(bits_f64(__builtin_copysign(x, y))) A(bits_f64(y))
  A(x < y) A(x <= y) A(x > y) A(x >= y) A(x == y) A(x != y) A(bits_f64(x)) A(from_f64_i64(x)) A(from_f64_u64(y)) A(from_f64_i32(x)) A(from_f64_u32(y)) A(bits_f64(x)) A(bits_f64(y))
  A(bits_f32(p + q)) A(bits_f32(p - q)) A(bits_f32(p * q)) A(bits_f32(p / q)) A(bits_f32(__builtin_sqrtf(p))) A(bits_f32(-p)) A(bits_f32(__builtin_fabsf(q))) A(bits_f32(p))
  A(bits_f32(__builtin_floorf(p))) A(bits_f32(__builtin_ceilf(p))) A(bits_f32(__builtin_truncf(p))) A(bits_f32(__builtin_rintf(q))) A(bits_f32(__builtin_copysignf(p, q))) A(bits_f32(q))
  A(p < q) A(p <= q) A(p > q) A(p >= q) A(p == q) A(p != q) A(bits_f32(p)) A(bits_f64((f64)q)) A(bits_f32(q))
}
static void a_ops(u32 n) {
  acc = n;
  for (u32 i = 0; i + 16 <= n; i += 8) {
    u64 x, y; f64 f, g;
    memcpy(&x, inbuf + i, 8); memcpy(&y, inbuf + i + 8, 8); memcpy(&f, &x, 8); memcpy(&g, &y, 8);
    a_ops64(x, y); put64(acc); a_ops32((u32)x, (u32)(y >> 7)); put64(acc); a_opsf((f64)(i64)x, (f64)(y >> 32) / 3.0); put64(acc);
    if (f - f == 0 && g - g == 0) { a_opsf(f, g); put64(acc); }
    if (x >> 63) { a_ops64(x >> (y & 63), y); a_ops32((u32)x, (u32)x); put64(acc); }
  }
}
EXPORT(algo) u32 algo(i32 k, u32 n) {
  static void (*const T[])(u32) = { a_sha, a_sort, a_crc, a_lz, a_big, a_mat, a_map, a_text, a_vm, a_misc, a_ops };
  op = 0;
  T[(u32)k % 11](n > N ? N : n);
  return op;
}
EXPORT(in) u8 *in_(void) { return inbuf; }
EXPORT(out) u8 *out_(void) { return outbuf; }
#ifndef __wasm__
#include <stdio.h>
u64 host(u64 a, f64 b, i32 c) { return 0; }
int main(int argc, char **argv) {
  int k, n;
  while (scanf("%d %d", &k, &n) == 2) {
    for (int i = 0; i < n; i++) { int x; if (scanf("%d", &x) != 1) return 1; inbuf[i] = (u8)x; }
    u32 r = algo(k, (u32)n);
    for (u32 i = 0; i < r; i++) printf("%02x", outbuf[i]);
    printf("\n"); fflush(stdout);
  }
}
#endif
