#include "expr.h"
#include <unordered_map>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <time.h>
#include "shm.h"

std::vector<SymInfo> gSyms;
double u2d(u64 v) { double d; memcpy(&d, &v, 8); return d; }
u64 d2u(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static const u64 EXPM = 0x7ff0000000000000ULL, QBIT50 = 0x7ffc000000000000ULL, CNAN = 0xfff8000000000000ULL;

static u64 canon(double r) { return std::isnan(r) ? CNAN : d2u(r); }
u64 fpop(EK k, u64 a, u64 b) {
  double x = u2d(a), y = u2d(b);
  switch (k) {
  case K_FADD: return canon(x + y);
  case K_FSUB: return canon(x - y);
  case K_FMUL: return canon(x * y);
  case K_FDIV: return canon(x / y);
  case K_FREM: return canon(fmod(x, y));
  case K_FFLOOR: return canon(floor(x));
  case K_FCEIL: return canon(ceil(x));
  case K_FTRUNC: return canon(trunc(x));
  default: abort();
  }
}
bool fpcmp(EK k, u64 a, u64 b) {
  double x = u2d(a), y = u2d(b);
  switch (k) {
  case K_FEQ: return x == y;
  case K_FLT: return x < y;
  case K_FLE: return x <= y;
  case K_FUNO: return std::isnan(x) || std::isnan(y);
  default: abort();
  }
}
// x86-64 cvttsd2si semantics for 32/64 bit; narrower go through 32 bit
u64 ftoi(u64 a, int w, bool sgn) {
  double x = u2d(a);
  if (sgn) {
    if (w <= 32) {
      if (!(x > -2147483649.0 && x < 2147483648.0)) return (w == 32 ? 0x80000000ULL : 0) & maskw(w);
      return (u64)(i64)x & maskw(w);
    }
    if (!(x >= -9223372036854775808.0 && x < 9223372036854775808.0)) return 0x8000000000000000ULL;
    return (u64)(i64)x & maskw(w);
  }
  if (w <= 32) { // cvttsd2si 64 bit, then truncate
    if (!(x >= -9223372036854775808.0 && x < 9223372036854775808.0)) return 0;
    return (u64)(i64)x & maskw(w);
  }
  if (!(x > -1.0 && x < 18446744073709551616.0)) return 0x8000000000000000ULL;
  return (u64)x;
}

// ---------------------------------------------------------------- hash cons
struct Key { EK k; u8 w; u64 c; Expr *a, *b, *d; };
struct KeyH { size_t operator()(const Key &x) const {
  u64 h = x.k * 0x9E3779B97F4A7C15ULL + x.w; 
  h = (h ^ x.c) * 0xff51afd7ed558ccdULL; h ^= h >> 29;
  h = (h ^ (u64)x.a) * 0xc4ceb9fe1a85ec53ULL; h ^= h >> 31;
  h = (h ^ (u64)x.b) * 0x9E3779B97F4A7C15ULL; h ^= h >> 29;
  h = (h ^ (u64)x.d) * 0xff51afd7ed558ccdULL; h ^= h >> 33;
  return h; } };
struct KeyE { bool operator()(const Key &x, const Key &y) const {
  return x.k == y.k && x.w == y.w && x.c == y.c && x.a == y.a && x.b == y.b && x.d == y.d; } };
static std::unordered_map<Key, Expr *, KeyH, KeyE> tab;
static u32 nextId = 1;
static char *pool; static size_t poolLeft;
static Expr *newExpr() {
  if (poolLeft < sizeof(Expr)) { poolLeft = 1 << 18; pool = (char *)malloc(poolLeft); }
  Expr *e = (Expr *)pool; pool += sizeof(Expr); poolLeft -= sizeof(Expr);
  memset(e, 0, sizeof *e); e->id = nextId++; return e;
}
static inline bool isC(Expr *e) { return e->k == K_CONST; }
static bool isIntD(Expr *e); 

static void fullRange(Expr *e) {
  e->ulo = 0; e->uhi = maskw(e->w);
  e->slo = e->w == 64 ? INT64_MIN : -(1LL << (e->w - 1));
  e->shi = e->w == 64 ? INT64_MAX : (1LL << (e->w - 1)) - 1;
}
static void tighten(Expr *e) { // cross-derive signed/unsigned
  u64 sm = e->w == 64 ? (u64)INT64_MAX : (1ULL << (e->w - 1)) - 1;
  if (e->uhi <= sm) { // non-negative
    if (e->slo < (i64)e->ulo) e->slo = (i64)e->ulo;
    if (e->shi > (i64)e->uhi) e->shi = (i64)e->uhi;
  } else if (e->ulo > sm) {
    i64 l = sextw(e->ulo, e->w), h = sextw(e->uhi, e->w);
    if (e->slo < l) e->slo = l; if (e->shi > h) e->shi = h;
  }
  if (e->slo >= 0) {
    if (e->ulo < (u64)e->slo) e->ulo = e->slo;
    if (e->uhi > (u64)e->shi) e->uhi = e->shi;
  } else if (e->shi < 0) {
    u64 l = (u64)e->slo & maskw(e->w), h = (u64)e->shi & maskw(e->w);
    if (e->ulo < l) e->ulo = l; if (e->uhi > h) e->uhi = h;
  }
}
static void computeRange(Expr *e) {
  fullRange(e);
  Expr *a = e->a, *b = e->b;
  i64 x, y;
  i64 smin = e->slo, smax = e->shi;
  switch (e->k) {
  case K_CONST: e->ulo = e->uhi = e->c; e->slo = e->shi = sextw(e->c, e->w); break;
  case K_ADD:
    if (!__builtin_add_overflow(a->slo, b->slo, &x) && !__builtin_add_overflow(a->shi, b->shi, &y) && x >= smin && y <= smax) { e->slo = x; e->shi = y; }
    { u64 p, q; if (!__builtin_add_overflow(a->ulo, b->ulo, &p) && !__builtin_add_overflow(a->uhi, b->uhi, &q) && q <= maskw(e->w)) { e->ulo = p; e->uhi = q; } }
    break;
  case K_SUB:
    if (!__builtin_sub_overflow(a->slo, b->shi, &x) && !__builtin_sub_overflow(a->shi, b->slo, &y) && x >= smin && y <= smax) { e->slo = x; e->shi = y; }
    if (a->ulo >= b->uhi) { e->ulo = a->ulo - b->uhi; e->uhi = a->uhi - b->ulo; }
    break;
  case K_MUL: {
    i64 v[4]; bool ov = false;
    ov |= __builtin_mul_overflow(a->slo, b->slo, &v[0]); ov |= __builtin_mul_overflow(a->slo, b->shi, &v[1]);
    ov |= __builtin_mul_overflow(a->shi, b->slo, &v[2]); ov |= __builtin_mul_overflow(a->shi, b->shi, &v[3]);
    if (!ov) { i64 mn = v[0], mx = v[0]; for (i64 t : v) { if (t < mn) mn = t; if (t > mx) mx = t; }
      if (mn >= smin && mx <= smax) { e->slo = mn; e->shi = mx; } }
    u64 q; if (!__builtin_mul_overflow(a->uhi, b->uhi, &q) && q <= maskw(e->w)) { e->ulo = a->ulo * b->ulo; e->uhi = q; }
    break; }
  case K_UDIV: if (b->ulo > 0) { e->uhi = a->uhi / b->ulo; e->ulo = a->ulo / b->uhi; } break;
  case K_UREM: if (b->ulo > 0) { e->uhi = a->uhi < b->uhi - 1 ? a->uhi : b->uhi - 1; } break;
  case K_SREM: if (b->slo > 0) { i64 m = b->shi - 1; e->shi = a->shi < 0 ? 0 : (a->shi < m ? a->shi : m); e->slo = a->slo >= 0 ? 0 : (a->slo > -m ? a->slo : -m); } break;
  case K_SDIV: if (b->slo > 0) { i64 v[4] = { a->slo / b->slo, a->slo / b->shi, a->shi / b->slo, a->shi / b->shi };
      i64 mn = v[0], mx = v[0]; for (i64 t : v) { if (t < mn) mn = t; if (t > mx) mx = t; } e->slo = mn; e->shi = mx; } break;
  case K_AND: { u64 m = a->uhi < b->uhi ? a->uhi : b->uhi; e->uhi = m; break; }
  case K_OR: { e->ulo = a->ulo > b->ulo ? a->ulo : b->ulo; u64 m = a->uhi | b->uhi; if (m) { int hb = 63 - __builtin_clzll(m); e->uhi = maskw(hb + 1); } else e->uhi = 0; break; }
  case K_XOR: { u64 m = a->uhi | b->uhi; if (m) { int hb = 63 - __builtin_clzll(m); e->uhi = maskw(hb + 1); } else e->uhi = 0; break; }
  case K_LSHR: if (isC(b) && b->c < e->w) { e->ulo = a->ulo >> b->c; e->uhi = a->uhi >> b->c; } else e->uhi = a->uhi; break;
  case K_ASHR: if (isC(b) && b->c < e->w) { e->slo = a->slo >> b->c; e->shi = a->shi >> b->c; } break;
  case K_ITE: e->ulo = std::min(b->ulo, e->d->ulo); e->uhi = std::max(b->uhi, e->d->uhi);
    e->slo = std::min(b->slo, e->d->slo); e->shi = std::max(b->shi, e->d->shi); break;
  case K_CONCAT: e->ulo = (a->ulo << b->w) | b->ulo; e->uhi = (a->uhi << b->w) | b->uhi; break;
  case K_EXTRACT: if (e->c == 0) { 
      if (a->uhi <= maskw(e->w)) { e->ulo = a->ulo; e->uhi = a->uhi; }
      if (a->slo >= smin && a->shi <= smax) { e->slo = a->slo; e->shi = a->shi; }
    } else if ((int)(e->c + e->w) == a->w) { e->ulo = a->ulo >> e->c; e->uhi = a->uhi >> e->c; }
    break;
  case K_ZEXT: e->ulo = a->ulo; e->uhi = a->uhi; break;
  case K_SEXT: e->slo = a->slo; e->shi = a->shi; break;
  case K_FPTOSI: 
    break;
  default: break;
  }
  tighten(e);
  switch (e->k) {
  case K_CONST: if (e->w == 64) { if ((e->c & EXPM) != EXPM) e->flags |= EF_NUM | EF_FIN; else if ((e->c & QBIT50) != QBIT50) e->flags |= EF_NUM; } break;
  case K_SITOFP: case K_UITOFP: e->flags |= EF_NUM | EF_FIN; break;
  case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FREM: case K_FFLOOR: case K_FCEIL: case K_FTRUNC: e->flags |= EF_NUM; break;
  case K_ITE: e->flags |= b->flags & e->d->flags; break;
  case K_XOR: if (e->w == 64 && isC(b) && b->c == 1ULL << 63) e->flags |= a->flags; break;
  case K_AND: if (e->w == 64 && isC(b) && b->c == ~(1ULL << 63)) e->flags |= a->flags; break;
  default: break;
  }
  if (e->w == 64 && (e->flags & EF_NUM)) e->uhi = std::min(e->uhi, (e->flags & EF_FIN) ? (u64)0xffefffffffffffffULL : (u64)0xfffbffffffffffffULL);
}
static Expr *cons(EK k, int w, u64 c, Expr *a, Expr *b, Expr *d) {
  Key key{k, (u8)w, c, a, b, d};
  auto it = tab.find(key);
  if (it != tab.end()) return it->second;
  Expr *e = newExpr();
  e->k = k; e->w = w; e->c = c; e->a = a; e->b = b; e->d = d;
  computeRange(e);
  if (k != K_CONST && e->ulo == e->uhi) { Expr *r = eConst(e->ulo, w); tab[key] = r; return r; }
  tab[key] = e;
  return e;
}
Expr *eConst(u64 v, int w) { return cons(K_CONST, w, v & maskw(w), 0, 0, 0); }
Expr *eSym(u32 idx, int w) { return cons(K_SYM, w, idx, 0, 0, 0); }
Expr *eNot(Expr *a) {
  if (isC(a)) return eConst(!a->c, 1);
  if (a->k == K_XOR && isC(a->b)) return a->a;
  return cons(K_XOR, 1, 0, a, eConst(1, 1), 0);
}
static Expr *E1() { return eConst(1, 1); }
static Expr *E0() { return eConst(0, 1); }

static u64 cbin(EK k, u64 x, u64 y, int w, bool *ok) {
  u64 m = maskw(w); *ok = true;
  switch (k) {
  case K_ADD: return (x + y) & m; case K_SUB: return (x - y) & m; case K_MUL: return (x * y) & m;
  case K_UDIV: if (!y) return m; return x / y;
  case K_UREM: if (!y) return x; return x % y;
  case K_SDIV: { i64 a = sextw(x, w), b = sextw(y, w); if (!b) return a < 0 ? 1 : m; if (b == -1) return (u64)(0 - (u64)a) & m; return (u64)(a / b) & m; }
  case K_SREM: { i64 a = sextw(x, w), b = sextw(y, w); if (!b) return x; if (b == -1) return 0; return (u64)(a % b) & m; }
  case K_SHL: return y >= (u64)w ? 0 : (x << y) & m;
  case K_LSHR: return y >= (u64)w ? 0 : x >> y;
  case K_ASHR: { i64 a = sextw(x, w); return (u64)(a >> (y >= (u64)w ? 63 : y)) & m; }
  case K_AND: return x & y; case K_OR: return x | y; case K_XOR: return x ^ y;
  default: *ok = false; return 0;
  }
}

Expr *eBin(EK k, Expr *a, Expr *b) {
  int w = a->w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch in eBin %d: %d %d\n", k, a->w, b->w); abort(); }
  bool ok;
  if (isC(a) && isC(b)) { u64 r = cbin(k, a->c, b->c, w, &ok); return eConst(r, w); }
  bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR;
  if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  u64 m = maskw(w);
  // push into ite with const branches
  if (isC(b) && a->k == K_ITE && isC(a->b) && isC(a->d)) return eIte(a->a, eBin(k, a->b, b), eBin(k, a->d, b));
  if (isC(a) && b->k == K_ITE && isC(b->b) && isC(b->d)) return eIte(b->a, eBin(k, a, b->b), eBin(k, a, b->d));
  switch (k) {
  case K_ADD:
    if (isC(b)) {
      if (b->c == 0) return a;
      if (a->k == K_ADD && isC(a->b)) return eBin(K_ADD, a->a, eConst(a->b->c + b->c, w));
    }
    // (x - y) + y
    if (a->k == K_SUB && a->b == b) return a->a;
    if (b->k == K_SUB && b->b == a) return b->a;
    // pull constants out
    if (!isC(b)) {
      if (a->k == K_ADD && isC(a->b)) return eBin(K_ADD, eBin(K_ADD, a->a, b), a->b);
      if (b->k == K_ADD && isC(b->b)) return eBin(K_ADD, eBin(K_ADD, a, b->a), b->b);
    }
    break;
  case K_SUB:
    if (a == b) return eConst(0, w);
    if (isC(b)) return eBin(K_ADD, a, eConst(0 - b->c, w));
    if (a->k == K_ADD && a->a == b) return a->b;
    if (a->k == K_ADD && a->b == b) return a->a;
    if (a->k == K_ADD && isC(a->b)) return eBin(K_ADD, eBin(K_SUB, a->a, b), a->b);
    if (b->k == K_ADD && isC(b->b)) return eBin(K_ADD, eBin(K_SUB, a, b->a), eConst(0 - b->b->c, w));
    break;
  case K_MUL:
    if (isC(b)) { if (b->c == 0) return b; if (b->c == 1) return a; }
    break;
  case K_UDIV: if (isC(b) && b->c == 1) return a;
    if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return eBin(K_LSHR, a, eConst(__builtin_ctzll(b->c), w));
    break;
  case K_SDIV: if (isC(b) && b->c == 1) return a; 
    if (a->slo >= 0 && b->slo >= 0) return eBin(K_UDIV, a, b);
    break;
  case K_UREM: if (isC(b) && b->c == 1) return eConst(0, w);
    if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return eBin(K_AND, a, eConst(b->c - 1, w));
    if (isC(b) && a->uhi < b->c) return a;
    break;
  case K_SREM: if (a->slo >= 0 && b->slo >= 0) return eBin(K_UREM, a, b); break;
  case K_SHL:
    if (isC(b)) {
      if (b->c == 0) return a; if (b->c >= (u64)w) return eConst(0, w);
      return eConcat(eExtract(a, 0, w - b->c), eConst(0, b->c));
    }
    break;
  case K_LSHR:
    if (isC(b)) {
      if (b->c == 0) return a; if (b->c >= (u64)w) return eConst(0, w);
      return eZext(eExtract(a, b->c, w - b->c), w);
    }
    break;
  case K_ASHR:
    if (isC(b)) {
      if (b->c == 0) return a;
      u64 s = b->c >= (u64)w ? w - 1 : b->c;
      return eSext(eExtract(a, s, w - s), w);
    }
    break;
  case K_AND:
    if (a == b) return a;
    if (isC(b)) {
      if (b->c == 0) return b; if (b->c == m) return a;
      if (a->k == K_AND && isC(a->b)) return eBin(K_AND, a->a, eConst(a->b->c & b->c, w));
      int lo = __builtin_ctzll(b->c);
      u64 sh = b->c >> lo;
      if ((sh & (sh + 1)) == 0) { // contiguous mask
        int n = 64 - __builtin_clzll(sh);
        if (lo == 0 && a->uhi <= b->c) return a;
        if (!(a->flags & EF_NUM)) {
          Expr *x = eExtract(a, lo, n);
          if (lo) x = eConcat(x, eConst(0, lo));
          return eZext(x, w);
        }
      }
      if (a->k == K_ZEXT && a->a->w < w) return eZext(eBin(K_AND, a->a, eConst(b->c, a->a->w)), w);
      if (a->k == K_OR && isC(a->b)) return eBin(K_OR, eBin(K_AND, a->a, b), eConst(a->b->c & b->c, w));
    }
    if (w == 1) { if (a->k == K_XOR && isC(a->b) && a->a == b) return E0(); if (b->k == K_XOR && isC(b->b) && b->a == a) return E0(); }
    break;
  case K_OR:
    if (a == b) return a;
    if (isC(b)) { if (b->c == 0) return a; if (b->c == m) return b;
      if (a->k == K_OR && isC(a->b)) return eBin(K_OR, a->a, eConst(a->b->c | b->c, w)); }
    if (w == 1) { if (a->k == K_XOR && isC(a->b) && a->a == b) return E1(); if (b->k == K_XOR && isC(b->b) && b->a == a) return E1(); }
    break;
  case K_XOR:
    if (a == b) return eConst(0, w);
    if (w == 1 && isC(b)) return b->c ? eNot(a) : a;
    if (isC(b)) { if (b->c == 0) return a;
      if (a->k == K_XOR && isC(a->b)) return eBin(K_XOR, a->a, eConst(a->b->c ^ b->c, w)); }
    break;
  default: break;
  }
  return cons(k, w, 0, a, b, 0);
}

// double known to be integral with |x| <= 2^53 and not -0.0?  Gives the integer.
static bool intD(Expr *e, Expr **out) {
  if (e->k == K_SITOFP) { 
    if (e->a->slo >= -(1LL << 53) && e->a->shi <= (1LL << 53)) { *out = eSext(e->a, 64); return true; } }
  if (e->k == K_UITOFP) { if (e->a->uhi <= (1ULL << 53)) { *out = eZext(e->a, 64); return true; } }
  if (isC(e) && e->w == 64) { double d = u2d(e->c); if (d == floor(d) && fabs(d) <= 9007199254740992.0 && e->c != 1ULL << 63) { *out = eConst((u64)(i64)d, 64); return true; } }
  return false;
}
static const u64 NZ = 1ULL << 63;
static bool isNegZero(Expr *e) { return isC(e) && e->c == NZ; }

Expr *eCmp(EK k, Expr *a, Expr *b) {
  int w = a->w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch in eCmp %d: %d %d\n", k, a->w, b->w); abort(); }
  if (isC(a) && isC(b)) {
    bool r = false;
    switch (k) { case K_EQ: r = a->c == b->c; break; case K_ULT: r = a->c < b->c; break; case K_ULE: r = a->c <= b->c; break;
      case K_SLT: r = sextw(a->c, w) < sextw(b->c, w); break; case K_SLE: r = sextw(a->c, w) <= sextw(b->c, w); break; default: abort(); }
    return eConst(r, 1);
  }
  if (a == b) return eConst(k == K_EQ || k == K_ULE || k == K_SLE, 1);
  switch (k) {
  case K_EQ:
    if (a->uhi < b->ulo || b->uhi < a->ulo || a->shi < b->slo || b->shi < a->slo) return E0();
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
    if (w == 1) {
      if (isC(b)) return b->c ? a : eNot(a);
      return eNot(eBin(K_XOR, a, b));
    }
    if (isC(b)) {
      u64 c = b->c;
      if (w == 64 && (a->flags & EF_NUM)) { if ((c & QBIT50) == QBIT50) return E0(); if ((a->flags & EF_FIN) && (c & EXPM) == EXPM) return E0(); }
      switch (a->k) {
      case K_ADD: if (isC(a->b)) return eCmp(K_EQ, a->a, eConst(c - a->b->c, w)); break;
      case K_XOR: if (isC(a->b)) return eCmp(K_EQ, a->a, eConst(c ^ a->b->c, w)); break;
      case K_AND: if (isC(a->b)) {
          if (c & ~a->b->c) return E0();
          if (w == 64 && (a->a->flags & EF_NUM) && (c & QBIT50) == QBIT50) return E0();
          if (w == 64 && (a->a->flags & EF_FIN) && (c & EXPM) == EXPM) return E0();
        } break;
      case K_OR: if (isC(a->b)) {
          if (a->b->c & ~c) return E0();
          if (w == 64 && (a->a->flags & EF_NUM) && (c & ~a->b->c & QBIT50) == QBIT50) return E0();
        } break;
      case K_ZEXT: if (c > maskw(a->a->w)) return E0(); return eCmp(K_EQ, a->a, eConst(c, a->a->w));
      case K_SEXT: if (sextw(c, a->a->w) != sextw(c, w)) return E0(); return eCmp(K_EQ, a->a, eConst(c, a->a->w));
      case K_CONCAT: { Expr *h = eCmp(K_EQ, a->a, eConst(c >> a->b->w, a->a->w)); if (isC(h) && !h->c) return h;
          return eBin(K_AND, h, eCmp(K_EQ, a->b, eConst(c, a->b->w))); }
      case K_ITE: { Expr *x = eCmp(K_EQ, a->b, b), *y = eCmp(K_EQ, a->d, b); if (isC(x) || isC(y)) return eIte(a->a, x, y); break; }
      case K_SITOFP: case K_UITOFP: { Expr *x, *y; if (intD(a, &x)) { if (intD(b, &y)) return eCmp(K_EQ, x, y); return E0(); } break; }
      default: break;
      }
    } else {
      Expr *x, *y; if (w == 64 && (a->flags & EF_FIN) && (b->flags & EF_FIN) && intD(a, &x) && intD(b, &y)) return eCmp(K_EQ, x, y);
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return eCmp(K_EQ, a->a, b->a);
      if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return eCmp(K_EQ, a->a, b->a);
      if (a->k == K_ADD && b->k == K_ADD && isC(a->b) && a->b == b->b) return eCmp(K_EQ, a->a, b->a);
    }
    break;
  case K_ULT: if (a->uhi < b->ulo) return E1(); if (a->ulo >= b->uhi) return E0();
    if (a->k == K_ZEXT && isC(b) && b->c <= maskw(a->a->w)) return eCmp(K_ULT, a->a, eConst(b->c, a->a->w));
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return eCmp(K_ULT, a->a, b->a);
    if (isC(b) && b->c == 1) return eCmp(K_EQ, a, eConst(0, w));
    break;
  case K_ULE: return eNot(eCmp(K_ULT, b, a));
  case K_SLT: if (a->shi < b->slo) return E1(); if (a->slo >= b->shi) return E0();
    if (a->slo >= 0 && b->slo >= 0) return eCmp(K_ULT, a, b);
    if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return eCmp(K_SLT, a->a, b->a);
    break;
  case K_SLE: return eNot(eCmp(K_SLT, b, a));
  default: abort();
  }
  if (isC(b) && a->k == K_ITE) { Expr *x = eCmp(k, a->b, b), *y = eCmp(k, a->d, b); if (isC(x) || isC(y)) return eIte(a->a, x, y); }
  if (isC(a) && b->k == K_ITE) { Expr *x = eCmp(k, a, b->b), *y = eCmp(k, a, b->d); if (isC(x) || isC(y)) return eIte(b->a, x, y); }
  return cons(k, 1, 0, a, b, 0);
}
Expr *eIte(Expr *c, Expr *a, Expr *b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->k == K_XOR && isC(c->b)) return eIte(c->a, b, a);
  if (a->w == 1) {
    if (isC(a)) return a->c ? eBin(K_OR, c, b) : eBin(K_AND, eNot(c), b);
    if (isC(b)) return b->c ? eBin(K_OR, eNot(c), a) : eBin(K_AND, c, a);
  }
  if (a->k == K_ITE && a->a == c) a = a->b;
  if (b->k == K_ITE && b->a == c) b = b->d;
  if (a == b) return a;
  return cons(K_ITE, a->w, 0, c, a, b);
}
Expr *eConcat(Expr *hi, Expr *lo) {
  int w = hi->w + lo->w;
  if (w > 64) { fprintf(stderr, "concat too wide\n"); abort(); }
  if (isC(hi) && isC(lo)) return eConst((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && hi->c == 0) return eZext(lo, w);
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w) return eExtract(hi->a, lo->c, w);
  if (hi->k == K_ZEXT) return eZext(eConcat(hi->a, lo), w);
  if (lo->k == K_CONCAT) return eConcat(eConcat(hi, lo->a), lo->b);
  // concat(concat(x, ext(e,k)), ext(e,j)) adjacent
  if (hi->k == K_CONCAT && hi->b->k == K_EXTRACT && lo->k == K_EXTRACT && hi->b->a == lo->a && hi->b->c == lo->c + lo->w)
    return eConcat(hi->a, eExtract(lo->a, lo->c, hi->b->w + lo->w));
  if (hi->k == K_CONCAT && isC(hi->b) && isC(lo)) return eConcat(hi->a, eConst((hi->b->c << lo->w) | lo->c, hi->b->w + lo->w));
  return cons(K_CONCAT, w, 0, hi, lo, 0);
}
Expr *eExtract(Expr *a, int lo, int w) {
  if (lo == 0 && w == a->w) return a;
  if (lo + w > a->w) { fprintf(stderr, "bad extract\n"); abort(); }
  if (isC(a)) return eConst(a->c >> lo, w);
  switch (a->k) {
  case K_EXTRACT: return eExtract(a->a, a->c + lo, w);
  case K_ZEXT: if (lo >= a->a->w) return eConst(0, w); if (lo + w <= a->a->w) return eExtract(a->a, lo, w);
    return eZext(eExtract(a->a, lo, a->a->w - lo), w);
  case K_SEXT: if (lo + w <= a->a->w) return eExtract(a->a, lo, w);
    if (lo < a->a->w) return eSext(eExtract(a->a, lo, a->a->w - lo), w);
    break;
  case K_CONCAT: { int lw = a->b->w; if (lo >= lw) return eExtract(a->a, lo - lw, w); if (lo + w <= lw) return eExtract(a->b, lo, w);
    return eConcat(eExtract(a->a, 0, lo + w - lw), eExtract(a->b, lo, lw - lo)); }
  case K_AND: case K_OR: case K_XOR: if (isC(a->b) && a->w > 1) return eBin(a->k, eExtract(a->a, lo, w), eExtract(a->b, lo, w)); break;
  case K_ADD: case K_SUB: case K_MUL: if (lo == 0) return eBin(a->k, eExtract(a->a, 0, w), eExtract(a->b, 0, w)); break;
  case K_ITE: if (isC(a->b) || isC(a->d)) return eIte(a->a, eExtract(a->b, lo, w), eExtract(a->d, lo, w)); break;
  default: break;
  }
  if (a->uhi < (lo >= 64 ? 0 : 1ULL << lo)) return eConst(0, w);
  return cons(K_EXTRACT, w, lo, a, 0, 0);
}
Expr *eZext(Expr *a, int w) {
  if (a->w == w) return a;
  if (isC(a)) return eConst(a->c, w);
  if (a->k == K_ZEXT) return eZext(a->a, w);
  if (a->k == K_ITE && isC(a->b) && isC(a->d)) return eIte(a->a, eZext(a->b, w), eZext(a->d, w));
  // extract of low bits where the source already fits
  if (a->k == K_EXTRACT && a->c == 0 && a->a->uhi <= maskw(a->w)) { if (a->a->w == w) return a->a; if (a->a->w < w) return eZext(a->a, w); return eExtract(a->a, 0, w); }
  return cons(K_ZEXT, w, 0, a, 0, 0);
}
Expr *eSext(Expr *a, int w) {
  if (a->w == w) return a;
  if (isC(a)) return eConst((u64)sextw(a->c, a->w), w);
  if (a->slo >= 0) return eZext(a, w);
  if (a->k == K_SEXT) return eSext(a->a, w);
  if (a->k == K_ITE && isC(a->b) && isC(a->d)) return eIte(a->a, eSext(a->b, w), eSext(a->d, w));
  if (a->k == K_EXTRACT && a->c == 0) { i64 lo = -(1LL << (a->w - 1)), hi = (1LL << (a->w - 1)) - 1;
    if (a->a->slo >= lo && a->a->shi <= hi) { if (a->a->w == w) return a->a; if (a->a->w < w) return eSext(a->a, w); return eExtract(a->a, 0, w); } }
  // sext(x + c) with no overflow -> sext(x) + c
  if (a->k == K_ADD && isC(a->b)) { i64 lo, hi; if (!__builtin_add_overflow(a->a->slo, a->b->slo, &lo) && !__builtin_add_overflow(a->a->shi, a->b->slo, &hi) && lo == a->slo && hi == a->shi)
    return eBin(K_ADD, eSext(a->a, w), eSext(a->b, w)); }
  return cons(K_SEXT, w, 0, a, 0, 0);
}
Expr *eItoF(Expr *a, bool sgn) {
  if (isC(a)) return eConst(d2u(sgn ? (double)sextw(a->c, a->w) : (double)a->c), 64);
  if (sgn && a->slo >= 0) sgn = false;
  if (!sgn && a->k == K_ZEXT) a = a->a;
  if (!sgn) a = eZext(a, 64), sgn = a->slo >= 0; else a = eSext(a, 64);
  return cons(sgn ? K_SITOFP : K_UITOFP, 64, 0, a, 0, 0);
}
static bool bigI(Expr *e) { return e->slo < -(1LL << 53) || e->shi > (1LL << 53); }
// numeric leaf: integer double or -0.0
static bool numLeaf(Expr *e, Expr **iv) {
  if (isNegZero(e)) { *iv = eConst(0, 64); return true; }
  if (intD(e, iv)) return true;
  return false;
}
// ite tree of integral doubles, small depth
static bool itree(Expr *e, int d = 3) {
  Expr *t; if (numLeaf(e, &t)) return true;
  return d && e->k == K_ITE && itree(e->b, d - 1) && itree(e->d, d - 1);
}
Expr *eFNeg(Expr *a) {
  if (isC(a)) return eConst(a->c ^ NZ, 64);
  Expr *x;
  if (a->k == K_ITE && itree(a)) return eIte(a->a, eFNeg(a->b), eFNeg(a->d));
  if (intD(a, &x)) { Expr *n = eItoF(eBin(K_SUB, eConst(0, 64), x), true);
    if (x->ulo > 0) return n;
    return eIte(eCmp(K_EQ, x, eConst(0, 64)), eConst(NZ, 64), n); }
  return eBin(K_XOR, a, eConst(NZ, 64));
}
Expr *eFBin(EK k, Expr *a, Expr *b) {
  if (isC(a) && isC(b)) return eConst(fpop(k, a->c, b->c), 64);
  if (k != K_FDIV && k != K_FREM) {
    if (a->k == K_ITE && itree(a) && itree(b)) return eIte(a->a, eFBin(k, a->b, b), eFBin(k, a->d, b));
    if (b->k == K_ITE && itree(b) && itree(a)) return eIte(b->a, eFBin(k, a, b->b), eFBin(k, a, b->d));
    Expr *x, *y;
    if (isNegZero(a) && intD(b, &y)) {
      if (k == K_FADD) return b;
      if (k == K_FSUB) return eIte(eCmp(K_EQ, y, eConst(0, 64)), eConst(NZ, 64), eItoF(eBin(K_SUB, eConst(0, 64), y), true));
      if (k == K_FMUL) return eIte(eCmp(K_SLT, y, eConst(0, 64)), eConst(0, 64), eConst(NZ, 64));
    }
    if (isNegZero(b) && intD(a, &x)) {
      if (k == K_FADD || k == K_FSUB) return a;
      if (k == K_FMUL) return eIte(eCmp(K_SLT, x, eConst(0, 64)), eConst(0, 64), eConst(NZ, 64));
    }
    if (intD(a, &x) && intD(b, &y)) {
      if (k == K_FADD) { Expr *r = eBin(K_ADD, x, y); if (!bigI(r)) return eItoF(r, true); }
      else if (k == K_FSUB) { Expr *r = eBin(K_SUB, x, y); if (!bigI(r)) return eItoF(r, true); }
      else if (k == K_FMUL) {
        Expr *r = eBin(K_MUL, x, y);
        if (!bigI(r) && x->slo > -(1LL << 31) && y->slo > -(1LL << 31) && x->shi < (1LL << 31) && y->shi < (1LL << 31)) {
          Expr *R = eItoF(r, true);
          Expr *z = eConst(0, 64);
          Expr *nz = eBin(K_OR, eBin(K_AND, eCmp(K_EQ, x, z), eCmp(K_SLT, y, z)), eBin(K_AND, eCmp(K_EQ, y, z), eCmp(K_SLT, x, z)));
          return eIte(nz, eConst(NZ, 64), R);
        }
      }
    }
  }
  return cons(k, 64, 0, a, b, 0);
}
Expr *eFCmp(EK k, Expr *a, Expr *b) {
  if (isC(a) && isC(b)) return eConst(fpcmp(k, a->c, b->c), 1);
  if (k == K_FUNO && (a->flags & EF_FIN) && (b->flags & EF_FIN)) return E0();
  if (a->k == K_ITE && itree(a) && itree(b)) return eIte(a->a, eFCmp(k, a->b, b), eFCmp(k, a->d, b));
  if (b->k == K_ITE && itree(b) && itree(a)) return eIte(b->a, eFCmp(k, a, b->b), eFCmp(k, a, b->d));
  Expr *x, *y;
  if (numLeaf(a, &x) && numLeaf(b, &y)) {
    if (k == K_FEQ) return eCmp(K_EQ, x, y);
    if (k == K_FLT) return eCmp(K_SLT, x, y);
    if (k == K_FLE) return eCmp(K_SLE, x, y);
    return E0();
  }
  if (k == K_FEQ && a->id > b->id) std::swap(a, b);
  return cons(k, 1, 0, a, b, 0);
}
Expr *eFtoI(Expr *a, int w, bool sgn) {
  if (isC(a)) return eConst(ftoi(a->c, w, sgn), w);
  if (a->k == K_ITE && itree(a)) return eIte(a->a, eFtoI(a->b, w, sgn), eFtoI(a->d, w, sgn));
  Expr *x;
  if (intD(a, &x)) {
    i64 lo, hi;
    if (sgn) { lo = w == 64 ? INT64_MIN : -(1LL << (w - 1)); hi = w == 64 ? INT64_MAX : (1LL << (w - 1)) - 1; }
    else { lo = INT64_MIN; hi = INT64_MAX; if (w == 64) lo = 0; }
    if (x->slo >= lo && x->shi <= hi) return eExtract(x, 0, w);
    if (sgn && w == 32) { // out of range -> 0x80000000
      Expr *in = eBin(K_AND, eCmp(K_SLE, eConst((u64)lo, 64), x), eCmp(K_SLE, x, eConst((u64)hi, 64)));
      return eIte(in, eExtract(x, 0, w), eConst(0x80000000ULL, 32));
    }
  }
  return cons(sgn ? K_FPTOSI : K_FPTOUI, w, 0, a, 0, 0);
}
Expr *eFUn(EK k, Expr *a) {
  if (isC(a)) return eConst(fpop(k, a->c, 0), 64);
  Expr *t; if (intD(a, &t)) return a;
  return cons(k, 64, 0, a, 0, 0);
}

// ---------------------------------------------------------------- evaluation
static u64 genCtr = 0;
u64 newEvalGen() { return ++genCtr; }
u64 eEval(Expr *e, const Model &m, u64 gen) {
  if (e->k == K_CONST) return e->c;
  if (e->k == K_SYM) return e->c < m.v.size() ? m.v[e->c] & maskw(e->w) : 0;
  if (e->gen == gen) return e->ev;
  u64 r = 0; bool ok;
  switch (e->k) {
  case K_ADD: case K_SUB: case K_MUL: case K_UDIV: case K_SDIV: case K_UREM: case K_SREM:
  case K_SHL: case K_LSHR: case K_ASHR: case K_AND: case K_OR: case K_XOR:
    r = cbin(e->k, eEval(e->a, m, gen), eEval(e->b, m, gen), e->w, &ok); break;
  case K_EQ: r = eEval(e->a, m, gen) == eEval(e->b, m, gen); break;
  case K_ULT: r = eEval(e->a, m, gen) < eEval(e->b, m, gen); break;
  case K_ULE: r = eEval(e->a, m, gen) <= eEval(e->b, m, gen); break;
  case K_SLT: r = sextw(eEval(e->a, m, gen), e->a->w) < sextw(eEval(e->b, m, gen), e->a->w); break;
  case K_SLE: r = sextw(eEval(e->a, m, gen), e->a->w) <= sextw(eEval(e->b, m, gen), e->a->w); break;
  case K_ITE: r = eEval(e->a, m, gen) ? eEval(e->b, m, gen) : eEval(e->d, m, gen); break;
  case K_CONCAT: r = (eEval(e->a, m, gen) << e->b->w) | eEval(e->b, m, gen); break;
  case K_EXTRACT: r = (eEval(e->a, m, gen) >> e->c) & maskw(e->w); break;
  case K_ZEXT: r = eEval(e->a, m, gen); break;
  case K_SEXT: r = (u64)sextw(eEval(e->a, m, gen), e->a->w) & maskw(e->w); break;
  case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FREM: r = fpop(e->k, eEval(e->a, m, gen), eEval(e->b, m, gen)); break;
  case K_FFLOOR: case K_FCEIL: case K_FTRUNC: r = fpop(e->k, eEval(e->a, m, gen), 0); break;
  case K_FEQ: case K_FLT: case K_FLE: case K_FUNO: r = fpcmp(e->k, eEval(e->a, m, gen), eEval(e->b, m, gen)); break;
  case K_SITOFP: r = d2u((double)sextw(eEval(e->a, m, gen), e->a->w)); break;
  case K_UITOFP: r = d2u((double)eEval(e->a, m, gen)); break;
  case K_FPTOSI: r = ftoi(eEval(e->a, m, gen), e->w, true); break;
  case K_FPTOUI: r = ftoi(eEval(e->a, m, gen), e->w, false); break;
  default: abort();
  }
  e->gen = gen; e->ev = r;
  return r;
}

// ---------------------------------------------------------------- Z3
static Z3_context ctx; static Z3_solver slv;
static Z3_sort fpS; static Z3_ast RNE, RTZ, RTN, RTP;
unsigned gRlimit = 20000000;
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error %s\n", Z3_get_error_msg(c, e)); }
void solverInit() {
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, z3err);
  slv = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, slv);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), gRlimit);
  Z3_solver_set_params(ctx, slv, p);
  fpS = Z3_mk_fpa_sort_double(ctx);
  RNE = Z3_mk_fpa_rne(ctx); RTZ = Z3_mk_fpa_rtz(ctx); RTN = Z3_mk_fpa_rtn(ctx); RTP = Z3_mk_fpa_rtp(ctx);
}
static Z3_ast low(Expr *e);
static Z3_ast bvc(u64 v, int w) { return Z3_mk_unsigned_int64(ctx, v, Z3_mk_bv_sort(ctx, w)); }
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(ctx, b, bvc(1, 1), bvc(0, 1)); }
static Z3_ast fp(Expr *e) { return Z3_mk_fpa_to_fp_bv(ctx, low(e), fpS); }
static Z3_ast unfp(Z3_ast f) { return Z3_mk_ite(ctx, Z3_mk_fpa_is_nan(ctx, f), bvc(CNAN, 64), Z3_mk_fpa_to_ieee_bv(ctx, f)); }
static Z3_ast lowBool(Expr *e) {
  switch (e->k) {
  case K_EQ: return Z3_mk_eq(ctx, low(e->a), low(e->b));
  case K_ULT: return Z3_mk_bvult(ctx, low(e->a), low(e->b));
  case K_ULE: return Z3_mk_bvule(ctx, low(e->a), low(e->b));
  case K_SLT: return Z3_mk_bvslt(ctx, low(e->a), low(e->b));
  case K_SLE: return Z3_mk_bvsle(ctx, low(e->a), low(e->b));
  case K_FEQ: return Z3_mk_fpa_eq(ctx, fp(e->a), fp(e->b));
  case K_FLT: return Z3_mk_fpa_lt(ctx, fp(e->a), fp(e->b));
  case K_FLE: return Z3_mk_fpa_leq(ctx, fp(e->a), fp(e->b));
  case K_FUNO: { Z3_ast x[2] = { Z3_mk_fpa_is_nan(ctx, fp(e->a)), Z3_mk_fpa_is_nan(ctx, fp(e->b)) }; return Z3_mk_or(ctx, 2, x); }
  case K_XOR: if (e->w == 1 && isC(e->b) && e->b->c) return Z3_mk_not(ctx, lowBool(e->a)); break;
  case K_AND: if (e->w == 1) { Z3_ast x[2] = { lowBool(e->a), lowBool(e->b) }; return Z3_mk_and(ctx, 2, x); } break;
  case K_OR: if (e->w == 1) { Z3_ast x[2] = { lowBool(e->a), lowBool(e->b) }; return Z3_mk_or(ctx, 2, x); } break;
  case K_CONST: return e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
  default: break;
  }
  return Z3_mk_eq(ctx, low(e), bvc(1, 1));
}
static Z3_ast low(Expr *e) {
  if (e->z) return e->z;
  Z3_ast r = 0;
  switch (e->k) {
  case K_CONST: r = bvc(e->c, e->w); break;
  case K_SYM: { char nm[32]; snprintf(nm, sizeof nm, "s%llu", (unsigned long long)e->c); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bv_sort(ctx, e->w)); break; }
  case K_ADD: r = Z3_mk_bvadd(ctx, low(e->a), low(e->b)); break;
  case K_SUB: r = Z3_mk_bvsub(ctx, low(e->a), low(e->b)); break;
  case K_MUL: r = Z3_mk_bvmul(ctx, low(e->a), low(e->b)); break;
  case K_UDIV: r = Z3_mk_bvudiv(ctx, low(e->a), low(e->b)); break;
  case K_SDIV: r = Z3_mk_bvsdiv(ctx, low(e->a), low(e->b)); break;
  case K_UREM: r = Z3_mk_bvurem(ctx, low(e->a), low(e->b)); break;
  case K_SREM: r = Z3_mk_bvsrem(ctx, low(e->a), low(e->b)); break;
  case K_SHL: r = Z3_mk_bvshl(ctx, low(e->a), low(e->b)); break;
  case K_LSHR: r = Z3_mk_bvlshr(ctx, low(e->a), low(e->b)); break;
  case K_ASHR: r = Z3_mk_bvashr(ctx, low(e->a), low(e->b)); break;
  case K_AND: if (e->w == 1) r = b2bv(lowBool(e)); else r = Z3_mk_bvand(ctx, low(e->a), low(e->b)); break;
  case K_OR: if (e->w == 1) r = b2bv(lowBool(e)); else r = Z3_mk_bvor(ctx, low(e->a), low(e->b)); break;
  case K_XOR: if (e->w == 1 && isC(e->b)) r = b2bv(lowBool(e)); else r = Z3_mk_bvxor(ctx, low(e->a), low(e->b)); break;
  case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: case K_FEQ: case K_FLT: case K_FLE: case K_FUNO:
    r = b2bv(lowBool(e)); break;
  case K_ITE: r = Z3_mk_ite(ctx, lowBool(e->a), low(e->b), low(e->d)); break;
  case K_CONCAT: r = Z3_mk_concat(ctx, low(e->a), low(e->b)); break;
  case K_EXTRACT: r = Z3_mk_extract(ctx, e->c + e->w - 1, e->c, low(e->a)); break;
  case K_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, low(e->a)); break;
  case K_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, low(e->a)); break;
  case K_FADD: r = unfp(Z3_mk_fpa_add(ctx, RNE, fp(e->a), fp(e->b))); break;
  case K_FSUB: r = unfp(Z3_mk_fpa_sub(ctx, RNE, fp(e->a), fp(e->b))); break;
  case K_FMUL: r = unfp(Z3_mk_fpa_mul(ctx, RNE, fp(e->a), fp(e->b))); break;
  case K_FDIV: r = unfp(Z3_mk_fpa_div(ctx, RNE, fp(e->a), fp(e->b))); break;
  case K_FREM: { // C fmod via remainder: not supported symbolically, over-approximate with a fresh constant
      char nm[32]; snprintf(nm, sizeof nm, "frem%u", e->id); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bv_sort(ctx, 64)); break; }
  case K_FFLOOR: r = unfp(Z3_mk_fpa_round_to_integral(ctx, RTN, fp(e->a))); break;
  case K_FCEIL: r = unfp(Z3_mk_fpa_round_to_integral(ctx, RTP, fp(e->a))); break;
  case K_FTRUNC: r = unfp(Z3_mk_fpa_round_to_integral(ctx, RTZ, fp(e->a))); break;
  case K_SITOFP: case K_UITOFP: {
      // shrink the integer operand to the bits its range needs
      Expr *x = e->a; int need = 64;
      if (e->k == K_SITOFP) { for (need = 1; need < 64; need++) if (x->slo >= -(1LL << (need - 1)) && x->shi <= (1LL << (need - 1)) - 1) break; }
      else { for (need = 1; need < 64; need++) if (x->uhi <= maskw(need)) break; }
      if (need < 64) x = eExtract(x, 0, need);
      Z3_ast f = e->k == K_SITOFP ? Z3_mk_fpa_to_fp_signed(ctx, RNE, low(x), fpS) : Z3_mk_fpa_to_fp_unsigned(ctx, RNE, low(x), fpS);
      r = Z3_mk_fpa_to_ieee_bv(ctx, f); break; }
  case K_FPTOSI: {
      Z3_ast f = fp(e->a);
      int cw = e->w <= 32 ? 32 : 64;
      Z3_ast lo = Z3_mk_fpa_numeral_double(ctx, cw == 32 ? -2147483649.0 : -9223372036854775808.0, fpS);
      Z3_ast hi = Z3_mk_fpa_numeral_double(ctx, cw == 32 ? 2147483648.0 : 9223372036854775808.0, fpS);
      Z3_ast in2[2] = { cw == 32 ? Z3_mk_fpa_gt(ctx, f, lo) : Z3_mk_fpa_geq(ctx, f, lo), Z3_mk_fpa_lt(ctx, f, hi) };
      r = Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, in2), Z3_mk_fpa_to_sbv(ctx, RTZ, f, cw), bvc(cw == 32 ? 0x80000000ULL : 1ULL << 63, cw));
      if (e->w < cw) r = Z3_mk_extract(ctx, e->w - 1, 0, r);
      break; }
  case K_FPTOUI: {
      Z3_ast f = fp(e->a);
      if (e->w <= 32) {
        Z3_ast lo = Z3_mk_fpa_numeral_double(ctx, -9223372036854775808.0, fpS), hi = Z3_mk_fpa_numeral_double(ctx, 9223372036854775808.0, fpS);
        Z3_ast in2[2] = { Z3_mk_fpa_geq(ctx, f, lo), Z3_mk_fpa_lt(ctx, f, hi) };
        r = Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, in2), Z3_mk_fpa_to_sbv(ctx, RTZ, f, 64), bvc(0, 64));
        r = Z3_mk_extract(ctx, e->w - 1, 0, r);
      } else {
        Z3_ast lo = Z3_mk_fpa_numeral_double(ctx, -1.0, fpS), hi = Z3_mk_fpa_numeral_double(ctx, 18446744073709551616.0, fpS);
        Z3_ast in2[2] = { Z3_mk_fpa_gt(ctx, f, lo), Z3_mk_fpa_lt(ctx, f, hi) };
        r = Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, in2), Z3_mk_fpa_to_ubv(ctx, RTZ, f, 64), bvc(1ULL << 63, 64));
      }
      break; }
  default: fprintf(stderr, "low: kind %d\n", e->k); abort();
  }
  e->z = r;
  return r;
}
void solverAssert(Expr *e) { if (isC(e) && e->c) return; Z3_solver_assert(ctx, slv, lowBool(e)); }
static double nowS() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
SatRes solverCheck(Expr *extra, Model *out) {
  if (extra && isC(extra) && !extra->c) return SR_UNSAT;
  double t0 = nowS();
  Z3_solver_push(ctx, slv);
  if (extra) Z3_solver_assert(ctx, slv, lowBool(extra));
  Z3_lbool r = Z3_solver_check(ctx, slv);
  SatRes res = r == Z3_L_TRUE ? SR_SAT : r == Z3_L_FALSE ? SR_UNSAT : SR_UNK;
  if (r == Z3_L_TRUE && out) {
    Z3_model m = Z3_solver_get_model(ctx, slv); Z3_model_inc_ref(ctx, m);
    out->v.assign(gSyms.size(), 0);
    for (size_t i = 0; i < gSyms.size(); i++) {
      Expr *s = eSym(i, gSyms[i].w);
      Z3_ast v; if (Z3_model_eval(ctx, m, low(s), true, &v)) { uint64_t x = 0; Z3_get_numeral_uint64(ctx, v, &x); out->v[i] = x; }
    }
    Z3_model_dec_ref(ctx, m);
  }
  Z3_solver_pop(ctx, slv, 1);
  u64 us = (u64)((nowS() - t0) * 1e6);
  __sync_fetch_and_add(&SHM->queries, 1); __sync_fetch_and_add(&SHM->solverUs, us);
  if (res == SR_UNK) __sync_fetch_and_add(&SHM->unknowns, 1);
  if (us > SHM->maxQueryUs) SHM->maxQueryUs = us;
  static const char *slow = getenv("SYMEX_SLOW"); if (slow && us > (u64)atol(slow)) fprintf(stderr, "slow query %llu us: %s\n", (unsigned long long)us, extra ? eStr(extra, 8).c_str() : "");
  return res;
}
std::string eStr(Expr *e, int depth) {
  static const char *nm[] = { "const","sym","+","-","*","u/","s/","u%","s%","<<",">>","a>>","&","|","^","==","u<","u<=","s<","s<=","ite","cat","ext","zx","sx","f+","f-","f*","f/","f%","f==","f<","f<=","funo","si2f","ui2f","f2si","f2ui","floor","ceil","ftrunc" };
  char b[64];
  if (e->k == K_CONST) { snprintf(b, sizeof b, "0x%llx:%d", (unsigned long long)e->c, e->w); return b; }
  if (e->k == K_SYM) return e->c < gSyms.size() ? gSyms[e->c].name : "sym?";
  if (!depth) return "...";
  std::string s = std::string("(") + nm[e->k];
  if (e->k == K_EXTRACT) { snprintf(b, sizeof b, "[%d+%d]", (int)e->c, e->w); s += b; }
  for (Expr *x : { e->a, e->b, e->d }) if (x) s += " " + eStr(x, depth - 1);
  return s + ")";
}
