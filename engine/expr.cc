#include "expr.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cfenv>
#include <algorithm>
#include <unordered_map>

std::vector<VarInfo> g_vars;
std::vector<std::string> g_ufs;

// ---------------------------------------------------------------- arena
static std::vector<E> table;
static size_t tableCount = 0;
static uint32_t nextId = 1;
static char* arenaP = nullptr;
static size_t arenaLeft = 0;
static Expr* allocExpr() {
  size_t n = (sizeof(Expr) + 15) & ~size_t(15);
  if (arenaLeft < n) { arenaLeft = 1 << 20; arenaP = (char*)aligned_alloc(16, arenaLeft); }
  Expr* r = (Expr*)arenaP; arenaP += n; arenaLeft -= n; return r;
}
size_t exprCount() { return tableCount; }

static inline uint64_t mix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; return h; }

static void computeKnown(Expr* e);

static E intern(Kind k, unsigned w, uint32_t p, u128 c, E a = nullptr, E b = nullptr, E d = nullptr) {
  uint64_t h = mix(((uint64_t)k << 48) ^ ((uint64_t)w << 32) ^ p);
  h = mix(h ^ (uint64_t)c ^ ((uint64_t)(c >> 64) * 31));
  if (a) h = mix(h ^ a->id);
  if (b) h = mix(h * 3 ^ b->id);
  if (d) h = mix(h * 5 ^ d->id);
  if (table.empty()) table.resize(1 << 16, nullptr);
  size_t m = table.size() - 1, i = h & m;
  while (E x = table[i]) {
    if (x->hash == (uint32_t)h && x->k == k && x->w == w && x->p == p && x->c == c && x->op[0] == a && x->op[1] == b && x->op[2] == d) return x;
    i = (i + 1) & m;
  }
  Expr* e = allocExpr();
  memset((void*)e, 0, sizeof(Expr));
  e->k = k; e->w = w; e->p = p; e->c = c; e->op[0] = a; e->op[1] = b; e->op[2] = d;
  e->nops = a ? (b ? (d ? 3 : 2) : 1) : 0;
  e->id = nextId++; e->hash = (uint32_t)h;
  e->hasUF = k == UF; e->hasFP = k >= FADD && k <= UI2F;
  for (int j = 0; j < e->nops; j++) { e->hasUF |= e->op[j]->hasUF; e->hasFP |= e->op[j]->hasFP; }
  computeKnown(e);
  if (k != CONST && k != VAR && (e->kz | e->ko) == maskw(w) ) {
    // fully known: replace by the constant
    return mkConst(w, e->ko);
  }
  table[i] = e; tableCount++;
  if (tableCount * 2 > table.size()) {
    std::vector<E> old; old.swap(table); table.resize(old.size() * 2, nullptr);
    size_t mm = table.size() - 1;
    for (E x : old) if (x) {
      // full hash must be recomputed
      uint64_t hh = mix(((uint64_t)x->k << 48) ^ ((uint64_t)x->w << 32) ^ x->p);
      hh = mix(hh ^ (uint64_t)x->c ^ ((uint64_t)(x->c >> 64) * 31));
      if (x->op[0]) hh = mix(hh ^ x->op[0]->id);
      if (x->op[1]) hh = mix(hh * 3 ^ x->op[1]->id);
      if (x->op[2]) hh = mix(hh * 5 ^ x->op[2]->id);
      size_t j = hh & mm; while (table[j]) j = (j + 1) & mm; table[j] = x;
    }
  }
  return e;
}

static unsigned ctz128(u128 v) { // v != 0
  uint64_t lo = (uint64_t)v; if (lo) return __builtin_ctzll(lo); return 64 + __builtin_ctzll((uint64_t)(v >> 64));
}
static unsigned clog(u128 v) { // index of highest set bit, v != 0
  uint64_t hi = (uint64_t)(v >> 64); if (hi) return 127 - __builtin_clzll(hi); return 63 - __builtin_clzll((uint64_t)v);
}
static bool isPow2(u128 v) { return v && !(v & (v - 1)); }

static void computeKnown(Expr* e) {
  u128 m = maskw(e->w); u128 z = 0, o = 0;
  E a = e->op[0], b = e->op[1];
  switch (e->k) {
    case CONST: o = e->c; z = ~e->c & m; break;
    case AND: o = a->ko & b->ko; z = a->kz | b->kz; break;
    case OR: o = a->ko | b->ko; z = a->kz & b->kz; break;
    case XOR: o = (a->ko & b->kz) | (a->kz & b->ko); z = (a->kz & b->kz) | (a->ko & b->ko); break;
    case NOT: o = a->kz; z = a->ko; break;
    case CONCAT: o = (a->ko << b->w) | b->ko; z = (a->kz << b->w) | b->kz; break;
    case EXTRACT: o = (a->ko >> e->p) & m; z = (a->kz >> e->p) & m; break;
    case ZEXT: o = a->ko; z = a->kz | (m & ~maskw(a->w)); break;
    case SEXT: {
      u128 s = (u128)1 << (a->w - 1); o = a->ko; z = a->kz;
      if (a->ko & s) o |= m & ~maskw(a->w);
      if (a->kz & s) z |= m & ~maskw(a->w);
      break; }
    case ITE: o = e->op[1]->ko & e->op[2]->ko; z = e->op[1]->kz & e->op[2]->kz; break;
    case SHL: if (b->k == CONST && b->c < e->w) { o = (a->ko << (unsigned)b->c) & m; z = ((a->kz << (unsigned)b->c) | maskw((unsigned)b->c)) & m; }
              else { u128 nz = ~a->kz & m; if (nz) z = maskw(ctz128(nz)); else z = m; } break;
    case LSHR: if (b->k == CONST && b->c < e->w) { o = a->ko >> (unsigned)b->c; z = ((a->kz >> (unsigned)b->c) | ~(m >> (unsigned)b->c)) & m; }
               else { u128 mx = ~a->kz & m; z = mx ? m & ~maskw(clog(mx) + 1) : m; } break;
    case ASHR: if (b->k == CONST && b->c < e->w) {
        unsigned s = (unsigned)b->c; u128 sg = (u128)1 << (e->w - 1);
        o = a->ko >> s; z = (a->kz >> s) & m; u128 top = m & ~(m >> s);
        z &= ~top; o &= ~top;
        if (a->ko & sg) o |= top; if (a->kz & sg) z |= top; }
      break;
    case ADD: case SUB: {
      u128 ua = ~a->kz & m, ub = ~b->kz & m;
      unsigned ta = ua ? ctz128(ua) : e->w, tb = ub ? ctz128(ub) : e->w;
      z = maskw(std::min(std::min(ta, tb), (unsigned)e->w));
      if (e->k == ADD && e->w < 128) { u128 s = ua + ub; if (s <= m) { if (s) z |= m & ~maskw(clog(s) + 1); else z = m; } }
      break; }
    case MUL: {
      u128 ua = ~a->kz & m, ub = ~b->kz & m;
      if (!ua || !ub) { z = m; break; }
      unsigned t = ctz128(ua) + ctz128(ub); z = maskw(std::min(t, (unsigned)e->w));
      unsigned hi = clog(ua) + clog(ub) + 2; if (hi < e->w) z |= m & ~maskw(hi);
      break; }
    case UDIV: { u128 ua = ~a->kz & m; if (b->k == CONST && b->c) { u128 q = ua / b->c; z = q ? m & ~maskw(clog(q) + 1) : m; } break; }
    case UREM: { if (b->k == CONST && b->c) { u128 q = std::min(b->c - 1, (u128)(~a->kz & m)); z = q ? m & ~maskw(clog(q) + 1) : m; } break; }
    default: break;
  }
  e->kz = z & m; e->ko = o & m;
}

E mkConst(unsigned w, u128 v) { return intern(CONST, w, 0, v & maskw(w)); }
E mkVar(unsigned w, const std::string& name) {
  g_vars.push_back({name, w});
  return intern(VAR, w, (uint32_t)g_vars.size() - 1, 0);
}

// ---------------------------------------------------------------- concrete ops
u128 evalBin(Kind k, u128 a, u128 b, unsigned w) {
  u128 m = maskw(w);
  switch (k) {
    case ADD: return (a + b) & m;
    case SUB: return (a - b) & m;
    case MUL: return (a * b) & m;
    case UDIV: return b ? a / b : m;
    case UREM: return b ? a % b : a;
    case SDIV: { s128 x = sx128(a, w), y = sx128(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
    case SREM: { s128 x = sx128(a, w), y = sx128(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case AND: return a & b;
    case OR: return a | b;
    case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case ASHR: { s128 x = sx128(a, w); return (u128)(b >= w ? (x < 0 ? -1 : 0) : (x >> (unsigned)b)) & m; }
    case EQ: return a == b;
    case ULT: return a < b;
    case ULE: return a <= b;
    case SLT: return sx128(a, w) < sx128(b, w);
    case SLE: return sx128(a, w) <= sx128(b, w);
    default: abort();
  }
}
static inline float asF(u128 a) { uint32_t x = (uint32_t)a; float f; memcpy(&f, &x, 4); return f; }
static inline double asD(u128 a) { uint64_t x = (uint64_t)a; double f; memcpy(&f, &x, 8); return f; }
static inline u128 ofF(float f) { if (f != f) return 0x7fc00000u; uint32_t x; memcpy(&x, &f, 4); return x; }
static inline u128 ofD(double f) { if (f != f) return 0x7ff8000000000000ULL; uint64_t x; memcpy(&x, &f, 8); return x; }
template <class T> static T fb(Kind k, T a, T b) {
  switch (k) { case FADD: return a + b; case FSUB: return a - b; case FMUL: return a * b; case FDIV: return a / b; default: abort(); }
}
u128 evalFBin(Kind k, u128 a, u128 b, unsigned w) {
  if (w == 32) return ofF(fb<float>(k, asF(a), asF(b)));
  if (w == 64) return ofD(fb<double>(k, asD(a), asD(b)));
  fprintf(stderr, "unsupported fp width %u\n", w); exit(4);
}
u128 evalFSqrt(u128 a, unsigned w) { return w == 32 ? ofF(std::sqrt(asF(a))) : ofD(std::sqrt(asD(a))); }
u128 evalFMA(u128 a, u128 b, u128 c, unsigned w) { return w == 32 ? ofF(fmaf(asF(a), asF(b), asF(c))) : ofD(fma(asD(a), asD(b), asD(c))); }
template <class T> static T rnd(T x, unsigned mode) {
  switch (mode) { case 0: return std::nearbyint(x); case 1: return std::round(x); case 2: return std::ceil(x); case 3: return std::floor(x); default: return std::trunc(x); }
}
u128 evalFRound(u128 a, unsigned w, unsigned mode) { return w == 32 ? ofF(rnd(asF(a), mode)) : ofD(rnd(asD(a), mode)); }
u128 evalFCvt(u128 a, unsigned from, unsigned to) {
  if (from == 32 && to == 64) return ofD((double)asF(a));
  if (from == 64 && to == 32) return ofF((float)asD(a));
  fprintf(stderr, "unsupported fcvt\n"); exit(4);
}
u128 evalF2I(u128 a, unsigned fw, unsigned w, bool sgn) {
  double d = fw == 32 ? (double)asF(a) : asD(a);
  d = std::trunc(d);
  u128 bad = (u128)1 << (w - 1);
  if (d != d) return bad;
  if (sgn) {
    double lim = std::ldexp(1.0, w - 1);
    if (!(d >= -lim && d < lim)) return bad;
    if (w <= 64) return (u128)(s128)(int64_t)d & maskw(w);
    return (u128)(s128)d & maskw(w);
  }
  double lim = std::ldexp(1.0, w);
  if (!(d > -1.0 && d < lim)) return bad;
  return (u128)d & maskw(w);
}
u128 evalI2F(u128 a, unsigned iw, unsigned w, bool sgn) {
  if (w == 32) return sgn ? ofF((float)sx128(a, iw)) : ofF((float)a);
  return sgn ? ofD((double)sx128(a, iw)) : ofD((double)a);
}

// ---------------------------------------------------------------- builders
static inline bool isC(E e) { return e->k == CONST; }
static inline bool isC(E e, u128 v) { return e->k == CONST && e->c == v; }
static inline bool allOnes(E e) { return e->k == CONST && e->c == maskw(e->w); }

E mkNot(E a) {
  if (isC(a)) return mkConst(a->w, ~a->c);
  if (a->k == NOT) return a->op[0];
  if (a->w == 1) {
    if (a->k == ULT) return mkBin(ULE, a->op[1], a->op[0]);
    if (a->k == ULE) return mkBin(ULT, a->op[1], a->op[0]);
    if (a->k == SLT) return mkBin(SLE, a->op[1], a->op[0]);
    if (a->k == SLE) return mkBin(SLT, a->op[1], a->op[0]);
  }
  if (a->k == ITE && (isC(a->op[1]) || isC(a->op[2]))) return mkIte(a->op[0], mkNot(a->op[1]), mkNot(a->op[2]));
  return intern(NOT, a->w, 0, 0, a);
}

static u128 umin(E a) { return a->ko; }
static u128 umax(E a) { return ~a->kz & maskw(a->w); }

static bool isBoolComplement(E a, E b) { return (a->k == NOT && a->op[0] == b) || (b->k == NOT && b->op[0] == a); }

E mkBin(Kind k, E a, E b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch kind %d: %u vs %u\n", k, a->w, b->w); abort(); }
  if (isC(a) && isC(b)) return mkConst(k >= EQ && k <= SLE ? 1 : w, evalBin(k, a->c, b->c, w));
  // comparisons with an ITE of constants
  if (k >= EQ && k <= SLE) {
    if (isC(b) && a->k == ITE && isC(a->op[1]) && isC(a->op[2]))
      return mkIte(a->op[0], mkBin(k, a->op[1], b), mkBin(k, a->op[2], b));
    if (isC(a) && b->k == ITE && isC(b->op[1]) && isC(b->op[2]))
      return mkIte(b->op[0], mkBin(k, a, b->op[1]), mkBin(k, a, b->op[2]));
    if (w == 1 && k != EQ) {
      // boolean comparisons
      if (k == ULT) return mkAnd(mkNot(a), b);
      if (k == ULE) return mkOr(mkNot(a), b);
      if (k == SLT) return mkAnd(a, mkNot(b));  // 1 is -1
      if (k == SLE) return mkOr(a, mkNot(b));
    }
  }
  switch (k) {
    case ADD:
      if (isC(a)) std::swap(a, b);
      if (isC(b, 0)) return a;
      if (w == 1) return mkBin(XOR, a, b);
      if (isC(b) && a->k == ADD && isC(a->op[1])) return mkBin(ADD, a->op[0], mkConst(w, a->op[1]->c + b->c));
      if (isC(b) && a->k == ITE && isC(a->op[1]) && isC(a->op[2])) return mkIte(a->op[0], mkBin(ADD, a->op[1], b), mkBin(ADD, a->op[2], b));
      if (!isC(b)) {
        // (x + c) + y -> (x + y) + c
        if (a->k == ADD && isC(a->op[1])) return mkBin(ADD, mkBin(ADD, a->op[0], b), a->op[1]);
        if (b->k == ADD && isC(b->op[1])) return mkBin(ADD, mkBin(ADD, a, b->op[0]), b->op[1]);
        if (a->k == SUB && a->op[1] == b) return a->op[0];
        if (b->k == SUB && b->op[1] == a) return b->op[0];
      }
      if ((umax(a) & umax(b)) == 0) return mkBin(OR, a, b);
      if (!isC(b) && a->id > b->id) std::swap(a, b);
      break;
    case SUB:
      if (a == b) return mkConst(w, 0);
      if (isC(b)) return mkBin(ADD, a, mkConst(w, -b->c));
      if (w == 1) return mkBin(XOR, a, b);
      if (a->k == ADD) { if (a->op[0] == b) return a->op[1]; if (a->op[1] == b) return a->op[0]; }
      if (a->k == ADD && isC(a->op[1])) return mkBin(ADD, mkBin(SUB, a->op[0], b), a->op[1]);
      if (b->k == ADD && isC(b->op[1])) return mkBin(ADD, mkBin(SUB, a, b->op[0]), mkConst(w, -b->op[1]->c));
      break;
    case MUL:
      if (isC(a)) std::swap(a, b);
      if (isC(b)) {
        if (b->c == 0) return b;
        if (b->c == 1) return a;
        if (isPow2(b->c)) return mkBin(SHL, a, mkConst(w, clog(b->c)));
        if (a->k == MUL && isC(a->op[1])) return mkBin(MUL, a->op[0], mkConst(w, a->op[1]->c * b->c));
        if (a->k == ITE && isC(a->op[1]) && isC(a->op[2])) return mkIte(a->op[0], mkBin(MUL, a->op[1], b), mkBin(MUL, a->op[2], b));
      } else if (a->id > b->id) std::swap(a, b);
      if (w == 1) return mkAnd(a, b);
      break;
    case UDIV:
      if (isC(b, 1)) return a;
      if (isC(b) && isPow2(b->c)) return mkBin(LSHR, a, mkConst(w, clog(b->c)));
      if (isC(b) && b->c && umax(a) < b->c) return mkConst(w, 0);
      break;
    case UREM:
      if (isC(b, 1)) return mkConst(w, 0);
      if (isC(b) && isPow2(b->c)) return mkAnd(a, mkConst(w, b->c - 1));
      if (isC(b) && b->c && umax(a) < b->c) return a;
      break;
    case SDIV:
      if (isC(b, 1)) return a;
      if (isC(b) && !(b->ko >> (w - 1)) && (a->kz >> (w - 1) & 1)) return mkBin(UDIV, a, b);
      break;
    case SREM:
      if (isC(b, 1)) return mkConst(w, 0);
      if (isC(b) && !(b->ko >> (w - 1)) && (a->kz >> (w - 1) & 1)) return mkBin(UREM, a, b);
      break;
    case AND:
      if (isC(a)) std::swap(a, b);
      if (a == b) return a;
      if (isC(b)) {
        if (b->c == 0) return b;
        if ((b->c | a->kz) == maskw(w)) return a;
        if ((umax(a) & b->c) == 0) return mkConst(w, 0);
        if (a->k == AND && isC(a->op[1])) return mkAnd(a->op[0], mkConst(w, a->op[1]->c & b->c));
        if (a->k == ITE && (isC(a->op[1]) || isC(a->op[2]))) return mkIte(a->op[0], mkAnd(a->op[1], b), mkAnd(a->op[2], b));
        // mask of low bits -> zext(extract)
        if (isPow2(b->c + 1)) { unsigned n = clog(b->c) + 1; return mkZExt(mkExtract(a, 0, n), w); }
        if (a->k == ZEXT && b->c <= maskw(a->op[0]->w)) return mkZExt(mkAnd(a->op[0], mkConst(a->op[0]->w, b->c)), w);
        break;
      }
      if (isBoolComplement(a, b)) return mkConst(w, 0);
      if (w == 1) {
        if (a->k == AND && (a->op[0] == b || a->op[1] == b)) return a;
        if (b->k == AND && (b->op[0] == a || b->op[1] == a)) return b;
        if (a->k == OR && (a->op[0] == b || a->op[1] == b)) return b;
        if (b->k == OR && (b->op[0] == a || b->op[1] == a)) return a;
      }
      if (a->k == ZEXT && b->k == ZEXT && a->op[0]->w == b->op[0]->w) return mkZExt(mkAnd(a->op[0], b->op[0]), w);
      if (a->id > b->id) std::swap(a, b);
      break;
    case OR:
      if (isC(a)) std::swap(a, b);
      if (a == b) return a;
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c == maskw(w)) return b;
        if ((a->ko | b->c) == a->ko) return a;
        if (a->k == OR && isC(a->op[1])) return mkOr(a->op[0], mkConst(w, a->op[1]->c | b->c));
        if (a->k == ITE && isC(a->op[1]) && isC(a->op[2])) return mkIte(a->op[0], mkOr(a->op[1], b), mkOr(a->op[2], b));
        break;
      }
      if (isBoolComplement(a, b)) return mkConst(w, maskw(w));
      if (w == 1) {
        if (a->k == OR && (a->op[0] == b || a->op[1] == b)) return a;
        if (b->k == OR && (b->op[0] == a || b->op[1] == a)) return b;
        if (a->k == AND && (a->op[0] == b || a->op[1] == b)) return b;
        if (b->k == AND && (b->op[0] == a || b->op[1] == a)) return a;
      }
      if (a->k == ZEXT && b->k == ZEXT && a->op[0]->w == b->op[0]->w) return mkZExt(mkOr(a->op[0], b->op[0]), w);
      // (hi << n) | zext(lo) -> concat
      {
        E s = a, l = b;
        for (int t = 0; t < 2; t++, std::swap(s, l)) {
          u128 nz = umax(s), lm = umax(l);
          if (nz && lm && (nz & lm) == 0) {
            unsigned cut = ctz128(nz);
            if (cut > 0 && lm <= maskw(cut)) return mkConcat(mkExtract(s, cut, w - cut), mkExtract(l, 0, cut));
          }
        }
      }
      if (a->id > b->id) std::swap(a, b);
      break;
    case XOR:
      if (isC(a)) std::swap(a, b);
      if (a == b) return mkConst(w, 0);
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c == maskw(w)) return mkNot(a);
        if (a->k == XOR && isC(a->op[1])) return mkBin(XOR, a->op[0], mkConst(w, a->op[1]->c ^ b->c));
        if (a->k == ITE && isC(a->op[1]) && isC(a->op[2])) return mkIte(a->op[0], mkBin(XOR, a->op[1], b), mkBin(XOR, a->op[2], b));
        break;
      }
      if (a->k == NOT && b->k == NOT) { a = a->op[0]; b = b->op[0]; }
      else if (a->k == NOT) return mkNot(mkBin(XOR, a->op[0], b));
      else if (b->k == NOT) return mkNot(mkBin(XOR, a, b->op[0]));
      if (a->k == ZEXT && b->k == ZEXT && a->op[0]->w == b->op[0]->w) return mkZExt(mkBin(XOR, a->op[0], b->op[0]), w);
      if (a->id > b->id) std::swap(a, b);
      break;
    case SHL:
      if (isC(b, 0)) return a;
      if (isC(b)) {
        if (b->c >= w) return mkConst(w, 0);
        unsigned s = (unsigned)b->c;
        return mkConcat(mkExtract(a, 0, w - s), mkConst(s, 0));
      }
      if (isC(a, 0)) return a;
      break;
    case LSHR:
      if (isC(b, 0)) return a;
      if (isC(b)) {
        if (b->c >= w) return mkConst(w, 0);
        unsigned s = (unsigned)b->c;
        return mkZExt(mkExtract(a, s, w - s), w);
      }
      if (isC(a, 0)) return a;
      break;
    case ASHR:
      if (isC(b, 0)) return a;
      if (isC(b)) {
        unsigned s = b->c >= w ? w - 1 : (unsigned)b->c;
        return mkSExt(mkExtract(a, s, w - s), w);
      }
      if (isC(a, 0)) return a;
      break;
    case EQ:
      if (a == b) return mkBool(true);
      if (isC(a)) std::swap(a, b);
      if ((a->ko & b->kz) | (a->kz & b->ko)) return mkBool(false);
      if (w == 1) {
        if (isC(b)) return b->c ? a : mkNot(a);
        if (isBoolComplement(a, b)) return mkBool(false);
        return mkNot(mkBin(XOR, a, b));
      }
      if (isC(b)) {
        if (a->k == ZEXT) return b->c > maskw(a->op[0]->w) ? mkBool(false) : mkEq(a->op[0], mkConst(a->op[0]->w, b->c));
        if (a->k == SEXT) {
          u128 t = b->c & maskw(a->op[0]->w);
          if (((u128)sx128(t, a->op[0]->w) & maskw(w)) != b->c) return mkBool(false);
          return mkEq(a->op[0], mkConst(a->op[0]->w, t));
        }
        if (a->k == ADD && isC(a->op[1])) return mkEq(a->op[0], mkConst(w, b->c - a->op[1]->c));
        if (a->k == XOR && isC(a->op[1])) return mkEq(a->op[0], mkConst(w, b->c ^ a->op[1]->c));
        if (a->k == NOT) return mkEq(a->op[0], mkConst(w, ~b->c));
        if (a->k == CONCAT) {
          E h = a->op[0], l = a->op[1];
          return mkAnd(mkEq(h, mkConst(h->w, b->c >> l->w)), mkEq(l, mkConst(l->w, b->c)));
        }
        if (a->k == SUB && b->c == 0) return mkEq(a->op[0], a->op[1]);
        if (a->k == XOR && b->c == 0) return mkEq(a->op[0], a->op[1]);
        if (a->k == OR && b->c == 0) return mkAnd(mkEq(a->op[0], b), mkEq(a->op[1], b));
        if (a->k == ITE && (isC(a->op[1]) || isC(a->op[2]))) return mkIte(a->op[0], mkEq(a->op[1], b), mkEq(a->op[2], b));
        break;
      }
      if (a->k == ZEXT && b->k == ZEXT) {
        E x = a->op[0], y = b->op[0];
        if (x->w == y->w) return mkEq(x, y);
        if (x->w < y->w) return mkEq(mkZExt(x, y->w), y);
        return mkEq(x, mkZExt(y, x->w));
      }
      if (a->k == SEXT && b->k == SEXT && a->op[0]->w == b->op[0]->w) return mkEq(a->op[0], b->op[0]);
      if (a->k == CONCAT && b->k == CONCAT && a->op[0]->w == b->op[0]->w)
        return mkAnd(mkEq(a->op[0], b->op[0]), mkEq(a->op[1], b->op[1]));
      if (a->k == ADD && b->k == ADD && isC(a->op[1]) && a->op[1] == b->op[1]) return mkEq(a->op[0], b->op[0]);
      if (a->id > b->id) std::swap(a, b);
      break;
    case ULT:
      if (a == b) return mkBool(false);
      if (umax(a) < umin(b)) return mkBool(true);
      if (umin(a) >= umax(b)) return mkBool(false);
      if (isC(b, 1)) return mkEq(a, mkConst(w, 0));
      if (isC(a, 0)) return mkNot(mkEq(b, a));
      if (a->k == ZEXT && b->k == ZEXT && a->op[0]->w == b->op[0]->w) return mkBin(ULT, a->op[0], b->op[0]);
      if (a->k == ZEXT && isC(b)) return mkBin(ULT, a->op[0], mkConst(a->op[0]->w, b->c));  // b->c <= max by the range test
      if (b->k == ZEXT && isC(a)) return mkBin(ULT, mkConst(b->op[0]->w, a->c), b->op[0]);
      break;
    case ULE:
      if (a == b) return mkBool(true);
      if (umax(a) <= umin(b)) return mkBool(true);
      if (umin(a) > umax(b)) return mkBool(false);
      if (isC(b, 0)) return mkEq(a, b);
      if (isC(a, 1)) return mkNot(mkEq(b, mkConst(w, 0)));
      if (a->k == ZEXT && b->k == ZEXT && a->op[0]->w == b->op[0]->w) return mkBin(ULE, a->op[0], b->op[0]);
      if (a->k == ZEXT && isC(b)) return mkBin(ULE, a->op[0], mkConst(a->op[0]->w, b->c));
      if (b->k == ZEXT && isC(a)) return mkBin(ULE, mkConst(b->op[0]->w, a->c), b->op[0]);
      break;
    case SLT: case SLE: {
      if (a == b) return mkBool(k == SLE);
      u128 s = (u128)1 << (w - 1);
      bool an = a->ko & s, ap = a->kz & s, bn = b->ko & s, bp = b->kz & s;
      if (an && bp) return mkBool(true);
      if (ap && bn) return mkBool(false);
      if ((an && bn) || (ap && bp)) return mkBin(k == SLT ? ULT : ULE, a, b);
      if (a->k == SEXT && b->k == SEXT && a->op[0]->w == b->op[0]->w) return mkBin(k, a->op[0], b->op[0]);
      if (k == SLT && isC(b, 0)) return mkExtract(a, w - 1, 1);
      if (k == SLE && isC(a, 0)) return mkNot(mkExtract(b, w - 1, 1));
      if (k == SLT && allOnes(a)) return mkNot(mkExtract(b, w - 1, 1));
      if (k == SLE && allOnes(b)) return mkExtract(a, w - 1, 1);
      break;
    }
    default: break;
  }
  return intern(k, k >= EQ && k <= SLE ? 1 : w, 0, 0, a, b);
}

static E tryMerge(E a, E b) {  // concat(a,b) as a single simpler expression, or null
  if (isC(a) && isC(b)) return mkConst(a->w + b->w, (a->c << b->w) | b->c);
  if (a->k == EXTRACT && b->k == EXTRACT && a->op[0] == b->op[0] && a->p == b->p + b->w) return mkExtract(a->op[0], b->p, a->w + b->w);
  if (b->k == EXTRACT && a->k != EXTRACT && b->op[0] == a) return nullptr;
  if (a->k == ITE && b->k == ITE && a->op[0] == b->op[0])
    return mkIte(a->op[0], mkConcat(a->op[1], b->op[1]), mkConcat(a->op[2], b->op[2]));
  if (isC(a) && b->k == ITE && isC(b->op[1]) && isC(b->op[2]))
    return mkIte(b->op[0], mkConcat(a, b->op[1]), mkConcat(a, b->op[2]));
  if (isC(b) && a->k == ITE && isC(a->op[1]) && isC(a->op[2]))
    return mkIte(a->op[0], mkConcat(a->op[1], b), mkConcat(a->op[2], b));
  // high bits of a sign/zero extension re-joined
  if (a->k == SEXT && a->op[0]->w == 1 && b->k == SEXT && a->op[0] == b->op[0]) return mkSExt(b->op[0], a->w + b->w);
  return nullptr;
}

E mkConcat(E a, E b) {
  if (a->w + b->w > 128) { fprintf(stderr, "concat too wide: %u\n", a->w + b->w); exit(4); }
  if (E m = tryMerge(a, b)) return m;
  if (isC(a, 0)) return mkZExt(b, a->w + b->w);
  if (a->k == ZEXT) return mkZExt(mkConcat(a->op[0], b), a->w + b->w);
  if (b->k == CONCAT) { if (E m = tryMerge(a, b->op[0])) return mkConcat(m, b->op[1]); }
  if (a->k == CONCAT) {
    // right-nest
    return mkConcat(a->op[0], mkConcat(a->op[1], b));
  }
  return intern(CONCAT, a->w + b->w, 0, 0, a, b);
}

static std::unordered_map<uint64_t, E> extractMemo;
static E mkExtract0(E a, unsigned lo, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(w, a->c >> lo);
  switch (a->k) {
    case ITE: case AND: case OR: case XOR: case NOT: case ADD: case SUB: case MUL: case CONCAT: {
      uint64_t key = ((uint64_t)a->id << 16) | (lo << 8) | w;
      auto it = extractMemo.find(key);
      if (it != extractMemo.end()) return it->second;
      E r = mkExtract0(a, lo, w);
      extractMemo[key] = r;
      return r;
    }
    default: return mkExtract0(a, lo, w);
  }
}
static E mkExtract0(E a, unsigned lo, unsigned w) {
  switch (a->k) {
    case EXTRACT: return mkExtract(a->op[0], a->p + lo, w);
    case CONCAT: {
      E h = a->op[0], l = a->op[1];
      if (lo >= l->w) return mkExtract(h, lo - l->w, w);
      if (lo + w <= l->w) return mkExtract(l, lo, w);
      return mkConcat(mkExtract(h, 0, lo + w - l->w), mkExtract(l, lo, l->w - lo));
    }
    case ZEXT: {
      E x = a->op[0];
      if (lo >= x->w) return mkConst(w, 0);
      if (lo + w <= x->w) return mkExtract(x, lo, w);
      return mkZExt(mkExtract(x, lo, x->w - lo), w);
    }
    case SEXT: {
      E x = a->op[0];
      if (lo + w <= x->w) return mkExtract(x, lo, w);
      if (lo < x->w) return mkSExt(mkExtract(x, lo, x->w - lo), w);
      return mkSExt(mkExtract(x, x->w - 1, 1), w);
    }
    case ITE:
      return mkIte(a->op[0], mkExtract(a->op[1], lo, w), mkExtract(a->op[2], lo, w));
    case AND: case OR: case XOR:
      return mkBin(a->k, mkExtract(a->op[0], lo, w), mkExtract(a->op[1], lo, w));
    case NOT: return mkNot(mkExtract(a->op[0], lo, w));
    case ADD: case SUB: case MUL:
      if (lo == 0) return mkBin(a->k, mkExtract(a->op[0], 0, w), mkExtract(a->op[1], 0, w));
      break;
    default: break;
  }
  return intern(EXTRACT, w, lo, 0, a);
}
E mkZExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(w, a->c);
  if (a->k == ZEXT) return mkZExt(a->op[0], w);
  if (a->k == ITE && isC(a->op[1]) && isC(a->op[2])) return mkIte(a->op[0], mkZExt(a->op[1], w), mkZExt(a->op[2], w));
  return intern(ZEXT, w, 0, 0, a);
}
E mkSExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(w, (u128)sx128(a->c, a->w));
  if (a->k == SEXT) return mkSExt(a->op[0], w);
  if (a->k == ZEXT) return mkZExt(a->op[0], w);
  if (a->kz >> (a->w - 1) & 1) return mkZExt(a, w);
  if (a->w == 1) return mkIte(a, mkConst(w, maskw(w)), mkConst(w, 0));
  if (a->k == ITE && isC(a->op[1]) && isC(a->op[2])) return mkIte(a->op[0], mkSExt(a->op[1], w), mkSExt(a->op[2], w));
  return intern(SEXT, w, 0, 0, a);
}
E mkIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->k == NOT) return mkIte(c->op[0], b, a);
  if (a->w == 1) {
    if (isC(a)) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
    if (c == a) return mkOr(c, b);
    if (c == b) return mkAnd(c, a);
  }
  if (a->k == ITE && a->op[0] == c) a = a->op[1];
  if (b->k == ITE && b->op[0] == c) b = b->op[2];
  if (a == b) return a;
  if (a->k == ITE && a->op[2] == b) return mkIte(mkAnd(c, a->op[0]), a->op[1], b);
  if (b->k == ITE && b->op[1] == a) return mkIte(mkOr(c, b->op[0]), a, b->op[2]);
  return intern(ITE, a->w, 0, 0, c, a, b);
}

// ---- floating point
E mkFIsNaN(E a) {
  unsigned w = a->w; unsigned mb = w == 32 ? 23 : w == 64 ? 52 : 10;
  if (a->k == SI2F || a->k == UI2F) return mkBool(false);
  if (a->k == FCVT) return mkFIsNaN(a->op[0]);
  if (a->k == ITE) {
    static std::unordered_map<E, E> memo;
    auto it = memo.find(a); if (it != memo.end()) return it->second;
    E r = mkIte(a->op[0], mkFIsNaN(a->op[1]), mkFIsNaN(a->op[2]));
    memo[a] = r; return r;
  }
  u128 inf = (maskw(w - 1)) & ~maskw(mb);
  return mkBin(ULT, mkConst(w - 1, inf), mkExtract(a, 0, w - 1));
}
E mkFEq(E a, E b) {
  unsigned w = a->w;
  E nn = mkNot(mkOr(mkFIsNaN(a), mkFIsNaN(b)));
  E z = mkConst(w - 1, 0);
  E bothZero = mkAnd(mkEq(mkExtract(a, 0, w - 1), z), mkEq(mkExtract(b, 0, w - 1), z));
  return mkAnd(nn, mkOr(mkEq(a, b), bothZero));
}
static E fltCore(E a, E b, bool orEq) {
  unsigned w = a->w;
  E sa = mkExtract(a, w - 1, 1), sb = mkExtract(b, w - 1, 1);
  E ma = mkExtract(a, 0, w - 1), mb = mkExtract(b, 0, w - 1), z = mkConst(w - 1, 0);
  E bothZero = mkAnd(mkEq(ma, z), mkEq(mb, z));
  Kind k = orEq ? ULE : ULT;
  E r = mkIte(mkBin(XOR, sa, sb), sa, mkIte(sa, mkBin(k, mb, ma), mkBin(k, ma, mb)));
  return mkIte(bothZero, mkBool(orEq), r);
}
E mkFLt(E a, E b) { return mkAnd(mkNot(mkOr(mkFIsNaN(a), mkFIsNaN(b))), fltCore(a, b, false)); }
E mkFLe(E a, E b) { return mkAnd(mkNot(mkOr(mkFIsNaN(a), mkFIsNaN(b))), fltCore(a, b, true)); }
E mkFBin(Kind k, E a, E b) {
  if (isC(a) && isC(b)) return mkConst(a->w, evalFBin(k, a->c, b->c, a->w));
  if ((k == FADD || k == FMUL) && a->id > b->id) std::swap(a, b);  // commutative up to NaN payload
  return intern(k, a->w, 0, 0, a, b);
}
E mkFSqrt(E a) { return isC(a) ? mkConst(a->w, evalFSqrt(a->c, a->w)) : intern(FSQRT, a->w, 0, 0, a); }
E mkFMA(E a, E b, E c) { return isC(a) && isC(b) && isC(c) ? mkConst(a->w, evalFMA(a->c, b->c, c->c, a->w)) : intern(FMA, a->w, 0, 0, a, b, c); }
E mkFRound(E a, unsigned mode) { return isC(a) ? mkConst(a->w, evalFRound(a->c, a->w, mode)) : intern(FROUND, a->w, mode, 0, a); }
E mkFCvt(E a, unsigned w) {
  if (isC(a)) return mkConst(w, evalFCvt(a->c, a->w, w));
  if (a->k == ITE && isC(a->op[1]) && isC(a->op[2])) return mkIte(a->op[0], mkFCvt(a->op[1], w), mkFCvt(a->op[2], w));
  if (a->k == FCVT && a->w == 64 && w == 32 && a->op[0]->w == 32)  // float->double->float: identity up to NaN canonicalization
    return mkIte(mkFIsNaN(a->op[0]), mkConst(32, 0x7fc00000u), a->op[0]);
  return intern(FCVT, w, 0, 0, a);
}
E mkF2I(E a, unsigned w, bool s) { return isC(a) ? mkConst(w, evalF2I(a->c, a->w, w, s)) : intern(s ? F2SI : F2UI, w, 0, 0, a); }
E mkI2F(E a, unsigned w, bool s) {
  if (isC(a)) return mkConst(w, evalI2F(a->c, a->w, w, s));
  if (a->k == ITE && isC(a->op[1]) && isC(a->op[2])) return mkIte(a->op[0], mkI2F(a->op[1], w, s), mkI2F(a->op[2], w, s));
  return intern(s ? SI2F : UI2F, w, 0, 0, a);
}
E mkUF(unsigned f, unsigned w, E a, E b) { return intern(UF, w, f, 0, a, b); }

// ---------------------------------------------------------------- evaluation
static uint64_t curEpoch = 1;
void newEpoch() { curEpoch++; }
u128 evalExpr(E e, const Model& m) {
  if (e->k == CONST) return e->c;
  if (e->epoch == curEpoch) return e->val;
  u128 r;
  switch (e->k) {
    case VAR: r = m.get(e->p) & maskw(e->w); break;
    case NOT: r = ~evalExpr(e->op[0], m) & maskw(e->w); break;
    case CONCAT: r = (evalExpr(e->op[0], m) << e->op[1]->w) | evalExpr(e->op[1], m); break;
    case EXTRACT: r = (evalExpr(e->op[0], m) >> e->p) & maskw(e->w); break;
    case ZEXT: r = evalExpr(e->op[0], m); break;
    case SEXT: r = (u128)sx128(evalExpr(e->op[0], m), e->op[0]->w) & maskw(e->w); break;
    case ITE: r = evalExpr(e->op[0], m) ? evalExpr(e->op[1], m) : evalExpr(e->op[2], m); break;
    case FADD: case FSUB: case FMUL: case FDIV: r = evalFBin(e->k, evalExpr(e->op[0], m), evalExpr(e->op[1], m), e->w); break;
    case FSQRT: r = evalFSqrt(evalExpr(e->op[0], m), e->w); break;
    case FMA: r = evalFMA(evalExpr(e->op[0], m), evalExpr(e->op[1], m), evalExpr(e->op[2], m), e->w); break;
    case FROUND: r = evalFRound(evalExpr(e->op[0], m), e->w, e->p); break;
    case FCVT: r = evalFCvt(evalExpr(e->op[0], m), e->op[0]->w, e->w); break;
    case F2SI: r = evalF2I(evalExpr(e->op[0], m), e->op[0]->w, e->w, true); break;
    case F2UI: r = evalF2I(evalExpr(e->op[0], m), e->op[0]->w, e->w, false); break;
    case SI2F: r = evalI2F(evalExpr(e->op[0], m), e->op[0]->w, e->w, true); break;
    case UI2F: r = evalI2F(evalExpr(e->op[0], m), e->op[0]->w, e->w, false); break;
    case UF: r = 0; break;  // callers must check hasUF
    default: r = evalBin(e->k, evalExpr(e->op[0], m), evalExpr(e->op[1], m), e->op[0]->w);
  }
  e->epoch = curEpoch; e->val = r;
  return r;
}

static const std::vector<uint64_t> emptyVS;
const std::vector<uint64_t>& varsOf(E e) {
  if (e->vs) return *e->vs;
  if (e->k == CONST) { e->vs = &emptyVS; return emptyVS; }
  if (e->k == VAR) {
    auto* v = new std::vector<uint64_t>(e->p / 64 + 1, 0); (*v)[e->p / 64] |= 1ull << (e->p % 64); e->vs = v; return *v;
  }
  const std::vector<uint64_t>* best = &varsOf(e->op[0]); bool own = false;
  for (int i = 1; i < e->nops; i++) {
    const std::vector<uint64_t>& o = varsOf(e->op[i]);
    if (&o == best) continue;
    // superset checks to share storage
    auto sup = [](const std::vector<uint64_t>& x, const std::vector<uint64_t>& y) {
      for (size_t j = 0; j < y.size(); j++) if (y[j] & ~(j < x.size() ? x[j] : 0)) return false; return true; };
    if (sup(*best, o)) continue;
    if (sup(o, *best) && !own) { best = &o; continue; }
    auto* n = own ? const_cast<std::vector<uint64_t>*>(best) : new std::vector<uint64_t>(*best);
    if (n->size() < o.size()) n->resize(o.size(), 0);
    for (size_t j = 0; j < o.size(); j++) (*n)[j] |= o[j];
    best = n; own = true;
  }
  e->vs = best;
  return *best;
}

static const char* kn[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","not","shl","lshr","ashr","eq","ult","ule","slt","sle","concat","extract","zext","sext","ite","fadd","fsub","fmul","fdiv","fsqrt","fma","fround","fcvt","f2si","f2ui","si2f","ui2f","uf"};
std::string show(E e, int depth) {
  char b[64];
  if (e->k == CONST) { snprintf(b, 64, "0x%llx:%u", (unsigned long long)e->c, e->w); return b; }
  if (e->k == VAR) return g_vars[e->p].name;
  if (depth == 0) { snprintf(b, 64, "#%u", e->id); return b; }
  std::string s = "("; s += kn[e->k];
  if (e->k == EXTRACT) { snprintf(b, 64, "[%u+%u]", e->p, e->w); s += b; }
  for (int i = 0; i < e->nops; i++) s += " " + show(e->op[i], depth - 1);
  return s + ")";
}
