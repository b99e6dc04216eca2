// Hash-consed bit-vector / IEEE expression DAG used by the symbolic executor.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum Kind : uint8_t {
  CONST, VAR,
  ADD, SUB, MUL, UDIV, SDIV, UREM, SREM,
  AND, OR, XOR, NOT, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE,
  CONCAT, EXTRACT, ZEXT, SEXT, ITE,
  FADD, FSUB, FMUL, FDIV, FSQRT, FMA, FROUND, FCVT, F2SI, F2UI, SI2F, UI2F,
  UF
};

struct Expr {
  Kind k;
  uint8_t nops;
  uint16_t w;        // width in bits (1..128)
  uint32_t id;
  uint32_t p;        // EXTRACT: low bit; VAR: var id; FROUND: mode; UF: function id
  bool hasUF, hasFP;
  uint32_t hash;
  const Expr* op[3];
  u128 c;            // CONST value
  u128 kz, ko;       // known-zero / known-one masks
  mutable uint64_t epoch;
  mutable u128 val;
  mutable void* z;   // Z3_ast as bitvector (or Bool when w==1, see zb)
  mutable void* zb;  // Z3_ast as Bool
  mutable void* zf;  // Z3_ast as FP
  mutable const std::vector<uint64_t>* vs;  // variables occurring
};
typedef const Expr* E;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline s128 sx128(u128 v, unsigned w) {
  if (w >= 128) return (s128)v;
  unsigned s = 128 - w;
  return (s128)(v << s) >> s;
}

struct VarInfo { std::string name; unsigned w; };
extern std::vector<VarInfo> g_vars;
extern std::vector<std::string> g_ufs;

struct Model {
  std::vector<u128> v;
  u128 get(unsigned i) const { return i < v.size() ? v[i] : 0; }
  void set(unsigned i, u128 x) { if (i >= v.size()) v.resize(i + 1, 0); v[i] = x; }
};

E mkConst(unsigned w, u128 v);
E mkVar(unsigned w, const std::string& name);
E mkBin(Kind k, E a, E b);
E mkNot(E a);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E a, E b);
E mkFBin(Kind k, E a, E b);
E mkFSqrt(E a);
E mkFMA(E a, E b, E c);
E mkFRound(E a, unsigned mode);  // 0 rne 1 rna 2 up(ceil) 3 down(floor) 4 zero(trunc)
E mkFCvt(E a, unsigned w);
E mkF2I(E a, unsigned w, bool sgn);
E mkI2F(E a, unsigned w, bool sgn);
E mkUF(unsigned f, unsigned w, E a, E b);
E mkFIsNaN(E a);
E mkFEq(E a, E b);
E mkFLt(E a, E b);
E mkFLe(E a, E b);
static inline E mkBool(bool b) { return mkConst(1, b); }
static inline E mkEq(E a, E b) { return mkBin(EQ, a, b); }
static inline E mkAnd(E a, E b) { return mkBin(AND, a, b); }
static inline E mkOr(E a, E b) { return mkBin(OR, a, b); }

// Concrete arithmetic shared by folding, evaluation and the interpreter.
u128 evalBin(Kind k, u128 a, u128 b, unsigned w);
u128 evalFBin(Kind k, u128 a, u128 b, unsigned w);
u128 evalFSqrt(u128 a, unsigned w);
u128 evalFMA(u128 a, u128 b, u128 c, unsigned w);
u128 evalFRound(u128 a, unsigned w, unsigned mode);
u128 evalFCvt(u128 a, unsigned from, unsigned to);
u128 evalF2I(u128 a, unsigned fw, unsigned w, bool sgn);
u128 evalI2F(u128 a, unsigned iw, unsigned w, bool sgn);

void newEpoch();
u128 evalExpr(E e, const Model& m);  // call newEpoch() whenever the model changed
const std::vector<uint64_t>& varsOf(E e);
size_t exprCount();
std::string show(E e, int depth = 6);
