// Hash-consed bit-vector (and IEEE float) expression DAG with path-sensitive unsigned intervals.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <algorithm>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;

enum Op : u8 {
  O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_UREM, O_SDIV, O_SREM,
  O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR,
  O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE,
  O_UADDO, O_UMULO, O_SADDO, O_SSUBO, O_SMULO,
  // floats: operands/results are bit patterns of width 32/64
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FNEG, O_FEQ, O_FLT, O_FLE, O_FUNO,
  O_UITOFP, O_SITOFP, O_FPTOUI, O_FPTOSI, O_FPEXT, O_FPTRUNC, O_FSQRT, O_FFLOOR, O_FCEIL, O_FTRUNC, O_FROUND, O_FABS,
  O_NOPS
};

struct Expr {
  Op op; u8 w; u8 nk; u8 flags;
  u32 id;
  u32 aux;             // extract: low bit; var: var index
  u32 epoch;           // for evaluation
  u32 te;              // refinement count at the last interval update
  Expr *k[3];
  u128 c;              // const value
  u128 lo, hi;         // unsigned interval (path sensitive)
  u128 val;            // evaluation memo
  Expr *next;          // hash chain
  void *zi, *zb, *zr;  // z3 caches (int / bv / int as real)
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sxt(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  if ((v >> (w - 1)) & 1) return (i128)(v | ~maskw(w));
  return (i128)v;
}
static inline double asd(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
static inline float asf(u128 v) { u32 x = (u32)v; float d; memcpy(&d, &x, 4); return d; }
static inline u128 dbits(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static inline u128 fbits(float d) { u32 x; memcpy(&x, &d, 4); return x; }

u128 foldOp(Op op, unsigned w, const u128 *a, unsigned kw, u32 aux);
Expr *mkConst(u128 v, unsigned w);
Expr *mkVar(unsigned w, u32 idx);
Expr *mk(Op op, unsigned w, Expr *a, Expr *b = nullptr, Expr *c = nullptr, u32 aux = 0);
Expr *mkNot(Expr *a);
Expr *mkZext(Expr *a, unsigned w);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
u128 evalExpr(Expr *e, const std::vector<u64> &model);
void newEpoch();
void refine(Expr *cond, bool v);   // learn that width-1 cond has value v on this path
extern u64 g_nexprs;
std::string exprStr(Expr *e, int depth = 6);
