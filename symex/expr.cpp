#include "expr.h"

u64 g_nexprs = 0;
static Expr **table; static u64 tmask;
static char *chunk; static size_t chunkLeft;
static u32 g_epoch = 1;
static u32 nextId = 1;
static u32 g_ref = 1; // number of interval refinements so far

void newEpoch() { g_epoch++; }

static Expr *allocExpr() {
  if (chunkLeft < sizeof(Expr)) { chunkLeft = 1 << 20; chunk = (char *)aligned_alloc(16, chunkLeft); }
  Expr *e = (Expr *)chunk; chunk += (sizeof(Expr) + 15) & ~15; chunkLeft -= (sizeof(Expr) + 15) & ~15;
  memset((void *)e, 0, sizeof(Expr));
  return e;
}
static inline u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
static u64 hashKey(Op op, unsigned w, Expr *a, Expr *b, Expr *c, u128 cv, u32 aux) {
  u64 h = op * 131 + w;
  h = mix(h, a ? a->id : 0); h = mix(h, b ? b->id : 0); h = mix(h, c ? c->id : 0);
  h = mix(h, (u64)cv); h = mix(h, (u64)(cv >> 64)); h = mix(h, aux);
  return h ^ (h >> 29);
}
static void grow() {
  u64 n = table ? (tmask + 1) * 2 : 1 << 14;
  Expr **t = (Expr **)calloc(n, sizeof(Expr *));
  if (table)
    for (u64 i = 0; i <= tmask; i++)
      for (Expr *e = table[i]; e;) {
        Expr *nx = e->next;
        u64 h = hashKey(e->op, e->w, e->k[0], e->k[1], e->k[2], e->c, e->aux) & (n - 1);
        e->next = t[h]; t[h] = e; e = nx;
      }
  free(table); table = t; tmask = n - 1;
}
static void computeInterval(Expr *e);
static void tighten(Expr *e, int d);
static Expr *intern(Op op, unsigned w, Expr *a, Expr *b, Expr *c, u128 cv, u32 aux) {
  if (!table || g_nexprs > tmask) grow();
  u64 h = hashKey(op, w, a, b, c, cv, aux) & tmask;
  for (Expr *e = table[h]; e; e = e->next)
    if (e->op == op && e->w == w && e->k[0] == a && e->k[1] == b && e->k[2] == c && e->c == cv && e->aux == aux) { if (e->te != g_ref) tighten(e, 0); return e; }
  Expr *e = allocExpr();
  e->op = op; e->w = w; e->k[0] = a; e->k[1] = b; e->k[2] = c; e->c = cv; e->aux = aux; e->id = nextId++;
  e->nk = a ? (b ? (c ? 3 : 2) : 1) : 0;
  e->next = table[h]; table[h] = e; g_nexprs++;
  e->lo = 0; e->hi = maskw(w);
  computeInterval(e);
  return e;
}
// Intervals of operands may have been refined since a node was built.  Its cached integer translation may then
// become simpler; it is dropped, but translations of asserted conditions (width 1) are never rebuilt.
static void tighten(Expr *e, int d) {
  if (!e->nk || e->te == g_ref || e->w == 1) return;
  e->te = g_ref;
  bool kid = false;
  if (d > 0) for (int i = 0; i < e->nk; i++) { Expr *k = e->k[i]; u128 l = k->lo, h = k->hi; tighten(k, d - 1); if (k->lo != l || k->hi != h) kid = true; }
  u128 lo = e->lo, hi = e->hi;
  e->lo = 0; e->hi = maskw(e->w);
  computeInterval(e);
  if (e->lo < lo) e->lo = lo;
  if (e->hi > hi) e->hi = hi;
  if (e->lo > e->hi) { e->lo = lo; e->hi = hi; }
  if (kid || e->lo != lo || e->hi != hi) { e->zi = nullptr; e->zr = nullptr; }
}
Expr *mkConst(u128 v, unsigned w) { return intern(O_CONST, w, 0, 0, 0, v & maskw(w), 0); }
Expr *mkVar(unsigned w, u32 idx) { return intern(O_VAR, w, 0, 0, 0, 0, idx); }

static u128 fop(Op op, unsigned w, u128 a, u128 b) {
  if (w == 64) {
    double x = asd(a), y = asd(b), r;
    switch (op) { case O_FADD: r = x + y; break; case O_FSUB: r = x - y; break; case O_FMUL: r = x * y; break; case O_FDIV: r = x / y; break; default: r = fmod(x, y); }
    return dbits(r);
  }
  float x = asf(a), y = asf(b), r;
  switch (op) { case O_FADD: r = x + y; break; case O_FSUB: r = x - y; break; case O_FMUL: r = x * y; break; case O_FDIV: r = x / y; break; default: r = fmodf(x, y); }
  return fbits(r);
}
u128 foldOp(Op op, unsigned w, const u128 *k, unsigned kw, u32 aux) {
  u128 m = maskw(w), a = k[0], b = k[1];
  switch (op) {
  case O_ADD: return (a + b) & m;
  case O_SUB: return (a - b) & m;
  case O_MUL: return (a * b) & m;
  case O_UDIV: return b ? (a / b) & m : m;
  case O_UREM: return b ? (a % b) & m : a;
  case O_SDIV: { i128 x = sxt(a, w), y = sxt(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
  case O_SREM: { i128 x = sxt(a, w), y = sxt(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
  case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
  case O_LSHR: return b >= w ? 0 : (a >> (unsigned)b);
  case O_ASHR: { i128 x = sxt(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
  case O_AND: return a & b;
  case O_OR: return a | b;
  case O_XOR: return a ^ b;
  case O_ZEXT: return a;
  case O_SEXT: return (u128)sxt(a, kw) & m;
  case O_EXTRACT: return (a >> aux) & m;
  case O_CONCAT: return ((a << aux) | b) & m; // aux = width of low part
  case O_EQ: return a == b;
  case O_ULT: return a < b;
  case O_ULE: return a <= b;
  case O_SLT: return sxt(a, kw) < sxt(b, kw);
  case O_SLE: return sxt(a, kw) <= sxt(b, kw);
  case O_ITE: return a ? k[1] : k[2];
  case O_UADDO: return kw >= 128 ? (a + b) < a : (a + b) > maskw(kw);
  case O_UMULO: return a && kw <= 64 ? (a * b) > maskw(kw) : (a && (a * b) / a != b);
  case O_SADDO: { i128 r = sxt(a, kw) + sxt(b, kw); return r != sxt((u128)r & maskw(kw), kw); }
  case O_SSUBO: { i128 r = sxt(a, kw) - sxt(b, kw); return r != sxt((u128)r & maskw(kw), kw); }
  case O_SMULO: { i128 r = sxt(a, kw) * sxt(b, kw); return r != sxt((u128)r & maskw(kw), kw); }
  case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: return fop(op, w, a, b);
  case O_FNEG: return a ^ ((u128)1 << (w - 1));
  case O_FABS: return a & ~((u128)1 << (w - 1));
  case O_FEQ: return kw == 64 ? asd(a) == asd(b) : asf(a) == asf(b);
  case O_FLT: return kw == 64 ? asd(a) < asd(b) : asf(a) < asf(b);
  case O_FLE: return kw == 64 ? asd(a) <= asd(b) : asf(a) <= asf(b);
  case O_FUNO: return kw == 64 ? (std::isnan(asd(a)) || std::isnan(asd(b))) : (std::isnan(asf(a)) || std::isnan(asf(b)));
  case O_UITOFP: return w == 64 ? dbits((double)a) : fbits((float)a);
  case O_SITOFP: return w == 64 ? dbits((double)sxt(a, kw)) : fbits((float)sxt(a, kw));
  case O_FPTOUI: { double d = kw == 64 ? asd(a) : asf(a); if (!(d > -1.0)) return 0; if (d >= ldexp(1.0, w)) return m; return (u128)d & m; }
  case O_FPTOSI: { double d = kw == 64 ? asd(a) : asf(a); if (d != d) return 0; if (d >= ldexp(1.0, w - 1)) return m >> 1; if (d < -ldexp(1.0, w - 1)) return ((u128)1 << (w - 1)); return (u128)(i128)d & m; }
  case O_FPEXT: return dbits((double)asf(a));
  case O_FPTRUNC: return fbits((float)asd(a));
  case O_FSQRT: return w == 64 ? dbits(sqrt(asd(a))) : fbits(sqrtf(asf(a)));
  case O_FFLOOR: return w == 64 ? dbits(floor(asd(a))) : fbits(floorf(asf(a)));
  case O_FCEIL: return w == 64 ? dbits(ceil(asd(a))) : fbits(ceilf(asf(a)));
  case O_FTRUNC: return w == 64 ? dbits(trunc(asd(a))) : fbits(truncf(asf(a)));
  case O_FROUND: return w == 64 ? dbits(round(asd(a))) : fbits(roundf(asf(a)));
  default: abort();
  }
}

static void computeInterval(Expr *e) {
  u128 m = maskw(e->w);
  Expr *a = e->k[0], *b = e->k[1];
  switch (e->op) {
  case O_CONST: e->lo = e->hi = e->c; break;
  case O_ADD:
    if (e->w <= 64) {
      if (a->hi + b->hi <= m) { e->lo = a->lo + b->lo; e->hi = a->hi + b->hi; }
      else if (a->lo + b->lo > m) { e->lo = a->lo + b->lo - m - 1; e->hi = a->hi + b->hi - m - 1; }
    }
    break;
  case O_SUB:
    if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; }
    break;
  case O_MUL:
    if (e->w <= 64 && a->hi * b->hi <= m) { e->lo = a->lo * b->lo; e->hi = a->hi * b->hi; }
    break;
  case O_UDIV: if (b->lo > 0) { e->lo = a->lo / b->hi; e->hi = a->hi / b->lo; } break;
  case O_UREM: if (b->lo > 0) { if (a->hi < b->lo) { e->lo = a->lo; e->hi = a->hi; } else e->hi = std::min(a->hi, b->hi - 1); } break;
  case O_SHL: if (b->op == O_CONST && b->c < e->w && e->w <= 64 && (a->hi << (unsigned)b->c) <= m) { e->lo = a->lo << (unsigned)b->c; e->hi = a->hi << (unsigned)b->c; } break;
  case O_LSHR: if (b->op == O_CONST && b->c < e->w) { e->lo = a->lo >> (unsigned)b->c; e->hi = a->hi >> (unsigned)b->c; } else e->hi = a->hi; break;
  case O_AND: e->hi = std::min(a->hi, b->hi); break;
  case O_OR: case O_XOR: {
    u128 h = a->hi | b->hi; // round up to all-ones
    u128 r = 0; while (r < h) r = (r << 1) | 1;
    e->hi = r; if (e->op == O_OR) e->lo = std::max(a->lo, b->lo);
    break; }
  case O_ZEXT: e->lo = a->lo; e->hi = a->hi; break;
  case O_SEXT: if (!((a->hi >> (a->w - 1)) & 1)) { e->lo = a->lo; e->hi = a->hi; } break;
  case O_EXTRACT: if (e->aux == 0 && a->hi <= m) { e->lo = a->lo; e->hi = a->hi; }
    else if (e->aux + e->w >= a->w) { e->lo = a->lo >> e->aux; e->hi = a->hi >> e->aux; } break;
  case O_CONCAT: e->lo = (a->lo << e->aux) | b->lo; e->hi = (a->hi << e->aux) | b->hi; break;
  case O_ITE: {
    Expr *x = e->k[1], *y = e->k[2];
    e->lo = std::min(x->lo, y->lo); e->hi = std::max(x->hi, y->hi);
    if (a->op == O_ULT || a->op == O_ULE) {
      if (a->k[0] == x && a->k[1] == y) { e->hi = std::min(x->hi, y->hi); }
      else if (a->k[0] == y && a->k[1] == x) { e->lo = std::max(x->lo, y->lo); }
      // clamp against constants: ite(x < c, x, c') etc.
      else if (a->k[0] == x && a->k[1]->op == O_CONST) { u128 h = a->k[1]->c - (a->op == O_ULT ? 1 : 0); u128 xh = std::min(x->hi, h); if (!(a->op == O_ULT && a->k[1]->c == 0)) e->hi = std::max(xh, y->hi); }
    }
    break; }
  default: break;
  }
}

Expr *mkNot(Expr *a) {
  if (a->op == O_CONST) return mkConst(!a->c, 1);
  if (a->op == O_ULT) return mk(O_ULE, 1, a->k[1], a->k[0]);
  if (a->op == O_ULE) return mk(O_ULT, 1, a->k[1], a->k[0]);
  if (a->op == O_SLT) return mk(O_SLE, 1, a->k[1], a->k[0]);
  if (a->op == O_SLE) return mk(O_SLT, 1, a->k[1], a->k[0]);
  if (a->op == O_XOR && a->w == 1 && a->k[1]->op == O_CONST && a->k[1]->c == 1) return a->k[0];
  return intern(O_XOR, 1, a, mkConst(1, 1), 0, 0, 0);
}
Expr *mkZext(Expr *a, unsigned w) { if (a->w == w) return a; return mk(O_ZEXT, w, a); }
Expr *mkExtract(Expr *a, unsigned lo, unsigned w) { if (lo == 0 && a->w == w) return a; return mk(O_EXTRACT, w, a, 0, 0, lo); }
Expr *mkIte(Expr *c, Expr *a, Expr *b) { return mk(O_ITE, a->w, c, a, b); }

static inline bool isC(Expr *e) { return e->op == O_CONST; }
static bool constIte(Expr *e) { return e->op == O_ITE && isC(e->k[1]) && isC(e->k[2]); }

Expr *mk(Op op, unsigned w, Expr *a, Expr *b, Expr *c, u32 aux) {
  // full constant folding
  if (isC(a) && (!b || isC(b)) && (!c || isC(c))) {
    u128 k[3] = {a->c, b ? b->c : 0, c ? c->c : 0};
    return mkConst(foldOp(op, w, k, a->w, aux), w);
  }
  if (a->te != g_ref) tighten(a, 4);
  if (b && b->te != g_ref) tighten(b, 4);
  if (c && c->te != g_ref) tighten(c, 4);
  // values whose interval is a singleton on this path
  if (a->lo == a->hi && !isC(a)) return mk(op, w, mkConst(a->lo, a->w), b, c, aux);
  if (b && b->lo == b->hi && !isC(b)) return mk(op, w, a, mkConst(b->lo, b->w), c, aux);
  if (c && c->lo == c->hi && !isC(c)) return mk(op, w, a, b, mkConst(c->lo, c->w), aux);
  u128 m = maskw(w);
  switch (op) {
  case O_ADD:
    if (isC(a)) std::swap(a, b);
    if (isC(b) && b->c == 0) return a;
    if (isC(b) && a->op == O_ADD && isC(a->k[1])) return mk(O_ADD, w, a->k[0], mkConst(a->k[1]->c + b->c, w));
    if (w == 1) return mk(O_XOR, 1, a, b);
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    // (zext a) + (zext b) patterns are kept
    break;
  case O_SUB:
    if (a == b) return mkConst(0, w);
    if (isC(b)) return mk(O_ADD, w, a, mkConst((u128)0 - b->c, w));
    if (w == 1) return mk(O_XOR, 1, a, b);
    if (a->op == O_ADD) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; }
    break;
  case O_MUL:
    if (isC(a)) std::swap(a, b);
    if (isC(b)) { if (b->c == 0) return b; if (b->c == 1) return a;
      for (unsigned s = 1; s < w && s < 64; s++) if (b->c == ((u128)1 << s)) return mk(O_SHL, w, a, mkConst(s, w)); }
    else if (a->id > b->id) std::swap(a, b);
    if (w == 1) return mk(O_AND, 1, a, b);
    break;
  case O_UDIV:
    if (isC(b)) { if (b->c == 1) return a;
      for (unsigned s = 1; s < w && s < 127; s++) if (b->c == ((u128)1 << s)) return mk(O_LSHR, w, a, mkConst(s, w));
      if (b->c && a->lo / b->c == a->hi / b->c) return mkConst(a->lo / b->c, w); }
    break;
  case O_UREM:
    if (isC(b)) { if (b->c == 1) return mkConst(0, w); if (b->c && a->hi < b->c) return a;
      if (b->c && a->lo / b->c == a->hi / b->c) return mk(O_SUB, w, a, mkConst(a->lo / b->c * b->c, w));
      for (unsigned s = 1; s < w && s < 127; s++) if (b->c == ((u128)1 << s)) return mk(O_AND, w, a, mkConst(b->c - 1, w)); }
    break;
  case O_SDIV: case O_SREM:
    // both non-negative: unsigned
    if (!((a->hi >> (w - 1)) & 1) && !((b->hi >> (w - 1)) & 1)) return mk(op == O_SDIV ? O_UDIV : O_UREM, w, a, b);
    break;
  case O_SHL: case O_LSHR: case O_ASHR:
    if (isC(b) && b->c == 0) return a;
    if (isC(b) && b->c >= w && op != O_ASHR) return mkConst(0, w);
    if (op == O_ASHR && !((a->hi >> (w - 1)) & 1)) return mk(O_LSHR, w, a, b);
    if (op == O_LSHR && isC(b) && (a->hi >> (unsigned)b->c) == 0) return mkConst(0, w);
    if (isC(a) && a->c == 0) return a;
    if (op == O_LSHR && isC(b) && a->op == O_ZEXT && b->c < a->k[0]->w) return mkZext(mk(O_LSHR, a->k[0]->w, a->k[0], mkConst(b->c, a->k[0]->w)), w);
    if (op == O_LSHR && isC(b) && a->op == O_CONCAT && b->c == a->aux) return mkZext(a->k[0], w);
    if (op == O_LSHR && isC(b) && a->op == O_SHL && isC(a->k[1]) && a->k[1]->c == b->c && (a->k[0]->hi << (unsigned)b->c) <= m) return a->k[0];
    if (op == O_SHL && isC(b) && a->op == O_ZEXT && a->k[0]->w + b->c == w) return mk(O_CONCAT, w, a->k[0], mkConst(0, (unsigned)b->c), 0, (u32)b->c);
    break;
  case O_AND:
    if (isC(a)) std::swap(a, b);
    if (a == b) return a;
    if (isC(b)) {
      if (b->c == 0) return b; if (b->c == m) return a;
      u128 r = b->c; if ((r & (r + 1)) == 0) { // low mask
        if (a->hi <= r) return a;
        unsigned k = 0; while (((u128)1 << k) <= r) k++;
        return mkZext(mkExtract(a, 0, k), w);
      }
      if (a->op == O_ZEXT && a->k[0]->w < w) return mkZext(mk(O_AND, a->k[0]->w, a->k[0], mkConst(b->c, a->k[0]->w)), w);
      if (a->op == O_AND && isC(a->k[1])) return mk(O_AND, w, a->k[0], mkConst(a->k[1]->c & b->c, w));
    } else if (a->id > b->id) std::swap(a, b);
    if (w == 1 && (a == mkNot(b) )) return mkConst(0, 1);
    break;
  case O_OR:
    if (isC(a)) std::swap(a, b);
    if (a == b) return a;
    if (isC(b) && b->c == 0) return a;
    if (isC(b) && b->c == m) return b;
    if (isC(b) && a->op == O_ZEXT && a->k[0]->w > 1 && (b->c & maskw(a->k[0]->w)) == 0) { unsigned s = a->k[0]->w; return mk(O_CONCAT, w, mkConst(b->c >> s, w - s), a->k[0], 0, s); }
    {
      // disjoint parts: concat  (zext lo) | (hi shl k)
      for (int t = 0; t < 2; t++) {
        Expr *x = t ? a : b, *y = t ? b : a;
        if (x->op == O_CONCAT && isC(x->k[1]) && x->k[1]->c == 0 && y->hi < ((u128)1 << x->aux)) return mk(O_CONCAT, w, x->k[0], mkExtract(y, 0, x->aux), 0, x->aux);
        if (x->op == O_SHL && isC(x->k[1]) && y->hi < ((u128)1 << (unsigned)x->k[1]->c)) { unsigned s = (unsigned)x->k[1]->c; return mk(O_CONCAT, w, mkExtract(x->k[0], 0, w - s), mkExtract(y, 0, s), 0, s); }
      }
      if (!isC(b) && a->id > b->id) std::swap(a, b);
    }
    if (w == 1 && !isC(b) && (a == mkNot(b))) return mkConst(1, 1);
    break;
  case O_XOR:
    if (isC(a)) std::swap(a, b);
    if (a == b) return mkConst(0, w);
    if (isC(b)) {
      if (b->c == 0) return a;
      if (w == 1) return mkNot(a);
      if (a->op == O_XOR && isC(a->k[1])) return mk(O_XOR, w, a->k[0], mkConst(a->k[1]->c ^ b->c, w));
      // ~x = -1 - x
      if (b->c == m) return mk(O_SUB, w, b, a);
    } else if (a->id > b->id) std::swap(a, b);
    break;
  case O_ZEXT:
    if (a->op == O_ZEXT) return mk(O_ZEXT, w, a->k[0]);
    if (constIte(a)) return mkIte(a->k[0], mkConst(a->k[1]->c, w), mkConst(a->k[2]->c, w));
    // zext(trunc x) where x fits
    if (a->op == O_EXTRACT && a->aux == 0 && a->k[0]->hi <= maskw(a->w)) {
      Expr *x = a->k[0]; if (x->w == w) return x; if (x->w < w) return mkZext(x, w); return mkExtract(x, 0, w);
    }
    break;
  case O_SEXT:
    if (a->w == w) return a;
    if (!((a->hi >> (a->w - 1)) & 1)) return mkZext(a, w);
    if (a->w == 1) return mkIte(a, mkConst(m, w), mkConst(0, w));
    if (constIte(a)) return mkIte(a->k[0], mk(O_SEXT, w, a->k[1]), mk(O_SEXT, w, a->k[2]));
    break;
  case O_EXTRACT:
    if (aux == 0 && a->w == w) return a;
    if (a->op == O_EXTRACT) return mkExtract(a->k[0], a->aux + aux, w);
    if (a->op == O_ZEXT || a->op == O_SEXT) {
      Expr *x = a->k[0];
      if (aux + w <= x->w) return mkExtract(x, aux, w);
      if (a->op == O_ZEXT) { if (aux >= x->w) return mkConst(0, w); if (aux == 0) return mkZext(x, w); return mkZext(mkExtract(x, aux, x->w - aux), w); }
    }
    if (a->op == O_CONCAT) {
      if (aux >= a->aux) return mkExtract(a->k[0], aux - a->aux, w);
      if (aux + w <= a->aux) return mkExtract(a->k[1], aux, w);
    }
    if (a->op == O_SHL && isC(a->k[1])) {
      unsigned s = (unsigned)a->k[1]->c;
      if (aux >= s) return mkExtract(a->k[0], aux - s, w);
      if (aux + w <= s) return mkConst(0, w);
    }
    if (a->op == O_LSHR && isC(a->k[1])) {
      unsigned s = (unsigned)a->k[1]->c;
      if (aux + s >= a->w) return mkConst(0, w);
      if (aux + s + w <= a->w) return mkExtract(a->k[0], aux + s, w);
      return mkZext(mkExtract(a->k[0], aux + s, a->w - aux - s), w);
    }
    if ((a->op == O_OR || a->op == O_AND || a->op == O_XOR) && (w == 1 || (w <= 8 && isC(a->k[1])))) return mk(a->op, w, mkExtract(a->k[0], aux, w), mkExtract(a->k[1], aux, w));
    if (constIte(a)) return mkIte(a->k[0], mkExtract(a->k[1], aux, w), mkExtract(a->k[2], aux, w));
    if (a->op == O_ITE && aux == 0 && w >= 8) return mkIte(a->k[0], mkExtract(a->k[1], 0, w), mkExtract(a->k[2], 0, w));
    if (aux > 0 && (a->hi >> aux) == 0) return mkConst(0, w);
    if (w == 1 && aux == 0 && a->hi <= 1) return mk(O_EQ, 1, a, mkConst(1, a->w));
    if (aux == 0 && a->op == O_ADD && a->k[0]->op == O_ZEXT && a->k[0]->k[0]->w == w && isC(a->k[1])) return mk(O_ADD, w, a->k[0]->k[0], mkExtract(a->k[1], 0, w));
    if (aux == 0 && (a->op == O_ADD || a->op == O_SUB) && a->k[0]->op == O_ZEXT && a->k[0]->k[0]->w == w && a->k[1]->op == O_ZEXT && a->k[1]->k[0]->w == w) return mk(a->op, w, a->k[0]->k[0], a->k[1]->k[0]);
    break;
  case O_CONCAT: // aux = low width
    if (isC(a) && a->c == 0) return mkZext(b, w);
    if (a->op == O_EXTRACT && b->op == O_EXTRACT && a->k[0] == b->k[0] && a->aux == b->aux + b->w) return mkExtract(a->k[0], b->aux, w);
    break;
  case O_EQ: {
    if (a == b) return mkConst(1, 1);
    if (a->hi < b->lo || b->hi < a->lo) return mkConst(0, 1);
    if (isC(a)) std::swap(a, b);
    if (a->w == 1) { if (isC(b)) return b->c ? a : mkNot(a); return mkNot(mk(O_XOR, 1, a, b)); }
    if (isC(b)) {
      if (a->op == O_ZEXT) { if (b->c > maskw(a->k[0]->w)) return mkConst(0, 1); return mk(O_EQ, 1, a->k[0], mkConst(b->c, a->k[0]->w)); }
      if (a->op == O_SEXT) { u128 t = b->c & maskw(a->k[0]->w); if (((u128)sxt(t, a->k[0]->w) & maskw(a->w)) != b->c) return mkConst(0, 1); return mk(O_EQ, 1, a->k[0], mkConst(t, a->k[0]->w)); }
      if (a->op == O_ADD && isC(a->k[1])) return mk(O_EQ, 1, a->k[0], mkConst(b->c - a->k[1]->c, a->w));
      if (a->op == O_XOR && isC(a->k[1])) return mk(O_EQ, 1, a->k[0], mkConst(b->c ^ a->k[1]->c, a->w));
      if (a->op == O_SUB && b->c == 0) return mk(O_EQ, 1, a->k[0], a->k[1]);
      if (a->op == O_XOR && b->c == 0) return mk(O_EQ, 1, a->k[0], a->k[1]);
      if (a->op == O_CONCAT) return mk(O_AND, 1, mk(O_EQ, 1, a->k[0], mkConst(b->c >> a->aux, a->k[0]->w)), mk(O_EQ, 1, a->k[1], mkConst(b->c & maskw(a->aux), a->aux)));
      if (a->op == O_OR && b->c == 0) return mk(O_AND, 1, mk(O_EQ, 1, a->k[0], b), mk(O_EQ, 1, a->k[1], b));
      if (a->op == O_AND && b->c == 0 && isC(a->k[1])) { u128 inv = ~a->k[1]->c & maskw(a->w); if (inv && (inv & (inv + 1)) == 0) return mk(O_ULE, 1, a->k[0], mkConst(inv, a->w)); }
      if (a->op == O_ITE && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mk(O_EQ, 1, a->k[1], b), mk(O_EQ, 1, a->k[2], b));
    } else {
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mk(O_EQ, 1, a->k[0], b->k[0]);
      if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return mk(O_EQ, 1, a->k[0], b->k[0]);
      if (a->op == O_ADD && b->op == O_ADD && isC(a->k[1]) && a->k[1] == b->k[1]) return mk(O_EQ, 1, a->k[0], b->k[0]);
      if (a->id > b->id) std::swap(a, b);
    }
    break; }
  case O_ULT:
    if (a == b) return mkConst(0, 1);
    if (a->hi < b->lo) return mkConst(1, 1);
    if (a->lo >= b->hi) return mkConst(0, 1);
    if (a->w == 1) return mk(O_AND, 1, mkNot(a), b);
    if (isC(b) && a->op == O_ZEXT) { u128 mm = maskw(a->k[0]->w); if (b->c > mm) return mkConst(1, 1); return mk(O_ULT, 1, a->k[0], mkConst(b->c, a->k[0]->w)); }
    if (isC(a) && b->op == O_ZEXT) { u128 mm = maskw(b->k[0]->w); if (a->c >= mm) return mkConst(0, 1); return mk(O_ULT, 1, mkConst(a->c, b->k[0]->w), b->k[0]); }
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mk(O_ULT, 1, a->k[0], b->k[0]);
    if (isC(b) && b->c == 1) return mk(O_EQ, 1, a, mkConst(0, a->w));
    if (isC(b) && constIte(a)) return mkIte(a->k[0], mk(O_ULT, 1, a->k[1], b), mk(O_ULT, 1, a->k[2], b));
    if (isC(a) && constIte(b)) return mkIte(b->k[0], mk(O_ULT, 1, a, b->k[1]), mk(O_ULT, 1, a, b->k[2]));
    break;
  case O_ULE:
    if (a == b) return mkConst(1, 1);
    if (a->hi <= b->lo) return mkConst(1, 1);
    if (a->lo > b->hi) return mkConst(0, 1);
    if (a->w == 1) return mk(O_OR, 1, mkNot(a), b);
    if (isC(b)) return b->c == maskw(a->w) ? mkConst(1, 1) : mk(O_ULT, 1, a, mkConst(b->c + 1, a->w));
    if (isC(a)) return a->c == 0 ? mkConst(1, 1) : mk(O_ULT, 1, mkConst(a->c - 1, a->w), b);
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mk(O_ULE, 1, a->k[0], b->k[0]);
    break;
  case O_SLT: case O_SLE: {
    if (a == b) return mkConst(op == O_SLE, 1);
    u128 half = (u128)1 << (a->w - 1);
    if (a->hi < half && b->hi < half) return mk(op == O_SLT ? O_ULT : O_ULE, 1, a, b);
    if (a->lo >= half && b->lo >= half) return mk(op == O_SLT ? O_ULT : O_ULE, 1, a, b);
    if (a->hi < half && b->lo >= half) return mkConst(0, 1);
    if (a->lo >= half && b->hi < half) return mkConst(1, 1);
    // sign tests become unsigned range tests
    if (isC(b) && ((op == O_SLT && b->c == 0) || (op == O_SLE && b->c == maskw(b->w)))) return mk(O_ULE, 1, mkConst(half, a->w), a);
    if (isC(a) && ((op == O_SLE && a->c == 0) || (op == O_SLT && a->c == maskw(a->w)))) return mk(O_ULT, 1, b, mkConst(half, b->w));
    if (isC(b) && b->c < half) { // a <s k  <=>  a < k or a >= half
      Expr *neg = mk(O_ULE, 1, mkConst(half, a->w), a); return mk(O_OR, 1, neg, mk(op == O_SLT ? O_ULT : O_ULE, 1, a, b)); }
    if (isC(a) && a->c < half) { Expr *pos = mk(O_ULT, 1, b, mkConst(half, b->w)); return mk(O_AND, 1, pos, mk(op == O_SLT ? O_ULT : O_ULE, 1, a, b)); }
    if (constIte(a) && isC(b)) return mkIte(a->k[0], mk(op, 1, a->k[1], b), mk(op, 1, a->k[2], b));
    break; }
  case O_ITE:
    if (isC(a)) return a->c ? b : c;
    if (b == c) return b;
    if (a->op == O_XOR && a->k[1]->op == O_CONST) return mkIte(a->k[0], c, b);
    if (w == 1) {
      if (isC(b)) return b->c ? mk(O_OR, 1, a, c) : mk(O_AND, 1, mkNot(a), c);
      if (isC(c)) return c->c ? mk(O_OR, 1, mkNot(a), b) : mk(O_AND, 1, a, b);
    }
    if (b->op == O_ITE && b->k[0] == a) return mkIte(a, b->k[1], c);
    if (c->op == O_ITE && c->k[0] == a) return mkIte(a, b, c->k[2]);
    // min/max with disjoint intervals
    if ((a->op == O_ULT || a->op == O_ULE)) {
      if (a->k[0] == b && a->k[1] == c) { if (b->hi <= c->lo) return b; if (c->hi <= b->lo) return c; }
      if (a->k[0] == c && a->k[1] == b) { if (b->hi <= c->lo) return c; if (c->hi <= b->lo) return b; }
    }
    break;
  case O_UADDO:
    if (a->w <= 64) { if (a->hi + b->hi <= maskw(a->w)) return mkConst(0, 1); if (a->lo + b->lo > maskw(a->w)) return mkConst(1, 1); }
    break;
  case O_UMULO:
    if (a->w <= 64) { if (a->hi * b->hi <= maskw(a->w)) return mkConst(0, 1); }
    break;
  case O_SADDO: if (a->w <= 64) { u128 half = (u128)1 << (a->w - 1); if (a->hi < half && b->hi < half && a->hi + b->hi < half) return mkConst(0, 1); } break;
  case O_SMULO: if (a->w <= 64) { u128 half = (u128)1 << (a->w - 1); if (a->hi < half && b->hi < half && a->hi * b->hi < half) return mkConst(0, 1); } break;
  case O_SSUBO: if (a->w <= 64) { u128 half = (u128)1 << (a->w - 1); if (a->hi < half && b->hi < half) return mkConst(0, 1); } break;
  case O_FLT: if (a == b) return mkConst(0, 1); break;
  default: break;
  }
  Expr *r = intern(op, w, a, b, c, 0, aux);
  if (r->lo == r->hi) return mkConst(r->lo, w);
  return r;
}

u128 evalExpr(Expr *root, const std::vector<u64> &model) {
  if (root->op == O_CONST) return root->c;
  if (root->epoch == g_epoch) return root->val;
  std::vector<Expr *> st; st.push_back(root);
  while (!st.empty()) {
    Expr *e = st.back();
    if (e->epoch == g_epoch) { st.pop_back(); continue; }
    if (e->op == O_CONST) { e->val = e->c; e->epoch = g_epoch; st.pop_back(); continue; }
    if (e->op == O_VAR) { e->val = e->aux < model.size() ? (model[e->aux] & maskw(e->w)) : 0; e->epoch = g_epoch; st.pop_back(); continue; }
    bool ready = true;
    for (int i = 0; i < e->nk; i++) if (e->k[i]->epoch != g_epoch) { st.push_back(e->k[i]); ready = false; }
    if (!ready) continue;
    u128 k[3] = {0, 0, 0};
    for (int i = 0; i < e->nk; i++) k[i] = e->k[i]->val;
    e->val = foldOp(e->op, e->w, k, e->k[0]->w, e->aux); e->epoch = g_epoch;
    st.pop_back();
  }
  return root->val;
}

// propagate a refined interval downwards through simple structure
static void setHi(Expr *e, u128 h, int d);
static void setLo(Expr *e, u128 l, int d);
static void setHi(Expr *e, u128 h, int d) {
  if (e->hi <= h || e->op == O_CONST || h < e->lo) return;
  e->hi = h; g_ref++;
  if (d <= 0) return;
  if (e->op == O_ZEXT) setHi(e->k[0], h, d - 1);
  else if (e->op == O_ADD) { // no wrap only
    if (e->w <= 64 && e->k[0]->hi + e->k[1]->hi <= maskw(e->w)) {
      if (h >= e->k[1]->lo) setHi(e->k[0], h - e->k[1]->lo, d - 1);
      if (h >= e->k[0]->lo) setHi(e->k[1], h - e->k[0]->lo, d - 1);
    } else if (e->w <= 64 && e->k[1]->op == O_CONST && e->k[0]->lo + e->k[1]->c > maskw(e->w)) setHi(e->k[0], h + maskw(e->w) + 1 - e->k[1]->c, d - 1); // always wraps
  }
}
static void setLo(Expr *e, u128 l, int d) {
  if (e->lo >= l || e->op == O_CONST || l > e->hi) return;
  e->lo = l; g_ref++;
  if (d <= 0) return;
  if (e->op == O_ZEXT) setLo(e->k[0], l, d - 1);
  else if (e->op == O_ADD && e->w <= 64 && e->k[1]->op == O_CONST) {
    u128 c = e->k[1]->c, m = maskw(e->w);
    if (e->k[0]->hi + c <= m) { if (l >= c) setLo(e->k[0], l - c, d - 1); }
    else if (e->k[0]->lo + c > m) setLo(e->k[0], l + m + 1 - c, d - 1);
  }
}
void refine(Expr *c, bool v) {
  if (c->w == 1 && c->op != O_CONST) { if (v) { if (c->lo == 0 && c->hi == 1) c->lo = 1; } else { if (c->lo == 0 && c->hi == 1) c->hi = 0; } }
  switch (c->op) {
  case O_XOR: if (c->k[1]->op == O_CONST && c->k[1]->c == 1) refine(c->k[0], !v); break;
  case O_AND: if (v && c->w == 1) { refine(c->k[0], true); refine(c->k[1], true); } break;
  case O_OR: if (!v && c->w == 1) { refine(c->k[0], false); refine(c->k[1], false); } break;
  case O_EQ: if (v) { Expr *a = c->k[0], *b = c->k[1]; u128 lo = std::max(a->lo, b->lo), hi = std::min(a->hi, b->hi); setLo(a, lo, 4); setHi(a, hi, 4); setLo(b, lo, 4); setHi(b, hi, 4); }
    else { Expr *a = c->k[0], *b = c->k[1]; if (b->op == O_CONST) { if (a->lo == b->c) setLo(a, b->c + 1, 4); if (a->hi == b->c) setHi(a, b->c - 1, 4); } } break;
  case O_ULT: case O_ULE: {
    Expr *a = c->k[0], *b = c->k[1]; bool strict = c->op == O_ULT;
    if (!v) { std::swap(a, b); strict = !strict; }
    // a < b or a <= b
    if (b->hi >= (strict ? 1 : 0)) setHi(a, b->hi - strict, 4);
    setLo(b, a->lo + strict, 4);
    break; }
  default: break;
  }
}

static const char *opn[] = {"const", "var", "+", "-", "*", "/u", "%u", "/s", "%s", "<<", ">>", ">>a", "&", "|", "^", "zext", "sext", "extract", "concat", "==", "<", "<=", "<s", "<=s", "ite", "uaddo", "umulo", "saddo", "ssubo", "smulo", "fadd", "fsub", "fmul", "fdiv", "frem", "fneg", "feq", "flt", "fle", "funo", "uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc", "fsqrt", "ffloor", "fceil", "ftrunc", "fround", "fabs"};
std::string exprStr(Expr *e, int d) {
  char b[64];
  if (e->op == O_CONST) { snprintf(b, 64, "%llu:%d", (unsigned long long)e->c, e->w); return b; }
  if (e->op == O_VAR) { snprintf(b, 64, "v%u:%d", e->aux, e->w); return b; }
  if (d == 0) { snprintf(b, 64, "#%u", e->id); return b; }
  std::string s = std::string("(") + opn[e->op];
  if (e->op == O_EXTRACT) { snprintf(b, 64, "[%u..%u]", e->aux, e->aux + e->w); s += b; }
  for (int i = 0; i < e->nk; i++) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}
