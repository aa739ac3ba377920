#include <algorithm>
#include <unordered_map>
#include "solver.h"
#include <z3.h>
#include <time.h>
#include <unistd.h>
bool g_forceBV = false;
bool g_reals = false;
static bool usedReals = false;     // some translated term is of sort Real
static Z3_sort realSort;
static Z3_context ctx;
static Z3_solver si, sb;           // integer / bit-vector incremental solvers
static Z3_sort intSort, boolSort;
static std::vector<Expr *> vars;
static std::vector<Expr *> pc;
static size_t siDone = 0, sbDone = 0, sbVars = 0;
static bool intOk = true;          // all of the PC is integer translatable
static u64 now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }

static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static void setParam(Z3_solver s, const char *k, unsigned v) {
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k), v);
  Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
}
void solverInit() {
  Z3_config cfg = Z3_mk_config();
  if (getenv("Z3OPT")) { std::string o = getenv("Z3OPT"); size_t p; while (!o.empty()) { p = o.find(','); std::string k = o.substr(0, p); o = p == std::string::npos ? "" : o.substr(p + 1); size_t q = k.find('='); Z3_global_param_set(k.substr(0, q).c_str(), k.substr(q + 1).c_str()); } }
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context_rc(cfg);
  Z3_set_error_handler(ctx, onErr);
  intSort = Z3_mk_int_sort(ctx); Z3_inc_ref(ctx, (Z3_ast)intSort);
  realSort = Z3_mk_real_sort(ctx); Z3_inc_ref(ctx, (Z3_ast)realSort);
  boolSort = Z3_mk_bool_sort(ctx); Z3_inc_ref(ctx, (Z3_ast)boolSort);
  si = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, si);
}
static Z3_ast K(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
static bool relax = false;         // translate integers to reals (only an UNSAT answer counts)
static Z3_ast num(u128 v) {
  char buf[64]; int i = 63; buf[i] = 0;
  if (!v) buf[--i] = '0';
  while (v) { buf[--i] = '0' + (int)(v % 10); v /= 10; }
  return K(Z3_mk_numeral(ctx, buf + i, relax ? realSort : intSort));
}
static Z3_ast pow2(unsigned k) { if (relax) return k < 128 ? num((u128)1 << k) : K(Z3_mk_numeral(ctx, "340282366920938463463374607431768211456", realSort)); static Z3_ast t[130]; if (!t[k]) { if (k < 128) t[k] = num((u128)1 << k); else t[k] = K(Z3_mk_numeral(ctx, "340282366920938463463374607431768211456", intSort)); } return t[k]; }
static Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return K(Z3_mk_add(ctx, 2, x)); }
static Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return K(Z3_mk_sub(ctx, 2, x)); }
static Z3_ast mul(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return K(Z3_mk_mul(ctx, 2, x)); }
static Z3_ast ite(Z3_ast c, Z3_ast a, Z3_ast b) { return K(Z3_mk_ite(ctx, c, a, b)); }
static Z3_ast ge(Z3_ast a, Z3_ast b) { return K(Z3_mk_ge(ctx, a, b)); }
static Z3_ast tosigned(Expr *e, Z3_ast a) {
  u128 half = (u128)1 << (e->w - 1);
  if (e->hi < half) return a;
  if (e->lo >= half) return sub(a, pow2(e->w));
  return ite(ge(a, pow2(e->w - 1)), sub(a, pow2(e->w)), a);
}
static Z3_ast wrap(Z3_ast s, unsigned w) { return ite(ge(s, pow2(w)), sub(s, pow2(w)), s); }
#define NOINT ((void *)1)
// ---- floating point as real arithmetic (opt-in; rounding is outside of the bound) ----
static bool isReal(Z3_ast a) { return a && Z3_get_sort_kind(ctx, Z3_get_sort(ctx, a)) == Z3_REAL_SORT; }
static Z3_ast realNum(double d) { // exact
  if (d != d) return 0;
  if (std::isinf(d)) return K(Z3_mk_numeral(ctx, d > 0 ? "1000000000000000000000000000000" : "-1000000000000000000000000000000", realSort));
  int ex; double m = frexp(d, &ex); long long mi = (long long)ldexp(m, 53); ex -= 53;
  while (mi && !(mi & 1)) { mi >>= 1; ex++; }
  Z3_ast r = K(Z3_mk_numeral(ctx, std::to_string(mi).c_str(), realSort));
  if (!mi || ex == 0) return r;
  if (ex > 900 || ex < -900) return 0;
  std::string dig = "1"; // 2^|ex|, least significant digit first
  for (int i = 0; i < (ex < 0 ? -ex : ex); i++) { int c = 0; for (char &ch : dig) { int v = (ch - '0') * 2 + c; ch = '0' + v % 10; c = v / 10; } if (c) dig += '1'; }
  std::reverse(dig.begin(), dig.end());
  Z3_ast p[2] = {r, K(Z3_mk_numeral(ctx, dig.c_str(), realSort))};
  Z3_ast x = ex < 0 ? K(Z3_mk_numeral(ctx, (std::to_string(mi) + "/" + dig).c_str(), realSort)) : K(Z3_simplify(ctx, Z3_mk_mul(ctx, 2, p)));
  return x;
}
// does the term hold a floating-point number (as opposed to an integer or a bit pattern)?
static bool isF(Expr *e) {
  if (e->op >= O_FADD && e->op <= O_FABS) return e->op != O_FEQ && e->op != O_FLT && e->op != O_FLE && e->op != O_FUNO && e->op != O_FPTOUI && e->op != O_FPTOSI;
  if (e->op != O_ITE || (e->w != 64 && e->w != 32)) return false;
  static std::unordered_map<Expr *, bool> memo;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  bool r = isF(e->k[1]) || isF(e->k[2]);
  return memo[e] = r;
}
static Z3_ast R(Expr *e) {
  if (e->op == O_CONST) return realNum(e->w == 64 ? asd(e->c) : asf(e->c));
  Z3_ast z = (Z3_ast)(relax ? e->zr : e->zi);
  if (isF(e)) return z && z != (Z3_ast)1 ? z : 0;
  if (e->op != O_ITE) return 0;
  static std::unordered_map<Expr *, Z3_ast> memo[2]; // a choice between constants
  auto it = memo[relax].find(e);
  if (it != memo[relax].end()) return it->second;
  Z3_ast c = (Z3_ast)(relax ? e->k[0]->zr : e->k[0]->zi), x = R(e->k[1]), y = R(e->k[2]);
  return memo[relax][e] = x && y && c && c != (Z3_ast)1 ? ite(c, x, y) : 0;
}
static Z3_ast i2r(Z3_ast a) { if (relax) return a; return K(Z3_mk_int2real(ctx, a)); }
static Z3_ast r2i(Z3_ast a) { return K(Z3_mk_real2int(ctx, a)); } // floor
static Z3_ast rz() { return K(Z3_mk_numeral(ctx, "0", realSort)); }
static Z3_ast rlt(Z3_ast a, Z3_ast b) { return K(Z3_mk_lt(ctx, a, b)); }
static Z3_ast rtruncI(Z3_ast x) { return ite(ge(x, rz()), r2i(x), sub(num(0), r2i(sub(rz(), x)))); }
static Z3_ast zr1(Expr *e) {
  Expr *a = e->k[0], *b = e->k[1];
  Z3_ast x, y;
  usedReals = true;
  switch (e->op) {
  case O_UITOFP: return i2r((Z3_ast)(relax ? a->zr : a->zi));
  case O_SITOFP: return i2r(tosigned(a, (Z3_ast)(relax ? a->zr : a->zi)));
  case O_FUNO: return K(Z3_mk_false(ctx));
  case O_FPTOUI: case O_FPTOSI: case O_FNEG: case O_FABS: case O_FPEXT: case O_FPTRUNC: case O_FFLOOR: case O_FCEIL: case O_FTRUNC: case O_FROUND:
    if (!(x = R(a)) || (relax && e->op != O_FNEG && e->op != O_FABS && e->op != O_FPEXT && e->op != O_FPTRUNC)) return 0;
    switch (e->op) {
    case O_FPEXT: case O_FPTRUNC: return x;
    case O_FNEG: return sub(rz(), x);
    case O_FABS: return ite(ge(x, rz()), x, sub(rz(), x));
    case O_FFLOOR: return i2r(r2i(x));
    case O_FCEIL: return sub(rz(), i2r(r2i(sub(rz(), x))));
    case O_FTRUNC: return i2r(rtruncI(x));
    case O_FROUND: { Z3_ast h = realNum(0.5); return ite(ge(x, rz()), i2r(r2i(add(x, h))), sub(rz(), i2r(r2i(add(sub(rz(), x), h))))); }
    case O_FPTOUI: return ite(rlt(x, rz()), num(0), ite(ge(x, i2r(pow2(e->w))), sub(pow2(e->w), num(1)), r2i(x)));
    default: { Z3_ast t = rtruncI(x); Z3_ast u = ite(rlt(t, num(0)), add(t, pow2(e->w)), t);
      return ite(ge(x, i2r(pow2(e->w - 1))), sub(pow2(e->w - 1), num(1)), ite(rlt(x, sub(rz(), i2r(pow2(e->w - 1)))), pow2(e->w - 1), u)); }
    }
  default: break;
  }
  if (!(x = R(a)) || !(y = R(b))) return 0;
  Z3_ast k[2] = {x, y};
  switch (e->op) {
  case O_FADD: return add(x, y);
  case O_FSUB: return sub(x, y);
  case O_FMUL: return mul(x, y);
  case O_FDIV: if (b->op == O_CONST && asd(b->c) == 0) return 0; return K(Z3_mk_div(ctx, x, y));
  case O_FREM: { if (relax || b->op != O_CONST || asd(b->c) == 0) return 0; Z3_ast q = K(Z3_mk_div(ctx, x, y)); return sub(x, mul(y, i2r(rtruncI(q)))); }
  case O_FEQ: return K(Z3_mk_eq(ctx, k[0], k[1]));
  case O_FLT: return rlt(x, y);
  case O_FLE: return K(Z3_mk_le(ctx, x, y));
  default: return 0;
  }
}
static Z3_ast zi1(Expr *e) {
  Z3_ast k[3] = {0, 0, 0};
  for (int i = 0; i < e->nk; i++) k[i] = (Z3_ast)(relax ? e->k[i]->zr : e->k[i]->zi);
  Expr *a = e->k[0], *b = e->k[1];
  u128 m = maskw(e->w);
  unsigned w = e->w;
  if (g_reals) {
    if (e->op >= O_FADD && e->op <= O_FABS && e->op != O_FSQRT) return zr1(e);
    if (e->op == O_ITE) { if (isF(e)) { Z3_ast x = R(e->k[1]), y = R(e->k[2]); return x && y ? ite(k[0], x, y) : 0; } }
    else for (int i = 0; i < e->nk; i++) if (isF(e->k[i])) return 0;
  }
  if (relax) switch (e->op) {
    case O_CONST: case O_VAR: case O_ADD: case O_SUB: case O_ZEXT: case O_CONCAT: case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: case O_ITE: case O_UADDO: case O_SEXT: break;
    case O_EXTRACT: if (!e->aux && w > 1 && a->hi <= m) break; return 0;
    case O_AND: case O_OR: case O_XOR: if (w == 1) break; return 0;
    case O_MUL: if (w <= 64 && (a->op == O_CONST || b->op == O_CONST) && a->hi * b->hi <= m) break; return 0;
    default: return 0;
  }
  switch (e->op) {
  case O_CONST: return w == 1 ? K(e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : num(e->c);
  case O_VAR: { char n[32]; snprintf(n, 32, "%c%u", relax && w > 1 ? 'r' : 'i', e->aux); return K(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), w == 1 ? boolSort : relax ? realSort : intSort)); }
  case O_ADD:
    if (w > 64) return 0;
    if (a->hi + b->hi <= m) return add(k[0], k[1]);
    if (a->lo + b->lo > m) return sub(add(k[0], k[1]), pow2(w));
    return wrap(add(k[0], k[1]), w);
  case O_SUB:
    if (a->lo >= b->hi) return sub(k[0], k[1]);
    return ite(ge(k[0], k[1]), sub(k[0], k[1]), add(sub(k[0], k[1]), pow2(w)));
  case O_MUL:
    if (w > 64) return 0;
    if (a->op != O_CONST && b->op != O_CONST) return 0;
    if (a->hi * b->hi <= m) return mul(k[0], k[1]);
    return K(Z3_mk_mod(ctx, mul(k[0], k[1]), pow2(w)));
  case O_UDIV: if (b->op != O_CONST || !b->c) return 0; return K(Z3_mk_div(ctx, k[0], k[1]));
  case O_UREM: if (b->op != O_CONST || !b->c) return 0; return K(Z3_mk_mod(ctx, k[0], k[1]));
  case O_SHL: { if (b->op != O_CONST || b->c >= w) return 0; Z3_ast p = mul(k[0], pow2((unsigned)b->c)); if (w <= 64 && (a->hi << (unsigned)b->c) <= m) return p; return K(Z3_mk_mod(ctx, p, pow2(w))); }
  case O_LSHR: if (b->op != O_CONST || b->c >= w) return 0; return K(Z3_mk_div(ctx, k[0], pow2((unsigned)b->c)));
  case O_ASHR: { if (b->op != O_CONST || b->c >= w) return 0; Z3_ast r = K(Z3_mk_div(ctx, tosigned(a, k[0]), pow2((unsigned)b->c))); return ite(ge(r, num(0)), r, add(r, pow2(w))); }
  case O_SDIV: case O_SREM: {
    if (b->op != O_CONST || !b->c || b->c >> (w - 1)) return 0;
    Z3_ast x = tosigned(a, k[0]); Z3_ast pos = ge(x, num(0)), ax = ite(pos, x, sub(num(0), x));
    Z3_ast r = e->op == O_SDIV ? K(Z3_mk_div(ctx, ax, k[1])) : K(Z3_mk_mod(ctx, ax, k[1]));
    Z3_ast neg = ite(K(Z3_mk_eq(ctx, r, num(0))), r, sub(pow2(w), r));
    return ite(pos, r, neg); }
  case O_AND: if (w == 1) { return K(Z3_mk_and(ctx, 2, k)); }
    if (b->op == O_CONST) { // high mask: a - a mod 2^k
      u128 inv = ~b->c & m; if ((inv & (inv + 1)) == 0) { unsigned s = 0; while (((u128)1 << s) <= inv) s++; return sub(k[0], K(Z3_mk_mod(ctx, k[0], pow2(s)))); } }
    return 0;
  case O_OR: if (w == 1) return K(Z3_mk_or(ctx, 2, k)); return 0;
  case O_XOR: if (w == 1) { if (b->op == O_CONST) return b->c ? K(Z3_mk_not(ctx, k[0])) : k[0]; return K(Z3_mk_xor(ctx, k[0], k[1])); } return 0;
  case O_ZEXT: if (a->w == 1) return ite(k[0], num(1), num(0)); return k[0];
  case O_SEXT: return ite(ge(k[0], pow2(a->w - 1)), add(k[0], sub(pow2(w), pow2(a->w))), k[0]);
  case O_EXTRACT: {
    Z3_ast x = k[0];
    if (a->w == 1) return x;
    if (e->aux) x = K(Z3_mk_div(ctx, x, pow2(e->aux)));
    if ((a->hi >> e->aux) > m) x = K(Z3_mk_mod(ctx, x, pow2(w)));
    if (w == 1) return K(Z3_mk_eq(ctx, x, num(1)));
    return x; }
  case O_CONCAT: {
    Z3_ast h = a->w == 1 ? ite(k[0], num(1), num(0)) : k[0], l = b->w == 1 ? ite(k[1], num(1), num(0)) : k[1];
    return add(mul(h, pow2(e->aux)), l); }
  case O_EQ: return K(Z3_mk_eq(ctx, k[0], k[1]));
  case O_ULT: return K(Z3_mk_lt(ctx, k[0], k[1]));
  case O_ULE: return K(Z3_mk_le(ctx, k[0], k[1]));
  case O_SLT: if (a->w == 1) return 0; return K(Z3_mk_lt(ctx, tosigned(a, k[0]), tosigned(b, k[1])));
  case O_SLE: if (a->w == 1) return 0; return K(Z3_mk_le(ctx, tosigned(a, k[0]), tosigned(b, k[1])));
  case O_ITE: return ite(k[0], k[1], k[2]);
  case O_UADDO: return ge(add(k[0], k[1]), pow2(a->w));
  case O_UMULO: if (a->op != O_CONST && b->op != O_CONST) return 0; return ge(mul(k[0], k[1]), pow2(a->w));
  case O_SADDO: case O_SSUBO: {
    Z3_ast x = tosigned(a, k[0]), y = tosigned(b, k[1]); Z3_ast r = e->op == O_SADDO ? add(x, y) : sub(x, y);
    Z3_ast o[2] = {ge(r, pow2(a->w - 1)), K(Z3_mk_lt(ctx, r, sub(num(0), pow2(a->w - 1))))}; return K(Z3_mk_or(ctx, 2, o)); }
  default: return 0;
  }
}
// temporaries without a reference may be reclaimed by the next Z3 call: everything is kept
static Z3_sort fpS(unsigned w) { Z3_sort r = w == 64 ? Z3_mk_fpa_sort_64(ctx) : Z3_mk_fpa_sort_32(ctx); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, r)); return r; }
static Z3_ast rne() { return K(Z3_mk_fpa_rne(ctx)); }
static Z3_ast toFp(Z3_ast a, unsigned w) { return K(Z3_mk_fpa_to_fp_bv(ctx, a, fpS(w))); }
static Z3_ast b2b(Z3_ast boolean) { Z3_ast one = K(Z3_mk_unsigned_int(ctx, 1, Z3_mk_bv_sort(ctx, 1))), zero = K(Z3_mk_unsigned_int(ctx, 0, Z3_mk_bv_sort(ctx, 1))); return K(Z3_mk_ite(ctx, boolean, one, zero)); }
static Z3_ast bvnum(u128 v, unsigned w) { char buf[64]; int i = 63; buf[i] = 0; if (!v) buf[--i] = '0'; while (v) { buf[--i] = '0' + (int)(v % 10); v /= 10; } return K(Z3_mk_numeral(ctx, buf + i, Z3_mk_bv_sort(ctx, w))); }
// In BV mode width-1 values are Z3 Bools as well.
static Z3_ast asBv(Expr *e, Z3_ast a) { return e->w == 1 ? b2b(a) : a; }
static Z3_ast zb1(Expr *e) {
  Z3_ast k[3] = {0, 0, 0};
  for (int i = 0; i < e->nk; i++) k[i] = (Z3_ast)e->k[i]->zb;
  Expr *a = e->k[0], *b = e->k[1];
  unsigned w = e->w;
  switch (e->op) {
  case O_CONST: return w == 1 ? K(e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : bvnum(e->c, w);
  case O_VAR: { char n[32]; snprintf(n, 32, "b%u", e->aux); return K(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), w == 1 ? boolSort : Z3_mk_bv_sort(ctx, w))); }
  case O_ADD: return K(Z3_mk_bvadd(ctx, k[0], k[1]));
  case O_SUB: return K(Z3_mk_bvsub(ctx, k[0], k[1]));
  case O_MUL: return K(Z3_mk_bvmul(ctx, k[0], k[1]));
  case O_UDIV: return K(Z3_mk_bvudiv(ctx, k[0], k[1]));
  case O_UREM: return K(Z3_mk_bvurem(ctx, k[0], k[1]));
  case O_SDIV: return K(Z3_mk_bvsdiv(ctx, k[0], k[1]));
  case O_SREM: return K(Z3_mk_bvsrem(ctx, k[0], k[1]));
  case O_SHL: return K(Z3_mk_bvshl(ctx, k[0], k[1]));
  case O_LSHR: return K(Z3_mk_bvlshr(ctx, k[0], k[1]));
  case O_ASHR: return K(Z3_mk_bvashr(ctx, k[0], k[1]));
  case O_AND: return w == 1 ? K(Z3_mk_and(ctx, 2, k)) : K(Z3_mk_bvand(ctx, k[0], k[1]));
  case O_OR: return w == 1 ? K(Z3_mk_or(ctx, 2, k)) : K(Z3_mk_bvor(ctx, k[0], k[1]));
  case O_XOR: return w == 1 ? K(Z3_mk_xor(ctx, k[0], k[1])) : K(Z3_mk_bvxor(ctx, k[0], k[1]));
  case O_ZEXT: return K(Z3_mk_zero_ext(ctx, w - a->w, asBv(a, k[0])));
  case O_SEXT: return K(Z3_mk_sign_ext(ctx, w - a->w, asBv(a, k[0])));
  case O_EXTRACT: { Z3_ast x = K(Z3_mk_extract(ctx, e->aux + w - 1, e->aux, asBv(a, k[0]))); if (w == 1) return K(Z3_mk_eq(ctx, x, bvnum(1, 1))); return x; }
  case O_CONCAT: return K(Z3_mk_concat(ctx, asBv(a, k[0]), asBv(b, k[1])));
  case O_EQ: return K(Z3_mk_eq(ctx, k[0], k[1]));
  case O_ULT: return K(Z3_mk_bvult(ctx, asBv(a, k[0]), asBv(b, k[1])));
  case O_ULE: return K(Z3_mk_bvule(ctx, asBv(a, k[0]), asBv(b, k[1])));
  case O_SLT: return K(Z3_mk_bvslt(ctx, asBv(a, k[0]), asBv(b, k[1])));
  case O_SLE: return K(Z3_mk_bvsle(ctx, asBv(a, k[0]), asBv(b, k[1])));
  case O_ITE: return K(Z3_mk_ite(ctx, k[0], k[1], k[2]));
  case O_UADDO: return K(Z3_mk_bvult(ctx, K(Z3_mk_bvadd(ctx, k[0], k[1])), k[0]));
  case O_UMULO: return K(Z3_mk_not(ctx, Z3_mk_bvmul_no_overflow(ctx, k[0], k[1], false)));
  case O_SADDO: { Z3_ast s = K(Z3_mk_bvadd(ctx, K(Z3_mk_sign_ext(ctx, 1, k[0])), K(Z3_mk_sign_ext(ctx, 1, k[1])))); return K(Z3_mk_not(ctx, K(Z3_mk_eq(ctx, K(Z3_mk_extract(ctx, a->w, a->w, s)), K(Z3_mk_extract(ctx, a->w - 1, a->w - 1, s)))))); }
  case O_SSUBO: { Z3_ast s = K(Z3_mk_bvsub(ctx, K(Z3_mk_sign_ext(ctx, 1, k[0])), K(Z3_mk_sign_ext(ctx, 1, k[1])))); return K(Z3_mk_not(ctx, K(Z3_mk_eq(ctx, K(Z3_mk_extract(ctx, a->w, a->w, s)), K(Z3_mk_extract(ctx, a->w - 1, a->w - 1, s)))))); }
  case O_SMULO: { unsigned W = a->w; Z3_ast s = K(Z3_mk_bvmul(ctx, K(Z3_mk_sign_ext(ctx, W, k[0])), K(Z3_mk_sign_ext(ctx, W, k[1])))); return K(Z3_mk_not(ctx, K(Z3_mk_eq(ctx, s, K(Z3_mk_sign_ext(ctx, W, K(Z3_mk_extract(ctx, W - 1, 0, s)))))))); }
  case O_FADD: return K(Z3_mk_fpa_to_ieee_bv(ctx, K(Z3_mk_fpa_add(ctx, rne(), toFp(k[0], w), toFp(k[1], w)))));
  case O_FSUB: return K(Z3_mk_fpa_to_ieee_bv(ctx, K(Z3_mk_fpa_sub(ctx, rne(), toFp(k[0], w), toFp(k[1], w)))));
  case O_FMUL: return K(Z3_mk_fpa_to_ieee_bv(ctx, K(Z3_mk_fpa_mul(ctx, rne(), toFp(k[0], w), toFp(k[1], w)))));
  case O_FDIV: return K(Z3_mk_fpa_to_ieee_bv(ctx, K(Z3_mk_fpa_div(ctx, rne(), toFp(k[0], w), toFp(k[1], w)))));
  case O_FREM: return 0;
  case O_FNEG: return K(Z3_mk_bvxor(ctx, k[0], bvnum((u128)1 << (w - 1), w)));
  case O_FABS: return K(Z3_mk_bvand(ctx, k[0], bvnum(maskw(w - 1), w)));
  case O_FSQRT: return K(Z3_mk_fpa_to_ieee_bv(ctx, K(Z3_mk_fpa_sqrt(ctx, rne(), toFp(k[0], w)))));
  case O_FFLOOR: return K(Z3_mk_fpa_to_ieee_bv(ctx, K(Z3_mk_fpa_round_to_integral(ctx, K(Z3_mk_fpa_rtn(ctx)), toFp(k[0], w)))));
  case O_FCEIL: return K(Z3_mk_fpa_to_ieee_bv(ctx, K(Z3_mk_fpa_round_to_integral(ctx, K(Z3_mk_fpa_rtp(ctx)), toFp(k[0], w)))));
  case O_FTRUNC: return K(Z3_mk_fpa_to_ieee_bv(ctx, K(Z3_mk_fpa_round_to_integral(ctx, K(Z3_mk_fpa_rtz(ctx)), toFp(k[0], w)))));
  case O_FROUND: return K(Z3_mk_fpa_to_ieee_bv(ctx, K(Z3_mk_fpa_round_to_integral(ctx, K(Z3_mk_fpa_rna(ctx)), toFp(k[0], w)))));
  case O_FEQ: return K(Z3_mk_fpa_eq(ctx, toFp(k[0], a->w), toFp(k[1], a->w)));
  case O_FLT: return K(Z3_mk_fpa_lt(ctx, toFp(k[0], a->w), toFp(k[1], a->w)));
  case O_FLE: return K(Z3_mk_fpa_leq(ctx, toFp(k[0], a->w), toFp(k[1], a->w)));
  case O_FUNO: { Z3_ast x[2] = {K(Z3_mk_fpa_is_nan(ctx, toFp(k[0], a->w))), K(Z3_mk_fpa_is_nan(ctx, toFp(k[1], a->w)))}; return K(Z3_mk_or(ctx, 2, x)); }
  case O_UITOFP: return K(Z3_mk_fpa_to_ieee_bv(ctx, K(Z3_mk_fpa_to_fp_unsigned(ctx, rne(), asBv(a, k[0]), fpS(w)))));
  case O_SITOFP: return K(Z3_mk_fpa_to_ieee_bv(ctx, K(Z3_mk_fpa_to_fp_signed(ctx, rne(), asBv(a, k[0]), fpS(w)))));
  case O_FPEXT: case O_FPTRUNC: return K(Z3_mk_fpa_to_ieee_bv(ctx, K(Z3_mk_fpa_to_fp_float(ctx, rne(), toFp(k[0], a->w), fpS(w)))));
  case O_FPTOUI: { // saturating
    Z3_ast f = toFp(k[0], a->w); Z3_ast lim = K(Z3_mk_fpa_numeral_double(ctx, ldexp(1.0, w), fpS(a->w))), z = K(Z3_mk_fpa_numeral_double(ctx, 0.0, fpS(a->w)));
    Z3_ast pos = K(Z3_mk_fpa_gt(ctx, f, z)); Z3_ast big = K(Z3_mk_fpa_geq(ctx, f, lim));
    return K(Z3_mk_ite(ctx, pos, K(Z3_mk_ite(ctx, big, bvnum(maskw(w), w), K(Z3_mk_fpa_to_ubv(ctx, K(Z3_mk_fpa_rtz(ctx)), f, w)))), bvnum(0, w))); }
  case O_FPTOSI: {
    Z3_ast f = toFp(k[0], a->w); Z3_ast lim = K(Z3_mk_fpa_numeral_double(ctx, ldexp(1.0, w - 1), fpS(a->w))), nl = K(Z3_mk_fpa_numeral_double(ctx, -ldexp(1.0, w - 1), fpS(a->w)));
    return K(Z3_mk_ite(ctx, K(Z3_mk_fpa_is_nan(ctx, f)), bvnum(0, w), K(Z3_mk_ite(ctx, K(Z3_mk_fpa_geq(ctx, f, lim)), bvnum(maskw(w - 1), w), K(Z3_mk_ite(ctx, K(Z3_mk_fpa_lt(ctx, f, nl)), bvnum((u128)1 << (w - 1), w), K(Z3_mk_fpa_to_sbv(ctx, K(Z3_mk_fpa_rtz(ctx)), f, w)))))))); }
  default: return 0;
  }
}
static bool trans(Expr *root, bool integer) {
  auto S = [&](Expr *e) -> void *& { return relax ? e->zr : integer ? e->zi : e->zb; };
  std::vector<Expr *> st; st.push_back(root);
  while (!st.empty()) {
    Expr *e = st.back();
    void *&slot = S(e);
    if (slot) { st.pop_back(); continue; }
    bool ready = true, bad = false;
    for (int i = 0; i < e->nk; i++) { void *s = S(e->k[i]); if (!s) { st.push_back(e->k[i]); ready = false; } else if (s == NOINT) bad = true; }
    if (bad) { slot = NOINT; st.pop_back(); continue; }
    if (!ready) continue;
    Z3_ast r = integer ? zi1(e) : zb1(e);
    slot = r ? (void *)r : NOINT;
    if (!r && integer && getenv("SYM_NOINT")) fprintf(stderr, "not integer translatable: %s\n", exprStr(e, 6).c_str());
    st.pop_back();
  }
  return S(root) != NOINT;
}
void solverNewVar(Expr *v) {
  vars.push_back(v);
  trans(v, true);
  if (v->w > 1) {
    Z3_solver_assert(ctx, si, ge((Z3_ast)v->zi, num(0)));
    Z3_solver_assert(ctx, si, K(Z3_mk_lt(ctx, (Z3_ast)v->zi, pow2(v->w))));
  }
}
void solverAssert(Expr *c) {
  pc.push_back(c);
  if (intOk) {
    if (trans(c, true)) { Z3_solver_assert(ctx, si, (Z3_ast)c->zi); siDone = pc.size(); }
    else intOk = false;
  }
}
static void getModel(Z3_solver s, bool integer, std::vector<u64> &model) {
  Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
  model.assign(vars.size(), 0);
  for (size_t i = 0; i < vars.size(); i++) {
    trans(vars[i], integer);
    Z3_ast v = (Z3_ast)(integer ? vars[i]->zi : vars[i]->zb), r;
    if (!Z3_model_eval(ctx, m, v, true, &r)) continue;
    Z3_inc_ref(ctx, r);
    if (vars[i]->w == 1) model[i] = Z3_get_bool_value(ctx, r) == Z3_L_TRUE;
    else { uint64_t x = 0; Z3_get_numeral_uint64(ctx, r, &x); model[i] = x; }
    Z3_dec_ref(ctx, r);
  }
  Z3_model_dec_ref(ctx, m);
}
static Res run(Z3_solver s, Expr *c, bool integer, std::vector<u64> &model, unsigned rlimit, bool pushpop) {
  if (pushpop) Z3_solver_push(ctx, s);
  Z3_solver_assert(ctx, s, (Z3_ast)(integer ? c->zi : c->zb));
  setParam(s, "rlimit", rlimit);
  if (g_reals) setParam(s, "timeout", rlimit > 5000000 ? 20000 : 4000); // nonlinear arithmetic does not count all of its work
  static const char *dump = getenv("SYM_DUMP");
  if (dump) { char fn[300]; snprintf(fn, 300, "%s.%d", dump, (int)getpid()); FILE *f = fopen(fn, "w"); if (f) { fprintf(f, "%s(check-sat)\n", Z3_solver_to_string(ctx, s)); fclose(f); } }
  Z3_lbool r = Z3_solver_check(ctx, s);
  if (r == Z3_L_TRUE) getModel(s, integer, model);
  if (pushpop) Z3_solver_pop(ctx, s, 1);
  return r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
}
static Res freshRun(const char *logic, Expr *c, bool integer, std::vector<u64> &model, unsigned rlimit) {
  Z3_solver s = usedReals ? Z3_mk_solver(ctx) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, logic)); Z3_solver_inc_ref(ctx, s);
  bool ok = true;
  for (Expr *p : pc) { if (!trans(p, integer)) { ok = false; break; } Z3_solver_assert(ctx, s, (Z3_ast)(integer ? p->zi : p->zb)); }
  if (integer && ok) for (Expr *v : vars) if (v->w > 1) { Z3_solver_assert(ctx, s, ge((Z3_ast)v->zi, num(0))); Z3_solver_assert(ctx, s, K(Z3_mk_lt(ctx, (Z3_ast)v->zi, pow2(v->w)))); }
  Res r = UNKNOWN;
  if (ok && trans(c, integer)) r = run(s, c, integer, model, rlimit, false);
  Z3_solver_dec_ref(ctx, s);
  return r;
}
// nonlinear real arithmetic: relax the integer inputs to reals, round a model back to integers
static Res realRun(Expr *c, std::vector<u64> &model) {
  relax = true;
  Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_NRA")); Z3_solver_inc_ref(ctx, s);
  Res res = UNKNOWN;
  bool ok = trans(c, true);
  if (ok) {
    for (Expr *p : pc) if (trans(p, true)) Z3_solver_assert(ctx, s, (Z3_ast)p->zr);
    for (Expr *v : vars) { trans(v, true); if (v->w > 1) { Z3_solver_assert(ctx, s, ge((Z3_ast)v->zr, num(0))); Z3_solver_assert(ctx, s, K(Z3_mk_lt(ctx, (Z3_ast)v->zr, pow2(v->w)))); } }
    Z3_solver_assert(ctx, s, (Z3_ast)c->zr);
    setParam(s, "rlimit", 20000000); setParam(s, "timeout", 8000);
    Z3_lbool r = Z3_solver_check(ctx, s);
    if (r == Z3_L_FALSE) res = UNSAT;
    if (r == Z3_L_TRUE) {
      Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
      std::vector<double> val(vars.size());
      for (size_t i = 0; i < vars.size(); i++) {
        Z3_ast x; val[i] = 0;
        if (!Z3_model_eval(ctx, m, (Z3_ast)vars[i]->zr, true, &x)) continue;
        Z3_inc_ref(ctx, x);
        if (vars[i]->w == 1) val[i] = Z3_get_bool_value(ctx, x) == Z3_L_TRUE;
        else if (Z3_is_algebraic_number(ctx, x)) val[i] = Z3_get_numeral_double(ctx, K(Z3_get_algebraic_number_upper(ctx, x, 12)));
        else val[i] = Z3_get_numeral_double(ctx, x);
        Z3_dec_ref(ctx, x);
      }
      Z3_model_dec_ref(ctx, m);
      relax = false;
      // round to the nearest, down, up; then leave one variable free; then fix only one
      size_t nv = vars.size();
      for (size_t way = 0; way < 3 + 2 * nv && res == UNKNOWN; way++) {
        size_t only = way < 3 ? nv : (way - 3) % nv;
        if (way >= 3 && vars[only]->w == 1) continue;
        Z3_solver_push(ctx, si);
        for (size_t i = 0; i < nv; i++) {
          if (way >= 3 && (way - 3 < nv) == (i == only)) continue;
          Z3_ast z = (Z3_ast)vars[i]->zi;
          double d = way == 1 ? floor(val[i]) : way == 2 ? ceil(val[i]) : nearbyint(val[i]);
          if (vars[i]->w == 1) Z3_solver_assert(ctx, si, d != 0 ? z : K(Z3_mk_not(ctx, z)));
          else Z3_solver_assert(ctx, si, K(Z3_mk_eq(ctx, z, num((u128)(d < 0 ? 0 : d)))));
        }
        if (run(si, c, true, model, way < 3 ? 4000000 : 500000, false) == SAT) res = SAT;
        Z3_solver_pop(ctx, si, 1);
      }
    }
  }
  relax = false;
  Z3_solver_dec_ref(ctx, s);
  return res;
}
// nonlinear or floating point constraints over inputs with few values left: decided by evaluating the constraints for each of
// the remaining assignments (their intervals follow from the path condition)
static Res finiteDomain(Expr *c, std::vector<u64> &model) {
  u64 total = 1;
  std::vector<size_t> open;
  std::vector<u64> m(vars.size());
  for (size_t i = 0; i < vars.size(); i++) {
    u128 n = vars[i]->hi - vars[i]->lo + 1;
    m[i] = (u64)vars[i]->lo;
    if (n == 1) continue;
    if (n > 256 || (total *= (u64)n) > 256) return UNKNOWN;
    open.push_back(i);
  }
  Res r = UNKNOWN;
  while (r == UNKNOWN) {
    newEpoch();
    bool ok = evalExpr(c, m) & 1;
    for (size_t k = pc.size(); ok && k-- > 0;) ok = evalExpr(pc[k], m) & 1;
    if (ok) { model = m; r = SAT; break; }
    size_t k = 0;
    for (; k < open.size(); k++) { Expr *v = vars[open[k]]; if (m[open[k]] < (u64)v->hi) { m[open[k]]++; break; } m[open[k]] = (u64)v->lo; }
    if (k == open.size()) r = UNSAT;
  }
  newEpoch();
  return r;
}
Res solverCheck(Expr *c, std::vector<u64> &model, SolverStats &st, bool hard) {
  u64 t0 = now();
  st.queries++;
  Res r = UNKNOWN;
  if (intOk && !g_forceBV && trans(c, true)) {
    st.intq++;
    static const bool stage = getenv("SYM_STAGE");
    auto log = [&](const char *s) { if (stage) { static FILE *lf = fopen(getenv("SYM_STAGE"), "a"); fprintf(lf, "STAGE %s %d %.3f\n", s, r, (now() - t0) / 1e9); fflush(lf); } };
    r = run(si, c, true, model, g_reals ? 400000 : hard ? 40000000 : 20000000, true);
    log("si");
    if (r == UNKNOWN) { r = finiteDomain(c, model); if (r != UNKNOWN) st.fdq++; log("fd"); }
    if (r == UNKNOWN && g_reals) { r = realRun(c, model); log("real"); }
    if (r == UNKNOWN) { r = freshRun("QF_LIA", c, true, model, g_reals ? 10000000 : 100000000); log("fresh"); }
    static const char *unkf = getenv("SYM_UNK");
    if (unkf && r == UNKNOWN) { FILE *f = fopen(unkf, "a"); Z3_solver_push(ctx, si); Z3_solver_assert(ctx, si, (Z3_ast)c->zi); fprintf(f, "; ---- %s\n%s(check-sat)\n", exprStr(c, 8).c_str(), Z3_solver_to_string(ctx, si)); Z3_solver_pop(ctx, si, 1); fclose(f); }
  }
  if (r == UNKNOWN) { r = finiteDomain(c, model); if (r != UNKNOWN) st.fdq++; }
  if (r == UNKNOWN && !usedReals) {
    if (getenv("SYM_NOINT")) fprintf(stderr, "bit-vector query (intOk %d): %s\n", intOk, exprStr(c, 5).c_str());
    st.bvq++;
    if (!sb) { sb = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, sb); }
    bool ok = true;
    for (; sbDone < pc.size(); sbDone++) { if (!trans(pc[sbDone], false)) { ok = false; break; } Z3_solver_assert(ctx, sb, (Z3_ast)pc[sbDone]->zb); }
    if (ok && trans(c, false)) {
      r = run(sb, c, false, model, hard ? 60000000 : 20000000, true);
      if (r == UNKNOWN) r = freshRun("QF_BVFP", c, false, model, 200000000);
    }
  }
  st.ns += now() - t0;
  if (r == SAT) st.sat++; else if (r == UNSAT) st.unsat++; else st.unknown++;
  return r;
}
