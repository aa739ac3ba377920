// symex: fork-based symbolic executor for LLVM bitcode produced by rustc.
//
//  symex prog.bc --entry FN --out DIR [--workers N] [--time S] [--max-insts N]
//
// Every feasible path of FN is executed; at a branch whose condition depends on symbolic inputs and for which
// the solver finds both outcomes possible the process forks.  Assertions and panics are decided by the solver.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <malloc.h>
#include <fstream>
#include <iostream>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <semaphore.h>
#include <pthread.h>
#include <time.h>
#include <fcntl.h>
#include <errno.h>
#include <map>
#include <unordered_map>
#include <set>

using namespace llvm;

static u64 nowNs() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }

// ---------------------------------------------------------------------------------------------- program
struct Val { u64 c; Expr *e; };

enum IOp : u16 {
  I_BIN, I_CMP, I_CAST, I_SELECT, I_LOAD, I_STORE, I_COPY, I_PTRADD, I_PTRADDC, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_ALLOCA,
  I_UNREACH, I_RMW, I_CMPXCHG, I_INTR, I_FCMP, I_VEC2INT, I_INT2VEC, I_EXTELEM, I_INSELEM, I_NOP
};
struct Inst {
  u16 op; u8 w, w2; u8 sub; u8 flag;
  int d, a, b, c;
  u32 loc;
  u32 x, y;  // side-table indices
  u64 imm;
};
struct Edge { u32 target, cs, cn; };
struct SwitchT { u32 def; std::vector<std::pair<u64, u32>> cases; };
struct CallT { int fn; int callee; std::vector<int> args; std::vector<u8> argw; u32 nret; std::vector<u8> retw; unsigned iid; std::string iname; };
struct Func {
  std::string name, dem; Function *F = nullptr; bool decl = true, lowered = false; int handler = -1;
  std::vector<Inst> code; u32 nslots = 0, nargs = 0;
  std::vector<Edge> edges; std::vector<std::pair<int, int>> copies;
  std::vector<SwitchT> switches; std::vector<CallT> calls;
  u32 entry = 0;
};
static std::vector<Func *> funcs;
static std::unordered_map<Function *, int> funcIdx;
static std::vector<Val> consts;
static Module *M; static const DataLayout *DL;
static std::vector<std::string> locNames; static std::map<std::pair<std::string, unsigned>, u32> locMap;
static std::set<std::string> srcFns;

// ---------------------------------------------------------------------------------------------- memory
static const u64 BASE = 0x100000000ull;
static const u64 ASIZE = 1ull << 30;
static const u64 STACK0 = BASE + (768ull << 20);
static u8 *mem, *tags; static Expr **cells;
static u64 heapTop = BASE + 4096, stackTop = STACK0;
static const u64 FBASE = 0x10000;
static std::unordered_map<u64, u64> allocSize;
#define MEM(a) (mem + ((a) - BASE))
#define TAG(a) (tags + ((a) - BASE))
#define CELL(a) (cells[(a) - BASE])
static u64 allocMem(u64 size, u64 align, bool zero) {
  if (align < 16) align = 16;
  u64 a = (heapTop + 16 + align - 1) & ~(align - 1);
  if (a + size + 16 >= STACK0) { fprintf(stderr, "symex: out of arena memory (%llu)\n", (unsigned long long)size); abort(); }
  heapTop = a + size;
  memset(TAG(a), 1, size);
  if (!zero) memset(MEM(a), 0xA5, size); // fresh memory is zero, arena never reused
  allocSize[a] = size;
  return a;
}
static bool inArena(u64 a, u64 n) { return a >= BASE && a + n <= BASE + ASIZE; }

// ---------------------------------------------------------------------------------------------- shared state
static const int MAXWAIT = 65536;
static const int MAXLOC = 400000;
static const int MAXTAGS = 256;
struct Viol { char kind[32]; char msg[512]; char file[256]; };
struct Shared {
  pthread_mutex_t mu;
  int tokens; int nwait;
  int waitStack[MAXWAIT]; int freeSem[MAXWAIT]; int nfree; int usedSem;
  sem_t sems[MAXWAIT];
  volatile int stop; volatile int nviol; volatile int nerr; volatile int incomplete; int nsamples;
  u64 paths, infeasible, forks, insts, asserts, concretizations, unknowns;
  u64 queries, sat, unsat, unknown, solver_ns, bvq, intq, fdq, maxq_ns;
  u64 live, maxlive;
  char errmsg[512];
  Viol viol[64];
  char tagName[MAXTAGS][64]; u64 tagCount[MAXTAGS]; int ntags;
  u8 cov[MAXLOC];
  u8 fcov[100000];
};
static Shared *sh;
static std::string outDir; static u64 deadline; static u64 maxInsts = 400000000ull; static u64 myInsts = 0; static int maxViol = 1, maxSamples = 6;
static std::string entryName;
static bool dumpPaths = false;
struct Input { std::string name; Expr *e; u64 cval; unsigned w; };
static std::vector<Input> inputs;
static std::vector<u64> model;
static u32 nvars = 0;
static SolverStats st;
static u64 myAsserts = 0;

static void lock() { pthread_mutex_lock(&sh->mu); }
static void unlock() { pthread_mutex_unlock(&sh->mu); }
static void flushStats() {
  lock();
  sh->insts += myInsts; sh->asserts += myAsserts; sh->queries += st.queries; sh->sat += st.sat; sh->unsat += st.unsat; sh->unknown += st.unknown; sh->solver_ns += st.ns; sh->bvq += st.bvq; sh->intq += st.intq; sh->fdq += st.fdq;
  unlock();
  myInsts = 0; myAsserts = 0; memset(&st, 0, sizeof st);
}
static u64 pathInsts = 0;
static void releaseToken() { // with lock held
  if (sh->nwait > 0) { int s = sh->waitStack[--sh->nwait]; sem_post(&sh->sems[s]); }
  else sh->tokens++;
}
[[noreturn]] static void endPath(bool infeasible) {
  flushStats();
  lock();
  if (infeasible) sh->infeasible++; else sh->paths++;
  sh->live--;
  releaseToken();
  unlock();
  _exit(0);
}
[[noreturn]] static void fatal(const std::string &m) {
  lock();
  if (!sh->nerr) { snprintf(sh->errmsg, sizeof sh->errmsg, "%s", m.c_str()); }
  sh->nerr++; sh->stop = 1;
  unlock();
  fprintf(stderr, "symex: ERROR %s\n", m.c_str());
  endPath(false);
}

// ---------------------------------------------------------------------------------------------- state
struct Frame { Func *f; u32 pc; Val *regs; int d; u32 nret; u64 sp; int callInst; };
static Val *regStack, *regTop, *regLimit; static const size_t REGMAX = 64u << 20;
static std::vector<Frame> frames;
// Threads are cooperative contexts: one runs until it blocks (futex wait, join), ends, or - with preemption switched on -
// reaches an atomic access at which the schedule decides to switch.  Thread-local globals are swapped with the context.
struct TlsVar { u64 a, n; };
struct TlsImg { std::vector<u8> m, t; std::vector<Expr *> c; };
struct Ctx { std::vector<Frame> frames; Val *regTop, *regLimit; u64 stackTop, stackEnd; std::map<u64, TlsImg> tls; enum { RUN, FUTEX, JOIN, DONE } st = RUN; u64 wait = 0; bool timed = false; bool timedOut = false; u64 result = 0; bool resumed = false; struct Pend { u64 a; unsigned w; Val v; }; std::vector<Pend> pend; };
static std::vector<Ctx> ctxs; static size_t curCtx = 0; static u64 stackEnd = 0;
static std::vector<TlsVar> tlsVars; static std::map<u64, TlsImg> tlsInit;
static bool switched = false;
static u64 preemptBudget = 0, delayBudget = 0; // delayBudget: stores that may stay in the store buffer of their thread until it is resumed

static std::string demangle(const std::string &n) {
  std::string s = llvm::demangle(n);
  // legacy rust: strip ::h<hash>
  size_t p = s.rfind("::h"); if (p != std::string::npos && s.size() - p == 19) s.resize(p);
  for (auto r : std::vector<std::pair<std::string, std::string>>{{"$LT$", "<"}, {"$GT$", ">"}, {"$u20$", " "}, {"$RF$", "&"}, {"$C$", ","}, {"$u7b$", "{"}, {"$u7d$", "}"}, {"..", "::"}, {"$LP$", "("}, {"$RP$", ")"}, {"$BP$", "*"}, {"$u5b$", "["}, {"$u5d$", "]"}, {"$u27$", "'"}})
    for (size_t q; (q = s.find(r.first)) != std::string::npos;) s.replace(q, r.first.size(), r.second);
  return s;
}
static std::string stackTrace() {
  std::string s;
  int n = 0;
  for (int i = (int)frames.size() - 1; i >= 0 && n < 14; i--, n++) {
    Frame &f = frames[i];
    u32 pc = f.pc ? f.pc - 1 : 0;
    u32 l = pc < f.f->code.size() ? f.f->code[pc].loc : 0;
    s += "  at " + f.f->dem + " (" + (l ? locNames[l] : "?") + ")\n";
  }
  return s;
}
static u64 concreteOf(const Input &in) { return in.e ? (u64)evalExpr(in.e, model) : in.cval; }
static void report(const char *kind, const std::string &msg) {
  std::string site = stackTrace();
  lock();
  int id = sh->nviol;
  if (id < 64) {
    sh->nviol++;
    Viol &v = sh->viol[id];
    snprintf(v.kind, sizeof v.kind, "%s", kind); snprintf(v.msg, sizeof v.msg, "%s", msg.c_str());
    snprintf(v.file, sizeof v.file, "%s/cex-%s-%d.txt", outDir.c_str(), entryName.c_str(), id);
    FILE *f = fopen(v.file, "w");
    if (f) {
      fprintf(f, "# entry %s\n# kind %s\n# msg %s\n", entryName.c_str(), kind, msg.c_str());
      std::string t = site; size_t p; while ((p = t.find('\n')) != std::string::npos) { fprintf(f, "#%s\n", t.substr(0, p).c_str()); t = t.substr(p + 1); }
      newEpoch();
      for (auto &in : inputs) fprintf(f, "%s %llu\n", in.name.c_str(), (unsigned long long)concreteOf(in));
      fclose(f);
    }
    if (sh->nviol >= maxViol) sh->stop = 1;
  }
  unlock();
}

// completed paths number 1, 2, 4, 8, ... are written out with concrete inputs: the driver replays them natively
static void maybeSample() {
  lock(); u64 k = sh->paths + 1; int id = -1; if ((k & (k - 1)) == 0 && sh->nsamples < maxSamples) id = sh->nsamples++; unlock();
  if (id < 0) return;
  std::string fn = outDir + "/sample-" + entryName + "-" + std::to_string(id) + ".txt";
  FILE *f = fopen(fn.c_str(), "w"); if (!f) return;
  newEpoch(); for (auto &in : inputs) fprintf(f, "%s %llu\n", in.name.c_str(), (unsigned long long)concreteOf(in));
  fclose(f);
}
static void setModel(std::vector<u64> &m) { model.swap(m); newEpoch(); }
static void addPC(Expr *c) {
  if (c->op == O_CONST) return;
  solverAssert(c);
  refine(c, true);
}
// Fork: returns true in the process that has to run `first` (child), false in the other.
static bool doFork() {
  flushStats();
  lock();
  sh->forks++; sh->live++; if (sh->live > sh->maxlive) sh->maxlive = sh->live;
  int mySem = -1; bool conc = sh->tokens > 0;
  if (conc) sh->tokens--;
  else {
    if (sh->nfree) mySem = sh->freeSem[--sh->nfree]; else mySem = sh->usedSem++;
    if (mySem >= MAXWAIT) { unlock(); fatal("too many waiting paths"); }
    sh->waitStack[sh->nwait++] = mySem;
  }
  unlock();
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) fatal("fork failed");
  if (p == 0) return true; // child has a token (the fresh one or the parent's)
  if (!conc) {
    while (sem_wait(&sh->sems[mySem]) < 0) ;
    lock(); sh->freeSem[sh->nfree++] = mySem; unlock();
    if (sh->stop) { endPath(false); }
  }
  return false;
}
static Res query(Expr *c, std::vector<u64> &m, bool hard = false) {
  u64 t0 = nowNs();
  Res r = solverCheck(c, m, st, hard);
  if (getenv("SYMEX_TRACE")) fprintf(stderr, "query res=%d: %s\n%s", r, exprStr(c, 5).c_str(), stackTrace().c_str());
  u64 dt = nowNs() - t0; if (dt > sh->maxq_ns) sh->maxq_ns = dt;
  if (dt > 5000000000ull && getenv("SYMEX_SLOW")) fprintf(stderr, "slow query %.1fs res=%d: %s\n%s", dt / 1e9, r, exprStr(c, 5).c_str(), stackTrace().c_str());
  return r;
}
// decide a symbolic condition, forking if necessary
static bool decide(Expr *c) {
  if (c->op == O_CONST) return c->c;
  if (c->lo == c->hi) return c->lo;
  if (sh->stop) endPath(false);
  bool v = evalExpr(c, model) & 1;
  Expr *other = v ? mkNot(c) : c, *mine = v ? c : mkNot(c);
  if (other->op == O_CONST && !other->c) { return v; }
  std::vector<u64> m;
  Res r = query(other, m);
  if (r == UNSAT) { refine(c, v); return v; }
  if (r == UNKNOWN) { __atomic_fetch_add(&sh->unknowns, 1, __ATOMIC_SEQ_CST); sh->incomplete = 1; addPC(mine); return v; }
  if (doFork()) { setModel(m); addPC(other); return !v; }
  addPC(mine);
  return v;
}
static u64 concretize(Expr *e) {
  if (e->op == O_CONST) return (u64)e->c;
  __atomic_fetch_add(&sh->concretizations, 1, __ATOMIC_SEQ_CST);
  for (;;) {
    if (e->lo == e->hi) return (u64)e->lo;
    u64 v = (u64)evalExpr(e, model);
    if (decide(mk(O_EQ, 1, e, mkConst(v, e->w)))) return v;
  }
}
static u64 C(const Val &v) { return v.e ? concretize(v.e) : v.c; }
static inline Expr *X(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline Val V(Expr *e) { if (e->op == O_CONST && e->w <= 64) return Val{(u64)e->c, nullptr}; if (e->lo == e->hi && e->w <= 64) return Val{(u64)e->lo, nullptr}; return Val{0, e}; }

[[noreturn]] static void violation(const char *kind, const std::string &msg) { report(kind, msg); endPath(false); }

// ---------------------------------------------------------------------------------------------- memory access
static void breakCell(u64 a) { // a: start of a cell with tag 2; turn into byte cells
  Expr *e = CELL(a); unsigned n = e->w / 8;
  for (unsigned i = 0; i < n; i++) { Expr *b = mkExtract(e, 8 * i, 8); if (b->op == O_CONST) { *TAG(a + i) = 1; *MEM(a + i) = (u8)b->c; } else { *TAG(a + i) = 2; CELL(a + i) = b; } }
}
static u64 cellStart(u64 a) { while (*TAG(a) == 3) a--; return a; }
static void clearCells(u64 a, u64 n) { // make [a,a+n) contain no partial cells (boundary cells are broken)
  if (*TAG(a) == 3) { breakCell(cellStart(a)); }
  if (*TAG(a + n) == 3 && inArena(a + n, 1)) { breakCell(cellStart(a + n)); }
}
static inline bool allTag1(u64 a, unsigned n) {
  const u8 *t = TAG(a);
  switch (n) {
  case 1: return *t == 1;
  case 2: { u16 x; memcpy(&x, t, 2); return x == 0x0101; }
  case 4: { u32 x; memcpy(&x, t, 4); return x == 0x01010101u; }
  case 8: { u64 x; memcpy(&x, t, 8); return x == 0x0101010101010101ull; }
  default: for (unsigned i = 0; i < n; i++) if (t[i] != 1) return false; return true;
  }
}
static void checkAddr(u64 a, u64 n, const char *what) {
  bool ok = inArena(a, n);
  if (ok) for (u64 i = 0; i < n; i++) if (*TAG(a + i) == 0) { ok = false; break; }
  if (!ok) { char b[128]; snprintf(b, 128, "invalid %s of %llu bytes at 0x%llx", what, (unsigned long long)n, (unsigned long long)a); violation("memory", b); }
}
static Val loadVal(u64 a, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (w <= 64 && inArena(a, n) && allTag1(a, n)) {
    u64 v = 0; memcpy(&v, MEM(a), n);
    if (w < 64) v &= (1ull << w) - 1;
    return Val{v, nullptr};
  }
  checkAddr(a, n, "read");
  if (*TAG(a) == 2 && CELL(a)->w == n * 8u) { Expr *e = CELL(a); return V(w == n * 8 ? e : mkExtract(e, 0, w)); }
  // a load of a prefix of a bigger cell
  if (*TAG(a) == 2 && CELL(a)->w > n * 8u) return V(mkExtract(CELL(a), 0, w));
  Expr *r = nullptr;
  for (unsigned i = 0; i < n;) {
    Expr *b; unsigned step = 1;
    if (*TAG(a + i) == 1) b = mkConst(*MEM(a + i), 8);
    else if (*TAG(a + i) == 2) { Expr *c = CELL(a + i); unsigned cn = c->w / 8; if (i + cn <= n) { b = c; step = cn; } else { step = n - i; b = mkExtract(c, 0, step * 8); } }
    else { u64 s = cellStart(a + i); Expr *c = CELL(s); unsigned off = (unsigned)(a + i - s); unsigned rem = c->w / 8 - off; step = std::min(rem, n - i); b = mkExtract(c, off * 8, step * 8); }
    r = r ? mk(O_CONCAT, b->w + r->w, b, r, nullptr, r->w) : b;
    i += step;
  }
  return V(mkExtract(r, 0, w));
}
static void storeVal(u64 a, unsigned w, Val v) {
  unsigned n = (w + 7) / 8;
  if (!v.e && inArena(a, n) && allTag1(a, n)) { memcpy(MEM(a), &v.c, n); return; }
  checkAddr(a, n, "write");
  clearCells(a, n);
  if (!v.e) { memset(TAG(a), 1, n); memcpy(MEM(a), &v.c, n); return; }
  Expr *e = v.e;
  if (e->op == O_CONST) { memset(TAG(a), 1, n); u128 c = e->c; memcpy(MEM(a), &c, n); return; }
  e = mkZext(e, n * 8);
  TAG(a)[0] = 2; for (unsigned i = 1; i < n; i++) TAG(a)[i] = 3;
  CELL(a) = e;
}
static bool anySym(u64 a, u64 n) { const u8 *t = TAG(a); for (u64 i = 0; i < n; i++) if (t[i] != 1) return true; return false; }
static void copyMem(u64 d, u64 s, u64 n) {
  if (!n || d == s) return;
  checkAddr(s, n, "read"); checkAddr(d, n, "write");
  if (!anySym(s, n) && !anySym(d, n)) { memmove(MEM(d), MEM(s), n); return; }
  if (*TAG(s) == 3) breakCell(cellStart(s));
  if (inArena(s + n, 1) && *TAG(s + n) == 3) breakCell(cellStart(s + n));
  clearCells(d, n);
  // buffers for overlap
  std::vector<u8> t(TAG(s), TAG(s) + n), m(MEM(s), MEM(s) + n);
  std::vector<Expr *> c(n);
  for (u64 i = 0; i < n; i++) if (t[i] == 2) c[i] = CELL(s + i);
  memcpy(TAG(d), t.data(), n); memcpy(MEM(d), m.data(), n);
  for (u64 i = 0; i < n; i++) if (t[i] == 2) CELL(d + i) = c[i];
}
static void setMem(u64 d, Val b, u64 n) {
  if (!n) return;
  if (b.e) { for (u64 i = 0; i < n; i++) storeVal(d + i, 8, b); return; }
  checkAddr(d, n, "write"); clearCells(d, n); memset(TAG(d), 1, n); memset(MEM(d), (int)b.c, n);
}

// ---------------------------------------------------------------------------------------------- lowering
static unsigned tw(Type *t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isHalfTy()) return 16;
  if (t->isX86_FP80Ty() || t->isFP128Ty()) return 128;
  return 0;
}
struct Leaf { u64 off; unsigned w; };
static void leaves(Type *t, u64 off, std::vector<Leaf> &out) {
  if (auto *s = dyn_cast<StructType>(t)) { auto *l = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) leaves(s->getElementType(i), off + l->getElementOffset(i), out); }
  else if (auto *a = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) leaves(a->getElementType(), off + i * sz, out); }
  else if (auto *v = dyn_cast<FixedVectorType>(t)) { u64 sz = DL->getTypeAllocSize(v->getElementType()); if (v->getElementType()->isIntegerTy(1)) sz = 1; for (u64 i = 0; i < v->getNumElements(); i++) out.push_back({off + i * sz, tw(v->getElementType())}); }
  else if (t->isVoidTy() || t->isMetadataTy() || t->isTokenTy()) {}
  else out.push_back({off, tw(t)});
}
static unsigned nsl(Type *t) { std::vector<Leaf> l; leaves(t, 0, l); return l.size(); }

static std::unordered_map<const Constant *, int> constIdx;
static std::unordered_map<const GlobalVariable *, u64> gaddr;
static u64 funcAddr(Function *f) { return FBASE + 16 * (u64)funcIdx.at(f); }
static u64 constAddr(const GlobalVariable *g);
static void evalConst(const Constant *c, std::vector<Val> &out);
static u64 constInt(const Constant *c) { std::vector<Val> v; evalConst(c, v); return v.at(0).c; }
static Val constVal(const APInt &v) { if (v.getBitWidth() <= 64) return Val{v.getZExtValue(), nullptr}; u128 x = 0; for (unsigned i = 0; i < v.getNumWords() && i < 2; i++) x |= (u128)v.getRawData()[i] << (64 * i); return Val{0, mkConst(x, v.getBitWidth())}; }
static void evalConst(const Constant *c, std::vector<Val> &out) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { out.push_back(constVal(ci->getValue())); return; }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { out.push_back(constVal(cf->getValueAPF().bitcastToAPInt())); return; }
  if (isa<ConstantPointerNull>(c)) { out.push_back(Val{0, nullptr}); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    std::vector<Leaf> l; leaves(c->getType(), 0, l);
    for (auto &x : l) out.push_back(x.w > 64 ? Val{0, mkConst(0, x.w)} : Val{0, nullptr});
    return; }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) evalConst(ca->getOperand(i), out); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) evalConst(cd->getElementAsConstant(i), out); return; }
  if (auto *g = dyn_cast<GlobalVariable>(c)) { out.push_back(Val{constAddr(g), nullptr}); return; }
  if (auto *f = dyn_cast<Function>(c)) { out.push_back(Val{funcAddr(const_cast<Function *>(f)), nullptr}); return; }
  if (auto *ga = dyn_cast<GlobalAlias>(c)) { evalConst(ga->getAliasee(), out); return; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      auto *gep = cast<GEPOperator>(ce); u64 b = constInt(cast<Constant>(gep->getPointerOperand()));
      APInt off(64, 0);
      if (!gep->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "constexpr gep\n"); abort(); }
      out.push_back(Val{b + (u64)off.getSExtValue(), nullptr}); return; }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
      u64 v = constInt(ce->getOperand(0)); unsigned w = tw(ce->getType()); if (w < 64 && w) v &= (1ull << w) - 1; out.push_back(Val{v, nullptr}); return; }
    case Instruction::Trunc: { u64 v = constInt(ce->getOperand(0)); unsigned w = tw(ce->getType()); out.push_back(Val{v & ((1ull << w) - 1), nullptr}); return; }
    case Instruction::ZExt: { out.push_back(Val{constInt(ce->getOperand(0)), nullptr}); return; }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: {
      u64 a = constInt(ce->getOperand(0)), b = constInt(ce->getOperand(1)), r = 0;
      switch (ce->getOpcode()) { case Instruction::Add: r = a + b; break; case Instruction::Sub: r = a - b; break; case Instruction::Mul: r = a * b; break; case Instruction::And: r = a & b; break; case Instruction::Or: r = a | b; break; case Instruction::Xor: r = a ^ b; break; case Instruction::Shl: r = a << b; break; default: r = a >> b; }
      unsigned w = tw(ce->getType()); if (w < 64) r &= (1ull << w) - 1; out.push_back(Val{r, nullptr}); return; }
    case Instruction::ICmp: {
      u64 a = constInt(ce->getOperand(0)), b = constInt(ce->getOperand(1)); bool r = false;
      switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: r = a == b; break; case CmpInst::ICMP_NE: r = a != b; break; case CmpInst::ICMP_ULT: r = a < b; break; case CmpInst::ICMP_UGT: r = a > b; break; default: r = a <= b; }
      out.push_back(Val{r, nullptr}); return; }
    case Instruction::Select: { u64 cnd = constInt(ce->getOperand(0)); evalConst(ce->getOperand(cnd ? 1 : 2), out); return; }
    default: break;
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "unsupported constant: %s\n", os.str().c_str()); abort();
}
static std::vector<const GlobalVariable *> pendingInit;
static u64 constAddr(const GlobalVariable *g) {
  if (g->hasExternalWeakLinkage() && g->isDeclaration()) return 0; // optional libc symbols are absent
  auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
  u64 sz = DL->getTypeAllocSize(g->getValueType()); u64 al = g->getAlign() ? g->getAlign()->value() : 16;
  u64 a = allocMem(sz ? sz : 1, std::max<u64>(al, 16), true);
  gaddr[g] = a;
  if (g->isThreadLocal()) tlsVars.push_back({a, sz ? sz : 1});
  pendingInit.push_back(g);
  return a;
}
static TlsImg tlsGrab(u64 a, u64 n) { TlsImg i; i.m.assign(MEM(a), MEM(a) + n); i.t.assign(TAG(a), TAG(a) + n); i.c.resize(n); for (u64 k = 0; k < n; k++) if (i.t[k] == 2) i.c[k] = CELL(a + k); return i; }
static void tlsPut(u64 a, const TlsImg &i) { memcpy(MEM(a), i.m.data(), i.m.size()); memcpy(TAG(a), i.t.data(), i.t.size()); for (u64 k = 0; k < i.t.size(); k++) if (i.t[k] == 2) CELL(a + k) = i.c[k]; }
static void initGlobals() {
  while (!pendingInit.empty()) {
    auto *g = pendingInit.back(); pendingInit.pop_back();
    struct Snap { const GlobalVariable *g; ~Snap() { if (g->isThreadLocal()) { u64 a = gaddr[g], n = std::max<u64>(1, DL->getTypeAllocSize(g->getValueType())); tlsInit[a] = tlsGrab(a, n); } } } snap{g};
    if (!g->hasInitializer()) continue;
    std::vector<Leaf> l; std::vector<Val> v;
    const Constant *c = g->getInitializer();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) continue;
    leaves(g->getValueType(), 0, l); evalConst(c, v);
    if (l.size() != v.size()) { fprintf(stderr, "global init mismatch\n"); abort(); }
    for (size_t i = 0; i < l.size(); i++) storeVal(gaddr[g] + l[i].off, l[i].w, v[i]);
  }
}
static int constSlot(const Constant *c) {
  auto it = constIdx.find(c); if (it != constIdx.end()) return it->second;
  std::vector<Val> v; evalConst(c, v);
  int base = consts.size();
  for (auto &x : v) consts.push_back(x);
  // operand k of this constant is ~(base + k)
  constIdx[c] = base;
  return base;
}
struct Lower {
  Func &f; std::unordered_map<const Value *, int> slot; std::unordered_map<BasicBlock *, u32> bbPos; int next = 0; u32 curLoc = 0;
  std::vector<std::pair<BasicBlock *, u32>> fix; // edges
  Lower(Func &f) : f(f) {}
  int op(const Value *v, int k = 0) {
    if (auto *c = dyn_cast<Constant>(v)) return ~(constSlot(c) + k);
    auto it = slot.find(v);
    if (it == slot.end()) { std::string s; raw_string_ostream os(s); v->print(os); fprintf(stderr, "no slot for %s in %s\n", os.str().c_str(), f.name.c_str()); abort(); }
    return it->second + k;
  }
  int fresh(int n = 1) { int r = next; next += n; return r; }
  int cst(u64 v) { int b = consts.size(); static std::unordered_map<u64, int> m; auto it = m.find(v); if (it != m.end()) return it->second; consts.push_back(Val{v, nullptr}); return m[v] = ~b; }
  Inst &emit(u16 o) { f.code.emplace_back(); Inst &i = f.code.back(); memset(&i, 0, sizeof i); i.op = o; i.loc = curLoc; return i; }
  u32 edge(BasicBlock *from, BasicBlock *to) {
    u32 id = f.edges.size(); f.edges.push_back({0, (u32)f.copies.size(), 0});
    for (auto &phi : to->phis()) { Value *v = phi.getIncomingValueForBlock(from); int n = nsl(phi.getType()); for (int k = 0; k < n; k++) f.copies.push_back({op(&phi, k), op(v, k)}); }
    f.edges[id].cn = f.copies.size() - f.edges[id].cs;
    fix.push_back({to, id});
    return id;
  }
  void bin(Op o, unsigned w, int d, int a, int b) { Inst &i = emit(I_BIN); i.sub = o; i.w = w; i.d = d; i.a = a; i.b = b; }
  void copy(int d, int a) { Inst &i = emit(I_COPY); i.d = d; i.a = a; }
  void unsupported(const Instruction &I) { std::string s; raw_string_ostream os(s); I.print(os); Inst &i = emit(I_INTR); i.sub = 255; i.x = f.calls.size(); CallT c; c.iname = "unsupported: " + os.str(); f.calls.push_back(c); }
  int ptrAdd(int base, GEPOperator *g) {
    int cur = base; i64 off = 0;
    for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
      Value *idx = gti.getOperand();
      if (StructType *st = gti.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
      u64 sz = DL->getTypeAllocSize(gti.getIndexedType());
      if (auto *ci = dyn_cast<ConstantInt>(idx)) { off += ci->getSExtValue() * (i64)sz; continue; }
      int d = fresh(); Inst &i = emit(I_PTRADD); i.d = d; i.a = cur; i.b = op(idx); i.w = tw(idx->getType()); i.imm = sz; cur = d;
    }
    if (off || cur == base) { int d = fresh(); Inst &i = emit(I_PTRADDC); i.d = d; i.a = cur; i.imm = (u64)off; cur = d; }
    return cur;
  }
  static u32 locId(const DebugLoc &dl) {
    if (!dl) return 0;
    auto *s = dyn_cast_or_null<DIScope>(dl.getScope()); if (!s) return 0;
    std::string fn = s->getFilename().str();
    if (!fn.empty() && fn[0] != '/' && !s->getDirectory().empty()) fn = s->getDirectory().str() + "/" + fn;
    auto key = std::make_pair(fn, dl.getLine());
    auto it = locMap.find(key); if (it != locMap.end()) return it->second;
    if (locNames.size() >= MAXLOC) return 0;
    u32 id = locNames.size(); locNames.push_back(fn + ":" + std::to_string(dl.getLine())); locMap[key] = id; return id;
  }
  void run() {
    Function *F = f.F;
    for (auto &a : F->args()) { int n = nsl(a.getType()); slot[&a] = fresh(n); }
    f.nargs = next;
    for (auto &B : *F) for (auto &I : B) { int n = nsl(I.getType()); if (n) slot[&I] = fresh(n); }
    for (auto &B : *F) {
      bbPos[&B] = f.code.size();
      for (auto &I : B) { if (isa<PHINode>(I)) continue; u32 l = locId(I.getDebugLoc()); if (l) curLoc = l; lower(I, &B); }
    }
    for (auto &p : fix) f.edges[p.second].target = bbPos.at(p.first);
    f.nslots = next;
  }
  void lower(Instruction &I, BasicBlock *B) {
    int n = nsl(I.getType()); int d = n ? slot[&I] : -1;
    Type *T = I.getType();
    if (auto *b = dyn_cast<BinaryOperator>(&I)) {
      Op o;
      switch (b->getOpcode()) {
      case Instruction::Add: o = O_ADD; break; case Instruction::Sub: o = O_SUB; break; case Instruction::Mul: o = O_MUL; break;
      case Instruction::UDiv: o = O_UDIV; break; case Instruction::SDiv: o = O_SDIV; break; case Instruction::URem: o = O_UREM; break; case Instruction::SRem: o = O_SREM; break;
      case Instruction::Shl: o = O_SHL; break; case Instruction::LShr: o = O_LSHR; break; case Instruction::AShr: o = O_ASHR; break;
      case Instruction::And: o = O_AND; break; case Instruction::Or: o = O_OR; break; case Instruction::Xor: o = O_XOR; break;
      case Instruction::FAdd: o = O_FADD; break; case Instruction::FSub: o = O_FSUB; break; case Instruction::FMul: o = O_FMUL; break; case Instruction::FDiv: o = O_FDIV; break; case Instruction::FRem: o = O_FREM; break;
      default: unsupported(I); return;
      }
      for (int k = 0; k < n; k++) bin(o, tw(T->getScalarType()), d + k, op(I.getOperand(0), k), op(I.getOperand(1), k));
      return;
    }
    if (auto *u = dyn_cast<UnaryOperator>(&I)) { for (int k = 0; k < n; k++) bin(O_FNEG, tw(T->getScalarType()), d + k, op(u->getOperand(0), k), op(u->getOperand(0), k)); return; }
    if (auto *c = dyn_cast<ICmpInst>(&I)) {
      unsigned w = tw(c->getOperand(0)->getType()->getScalarType());
      for (int k = 0; k < n; k++) { Inst &i = emit(I_CMP); i.d = d + k; i.a = op(c->getOperand(0), k); i.b = op(c->getOperand(1), k); i.w = w; i.sub = c->getPredicate(); }
      return;
    }
    if (auto *c = dyn_cast<FCmpInst>(&I)) {
      unsigned w = tw(c->getOperand(0)->getType()->getScalarType());
      for (int k = 0; k < n; k++) { Inst &i = emit(I_FCMP); i.d = d + k; i.a = op(c->getOperand(0), k); i.b = op(c->getOperand(1), k); i.w = w; i.sub = c->getPredicate(); }
      return;
    }
    if (auto *c = dyn_cast<CastInst>(&I)) {
      Type *S = c->getSrcTy();
      if (c->getOpcode() == Instruction::BitCast) {
        unsigned sn = nsl(S);
        if ((int)sn == n && tw(S->getScalarType()) == tw(T->getScalarType())) { for (int k = 0; k < n; k++) copy(d + k, op(c->getOperand(0), k)); return; }
        // general: concat all then split
        int t = d; if (n > 1) t = fresh();
        unsigned ew = tw(S->getScalarType()), tot = ew * sn;
        if (sn > 1) { Inst &i = emit(I_VEC2INT); i.d = t; i.a = op(c->getOperand(0)); i.x = sn; i.w = ew; }
        else { if (n > 1) copy(t, op(c->getOperand(0))); else { copy(d, op(c->getOperand(0))); return; } }
        if (n > 1) { Inst &i = emit(I_INT2VEC); i.d = d; i.a = t; i.x = n; i.w = tw(T->getScalarType()); i.w2 = tot > 128 ? 0 : tot; }
        return;
      }
      unsigned sw = tw(S->getScalarType()), dw = tw(T->getScalarType());
      for (int k = 0; k < n; k++) { Inst &i = emit(I_CAST); i.sub = c->getOpcode(); i.d = d + k; i.a = op(c->getOperand(0), k); i.w = dw; i.w2 = sw; }
      return;
    }
    if (auto *s = dyn_cast<SelectInst>(&I)) {
      bool vc = s->getCondition()->getType()->isVectorTy();
      std::vector<Leaf> l; leaves(T, 0, l);
      for (int k = 0; k < n; k++) { Inst &i = emit(I_SELECT); i.d = d + k; i.a = op(s->getCondition(), vc ? k : 0); i.b = op(s->getTrueValue(), k); i.c = op(s->getFalseValue(), k); i.w = l[k].w; }
      return;
    }
    if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
      if (T->isVectorTy()) { unsupported(I); return; }
      int r = ptrAdd(op(g->getPointerOperand()), cast<GEPOperator>(g));
      // last emitted instruction wrote r; retarget
      f.code.back().d = d; (void)r; return;
    }
    if (auto *l = dyn_cast<LoadInst>(&I)) {
      std::vector<Leaf> lv; leaves(T, 0, lv);
      for (int k = 0; k < n; k++) { Inst &i = emit(I_LOAD); i.d = d + k; i.a = op(l->getPointerOperand()); i.imm = lv[k].off; i.w = lv[k].w; i.flag = l->isAtomic(); }
      return;
    }
    if (auto *s = dyn_cast<StoreInst>(&I)) {
      std::vector<Leaf> lv; leaves(s->getValueOperand()->getType(), 0, lv);
      for (size_t k = 0; k < lv.size(); k++) { Inst &i = emit(I_STORE); i.b = op(s->getValueOperand(), k); i.a = op(s->getPointerOperand()); i.imm = lv[k].off; i.w = lv[k].w; i.flag = !s->isAtomic() ? 0 : s->getOrdering() == AtomicOrdering::SequentiallyConsistent ? 2 : 1; }
      return;
    }
    if (auto *a = dyn_cast<AllocaInst>(&I)) {
      Inst &i = emit(I_ALLOCA); i.d = d; i.a = op(a->getArraySize()); i.imm = DL->getTypeAllocSize(a->getAllocatedType()); i.x = a->getAlign().value(); return;
    }
    if (auto *b = dyn_cast<BranchInst>(&I)) {
      if (b->isUnconditional()) { u32 e = edge(B, b->getSuccessor(0)); Inst &i = emit(I_BR); i.x = e; }
      else { u32 e0 = edge(B, b->getSuccessor(0)), e1 = edge(B, b->getSuccessor(1)); int c = op(b->getCondition()); Inst &i = emit(I_CBR); i.a = c; i.x = e0; i.y = e1; }
      return;
    }
    if (auto *s = dyn_cast<SwitchInst>(&I)) {
      SwitchT t; t.def = edge(B, s->getDefaultDest());
      for (auto &c : s->cases()) t.cases.push_back({c.getCaseValue()->getValue().getLimitedValue(), edge(B, c.getCaseSuccessor())});
      int c = op(s->getCondition()); unsigned w = tw(s->getCondition()->getType());
      Inst &i = emit(I_SWITCH); i.a = c; i.w = w; i.x = f.switches.size(); f.switches.push_back(t); return;
    }
    if (auto *r = dyn_cast<ReturnInst>(&I)) {
      Inst &i = emit(I_RET); i.a = 0; i.x = 0;
      if (Value *v = r->getReturnValue()) { int m = nsl(v->getType()); int base = op(v); i.a = base; i.x = m; i.flag = isa<Constant>(v); }
      return;
    }
    if (isa<UnreachableInst>(I)) { emit(I_UNREACH); return; }
    if (auto *e = dyn_cast<ExtractValueInst>(&I)) { unsigned off = aggOff(e->getAggregateOperand()->getType(), e->getIndices()); for (int k = 0; k < n; k++) copy(d + k, op(e->getAggregateOperand(), off + k)); return; }
    if (auto *e = dyn_cast<InsertValueInst>(&I)) {
      unsigned off = aggOff(T, e->getIndices()); int m = nsl(e->getInsertedValueOperand()->getType());
      for (int k = 0; k < n; k++) if (k < (int)off || k >= (int)off + m) copy(d + k, op(e->getAggregateOperand(), k));
      for (int k = 0; k < m; k++) copy(d + off + k, op(e->getInsertedValueOperand(), k));
      return;
    }
    if (auto *e = dyn_cast<ExtractElementInst>(&I)) {
      if (auto *ci = dyn_cast<ConstantInt>(e->getIndexOperand())) { copy(d, op(e->getVectorOperand(), ci->getZExtValue())); return; }
      Inst &i = emit(I_EXTELEM); i.d = d; i.a = op(e->getVectorOperand()); i.b = op(e->getIndexOperand()); i.flag = isa<Constant>(e->getVectorOperand()); return;
    }
    if (auto *e = dyn_cast<InsertElementInst>(&I)) {
      if (auto *ci = dyn_cast<ConstantInt>(e->getOperand(2))) { for (int k = 0; k < n; k++) copy(d + k, k == (int)ci->getZExtValue() ? op(e->getOperand(1)) : op(e->getOperand(0), k)); return; }
      unsupported(I); return;
    }
    if (auto *s = dyn_cast<ShuffleVectorInst>(&I)) {
      int m0 = nsl(s->getOperand(0)->getType());
      for (int k = 0; k < n; k++) { int m = s->getMaskValue(k); if (m < 0) copy(d + k, cst(0)); else if (m < m0) copy(d + k, op(s->getOperand(0), m)); else copy(d + k, op(s->getOperand(1), m - m0)); }
      return;
    }
    if (auto *fr = dyn_cast<FreezeInst>(&I)) { for (int k = 0; k < n; k++) copy(d + k, op(fr->getOperand(0), k)); return; }
    if (isa<FenceInst>(I)) return;
    if (auto *r = dyn_cast<AtomicRMWInst>(&I)) { Inst &i = emit(I_RMW); i.d = d; i.a = op(r->getPointerOperand()); i.b = op(r->getValOperand()); i.w = tw(T); i.sub = r->getOperation(); return; }
    if (auto *r = dyn_cast<AtomicCmpXchgInst>(&I)) { Inst &i = emit(I_CMPXCHG); i.d = d; i.a = op(r->getPointerOperand()); i.b = op(r->getCompareOperand()); i.c = op(r->getNewValOperand()); i.w = tw(r->getCompareOperand()->getType()); return; }
    if (auto *c = dyn_cast<CallBase>(&I)) {
      CallT t; t.fn = -1; t.callee = 0; t.nret = n; t.iid = 0;
      { std::vector<Leaf> l; leaves(T, 0, l); for (auto &x : l) t.retw.push_back(x.w); }
      Function *callee = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
      if (auto *al = dyn_cast<GlobalAlias>(c->getCalledOperand())) callee = dyn_cast<Function>(al->getAliasee());
      if (callee && callee->isIntrinsic()) {
        t.iid = callee->getIntrinsicID();
        switch (t.iid) {
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
        case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::donothing:
          if (n) for (int k = 0; k < n; k++) copy(d + k, cst(0));
          return;
        default: break;
        }
        t.iname = callee->getName().str();
      } else if (!callee && isa<InlineAsm>(c->getCalledOperand())) { return; }
      for (unsigned k = 0; k < c->arg_size(); k++) {
        Value *a = c->getArgOperand(k); if (a->getType()->isMetadataTy()) continue;
        std::vector<Leaf> l; leaves(a->getType(), 0, l);
        for (size_t j = 0; j < l.size(); j++) { t.args.push_back(op(a, j)); t.argw.push_back(l[j].w); }
      }
      if (t.iid) {
        // vector intrinsics: elementwise for those returning vectors
        if (T->isVectorTy() && t.args.size() % n == 0 && n > 1) {
          unsigned na = c->arg_size();
          for (int k = 0; k < n; k++) { CallT u = t; u.nret = 1; u.retw = {t.retw[0]}; u.args.clear(); u.argw.clear();
            for (unsigned q = 0; q < na; q++) { Value *a = c->getArgOperand(q); bool va = a->getType()->isVectorTy(); u.args.push_back(op(a, va ? k : 0)); u.argw.push_back(tw(a->getType()->getScalarType())); }
            Inst &i = emit(I_INTR); i.d = d + k; i.x = f.calls.size(); f.calls.push_back(u); }
          return;
        }
        Inst &i = emit(I_INTR); i.d = d; i.x = f.calls.size(); f.calls.push_back(t);
      } else {
        if (callee) t.fn = funcIdx.at(callee); else t.callee = op(c->getCalledOperand());
        Inst &i = emit(I_CALL); i.d = d; i.x = f.calls.size(); i.flag = callee ? 1 : 0; f.calls.push_back(t);
      }
      if (auto *iv = dyn_cast<InvokeInst>(&I)) { u32 e = edge(B, iv->getNormalDest()); Inst &i = emit(I_BR); i.x = e; }
      return;
    }
    if (isa<LandingPadInst>(I) || isa<ResumeInst>(I) || isa<CleanupPadInst>(I)) { emit(I_UNREACH); return; }
    unsupported(I);
  }
  unsigned aggOff(Type *t, ArrayRef<unsigned> idx) {
    unsigned off = 0;
    for (unsigned i : idx) {
      if (auto *s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) off += nsl(s->getElementType(k)); t = s->getElementType(i); }
      else { auto *a = cast<ArrayType>(t); off += i * nsl(a->getElementType()); t = a->getElementType(); }
    }
    return off;
  }
};
static void ensureLowered(Func *f) {
  if (f->lowered) return;
  f->lowered = true;
  Lower l(*f); l.run();
  initGlobals();
}

// ---------------------------------------------------------------------------------------------- externals
typedef void (*Handler)(const CallT &ct, Val *args, Val *ret);
static std::vector<Handler> handlers; static std::unordered_map<std::string, Handler> hmap;
static std::string rdStr(u64 p, u64 n) { std::string s; for (u64 i = 0; i < n; i++) { Val v = loadVal(p + i, 8); s += v.e ? '?' : (char)v.c; } return s; }
static void tagHit(const std::string &t) {
  lock();
  int i; for (i = 0; i < sh->ntags; i++) if (t == sh->tagName[i]) break;
  if (i == sh->ntags && i < MAXTAGS) { snprintf(sh->tagName[i], 64, "%s", t.c_str()); sh->ntags++; }
  if (i < MAXTAGS) sh->tagCount[i]++;
  unlock();
}
static void doAssert(Val c, const std::string &msg) {
  myAsserts++;
  if (!c.e) { if (!c.c) violation("assert", msg); return; }
  if (c.e->op == O_CONST) { if (!c.e->c) violation("assert", msg); return; }
  if (sh->stop) endPath(false);
  Expr *n = mkNot(c.e);
  if (!(evalExpr(c.e, model) & 1)) { violation("assert", msg); }
  std::vector<u64> m; Res r = query(n, m, true);
  if (r == SAT) { setModel(m); violation("assert", msg); }
  if (r == UNKNOWN) { __atomic_fetch_add(&sh->unknowns, 1, __ATOMIC_SEQ_CST); sh->incomplete = 1; }
  addPC(c.e);
}
static u64 fakeClock = 1000000000ull;
static u64 errnoAddr = 0;
#define H(name) static void h_##name(const CallT &ct, Val *a, Val *r)
H(sym_int) { // (ptr,len,bits) -> u64
  std::string n = rdStr(C(a[0]), C(a[1])); unsigned w = (unsigned)C(a[2]);
  Expr *v = mkVar(w, nvars++); solverNewVar(v); model.push_back(0); newEpoch();
  // keep PC satisfied: new variables are unconstrained
  inputs.push_back({n, v, 0, w}); r[0] = V(mkZext(v, 64));
}
H(sym_assume) {
  if (!a[0].e) { if (!(a[0].c & 1)) endPath(true); return; }
  Expr *c = a[0].e; if (c->w != 1) c = mkExtract(c, 0, 1);
  if (c->op == O_CONST) { if (!c->c) endPath(true); return; }
  if (!(evalExpr(c, model) & 1)) { std::vector<u64> m; Res q = query(c, m); if (q == UNSAT) endPath(true); if (q == UNKNOWN) { sh->incomplete = 1; __atomic_fetch_add(&sh->unknowns, 1, __ATOMIC_SEQ_CST); endPath(true); } setModel(m); }
  addPC(c);
}
H(sym_assert) { Val c = a[0]; if (c.e && c.e->w != 1) c = V(mkExtract(c.e, 0, 1)); else if (!c.e) c.c &= 1; doAssert(c, rdStr(C(a[1]), C(a[2]))); }
H(sym_reals) { g_reals = true; }
H(sym_concretize) { r[0] = Val{C(a[0]), nullptr}; }
H(sym_reach) { tagHit(rdStr(C(a[0]), C(a[1]))); }
H(sym_is_symbolic) { r[0] = Val{1, nullptr}; }
H(sym_end_path) { endPath(true); }
H(sym_print) { std::string s = rdStr(C(a[0]), C(a[1])); fprintf(stderr, "[%d] %s %s\n", (int)getpid(), s.c_str(), a[2].e ? exprStr(a[2].e).c_str() : std::to_string(a[2].c).c_str()); }
H(malloc) { r[0] = Val{allocMem(C(a[0]), 16, false), nullptr}; }
H(calloc) { r[0] = Val{allocMem(C(a[0]) * C(a[1]), 16, true), nullptr}; }
static void freeMem(u64 p) { if (!p) return; auto it = allocSize.find(p); if (it == allocSize.end() || it->second == ~0ull) violation("memory", "free of invalid pointer"); if (it->second) clearCells(p, it->second), memset(TAG(p), 0, it->second); it->second = ~0ull; }
H(free) { freeMem(C(a[0])); }
H(realloc) { u64 p = C(a[0]), n = C(a[1]); if (!p) { r[0] = Val{allocMem(n, 16, false), nullptr}; return; } auto it = allocSize.find(p); if (it == allocSize.end()) violation("memory", "realloc of invalid pointer"); u64 o = it->second; u64 q = allocMem(n, 16, false); copyMem(q, p, std::min(o, n)); freeMem(p); r[0] = Val{q, nullptr}; }
H(posix_memalign) { u64 q = allocMem(C(a[2]), C(a[1]), false); storeVal(C(a[0]), 64, Val{q, nullptr}); r[0] = Val{0, nullptr}; }
H(aligned_alloc) { r[0] = Val{allocMem(C(a[1]), C(a[0]), false), nullptr}; }
H(rust_alloc) { r[0] = Val{allocMem(C(a[0]), C(a[1]), false), nullptr}; }
H(rust_alloc_zeroed) { r[0] = Val{allocMem(C(a[0]), C(a[1]), true), nullptr}; }
H(rust_dealloc) { freeMem(C(a[0])); }
H(rust_realloc) { u64 p = C(a[0]), o = C(a[1]), al = C(a[2]), n = C(a[3]); u64 q = allocMem(n, al, false); copyMem(q, p, std::min(o, n)); freeMem(p); r[0] = Val{q, nullptr}; }
H(memcpy) { u64 d = C(a[0]); copyMem(d, C(a[1]), C(a[2])); r[0] = Val{d, nullptr}; }
H(memset) { u64 d = C(a[0]); Val b = a[1]; if (b.e) b = V(mkExtract(b.e, 0, 8)); else b.c &= 255; setMem(d, b, C(a[2])); r[0] = Val{d, nullptr}; }
H(memcmp) {
  u64 p = C(a[0]), q = C(a[1]), n = C(a[2]); unsigned w = ct.retw[0];
  Expr *res = mkConst(0, w);
  for (u64 i = n; i-- > 0;) {
    Expr *x = X(loadVal(p + i, 8), 8), *y = X(loadVal(q + i, 8), 8);
    res = mkIte(mk(O_EQ, 1, x, y), res, mkIte(mk(O_ULT, 1, x, y), mkConst((u128)-1, w), mkConst(1, w)));
  }
  r[0] = V(res);
}
H(bcmp) {
  u64 p = C(a[0]), q = C(a[1]), n = C(a[2]); unsigned w = ct.retw[0];
  Expr *eq = mkConst(1, 1);
  for (u64 i = 0; i < n; i++) eq = mk(O_AND, 1, eq, mk(O_EQ, 1, X(loadVal(p + i, 8), 8), X(loadVal(q + i, 8), 8)));
  r[0] = V(mkIte(eq, mkConst(0, w), mkConst(1, w)));
}
H(strlen) { u64 p = C(a[0]); u64 n = 0; while (C(loadVal(p + n, 8))) n++; r[0] = Val{n, nullptr}; }
H(memchr) { u64 p = C(a[0]); u64 c = C(a[1]) & 255, n = C(a[2]); r[0] = Val{0, nullptr}; for (u64 i = 0; i < n; i++) if (C(loadVal(p + i, 8)) == c) { r[0].c = p + i; return; } }
H(clock_gettime) { fakeClock += 1000; u64 p = C(a[1]); storeVal(p, 64, Val{fakeClock / 1000000000ull, nullptr}); storeVal(p + 8, 64, Val{fakeClock % 1000000000ull, nullptr}); r[0] = Val{0, nullptr}; }
H(ret0) { if (ct.nret) r[0] = Val{0, nullptr}; }
H(retm1) { unsigned w = ct.retw[0]; r[0] = Val{w < 64 ? (1ull << w) - 1 : ~0ull, nullptr}; }
H(errno_location) { if (!errnoAddr) errnoAddr = allocMem(8, 8, true); r[0] = Val{errnoAddr, nullptr}; }
H(getrandom) { u64 p = C(a[0]), n = C(a[1]); setMem(p, Val{0x5a, nullptr}, n); r[0] = Val{n, nullptr}; }
extern void setErrnoV(u64);
static void switchTo(size_t k) {
  if (k == curCtx) return;
  Ctx &o = ctxs[curCtx];
  o.frames.swap(frames); o.regTop = regTop; o.regLimit = regLimit; o.stackTop = stackTop; o.stackEnd = stackEnd;
  Ctx &n = ctxs[k];
  for (auto &t : tlsVars) { o.tls[t.a] = tlsGrab(t.a, t.n); auto it = n.tls.find(t.a); tlsPut(t.a, it != n.tls.end() ? it->second : tlsInit.at(t.a)); }
  if (!n.pend.empty()) { auto p = n.pend; n.pend.clear(); for (auto &x : p) storeVal(x.a, x.w, x.v); }
  frames.swap(n.frames); regTop = n.regTop; regLimit = n.regLimit; stackTop = n.stackTop; stackEnd = n.stackEnd;
  curCtx = k; switched = true;
}
// the current context cannot continue: run another one
static void reschedule() {
  size_t n = ctxs.size();
  for (size_t d = 1; d <= n; d++) { size_t k = (curCtx + d) % n; if (ctxs[k].st == Ctx::RUN) { switchTo(k); switched = true; return; } }
  for (size_t d = 0; d < n; d++) { size_t k = (curCtx + d) % n; if (ctxs[k].st == Ctx::FUTEX && ctxs[k].timed) { ctxs[k].st = Ctx::RUN; ctxs[k].timedOut = true; switchTo(k); switched = true; return; } }
  violation("deadlock", "all threads are blocked");
}
static void storeVal(u64, unsigned, Val);
static void drain(Ctx &c) { if (c.pend.empty()) return; auto p = c.pend; c.pend.clear(); for (auto &x : p) storeVal(x.a, x.w, x.v); }
static bool delayStore(u64 a, unsigned w, const Val &v) {
  Ctx &me = ctxs[curCtx];
  if (me.pend.empty()) {
    if (!delayBudget || !preemptBudget) return false;
    bool other = false; for (size_t k = 0; k < ctxs.size(); k++) if (k != curCtx && ctxs[k].st == Ctx::RUN) other = true;
    if (!other) return false;
    if (sh->stop) endPath(false);
    bool d = doFork(); inputs.push_back({"sched", nullptr, d, 1});
    if (!d) return false;
    delayBudget--;
  }
  me.pend.push_back({a, w, v}); return true;
}
// a scheduling point: before an atomic access the schedule may switch to another runnable thread (explored by forking)
static bool preempt() {
  Ctx &me = ctxs[curCtx];
  if (me.resumed) { me.resumed = false; return false; }
  size_t n = ctxs.size(), k = curCtx;
  for (size_t d = 1; d < n; d++) if (ctxs[(curCtx + d) % n].st == Ctx::RUN) { k = (curCtx + d) % n; break; }
  if (k == curCtx) return false;
  if (sh->stop) endPath(false);
  bool sw = doFork();
  inputs.push_back({"sched", nullptr, sw, 1});
  if (!sw) return false;
  preemptBudget--; me.resumed = true; switchTo(k); switched = false;
  return true;
}
H(sym_preempt) { preemptBudget = C(a[0]); delayBudget = C(a[1]); }
static void pushFrame(Func *f, int d, u32 nret);
extern void setErrnoV(u64);
H(pthread_create) {
  if (ctxs.size() >= 32) fatal("too many threads");
  u64 fn = C(a[2]), arg = C(a[3]);
  if (fn < FBASE || (fn - FBASE) % 16 || (fn - FBASE) / 16 >= funcs.size()) violation("memory", "pthread_create with an invalid function");
  size_t id = ctxs.size(); ctxs.emplace_back(); Ctx &c = ctxs.back();
  c.regTop = regStack + (REGMAX / sizeof(Val)) / 64 * (32 + id); c.regLimit = c.regTop + (REGMAX / sizeof(Val)) / 64;
  c.stackTop = STACK0 + (128ull << 20) + (4ull << 20) * id; c.stackEnd = c.stackTop + (4ull << 20) - 64;
  // build the first frame of the new context
  std::vector<Frame> keep; keep.swap(frames); Val *rt = regTop, *rl = regLimit; u64 sp = stackTop;
  regTop = c.regTop; regLimit = c.regLimit; stackTop = c.stackTop;
  pushFrame(funcs[(fn - FBASE) / 16], 0, 0); frames.back().regs[0] = Val{arg, nullptr};
  c.regTop = regTop; c.frames.swap(frames); frames.swap(keep); regTop = rt; regLimit = rl; stackTop = sp;
  storeVal(C(a[0]), 64, Val{id, nullptr}); r[0] = Val{0, nullptr};
}
H(pthread_join) { u64 id = C(a[0]); if (id >= ctxs.size()) fatal("join"); r[0] = Val{0, nullptr}; if (ctxs[id].st != Ctx::DONE) { ctxs[curCtx].st = Ctx::JOIN; ctxs[curCtx].wait = id; reschedule(); } }
H(pthread_self) { r[0] = Val{curCtx, nullptr}; }
static bool futex(Val *a, Val *r) {
  u64 op = C(a[2]) & 127; u64 addr = C(a[1]);
  if (op == 0 || op == 9) { // WAIT
    if (C(loadVal(addr, 32)) != (C(a[3]) & 0xffffffff)) { setErrnoV(11); r[0] = Val{~0ull, nullptr}; return true; }
    Ctx &c = ctxs[curCtx];
    if (c.timedOut) { c.timedOut = false; setErrnoV(110); r[0] = Val{~0ull, nullptr}; return true; }
    c.st = Ctx::FUTEX; c.wait = addr; c.timed = C(a[4]) != 0; r[0] = Val{0, nullptr};
    frames.back().pc--; // the wait is re-examined when the context runs again
    reschedule(); return true;
  }
  if (op == 1 || op == 10) { u64 n = C(a[3]) & 0x7fffffff, k = 0; for (auto &c : ctxs) if (c.st == Ctx::FUTEX && c.wait == addr && k < n) { c.st = Ctx::RUN; k++; } r[0] = Val{k, nullptr}; return true; }
  return false;
}
H(syscall) { u64 nr = C(a[0]); if (nr == 202 && futex(a, r)) return; if (nr == 318) { u64 p = C(a[1]), n = C(a[2]); setMem(p, Val{0x5a, nullptr}, n); r[0] = Val{n, nullptr}; } else if (nr == 332) { setErrnoV(38); r[0] = Val{~0ull, nullptr}; } else r[0] = Val{0, nullptr}; }
H(abort) { violation("abort", "abort() called"); }
H(panic) { violation("panic", frames.back().f->dem); }
static Expr *dc(double d) { return mkConst(dbits(d), 64); }
// x is in [k, k+1) of unit c for a small k >= 0?  (real mode; forks)
static int smallMultiple(Expr *x, Expr *c) {
  double cv = asd(c->c);
  for (int k = 0; k < 3; k++) if (decide(mk(O_AND, 1, mk(O_FLE, 1, dc(k * cv), x), mk(O_FLT, 1, x, dc((k + 1) * cv))))) return k;
  return -1;
}
static Expr *fremE(Expr *x, Expr *c) {
  if (g_reals && x->op != O_CONST && c->op == O_CONST && asd(c->c) > 0) { int k = smallMultiple(x, c); if (k == 0) return x; if (k > 0) return mk(O_FSUB, 64, x, dc(k * asd(c->c))); }
  return mk(O_FREM, 64, x, c);
}
static Expr *ftruncE(Op o, Expr *x) {
  if (g_reals && x->op != O_CONST && x->w == 64) { int k = smallMultiple(x, dc(1.0)); if (k >= 0 && (o == O_FTRUNC || o == O_FFLOOR)) return dc(k); }
  return mk(o, x->w, x);
}
H(fmod) { r[0] = V(fremE(X(a[0], 64), X(a[1], 64))); }
#define MATH1(n, fn) H(n) { double x = asd(C(a[0])); r[0] = Val{(u64)dbits(fn(x)), nullptr}; }
MATH1(sin, sin) MATH1(cos, cos) MATH1(tan, tan) MATH1(asin, asin) MATH1(acos, acos) MATH1(atan, atan) MATH1(exp, exp) MATH1(log, log)
H(atan2) { r[0] = Val{(u64)dbits(atan2(asd(C(a[0])), asd(C(a[1])))), nullptr}; }
H(pow) { r[0] = Val{(u64)dbits(pow(asd(C(a[0])), asd(C(a[1])))), nullptr}; }

// ---- a tiny in-memory file system (files keep symbolic bytes) ----
struct VFile { std::string name; std::vector<std::pair<u8, Expr *>> data; bool exists = false; bool dir = false; };
static std::vector<VFile> vfiles; struct VFd { int file; u64 pos; bool open; }; static std::vector<VFd> vfds;
static int findFile(const std::string &n, bool create) { for (size_t i = 0; i < vfiles.size(); i++) if (vfiles[i].name == n && (vfiles[i].exists || create)) { vfiles[i].exists = true; return i; } if (!create) return -1; vfiles.push_back({n, {}, true, false}); return vfiles.size() - 1; }
static std::string cstr(u64 p) { std::string s; for (;; p++) { char c = (char)C(loadVal(p, 8)); if (!c) return s; s += c; } }
static void setErrno(u64 e);
void setErrnoV(u64 e) { setErrno(e); }
static void setErrno(u64 e) { if (!errnoAddr) errnoAddr = allocMem(8, 8, true); storeVal(errnoAddr, 32, Val{e, nullptr}); }
static bool dirExists(const std::string &n);
H(open) {
  std::string n = cstr(C(a[0])); u64 fl = C(a[1]) & 0xffffffff; bool create = fl & 0100, trunc = fl & 01000;
  int i = create && !dirExists(n) ? -1 : findFile(n, create); if (i < 0) { setErrno(2); r[0] = Val{0xffffffffull, nullptr}; return; }
  if (trunc) vfiles[i].data.clear();
  vfds.push_back({i, (fl & 02000) ? vfiles[i].data.size() : 0, true}); r[0] = Val{vfds.size() - 1 + 100, nullptr};
}
static VFd *fdOf(u64 fd) { fd &= 0xffffffff; if (fd < 100 || fd - 100 >= vfds.size()) return nullptr; return &vfds[fd - 100]; }
H(write) {
  VFd *d = fdOf(C(a[0])); u64 p = C(a[1]), n = C(a[2]);
  if (!d) { if (getenv("SYMEX_STDOUT")) { std::string s = rdStr(p, n); fputs(s.c_str(), stderr); } r[0] = Val{n, nullptr}; return; }
  auto &f = vfiles[d->file];
  if (f.data.size() < d->pos + n) f.data.resize(d->pos + n, {0, nullptr});
  for (u64 i = 0; i < n; i++) { Val v = loadVal(p + i, 8); f.data[d->pos + i] = {(u8)v.c, v.e}; }
  d->pos += n; r[0] = Val{n, nullptr};
}
H(writev) { u64 p = C(a[1]), n = C(a[2]); u64 tot = 0; for (u64 i = 0; i < n; i++) tot += C(loadVal(p + 16 * i + 8, 64)); r[0] = Val{tot, nullptr}; }
H(read) {
  VFd *d = fdOf(C(a[0])); u64 p = C(a[1]), n = C(a[2]); if (!d) { r[0] = Val{0, nullptr}; return; }
  auto &f = vfiles[d->file]; u64 k = d->pos < f.data.size() ? std::min<u64>(n, f.data.size() - d->pos) : 0;
  checkAddr(p, k, "write");
  // re-assemble aligned words so that round-tripped values stay whole
  for (u64 i = 0; i < k; i++) { auto &x = f.data[d->pos + i]; storeVal(p + i, 8, Val{x.first, x.second}); }
  for (u64 i = 0; i < k; i++) if (*TAG(p + i) == 2 && CELL(p + i)->op == O_EXTRACT && CELL(p + i)->aux == 0) { unsigned w = CELL(p + i)->k[0]->w; if (w >= 16 && w <= 64 && w % 8 == 0 && i + w / 8 <= k) { Val v = loadVal(p + i, w); if (v.e && v.e->op != O_CONCAT) storeVal(p + i, w, v); } }
  d->pos += k; r[0] = Val{k, nullptr};
}
H(close) { VFd *d = fdOf(C(a[0])); if (d) d->open = false; r[0] = Val{0, nullptr}; }
H(lseek) { VFd *d = fdOf(C(a[0])); if (!d) { r[0] = Val{~0ull, nullptr}; return; } i64 off = (i64)C(a[1]); int wh = (int)C(a[2]); d->pos = wh == 0 ? off : wh == 1 ? d->pos + off : vfiles[d->file].data.size() + off; r[0] = Val{d->pos, nullptr}; }
static void fillStat(u64 p, int file) { setMem(p, Val{0, nullptr}, 144); storeVal(p + 24, 32, Val{vfiles[file].dir ? 0040755u : 0100644u, nullptr}); storeVal(p + 48, 64, Val{vfiles[file].data.size(), nullptr}); }
H(fstat) { VFd *d = fdOf(C(a[0])); if (!d) { r[0] = Val{0xffffffff, nullptr}; return; } fillStat(C(a[1]), d->file); r[0] = Val{0, nullptr}; }
H(stat) { std::string n = cstr(C(a[0])); int i = findFile(n, false); if (i < 0) { setErrno(2); r[0] = Val{0xffffffff, nullptr}; return; } fillStat(C(a[1]), i); r[0] = Val{0, nullptr}; }
static bool dirExists(const std::string &n) { size_t k = n.rfind('/'); if (k == std::string::npos || k == 0) return true; int i = findFile(n.substr(0, k), false); return i >= 0 && vfiles[i].dir; }
H(mkdir) {
  std::string n = cstr(C(a[0])); if (findFile(n, false) >= 0) { setErrno(17); r[0] = Val{0xffffffff, nullptr}; return; }
  if (!dirExists(n)) { setErrno(2); r[0] = Val{0xffffffff, nullptr}; return; }
  int i = findFile(n, true); vfiles[i].dir = true; r[0] = Val{0, nullptr}; }
H(statx) { // fall back to fstat: ENOSYS
  setErrno(38); r[0] = Val{0xffffffff, nullptr}; }

static void initHandlers() {
  hmap = {{"__sym_int", h_sym_int}, {"__sym_assume", h_sym_assume}, {"__sym_assert", h_sym_assert}, {"__sym_concretize", h_sym_concretize}, {"__sym_reach", h_sym_reach}, {"__sym_is_symbolic", h_sym_is_symbolic}, {"__sym_end_path", h_sym_end_path}, {"__sym_print", h_sym_print},
          {"malloc", h_malloc}, {"calloc", h_calloc}, {"free", h_free}, {"realloc", h_realloc}, {"posix_memalign", h_posix_memalign}, {"aligned_alloc", h_aligned_alloc},
          {"__rust_alloc", h_rust_alloc}, {"__rust_alloc_zeroed", h_rust_alloc_zeroed}, {"__rust_dealloc", h_rust_dealloc}, {"__rust_realloc", h_rust_realloc},
          {"memcpy", h_memcpy}, {"memmove", h_memcpy}, {"memset", h_memset}, {"memcmp", h_memcmp}, {"bcmp", h_bcmp}, {"strlen", h_strlen}, {"memchr", h_memchr},
          {"clock_gettime", h_clock_gettime}, {"__errno_location", h_errno_location}, {"getrandom", h_getrandom}, {"syscall", h_syscall}, {"abort", h_abort}, {"exit", h_abort}, {"_exit", h_abort},
          {"getenv", h_ret0}, {"__cxa_thread_atexit_impl", h_ret0}, {"pthread_self", h_pthread_self}, {"pthread_create", h_pthread_create}, {"pthread_join", h_pthread_join}, {"dlsym", h_ret0}, {"pthread_getattr_np", h_retm1}, {"sigaltstack", h_ret0}, {"prctl", h_ret0}, {"pthread_detach", h_ret0}, {"pthread_attr_init", h_ret0}, {"pthread_attr_destroy", h_ret0}, {"pthread_attr_setstacksize", h_ret0}, {"pthread_attr_setguardsize", h_ret0}, {"pthread_setname_np", h_ret0}, {"sigaltstack", h_ret0}, {"__sym_reals", h_sym_reals}, {"__sym_preempt", h_sym_preempt}, {"pthread_key_create", h_ret0}, {"sched_yield", h_ret0}, {"sysconf", h_ret0}, {"getcwd", h_ret0}, {"gettid", h_ret0},
          {"fmod", h_fmod}, {"sin", h_sin}, {"cos", h_cos}, {"tan", h_tan}, {"asin", h_asin}, {"acos", h_acos}, {"atan", h_atan}, {"atan2", h_atan2}, {"exp", h_exp}, {"log", h_log}, {"pow", h_pow},
          {"open64", h_open}, {"open", h_open}, {"write", h_write}, {"writev", h_writev}, {"read", h_read}, {"close", h_close}, {"lseek64", h_lseek}, {"lseek", h_lseek}, {"fstat64", h_fstat}, {"fstat", h_fstat}, {"stat64", h_stat}, {"stat", h_stat}, {"statx", h_statx}, {"mkdir", h_mkdir}, {"fcntl", h_ret0}, {"rust_eh_personality", h_ret0}};
}
static bool isPanicFn(const std::string &d) {
  static const char *pre[] = {"core::panicking::", "std::panicking::begin_panic", "std::panicking::rust_panic", "core::option::expect_failed", "core::option::expect_none_failed", "core::result::unwrap_failed", "core::slice::index::slice_", "core::str::slice_error_fail", "alloc::raw_vec::capacity_overflow", "alloc::alloc::handle_alloc_error", "core::cell::panic_already", "rust_begin_unwind", "core::slice::<impl [T]>::copy_from_slice::len_mismatch_fail", "core::str::unicode", "std::process::abort", "std::thread::local::panic"};
  for (auto p : pre) if (d.compare(0, strlen(p), p) == 0) { if (d == "core::str::unicode") continue; return true; }
  if (d.find("len_mismatch_fail") != std::string::npos) return true;
  if (d.find("::assert_failed") != std::string::npos) return true;
  if (d == "rust_begin_unwind" || d == "rust_panic") return true;
  return false;
}

// ---------------------------------------------------------------------------------------------- interpreter
static inline const Val &G(const Frame &f, int o) { return o >= 0 ? f.regs[o] : consts[~o]; }
static Expr *ctpopE(Expr *x, unsigned w) { Expr *s = mkConst(0, w); for (unsigned i = 0; i < w; i++) s = mk(O_ADD, w, s, mkZext(mkExtract(x, i, 1), w)); return s; }
static Expr *cttzE(Expr *x, unsigned w) { Expr *r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r); return r; }
static Expr *ctlzE(Expr *x, unsigned w) { Expr *r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r); return r; }
static Expr *fcmpE(unsigned p, Expr *a, Expr *b) {
  auto uno = [&] { return mk(O_FUNO, 1, a, b); };
  switch (p) {
  case FCmpInst::FCMP_FALSE: return mkConst(0, 1); case FCmpInst::FCMP_TRUE: return mkConst(1, 1);
  case FCmpInst::FCMP_OEQ: return mk(O_FEQ, 1, a, b); case FCmpInst::FCMP_UNE: return mkNot(mk(O_FEQ, 1, a, b));
  case FCmpInst::FCMP_OLT: return mk(O_FLT, 1, a, b); case FCmpInst::FCMP_OGT: return mk(O_FLT, 1, b, a);
  case FCmpInst::FCMP_OLE: return mk(O_FLE, 1, a, b); case FCmpInst::FCMP_OGE: return mk(O_FLE, 1, b, a);
  case FCmpInst::FCMP_ULT: return mkNot(mk(O_FLE, 1, b, a)); case FCmpInst::FCMP_UGT: return mkNot(mk(O_FLE, 1, a, b));
  case FCmpInst::FCMP_ULE: return mkNot(mk(O_FLT, 1, b, a)); case FCmpInst::FCMP_UGE: return mkNot(mk(O_FLT, 1, a, b));
  case FCmpInst::FCMP_UNO: return uno(); case FCmpInst::FCMP_ORD: return mkNot(uno());
  case FCmpInst::FCMP_ONE: return mk(O_AND, 1, mkNot(uno()), mkNot(mk(O_FEQ, 1, a, b)));
  case FCmpInst::FCMP_UEQ: return mk(O_OR, 1, uno(), mk(O_FEQ, 1, a, b));
  }
  abort();
}
static Expr *icmpE(unsigned p, Expr *a, Expr *b) {
  switch (p) {
  case CmpInst::ICMP_EQ: return mk(O_EQ, 1, a, b); case CmpInst::ICMP_NE: return mkNot(mk(O_EQ, 1, a, b));
  case CmpInst::ICMP_ULT: return mk(O_ULT, 1, a, b); case CmpInst::ICMP_ULE: return mk(O_ULE, 1, a, b);
  case CmpInst::ICMP_UGT: return mk(O_ULT, 1, b, a); case CmpInst::ICMP_UGE: return mk(O_ULE, 1, b, a);
  case CmpInst::ICMP_SLT: return mk(O_SLT, 1, a, b); case CmpInst::ICMP_SLE: return mk(O_SLE, 1, a, b);
  case CmpInst::ICMP_SGT: return mk(O_SLT, 1, b, a); case CmpInst::ICMP_SGE: return mk(O_SLE, 1, b, a);
  }
  abort();
}
static Expr *satE(unsigned iid, Expr *x, Expr *y, unsigned w) {
  switch (iid) {
  case Intrinsic::uadd_sat: return mkIte(mk(O_UADDO, 1, x, y), mkConst(maskw(w), w), mk(O_ADD, w, x, y));
  case Intrinsic::usub_sat: return mkIte(mk(O_ULT, 1, x, y), mkConst(0, w), mk(O_SUB, w, x, y));
  case Intrinsic::sadd_sat: return mkIte(mk(O_SADDO, 1, x, y), mkIte(mk(O_SLT, 1, x, mkConst(0, w)), mkConst((u128)1 << (w - 1), w), mkConst(maskw(w - 1), w)), mk(O_ADD, w, x, y));
  default: return mkIte(mk(O_SSUBO, 1, x, y), mkIte(mk(O_SLT, 1, x, mkConst(0, w)), mkConst((u128)1 << (w - 1), w), mkConst(maskw(w - 1), w)), mk(O_SUB, w, x, y));
  }
}
static void intrinsic(const CallT &t, Frame &f, int d) {
  std::vector<Val> a(t.args.size());
  for (size_t i = 0; i < a.size(); i++) a[i] = G(f, t.args[i]);
  Val *r = f.regs + d;
  unsigned w = t.argw.empty() ? 0 : t.argw[0];
  switch (t.iid) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = C(a[2]); if (n) copyMem(C(a[0]), C(a[1]), n); return; }
  case Intrinsic::memset: { u64 n = C(a[2]); if (n) setMem(C(a[0]), a[1], n); return; }
  case Intrinsic::umin: { Expr *x = X(a[0], w), *y = X(a[1], w); *r = V(mkIte(mk(O_ULT, 1, x, y), x, y)); return; }
  case Intrinsic::umax: { Expr *x = X(a[0], w), *y = X(a[1], w); *r = V(mkIte(mk(O_ULT, 1, y, x), x, y)); return; }
  case Intrinsic::smin: { Expr *x = X(a[0], w), *y = X(a[1], w); *r = V(mkIte(mk(O_SLT, 1, x, y), x, y)); return; }
  case Intrinsic::smax: { Expr *x = X(a[0], w), *y = X(a[1], w); *r = V(mkIte(mk(O_SLT, 1, y, x), x, y)); return; }
  case Intrinsic::uadd_with_overflow: { Expr *x = X(a[0], w), *y = X(a[1], w); r[0] = V(mk(O_ADD, w, x, y)); r[1] = V(mk(O_UADDO, 1, x, y)); return; }
  case Intrinsic::usub_with_overflow: { Expr *x = X(a[0], w), *y = X(a[1], w); r[0] = V(mk(O_SUB, w, x, y)); r[1] = V(mk(O_ULT, 1, x, y)); return; }
  case Intrinsic::umul_with_overflow: { Expr *x = X(a[0], w), *y = X(a[1], w); r[0] = V(mk(O_MUL, w, x, y)); r[1] = V(mk(O_UMULO, 1, x, y)); return; }
  case Intrinsic::sadd_with_overflow: { Expr *x = X(a[0], w), *y = X(a[1], w); r[0] = V(mk(O_ADD, w, x, y)); r[1] = V(mk(O_SADDO, 1, x, y)); return; }
  case Intrinsic::ssub_with_overflow: { Expr *x = X(a[0], w), *y = X(a[1], w); r[0] = V(mk(O_SUB, w, x, y)); r[1] = V(mk(O_SSUBO, 1, x, y)); return; }
  case Intrinsic::smul_with_overflow: { Expr *x = X(a[0], w), *y = X(a[1], w); r[0] = V(mk(O_MUL, w, x, y)); r[1] = V(mk(O_SMULO, 1, x, y)); return; }
  case Intrinsic::uadd_sat: case Intrinsic::usub_sat: case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: *r = V(satE(t.iid, X(a[0], w), X(a[1], w), w)); return;
  case Intrinsic::ctpop: if (!a[0].e) { *r = Val{(u64)__builtin_popcountll(a[0].c), nullptr}; return; } *r = V(ctpopE(a[0].e, w)); return;
  case Intrinsic::cttz: if (!a[0].e) { *r = Val{a[0].c ? (u64)__builtin_ctzll(a[0].c) : w, nullptr}; return; } *r = V(cttzE(a[0].e, w)); return;
  case Intrinsic::ctlz: if (!a[0].e) { *r = Val{a[0].c ? (u64)__builtin_clzll(a[0].c) - (64 - w) : w, nullptr}; return; } *r = V(ctlzE(a[0].e, w)); return;
  case Intrinsic::bswap: { Expr *x = X(a[0], w), *o = mkExtract(x, 0, 8); for (unsigned i = 1; i < w / 8; i++) { Expr *b = mkExtract(x, 8 * i, 8); o = mk(O_CONCAT, o->w + 8, o, b, nullptr, 8); } *r = V(o); return; }
  case Intrinsic::bitreverse: { Expr *x = X(a[0], w), *o = mkExtract(x, 0, 1); for (unsigned i = 1; i < w; i++) { Expr *b = mkExtract(x, i, 1); o = mk(O_CONCAT, o->w + 1, o, b, nullptr, 1); } *r = V(o); return; }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    u64 s = C(a[2]) % w; Expr *x = X(a[0], w), *y = X(a[1], w);
    if (s == 0) { *r = V(t.iid == Intrinsic::fshl ? x : y); return; }
    unsigned l = t.iid == Intrinsic::fshl ? s : w - s;
    *r = V(mk(O_CONCAT, w, mkExtract(x, 0, w - l), mkExtract(y, w - l, l), nullptr, l)); return; }
  case Intrinsic::abs: { Expr *x = X(a[0], w); *r = V(mkIte(mk(O_SLT, 1, x, mkConst(0, w)), mk(O_SUB, w, mkConst(0, w), x), x)); return; }
  case Intrinsic::expect: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: *r = a[0]; return;
  case Intrinsic::is_constant: *r = Val{0, nullptr}; return;
  case Intrinsic::objectsize: *r = Val{~0ull, nullptr}; return;
  case Intrinsic::stacksave: *r = Val{0, nullptr}; return;
  case Intrinsic::stackrestore: return;
  case Intrinsic::trap: case Intrinsic::ubsantrap: violation("abort", "trap");
  case Intrinsic::fabs: *r = V(mk(O_FABS, w, X(a[0], w))); return;
  case Intrinsic::sqrt: *r = V(mk(O_FSQRT, w, X(a[0], w))); return;
  case Intrinsic::floor: *r = V(ftruncE(O_FFLOOR, X(a[0], w))); return;
  case Intrinsic::ceil: *r = V(mk(O_FCEIL, w, X(a[0], w))); return;
  case Intrinsic::trunc: *r = V(ftruncE(O_FTRUNC, X(a[0], w))); return;
  case Intrinsic::round: *r = V(mk(O_FROUND, w, X(a[0], w))); return;
  case Intrinsic::minnum: case Intrinsic::maxnum: {
    Expr *x = X(a[0], w), *y = X(a[1], w); Expr *c = t.iid == Intrinsic::minnum ? mk(O_FLT, 1, x, y) : mk(O_FLT, 1, y, x);
    Expr *nx = mk(O_FUNO, 1, x, x), *ny = mk(O_FUNO, 1, y, y);
    *r = V(mkIte(nx, y, mkIte(ny, x, mkIte(c, x, y)))); return; }
  case Intrinsic::copysign: { Expr *x = X(a[0], w), *y = X(a[1], w); *r = V(mk(O_OR, w, mk(O_AND, w, x, mkConst(maskw(w - 1), w)), mk(O_AND, w, y, mkConst((u128)1 << (w - 1), w)))); return; }
  case Intrinsic::fmuladd: { Expr *m = mk(O_FMUL, w, X(a[0], w), X(a[1], w)); *r = V(mk(O_FADD, w, m, X(a[2], w))); return; }
  case Intrinsic::fptoui_sat: *r = V(mk(O_FPTOUI, t.retw[0], X(a[0], w))); return;
  case Intrinsic::fptosi_sat: *r = V(mk(O_FPTOSI, t.retw[0], X(a[0], w))); return;
  case Intrinsic::pow: *r = Val{(u64)dbits(pow(asd(C(a[0])), asd(C(a[1])))), nullptr}; return;
  case Intrinsic::powi: *r = Val{(u64)dbits(pow(asd(C(a[0])), (double)(int)C(a[1]))), nullptr}; return;
  case Intrinsic::exp: *r = Val{(u64)dbits(exp(asd(C(a[0])))), nullptr}; return;
  case Intrinsic::log: *r = Val{(u64)dbits(log(asd(C(a[0])))), nullptr}; return;
  case Intrinsic::sin: *r = Val{(u64)dbits(sin(asd(C(a[0])))), nullptr}; return;
  case Intrinsic::cos: *r = Val{(u64)dbits(cos(asd(C(a[0])))), nullptr}; return;
  case Intrinsic::fma: *r = Val{(u64)dbits(fma(asd(C(a[0])), asd(C(a[1])), asd(C(a[2])))), nullptr}; return;
  case Intrinsic::vector_reduce_add: { Expr *s = X(a[0], w); for (size_t i = 1; i < a.size(); i++) s = mk(O_ADD, w, s, X(a[i], w)); *r = V(s); return; }
  case Intrinsic::vector_reduce_or: { Expr *s = X(a[0], w); for (size_t i = 1; i < a.size(); i++) s = mk(O_OR, w, s, X(a[i], w)); *r = V(s); return; }
  case Intrinsic::vector_reduce_and: { Expr *s = X(a[0], w); for (size_t i = 1; i < a.size(); i++) s = mk(O_AND, w, s, X(a[i], w)); *r = V(s); return; }
  case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_umax: { Expr *s = X(a[0], w); for (size_t i = 1; i < a.size(); i++) { Expr *y = X(a[i], w); Expr *c = t.iid == Intrinsic::vector_reduce_umin ? mk(O_ULT, 1, s, y) : mk(O_ULT, 1, y, s); s = mkIte(c, s, y); } *r = V(s); return; }
  default: break;
  }
  if (t.iname.find("x86.sse2.pause") != std::string::npos) return;
  fatal("unsupported intrinsic " + t.iname + "\n" + stackTrace());
}

static void pushFrame(Func *f, int d, u32 nret) {
  ensureLowered(f);
  Frame fr; fr.f = f; fr.pc = f->entry; fr.regs = regTop; fr.d = d; fr.nret = nret; fr.sp = stackTop; fr.callInst = 0;
  regTop += f->nslots;
  if (regTop > regLimit || frames.size() > 100000) violation("stack", "stack overflow / unbounded recursion");
  frames.push_back(fr);
}
static void execEdge(Frame &f, u32 ei) {
  const Edge &e = f.f->edges[ei];
  if (e.cn) {
    const auto *c = &f.f->copies[e.cs];
    if (e.cn == 1) f.regs[c->first] = G(f, c->second);
    else { Val tmp[256]; std::vector<Val> big; Val *t = tmp; if (e.cn > 256) { big.resize(e.cn); t = big.data(); }
      for (u32 i = 0; i < e.cn; i++) t[i] = G(f, c[i].second);
      for (u32 i = 0; i < e.cn; i++) f.regs[c[i].first] = t[i]; }
  }
  f.pc = e.target;
}
static Expr *symBin(Op o, unsigned w, Expr *a, Expr *b) {
  if (o == O_FNEG) return mk(O_FNEG, w, a);
  if (o == O_FREM && w == 64) return fremE(a, b);
  return mk(o, w, a, b);
}
static void interpret() {
  Frame *f = &frames.back();
  const Inst *code = f->f->code.data();
  u64 cnt = 0;
  for (;;) {
    const Inst &I = code[f->pc++];
    if (I.loc) sh->cov[I.loc] = 1;
    if (++cnt >= 4096) {
      myInsts += cnt; pathInsts += cnt; cnt = 0;
      if (pathInsts > maxInsts) { violation("hang", "path exceeded the instruction bound"); }
      if (sh->stop) endPath(false);
    }
    switch (I.op) {
    case I_BIN: {
      const Val &a = G(*f, I.a), &b = G(*f, I.b);
      if (!a.e && !b.e) {
        u64 r; unsigned w = I.w; u64 m = w >= 64 ? ~0ull : (1ull << w) - 1;
        switch ((Op)I.sub) {
        case O_ADD: r = (a.c + b.c) & m; break;
        case O_SUB: r = (a.c - b.c) & m; break;
        case O_MUL: r = (a.c * b.c) & m; break;
        case O_AND: r = a.c & b.c; break;
        case O_OR: r = a.c | b.c; break;
        case O_XOR: r = a.c ^ b.c; break;
        case O_SHL: r = b.c >= w ? 0 : (a.c << b.c) & m; break;
        case O_LSHR: r = b.c >= w ? 0 : a.c >> b.c; break;
        default: { u128 k[3] = {a.c, b.c, 0}; r = (u64)foldOp((Op)I.sub, w, k, w, 0); }
        }
        f->regs[I.d] = Val{r, nullptr};
      } else {
        if (I.sub == O_UDIV || I.sub == O_UREM || I.sub == O_SDIV || I.sub == O_SREM) {
          Expr *bb = X(b, I.w); if (decide(mk(O_EQ, 1, bb, mkConst(0, I.w)))) violation("ub", "division by zero");
        }
        const Val &a2 = G(*f, I.a), &b2 = G(*f, I.b);
        f->regs[I.d] = V(symBin((Op)I.sub, I.w, X(a2, I.w), X(b2, I.w)));
      }
      break; }
    case I_CMP: {
      const Val &a = G(*f, I.a), &b = G(*f, I.b);
      if (!a.e && !b.e) {
        bool r; i64 sa, sb; if (I.w < 64) { sa = (i64)(a.c << (64 - I.w)) >> (64 - I.w); sb = (i64)(b.c << (64 - I.w)) >> (64 - I.w); } else { sa = a.c; sb = b.c; }
        switch (I.sub) {
        case CmpInst::ICMP_EQ: r = a.c == b.c; break; case CmpInst::ICMP_NE: r = a.c != b.c; break;
        case CmpInst::ICMP_ULT: r = a.c < b.c; break; case CmpInst::ICMP_ULE: r = a.c <= b.c; break;
        case CmpInst::ICMP_UGT: r = a.c > b.c; break; case CmpInst::ICMP_UGE: r = a.c >= b.c; break;
        case CmpInst::ICMP_SLT: r = sa < sb; break; case CmpInst::ICMP_SLE: r = sa <= sb; break;
        case CmpInst::ICMP_SGT: r = sa > sb; break; default: r = sa >= sb; break;
        }
        f->regs[I.d] = Val{r, nullptr};
      } else f->regs[I.d] = V(icmpE(I.sub, X(a, I.w), X(b, I.w)));
      break; }
    case I_FCMP: f->regs[I.d] = V(fcmpE(I.sub, X(G(*f, I.a), I.w), X(G(*f, I.b), I.w))); break;
    case I_CAST: {
      const Val &a = G(*f, I.a);
      switch (I.sub) {
      case Instruction::Trunc: if (!a.e) f->regs[I.d] = Val{I.w >= 64 ? a.c : a.c & ((1ull << I.w) - 1), nullptr}; else f->regs[I.d] = V(mkExtract(a.e, 0, I.w)); break;
      case Instruction::ZExt: if (!a.e && I.w <= 64) f->regs[I.d] = a; else f->regs[I.d] = V(mkZext(X(a, I.w2), I.w)); break;
      case Instruction::SExt: if (!a.e && I.w <= 64) { i64 v = (i64)(a.c << (64 - I.w2)) >> (64 - I.w2); f->regs[I.d] = Val{I.w >= 64 ? (u64)v : (u64)v & ((1ull << I.w) - 1), nullptr}; } else f->regs[I.d] = V(mk(O_SEXT, I.w, X(a, I.w2))); break;
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
        if (I.w == I.w2) f->regs[I.d] = a; else if (I.w < I.w2) f->regs[I.d] = V(mkExtract(X(a, I.w2), 0, I.w)); else f->regs[I.d] = V(mkZext(X(a, I.w2), I.w)); break;
      case Instruction::UIToFP: f->regs[I.d] = V(mk(O_UITOFP, I.w, X(a, I.w2))); break;
      case Instruction::SIToFP: f->regs[I.d] = V(mk(O_SITOFP, I.w, X(a, I.w2))); break;
      case Instruction::FPToUI: f->regs[I.d] = V(mk(O_FPTOUI, I.w, X(a, I.w2))); break;
      case Instruction::FPToSI: f->regs[I.d] = V(mk(O_FPTOSI, I.w, X(a, I.w2))); break;
      case Instruction::FPExt: f->regs[I.d] = V(mk(O_FPEXT, I.w, X(a, I.w2))); break;
      case Instruction::FPTrunc: f->regs[I.d] = V(mk(O_FPTRUNC, I.w, X(a, I.w2))); break;
      default: fatal("cast");
      }
      break; }
    case I_SELECT: {
      const Val &c = G(*f, I.a);
      if (!c.e) f->regs[I.d] = G(*f, c.c & 1 ? I.b : I.c);
      else { const Val &a = G(*f, I.b), &b = G(*f, I.c); f->regs[I.d] = V(mkIte(c.e, X(a, I.w), X(b, I.w))); }
      break; }
    case I_PTRADDC: { const Val &a = G(*f, I.a); if (!a.e) f->regs[I.d] = Val{a.c + I.imm, nullptr}; else f->regs[I.d] = V(mk(O_ADD, 64, a.e, mkConst(I.imm, 64))); break; }
    case I_PTRADD: {
      const Val &a = G(*f, I.a), &b = G(*f, I.b);
      if (!a.e && !b.e) { u64 x = b.c; if (I.w < 64) x = (u64)((i64)(x << (64 - I.w)) >> (64 - I.w)); f->regs[I.d] = Val{a.c + x * I.imm, nullptr}; }
      else { Expr *x = X(b, I.w); if (I.w < 64) x = mk(O_SEXT, 64, x); f->regs[I.d] = V(mk(O_ADD, 64, X(a, 64), mk(O_MUL, 64, x, mkConst(I.imm, 64)))); }
      break; }
    case I_LOAD: { if (I.flag && preemptBudget) { f->pc--; if (preempt()) { f = &frames.back(); code = f->f->code.data(); break; } f->pc++; } Val p = G(*f, I.a); u64 a = C(p); if (p.e && I.a >= 0) f->regs[I.a] = Val{a, nullptr}; if (I.flag && !ctxs.empty() && !ctxs[curCtx].pend.empty()) { auto &q = ctxs[curCtx].pend; bool hit = false; for (size_t k = q.size(); k-- > 0;) if (q[k].a == a + I.imm && q[k].w == I.w) { f->regs[I.d] = q[k].v; hit = true; break; } if (hit) break; } f->regs[I.d] = loadVal(a + I.imm, I.w); break; }
    case I_STORE: { if (I.flag && preemptBudget) { f->pc--; if (preempt()) { f = &frames.back(); code = f->f->code.data(); break; } f->pc++; } Val p = G(*f, I.a); u64 a = C(p); if (p.e && I.a >= 0) f->regs[I.a] = Val{a, nullptr}; if (I.flag == 1 && (delayBudget || (!ctxs.empty() && !ctxs[curCtx].pend.empty())) && delayStore(a + I.imm, I.w, G(*f, I.b))) break; if (I.flag == 2 && !ctxs.empty()) drain(ctxs[curCtx]); storeVal(a + I.imm, I.w, G(*f, I.b)); break; }
    case I_COPY: f->regs[I.d] = G(*f, I.a); break;
    case I_BR: execEdge(*f, I.x); break;
    case I_CBR: { const Val &c = G(*f, I.a); bool v = c.e ? decide(c.e) : (c.c & 1); if (c.e && I.a >= 0) f->regs[I.a] = Val{v, nullptr}; execEdge(*f, v ? I.x : I.y); break; }
    case I_SWITCH: {
      const SwitchT &s = f->f->switches[I.x]; Val c = G(*f, I.a); u32 t = s.def;
      if (!c.e) { for (auto &k : s.cases) if (k.first == c.c) { t = k.second; break; } }
      else { // group by target is unnecessary; decide case by case
        for (auto &k : s.cases) if (decide(mk(O_EQ, 1, c.e, mkConst(k.first, I.w)))) { t = k.second; break; } }
      execEdge(*f, t); break; }
    case I_RET: {
      Frame fr = *f; Val tmp[16]; std::vector<Val> big; Val *t = tmp; if (I.x > 16) { big.resize(I.x); t = big.data(); }
      for (u32 k = 0; k < I.x; k++) t[k] = I.a >= 0 ? fr.regs[I.a + k] : consts[~I.a + k];
      if (stackTop > fr.sp) { memset(TAG(fr.sp), 0, stackTop - fr.sp); stackTop = fr.sp; }
      regTop = fr.regs; frames.pop_back();
      if (frames.empty()) {
        if (curCtx == 0) { myInsts += cnt; return; }
        drain(ctxs[curCtx]); ctxs[curCtx].st = Ctx::DONE;
        for (auto &c : ctxs) if (c.st == Ctx::JOIN && c.wait == curCtx) c.st = Ctx::RUN;
        reschedule(); switched = false; f = &frames.back(); code = f->f->code.data(); break;
      }
      f = &frames.back(); code = f->f->code.data();
      for (u32 k = 0; k < fr.nret && k < I.x; k++) f->regs[fr.d + k] = t[k];
      break; }
    case I_CALL: {
      const CallT &t = f->f->calls[I.x]; Func *g;
      if (t.fn >= 0) g = funcs[t.fn];
      else {
        u64 a = C(G(*f, t.callee));
        if (a < FBASE || (a - FBASE) % 16 || (a - FBASE) / 16 >= funcs.size()) violation("memory", "call through invalid function pointer");
        g = funcs[(a - FBASE) / 16];
      }
      if (g->handler >= 0) {
        Val args[32]; for (size_t k = 0; k < t.args.size() && k < 32; k++) args[k] = G(*f, t.args[k]);
        Val ret[4] = {};
        if (handlers[g->handler] == h_panic) { violation("panic", g->dem); }
        Val *regs = f->regs;
        handlers[g->handler](t, args, ret);
        for (u32 k = 0; k < t.nret && k < 4; k++) regs[I.d + k] = ret[k];
        if (switched) { switched = false; f = &frames.back(); code = f->f->code.data(); }
        break;
      }
      if (g->decl) fatal("call of unmodelled external function " + g->name + "\n" + stackTrace());
      Frame *cur = f;
      size_t ci = frames.size() - 1;
      pushFrame(g, I.d, t.nret);
      cur = &frames[ci]; f = &frames.back();
      sh->fcov[t.fn >= 0 ? t.fn : 0] = 1;
      if (t.fn < 0) for (size_t q = 0; q < 1; q++) { u64 a = C(G(*cur, t.callee)); sh->fcov[(a - FBASE) / 16] = 1; }
      for (size_t k = 0; k < t.args.size(); k++) f->regs[k] = G(*cur, t.args[k]);
      code = f->f->code.data();
      break; }
    case I_ALLOCA: {
      u64 n = C(G(*f, I.a)) * I.imm; u64 al = std::max<u64>(I.x, 16); u64 a = (stackTop + 16 + al - 1) & ~(al - 1);
      if (a + n + 16 >= stackEnd) violation("stack", "stack overflow");
      memset(TAG(a), 1, n); stackTop = a + n; f->regs[I.d] = Val{a, nullptr}; break; }
    case I_UNREACH: violation("ub", "unreachable code reached");
    case I_RMW: {
      if (!ctxs.empty()) drain(ctxs[curCtx]);
      if (preemptBudget) { f->pc--; if (preempt()) { f = &frames.back(); code = f->f->code.data(); break; } f->pc++; }
      u64 p = C(G(*f, I.a)); Val o = loadVal(p, I.w); Val b = G(*f, I.b); Expr *x = X(o, I.w), *y = X(b, I.w), *n = nullptr;
      switch (I.sub) {
      case AtomicRMWInst::Xchg: n = y; break; case AtomicRMWInst::Add: n = mk(O_ADD, I.w, x, y); break; case AtomicRMWInst::Sub: n = mk(O_SUB, I.w, x, y); break;
      case AtomicRMWInst::And: n = mk(O_AND, I.w, x, y); break; case AtomicRMWInst::Or: n = mk(O_OR, I.w, x, y); break; case AtomicRMWInst::Xor: n = mk(O_XOR, I.w, x, y); break;
      case AtomicRMWInst::UMin: n = mkIte(mk(O_ULT, 1, x, y), x, y); break; case AtomicRMWInst::UMax: n = mkIte(mk(O_ULT, 1, y, x), x, y); break;
      default: fatal("atomicrmw");
      }
      storeVal(p, I.w, V(n)); f->regs[I.d] = o; break; }
    case I_CMPXCHG: {
      if (!ctxs.empty()) drain(ctxs[curCtx]);
      if (preemptBudget) { f->pc--; if (preempt()) { f = &frames.back(); code = f->f->code.data(); break; } f->pc++; }
      u64 p = C(G(*f, I.a)); Val o = loadVal(p, I.w); Expr *eq = mk(O_EQ, 1, X(o, I.w), X(G(*f, I.b), I.w));
      bool e = decide(eq); if (e) storeVal(p, I.w, G(*f, I.c));
      f->regs[I.d] = o; f->regs[I.d + 1] = Val{e, nullptr}; break; }
    case I_INTR:
      if (I.sub == 255) fatal(f->f->calls[I.x].iname + "\n" + stackTrace());
      intrinsic(f->f->calls[I.x], *f, I.d); break;
    case I_VEC2INT: { Expr *r = X(G(*f, I.a), I.w); for (u32 k = 1; k < I.x; k++) { Expr *e = X(I.a >= 0 ? f->regs[I.a + k] : consts[~I.a + k], I.w); r = mk(O_CONCAT, r->w + I.w, e, r, nullptr, r->w); } f->regs[I.d] = V(r); break; }
    case I_INT2VEC: { Val v = G(*f, I.a); Expr *e = X(v, I.w2); for (u32 k = 0; k < I.x; k++) f->regs[I.d + k] = V(mkExtract(e, k * I.w, I.w)); break; }
    case I_EXTELEM: { u64 k = C(G(*f, I.b)); f->regs[I.d] = I.a >= 0 ? f->regs[I.a + k] : consts[~I.a + k]; break; }
    default: fatal("bad opcode");
    }
  }
}

static void onCrash(int sig) {
  const char m[] = "symex: worker crashed\n"; if (write(2, m, sizeof m - 1)) {}
  sh->nerr = sh->nerr + 1; sh->stop = 1; snprintf(sh->errmsg, sizeof sh->errmsg, "worker crashed (signal %d)", sig);
  sh->tokens++; // best effort
  _exit(3);
}

static std::string jsonEsc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }

// LLVM's own writable data is not used by the workers
static void dontForkLLVM() {
  std::ifstream f("/proc/self/maps"); std::string l;
  while (std::getline(f, l)) {
    unsigned long b, e; char perm[8];
    if (sscanf(l.c_str(), "%lx-%lx %7s", &b, &e, perm) == 3 && l.find("libLLVM") != std::string::npos) madvise((void *)b, e - b, MADV_DONTFORK);
  }
}
int main(int argc, char **argv) {
  std::string bc; int workers = 8; double timeS = 600;
  if (!getenv("LD_BIND_NOW")) { setenv("LD_BIND_NOW", "1", 1); if (!getenv("GLIBC_TUNABLES")) setenv("GLIBC_TUNABLES", "glibc.malloc.hugetlb=1", 1); execv("/proc/self/exe", argv); }
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--entry") entryName = argv[++i]; else if (a == "--out") outDir = argv[++i]; else if (a == "--workers") workers = atoi(argv[++i]);
    else if (a == "--time") timeS = atof(argv[++i]); else if (a == "--max-insts") maxInsts = strtoull(argv[++i], 0, 10); else if (a == "--max-viol") maxViol = atoi(argv[++i]);
    else if (a == "--bv") g_forceBV = true; else bc = a;
  }
  u64 t0 = nowNs();
  auto *ctx = new LLVMContext; SMDiagnostic err;
  auto mod = parseIRFile(bc, err, *ctx);
  if (!mod) { err.print("symex", errs()); return 2; }
  M = mod.get(); DL = &M->getDataLayout();
  mem = (u8 *)mmap(nullptr, ASIZE + 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  tags = (u8 *)mmap(nullptr, ASIZE + 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  cells = (Expr **)mmap(nullptr, (ASIZE + 64) * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  regStack = regTop = (Val *)mmap(nullptr, REGMAX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (mem == MAP_FAILED || tags == MAP_FAILED || (void *)cells == MAP_FAILED || (void *)sh == MAP_FAILED) { perror("mmap"); return 2; }
  pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED); pthread_mutex_init(&sh->mu, &ma);
  for (int i = 0; i < MAXWAIT; i++) sem_init(&sh->sems[i], 1, 0);
  locNames.push_back("?");
  initHandlers();
  for (auto &F : *M) { int id = funcs.size(); Func *f = new Func; f->name = F.getName().str(); f->dem = demangle(f->name); f->F = &F; f->decl = F.isDeclaration(); funcs.push_back(f); funcIdx[&F] = id; }
  handlers.push_back(h_panic);
  for (auto *f : funcs) {
    if (isPanicFn(f->dem)) { f->handler = 0; continue; }
    if (f->dem.find("thread_local_dtor::register_dtor") != std::string::npos) { f->handler = handlers.size(); handlers.push_back(h_ret0); continue; }
    auto it = hmap.find(f->name);
    if (it != hmap.end()) { f->handler = handlers.size(); handlers.push_back(it->second); }
  }
  for (auto &A : M->aliases()) (void)A;
  Func *entry = nullptr; for (auto *f : funcs) if (f->name == entryName) entry = f;
  if (!entry || entry->decl) { fprintf(stderr, "symex: no entry %s\n", entryName.c_str()); return 2; }
  { // lower everything reachable from the entry before forking (so that ids are shared by all workers)
    std::set<const Value *> seen; std::vector<const Value *> wl{entry->F}; seen.insert(entry->F);
    std::vector<Func *> reach;
    auto add = [&](const Value *v) { if (isa<Constant>(v) && seen.insert(v).second) wl.push_back(v); };
    while (!wl.empty()) {
      const Value *v = wl.back(); wl.pop_back();
      if (auto *F = dyn_cast<Function>(v)) {
        Func *f = funcs[funcIdx.at(const_cast<Function *>(F))];
        if (f->handler >= 0 || f->decl) continue;
        reach.push_back(f);
        for (auto &B : *F) for (auto &I : B) for (auto &o : I.operands()) add(o.get());
      } else if (auto *g = dyn_cast<GlobalVariable>(v)) { if (g->hasInitializer()) add(g->getInitializer()); }
      else if (auto *a = dyn_cast<GlobalAlias>(v)) add(a->getAliasee());
      else if (auto *u = dyn_cast<User>(v)) for (auto &o : u->operands()) add(o.get());
    }
    for (auto *f : reach) ensureLowered(f);
  }
  initGlobals();
  // the module is not needed any more: keep the image that is forked at every branch small
  int entryIdx = funcIdx.at(entry->F);
  for (auto *f : funcs) f->F = nullptr;
  funcIdx.clear();
  DL = nullptr; M = nullptr;
  mod.reset(); delete ctx;
  malloc_trim(0);
  solverInit();
  dontForkLLVM();
  if (getenv("SYMEX_MAPS")) { std::ifstream f("/proc/self/smaps"); std::cerr << f.rdbuf(); }
  u64 tLoad = nowNs() - t0;
  deadline = nowNs() + (u64)(timeS * 1e9);
  sh->tokens = workers - 1; sh->live = 1;
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  u64 tRun0 = nowNs();
  fflush(stdout);
  pid_t w = fork();
  if (w == 0) {
    setpgid(0, 0);
    signal(SIGSEGV, onCrash); signal(SIGABRT, onCrash); signal(SIGBUS, onCrash); signal(SIGFPE, onCrash);
    ctxs.emplace_back(); regLimit = regStack + (REGMAX / sizeof(Val)) / 2; stackEnd = STACK0 + (128ull << 20);
    pushFrame(entry, 0, 0); sh->fcov[entryIdx] = 1;
    interpret();
    tagHit("<end>");
    maybeSample();
    endPath(false);
  }
  setpgid(w, w);
  bool timedOut = false;
  for (;;) {
    int stt; pid_t p = waitpid(-1, &stt, WNOHANG);
    if (p > 0) { if (WIFSIGNALED(stt) && !(timedOut && WTERMSIG(stt) == SIGKILL)) { sh->nerr++; snprintf(sh->errmsg, sizeof sh->errmsg, "worker killed by signal %d", WTERMSIG(stt)); } continue; }
    if (p < 0 && errno == ECHILD) break;
    if (nowNs() > deadline && !timedOut) { timedOut = true; sh->incomplete = 1; sh->stop = 1; usleep(200000); kill(-w, SIGKILL); deadline = nowNs() + 5000000000ull; }
    if (sh->stop && !timedOut) { // give workers a moment, then end everything
      usleep(300000); timedOut = true; kill(-w, SIGKILL); }
    usleep(2000);
  }
  bool stopped = sh->nviol > 0 || sh->nerr > 0;
  u64 tRun = nowNs() - tRun0;
  // result json
  std::string out = "{";
  char b[1024];
  snprintf(b, sizeof b, "\"entry\":\"%s\",\"complete\":%s,\"timed_out\":%s,\"paths\":%llu,\"infeasible\":%llu,\"forks\":%llu,\"insts\":%llu,\"asserts\":%llu,\"concretizations\":%llu,\"unknowns\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"int_queries\":%llu,\"bv_queries\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"load_s\":%.2f,\"run_s\":%.2f,\"nsamples\":%d,\"nerr\":%d,\"error\":\"%s\",",
           entryName.c_str(), (!sh->incomplete && !stopped) ? "true" : "false", (sh->incomplete && timedOut) ? "true" : "false", (unsigned long long)sh->paths, (unsigned long long)sh->infeasible, (unsigned long long)sh->forks, (unsigned long long)sh->insts, (unsigned long long)sh->asserts, (unsigned long long)sh->concretizations, (unsigned long long)sh->unknowns, (unsigned long long)sh->queries, (unsigned long long)sh->sat, (unsigned long long)sh->unsat, (unsigned long long)sh->unknown, (unsigned long long)sh->intq, (unsigned long long)sh->bvq, sh->solver_ns / 1e9, sh->maxq_ns / 1e9, tLoad / 1e9, tRun / 1e9, sh->nsamples, (int)sh->nerr, jsonEsc(sh->errmsg).c_str());
  out += b;
  out += "\"tags\":{"; for (int i = 0; i < sh->ntags; i++) { snprintf(b, sizeof b, "%s\"%s\":%llu", i ? "," : "", jsonEsc(sh->tagName[i]).c_str(), (unsigned long long)sh->tagCount[i]); out += b; }
  out += "},\"violations\":[";
  for (int i = 0; i < sh->nviol && i < 64; i++) { out += std::string(i ? "," : "") + "{\"kind\":\"" + sh->viol[i].kind + "\",\"msg\":\"" + jsonEsc(sh->viol[i].msg) + "\",\"file\":\"" + jsonEsc(sh->viol[i].file) + "\"}"; }
  out += "],\"functions\":[";
  bool first = true; for (size_t i = 0; i < funcs.size() && i < 100000; i++) if (sh->fcov[i]) { out += std::string(first ? "" : ",") + "\"" + jsonEsc(funcs[i]->dem) + "\""; first = false; }
  out += "],\"lines\":[";
  // NB: functions lowered lazily in workers allocate loc ids there; ids are only comparable if lowered before the fork
  first = true; for (size_t i = 1; i < locNames.size(); i++) if (sh->cov[i] && locNames[i].find("/repo/") != std::string::npos) { out += std::string(first ? "" : ",") + "\"" + jsonEsc(locNames[i]) + "\""; first = false; }
  out += "]}\n";
  std::string fn = outDir + "/result-" + entryName + ".json";
  FILE *fo = fopen(fn.c_str(), "w"); if (fo) { fputs(out.c_str(), fo); fclose(fo); }
  fprintf(stderr, "%s: complete=%d paths=%llu infeasible=%llu forks=%llu insts=%lluM queries=%llu (int %llu, bv %llu, fd %llu) unk=%llu solver=%.1fs maxq=%.2fs run=%.1fs load=%.1fs viol=%d err=%d %s\n", entryName.c_str(), !sh->incomplete && !stopped, (unsigned long long)sh->paths, (unsigned long long)sh->infeasible, (unsigned long long)sh->forks, (unsigned long long)sh->insts / 1000000, (unsigned long long)sh->queries, (unsigned long long)sh->intq, (unsigned long long)sh->bvq, (unsigned long long)sh->fdq, (unsigned long long)sh->unknowns, sh->solver_ns / 1e9, sh->maxq_ns / 1e9, tRun / 1e9, tLoad / 1e9, (int)sh->nviol, (int)sh->nerr, sh->errmsg);
  for (int i = 0; i < sh->nviol && i < 64; i++) fprintf(stderr, "  VIOLATION %s: %s -> %s\n", sh->viol[i].kind, sh->viol[i].msg, sh->viol[i].file);
  return sh->nerr ? 2 : sh->nviol ? 1 : 0;
}
