// sx: bounded symbolic executor for LLVM IR.
// Executes the real code's IR on symbolic inputs; every check is decided by an
// SMT query over all values that reach it.  See DESIGN.md.
#include "expr.h"
#include <cmath>
#include <unistd.h>
#include <deque>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
using namespace llvm;
using std::string; using std::vector;

// ------------------------------------------------------------------ values
struct Val { Expr* e = nullptr; u64 c = 0; const vector<Val>* agg = nullptr; u16 w = 0; };
static inline Val cv(u64 v, unsigned w) { Val r; r.w = w; if (w > 64) { r.e = B.con(v, w); return r; } r.c = v & maskw(w); return r; }
static inline Val ev(Expr* e) { Val r; r.w = e->w; if (e->op == CONST) r.c = e->c; else r.e = e; return r; }
static inline Expr* ex(Val const& v) { return v.e ? v.e : B.con(v.c, v.w); }
static Val aggv(vector<Val> v) { Val r; r.agg = new vector<Val>(std::move(v)); return r; }

// ------------------------------------------------------------------ memory
struct ObjData { int rc = 0; vector<u8> d; vector<u8> k; vector<Expr*> x; };
enum { KC = 0, KS = 1, KU = 2 };
struct DRef {
  ObjData* p = nullptr;
  DRef() {} explicit DRef(ObjData* q) : p(q) { if (p) p->rc++; }
  DRef(DRef const& o) : p(o.p) { if (p) p->rc++; } DRef(DRef&& o) noexcept : p(o.p) { o.p = nullptr; }
  DRef& operator=(DRef o) noexcept { std::swap(p, o.p); return *this; }
  ~DRef() { if (p && --p->rc == 0) delete p; }
};
enum : u8 { MGLOBAL = 1, MHEAP = 2, MSTACK = 4, MCONST = 8, MEXTERN = 16, MOPNEW = 32, MDEAD = 64 };
struct MemObj { u64 base = 0, size = 0; DRef data; u8 fl = 0; };

struct Opnd { int reg = -1; Val v; };
struct FnInfo;
struct Inst {
  Instruction* I = nullptr; unsigned opc = 0; int dst = -1; u16 w = 0; u64 size = 0; i64 off = 0;
  vector<Opnd> ops; vector<u64> scale; vector<int> succ; FnInfo* callee = nullptr; int builtin = -1; int intr = -1; int line = -1; int skip = 0;
  vector<std::pair<int, Opnd>> phi; vector<std::pair<u64, int>> cases; Type* ty = nullptr;
};
struct BBInfo { vector<Inst> ins; int nphi = 0; };
struct FnInfo { Function* F = nullptr; string name; u64 addr = 0; bool compiled = false; vector<BBInfo> bbs; int nregs = 0; vector<u64> byval; };

struct Frame { FnInfo* fn; int bb = 0, pc = 0, prev = -1; vector<Val> r; vector<u64> allocas; vector<Val> va; int retDst = -1; u16 retW = 0; };
struct Thread { vector<Frame> st; int status = 0; /*0 run 1 blocked 2 done*/ u64 flag = 0; vector<std::pair<GlobalVariable*, u64>> tls; };
struct TraceEnt { const char* name; Expr* e; u64 c; u16 w; };
struct ObsEnt { const char* tag; Expr* e; u64 c; };
struct State {
  vector<Thread> th; int cur = 0; vector<MemObj> mem; u64 next = 0x100000; vector<Expr*> pc; Model m;
  vector<std::pair<Expr*, u64>> known; vector<TraceEnt> trace; vector<ObsEnt> obs; vector<const char*> covers; u32 nsym = 0; u64 steps = 0; int preempt = 0, timeouts = 0; size_t initDone = 0; u32 depth = 0; bool forced = false; int yieldDone = 0;
};

// ------------------------------------------------------------------ globals
static LLVMContext C; static std::unique_ptr<Module> M; static DataLayout const* DL;
static std::unordered_map<Function*, FnInfo*> fnOf; static std::unordered_map<u64, FnInfo*> fnAt; static std::unordered_map<Value const*, u64> gaddr;
static std::unordered_map<u64, string> externName;
static vector<string> strtab; static std::unordered_map<string, int> strid;
static std::set<string> names; static const char* intern(string const& s) { return names.insert(s).first->c_str(); }
static vector<std::pair<string, int>> lines; static std::map<std::pair<string, int>, int> lineId; static vector<u8> lineHit; static vector<string> lineFn;
static std::map<string, u64> params; static std::set<string> only; static string srcRoot = "/repo/"; static int maxTimeouts() { auto p = params.find("maxtimeouts"); return p == params.end() ? 12 : (int)p->second; }
static u64 maxSteps = 20000000, maxPaths = 2000000; static double maxSecs = 600; static unsigned maxEnum = 4096; static int preemptBound = 2; static u64 seed = 1; static int nSamples = 12; static bool verbose = false, stepsAreErr = false, yieldAtomics = false;
static std::chrono::steady_clock::time_point T0;
static u64 paths = 0, pathsAssumed = 0, totalSteps = 0, forks = 0, checksDecided = 0, checksTrivial = 0; static std::map<string, u64> coverHits, checkHits, checkSolved; static std::map<string, string> kfHits; static std::set<string> unmodelled;
struct Viol { string kind, id, msg, stack; string trace; };
static vector<Viol> viols; static vector<string> samples; static bool incomplete = false; static string incompleteWhy; static std::map<string, u64> engineErrs; static vector<FnInfo*> ctors;

struct PathEnd { };        // path finished (normally or assumption)
struct Reexec { };         // instruction must be executed again
struct EngineErr { string why; };

static string jesc(string const& s) { string o; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; } else o += ch; } return o; }

struct Exec {
  State* s; vector<std::unique_ptr<State>> work;

  // ---- symbols
  static Expr* symAt(u32 idx, unsigned w) { static std::map<std::pair<u32, unsigned>, Expr*> t; auto& e = t[{idx, w}]; if (!e) e = B.sym("n" + std::to_string(idx), w); return e; }
  Expr* fresh(unsigned w) { return symAt(s->nsym++, w); }
  u64 evalIn(Expr* e) { return evalExpr(e, s->m); }
  void addPC(Expr* e) { if (e->op == CONST) { if (!e->c) throw EngineErr{"false constraint added"}; return; }
    if (e->op == AND && e->w == 1) { addPC(e->a); addPC(e->b); return; }
    for (auto x : s->pc) if (x == e) return; s->pc.push_back(e);
    if (e->op == EQ && e->b->op == CONST) s->known.push_back({e->a, e->b->c}); }
  bool implied(Expr* c, bool& v) { if (c->op == CONST) { v = c->c; return true; } Expr* n = B.lnot(c); for (auto x : s->pc) { if (x == c) { v = true; return true; } if (x == n) { v = false; return true; } } return false; }
  bool feasible(Expr* c, Model& m) { bool v; if (implied(c, v)) { m = s->m; return v; } m = s->m; if (evalExpr(c, m)) return true; bool r = S->check(s->pc, c, m); if (S->lastUnknown) { S->lastUnknown = false; incomplete = true; incompleteWhy = "solver returned unknown"; } return r; }
  std::unique_ptr<State> fork() { forks++; auto n = std::make_unique<State>(*s); n->depth++; return n; }
  void push(std::unique_ptr<State> n) { work.push_back(std::move(n)); }

  // decide a branch; forks when both sides are feasible
  bool branch(Expr* c) {
    bool v; if (implied(c, v)) return v;
    bool cur = evalIn(c); Expr* nc = B.lnot(c); Expr* oth = cur ? nc : c; Model m;
    m = s->m; bool f = S->check(s->pc, oth, m); chkUnk();
    if (f) { auto n = fork(); n->m = m; auto* sv = s; s = n.get(); addPC(oth); s = sv; push(std::move(n)); }
    addPC(cur ? c : nc); return cur; }
  void chkUnk() { if (S->lastUnknown) { S->lastUnknown = false; incomplete = true; incompleteWhy = "solver returned unknown"; } }
  u64 concretize(Val const& v, const char* what) {
    if (!v.e) return v.c;
    for (auto& k : s->known) if (k.first == v.e) return k.second;
    u64 x = evalIn(v.e); Expr* eq = B.bin(EQ, v.e, B.con(x, v.w)); bool iv; if (implied(eq, iv) && iv) return x;
    Model m = s->m; Expr* ne = B.lnot(eq); bool f = S->check(s->pc, ne, m); chkUnk();
    if (f) { auto n = fork(); n->m = m; auto* sv = s; s = n.get(); addPC(ne); s = sv; if (++enumCount[what] > (strcmp(what, "sx_concretize") ? 400000 : 4000000)) throw EngineErr{string("too many concretisations: ") + what}; push(std::move(n)); }
    addPC(eq); s->known.push_back({v.e, x}); return x; }
  std::map<string, u64> enumCount;

  // ---- memory
  int findObj(u64 a) { auto& m = s->mem; size_t lo = 0, hi = m.size(); while (lo < hi) { size_t md = (lo + hi) / 2; if (m[md].base <= a) lo = md + 1; else hi = md; }
    if (!lo) return -1; MemObj& o = m[lo - 1]; if (a < o.base + o.size || (a == o.base && !o.size)) return lo - 1; return -1; }
  ObjData& wr(MemObj& o) { if (o.data.p->rc > 1) { auto* n = new ObjData(*o.data.p); n->rc = 0; o.data = DRef(n); } return *o.data.p; }
  u64 alloc(u64 size, u8 fl, bool uninit) {
    u64 a = (s->next + 15) & ~15ull; s->next = a + size + 48; auto* d = new ObjData; d->d.assign(size, 0); if (uninit) d->k.assign(size, KU);
    MemObj o; o.base = a; o.size = size; o.data = DRef(d); o.fl = fl; s->mem.push_back(std::move(o)); return a; }
  [[noreturn]] void memErr(string const& what, u64 a, u64 n) {
    char b[256]; int i = -1; auto& m = s->mem; for (size_t k = 0; k < m.size(); k++) if (m[k].base <= a) i = k;
    string where = "no live object there";
    if (i >= 0 && a < m[i].base + m[i].size + 48) { snprintf(b, 256, "%lld bytes into a %s object of %llu bytes", (long long)(a - m[i].base), m[i].fl & MHEAP ? "heap" : m[i].fl & MSTACK ? "stack" : "global", (unsigned long long)m[i].size); where = b; }
    snprintf(b, 256, "%s of %llu bytes at 0x%llx: ", what.c_str(), (unsigned long long)n, (unsigned long long)a);
    fail("memory", "memory", string(b) + where); }
  MemObj& objFor(u64 a, u64 n, bool write) {
    int i = findObj(a); if (i < 0 || a + n > s->mem[i].base + s->mem[i].size || a + n < a) memErr(write ? "invalid write" : "invalid read", a, n);
    if (s->mem[i].fl & MEXTERN) throw EngineErr{"access to unmodelled global " + externName[s->mem[i].base]};
    if (s->mem[i].fl & MDEAD) { bool own = false; if (!s->th[s->cur].st.empty()) for (u64 b : s->th[s->cur].st.back().allocas) if (b == s->mem[i].base) own = true; if (!own) memErr(write ? "write after the end of the scope" : "read after the end of the scope", a, n); } // a function's own accesses may have been moved by the compiler
    if (write && (s->mem[i].fl & MCONST)) memErr("write to constant memory", a, n);
    return s->mem[i]; }
  Expr* byteAt(MemObj& o, u64 off) { ObjData* d = o.data.p; if (d->k.empty() || d->k[off] == KC) return B.con(d->d[off], 8); if (d->k[off] == KS) return d->x[off];
    Expr* f = fresh(8); ObjData& w = wr(o); if (w.x.empty()) w.x.assign(w.d.size(), nullptr); w.k[off] = KS; w.x[off] = f; return f; }
  void setByte(ObjData& d, u64 off, Expr* e) { if (e->op == CONST) { d.d[off] = e->c; if (!d.k.empty()) d.k[off] = KC; } else { if (d.k.empty()) d.k.assign(d.d.size(), KC); if (d.x.empty()) d.x.assign(d.d.size(), nullptr); d.k[off] = KS; d.x[off] = e; } }
  Val readBytes(u64 a, u64 n, unsigned w) {
    MemObj& o = objFor(a, n, false); u64 off = a - o.base; ObjData* d = o.data.p;
    if (n <= 8) { bool c = true; if (!d->k.empty()) for (u64 i = 0; i < n; i++) if (d->k[off + i] != KC) { c = false; break; }
      if (c) { u64 v = 0; memcpy(&v, &d->d[off], n); return cv(v, w); } }
    Expr* e = byteAt(o, off); for (u64 i = 1; i < n; i++) e = B.concat(byteAt(o, off + i), e);
    if (e->w > w) e = B.extract(e, 0, w); return ev(e); }
  void writeBytes(u64 a, u64 n, Val const& v) {
    MemObj& o = objFor(a, n, true); u64 off = a - o.base; ObjData& d = wr(o);
    if (!v.e && n <= 8) { u64 x = v.c; memcpy(&d.d[off], &x, n); if (!d.k.empty()) for (u64 i = 0; i < n; i++) d.k[off + i] = KC; return; }
    Expr* e = ex(v); if (e->w < n * 8) e = B.zext(e, n * 8); for (u64 i = 0; i < n; i++) setByte(d, off + i, B.extract(e, i * 8, 8)); }
  void copyMem(u64 dst, u64 src, u64 n) { if (!n) return;
    MemObj& so = objFor(src, n, false); u64 so_off = src - so.base; DRef keep = so.data; ObjData* sd = keep.p; MemObj& d = objFor(dst, n, true); ObjData* same = (&d == &so) ? sd : nullptr; (void)same;
    ObjData tmp; ObjData& dd = wr(d); u64 off = dst - d.base; // keep holds the source bytes (COW keeps them unchanged)
    memcpy(&dd.d[off], &sd->d[so_off], n);
    if (!sd->k.empty() || !dd.k.empty()) { if (dd.k.empty()) dd.k.assign(dd.d.size(), KC);
      for (u64 i = 0; i < n; i++) { u8 k = sd->k.empty() ? KC : sd->k[so_off + i]; dd.k[off + i] = k; if (k == KS) { if (dd.x.empty()) dd.x.assign(dd.d.size(), nullptr); dd.x[off + i] = sd->x[so_off + i]; } } } }
  string cstr(u64 a) { string r; for (;; a++) { MemObj& o = objFor(a, 1, false); u64 off = a - o.base; if (!o.data.p->k.empty() && o.data.p->k[off] != KC) { r += '?'; } else { char ch = o.data.p->d[off]; if (!ch) break; r += ch; } if (r.size() > 4000) break; } return r; }

  // resolve a possibly symbolic address to concrete; loads may be answered with an ITE over the object
  static unsigned tz(Expr* e) { if (e->op == CONST) return e->c ? __builtin_ctzll(e->c) : 64; if (e->op == CONCAT) { unsigned l = tz(e->b); return l < e->b->w ? l : e->b->w + tz(e->a); } if (e->op == ADD) return std::min(tz(e->a), tz(e->b)); if (e->op == ZEXT || e->op == SEXT) { unsigned t = tz(e->a); return t; } return 0; }
  Val loadSym(Val const& p, u64 n, unsigned w) {
    u64 a = evalIn(p.e); int i = findObj(a); if (i < 0 || a + n > s->mem[i].base + s->mem[i].size) { a = concretize(p, "address"); return readBytes(a, n, w); }
    u64 base = s->mem[i].base, size = s->mem[i].size; if (size > 2048) { a = concretize(p, "address"); return readBytes(a, n, w); }
    Expr* inb = B.bin(ULE, B.bin(SUB, p.e, B.con(base, 64)), B.con(size - n, 64));
    if (!branch(inb)) throw Reexec{};
    unsigned st = std::min(tz(B.bin(SUB, p.e, B.con(base, 64))), 12u); u64 step = 1ull << st; if ((size / step) > 700) { a = concretize(p, "address"); return readBytes(a, n, w); }
    Expr* r = nullptr; for (u64 o = 0; o + n <= size; o += step) { Expr* v = ex(readBytes(base + o, n, w)); r = r ? B.ite(B.bin(EQ, p.e, B.con(base + o, 64)), v, r) : v; }
    return ev(r); }

  // ---- errors
  string stackStr() { string r; auto& st = s->th[s->cur].st; int n = 0; for (int i = (int)st.size() - 1; i >= 0 && n < 14; i--, n++) { auto& f = st[i]; string l; int pc = std::min<int>(f.pc, f.fn->bbs[f.bb].ins.size() - 1); int ln = f.fn->bbs[f.bb].ins[pc].line; if (ln < 0 && i != (int)st.size() - 1 && pc > 0) ln = f.fn->bbs[f.bb].ins[pc - 1].line; if (ln >= 0) l = lines[ln].first + ":" + std::to_string(lines[ln].second); r += (n ? " < " : "") + f.fn->name.substr(0, 60) + (l.empty() ? "" : "@" + l); } return r; }
  string traceStr(Model const& m) { string o = "["; bool f = true; for (auto& t : s->trace) { u64 v = t.e ? evalExpr(t.e, m) : t.c; o += (f ? "" : ","); f = false; o += "[\"" + jesc(t.name) + "\"," + std::to_string(t.w) + ",\"" + std::to_string(v) + "\"]"; } return o + "]"; }
  string obsStr(Model const& m) { string o = "["; bool f = true; for (auto& t : s->obs) { u64 v = t.e ? evalExpr(t.e, m) : t.c; o += (f ? "" : ","); f = false; o += "[\"" + jesc(t.tag) + "\",\"" + std::to_string(v) + "\"]"; } return o + "]"; }
  void report(string kind, string id, string msg, Model const& m) { viols.push_back({kind, id, msg, stackStr(), traceStr(m)}); if (verbose) fprintf(stderr, "VIOL %s %s %s\n  at %s\n  %s\n", kind.c_str(), id.c_str(), msg.c_str(), viols.back().stack.c_str(), viols.back().trace.c_str()); }
  [[noreturn]] void fail(string kind, string id, string msg) { report(kind, id, msg, s->m); throw PathEnd{}; }

  // ---- compile
  u64 addrOf(Constant* c);
  Val constVal(Constant* c);
  void initMem(u64 a, Constant* c);
  void storeConst(u64 a, Constant* c);
  FnInfo* fn(Function* F) { auto& p = fnOf[F]; if (!p) { p = new FnInfo; p->F = F; p->name = F->getName().str(); } return p; }
  void compile(FnInfo* f);

  // ---- run
  Val get(Frame& f, Opnd const& o) { if (o.reg < 0) return o.v; Val& v = f.r[o.reg]; return v; }
  void jump(Frame& f, int to) { f.prev = f.bb; f.bb = to; f.pc = 0; BBInfo& b = f.fn->bbs[to]; if (b.nphi) { Val tmp[64]; if (b.nphi > 64) throw EngineErr{"too many phis"};
      for (int i = 0; i < b.nphi; i++) { auto& in = b.ins[i]; bool ok = false; for (auto& p : in.phi) if (p.first == f.prev) { tmp[i] = get(f, p.second); ok = true; break; } if (!ok) throw EngineErr{"phi"}; }
      for (int i = 0; i < b.nphi; i++) f.r[b.ins[i].dst] = tmp[i]; f.pc = b.nphi; } }
  void enter(FnInfo* fi, vector<Val> const& args, int retDst, u16 retW);
  void pushFrame(FnInfo* fi, vector<Val> const& args, int retDst, u16 retW);
  bool step();            // returns false when the path ended
  void callInst(Frame& f, Inst& in);
  bool builtin(FnInfo* fi, vector<Val>& a, Val& ret, bool& redo);
  bool intrinsic(Frame& f, Inst& in, Function* F);
  void doRet(Val v);
  bool runnable(Thread& t) { if (t.status == 0) return true; if (t.status == 1 || t.status == 3) { Val v = readBytes(t.flag, 4, 32); return concretize(v, "flag") != 0; } return false; }
  bool schedule(bool preemptible);
  void endPath(bool normal);
  void runAll(std::unique_ptr<State> init);
  Val binop(unsigned opc, Val const& a, Val const& b, Inst& in);
  void checkStmt(Expr* ok, const char* id, Expr* kf, const char* kfid);
};
static Exec X;

// ------------------------------------------------------------------ constants
u64 Exec::addrOf(Constant* c) {
  auto it = gaddr.find(c); if (it != gaddr.end()) return it->second;
  if (auto* al = dyn_cast<GlobalAlias>(c)) return addrOf(al->getAliasee());
  if (auto* F = dyn_cast<Function>(c)) { FnInfo* f = fn(F); return f->addr; }
  throw EngineErr{"address of unknown global " + c->getName().str()}; }
Val Exec::constVal(Constant* c) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() <= 64) return cv(ci->getZExtValue(), ci->getBitWidth());
    APInt v = ci->getValue(); Val r; r.w = v.getBitWidth(); r.e = B.concat(B.con(v.lshr(64).getZExtValue(), r.w - 64), B.con(v.trunc(64).getZExtValue(), 64)); return r; }
  if (isa<ConstantPointerNull>(c)) return cv(0, 64);
  if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt v = cf->getValueAPF().bitcastToAPInt(); if (v.getBitWidth() > 64) { Val r; r.w = v.getBitWidth(); r.e = B.concat(B.con(v.lshr(64).getZExtValue(), r.w - 64), B.con(v.trunc(64).getZExtValue(), 64)); return r; } return cv(v.getZExtValue(), v.getBitWidth()); }
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) { unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(); vector<Val> v; for (unsigned i = 0; i < n; i++) v.push_back(constVal(c->getAggregateElement(i))); return aggv(v); }
  if (isa<UndefValue>(c)) { if (t->isPointerTy()) return cv(0, 64); return cv(0, DL->getTypeSizeInBits(t)); }
  if (isa<GlobalValue>(c)) { if (auto* gv = dyn_cast<GlobalVariable>(c)) if (gv->isThreadLocal()) return cv(0xdead0000, 64); return cv(addrOf(c), 64); }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { auto* g = cast<GEPOperator>(ce); APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) throw EngineErr{"const gep"}; return cv(constVal(ce->getOperand(0)).c + off.getSExtValue(), 64); }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt: { Val v = constVal(ce->getOperand(0)); return cv(v.c, t->isPointerTy() ? 64 : DL->getTypeSizeInBits(t)); }
      case Instruction::Sub: return cv(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c, DL->getTypeSizeInBits(t));
      case Instruction::Add: return cv(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c, DL->getTypeSizeInBits(t));
      case Instruction::ICmp: { u64 a = constVal(ce->getOperand(0)).c, b = constVal(ce->getOperand(1)).c; switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return cv(a == b, 1); case CmpInst::ICMP_NE: return cv(a != b, 1); case CmpInst::ICMP_ULT: return cv(a < b, 1); default: break; } break; }
      default: break; } }
  string str; raw_string_ostream os(str); c->print(os); throw EngineErr{"constant " + str.substr(0, 200)}; }
void Exec::storeConst(u64 a, Constant* c) {
  Type* t = c->getType(); if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { auto d = cd->getRawDataValues(); MemObj& o = s->mem[findObj(a)]; memcpy(&o.data.p->d[a - o.base], d.data(), d.size()); return; }
  if (t->isStructTy()) { auto* sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < t->getStructNumElements(); i++) storeConst(a + (u64)sl->getElementOffset(i), c->getAggregateElement(i)); return; }
  if (t->isArrayTy()) { u64 sz = DL->getTypeAllocSize(t->getArrayElementType()); for (unsigned i = 0; i < t->getArrayNumElements(); i++) storeConst(a + i * sz, c->getAggregateElement(i)); return; }
  Val v = constVal(c); u64 n = DL->getTypeStoreSize(t); MemObj& o = s->mem[findObj(a)]; if (v.e) { writeBytes(a, n, v); return; } u64 x = v.c; memcpy(&o.data.p->d[a - o.base], &x, std::min<u64>(n, 8)); }

// ------------------------------------------------------------------ compile
static const char* builtinNames[] = {"sx_nondet", "sx_assume", "sx_check", "sx_check_kf", "sx_observe", "sx_cover", "sx_concretize", "sx_param", "sx_thread", "sx_yield", "sx_block", "sx_block_timed", "sx_self", "sx_end_path", "sx_heap_live", "sx_malloc", "sx_free", "sx_native", "sx_unmodelled", "memcpy", "memmove", "memset", "memcmp", "sx_violate", "sx_is_symbolic", "sx_ptr_ok", "sx_debug", "sx_sched_note", "bcmp", "sx_alloc_size"};
static int builtinId(string const& n) { for (unsigned i = 0; i < sizeof builtinNames / sizeof *builtinNames; i++) if (n == builtinNames[i]) return i; return -1; }
void Exec::compile(FnInfo* f) {
  if (f->compiled) return; f->compiled = true; Function* F = f->F; std::unordered_map<Value*, int> reg; std::unordered_map<BasicBlock*, int> bbi; int n = 0;
  for (auto& A : F->args()) { reg[&A] = n++; f->byval.push_back(A.hasByValAttr() ? (u64)DL->getTypeAllocSize(A.getParamByValType()) : 0); }
  int k = 0; for (auto& bb : *F) { bbi[&bb] = k++; for (auto& I : bb) if (!I.getType()->isVoidTy()) reg[&I] = n++; }
  f->nregs = n; f->bbs.resize(k);
  auto op = [&](Value* v) { Opnd o; auto it = reg.find(v); if (it != reg.end()) { o.reg = it->second; return o; } if (auto* c = dyn_cast<Constant>(v)) { o.v = constVal(c); return o; } return o; };
  auto width = [&](Type* t) -> u16 { if (t->isVoidTy()) return 0; if (t->isPointerTy()) return 64; if (t->isStructTy() || t->isArrayTy()) return 0; return DL->getTypeSizeInBits(t); };
  for (auto& bb : *F) { BBInfo& b = f->bbs[bbi[&bb]];
    for (auto& I : bb) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      Inst in; in.I = &I; in.opc = I.getOpcode(); in.ty = I.getType(); if (reg.count(&I)) in.dst = reg[&I]; in.w = width(I.getType());
      if (DILocation* l = I.getDebugLoc().get()) if (l->getLine()) { auto* sc = l->getScope(); string fnm = (sc->getDirectory().empty() || sc->getFilename().starts_with("/") ? "" : sc->getDirectory().str() + "/") + sc->getFilename().str();
          auto key = std::make_pair(fnm, (int)l->getLine()); auto it = lineId.find(key); if (it == lineId.end()) { it = lineId.emplace(key, lines.size()).first; lines.push_back(key); lineHit.push_back(0); auto* sp = sc->getSubprogram(); lineFn.push_back(sp ? (sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str()) : ""); } in.line = it->second; }
      try {
      switch (I.getOpcode()) {
        case Instruction::PHI: { auto& p = cast<PHINode>(I); for (unsigned i = 0; i < p.getNumIncomingValues(); i++) in.phi.push_back({bbi[p.getIncomingBlock(i)], op(p.getIncomingValue(i))}); b.nphi++; break; }
        case Instruction::Br: { auto& br = cast<BranchInst>(I); if (br.isConditional()) in.ops.push_back(op(br.getCondition())); for (unsigned i = 0; i < br.getNumSuccessors(); i++) in.succ.push_back(bbi[br.getSuccessor(i)]); break; }
        case Instruction::Switch: { auto& sw = cast<SwitchInst>(I); in.ops.push_back(op(sw.getCondition())); in.succ.push_back(bbi[sw.getDefaultDest()]); for (auto& cs : sw.cases()) in.cases.push_back({cs.getCaseValue()->getZExtValue(), bbi[cs.getCaseSuccessor()]}); break; }
        case Instruction::GetElementPtr: { auto& g = cast<GetElementPtrInst>(I); in.ops.push_back(op(g.getPointerOperand())); i64 off = 0;
          for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) { Value* idx = gi.getOperand(); if (StructType* st = gi.getStructTypeOrNull()) off += (i64)(u64)DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
            else { u64 sz = DL->getTypeAllocSize(gi.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(idx)) off += ci->getSExtValue() * (i64)sz; else { in.ops.push_back(op(idx)); in.scale.push_back(sz); } } }
          in.off = off; break; }
        case Instruction::Alloca: { auto& a = cast<AllocaInst>(I); in.size = DL->getTypeAllocSize(a.getAllocatedType()); in.ops.push_back(op(a.getArraySize())); break; }
        case Instruction::Load: in.size = DL->getTypeStoreSize(I.getType()); in.ops.push_back(op(I.getOperand(0))); break;
        case Instruction::Store: in.size = DL->getTypeStoreSize(I.getOperand(0)->getType()); in.ops.push_back(op(I.getOperand(0))); in.ops.push_back(op(I.getOperand(1))); in.ty = I.getOperand(0)->getType(); break;
        case Instruction::Call: case Instruction::Invoke: { auto& cb = cast<CallBase>(I); for (auto& a : cb.args()) { if (a->getType()->isMetadataTy()) { in.ops.push_back(Opnd{}); continue; } in.ops.push_back(op(a)); }
          if (auto* cf = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts())) { if (cf->isIntrinsic()) in.intr = cf->getIntrinsicID(); else in.callee = fn(cf); } else if (isa<InlineAsm>(cb.getCalledOperand())) in.intr = -2; else in.ops.push_back(op(cb.getCalledOperand())); break; }
        default: for (auto& o : I.operands()) { if (isa<BasicBlock>(o)) continue; in.ops.push_back(op(o)); } }
      } catch (EngineErr& e) { in.skip = 1; in.opc = 9999; in.ops.clear(); in.off = (i64)(uintptr_t)intern(e.why); }
      b.ins.push_back(std::move(in)); } } }

void Exec::pushFrame(FnInfo* fi, vector<Val> const& args, int retDst, u16 retW) {
  compile(fi); Thread& t = s->th[s->cur]; if (t.st.size() > 400) fail("stack", "stack-overflow", "recursion deeper than 400 frames");
  Frame f; f.fn = fi; f.r.resize(fi->nregs); f.retDst = retDst; f.retW = retW; size_t na = fi->F->arg_size();
  for (size_t i = 0; i < na && i < args.size(); i++) { f.r[i] = args[i]; if (fi->byval[i]) { u64 n = fi->byval[i]; u64 src = concretize(args[i], "byval"); u64 a = alloc(n, MSTACK, true); copyMem(a, src, n); f.r[i] = cv(a, 64); f.allocas.push_back(a); } }
  for (size_t i = na; i < args.size(); i++) f.va.push_back(args[i]);
  t.st.push_back(std::move(f)); }
void Exec::doRet(Val v) {
  Thread& t = s->th[s->cur]; Frame& f = t.st.back();
  if (!f.allocas.empty()) { // allocas live near the end of the sorted list
    std::set<u64> dead(f.allocas.begin(), f.allocas.end()); auto& m = s->mem; size_t i = m.size(), first = *dead.begin(); while (i > 0 && m[i - 1].base >= first) i--; size_t o = i; for (; i < m.size(); i++) { if (dead.count(m[i].base)) continue; if (o != i) m[o] = std::move(m[i]); o++; } m.resize(o); }
  int dst = f.retDst; t.st.pop_back(); if (!t.st.empty()) { Frame& c = t.st.back(); if (dst >= 0) c.r[dst] = v; c.pc++; } }

Val Exec::binop(unsigned opc, Val const& a, Val const& b, Inst& in) {
  Op o; switch (opc) { case Instruction::Add: o = ADD; break; case Instruction::Sub: o = SUB; break; case Instruction::Mul: o = MUL; break; case Instruction::UDiv: o = UDIV; break; case Instruction::SDiv: o = SDIV; break; case Instruction::URem: o = UREM; break; case Instruction::SRem: o = SREM; break; case Instruction::And: o = AND; break; case Instruction::Or: o = OR; break; case Instruction::Xor: o = XOR; break; case Instruction::Shl: o = SHL; break; case Instruction::LShr: o = LSHR; break; case Instruction::AShr: o = ASHR; break; default: throw EngineErr{"binop"}; }
  if (a.agg) { vector<Val> r; for (size_t i = 0; i < a.agg->size(); i++) r.push_back(binop(opc, (*a.agg)[i], (*b.agg)[i], in)); return aggv(r); }
  if (o == UDIV || o == SDIV || o == UREM || o == SREM) { if (!b.e) { if (!b.c) fail("div0", "div0", "division by zero"); } else if (branch(B.bin(EQ, b.e, B.con(0, b.w)))) fail("div0", "div0", "division by zero"); }
  if (!a.e && !b.e && a.w <= 64) return cv(Builder::fold(o, a.c, b.c, a.w), a.w);
  return ev(B.bin(o, ex(a), ex(b))); }

void Exec::checkStmt(Expr* ok, const char* id, Expr* kf, const char* kfid) {
  string sid = id; auto col = sid.find(':'); string prop = col == string::npos ? sid : sid.substr(0, col);
  if (!only.empty() && !only.count(prop) && prop != "*") return;
  checkHits[sid]++;
  if (ok->op == CONST && ok->c) { checksTrivial++; return; }
  checksDecided++; checkSolved[sid]++; Model m; Expr* bad = B.lnot(ok);
  if (kf) { Expr* badNoKf = B.bin(AND, bad, B.lnot(kf)); if (feasible(badNoKf, m)) { State* sv = s; report("check", sid, "property check fails", m); s = sv; }
    Expr* badKf = B.bin(AND, bad, kf); if (feasible(badKf, m)) { if (!kfHits.count(kfid)) kfHits[kfid] = traceStr(m); } }
  else if (feasible(bad, m)) report("check", sid, "property check fails", m);
  if (!feasible(ok, m)) throw PathEnd{}; s->m = m; addPC(ok); }

bool Exec::schedule(bool preemptible) { // choose the thread to run next; current one may continue
  vector<int> run; for (size_t i = 0; i < s->th.size(); i++) { int sv = s->cur; if (runnable(s->th[i])) run.push_back(i); s->cur = sv; }
  if (run.empty()) { for (size_t i = 0; i < s->th.size(); i++) if (s->th[i].status == 3) run.push_back(i); if (run.empty() || ++s->timeouts > maxTimeouts()) return false; } // time passes only when nothing else can happen
  bool curOk = s->th[s->cur].status == 0; vector<int> cand;
  if (curOk) { cand.push_back(s->cur); if (preemptible && s->preempt < preemptBound) for (int i : run) if (i != s->cur) cand.push_back(i); }
  else cand = run;
  for (size_t i = 1; i < cand.size(); i++) { auto n = fork(); if (curOk) n->preempt++; n->cur = cand[i]; n->th[cand[i]].status = 0; n->trace.push_back({"sched", nullptr, (u64)cand[i], 8}); push(std::move(n)); }
  s->cur = cand[0]; s->th[s->cur].status = 0; if (cand.size() > 1 || !curOk) s->trace.push_back({"sched", nullptr, (u64)s->cur, 8}); else if (s->th.size() > 1) s->trace.push_back({"sched", nullptr, (u64)s->cur, 8});
  return true; }

static u64 rngState; static u64 rng() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }
void Exec::endPath(bool normal) {
  if (normal) { paths++; for (auto c : s->covers) coverHits[c]++;
    string sm; auto mk = [&] { return "{\"trace\":" + traceStr(s->m) + ",\"obs\":" + obsStr(s->m) + "}"; };
    if ((int)samples.size() < nSamples) samples.push_back(mk()); else { u64 r = rng() % paths; if ((int)r < nSamples) samples[r] = mk(); } }
  else pathsAssumed++; }

// ------------------------------------------------------------------ calls
bool Exec::builtin(FnInfo* fi, vector<Val>& a, Val& ret, bool& redo) {
  static std::unordered_map<FnInfo*, int> idc; auto it = idc.find(fi); int id; if (it == idc.end()) { id = builtinId(fi->name); idc[fi] = id; } else id = it->second; if (id < 0) return false;
  auto str = [&](int i) { return intern(cstr(concretize(a[i], "str"))); };
  auto nz = [&](int i) { return a[i].e ? B.lnot(B.bin(EQ, a[i].e, B.con(0, a[i].w))) : B.con(a[i].c != 0, 1); };
  string n = builtinNames[id];
  if (n == "sx_nondet") { unsigned w = concretize(a[0], "w"); Expr* e = fresh(w); s->trace.push_back({str(1), e, 0, (u16)w}); ret = ev(B.zext(e, 64)); }
  else if (n == "sx_assume") { Expr* c = nz(0); if (c->op == CONST) { if (!c->c) throw PathEnd{}; } else { Model m; if (!feasible(c, m)) throw PathEnd{}; s->m = m; addPC(c); } }
  else if (n == "sx_check") checkStmt(nz(0), str(1), nullptr, nullptr);
  else if (n == "sx_check_kf") checkStmt(nz(0), str(3), nz(1), str(2));
  else if (n == "sx_observe") { s->obs.push_back({str(0), a[1].e, a[1].c}); }
  else if (n == "sx_cover") { const char* c = str(0); bool h = false; for (auto x : s->covers) if (x == c) h = true; if (!h) s->covers.push_back(c); }
  else if (n == "sx_concretize") ret = cv(concretize(a[0], "sx_concretize"), 64);
  else if (n == "sx_param") { auto p = params.find(str(0)); ret = cv(p == params.end() ? a[1].c : p->second, 32); }
  else if (n == "sx_thread") { Thread t; s->th.push_back(t); int sv = s->cur; s->cur = s->th.size() - 1; FnInfo* f = fnAt[concretize(a[0], "fn")]; if (!f) throw EngineErr{"sx_thread fn"}; pushFrame(f, {a[1]}, -1, 0); s->cur = sv; ret = cv(s->th.size() - 1, 32); }
  else if (n == "sx_yield") { if (s->th.size() > 1) { s->th[s->cur].st.back().pc++; redo = true; schedule(true); } }
  else if (n == "sx_block") { Val v = readBytes(concretize(a[0], "flag"), 4, 32); if (concretize(v, "flag") == 0) { s->th[s->cur].status = 1; s->th[s->cur].flag = a[0].c; s->th[s->cur].st.back().pc++; redo = true; if (!schedule(false)) { s->th[s->cur].st.back().pc--; fail("deadlock", "deadlock", "every thread is blocked"); } } }
  else if (n == "sx_block_timed") { Val v = readBytes(concretize(a[0], "flag"), 4, 32); if (concretize(v, "flag") == 0) { s->th[s->cur].status = 3; s->th[s->cur].flag = a[0].c; s->th[s->cur].st.back().pc++; redo = true; if (!schedule(false)) { s->th[s->cur].st.back().pc--; fail("deadlock", "deadlock", "every thread is blocked, or waits in vain"); } } }
  else if (n == "sx_self") ret = cv(s->cur, 32);
  else if (n == "sx_end_path") { endPath(true); throw PathEnd{}; }
  else if (n == "sx_heap_live") { u64 c = 0; for (auto& o : s->mem) if (o.fl & MHEAP) c++; ret = cv(c, 64); }
  else if (n == "sx_malloc") { u64 sz = concretize(a[0], "malloc"); if (sz > (64u << 20)) throw EngineErr{"allocation of " + std::to_string(sz) + " bytes"}; ret = cv(alloc(sz, MHEAP, true), 64); }
  else if (n == "sx_free") { u64 p = concretize(a[0], "free"); if (p) { int i = findObj(p); if (i < 0 || s->mem[i].base != p || !(s->mem[i].fl & MHEAP)) memErr("invalid or double free", p, 0); s->mem.erase(s->mem.begin() + i); } }
  else if (n == "sx_alloc_size") { u64 p = concretize(a[0], "ptr"); int i = findObj(p); ret = cv(i < 0 ? 0 : s->mem[i].size - (p - s->mem[i].base), 64); }
  else if (n == "sx_native") ret = cv(0, 32);
  else if (n == "sx_unmodelled") throw EngineErr{string("unmodelled: ") + str(0)};
  else if (n == "memcpy" || n == "memmove") { copyMem(concretize(a[0], "memcpy"), concretize(a[1], "memcpy"), concretize(a[2], "memcpy size")); ret = a[0]; }
  else if (n == "memset") { u64 d = concretize(a[0], "memset"), c = concretize(a[2], "memset size"); if (c) { MemObj& o = objFor(d, c, true); ObjData& w = wr(o); u64 off = d - o.base; if (!a[1].e) { memset(&w.d[off], (int)a[1].c, c); if (!w.k.empty()) memset(&w.k[off], KC, c); } else { Expr* b = B.extract(a[1].e, 0, 8); for (u64 i = 0; i < c; i++) setByte(w, off + i, b); } } ret = a[0]; }
  else if (n == "memcmp" || n == "bcmp") { u64 p = concretize(a[0], "memcmp"), q = concretize(a[1], "memcmp"), c = concretize(a[2], "memcmp size"); Expr* r = B.con(0, 32);
    if (c) { objFor(p, c, false); objFor(q, c, false); for (u64 i = c; i-- > 0;) { Expr *x = ex(readBytes(p + i, 1, 8)), *y = ex(readBytes(q + i, 1, 8)); r = B.ite(B.bin(EQ, x, y), r, B.ite(B.bin(ULT, x, y), B.con(~0ull, 32), B.con(1, 32))); } } ret = ev(r); }
  else if (n == "sx_violate") { string i = str(0); auto col = i.find(':'); string prop = i.substr(0, col); if (only.empty() || only.count(prop) || prop == "*") { checkHits[i]++; report("check", i, str(1), s->m); } throw PathEnd{}; }
  else if (n == "sx_is_symbolic") ret = cv(a[0].e != nullptr, 32);
  else if (n == "sx_ptr_ok") { u64 p = concretize(a[0], "ptr"), c = concretize(a[1], "n"); int i = findObj(p); ret = cv(i >= 0 && p + c <= s->mem[i].base + s->mem[i].size, 32); }
  else if (n == "sx_debug") { if (verbose) fprintf(stderr, "[debug] %s %s%llx\n", str(0), a[1].e ? "sym~" : "", (unsigned long long)(a[1].e ? evalIn(a[1].e) : a[1].c)); }
  else if (n == "sx_sched_note") {}
  return true; }

void Exec::callInst(Frame& f0, Inst& in) {
  vector<Val> a; Frame* f = &f0; FnInfo* cal = in.callee; size_t na = in.ops.size() - (cal ? 0 : 1);
  for (size_t i = 0; i < na; i++) a.push_back(get(*f, in.ops[i]));
  if (!cal) { u64 p = concretize(get(*f, in.ops.back()), "fnptr"); auto it = fnAt.find(p); if (it == fnAt.end()) fail("memory", "memory", p ? "call through an invalid function pointer" : "call through a null function pointer"); cal = it->second; }
  Val ret = cv(0, in.w ? in.w : 64); bool redo = false;
  if (cal->F->isDeclaration() || builtinId(cal->name) >= 0) {
    if (builtin(cal, a, ret, redo)) { if (redo) return; Frame& g = s->th[s->cur].st.back(); if (in.dst >= 0) { if (ret.w != in.w && in.w) ret = ret.e ? ev(ret.w > in.w ? B.extract(ret.e, 0, in.w) : B.zext(ret.e, in.w)) : cv(ret.c, in.w); g.r[in.dst] = ret; } g.pc++; return; }
    static std::unordered_map<FnInfo*, FnInfo*> repl; auto it = repl.find(cal); FnInfo* r; if (it == repl.end()) { Function* F = M->getFunction("sxm_" + cal->name); r = (F && !F->isDeclaration()) ? fn(F) : nullptr; repl[cal] = r; } else r = it->second;
    if (!r) { unmodelled.insert(cal->name); throw EngineErr{"unmodelled function " + cal->name}; } cal = r; }
  pushFrame(cal, a, in.dst, in.w); }

static double asD(Val const& v) { double d; u64 c = v.c; if (v.w == 32) { float g; u32 x = c; memcpy(&g, &x, 4); return g; } memcpy(&d, &c, 8); return d; }
static Val fromD(double d, unsigned w) { if (w == 32) { float g = d; u32 x; memcpy(&x, &g, 4); return cv(x, 32); } u64 c; memcpy(&c, &d, 8); return cv(c, 64); }

bool Exec::intrinsic(Frame& f, Inst& in, Function* F) {
  using namespace Intrinsic; auto A = [&](int i) { return get(f, in.ops[i]); }; auto set = [&](Val v) { f.r[in.dst] = v; };
  switch (in.intr) {
    case lifetime_start: case lifetime_end: { Val p = A(1); if (p.e) return true; int i = findObj(p.c); if (i >= 0 && s->mem[i].base == p.c && (s->mem[i].fl & MSTACK)) { if (in.intr == lifetime_end) s->mem[i].fl |= MDEAD; else s->mem[i].fl &= ~MDEAD; } return true; }
    case dbg_value: case dbg_declare: case dbg_assign: case dbg_label: case experimental_noalias_scope_decl: case invariant_start: case invariant_end: case prefetch: case donothing: case sideeffect: case var_annotation: case stackrestore: return true;
    case assume: return true;
    case stacksave: set(cv(0, 64)); return true;
    case expect: case expect_with_probability: case launder_invariant_group: case strip_invariant_group: case ptr_annotation: case annotation: case ssa_copy: set(A(0)); return true;
    case is_constant: set(cv(0, 1)); return true;
    case objectsize: set(cv(~0ull, in.w)); return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case memcpy_inline: copyMem(concretize(A(0), "memcpy"), concretize(A(1), "memcpy"), concretize(A(2), "memcpy size")); return true;
    case Intrinsic::memset: { u64 d = concretize(A(0), "memset"), n = concretize(A(2), "memset size"); Val v = A(1); if (!n) return true; MemObj& o = objFor(d, n, true); ObjData& w = wr(o); u64 off = d - o.base; if (!v.e) { ::memset(&w.d[off], (int)v.c, n); if (!w.k.empty()) ::memset(&w.k[off], KC, n); } else for (u64 i = 0; i < n; i++) setByte(w, off + i, v.e); return true; }
    case umax: { Expr *a = ex(A(0)), *b = ex(A(1)); set(ev(B.ite(B.bin(ULT, a, b), b, a))); return true; }
    case umin: { Expr *a = ex(A(0)), *b = ex(A(1)); set(ev(B.ite(B.bin(ULT, a, b), a, b))); return true; }
    case smax: { Expr *a = ex(A(0)), *b = ex(A(1)); set(ev(B.ite(B.bin(SLT, a, b), b, a))); return true; }
    case smin: { Expr *a = ex(A(0)), *b = ex(A(1)); set(ev(B.ite(B.bin(SLT, a, b), a, b))); return true; }
    case Intrinsic::abs: { Expr* a = ex(A(0)); set(ev(B.ite(B.bin(SLT, a, B.con(0, a->w)), B.bin(SUB, B.con(0, a->w), a), a))); return true; }
    case usub_sat: { Expr *a = ex(A(0)), *b = ex(A(1)); set(ev(B.ite(B.bin(ULT, a, b), B.con(0, a->w), B.bin(SUB, a, b)))); return true; }
    case uadd_sat: { Expr *a = ex(A(0)), *b = ex(A(1)); Expr* r = B.bin(ADD, a, b); set(ev(B.ite(B.bin(ULT, r, a), B.con(~0ull, a->w), r))); return true; }
    case bswap: { Expr* a = ex(A(0)); Expr* r = B.extract(a, 0, 8); for (unsigned i = 8; i < a->w; i += 8) r = B.concat(r, B.extract(a, i, 8)); set(ev(r)); return true; }
    case ctpop: { Expr* a = ex(A(0)); Expr* r = B.con(0, a->w); for (unsigned i = 0; i < a->w; i++) r = B.bin(ADD, r, B.zext(B.extract(a, i, 1), a->w)); set(ev(r)); return true; }
    case ctlz: { Expr* a = ex(A(0)); Expr* r = B.con(a->w, a->w); for (unsigned i = 0; i < a->w; i++) r = B.ite(B.extract(a, i, 1), B.con(a->w - 1 - i, a->w), r); set(ev(r)); return true; }
    case cttz: { Expr* a = ex(A(0)); Expr* r = B.con(a->w, a->w); for (unsigned i = a->w; i-- > 0;) r = B.ite(B.extract(a, i, 1), B.con(i, a->w), r); set(ev(r)); return true; }
    case fshl: case fshr: { Expr *a = ex(A(0)), *b = ex(A(1)); unsigned w = a->w; u64 k = concretize(A(2), "fsh") % w; if (in.intr == fshr) { set(k ? ev(B.bin(OR, B.bin(SHL, a, B.con(w - k, w)), B.bin(LSHR, b, B.con(k, w)))) : ev(b)); } else set(k ? ev(B.bin(OR, B.bin(SHL, a, B.con(k, w)), B.bin(LSHR, b, B.con(w - k, w)))) : ev(a)); return true; }
    case uadd_with_overflow: { Expr *a = ex(A(0)), *b = ex(A(1)); Expr* r = B.bin(ADD, a, b); set(aggv({ev(r), ev(B.bin(ULT, r, a))})); return true; }
    case usub_with_overflow: { Expr *a = ex(A(0)), *b = ex(A(1)); set(aggv({ev(B.bin(SUB, a, b)), ev(B.bin(ULT, a, b))})); return true; }
    case sadd_with_overflow: case ssub_with_overflow: { Expr *a = ex(A(0)), *b = ex(A(1)); unsigned w = a->w; bool add = in.intr == sadd_with_overflow; Expr* r = B.bin(add ? ADD : SUB, a, b); auto sg = [&](Expr* e) { return B.extract(e, w - 1, 1); };
      Expr* of = add ? B.bin(AND, B.bin(EQ, sg(a), sg(b)), B.bin(XOR, sg(r), sg(a))) : B.bin(AND, B.bin(XOR, sg(a), sg(b)), B.bin(XOR, sg(r), sg(a))); set(aggv({ev(r), ev(of)})); return true; }
    case umul_with_overflow: case smul_with_overflow: { Val a = A(0), b = A(1); unsigned w = a.w; if (!a.e && !b.e) { __int128 p = in.intr == smul_with_overflow ? (__int128)sx64(a.c, w) * sx64(b.c, w) : (__int128)((unsigned __int128)a.c * b.c); u64 r = (u64)p & maskw(w); bool of = in.intr == smul_with_overflow ? (__int128)sx64(r, w) != p : (unsigned __int128)r != (unsigned __int128)p; set(aggv({cv(r, w), cv(of, 1)})); return true; }
      // one constant operand: overflow by range comparison
      Expr* x = a.e ? a.e : b.e; if (a.e && b.e) { if (w > 32) throw EngineErr{"symbolic mul overflow"}; Expr* X2 = in.intr == smul_with_overflow ? B.sext(ex(a), 2 * w) : B.zext(ex(a), 2 * w); Expr* Y2 = in.intr == smul_with_overflow ? B.sext(ex(b), 2 * w) : B.zext(ex(b), 2 * w); Expr* P = B.bin(MUL, X2, Y2); Expr* r = B.extract(P, 0, w); Expr* back = in.intr == smul_with_overflow ? B.sext(r, 2 * w) : B.zext(r, 2 * w); set(aggv({ev(r), ev(B.lnot(B.bin(EQ, back, P)))})); return true; }
      u64 k = a.e ? b.c : a.c; Expr* r = B.bin(MUL, x, B.con(k, w)); Expr* of;
      if (in.intr == umul_with_overflow) of = k ? B.bin(ULT, B.con(maskw(w) / k, w), x) : B.con(0, 1);
      else { i64 sk = sx64(k, w); if (sk <= 0) { if (sk == 0) of = B.con(0, 1); else if (sk == -1) of = B.bin(EQ, x, B.con(1ull << (w - 1), w)); else { i64 mx = (i64)(maskw(w) >> 1), mn = -mx - 1; of = B.bin(OR, B.bin(SLT, x, B.con((u64)(mx / sk), w)), B.bin(SLT, B.con((u64)(mn / sk), w), x)); } }
        else { i64 mx = (i64)(maskw(w) >> 1), mn = -mx - 1; of = B.bin(OR, B.bin(SLT, B.con((u64)(mx / sk), w), x), B.bin(SLT, x, B.con((u64)(mn / sk), w))); } }
      set(aggv({ev(r), ev(of)})); return true; }
    case trap: case debugtrap: fail("abort", "trap", "trap reached");
    case ubsantrap: fail("ub", "ub", "undefined behaviour (ubsan trap " + std::to_string(A(0).c) + ")");
    case threadlocal_address: { auto* gv = cast<GlobalVariable>(cast<CallBase>(in.I)->getArgOperand(0)->stripPointerCasts()); auto& t = s->th[s->cur].tls; for (auto& p : t) if (p.first == gv) { set(cv(p.second, 64)); return true; }
      u64 n = DL->getTypeAllocSize(gv->getValueType()); u64 a = alloc(n, MGLOBAL, false); if (gv->hasInitializer()) storeConst(a, gv->getInitializer()); else throw EngineErr{"extern thread_local " + gv->getName().str()}; s->th[s->cur].tls.push_back({gv, a}); s->th[s->cur].st.back().r[in.dst] = cv(a, 64); return true; }
    case vastart: { u64 ap = concretize(A(0), "va"); u64 n = f.va.size() * 8; u64 area = alloc(n + 8, MSTACK, false); s->th[s->cur].st.back().allocas.push_back(area); Frame& g = s->th[s->cur].st.back(); for (size_t i = 0; i < g.va.size(); i++) { Val v = g.va[i]; if (v.w < 64) v = v.e ? ev(B.zext(v.e, 64)) : cv(v.c, 64); writeBytes(area + 8 * i, 8, v); }
      writeBytes(ap, 4, cv(48, 32)); writeBytes(ap + 4, 4, cv(176, 32)); writeBytes(ap + 8, 8, cv(area, 64)); writeBytes(ap + 16, 8, cv(0, 64)); return true; }
    case vaend: return true;
    case vacopy: copyMem(concretize(A(0), "va"), concretize(A(1), "va"), 24); return true;
    case eh_typeid_for: set(cv(1, 32)); return true;
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: case Intrinsic::fabs: { Val v = A(0); if (v.e) break; double d = asD(v); d = in.intr == Intrinsic::floor ? ::floor(d) : in.intr == Intrinsic::ceil ? ::ceil(d) : in.intr == Intrinsic::trunc ? ::trunc(d) : in.intr == Intrinsic::round ? ::round(d) : in.intr == Intrinsic::fabs ? ::fabs(d) : ::rint(d); set(fromD(d, v.w)); return true; }
    case Intrinsic::is_fpclass: { Val v = A(0); if (v.e) break; double d = asD(v); u64 m = A(1).c; bool neg = std::signbit(d); unsigned k = std::isnan(d) ? 3 : std::isinf(d) ? (neg ? 4 : 0x200) : d == 0 ? (neg ? 0x20 : 0x40) : (v.w == 32 ? std::fabs(d) < 1.17549435e-38 : !std::isnormal(d)) ? (neg ? 0x10 : 0x80) : (neg ? 8 : 0x100); set(cv((m & k) != 0, 1)); return true; }
    case Intrinsic::copysign: case Intrinsic::minnum: case Intrinsic::maxnum: { Val v = A(0), x = A(1); if (v.e || x.e) break; double a = asD(v), b = asD(x); set(fromD(in.intr == Intrinsic::copysign ? std::copysign(a, b) : in.intr == Intrinsic::minnum ? std::fmin(a, b) : std::fmax(a, b), v.w)); return true; }
    case Intrinsic::sqrt: { Val v = A(0); if (v.e) break; set(fromD(std::sqrt(asD(v)), v.w)); return true; }
    case Intrinsic::fmuladd: case Intrinsic::fma: { Val v = A(0), x = A(1), y = A(2); if (v.e || x.e || y.e || v.w != 64) break; set(fromD(in.intr == Intrinsic::fma ? std::fma(asD(v), asD(x), asD(y)) : asD(v) * asD(x) + asD(y), v.w)); return true; }
    case fptosi_sat: case fptoui_sat: { Val v = A(0); if (v.e) break; double d = asD(v); bool sg = in.intr == fptosi_sat; double top = ::ldexp(1, in.w - (sg ? 1 : 0)), bot = sg ? -top : 0; u64 r = d != d ? 0 : d >= top ? (sg ? (1ull << (in.w - 1)) - 1 : ~0ull) : d <= bot ? (sg ? 1ull << (in.w - 1) : 0) : sg ? (u64)(int64_t)d : (u64)d; set(cv(r & (in.w == 64 ? ~0ull : (1ull << in.w) - 1), in.w)); return true; }
    default: break; }
  throw EngineErr{"intrinsic " + (F ? F->getName().str() : string("asm"))}; }

// ------------------------------------------------------------------ step
bool Exec::step() {
  Thread& t = s->th[s->cur];
  if (t.st.empty()) {
    if (s->cur == 0) { if (s->initDone < ctors.size()) { FnInfo* c = ctors[s->initDone++]; pushFrame(c, {}, -1, 0); return true; } endPath(true); return false; }
    t.status = 2; if (!schedule(false)) { s->cur = 0; fail("deadlock", "deadlock", "every remaining thread is blocked"); } return true; }
  Frame& f = t.st.back(); Inst& in = f.fn->bbs[f.bb].ins[f.pc];
  s->steps++; totalSteps++;
  if (s->steps > maxSteps) { fail("steps", "nontermination", "more than " + std::to_string(maxSteps) + " instructions on one path"); }
  if (in.line >= 0) lineHit[in.line] = 1;
  auto A = [&](int i) -> Val { return get(f, in.ops[i]); };
  switch (in.opc) {
    case 9999: throw EngineErr{(const char*)(uintptr_t)in.off};
    case Instruction::Alloca: { u64 n = concretize(A(0), "alloca") * in.size; u64 a = alloc(n, MSTACK, true); f.allocas.push_back(a); f.r[in.dst] = cv(a, 64); break; }
    case Instruction::Load: { Val p = A(0); if (in.ty->isStructTy() || in.ty->isArrayTy()) { u64 a = concretize(p, "address"); vector<Val> v; if (in.ty->isStructTy()) { auto* sl = DL->getStructLayout(cast<StructType>(in.ty)); for (unsigned i = 0; i < in.ty->getStructNumElements(); i++) { Type* et = in.ty->getStructElementType(i); if (et->isAggregateType()) throw EngineErr{"nested aggregate load"}; v.push_back(readBytes(a + (u64)sl->getElementOffset(i), DL->getTypeStoreSize(et), et->isPointerTy() ? 64 : (unsigned)DL->getTypeSizeInBits(et))); } } else throw EngineErr{"array load"}; f.r[in.dst] = aggv(v); break; }
      if (in.ty->isVectorTy()) { auto* vt = cast<FixedVectorType>(in.ty); u64 a = concretize(p, "address"); unsigned ew = vt->getElementType()->isPointerTy() ? 64 : (unsigned)DL->getTypeSizeInBits(vt->getElementType()); vector<Val> v; for (unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(readBytes(a + i * ew / 8, ew / 8, ew)); f.r[in.dst] = aggv(v); break; }
      Val r = p.e ? loadSym(p, in.size, in.w) : readBytes(p.c, in.size, in.w); s->th[s->cur].st.back().r[in.dst] = r; break; }
    case Instruction::Store: { Val v = A(0); u64 a = concretize(A(1), "address"); if (v.agg) { Type* ty = in.ty; if (ty->isStructTy()) { auto* sl = DL->getStructLayout(cast<StructType>(ty)); for (unsigned i = 0; i < ty->getStructNumElements(); i++) writeBytes(a + (u64)sl->getElementOffset(i), DL->getTypeStoreSize(ty->getStructElementType(i)), (*v.agg)[i]); } else if (ty->isVectorTy()) { auto* vt = cast<FixedVectorType>(ty); unsigned es = DL->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) writeBytes(a + i * es, es, (*v.agg)[i]); } else throw EngineErr{"array store"}; } else writeBytes(a, in.size, v); break; }
    case Instruction::GetElementPtr: { Val p = A(0); bool c = !p.e; u64 acc = p.c + in.off; for (size_t i = 0; i < in.scale.size() && c; i++) { Val x = A(i + 1); if (x.e) c = false; else acc += (u64)sx64(x.c, x.w) * in.scale[i]; }
      if (c) { f.r[in.dst] = cv(acc, 64); break; }
      Expr* e = B.bin(ADD, ex(p), B.con((u64)in.off, 64)); for (size_t i = 0; i < in.scale.size(); i++) { Expr* x = ex(A(i + 1)); x = x->w < 64 ? B.sext(x, 64) : x; e = B.bin(ADD, e, B.bin(MUL, x, B.con(in.scale[i], 64))); } f.r[in.dst] = ev(e); break; }
    case Instruction::Br: { if (in.ops.empty()) { jump(f, in.succ[0]); return true; } Val c = A(0); bool v = c.e ? branch(c.e) : c.c; jump(s->th[s->cur].st.back(), v ? in.succ[0] : in.succ[1]); return true; }
    case Instruction::Switch: { Val c = A(0); if (!c.e) { int to = in.succ[0]; for (auto& k : in.cases) if (k.first == c.c) { to = k.second; break; } jump(f, to); return true; }
      for (auto& k : in.cases) { if (branch(B.bin(EQ, c.e, B.con(k.first, c.w)))) { jump(f, k.second); return true; } } jump(f, in.succ[0]); return true; }
    case Instruction::Ret: { Val v; if (!in.ops.empty()) v = A(0); doRet(v); return true; }
    case Instruction::Unreachable: fail("unreachable", "unreachable", "control flows past a noreturn point");
    case Instruction::Select: { Val c = A(0), a = A(1), b = A(2); if (c.agg) throw EngineErr{"vector select"}; if (!c.e) f.r[in.dst] = c.c ? a : b; else if (a.agg || b.agg) f.r[in.dst] = branch(c.e) ? a : b; else if (in.ty->isPointerTy()) { if (!a.e && !b.e && a.c == b.c) f.r[in.dst] = a; else { bool v = branch(c.e); f.r[in.dst] = v ? a : b; } } else f.r[in.dst] = ev(B.ite(c.e, ex(a), ex(b))); break; }
    case Instruction::ICmp: { Val a = A(0), b = A(1); if (a.agg) throw EngineErr{"vector icmp"}; Expr *x, *y; auto pr = cast<ICmpInst>(in.I)->getPredicate(); Op o; bool sw = false, ng = false;
      switch (pr) { case CmpInst::ICMP_EQ: o = EQ; break; case CmpInst::ICMP_NE: o = EQ; ng = true; break; case CmpInst::ICMP_ULT: o = ULT; break; case CmpInst::ICMP_ULE: o = ULE; break; case CmpInst::ICMP_UGT: o = ULT; sw = true; break; case CmpInst::ICMP_UGE: o = ULE; sw = true; break; case CmpInst::ICMP_SLT: o = SLT; break; case CmpInst::ICMP_SLE: o = SLE; break; case CmpInst::ICMP_SGT: o = SLT; sw = true; break; default: o = SLE; sw = true; }
      if (sw) std::swap(a, b); if (!a.e && !b.e && a.w <= 64) { bool r = Builder::fold(o, a.c, b.c, a.w); f.r[in.dst] = cv(r != ng, 1); break; }
      x = ex(a); y = ex(b); Expr* r = B.bin(o, x, y); if (ng) r = B.lnot(r); f.r[in.dst] = ev(r); break; }
    case Instruction::ZExt: { Val a = A(0); f.r[in.dst] = a.e || in.w > 64 ? ev(B.zext(ex(a), in.w)) : cv(a.c, in.w); if (in.w > 64) { Val r; r.w = in.w; r.e = B.raw(CONCAT, in.w, 0, B.con(0, in.w - 64), B.zext(ex(a), 64)); f.r[in.dst] = r; } break; }
    case Instruction::SExt: { Val a = A(0); if (in.w > 64) { Val r; r.w = in.w; Expr* l = B.sext(ex(a), 64); r.e = B.raw(CONCAT, in.w, 0, B.sext(B.extract(l, 63, 1), in.w - 64), l); f.r[in.dst] = r; break; } f.r[in.dst] = a.e ? ev(B.sext(a.e, in.w)) : cv((u64)sx64(a.c, a.w), in.w); break; }
    case Instruction::Trunc: { Val a = A(0); f.r[in.dst] = a.e ? ev(B.extract(a.e, 0, in.w)) : cv(a.c, in.w); break; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: { Val a = A(0); if (a.w == in.w) f.r[in.dst] = a; else if (a.w > in.w) f.r[in.dst] = a.e ? ev(B.extract(a.e, 0, in.w)) : cv(a.c, in.w); else f.r[in.dst] = a.e ? ev(B.zext(a.e, in.w)) : cv(a.c, in.w); break; }
    case Instruction::BitCast: { Val a = A(0); if (a.agg || in.ty->isVectorTy()) { // between vectors and integers
        Expr* e; if (a.agg) { e = ex((*a.agg)[0]); for (size_t i = 1; i < a.agg->size(); i++) e = B.concat(ex((*a.agg)[i]), e); } else e = ex(a);
        if (in.ty->isVectorTy()) { auto* vt = cast<FixedVectorType>(in.ty); unsigned ew = DL->getTypeSizeInBits(vt->getElementType()); vector<Val> v; for (unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(ev(B.extract(e, i * ew, ew))); f.r[in.dst] = aggv(v); } else f.r[in.dst] = ev(e); break; }
      a.w = in.w; f.r[in.dst] = a; break; }
    case Instruction::Freeze: f.r[in.dst] = A(0); break;
    case Instruction::ExtractValue: { Val a = A(0); for (unsigned i : cast<ExtractValueInst>(in.I)->indices()) { if (!a.agg) throw EngineErr{"extractvalue"}; a = (*a.agg)[i]; } f.r[in.dst] = a; break; }
    case Instruction::InsertValue: { Val a = A(0), v = A(1); auto idx = cast<InsertValueInst>(in.I)->getIndices(); std::function<Val(Val, unsigned)> go = [&](Val x, unsigned d) -> Val { if (d == idx.size()) return v; vector<Val> n = *x.agg; n[idx[d]] = go(n[idx[d]], d + 1); return aggv(n); }; f.r[in.dst] = go(a, 0); break; }
    case Instruction::ExtractElement: { Val a = A(0); u64 i = concretize(A(1), "index"); f.r[in.dst] = (*a.agg)[i]; break; }
    case Instruction::InsertElement: { Val a = A(0), v = A(1); u64 i = concretize(A(2), "index"); vector<Val> n = *a.agg; n[i] = v; f.r[in.dst] = aggv(n); break; }
    case Instruction::ShuffleVector: { Val a = A(0), b = A(1); auto mk = cast<ShuffleVectorInst>(in.I)->getShuffleMask(); vector<Val> n; size_t k = a.agg->size(); for (int i : mk) n.push_back(i < 0 ? (*a.agg)[0] : (size_t)i < k ? (*a.agg)[i] : (*b.agg)[i - k]); f.r[in.dst] = aggv(n); break; }
    case Instruction::Fence: break;
    case Instruction::AtomicRMW: { auto* r = cast<AtomicRMWInst>(in.I); u64 a = concretize(A(0), "address"); unsigned w = A(1).w; Val old = readBytes(a, w / 8, w); Val v = A(1), n; Inst d; switch (r->getOperation()) { case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = binop(Instruction::Add, old, v, d); break; case AtomicRMWInst::Sub: n = binop(Instruction::Sub, old, v, d); break; case AtomicRMWInst::And: n = binop(Instruction::And, old, v, d); break; case AtomicRMWInst::Or: n = binop(Instruction::Or, old, v, d); break; case AtomicRMWInst::Xor: n = binop(Instruction::Xor, old, v, d); break; default: throw EngineErr{"atomicrmw"}; } writeBytes(a, w / 8, n); f.r[in.dst] = old; break; }
    case Instruction::AtomicCmpXchg: { u64 a = concretize(A(0), "address"); unsigned w = A(1).w; Val old = readBytes(a, w / 8, w); Expr* eq = B.bin(EQ, ex(old), ex(A(1))); Val nv = ev(B.ite(eq, ex(A(2)), ex(old))); writeBytes(a, w / 8, nv); f.r[in.dst] = aggv({old, ev(eq)}); break; }
    case Instruction::Call: case Instruction::Invoke: {
      if (in.intr == -2) { if (in.dst < 0) break; throw EngineErr{"inline asm"}; }
      if (in.intr >= 0) { int cur = s->cur; intrinsic(f, in, cast<CallBase>(in.I)->getCalledFunction()); s->th[cur].st.back().pc++; return true; }
      callInst(f, in); return true; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: { Val a = A(0), b = A(1); if (a.e || b.e || a.agg) throw EngineErr{"symbolic floating point"}; double x = asD(a), y = asD(b); f.r[in.dst] = fromD(in.opc == Instruction::FAdd ? x + y : in.opc == Instruction::FSub ? x - y : in.opc == Instruction::FMul ? x * y : x / y, a.w); break; }
    case Instruction::FNeg: { Val a = A(0); if (a.e) throw EngineErr{"symbolic floating point"}; f.r[in.dst] = fromD(-asD(a), a.w); break; }
    case Instruction::SIToFP: case Instruction::UIToFP: { Val a = A(0); if (a.e) a = cv(concretize(a, "int to float"), a.w); s->th[s->cur].st.back().r[in.dst] = fromD(in.opc == Instruction::SIToFP ? (double)sx64(a.c, a.w) : (double)a.c, in.w); break; }
    case Instruction::FPToSI: case Instruction::FPToUI: { Val a = A(0); double d = asD(a); if (in.opc == Instruction::FPToSI) { double lim = ldexp(1, in.w - 1); if (!(d > -lim - 1 && d < lim)) fail("ub", "float-cast-overflow", "float to integer conversion out of range"); f.r[in.dst] = cv((u64)(i64)d, in.w); } else { if (!(d > -1 && d < ldexp(1, in.w))) fail("ub", "float-cast-overflow", "float to integer conversion out of range"); f.r[in.dst] = cv((u64)d, in.w); } break; }
    case Instruction::FPExt: case Instruction::FPTrunc: f.r[in.dst] = fromD(asD(A(0)), in.w); break;
    case Instruction::FCmp: { Val a = A(0), b = A(1); if (a.e || b.e) throw EngineErr{"symbolic floating point"}; double x = asD(a), y = asD(b); bool r; bool un = x != x || y != y; switch (cast<FCmpInst>(in.I)->getPredicate()) { case CmpInst::FCMP_OEQ: r = x == y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_TRUE: r = true; break; default: r = false; } f.r[in.dst] = cv(r, 1); break; }
    default: if (in.opc >= Instruction::Add && in.opc <= Instruction::Xor) { Val r = binop(in.opc, A(0), A(1), in); s->th[s->cur].st.back().r[in.dst] = r; break; }
      throw EngineErr{string("instruction ") + in.I->getOpcodeName()}; }
  s->th[s->cur].st.back().pc++; return true; }

void Exec::runAll(std::unique_ptr<State> init) {
  push(std::move(init)); u64 tick = 0;
  while (!work.empty()) {
    auto cur = std::move(work.back()); work.pop_back(); s = cur.get();
    try {
      for (;;) {
        if ((++tick & 0x3ff) == 0) { if (std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count() > maxSecs) { incomplete = true; incompleteWhy = "time limit"; return; } }
        try { if (!step()) break; } catch (Reexec&) {} }
    } catch (PathEnd&) { pathsAssumed++; }
    catch (EngineErr& e) { engineErrs[e.why + "  at " + stackStr()]++; }
    if (!viols.empty() && viols.size() >= 3) return;
    if (engineErrs.size() > 5) return;
    if (paths + pathsAssumed > maxPaths) { incomplete = true; incompleteWhy = "path limit"; return; } } }

int main(int argc, char** argv) {
  string file, out, entry = "sx_main";
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&] { return string(argv[++i]); };
    if (a == "-o") out = nx(); else if (a == "-P") { string p = nx(); auto e = p.find('='); params[p.substr(0, e)] = (u64)atoll(p.substr(e + 1).c_str()); } else if (a == "-only") { std::stringstream ss(nx()); string x; while (getline(ss, x, ',')) only.insert(x); } else if (a == "-steps") maxSteps = atoll(nx().c_str()); else if (a == "-secs") maxSecs = atof(nx().c_str()); else if (a == "-paths") maxPaths = atoll(nx().c_str()); else if (a == "-preempt") preemptBound = atoi(nx().c_str()); else if (a == "-seed") seed = atoll(nx().c_str()); else if (a == "-entry") entry = nx(); else if (a == "-v") verbose = true; else if (a == "-src") srcRoot = nx(); else if (a == "-samples") nSamples = atoi(nx().c_str()); else file = a; }
  T0 = std::chrono::steady_clock::now(); rngState = seed * 0x9E3779B97F4A7C15ull + 1; S = new Solver;
  SMDiagnostic err; M = parseIRFile(file, err, C); if (!M) { err.print("sx", errs()); return 66; } DL = &M->getDataLayout();
  auto st = std::make_unique<State>(); st->th.emplace_back(); X.s = st.get();
  u64 fa = 0x10000; for (auto& F : *M) { FnInfo* f = X.fn(&F); f->addr = fa; fnAt[fa] = f; fa += 16; if (fa >= 0x100000) { fprintf(stderr, "too many functions\n"); return 66; } }
  for (auto& G : M->globals()) { if (G.isThreadLocal() || G.getName().starts_with("llvm.")) continue; u64 n = DL->getTypeAllocSize(G.getValueType()); bool ext = G.isDeclaration(); u64 a = X.alloc(ext ? 256 : n, MGLOBAL | (ext ? MEXTERN : 0), false); if (ext) externName[a] = G.getName().str(); gaddr[&G] = a; }
  for (auto& G : M->globals()) { if (G.isThreadLocal() || G.isDeclaration() || G.getName().starts_with("llvm.")) continue; try { X.storeConst(gaddr[&G], G.getInitializer()); } catch (EngineErr& e) { fprintf(stderr, "global %s: %s\n", G.getName().str().c_str(), e.why.c_str()); } if (G.isConstant()) st->mem[X.findObj(gaddr[&G])].fl |= MCONST; }
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) { std::multimap<u64, FnInfo*> o; for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) o.emplace(cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), X.fn(F)); } for (auto& p : o) ctors.push_back(p.second); }
  Function* E = M->getFunction(entry); if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 66; } ctors.push_back(X.fn(E));
  X.runAll(std::move(st));
  double secs = std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count();
  std::ostringstream o; o << "{\"paths\":" << paths << ",\"pathsCut\":" << pathsAssumed << ",\"steps\":" << totalSteps << ",\"forks\":" << forks << ",\"checksDecided\":" << checksDecided << ",\"checksTrivial\":" << checksTrivial << ",\"queries\":" << S->queries << ",\"cacheHits\":" << S->cacheHits << ",\"sat\":" << S->sat << ",\"unsat\":" << S->unsat << ",\"unknown\":" << S->unknown << ",\"solverSecs\":" << S->secs << ",\"secs\":" << secs << ",\"incomplete\":\"" << (incomplete ? jesc(incompleteWhy) : "") << "\"";
  auto mp = [&](const char* k, std::map<string, u64>& m) { o << ",\"" << k << "\":{"; bool f = true; for (auto& p : m) { o << (f ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; f = false; } o << "}"; };
  mp("covers", coverHits); mp("checks", checkHits); mp("checksSolved", checkSolved); mp("engineErrors", engineErrs);
  o << ",\"kf\":{"; { bool f = true; for (auto& p : kfHits) { o << (f ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; f = false; } } o << "}";
  o << ",\"violations\":["; for (size_t i = 0; i < viols.size(); i++) o << (i ? "," : "") << "{\"kind\":\"" << viols[i].kind << "\",\"id\":\"" << jesc(viols[i].id) << "\",\"msg\":\"" << jesc(viols[i].msg) << "\",\"stack\":\"" << jesc(viols[i].stack) << "\",\"trace\":" << viols[i].trace << "}"; o << "]";
  o << ",\"samples\":["; for (size_t i = 0; i < samples.size(); i++) o << (i ? "," : "") << samples[i]; o << "]";
  std::map<string, u64> fl; std::map<string, std::pair<int, int>> cov; std::set<string> fns; for (size_t i = 0; i < lines.size(); i++) { if (lines[i].first.rfind(srcRoot, 0) == 0) { auto& c = cov[lines[i].first]; c.second++; if (lineHit[i]) { c.first++; fns.insert(lineFn[i]); } } }
  o << ",\"lines\":{"; { bool f = true; for (auto& p : cov) { o << (f ? "" : ",") << "\"" << jesc(p.first) << "\":[" << p.second.first << "," << p.second.second << "]"; f = false; } } o << "},\"missed\":["; { bool f = true; for (size_t i = 0; i < lines.size(); i++) if (!lineHit[i] && lines[i].first.rfind(srcRoot, 0) == 0) { o << (f ? "" : ",") << "\"" << jesc(lines[i].first) << ":" << lines[i].second << "\""; f = false; } } o << "],\"functions\":["; { bool f = true; for (auto& n : fns) { o << (f ? "" : ",") << "\"" << jesc(n) << "\""; f = false; } } o << "]}\n";
  if (out.empty()) fputs(o.str().c_str(), stdout); else { std::ofstream(out) << o.str(); }
  fflush(stdout); _exit(0); }
