// Bit-vector expressions (hash-consed, simplified on construction) and the
// Z3-backed decision procedure used by the symbolic executor.
#pragma once
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;
using i64 = int64_t;

enum Op : u8 { CONST, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
               EQ, ULT, ULE, SLT, SLE, ZEXT, SEXT, EXTRACT, CONCAT, ITE, SITOFP };

struct Expr;
using SymSet = std::vector<u32>;
struct Expr {
  Op op; u16 w; u32 id; u64 c; // c: constant / symbol index / extract low bit
  Expr *a, *b, *d;
  SymSet const* syms;
  Z3_ast z = nullptr; Z3_ast zb = nullptr;
  u32 evEpoch = 0; u64 evVal = 0;
};
inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sx64(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }

struct SymInfo { std::string name; u16 w; };
extern std::vector<SymInfo> g_syms;

struct EKey { Op op; u16 w; u64 c; Expr *a, *b, *d; bool operator==(EKey const& o) const { return op==o.op&&w==o.w&&c==o.c&&a==o.a&&b==o.b&&d==o.d; } };
struct EHash { size_t operator()(EKey const& k) const { u64 h = k.op*0x9E3779B97F4A7C15ull ^ ((u64)k.w<<32) ^ k.c*0xff51afd7ed558ccdull; auto m=[&](void*p){h ^= (u64)p; h*=0xc4ceb9fe1a85ec53ull; h^=h>>29;}; m(k.a);m(k.b);m(k.d); return h; } };

struct Builder {
  std::unordered_map<EKey, Expr*, EHash> tab;
  std::unordered_set<std::string> dummy;
  struct VH { size_t operator()(SymSet const& v) const { u64 h=v.size(); for (auto x: v) h=h*1000003ull^x; return h; } };
  std::unordered_set<SymSet, VH> sets;
  SymSet const* empty;
  u32 nextId = 1;
  Builder() { empty = &*sets.insert(SymSet{}).first; }
  SymSet const* uni(SymSet const* x, SymSet const* y) {
    if (x == y || y->empty()) return x; if (x->empty()) return y;
    SymSet r; std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(r));
    return &*sets.insert(std::move(r)).first;
  }
  Expr* raw(Op op, u16 w, u64 c, Expr* a=nullptr, Expr* b=nullptr, Expr* d=nullptr) {
    EKey k{op,w,c,a,b,d}; auto it = tab.find(k); if (it != tab.end()) return it->second;
    Expr* e = new Expr{op,w,nextId++,c,a,b,d,empty};
    if (op == SYM) { e->syms = &*sets.insert(SymSet{(u32)c}).first; }
    else { if (a) e->syms = uni(e->syms,a->syms); if (b) e->syms = uni(e->syms,b->syms); if (d) e->syms = uni(e->syms,d->syms); }
    tab.emplace(k,e); return e;
  }
  Expr* con(u64 v, unsigned w) {
    if (w > 64) return raw(CONCAT, w, 0, con(0, w-64), raw(CONST,64,v));
    return raw(CONST, w, v & maskw(w)); }
  Expr* sym(std::string const& n, unsigned w) { g_syms.push_back({n,(u16)w}); return raw(SYM,w,g_syms.size()-1); }
  static bool isC(Expr* e) { return e->op == CONST; }
  static bool isC(Expr* e, u64 v) { return e->op == CONST && e->c == (v & maskw(e->w)); }
  static u64 fold(Op op, u64 x, u64 y, unsigned w) {
    u64 m = maskw(w); x&=m; y&=m;
    switch (op) {
      case ADD: return (x+y)&m; case SUB: return (x-y)&m; case MUL: return (x*y)&m;
      case UDIV: return y? x/y : m; case UREM: return y? x%y : x;
      case SDIV: { i64 a=sx64(x,w), b=sx64(y,w); if (!b) return a>=0? m:1; if (b==-1) return (u64)(0-(u64)a)&m; return (u64)(a/b)&m; }
      case SREM: { i64 a=sx64(x,w), b=sx64(y,w); if (!b) return x; if (b==-1) return 0; return (u64)(a%b)&m; }
      case AND: return x&y; case OR: return x|y; case XOR: return x^y;
      case SHL: return y>=w?0:(x<<y)&m; case LSHR: return y>=w?0:(x>>y);
      case ASHR: { i64 a=sx64(x,w); return (u64)(a >> (y>=w? (w-1): y)) & m; }
      case EQ: return x==y; case ULT: return x<y; case ULE: return x<=y;
      case SLT: return sx64(x,w)<sx64(y,w); case SLE: return sx64(x,w)<=sx64(y,w);
      default: abort();
    }
  }
  static bool isNot(Expr* e) { return e->w==1 && e->op==XOR && isC(e->b,1); }
  Expr* lnot(Expr* e) { return bin(XOR, e, con(1,1)); }
  Expr* bin(Op op, Expr* a, Expr* b) {
    unsigned w = a->w;
    if (a->w != b->w) { fprintf(stderr,"width mismatch op %d %d %d\n",op,a->w,b->w); abort(); }
    bool cmp = op>=EQ && op<=SLE; unsigned rw = cmp?1:w;
    if (w <= 64 && isC(a) && isC(b)) return con(fold(op,a->c,b->c,w), rw);
    if (w > 64) {
      if (op==EQ && a==b) return con(1,1);
      if ((op==AND||op==OR||op==XOR) && a->op==CONCAT && b->op==CONCAT && a->b->w==b->b->w)
        return concat(bin(op,a->a,b->a), bin(op,a->b,b->b));
      return raw(op,rw,0,a,b);
    }
    bool comm = op==ADD||op==MUL||op==AND||op==OR||op==XOR||op==EQ;
    if (comm && isC(a)) std::swap(a,b);
    switch (op) {
      case ADD:
        if (isC(b,0)) return a;
        if (isC(b) && a->op==ADD && isC(a->b)) return bin(ADD,a->a,con(a->b->c+b->c,w));
        if (isC(b) && a->op==ITE && isC(a->b) && isC(a->d)) return ite(a->a, con(a->b->c+b->c,w), con(a->d->c+b->c,w));
        break;
      case SUB:
        if (a==b) return con(0,w);
        if (isC(b)) return bin(ADD,a,con(0-b->c,w));
        if (a->op==ADD && isC(a->b) && a->a==b) return a->b;
        if (a->op==ADD && b->op==ADD && a->a==b->a && isC(a->b) && isC(b->b)) return con(a->b->c-b->b->c,w);
        break;
      case MUL: if (isC(b,0)) return b; if (isC(b,1)) return a;
        if (isC(b) && (b->c&(b->c-1))==0) return bin(SHL,a,con(__builtin_ctzll(b->c),w)); break;
      case UDIV: if (isC(b,1)) return a;
        if (isC(b) && b->c && (b->c&(b->c-1))==0) return bin(LSHR,a,con(__builtin_ctzll(b->c),w)); break;
      case UREM: if (isC(b,1)) return con(0,w);
        if (isC(b) && b->c && (b->c&(b->c-1))==0) return bin(AND,a,con(b->c-1,w)); break;
      case AND:
        if (a==b) return a; if (isC(b,0)) return b; if (isC(b,~0ull)) return a;
        if (isC(b)) {
          if (a->op==AND && isC(a->b)) return bin(AND,a->a,con(a->b->c&b->c,w));
          if (a->op==ZEXT) { if (w<=64 && (b->c & maskw(a->a->w))==maskw(a->a->w)) return a;
            return zext(bin(AND,a->a,con(b->c,a->a->w)),w); }
          u64 m=b->c; if ((m&(m+1))==0) { unsigned k=__builtin_popcountll(m); return zext(extract(a,0,k),w); }
          if (a->op==CONCAT) { unsigned lw=a->b->w; return concat(bin(AND,a->a,con(b->c>>lw,a->a->w)), bin(AND,a->b,con(b->c,lw))); }
          if (a->op==ITE && (isC(a->b)||isC(a->d))) return ite(a->a,bin(AND,a->b,b),bin(AND,a->d,b));
        }
        if (w==1 && (a==lnotPeek(b) || b==lnotPeek(a))) return con(0,1);
        if (w==1 && b->op==AND && (b->a==a||b->b==a)) return b;
        if (w==1 && a->op==AND && (a->a==b||a->b==b)) return a;
        break;
      case OR:
        if (a==b) return a; if (isC(b,0)) return a; if (isC(b,~0ull)) return b;
        if (isC(b) && a->op==OR && isC(a->b)) return bin(OR,a->a,con(a->b->c|b->c,w));
        { Expr *x=a,*y=b; for (int t=0;t<2;t++,std::swap(x,y))
            if (x->op==ZEXT && y->op==CONCAT && isC(y->b,0) && y->b->w>=x->a->w) return concat(y->a, zext(x->a,y->b->w)); }
        if (isC(b) && a->op==ZEXT && w<=64 && a->a->w<64 && (b->c & maskw(a->a->w))==0) return concat(con(b->c>>a->a->w, w-a->a->w), a->a);
        if (isC(b) && a->op==ITE && isC(a->b) && isC(a->d)) return ite(a->a,bin(OR,a->b,b),bin(OR,a->d,b));
        if (w==1 && (a==lnotPeek(b) || b==lnotPeek(a))) return con(1,1);
        break;
      case XOR:
        if (a==b) return con(0,w); if (isC(b,0)) return a;
        if (isC(b) && a->op==XOR && isC(a->b)) return bin(XOR,a->a,con(a->b->c^b->c,w));
        if (w==1 && isC(b,1)) {
          if (a->op==ULT) return bin(ULE,a->b,a->a); if (a->op==ULE) return bin(ULT,a->b,a->a);
          if (a->op==SLT) return bin(SLE,a->b,a->a); if (a->op==SLE) return bin(SLT,a->b,a->a);
          if (a->op==ITE && isC(a->b) && isC(a->d)) return ite(a->a,bin(XOR,a->b,b),bin(XOR,a->d,b));
        }
        break;
      case SHL:
        if (isC(b)) { u64 k=b->c; if (!k) return a; if (k>=w) return con(0,w); return concat(extract(a,0,w-k), con(0,k)); }
        if (isC(a,0)) return a; break;
      case LSHR:
        if (isC(b)) { u64 k=b->c; if (!k) return a; if (k>=w) return con(0,w); return zext(extract(a,k,w-k),w); }
        if (isC(a,0)) return a; break;
      case ASHR:
        if (isC(b)) { u64 k=b->c; if (!k) return a; if (k>=w) k=w-1; return sext(extract(a,k,w-k),w); } break;
      case EQ:
        if (a==b) return con(1,1);
        if (w==1) { if (isC(b,1)) return a; if (isC(b,0)) return lnot(a); }
        if (isC(b)) {
          if (a->op==ZEXT) { unsigned k=a->a->w; if (b->c & ~maskw(k)) return con(0,1); return bin(EQ,a->a,con(b->c,k)); }
          if (a->op==SEXT) { unsigned k=a->a->w; if ((u64)(sx64(b->c,k))!=(u64)sx64(b->c,w)) return con(0,1); return bin(EQ,a->a,con(b->c,k)); }
          if (a->op==ITE && (isC(a->b)||isC(a->d))) return ite(a->a,bin(EQ,a->b,b),bin(EQ,a->d,b));
          if (a->op==CONCAT) { unsigned lw=a->b->w; return bin(AND,bin(EQ,a->a,con(b->c>>lw,a->a->w)),bin(EQ,a->b,con(b->c,lw))); }
          if (a->op==ADD && isC(a->b)) return bin(EQ,a->a,con(b->c-a->b->c,w));
          if (a->op==XOR && isC(a->b)) return bin(EQ,a->a,con(b->c^a->b->c,w));
          if (a->op==AND && isC(a->b)) { u64 m=a->b->c;
            if (b->c & ~m) return con(0,1);
            if ((m&(m-1))==0) { unsigned k=__builtin_ctzll(m); Expr* bit=extract(a->a,k,1); return b->c? bit: lnot(bit); } }
          if (a->op==OR && isC(b,0)) return bin(AND,bin(EQ,a->a,b),bin(EQ,a->b,b));
        }
        if (a->op==ZEXT && b->op==ZEXT) { if (a->a->w==b->a->w) return bin(EQ,a->a,b->a);
          if (a->a->w<b->a->w) return bin(EQ,zext(a->a,b->a->w),b->a); return bin(EQ,a->a,zext(b->a,a->a->w)); }
        if (a->op==SEXT && b->op==SEXT && a->a->w==b->a->w) return bin(EQ,a->a,b->a);
        if (a->op==CONCAT && b->op==CONCAT && a->b->w==b->b->w) return bin(AND,bin(EQ,a->a,b->a),bin(EQ,a->b,b->b));
        if (a->op==ADD && b->op==ADD && isC(a->b) && isC(b->b) && a->a==b->a) return con(a->b->c==b->b->c,1);
        if (a->op==ADD && isC(a->b) && a->a==b) return con(0,1);
        if (b->op==ADD && isC(b->b) && b->a==a) return con(0,1);
        if (a->id > b->id && !isC(b)) std::swap(a,b);
        break;
      case ULT:
        if (a==b) return con(0,1); if (isC(b,0)) return con(0,1); if (isC(b,1)) return bin(EQ,a,con(0,w));
        if (isC(a,0)) return lnot(bin(EQ,b,a)); if (isC(a,~0ull)) return con(0,1);
        if (a->op==ZEXT && isC(b)) { unsigned k=a->a->w; if (b->c>maskw(k)) return con(1,1); return bin(ULT,a->a,con(b->c,k)); }
        if (b->op==ZEXT && isC(a)) { unsigned k=b->a->w; if (a->c>=maskw(k)) return con(0,1); return bin(ULT,con(a->c,k),b->a); }
        if (a->op==ZEXT && b->op==ZEXT && a->a->w==b->a->w) return bin(ULT,a->a,b->a);
        if (a->op==ITE && isC(b) && isC(a->b) && isC(a->d)) return ite(a->a,bin(ULT,a->b,b),bin(ULT,a->d,b));
        break;
      case ULE:
        if (a==b) return con(1,1); if (isC(a,0)) return con(1,1); if (isC(b,~0ull)) return con(1,1);
        if (isC(b,0)) return bin(EQ,a,b);
        if (isC(b)) return bin(ULT,a,con(b->c+1,w)); if (isC(a)) return bin(ULT,con(a->c-1,w),b);
        if (a->op==ZEXT && b->op==ZEXT && a->a->w==b->a->w) return bin(ULE,a->a,b->a);
        break;
      case SLT:
        if (a==b) return con(0,1);
        if (a->op==ZEXT && isC(b)) return sx64(b->c,w)<=0? con(0,1): bin(ULT,a,b);
        if (b->op==ZEXT && isC(a)) return sx64(a->c,w)<0? con(1,1): bin(ULT,a,b);
        if (a->op==ZEXT && b->op==ZEXT) return bin(ULT,a,b);
        if (a->op==SEXT && isC(b)) { unsigned k=a->a->w; i64 v=sx64(b->c,w); i64 lo=sx64(1ull<<(k-1),k), hi=(i64)(maskw(k)>>1);
          if (v>hi) return con(1,1); if (v<=lo) return con(0,1); return bin(SLT,a->a,con(v,k)); }
        if (b->op==SEXT && isC(a)) { unsigned k=b->a->w; i64 v=sx64(a->c,w); i64 lo=sx64(1ull<<(k-1),k), hi=(i64)(maskw(k)>>1);
          if (v<lo) return con(1,1); if (v>=hi) return con(0,1); return bin(SLT,con(v,k),b->a); }
        if (a->op==ITE && isC(b) && isC(a->b) && isC(a->d)) return ite(a->a,bin(SLT,a->b,b),bin(SLT,a->d,b));
        if (isC(b,0)) return extract(a,w-1,1);
        if (isC(a,~0ull)) return lnot(extract(b,w-1,1));
        break;
      case SLE:
        if (a==b) return con(1,1);
        return lnotRaw(bin(SLT,b,a));
      default: break;
    }
    return raw(op,rw,0,a,b);
  }
  Expr* lnotRaw(Expr* e) { if (isC(e)) return con(!e->c,1); if (isNot(e)) return e->a;
    if (e->op==ULT) return bin(ULE,e->b,e->a); if (e->op==ULE) return bin(ULT,e->b,e->a);
    if (e->op==SLT) return raw(SLE,1,0,e->b,e->a);
    return raw(XOR,1,0,e,con(1,1)); }
  Expr* lnotPeek(Expr* e) { return isNot(e)? e->a : nullptr; }
  Expr* zext(Expr* a, unsigned w) {
    if (a->w==w) return a; if (isC(a) && w<=64) return con(a->c,w);
    if (a->op==ZEXT) return zext(a->a,w);
    return raw(ZEXT,w,0,a);
  }
  Expr* sext(Expr* a, unsigned w) {
    if (a->w==w) return a; if (isC(a) && w<=64) return con((u64)sx64(a->c,a->w),w);
    if (a->op==ZEXT) return zext(a->a,w); if (a->op==SEXT) return sext(a->a,w);
    return raw(SEXT,w,0,a);
  }
  Expr* extract(Expr* a, unsigned lo, unsigned w) {
    if (lo==0 && w==a->w) return a;
    if (lo+w > a->w) { fprintf(stderr,"bad extract %u+%u of %u\n",lo,w,a->w); abort(); }
    if (isC(a)) return con(a->c>>lo,w);
    switch (a->op) {
      case EXTRACT: return extract(a->a, a->c+lo, w);
      case CONCAT: { unsigned lw=a->b->w; if (lo>=lw) return extract(a->a,lo-lw,w); if (lo+w<=lw) return extract(a->b,lo,w);
        return concat(extract(a->a,0,lo+w-lw), extract(a->b,lo,lw-lo)); }
      case ZEXT: { unsigned k=a->a->w; if (lo>=k) return con(0,w); if (lo+w<=k) return extract(a->a,lo,w);
        return zext(extract(a->a,lo,k-lo),w); }
      case SEXT: { unsigned k=a->a->w; if (lo+w<=k) return extract(a->a,lo,w); if (lo==0) return sext(a->a,w);
        if (lo>=k-1) return sext(extract(a->a,k-1,1),w); return sext(extract(a->a,lo,k-lo),w); }
      case AND: case OR: case XOR: return bin(a->op,extract(a->a,lo,w),extract(a->b,lo,w));
      case ADD: if (lo==0 && isC(a->b)) return bin(ADD,extract(a->a,0,w),extract(a->b,0,w)); break;
      case ITE: if (isC(a->b)||isC(a->d)) return ite(a->a,extract(a->b,lo,w),extract(a->d,lo,w)); break;
      default: break;
    }
    return raw(EXTRACT,w,lo,a);
  }
  Expr* concat(Expr* hi, Expr* lo) {
    unsigned w=hi->w+lo->w;
    if (isC(hi) && isC(lo) && w<=64) return con((hi->c<<lo->w)|lo->c,w);
    if (isC(hi,0)) return zext(lo,w);
    Expr* h=hi; Expr* l=lo; unsigned hl=0,ll=0; Expr *hb=h,*lb=l;
    if (h->op==EXTRACT) { hb=h->a; hl=h->c; } if (l->op==EXTRACT) { lb=l->a; ll=l->c; }
    if (hb==lb && hl==ll+l->w) return extract(hb,ll,w);
    if (l->op==CONCAT) { // merge hi with the upper part of lo
      Expr* u=l->a; Expr* ub=u; unsigned ul=0; if (u->op==EXTRACT) { ub=u->a; ul=u->c; }
      if (hb==ub && hl==ul+u->w) return concat(extract(hb,ul,h->w+u->w), l->b);
      if (isC(h)&&isC(u)&&h->w+u->w<=64) return concat(concat(h,u),l->b);
    }
    if (h->op==ZEXT) return zext(concat(h->a,lo),w);
    return raw(CONCAT,w,0,hi,lo);
  }
  Expr* ite(Expr* c, Expr* a, Expr* b) {
    if (isC(c)) return c->c? a:b; if (a==b) return a;
    if (isNot(c)) return ite(c->a,b,a);
    if (a->w==1) { if (isC(a,1)&&isC(b,0)) return c; if (isC(a,0)&&isC(b,1)) return lnot(c);
      if (isC(b,0)) return bin(AND,c,a); if (isC(a,1)) return bin(OR,c,b);
      if (isC(a,0)) return bin(AND,lnot(c),b); if (isC(b,1)) return bin(OR,lnot(c),a); }
    return raw(ITE,a->w,0,c,a,b);
  }
};
extern Builder B;

// ---- evaluation under a model ----
using Model = std::vector<u64>;
extern u32 g_epoch;
u64 evalRec(Expr* e, Model const& m);
inline u64 evalExpr(Expr* e, Model const& m) { if (e->op==CONST) return e->c; ++g_epoch; return evalRec(e,m); }

// ---- solver ----
struct Solver {
  Z3_context cx; Z3_solver s;
  u64 queries=0, cacheHits=0, sat=0, unsat=0, unknown=0; double secs=0; unsigned timeoutMs=60000;
  bool lastUnknown=false;
  struct CEnt { bool sat; std::vector<std::pair<u32,u64>> vals; };
  struct VH { size_t operator()(std::vector<u32> const& v) const { u64 h=v.size(); for (auto x: v) h=(h^x)*0x100000001b3ull; return h; } };
  std::unordered_map<std::vector<u32>, CEnt, VH> cache;
  std::vector<u32> mark; u32 markEpoch=0;
  Solver();
  Z3_ast bv(Expr* e); Z3_ast bo(Expr* e); Z3_ast keep(Z3_ast a) { Z3_inc_ref(cx,a); return a; }
  // is  pc /\ extra  satisfiable? On sat, m is updated (a model of all of pc and extra).
  bool check(std::vector<Expr*> const& pc, Expr* extra, Model& m);
};
extern Solver* S;
