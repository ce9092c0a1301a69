#include "expr.h"
std::vector<SymInfo> g_syms; Builder B; u32 g_epoch=0; Solver* S=nullptr;

u64 evalRec(Expr* e, Model const& m) {
  if (e->op==CONST) return e->c;
  if (e->op==SYM) return e->c < m.size() ? (m[e->c] & maskw(e->w)) : 0;
  if (e->evEpoch==g_epoch) return e->evVal;
  u64 r=0;
  switch (e->op) {
    case ZEXT: r=evalRec(e->a,m); break;
    case SEXT: r=(u64)sx64(evalRec(e->a,m),e->a->w)&maskw(e->w); break;
    case EXTRACT:
      if (e->a->w>64) { // wide source: walk
        Expr* x=e->a; unsigned lo=e->c;
        if (x->op==CONCAT && lo>=x->b->w) r=evalRec(x->a,m)>>(lo-x->b->w);
        else if (x->op==CONCAT && lo+e->w<=x->b->w) r=evalRec(x->b,m)>>lo;
        else if (x->op==ZEXT) r= lo>=64?0:evalRec(x->a,m)>>lo;
        else { fprintf(stderr,"eval: wide extract\n"); r=0; }
        r&=maskw(e->w); break; }
      r=(evalRec(e->a,m)>>e->c)&maskw(e->w); break;
    case CONCAT: r= e->w>64? evalRec(e->b,m) : (evalRec(e->a,m)<<e->b->w)|evalRec(e->b,m); break;
    case ITE: r=evalRec(e->a,m)? evalRec(e->b,m):evalRec(e->d,m); break;
    case SITOFP: { double d=(double)(i64)evalRec(e->a,m); memcpy(&r,&d,8); break; }
    default: { u64 x=evalRec(e->a,m), y=evalRec(e->b,m); r=Builder::fold(e->op,x,y,e->a->w>64?64:e->a->w); }
  }
  e->evEpoch=g_epoch; e->evVal=r; return r;
}

static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr,"Z3 error: %s\n",Z3_get_error_msg(c,e)); exit(70); }
Solver::Solver() {
  Z3_config cfg=Z3_mk_config(); Z3_set_param_value(cfg,"model","true"); cx=Z3_mk_context_rc(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(cx,z3err);
  s=Z3_mk_solver_for_logic(cx,Z3_mk_string_symbol(cx,"QF_BV")); Z3_solver_inc_ref(cx,s);
    Z3_params p=Z3_mk_params(cx); Z3_params_inc_ref(cx,p); Z3_params_set_uint(cx,p,Z3_mk_string_symbol(cx,"rlimit"),2000000000u); Z3_solver_set_params(cx,s,p); Z3_params_dec_ref(cx,p);
}
Z3_ast Solver::bo(Expr* e) {
  if (e->zb) return e->zb; Z3_ast r;
  switch (e->op) {
    case CONST: r= e->c? Z3_mk_true(cx):Z3_mk_false(cx); break;
    case EQ: r= e->a->w==1? Z3_mk_iff(cx,bo(e->a),bo(e->b)) : Z3_mk_eq(cx,bv(e->a),bv(e->b)); break;
    case ULT: r=Z3_mk_bvult(cx,bv(e->a),bv(e->b)); break;
    case ULE: r=Z3_mk_bvule(cx,bv(e->a),bv(e->b)); break;
    case SLT: r=Z3_mk_bvslt(cx,bv(e->a),bv(e->b)); break;
    case SLE: r=Z3_mk_bvsle(cx,bv(e->a),bv(e->b)); break;
    case AND: { Z3_ast t[2]={bo(e->a),bo(e->b)}; r=Z3_mk_and(cx,2,t); break; }
    case OR: { Z3_ast t[2]={bo(e->a),bo(e->b)}; r=Z3_mk_or(cx,2,t); break; }
    case XOR: r= Builder::isNot(e)? Z3_mk_not(cx,bo(e->a)) : Z3_mk_xor(cx,bo(e->a),bo(e->b)); break;
    case ITE: r=Z3_mk_ite(cx,bo(e->a),bo(e->b),bo(e->d)); break;
    default: { Z3_ast one=Z3_mk_unsigned_int64(cx,1,Z3_mk_bv_sort(cx,1)); r=Z3_mk_eq(cx,bv(e),one); }
  }
  return e->zb=keep(r);
}
Z3_ast Solver::bv(Expr* e) {
  if (e->z) return e->z; Z3_ast r; Z3_sort so=Z3_mk_bv_sort(cx,e->w);
  bool bl = e->w==1 && (e->op>=EQ&&e->op<=SLE || e->op==AND||e->op==OR||e->op==XOR||e->op==ITE);
  if (bl) { r=Z3_mk_ite(cx,bo(e),Z3_mk_unsigned_int64(cx,1,so),Z3_mk_unsigned_int64(cx,0,so)); return e->z=keep(r); }
  switch (e->op) {
    case CONST: r=Z3_mk_unsigned_int64(cx,e->c,so); break;
    case SYM: { Z3_symbol n=Z3_mk_int_symbol(cx,(int)e->c); r=Z3_mk_const(cx,n,so); break; }
    case ADD: r=Z3_mk_bvadd(cx,bv(e->a),bv(e->b)); break;
    case SUB: r=Z3_mk_bvsub(cx,bv(e->a),bv(e->b)); break;
    case MUL: r=Z3_mk_bvmul(cx,bv(e->a),bv(e->b)); break;
    case UDIV: r=Z3_mk_bvudiv(cx,bv(e->a),bv(e->b)); break;
    case SDIV: r=Z3_mk_bvsdiv(cx,bv(e->a),bv(e->b)); break;
    case UREM: r=Z3_mk_bvurem(cx,bv(e->a),bv(e->b)); break;
    case SREM: r=Z3_mk_bvsrem(cx,bv(e->a),bv(e->b)); break;
    case AND: r=Z3_mk_bvand(cx,bv(e->a),bv(e->b)); break;
    case OR: r=Z3_mk_bvor(cx,bv(e->a),bv(e->b)); break;
    case XOR: r=Z3_mk_bvxor(cx,bv(e->a),bv(e->b)); break;
    case SHL: r=Z3_mk_bvshl(cx,bv(e->a),bv(e->b)); break;
    case LSHR: r=Z3_mk_bvlshr(cx,bv(e->a),bv(e->b)); break;
    case ASHR: r=Z3_mk_bvashr(cx,bv(e->a),bv(e->b)); break;
    case ZEXT: r=Z3_mk_zero_ext(cx,e->w-e->a->w,bv(e->a)); break;
    case SEXT: r=Z3_mk_sign_ext(cx,e->w-e->a->w,bv(e->a)); break;
    case EXTRACT: r=Z3_mk_extract(cx,e->c+e->w-1,e->c,bv(e->a)); break;
    case CONCAT: r=Z3_mk_concat(cx,bv(e->a),bv(e->b)); break;
    case ITE: r=Z3_mk_ite(cx,bo(e->a),bv(e->b),bv(e->d)); break;
    default: fprintf(stderr,"cannot translate op %d to the solver\n",e->op); exit(71);
  }
  return e->z=keep(r);
}
bool Solver::check(std::vector<Expr*> const& pc, Expr* extra, Model& m) {
  if (extra->op==CONST && !extra->c) return false;
  // relevant constraints: those sharing symbols (transitively) with `extra`
  if (mark.size()<g_syms.size()) mark.resize(g_syms.size()+64,0); ++markEpoch;
  std::vector<u32> frontier; auto add=[&](SymSet const* ss){ for (u32 x: *ss) if (mark[x]!=markEpoch) { mark[x]=markEpoch; frontier.push_back(x);} };
  add(extra->syms);
  std::vector<Expr*> rel; std::vector<char> taken(pc.size(),0); bool ch=true;
  while (ch) { ch=false; for (size_t i=0;i<pc.size();i++) if (!taken[i]) { bool hit=false; for (u32 x: *pc[i]->syms) if (mark[x]==markEpoch) {hit=true;break;}
      if (hit) { taken[i]=1; rel.push_back(pc[i]); size_t n=frontier.size(); add(pc[i]->syms); if (frontier.size()!=n) ch=true; } } }
  rel.push_back(extra);
  std::vector<u32> key; for (auto e: rel) key.push_back(e->id); std::sort(key.begin(),key.end()); key.erase(std::unique(key.begin(),key.end()),key.end());
  auto it=cache.find(key);
  if (it==cache.end()) {
    queries++;
    auto t0=std::chrono::steady_clock::now();
    Z3_solver_push(cx,s);
    for (auto e: rel) Z3_solver_assert(cx,s,bo(e));
    Z3_lbool r=Z3_solver_check(cx,s); CEnt ent; ent.sat=false;
    if (r==Z3_L_UNDEF) { unknown++; lastUnknown=true; }
    else if (r==Z3_L_TRUE) { sat++; ent.sat=true; Z3_model zm=Z3_solver_get_model(cx,s); Z3_model_inc_ref(cx,zm);
      for (u32 x: frontier) { Z3_ast v; Expr* se=B.raw(SYM,g_syms[x].w,x); u64 val=0;
        if (Z3_model_eval(cx,zm,bv(se),true,&v)) { Z3_inc_ref(cx,v); uint64_t q; if (Z3_get_numeral_uint64(cx,v,&q)) val=q; Z3_dec_ref(cx,v); }
        ent.vals.push_back({x,val}); }
      Z3_model_dec_ref(cx,zm);
    } else unsat++;
    Z3_solver_pop(cx,s,1);
    secs+=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
    if (r==Z3_L_UNDEF) return false;
    it=cache.emplace(std::move(key),std::move(ent)).first;
  } else cacheHits++;
  if (!it->second.sat) return false;
  if (m.size()<g_syms.size()) m.resize(g_syms.size(),0);
  for (auto& [x,v]: it->second.vals) m[x]=v;
  return true;
}
