#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <map>
#include <set>
#include <time.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
SolverStats sstats; u64 opt_rlimit=30000000, opt_fp_rlimit=60000000; std::string opt_dump_smt;
static Z3_context ctx=nullptr; static std::vector<Z3_ast> tr[2]; static std::map<std::string,Z3_func_decl> ufs;
static std::vector<Z3_sort> bvs(130,nullptr);
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static void errh(Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); _exit(99); }
static Z3_sort BV(int w){ if(!bvs[w]) bvs[w]=Z3_mk_bv_sort(ctx,w); return bvs[w]; }
static void init(){ if(ctx) return; Z3_config cfg=Z3_mk_config(); ctx=Z3_mk_context(cfg); Z3_set_error_handler(ctx,errh); Z3_del_config(cfg); }
static Z3_ast num(u128 v,int w){ if(w<=64) return Z3_mk_unsigned_int64(ctx,(u64)v,BV(w)); char b[64]; std::string s; u128 x=v; if(!x) s="0"; while(x){ s.insert(s.begin(),'0'+(int)(x%10)); x/=10; } (void)b; return Z3_mk_numeral(ctx,s.c_str(),BV(w)); }
static Z3_ast b2bv(Z3_ast b){ return Z3_mk_ite(ctx,b,num(1,1),num(0,1)); }
static Z3_ast T(Expr*e,int mode);
static Z3_ast B(Expr*e,int mode); // as Bool
static Z3_ast ex(Z3_ast a,int hi,int lo){ return Z3_mk_extract(ctx,hi,lo,a); }
static Z3_ast and2(Z3_ast a,Z3_ast b){ Z3_ast x[2]={a,b}; return Z3_mk_and(ctx,2,x);} static Z3_ast or2(Z3_ast a,Z3_ast b){ Z3_ast x[2]={a,b}; return Z3_mk_or(ctx,2,x);} static Z3_ast not1(Z3_ast a){ return Z3_mk_not(ctx,a); }
static Z3_ast eq(Z3_ast a,Z3_ast b){ return Z3_mk_eq(ctx,a,b); }
static Z3_ast fnan(Z3_ast a,int w){ if(w==80) return and2(eq(ex(a,78,64),num(0x7fff,15)),not1(eq(ex(a,62,0),num(0,63)))); int f=w==32?23:52; return and2(eq(ex(a,w-2,f),num(wmask(w-1-f),w-1-f)),not1(eq(ex(a,f-1,0),num(0,f)))); }
static Z3_ast fpcmp(Op op,Z3_ast a,Z3_ast b,int w){
  Z3_ast nan=or2(fnan(a,w),fnan(b,w)); if(op==FUNO) return nan;
  Z3_ast ma=ex(a,w-2,0),mb=ex(b,w-2,0); Z3_ast z=num(0,w-1);
  Z3_ast bothz=and2(eq(ma,z),eq(mb,z)); Z3_ast eqv=or2(eq(a,b),bothz);
  if(op==FEQ) return and2(not1(nan),eqv);
  Z3_ast sa=eq(ex(a,w-1,w-1),num(1,1)), sb=eq(ex(b,w-1,w-1),num(1,1));
  Z3_ast lt=Z3_mk_ite(ctx,Z3_mk_xor(ctx,sa,sb),sa,Z3_mk_ite(ctx,sa,Z3_mk_bvult(ctx,mb,ma),Z3_mk_bvult(ctx,ma,mb)));
  Z3_ast slt=and2(lt,not1(bothz));
  if(op==FLT) return and2(not1(nan),slt);
  return and2(not1(nan),or2(slt,eqv));
}
static Z3_sort FS(int w){ return w==32?Z3_mk_fpa_sort_32(ctx):w==64?Z3_mk_fpa_sort_64(ctx):Z3_mk_fpa_sort(ctx,15,64); }
static Z3_ast tofp(Z3_ast a,int w){ if(w==80) return Z3_mk_fpa_fp(ctx,ex(a,79,79),ex(a,78,64),ex(a,62,0)); return Z3_mk_fpa_to_fp_bv(ctx,a,FS(w)); }
static Z3_ast ofp(Z3_ast f,int w){ Z3_ast b=Z3_mk_fpa_to_ieee_bv(ctx,f); if(w!=80) return b; Z3_ast e=ex(b,77,63); Z3_ast ib=b2bv(not1(eq(e,num(0,15)))); return Z3_mk_concat(ctx,ex(b,78,63),Z3_mk_concat(ctx,ib,ex(b,62,0))); }
static Z3_ast RM(u32 m){ switch(m&3){ case 0: return Z3_mk_fpa_rne(ctx); case 1: return Z3_mk_fpa_rtn(ctx); case 2: return Z3_mk_fpa_rtp(ctx); default: return Z3_mk_fpa_rtz(ctx);} }
static Z3_ast fpprecise(Expr*e){
  int w=e->w, aw=e->k[0]->w; Z3_ast a=T(e->k[0],1), b=e->nk>1?T(e->k[1],1):nullptr; Z3_ast rne=Z3_mk_fpa_rne(ctx);
  switch(e->op){
  case FADD: return ofp(Z3_mk_fpa_add(ctx,rne,tofp(a,w),tofp(b,w)),w);
  case FSUB: return ofp(Z3_mk_fpa_sub(ctx,rne,tofp(a,w),tofp(b,w)),w);
  case FMUL: return ofp(Z3_mk_fpa_mul(ctx,rne,tofp(a,w),tofp(b,w)),w);
  case FDIV: return ofp(Z3_mk_fpa_div(ctx,rne,tofp(a,w),tofp(b,w)),w);
  case FSQRT: return ofp(Z3_mk_fpa_sqrt(ctx,rne,tofp(a,w)),w);
  case FCVT: return ofp(Z3_mk_fpa_to_fp_float(ctx,rne,tofp(a,aw),FS(w)),w);
  case SITOF: return ofp(Z3_mk_fpa_to_fp_signed(ctx,rne,a,FS(w)),w);
  case UITOF: return ofp(Z3_mk_fpa_to_fp_unsigned(ctx,rne,a,FS(w)),w);
  case FROUND: return ofp(Z3_mk_fpa_round_to_integral(ctx,RM(e->aux),tofp(a,aw)),w);
  case FTOSI: { Z3_ast f=tofp(a,aw); Z3_ast r=Z3_mk_fpa_round_to_integral(ctx,RM(e->aux),f); Z3_sort s=FS(aw);
    Z3_ast lo=Z3_mk_fpa_to_fp_signed(ctx,rne,num((u128)1<<(w-1),w),s), hi=Z3_mk_fpa_neg(ctx,lo);
    Z3_ast in=and2(Z3_mk_fpa_leq(ctx,lo,r),Z3_mk_fpa_lt(ctx,r,hi)); return Z3_mk_ite(ctx,in,Z3_mk_fpa_to_sbv(ctx,RM(e->aux),f,w),num((u128)1<<(w-1),w)); }
  case FTOUI: { Z3_ast f=tofp(a,aw); Z3_ast r=Z3_mk_fpa_round_to_integral(ctx,RM(3),f); Z3_sort s=FS(aw);
    Z3_ast z=Z3_mk_fpa_zero(ctx,s,false); Z3_ast hi=Z3_mk_fpa_neg(ctx,Z3_mk_fpa_to_fp_signed(ctx,rne,num((u128)1<<w,w+1),s));
    Z3_ast in=and2(Z3_mk_fpa_leq(ctx,z,r),Z3_mk_fpa_lt(ctx,r,hi)); return Z3_mk_ite(ctx,in,Z3_mk_fpa_to_ubv(ctx,RM(3),f,w),num(wmask(w),w)); }
  default: abort(); }
}
static Z3_ast fpuf(Expr*e){
  std::string n=std::string(op_names[e->op])+"_"+std::to_string(e->k[0]->w)+"_"+std::to_string(e->w)+"_"+std::to_string(e->aux);
  auto it=ufs.find(n); Z3_func_decl d; Z3_sort dom[2]; for(int i=0;i<e->nk;i++) dom[i]=BV(e->k[i]->w);
  if(it==ufs.end()){ d=Z3_mk_func_decl(ctx,Z3_mk_string_symbol(ctx,n.c_str()),e->nk,dom,BV(e->w)); ufs[n]=d; } else d=it->second;
  Z3_ast a[2]; for(int i=0;i<e->nk;i++) a[i]=T(e->k[i],0); return Z3_mk_app(ctx,d,e->nk,a);
}
static std::vector<Z3_ast> btr[2];
static Z3_ast B(Expr*e,int mode){
  int md=e->fp?mode:0; auto&t=btr[md]; if(t.size()<=e->id) t.resize(expr_count()+4096); if(t[e->id]) return t[e->id];
  Z3_ast r;
  switch(e->op){
  case CONST: r=e->lo?Z3_mk_true(ctx):Z3_mk_false(ctx); break;
  case EQ: r=e->k[0]->w==1? Z3_mk_iff(ctx,B(e->k[0],mode),B(e->k[1],mode)) : eq(T(e->k[0],mode),T(e->k[1],mode)); break;
  case ULT: r=Z3_mk_bvult(ctx,T(e->k[0],mode),T(e->k[1],mode)); break;
  case ULE: r=Z3_mk_bvule(ctx,T(e->k[0],mode),T(e->k[1],mode)); break;
  case SLT: r=Z3_mk_bvslt(ctx,T(e->k[0],mode),T(e->k[1],mode)); break;
  case SLE: r=Z3_mk_bvsle(ctx,T(e->k[0],mode),T(e->k[1],mode)); break;
  case AND: r=and2(B(e->k[0],mode),B(e->k[1],mode)); break;
  case OR: r=or2(B(e->k[0],mode),B(e->k[1],mode)); break;
  case XOR: r=e->k[1]->isc()?(e->k[1]->lo?not1(B(e->k[0],mode)):B(e->k[0],mode)):Z3_mk_xor(ctx,B(e->k[0],mode),B(e->k[1],mode)); break;
  case ITE: r=Z3_mk_ite(ctx,B(e->k[0],mode),B(e->k[1],mode),B(e->k[2],mode)); break;
  case FEQ: case FLT: case FLE: case FUNO: r=fpcmp(e->op,T(e->k[0],mode),T(e->k[1],mode),e->k[0]->w); break;
  default: r=eq(T(e,mode),num(1,1)); }
  if(btr[md].size()<=e->id) btr[md].resize(expr_count()+4096);
  return btr[md][e->id]=r;
}
static Z3_ast T(Expr*e,int mode){
  int md=e->fp?mode:0; if(tr[md].size()<=e->id) tr[md].resize(expr_count()+4096); if(tr[md][e->id]) return tr[md][e->id];
  Z3_ast r=nullptr;
#define K(i) T(e->k[i],mode)
  switch(e->op){
  case CONST: r=num(e->cv(),e->w); break;
  case VAR: r=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,("v"+std::to_string(e->aux)).c_str()),BV(e->w)); break;
  case ADD: r=Z3_mk_bvadd(ctx,K(0),K(1)); break; case SUB: r=Z3_mk_bvsub(ctx,K(0),K(1)); break; case MUL: r=Z3_mk_bvmul(ctx,K(0),K(1)); break;
  case UDIV: r=Z3_mk_bvudiv(ctx,K(0),K(1)); break; case SDIV: r=Z3_mk_bvsdiv(ctx,K(0),K(1)); break; case UREM: r=Z3_mk_bvurem(ctx,K(0),K(1)); break; case SREM: r=Z3_mk_bvsrem(ctx,K(0),K(1)); break;
  case AND: if(e->w==1){ r=b2bv(B(e,mode)); break;} r=Z3_mk_bvand(ctx,K(0),K(1)); break;
  case OR: if(e->w==1){ r=b2bv(B(e,mode)); break;} r=Z3_mk_bvor(ctx,K(0),K(1)); break;
  case XOR: if(e->w==1){ r=b2bv(B(e,mode)); break;} r=Z3_mk_bvxor(ctx,K(0),K(1)); break;
  case SHL: r=Z3_mk_bvshl(ctx,K(0),K(1)); break; case LSHR: r=Z3_mk_bvlshr(ctx,K(0),K(1)); break; case ASHR: r=Z3_mk_bvashr(ctx,K(0),K(1)); break;
  case CONCAT: r=Z3_mk_concat(ctx,K(0),K(1)); break; case EXTRACT: r=ex(K(0),e->aux+e->w-1,e->aux); break;
  case ZEXT: r=Z3_mk_zero_ext(ctx,e->w-e->k[0]->w,K(0)); break; case SEXT: r=Z3_mk_sign_ext(ctx,e->w-e->k[0]->w,K(0)); break;
  case ITE: if(e->w==1) r=b2bv(B(e,mode)); else r=Z3_mk_ite(ctx,B(e->k[0],mode),K(1),K(2)); break;
  case EQ: case ULT: case ULE: case SLT: case SLE: case FEQ: case FLT: case FLE: case FUNO: r=b2bv(B(e,mode)); break;
  default: r=mode?fpprecise(e):fpuf(e); }
  if(tr[md].size()<=e->id) tr[md].resize(expr_count()+4096);
  return tr[md][e->id]=r;
}
static u64 qn=0;
static Res run(const std::vector<Expr*>&cs,Model*m,int mode,u64 rl,const std::vector<u32>&vs){
  bool fp=false; for(auto c:cs) fp|=c->fp;
  Z3_solver s = (fp&&mode==0)? Z3_mk_solver_for_logic(ctx,Z3_mk_string_symbol(ctx,"QF_UFBV")) : (fp? Z3_mk_solver_for_logic(ctx,Z3_mk_string_symbol(ctx,"QF_FPBV")) : Z3_mk_solver_for_logic(ctx,Z3_mk_string_symbol(ctx,"QF_BV")));
  Z3_solver_inc_ref(ctx,s);
  Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"rlimit"),(unsigned)std::min<u64>(rl,4000000000u)); Z3_solver_set_params(ctx,s,p);
  for(auto c:cs) Z3_solver_assert(ctx,s,B(c,mode));
  if(!opt_dump_smt.empty()){ char fn[512]; snprintf(fn,512,"%s/q%d_%lu_%d.smt2",opt_dump_smt.c_str(),getpid(),qn++,mode); if(FILE*f=fopen(fn,"w")){ fprintf(f,"(set-logic %s)\n%s(check-sat)\n",fp?(mode?"QF_FPBV":"QF_UFBV"):"QF_BV",Z3_solver_to_string(ctx,s)); fclose(f);} }
  Z3_lbool r=Z3_solver_check(ctx,s); Res out=r==Z3_L_TRUE?SAT:r==Z3_L_FALSE?UNSAT:UNKNOWN;
  if(out==SAT&&m){ Z3_model md=Z3_solver_get_model(ctx,s); Z3_model_inc_ref(ctx,md);
    for(u32 v:vs){ Z3_ast val; u128 x=0; if(Z3_model_eval(ctx,md,T(var_exprs[v],0),true,&val)&&Z3_is_numeral_ast(ctx,val)){ const char*str=Z3_get_numeral_string(ctx,val); for(;*str;str++) x=x*10+(*str-'0'); } m->v[v]=x; }
    Z3_model_dec_ref(ctx,md); }
  Z3_params_dec_ref(ctx,p); Z3_solver_dec_ref(ctx,s);
  return out;
}
// Theorems about conversions, added to the queries they are relevant to: the uninterpreted abstraction then suffices.
static Expr*sticky_half(Expr*e){ // x when e is (x >> 1) | (x & 1)
  if(e->op!=OR) return nullptr; for(int i=0;i<2;i++){ Expr*a=e->k[i],*b=e->k[1-i]; if(a->op==LSHR&&a->k[1]->isc()&&a->k[1]->lo==1&&b==mk2(AND,a->k[0],mkc(1,a->w))) return a->k[0];
    Expr*x=nullptr; if(b->op==AND&&b->k[1]->isc()&&b->k[1]->cv()==1) x=b->k[0]; else if(b->op==ZEXT&&b->k[0]->w==1&&b->k[0]->op==EXTRACT&&b->k[0]->aux==0) x=b->k[0]->k[0]; if(x&&x->w==e->w&&a==mk2(LSHR,x,mkc(1,x->w))) return x; }
  return nullptr; }
static void add_lemmas(std::vector<Expr*>&cs){
  std::set<u32> seen; std::vector<Expr*> w(cs.begin(),cs.end()),ui,dbl; std::vector<Expr*> out; bool any=false; std::map<std::pair<u32,int>,Expr*> si;
  while(!w.empty()){ Expr*e=w.back(); w.pop_back(); if(!e->fp||!seen.insert(e->id).second) continue; if(e->op==UITOF) ui.push_back(e); else if(e->op==SITOF) si[{e->k[0]->id,e->w}]=e; else if(e->op==FADD&&e->k[0]==e->k[1]&&e->k[0]->op==SITOF&&e->k[0]->k[0]->w==64) dbl.push_back(e); for(int i=0;i<e->nk;i++) w.push_back(e->k[i]); }
  for(auto u:ui){ Expr*x=u->k[0]; Expr*top=mk_extract(x,x->w-1,1); auto it=si.find({x->id,u->w}); if(it!=si.end()) out.push_back(mk_or1(top,mk_eq(u,it->second)));
    for(auto d:dbl) if(d->w==u->w&&u->w<=64&&sticky_half(d->k[0]->k[0])==x) out.push_back(mk_or1(mk_not(top),mk_eq(u,d))); }
  (void)any; for(auto l:out) if(!l->isc()) cs.push_back(l);
}
struct CEnt { Res r; Model m; };
static std::map<std::vector<u32>,CEnt> cache;
void solver_reset(){ cache.clear(); }
Res solve(const std::vector<Expr*>&cs0,Model*m,u64 rl){
  std::vector<Expr*> cs; static const bool nocanon=getenv("SX_NOCANON"); for(auto c:cs0){ auto&vsc=varset(c); /* the constraint that states a range must not be simplified with that range */ if(!nocanon&&!(vsc.size()==1&&vars[vsc[0]].ranged)) c=canon(c); if(c->isc()){ if(!c->lo) return UNSAT; continue; } cs.push_back(c); }
  if(cs.empty()) return SAT;
  std::vector<u32> key; for(auto c:cs) key.push_back(c->id); std::sort(key.begin(),key.end()); key.erase(std::unique(key.begin(),key.end()),key.end());
  auto it=cache.find(key); if(it!=cache.end()){ sstats.cache_hits++; if(m&&it->second.r==SAT) for(auto&kv:it->second.m.v) m->v[kv.first]=kv.second; return it->second.r; }
  init();
  std::set<u32> vset; for(auto c:cs) for(u32 v:varset(c)) vset.insert(v); std::vector<u32> vs(vset.begin(),vset.end());
  bool fp=false; for(auto c:cs) fp|=c->fp;
  if(fp) add_lemmas(cs);
  double t0=now(); Model mm; sstats.queries++;
  Res r=run(cs,&mm,0,rl?rl:opt_rlimit,vs);
  if(fp&&r!=UNSAT){ // the abstraction is satisfiable; first see whether its model is real, else decide precisely
    bool ok=(r==SAT); if(ok) for(auto c:cs) if(!eval(c,mm)){ ok=false; break; }
    if(!ok){ sstats.fp_refined++; Model m2; r=run(cs,&m2,1,rl?rl:opt_fp_rlimit,vs); mm=m2; }
  }
  double dt=now()-t0; sstats.time+=dt; if(dt>sstats.maxtime) sstats.maxtime=dt;
  if(r==SAT) sstats.sat++; else if(r==UNSAT) sstats.unsat++; else { sstats.unknown++; static const char*su=getenv("SX_UNK"); if(su){ fprintf(stderr,"UNKNOWN query:\n"); for(auto c:cs) fprintf(stderr,"  %s\n",estr(c,40).substr(0,3000).c_str()); } }
  if(r==SAT){ for(auto c:cs) if(!eval(c,mm)){ if(fp){ r=UNKNOWN; sstats.unknown++; sstats.sat--; break; } fprintf(stderr,"solver model does not satisfy the query: %s\n",estr(c,8).c_str()); _exit(98); } }
  if(cache.size()>200000) cache.clear();
  cache[key]={r,mm};
  if(m&&r==SAT) for(auto&kv:mm.v) m->v[kv.first]=kv.second;
  return r;
}
std::vector<Expr*> slice(const std::vector<Expr*>&pc,Expr*e){
  std::vector<char> used(pc.size(),0); std::set<u32> vs; for(u32 v:varset(e)) vs.insert(v);
  bool ch=true; while(ch){ ch=false; for(size_t i=0;i<pc.size();i++) if(!used[i]){ const auto&s=varset(pc[i]); bool hit=false; for(u32 v:s) if(vs.count(v)){hit=true;break;} if(hit){ used[i]=1; for(u32 v:s) if(vs.insert(v).second) ch=true; } } }
  std::vector<Expr*> out; for(size_t i=0;i<pc.size();i++) if(used[i]) out.push_back(pc[i]); return out;
}
