#include "expr.h"
#include <algorithm>
#include <cmath>
#include <fenv.h>
#include <map>
const char *op_names[]={"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","concat","extract","zext","sext","eq","ult","ule","slt","sle","ite","fadd","fsub","fmul","fdiv","fsqrt","feq","flt","fle","funo","fcvt","ftosi","ftoui","sitof","uitof","fround"};
std::vector<VarInfo> vars; std::vector<Expr*> var_exprs;
static std::vector<Expr*> all;
static std::vector<Expr*> table(1<<16); static size_t used=0;
static char *apool=nullptr; static size_t aleft=0;
static Expr *newE(){ if(aleft<sizeof(Expr)){ aleft=sizeof(Expr)*8192; apool=(char*)malloc(aleft);} Expr*e=(Expr*)apool; apool+=sizeof(Expr); aleft-=sizeof(Expr); return e; }
static inline u64 mix(u64 h,u64 x){ h^=x+0x9e3779b97f4a7c15ULL+(h<<6)+(h>>2); return h*0xff51afd7ed558ccdULL; }
static u64 hashE(const Expr&e){ u64 h=e.op*1315423911u+e.w; h=mix(h,e.aux); for(int i=0;i<e.nk;i++) h=mix(h,e.k[i]->id); h=mix(h,e.lo); h=mix(h,e.hi); return h^(h>>29); }
static bool eqE(const Expr&a,const Expr&b){ if(a.op!=b.op||a.w!=b.w||a.aux!=b.aux||a.nk!=b.nk||a.lo!=b.lo||a.hi!=b.hi) return false; for(int i=0;i<a.nk;i++) if(a.k[i]!=b.k[i]) return false; return true; }
size_t expr_count(){ return all.size(); }
static Expr *intern(Expr &t){
  u64 h=hashE(t); size_t m=table.size()-1; size_t i=h&m;
  while(table[i]){ if(eqE(*table[i],t)) return table[i]; i=(i+1)&m; }
  Expr *e=newE(); *e=t; e->id=all.size(); e->fp=op_is_fp_arith(e->op); for(int j=0;j<e->nk;j++) e->fp|=e->k[j]->fp;
  all.push_back(e); table[i]=e; used++;
  if(used*2>table.size()){ std::vector<Expr*> nt(table.size()*2); size_t nm=nt.size()-1; for(Expr*x:table) if(x){ size_t j=hashE(*x)&nm; while(nt[j]) j=(j+1)&nm; nt[j]=x; } table.swap(nt); }
  return e;
}
static Expr *raw(Op op,int w,u32 aux,Expr*a=nullptr,Expr*b=nullptr,Expr*c=nullptr){ Expr t; memset(&t,0,sizeof t); t.op=op; t.w=w; t.aux=aux; t.k[0]=a; t.k[1]=b; t.k[2]=c; t.nk=a?(b?(c?3:2):1):0; return intern(t); }
Expr *mkc(u128 v,int w){ v&=wmask(w); Expr t; memset(&t,0,sizeof t); t.op=CONST; t.w=w; t.lo=(u64)v; t.hi=(u64)(v>>64); return intern(t); }
Expr *mkvar(const std::string&n,int w){ u32 id=vars.size(); { VarInfo vi; vi.name=n; vi.w=w; vars.push_back(vi); } Expr*e=raw(VAR,w,id); var_exprs.push_back(e); return e; }
static inline i128 sx(u128 v,int w){ if(w>=128) return (i128)v; u128 s=(u128)1<<(w-1); return (i128)((v^s)-s); }
// ---- floating point constants
static long double ld_of(u128 v){ long double r=0; memcpy(&r,&v,10); return r; }
static u128 of_ld(long double d){ u128 v=0; memcpy(&v,&d,10); return v; }
static float f_of(u128 v){ u32 x=(u32)v; float f; memcpy(&f,&x,4); return f; }
static double d_of(u128 v){ u64 x=(u64)v; double f; memcpy(&f,&x,8); return f; }
static u128 of_f(float f){ u32 x; memcpy(&x,&f,4); return x; }
static u128 of_d(double f){ u64 x; memcpy(&x,&f,8); return x; }
static long double fpv(u128 v,int w){ return w==32?f_of(v):w==64?(long double)d_of(v):ld_of(v); }
// rounding mode for FTOSI/FROUND: 0 nearest, 1 down, 2 up, 3 toward zero
u128 fp_op_const(Op op,u32 aux,int w,int aw,u128 a,u128 b){
  volatile float fa,fb; volatile double da,db; volatile long double la,lb;
  switch(op){
  case FADD: case FSUB: case FMUL: case FDIV:
    if(w==32){ fa=f_of(a); fb=f_of(b); float r=op==FADD?fa+fb:op==FSUB?fa-fb:op==FMUL?fa*fb:fa/fb; return of_f(r);}
    if(w==64){ da=d_of(a); db=d_of(b); double r=op==FADD?da+db:op==FSUB?da-db:op==FMUL?da*db:da/db; return of_d(r);}
    { la=ld_of(a); lb=ld_of(b); long double r=op==FADD?la+lb:op==FSUB?la-lb:op==FMUL?la*lb:la/lb; return of_ld(r);}
  case FSQRT: if(w==32) return of_f(sqrtf(f_of(a))); if(w==64) return of_d(sqrt(d_of(a))); return of_ld(sqrtl(ld_of(a)));
  case FEQ: return fpv(a,aw)==fpv(b,aw);
  case FLT: return fpv(a,aw)<fpv(b,aw);
  case FLE: return fpv(a,aw)<=fpv(b,aw);
  case FUNO: return std::isnan(fpv(a,aw))||std::isnan(fpv(b,aw));
  case FCVT: { if(aw==w) return a; if(aw==32&&w==64) return of_d((double)f_of(a)); if(aw==32) return of_ld(f_of(a)); if(aw==64&&w==32) return of_f((float)d_of(a)); if(aw==64) return of_ld(d_of(a)); if(w==32) return of_f((float)ld_of(a)); return of_d((double)ld_of(a)); }
  case FTOSI: { // x86 behaviour: out of range gives the indefinite integer
    long double v=fpv(a,aw); int om=fegetround(); static const int rm[]={FE_TONEAREST,FE_DOWNWARD,FE_UPWARD,FE_TOWARDZERO}; fesetround(rm[aux&3]); volatile long double vv=v; long double r=rintl(vv); fesetround(om);
    long double lim=ldexpl(1.0L,w-1);
    if(std::isnan(v)||!(r>=-lim&&r<lim)) return ((u128)1<<(w-1)); return (u128)(i128)r & wmask(w); }
  case FTOUI: { long double v=fpv(a,aw); long double r=truncl(v); long double lim=ldexpl(1.0L,w); if(std::isnan(v)||!(r>=0&&r<lim)) return wmask(w); return (u128)r; }
  case SITOF: { i128 v=sx(a,aw); if(w==32) return of_f((float)(i64)v); if(w==64) return of_d((double)(i64)v); return of_ld((long double)(i64)v); }
  case UITOF: { u64 v=(u64)a; if(w==32) return of_f((float)v); if(w==64) return of_d((double)v); return of_ld((long double)v); }
  case FROUND: { long double v=fpv(a,aw); int om=fegetround(); static const int rm[]={FE_TONEAREST,FE_DOWNWARD,FE_UPWARD,FE_TOWARDZERO}; fesetround(rm[aux&3]); volatile long double vv=v; long double r=rintl(vv); fesetround(om); return w==32?of_f(r):w==64?of_d(r):of_ld(r); }
  default: return 0; }
}
static u128 cop(Op op,u128 a,u128 b,int w){
  u128 m=wmask(w);
  switch(op){
  case ADD: return (a+b)&m; case SUB: return (a-b)&m; case MUL: return (a*b)&m;
  case UDIV: return b?(a/b):m; case UREM: return b?(a%b):a;
  case SDIV: { i128 x=sx(a,w),y=sx(b,w); if(!y) return x<0?1:m; if(y==-1) return (u128)(-(u128)x)&m; return (u128)(x/y)&m; }
  case SREM: { i128 x=sx(a,w),y=sx(b,w); if(!y) return a; if(y==-1) return 0; return (u128)(x%y)&m; }
  case AND: return a&b; case OR: return a|b; case XOR: return a^b;
  case SHL: return b>=(u128)w?0:(a<<(int)b)&m;
  case LSHR: return b>=(u128)w?0:(a>>(int)b);
  case ASHR: { i128 x=sx(a,w); int s=b>=(u128)w?w-1:(int)b; return (u128)(x>>s)&m; }
  case EQ: return a==b; case ULT: return a<b; case ULE: return a<=b; case SLT: return sx(a,w)<sx(b,w); case SLE: return sx(a,w)<=sx(b,w);
  default: return 0; }
}
static bool iscv(Expr*e,u128 v){ return e->isc() && e->cv()==(v&wmask(e->w)); }
Expr *mk_not(Expr*a){ return mk2(XOR,a,mkc(~(u128)0,a->w)); }
Expr *mk_neg(Expr*a){ return mk2(SUB,mkc(0,a->w),a); }
// ---- unsigned ranges, known only of expressions over variables with a declared range
struct Rng { u64 lo, hi; u8 st; };   // st: 1 unknown, 2 known
// the value is congruent (mod 2^w) to an integer in [lo, hi]; sums and products are not reduced, so that they may cancel later
struct MRng { i128 lo, hi; u8 st; };
static std::vector<MRng> rmemo; static std::vector<Expr*> cmemo;
void undeclare_range(Expr*v){ vars[v->aux].ranged=false; rmemo.clear(); cmemo.clear(); }
void declare_range(Expr*v,u64 lo,u64 hi){ VarInfo&i=vars[v->aux]; i.ranged=true; i.lo=lo; i.hi=hi; rmemo.clear(); cmemo.clear(); }
static MRng mrng(Expr*e){
  if(e->isc()){ if(e->w>64) return {0,0,1}; i128 v=sx(e->lo,e->w); return {v,v,2}; }
  if(e->w>64||e->fp) return {0,0,1};
  if(rmemo.size()<=e->id) rmemo.resize(all.size()+4096,MRng{0,0,0});
  if(rmemo[e->id].st) return rmemo[e->id];
  MRng o{0,0,1}; i128 M=(i128)wmask(e->w),B=(i128)1<<100; MRng a{0,0,1},b{0,0,1};
  auto red=[&](Expr*k,MRng r){ // the reduced value
    if(r.st!=2) return r; i128 m=(i128)wmask(k->w); if(k->isc()) return MRng{(i128)k->lo,(i128)k->lo,2}; if(r.lo<0||r.hi>m) return MRng{0,0,1}; return r; };
  auto set=[&](i128 lo,i128 hi){ if(lo>-B&&hi<B) o={lo,hi,2}; };
  if(e->op!=VAR){ Expr*p=e->k[e->op==ITE?1:0],*q=e->nk>1?e->k[e->op==ITE?2:1]:nullptr; a=mrng(p); if(a.st==2&&q) b=mrng(q);
    if(e->op!=ADD&&e->op!=SUB&&e->op!=MUL){ a=red(p,a); if(q) b=red(q,b); } }
  bool ab=a.st==2&&b.st==2;
  switch(e->op){
  case VAR: if(vars[e->aux].ranged) set(vars[e->aux].lo,vars[e->aux].hi); break;
  case ZEXT: if(a.st==2) o=a; break;
  case SEXT: if(a.st==2&&!(a.hi>>(e->k[0]->w-1))) o=a; break;
  case EXTRACT: if(a.st==2&&e->aux==0&&a.hi<=M) o=a; break;
  case ADD: if(ab) set(a.lo+b.lo,a.hi+b.hi); break;
  case SUB: if(ab) set(a.lo-b.hi,a.hi-b.lo); break;
  case MUL: if(ab){ i128 L=(i128)1<<62; if(e->k[1]->isc()&&a.lo>-L*16&&a.hi<L*16&&b.lo>-65536&&b.lo<65536){ i128 x=a.lo*b.lo,y=a.hi*b.lo; set(std::min(x,y),std::max(x,y)); } else if(a.lo>=0&&b.lo>=0&&a.hi<((i128)1<<50)&&b.hi<((i128)1<<50)) set(a.lo*b.lo,a.hi*b.hi); } break;
  case SHL: if(ab&&b.lo==b.hi&&b.lo<e->w&&(a.hi<<(int)b.lo)<=M) set(a.lo<<(int)b.lo,a.hi<<(int)b.lo); break;
  case LSHR: if(ab&&b.lo==b.hi&&b.lo<64) set(a.lo>>(int)b.lo,a.hi>>(int)b.lo); break;
  case UDIV: if(ab&&b.lo==b.hi&&b.lo) set(a.lo/b.lo,a.hi/b.lo); break;
  case CONCAT: if(ab) set((a.lo<<e->k[1]->w)+b.lo,(a.hi<<e->k[1]->w)+b.hi); break;
  case AND: if(ab) set(0,std::min(a.hi,b.hi)); break;
  case OR: if(ab){ u64 h=(u64)a.hi|(u64)b.hi; for(int i=1;i<64;i*=2) h|=h>>i; set(std::max(a.lo,b.lo),h); } break;
  case ITE: if(ab) set(std::min(a.lo,b.lo),std::max(a.hi,b.hi)); break;
  default: break; }
  if((size_t)e->id>=rmemo.size()) rmemo.resize(all.size()+4096,MRng{0,0,0});
  return rmemo[e->id]=o;
}
static Rng rng(Expr*e){ if(e->isc()) return e->w<=64?Rng{e->lo,e->lo,2}:Rng{0,0,1}; MRng r=mrng(e); if(r.st!=2||r.lo<0||r.hi>(i128)wmask(e->w)) return {0,0,1}; return {(u64)r.lo,(u64)r.hi,2}; }
static bool linear_known(Expr*e){ return !e->isc()&&mrng(e).st==2; }
static bool commut(Op op){ return op==ADD||op==MUL||op==AND||op==OR||op==XOR||op==EQ||op==FEQ||op==FUNO||op==FADD||op==FMUL; }
Expr *mk2(Op op,Expr*a,Expr*b){
  int w=a->w;
  if(op>=FADD&&op<=FDIV||op>=FEQ&&op<=FUNO){
    int rw=(op>=FEQ&&op<=FUNO)?1:w;
    if(rw==1&&w>32){ // comparing exactly widened values
      int n=0; for(Expr*e:{a,b}) if(e->op==FCVT&&e->k[0]->w<w) n=std::max(n,(int)e->k[0]->w); 
      auto nar=[&](Expr*e)->Expr*{ if(e->op==FCVT&&e->k[0]->w<w) return e->k[0]->w==n?e->k[0]:mk_fp1(FCVT,e->k[0],n); if(e->isc()){ Expr*c=mk_fp1(FCVT,e,n); if(mk_fp1(FCVT,c,w)==e) return c; } return nullptr; };
      if(n){ Expr*x=nar(a),*y=nar(b); if(x&&y) return mk2(op,x,y); } }
    if(a->isc()&&b->isc()) return mkc(fp_op_const(op,0,rw,w,a->cv(),b->cv()),rw);
    if(commut(op) && op!=FADD && op!=FMUL && a->id>b->id) std::swap(a,b);
    // adding/multiplying commutes except for which NaN payload survives; equality of results is decided modulo NaN payload
    if((op==FADD||op==FMUL) && a->id>b->id) std::swap(a,b);
    { Expr*sg=mkc((u128)1<<(w-1),w); auto neg=[&](Expr*e)->Expr*{ return e->op==XOR&&e->k[1]==sg?e->k[0]:nullptr; };   // modulo the sign of a NaN
      auto one=[&](Expr*e){ return e->isc()&&e->cv()==(w==32?(u128)0xbf800000:w==64?(u128)0xbff0000000000000ull:(((u128)0xbfff<<64)|0x8000000000000000ull)); };
      if(op==FMUL){ if(one(a)) return mk2(XOR,b,sg); if(one(b)) return mk2(XOR,a,sg); }
      if(op==FMUL||op==FDIV){ Expr*x=neg(a),*y=neg(b); if(x||y){ Expr*r=mk2(op,x?x:a,y?y:b); return x&&y?r:mk2(XOR,r,sg); } }
      if(op==FADD){ if(Expr*y=neg(b)) return mk2(FSUB,a,y); if(Expr*x=neg(a)) return mk2(FSUB,b,x); }
      if(op==FSUB){ if(Expr*y=neg(b)) return mk2(FADD,a,y); } }
    if(op==FADD&&w==80){ // x87 signed conversion plus 2^64 for negative values is the (exact) unsigned conversion
      Expr*p=a,*q=b; if(q->op==SITOF) std::swap(p,q);
      if(p->op==SITOF&&p->k[0]->w==64&&q->op==ITE&&q->k[0]==mk_extract(p->k[0],63,1)&&q->k[1]->isc()&&q->k[2]->isc()&&q->k[1]->cv()==(((u128)0x403f<<64)|0x8000000000000000ull)&&q->k[2]->cv()==0) return mk_fp1(UITOF,p->k[0],80); }
    return raw(op,rw,0,a,b);
  }
  if(a->isc()&&b->isc()){ int rw=(op>=EQ&&op<=SLE)?1:w; return mkc(cop(op,a->cv(),b->cv(),w),rw); }
  if(commut(op)){ if(a->isc()) std::swap(a,b); else if(!b->isc() && a->id>b->id) std::swap(a,b); }   // constant right
  if(op>=EQ&&op<=SLE&&w<=64&&!a->fp&&!b->fp&&w>1){ Rng x=rng(a); if(x.st==2){ Rng y=rng(b); if(y.st==2){
    bool pos=!((x.hi|y.hi)>>(w-1));
    if(op==EQ&&(x.hi<y.lo||y.hi<x.lo)) return mkc(0,1);
    if(op==ULT||(op==SLT&&pos)){ if(x.hi<y.lo) return mkc(1,1); if(x.lo>=y.hi) return mkc(0,1); }
    if(op==ULE||(op==SLE&&pos)){ if(x.hi<=y.lo) return mkc(1,1); if(x.lo>y.hi) return mkc(0,1); }
    if(op==SLT&&pos) return mk2(ULT,a,b); if(op==SLE&&pos) return mk2(ULE,a,b);
    if((op==SLT||op==SLE)&&b->isc()&&(y.lo>>(w-1))&&!(x.hi>>(w-1))) return mkc(0,1);
    if((op==SLT||op==SLE)&&a->isc()&&(x.lo>>(w-1))&&!(y.hi>>(w-1))) return mkc(1,1); } } }
  switch(op){
  case ADD:
    if(iscv(b,0)) return a;
    if(w==1) return mk2(XOR,a,b);
    if(b->isc()&&a->op==ADD&&a->k[1]->isc()) return mk2(ADD,a->k[0],mkc(a->k[1]->cv()+b->cv(),w));
    if(b->isc()&&a->op==SUB&&a->k[0]->isc()) return mk2(SUB,mkc(a->k[0]->cv()+b->cv(),w),a->k[1]);
    if(b->isc()&&a->op==ITE&&a->k[1]->isc()&&a->k[2]->isc()) return mk_ite(a->k[0],mk2(ADD,a->k[1],b),mk2(ADD,a->k[2],b));
    if(!b->isc()&&a->op==ADD&&a->k[1]->isc()) return mk2(ADD,mk2(ADD,a->k[0],b),a->k[1]);
    if(!b->isc()&&b->op==ADD&&b->k[1]->isc()) return mk2(ADD,mk2(ADD,a,b->k[0]),b->k[1]);
    if(a->op==SUB&&a->k[1]==b) return a->k[0];
    if(b->op==SUB&&b->k[1]==a) return b->k[0];
    if(a==b) return mk2(MUL,a,mkc(2,w));
    if(a->op==MUL&&a->k[1]->isc()&&a->k[0]==b) return mk2(MUL,b,mkc(a->k[1]->cv()+1,w));
    if(b->op==MUL&&b->k[1]->isc()&&b->k[0]==a) return mk2(MUL,a,mkc(b->k[1]->cv()+1,w));
    if(b->op==SUB&&iscv(b->k[0],0)) return mk2(SUB,a,b->k[1]);
    if(a->op==SUB&&iscv(a->k[0],0)) return mk2(SUB,b,a->k[1]);
    break;
  case SUB:
    if(a==b) return mkc(0,w);
    if(w==1) return mk2(XOR,a,b);
    if(b->isc()) return mk2(ADD,a,mkc(-b->cv(),w));
    if(a->op==ADD&&a->k[0]==b) return a->k[1];
    if(a->op==ADD&&a->k[1]==b) return a->k[0];
    if(b->op==ADD&&b->k[1]->isc()) return mk2(ADD,mk2(SUB,a,b->k[0]),mkc(-b->k[1]->cv(),w));
    if(a->op==ADD&&a->k[1]->isc()) return mk2(ADD,mk2(SUB,a->k[0],b),a->k[1]);
    if(b->op==SUB&&iscv(b->k[0],0)) return mk2(ADD,a,b->k[1]);
    break;
  case MUL:
    if(iscv(b,0)) return b; if(iscv(b,1)) return a;
    if(w==1) return mk2(AND,a,b);
    if(b->isc()&&a->op==ZEXT&&a->k[0]->w==1) return mk_ite(a->k[0],b,mkc(0,w));
    if(b->isc()&&a->op==MUL&&a->k[1]->isc()) return mk2(MUL,a->k[0],mkc(a->k[1]->cv()*b->cv(),w));
    if(b->isc()&&a->op==ADD&&a->k[1]->isc()) return mk2(ADD,mk2(MUL,a->k[0],b),mkc(a->k[1]->cv()*b->cv(),w));
    if(b->isc()&&a->op==SUB&&iscv(a->k[0],0)) return mk2(MUL,a->k[1],mkc(-b->cv(),w));
    if(iscv(b,~(u128)0)) return mk2(SUB,mkc(0,w),a);
    break;
  case UDIV: if(iscv(b,1)) return a; if(b->isc()){ u128 c=b->cv(); if(c&&!(c&(c-1))){ int s=0; while((c>>s)!=1) s++; return mk2(LSHR,a,mkc(s,w)); } }
    break;
  case UREM: if(iscv(b,1)) return mkc(0,w); if(b->isc()){ u128 c=b->cv(); if(c&&!(c&(c-1))) return mk2(AND,a,mkc(c-1,w)); }
    break;
  case SDIV: if(iscv(b,1)) return a; break;
  case SREM: if(iscv(b,1)) return mkc(0,w); break;
  case AND:
    if(a==b) return a; if(iscv(b,0)) return b; if(iscv(b,~(u128)0)) return a;
    if(b->isc()&&a->op==AND&&a->k[1]->isc()) return mk2(AND,a->k[0],mkc(a->k[1]->cv()&b->cv(),w));
    if(w==1){ if(a->op==XOR&&iscv(a->k[1],1)&&a->k[0]==b) return mkc(0,1); if(b->op==XOR&&iscv(b->k[1],1)&&b->k[0]==a) return mkc(0,1);
      if(a->op==AND&&(a->k[0]==b||a->k[1]==b)) return a; if(b->op==AND&&(b->k[0]==a||b->k[1]==a)) return b; }
    if(b->isc()){ // low mask -> zext(extract)
      u128 c=b->cv(); if(((c+1)&c)==0){ int n=0; while(n<w&&((c>>n)&1)) n++; return mk_zext(mk_extract(a,0,n),w); }
      if(a->op==ZEXT){ return mk_zext(mk2(AND,a->k[0],mkc(c,a->k[0]->w)),w); }
      // mask with low zero bits
      if(a->op==ITE&&a->k[1]->isc()&&a->k[2]->isc()) return mk_ite(a->k[0],mk2(AND,a->k[1],b),mk2(AND,a->k[2],b)); }
    if(a->op==ZEXT&&b->op==ZEXT&&a->k[0]->w==b->k[0]->w) return mk_zext(mk2(AND,a->k[0],b->k[0]),w);
    break;
  case OR:
    if(a==b) return a; if(iscv(b,0)) return a; if(iscv(b,~(u128)0)) return b;
    if(w==1){ if(a->op==XOR&&iscv(a->k[1],1)&&a->k[0]==b) return mkc(1,1); if(b->op==XOR&&iscv(b->k[1],1)&&b->k[0]==a) return mkc(1,1);
      if(a->op==OR&&(a->k[0]==b||a->k[1]==b)) return a; if(b->op==OR&&(b->k[0]==a||b->k[1]==a)) return b; }
    if(a->op==ZEXT&&b->op==ZEXT&&a->k[0]->w==b->k[0]->w) return mk_zext(mk2(OR,a->k[0],b->k[0]),w);
    // (concat(hi,0..0) | zext(lo)) -> concat
    { Expr*x=a,*y=b; for(int t=0;t<2;t++,std::swap(x,y)) if(x->op==CONCAT&&iscv(x->k[1],0)&&y->op==ZEXT&&y->k[0]->w<=x->k[1]->w) return mk_concat(x->k[0],mk_zext(y->k[0],x->k[1]->w)); }
    break;
  case XOR:
    if(a==b) return mkc(0,w); if(iscv(b,0)) return a;
    if(b->isc()&&a->op==XOR&&a->k[1]->isc()) return mk2(XOR,a->k[0],mkc(a->k[1]->cv()^b->cv(),w));
    if(w==1&&iscv(b,1)){ if(a->op==ULT) return mk2(ULE,a->k[1],a->k[0]); if(a->op==ULE) return mk2(ULT,a->k[1],a->k[0]); if(a->op==SLT) return mk2(SLE,a->k[1],a->k[0]); if(a->op==SLE) return mk2(SLT,a->k[1],a->k[0]);
      if(a->op==ITE&&a->k[1]->isc()&&a->k[2]->isc()) return mk_ite(a->k[0],mk_not(a->k[1]),mk_not(a->k[2])); }
    if(a->op==ZEXT&&b->op==ZEXT&&a->k[0]->w==b->k[0]->w) return mk_zext(mk2(XOR,a->k[0],b->k[0]),w);
    break;
  case SHL:
    if(b->isc()){ u128 s=b->cv(); if(s==0) return a; if(s>=(u128)w) return mkc(0,w); return mk2(MUL,a,mkc((u128)1<<(int)s,w)); }
    break;
  case LSHR:
    if(b->isc()){ u128 s=b->cv(); if(s==0) return a; if(s>=(u128)w) return mkc(0,w); return mk_zext(mk_extract(a,(int)s,w-(int)s),w); }
    break;
  case ASHR:
    if(b->isc()){ u128 s=b->cv(); if(s==0) return a; if(s>=(u128)w) s=w-1; return mk_sext(mk_extract(a,(int)s,w-(int)s),w); }
    break;
  case EQ:
    if(a==b) return mkc(1,1);
    if(w==1){ if(iscv(b,1)) return a; if(iscv(b,0)) return mk_not(a); }
    if(b->isc()){
      u128 c=b->cv();
      if(a->op==ZEXT){ int iw=a->k[0]->w; if(c>>iw) return mkc(0,1); return mk2(EQ,a->k[0],mkc(c,iw)); }
      if(a->op==SEXT){ int iw=a->k[0]->w; if((u128)(sx(c&wmask(iw),iw))==(u128)sx(c,w)) return mk2(EQ,a->k[0],mkc(c,iw)); return mkc(0,1); }
      if(a->op==CONCAT){ int lw=a->k[1]->w; return mk2(AND,mk2(EQ,a->k[0],mkc(c>>lw,a->k[0]->w)),mk2(EQ,a->k[1],mkc(c,lw))); }
      if(a->op==ITE){ if(a->k[1]->isc()&&a->k[2]->isc()){ bool x=a->k[1]->cv()==c,y=a->k[2]->cv()==c; if(x&&y) return mkc(1,1); if(x) return a->k[0]; if(y) return mk_not(a->k[0]); return mkc(0,1); }
        if(a->k[1]->isc()||a->k[2]->isc()) return mk_ite(a->k[0],mk2(EQ,a->k[1],b),mk2(EQ,a->k[2],b)); }
      if(a->op==ADD&&a->k[1]->isc()) return mk2(EQ,a->k[0],mkc(c-a->k[1]->cv(),w));
      if(a->op==XOR&&a->k[1]->isc()) return mk2(EQ,a->k[0],mkc(c^a->k[1]->cv(),w));
      if(a->op==SUB&&a->k[0]->isc()) return mk2(EQ,a->k[1],mkc(a->k[0]->cv()-c,w));
      if(c==0&&a->op==SUB) return mk2(EQ,a->k[0],a->k[1]);
    }
    if(a->op==ZEXT&&b->op==ZEXT&&a->k[0]->w==b->k[0]->w) return mk2(EQ,a->k[0],b->k[0]);
    if(a->op==SEXT&&b->op==SEXT&&a->k[0]->w==b->k[0]->w) return mk2(EQ,a->k[0],b->k[0]);
    break;
  case ULT:
    if(a==b) return mkc(0,1); if(iscv(b,0)) return mkc(0,1); if(iscv(a,~(u128)0)) return mkc(0,1);
    if(iscv(b,1)) return mk2(EQ,a,mkc(0,w)); if(iscv(a,0)) return mk_not(mk2(EQ,b,mkc(0,w)));
    if(w==1) return mk2(AND,mk_not(a),b);
    if(a->op==ZEXT&&b->isc()){ int iw=a->k[0]->w; if(b->cv()>>iw) return mkc(1,1); return mk2(ULT,a->k[0],mkc(b->cv(),iw)); }
    if(b->op==ZEXT&&a->isc()){ int iw=b->k[0]->w; if(a->cv()>>iw) return mkc(0,1); return mk2(ULT,mkc(a->cv(),iw),b->k[0]); }
    if(a->op==ZEXT&&b->op==ZEXT&&a->k[0]->w==b->k[0]->w) return mk2(ULT,a->k[0],b->k[0]);
    break;
  case ULE:
    if(a==b) return mkc(1,1); if(iscv(a,0)) return mkc(1,1); if(iscv(b,~(u128)0)) return mkc(1,1);
    if(iscv(b,0)) return mk2(EQ,a,b); if(iscv(a,1)) return mk_not(mk2(EQ,b,mkc(0,w)));
    if(w==1) return mk2(OR,mk_not(a),b);
    if(a->op==ZEXT&&b->isc()){ int iw=a->k[0]->w; if(b->cv()>>iw) return mkc(1,1); return mk2(ULE,a->k[0],mkc(b->cv(),iw)); }
    if(b->op==ZEXT&&a->isc()){ int iw=b->k[0]->w; if(a->cv()>>iw) return mkc(0,1); return mk2(ULE,mkc(a->cv(),iw),b->k[0]); }
    if(a->op==ZEXT&&b->op==ZEXT&&a->k[0]->w==b->k[0]->w) return mk2(ULE,a->k[0],b->k[0]);
    break;
  case SLT: case SLE:
    if(a==b) return mkc(op==SLE,1);
    if(w==1) return op==SLT? mk2(AND,a,mk_not(b)) : mk2(OR,a,mk_not(b));
    if(a->op==SEXT&&b->op==SEXT&&a->k[0]->w==b->k[0]->w) return mk2(op,a->k[0],b->k[0]);
    if(a->op==ZEXT&&b->op==ZEXT&&a->k[0]->w==b->k[0]->w&&a->k[0]->w<w) return mk2(op==SLT?ULT:ULE,a->k[0],b->k[0]);
    if(a->op==SEXT&&b->isc()){ int iw=a->k[0]->w; i128 c=sx(b->cv(),w); i128 mn=-((i128)1<<(iw-1)),mx=((i128)1<<(iw-1))-1; if(c>mx) return mkc(1,1); if(c<mn) return mkc(0,1); return mk2(op,a->k[0],mkc((u128)c,iw)); }
    if(b->op==SEXT&&a->isc()){ int iw=b->k[0]->w; i128 c=sx(a->cv(),w); i128 mn=-((i128)1<<(iw-1)),mx=((i128)1<<(iw-1))-1; if(c>mx) return mkc(0,1); if(c<mn) return mkc(1,1); return mk2(op,mkc((u128)c,iw),b->k[0]); }
    if(a->op==ZEXT&&b->isc()){ int iw=a->k[0]->w; i128 c=sx(b->cv(),w); if(c<0) return mkc(0,1); if((u128)c>wmask(iw)) return mkc(1,1); return mk2(op==SLT?ULT:ULE,a->k[0],mkc((u128)c,iw)); }
    if(b->op==ZEXT&&a->isc()){ int iw=b->k[0]->w; i128 c=sx(a->cv(),w); if(c<0) return mkc(1,1); if((u128)c>wmask(iw)) return mkc(0,1); return mk2(op==SLT?ULT:ULE,mkc((u128)c,iw),b->k[0]); }
    break;
  default: break; }
  return raw(op,(op>=EQ&&op<=SLE)?1:w,0,a,b);
}
Expr *mk_ite(Expr*c,Expr*a,Expr*b){
  if(c->isc()) return c->lo?a:b; if(a==b) return a;
  int w=a->w;
  if(c->op==XOR&&iscv(c->k[1],1)) return mk_ite(c->k[0],b,a);
  if(w==1){ if(iscv(a,1)) return mk2(OR,c,b); if(iscv(a,0)) return mk2(AND,mk_not(c),b); if(iscv(b,0)) return mk2(AND,c,a); if(iscv(b,1)) return mk2(OR,mk_not(c),a); }
  if(w>1&&a->isc()&&b->isc()){ if(iscv(a,1)&&iscv(b,0)) return mk_zext(c,w); if(iscv(a,0)&&iscv(b,1)) return mk_zext(mk_not(c),w); if(iscv(a,~(u128)0)&&iscv(b,0)) return mk_sext(c,w); }
  if(a->op==ITE&&a->k[0]==c) return mk_ite(c,a->k[1],b);
  if(b->op==ITE&&b->k[0]==c) return mk_ite(c,a,b->k[2]);
  return raw(ITE,w,0,c,a,b);
}
Expr *mk_extract(Expr*a,int lo,int w){
  if(lo==0&&w==a->w) return a;
  if(a->isc()) return mkc(a->cv()>>lo,w);
  if(lo&&a->w<=64&&!a->fp){ Rng r=rng(a); if(r.st==2&&!(r.hi>>lo)) return mkc(0,w); }
  switch(a->op){
  case EXTRACT: return mk_extract(a->k[0],a->aux+lo,w);
  case CONCAT: { int lw=a->k[1]->w; if(lo+w<=lw) return mk_extract(a->k[1],lo,w); if(lo>=lw) return mk_extract(a->k[0],lo-lw,w); return mk_concat(mk_extract(a->k[0],0,lo+w-lw),mk_extract(a->k[1],lo,lw-lo)); }
  case ZEXT: { int iw=a->k[0]->w; if(lo>=iw) return mkc(0,w); if(lo+w<=iw) return mk_extract(a->k[0],lo,w); return mk_zext(mk_extract(a->k[0],lo,iw-lo),w); }
  case SEXT: { int iw=a->k[0]->w; if(lo+w<=iw) return mk_extract(a->k[0],lo,w); if(lo<iw) return mk_sext(mk_extract(a->k[0],lo,iw-lo),w); return mk_sext(mk_extract(a->k[0],iw-1,1),w); }
  case AND: case OR: case XOR: return mk2(a->op,mk_extract(a->k[0],lo,w),mk_extract(a->k[1],lo,w));
  case ADD: case SUB: case MUL: if(lo==0){ if(linear_known(a)) break; } if(lo==0) return mk2(a->op,mk_extract(a->k[0],0,w),mk_extract(a->k[1],0,w));
    if(a->op==MUL&&a->k[1]->isc()){ // multiplication by a power of two is a shift
      u128 c=a->k[1]->cv(); if(!(c&(c-1))){ int s=0; while((c>>s)!=1) s++; if(lo>=s) return mk_extract(a->k[0],lo-s,w); if(lo+w<=s) return mkc(0,w); return mk_concat(mk_extract(a->k[0],0,lo+w-s),mkc(0,s-lo)); } }
    break;
  case SHL: if(lo==0&&false) break; break;
  case ITE: if(a->k[1]->isc()||a->k[2]->isc()||a->k[1]->op==ZEXT||a->k[2]->op==ZEXT||a->k[1]->op==CONCAT||a->k[2]->op==CONCAT||a->k[1]->op==SEXT||a->k[2]->op==SEXT||lo==0) return mk_ite(a->k[0],mk_extract(a->k[1],lo,w),mk_extract(a->k[2],lo,w)); break;
  case SDIV: case SREM: if(lo==0&&a->k[0]->op==SEXT){ Expr*x=a->k[0]->k[0]; Expr*y=a->k[1]; if(x->w==w){ if(y->op==SEXT&&y->k[0]->w==w) return mk2(a->op,x,y->k[0]);
      if(y->isc()&&(u128)(sx(y->cv()&wmask(w),w))==(u128)sx(y->cv(),a->w)&&y->cv()!=0) return mk2(a->op,x,mkc(y->cv(),w)); } } break;
  case UDIV: case UREM: if(lo==0&&a->k[0]->op==ZEXT){ Expr*x=a->k[0]->k[0]; Expr*y=a->k[1]; if(x->w==w){ if(y->op==ZEXT&&y->k[0]->w==w) return mk2(a->op,x,y->k[0]); if(y->isc()&&!(y->cv()>>w)&&y->cv()) return mk2(a->op,x,mkc(y->cv(),w)); } } break;
  default: break; }
  return raw(EXTRACT,w,lo,a);
}
Expr *mk_concat(Expr*h,Expr*l){
  int w=h->w+l->w;
  if(h->isc()&&l->isc()) return mkc((h->cv()<<l->w)|l->cv(),w);
  if(h->op==EXTRACT&&l->op==EXTRACT&&h->k[0]==l->k[0]&&h->aux==l->aux+l->w) return mk_extract(h->k[0],l->aux,w);
  if(h->op==EXTRACT&&h->k[0]==l&&h->aux==l->w) return mk_extract(l,0,w); // cannot happen, kept for symmetry
  // the low part of a sum may have been rewritten to a sum of low parts
  auto below=[](Expr*hi,Expr*lo){ return hi->op==EXTRACT&&(int)hi->aux>=lo->w&&!lo->isc()&&mk_extract(hi->k[0],hi->aux-lo->w,lo->w)==lo; };
  if(below(h,l)) return mk_extract(h->k[0],h->aux-l->w,w);
  if(l->op==CONCAT&&below(h,l->k[0])){ Expr*u=l->k[0]; return mk_concat(mk_extract(h->k[0],h->aux-u->w,h->w+u->w),l->k[1]); }
  if(h->op==CONCAT&&below(h->k[1],l)){ Expr*v=h->k[1]; return mk_concat(h->k[0],mk_extract(v->k[0],v->aux-l->w,v->w+l->w)); }
  if(iscv(h,0)) return mk_zext(l,w);
  if(l->op==CONCAT){ // try to merge h with upper part
    Expr*u=l->k[0]; if(h->op==EXTRACT&&u->op==EXTRACT&&h->k[0]==u->k[0]&&h->aux==u->aux+u->w) return mk_concat(mk_extract(h->k[0],u->aux,h->w+u->w),l->k[1]);
    if(h->isc()&&u->isc()) return mk_concat(mkc((h->cv()<<u->w)|u->cv(),h->w+u->w),l->k[1]); }
  if(h->op==CONCAT){ Expr*v=h->k[1]; if(v->op==EXTRACT&&l->op==EXTRACT&&v->k[0]==l->k[0]&&v->aux==l->aux+l->w) return mk_concat(h->k[0],mk_extract(v->k[0],l->aux,v->w+l->w));
    if(v->isc()&&l->isc()) return mk_concat(h->k[0],mkc((v->cv()<<l->w)|l->cv(),v->w+l->w)); 
    return mk_concat(h->k[0],mk_concat(v,l)); }
  if(h->op==ZEXT) return mk_zext(mk_concat(h->k[0],l),w);
  if(h->op==SEXT&&l->w==h->k[0]->w&&false) return nullptr;
  // sign smear: concat(sext(extract(x,msb)), x) -> sext(x)
  if(h->op==SEXT&&h->k[0]->w==1&&h->k[0]->op==EXTRACT){ Expr*b=h->k[0]; if(b->k[0]==l&&(int)b->aux==l->w-1) return mk_sext(l,w); if(l->op==EXTRACT&&l->k[0]==b->k[0]&&b->aux==l->aux+l->w-1) return mk_sext(l,w); }
  if(h->op==ITE&&l->op==ITE&&h->k[0]==l->k[0]) return mk_ite(h->k[0],mk_concat(h->k[1],l->k[1]),mk_concat(h->k[2],l->k[2]));
  if(l->op==ITE&&h->isc()&&l->k[1]->isc()&&l->k[2]->isc()) return mk_ite(l->k[0],mk_concat(h,l->k[1]),mk_concat(h,l->k[2]));
  // pieces of a sign extension: concat(extract(sext...)) are re-merged by the byte reader
  return raw(CONCAT,w,0,h,l);
}
Expr *mk_zext(Expr*a,int w){
  if(w==a->w) return a; if(a->isc()) return mkc(a->cv(),w);
  if(a->op==ZEXT) return mk_zext(a->k[0],w);
  if(a->op==EXTRACT&&a->aux==0&&a->k[0]->w<=64&&!a->fp){ Rng r=rng(a->k[0]); if(r.st==2&&!(r.hi>>a->w)){ if(a->k[0]->w==w) return a->k[0]; if(a->k[0]->w<w) return mk_zext(a->k[0],w); return mk_extract(a->k[0],0,w); } }
  if((a->op==ADD||a->op==MUL)&&w<=64&&rng(a).st==2&&rng(a->k[0]).st==2&&rng(a->k[1]).st==2){ // no wrapping
    Expr*c=a->k[1]; return mk2(a->op,mk_zext(a->k[0],w),a->op==ADD&&c->isc()&&(c->lo>>(a->w-1))?mk_sext(c,w):mk_zext(c,w)); }
  if(a->op==ITE&&a->k[1]->isc()&&a->k[2]->isc()&&a->w>1) return mk_ite(a->k[0],mk_zext(a->k[1],w),mk_zext(a->k[2],w));
  return raw(ZEXT,w,0,a);
}
Expr *mk_sext(Expr*a,int w){
  if(w==a->w) return a; if(a->isc()) return mkc((u128)sx(a->cv(),a->w),w);
  if(a->op==SEXT) return mk_sext(a->k[0],w);
  if(a->op==ZEXT) return mk_zext(a->k[0],w);
  if(a->w<=64&&!a->fp){ Rng r=rng(a); if(r.st==2&&!(r.hi>>(a->w-1))) return mk_zext(a,w); }
  if(a->op==ITE&&a->k[1]->isc()&&a->k[2]->isc()&&a->w>1) return mk_ite(a->k[0],mk_sext(a->k[1],w),mk_sext(a->k[2],w));
  return raw(SEXT,w,0,a);
}
Expr *mk_fp1(Op op,Expr*a,int w,u32 aux){
  if(a->isc()) return mkc(fp_op_const(op,aux,w,a->w,a->cv(),0),w);
  if(op==FCVT){ if(a->w==w) return a;
    // a widening conversion is exact: narrowing back gives the original (modulo NaN quieting)
    if(a->op==FCVT&&a->k[0]->w<a->w){ if(w==a->k[0]->w) return a->k[0]; return mk_fp1(FCVT,a->k[0],w); } 
    if(a->op==SITOF&&a->w<w&&false) return nullptr; }
  if(op==FCVT&&a->op==ITE&&a->k[1]->isc()&&a->k[2]->isc()) return mk_ite(a->k[0],mk_fp1(op,a->k[1],w,aux),mk_fp1(op,a->k[2],w,aux));
  if((op==SITOF||op==UITOF)&&(a->op==ITE&&a->k[1]->isc()&&a->k[2]->isc())) return mk_ite(a->k[0],mk_fp1(op,a->k[1],w,aux),mk_fp1(op,a->k[2],w,aux));
  if((op==SITOF||op==UITOF)&&a->op==ZEXT&&a->k[0]->w==1) return mk_ite(a->k[0],mk_fp1(op,mkc(1,2),w,aux),mkc(0,w));
  if(op==SITOF&&a->op==SEXT) return mk_fp1(SITOF,a->k[0],w,aux);
  if(op==SITOF&&a->op==ZEXT) return mk_fp1(UITOF,a->k[0],w,aux);
  if(op==UITOF&&a->op==ZEXT) return mk_fp1(UITOF,a->k[0],w,aux);
  return raw(op,w,aux,a);
}
std::string estr(Expr*e,int d){
  char b[64];
  if(e->isc()){ if(e->hi) snprintf(b,64,"0x%lx%016lx:%d",e->hi,e->lo,e->w); else snprintf(b,64,"0x%lx:%d",e->lo,e->w); return b; }
  if(e->op==VAR) return vars[e->aux].name;
  if(!d) return "..";
  std::string s=std::string("(")+op_names[e->op]+":"+std::to_string(e->w); if(e->op==EXTRACT) s+="@"+std::to_string(e->aux);
  for(int i=0;i<e->nk;i++) s+=" "+estr(e->k[i],d-1); return s+")";
}
// evaluation
static std::vector<u128> evv; static std::vector<u32> eve; static u32 epoch=0;
static u128 ev(Expr*e,const Model&m){
  if(e->isc()) return e->cv(); if(e->op==VAR) return m.get(e->aux)&wmask(e->w);
  if(eve[e->id]==epoch) return evv[e->id];
  u128 r; u128 a=0,b=0;
  if(e->op==ITE){ r=ev(e->k[0],m)?ev(e->k[1],m):ev(e->k[2],m); }
  else { a=ev(e->k[0],m); if(e->nk>1) b=ev(e->k[1],m); int aw=e->k[0]->w;
    switch(e->op){ case CONCAT: r=(a<<e->k[1]->w)|b; break; case EXTRACT: r=(a>>e->aux)&wmask(e->w); break; case ZEXT: r=a; break; case SEXT: r=(u128)sx(a,aw)&wmask(e->w); break;
    default: if(op_is_fp(e->op)) r=fp_op_const(e->op,e->aux,e->w,aw,a,b); else r=cop(e->op,a,b,aw); } }
  eve[e->id]=epoch; evv[e->id]=r; return r;
}
u128 eval(Expr*e,const Model&m){ if(eve.size()<all.size()){ eve.resize(all.size()+4096); evv.resize(all.size()+4096);} epoch++; return ev(e,m); }
static std::vector<const std::vector<u32>*> vsets; static const std::vector<u32> emptyv;
const std::vector<u32>&varset(Expr*e){
  if(vsets.size()<all.size()) vsets.resize(all.size()+4096);
  if(vsets[e->id]) return *vsets[e->id];
  const std::vector<u32>*r;
  if(e->op==VAR) r=new std::vector<u32>{e->aux};
  else if(e->isc()) r=&emptyv;
  else { const std::vector<u32>*acc=&varset(e->k[0]); for(int i=1;i<e->nk;i++){ const std::vector<u32>&o=varset(e->k[i]); if(o.empty()||&o==acc) continue; if(acc->empty()){acc=&o;continue;}
      if(std::includes(acc->begin(),acc->end(),o.begin(),o.end())) continue; if(std::includes(o.begin(),o.end(),acc->begin(),acc->end())){acc=&o;continue;}
      auto*n=new std::vector<u32>; std::set_union(acc->begin(),acc->end(),o.begin(),o.end(),std::back_inserter(*n)); acc=n; } r=acc; }
  vsets[e->id]=r; return *r;
}

// ---- a canonical form, for queries only: sums and bitwise chains are flattened and sorted, so that reassociated terms become identical

static Expr *canon0(Expr*e,int d);
typedef std::map<u32,std::pair<Expr*,u128>> Lin;
static void lin_add(Lin&l,u128&c,Expr*e,u128 k,int w,int d){
  if(e->isc()){ c+=e->cv()*k; return; }
  if(e->op==ADD){ lin_add(l,c,e->k[0],k,w,d); lin_add(l,c,e->k[1],k,w,d); return; }
  if(e->op==SUB){ lin_add(l,c,e->k[0],k,w,d); lin_add(l,c,e->k[1],(u128)0-k,w,d); return; }
  if(e->op==MUL&&e->k[1]->isc()){ lin_add(l,c,e->k[0],k*e->k[1]->cv(),w,d); return; }
  if(e->op==SHL&&e->k[1]->isc()&&e->k[1]->cv()<(u128)w){ lin_add(l,c,e->k[0],k<<(int)e->k[1]->cv(),w,d); return; }
  if(e->op==XOR&&e->k[1]->isc()&&e->k[1]->cv()==wmask(w)){ c-=k; lin_add(l,c,e->k[0],(u128)0-k,w,d); return; }
  Expr*a=canon0(e,d+1);
  if(a!=e&&(a->isc()||a->op==ADD||a->op==SUB||a->op==MUL&&a->k[1]->isc()||a->op==SHL&&a->k[1]->isc())){ if(a->isc()){ c+=a->cv()*k; return; } 
    // the canonical form of an atom is itself a sum: its parts are canonical already
    lin_add(l,c,a,k,w,d); return; }
  auto&p=l[a->id]; p.first=a; p.second+=k; }
static Expr *lin_build(Lin&l,u128 c,int w){
  u128 m=wmask(w); Expr*s=nullptr; for(auto&kv:l){ u128 k=kv.second.second&m; if(!k) continue; Expr*t; bool sub=false; if(k==1) t=kv.second.first; else if(k==m){ t=kv.second.first; sub=true; } else t=mk2(MUL,kv.second.first,mkc(k,w)); s=s?mk2(sub?SUB:ADD,s,t):sub?mk_neg(t):t; }
  c&=m; if(!s) return mkc(c,w); return c?mk2(ADD,s,mkc(c,w)):s; }
static void flat(Op op,Expr*e,std::vector<Expr*>&out,int d){ if(e->op==op){ flat(op,e->k[0],out,d); flat(op,e->k[1],out,d); return; } Expr*a=canon0(e,d+1); if(a!=e&&a->op==op){ flat(op,a->k[0],out,d); flat(op,a->k[1],out,d); return; } out.push_back(a); }
static Expr *canon0(Expr*e,int d){
  if(e->nk==0||d>400) return e;
  if(e->id<cmemo.size()&&cmemo[e->id]) return cmemo[e->id];
  Expr*r=e; int w=e->w;
  switch(e->op){
  case ADD: case SUB: { Lin l; u128 c=0; lin_add(l,c,e,1,w,d); r=lin_build(l,c,w); break; }
  case MUL: if(e->k[1]->isc()){ Lin l; u128 c=0; lin_add(l,c,e,1,w,d); r=lin_build(l,c,w); } else r=mk2(MUL,canon0(e->k[0],d+1),canon0(e->k[1],d+1)); break;
  case XOR: case AND: case OR: {
    std::vector<Expr*> v; flat(e->op,e,v,d); u128 c=e->op==AND?wmask(w):0; std::map<u32,std::pair<Expr*,int>> s;
    for(auto x:v){ if(x->isc()){ if(e->op==AND) c&=x->cv(); else if(e->op==OR) c|=x->cv(); else c^=x->cv(); } else { auto&p=s[x->id]; p.first=x; p.second++; } }
    Expr*a=nullptr; for(auto&kv:s){ if(e->op==XOR&&!(kv.second.second&1)) continue; a=a?mk2(e->op,a,kv.second.first):kv.second.first; }
    if(!a) r=mkc(c,w); else if(e->op==AND?c!=wmask(w):c!=0) r=mk2(e->op,a,mkc(c,w)); else r=a; break; }
  case EQ: { Expr*a=canon0(e->k[0],d+1),*b=canon0(e->k[1],d+1); if(a==b){ r=mkc(1,1); break; } if(a->w>1&&a->w<=64&&(a->op==ADD||a->op==SUB||b->op==ADD||b->op==SUB)){ Lin l; u128 c=0; lin_add(l,c,a,1,a->w,d); lin_add(l,c,b,(u128)0-1,a->w,d); bool any=false; for(auto&kv:l) if(kv.second.second&wmask(a->w)) any=true; if(!any){ r=mkc((c&wmask(a->w))==0,1); break; } } r=mk2(EQ,a,b); break; }
  case EXTRACT: { Expr*a=canon0(e->k[0],d+1); r=mk_extract(a,e->aux,w); break; }
  case ZEXT: r=mk_zext(canon0(e->k[0],d+1),w); break; case SEXT: r=mk_sext(canon0(e->k[0],d+1),w); break; case CONCAT: r=mk_concat(canon0(e->k[0],d+1),canon0(e->k[1],d+1)); break;
  case ITE: { Expr*c=canon0(e->k[0],d+1),*a=canon0(e->k[1],d+1),*b=canon0(e->k[2],d+1); r=mk_ite(c,a,b); break; }
  case FSQRT: case FCVT: case FTOSI: case FTOUI: case SITOF: case UITOF: case FROUND: r=mk_fp1(e->op,canon0(e->k[0],d+1),w,e->aux); break;
  default: r=mk2(e->op,canon0(e->k[0],d+1),canon0(e->k[1],d+1)); }
  if(cmemo.size()<=e->id||cmemo.size()<=r->id) cmemo.resize(expr_count()+4096);
  cmemo[e->id]=r; if(!cmemo[r->id]) cmemo[r->id]=r; return r; }
Expr *canon(Expr*e){ return canon0(e,0); }
