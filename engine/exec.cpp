#include "exec.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <algorithm>
#include <atomic>
#include <cmath>
using namespace llvm;

State st; u8*shadow; Expr**symarr; Job job;
std::vector<::Module*> modules; std::map<u64,Func*> func_by_addr; ::Module*mainmod=nullptr,*refmod=nullptr;
std::map<std::string,u64> counters; std::set<std::string> covered,called_funcs; std::map<std::string,std::string> opts; std::string cur_job,cur_fn;
u64 optn(const char*k,u64 d){ auto j=job.o.find(k); if(j!=job.o.end()) return strtoull(j->second.c_str(),0,0); auto it=opts.find(k); return it==opts.end()?d:strtoull(it->second.c_str(),0,0); }

// ================================================================ trail and choices
struct TE { u64 a,data,sh; Expr**syms; };
static std::vector<TE> trail; static bool trail_on=false; static size_t instr_trail=0;
struct Choice { State s; size_t trail; Expr*c; std::shared_ptr<Model> m; int alt; };
static std::vector<Choice> choices; static int pending_alt=-1;
static inline void logw(u64 a){ // a 8 aligned
  TE t; t.a=a; t.data=*(u64*)a; t.sh=*(u64*)(shadow+(a-ABASE)); t.syms=nullptr;
  if(t.sh&0x0404040404040404ull){ t.syms=(Expr**)malloc(64); memcpy(t.syms,symarr+(a-ABASE),64); }
  trail.push_back(t);
}
static inline void log_range(u64 a,u64 n){ if(!trail_on||!n) return; for(u64 p=a&~7ull;p<a+n;p+=8) logw(p); }
static void undo_to(size_t mark){
  while(trail.size()>mark){ TE&t=trail.back();
    if(t.a&1){ u64 a=t.a&~1ull; memset(shadow+(a-ABASE),0,t.data); }
    else { *(u64*)t.a=t.data; *(u64*)(shadow+(t.a-ABASE))=t.sh; if(t.syms){ memcpy(symarr+(t.a-ABASE),t.syms,64); free(t.syms);} }
    trail.pop_back(); }
}
// ================================================================ memory
static void mem_init(){
  void*p=mmap((void*)ABASE,ASIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
  if(p!=(void*)ABASE){ fprintf(stderr,"cannot map the arena\n"); exit(97); }
  shadow=(u8*)mmap(0,ASIZE+4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  symarr=(Expr**)mmap(0,ASIZE*8,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  if(shadow==MAP_FAILED||symarr==MAP_FAILED){ fprintf(stderr,"cannot map the shadow\n"); exit(97); }
}
// Layout of the arena: [ABASE+64K .. ABASE+1G) globals and heap, [ABASE+1G .. ) stack of the bitcode interpreter
static const u64 STACK0=ABASE+0x40000000ull;
static u64 alloc_at(u64&bump,u64 size,int kind,u64 align,bool init,bool ro){
  if(align<16) align=16;
  u64 h=(bump+7)&~7ull; u64 a=(h+sizeof(Hdr)+align-1)/align*align; h=a-sizeof(Hdr);
  u64 end=(a+size+15)&~15ull; end+=16;
  if(size>0x20000000ull||end>ABASE+ASIZE-4096) path_error("out of memory in the executor");
  Hdr*hd=(Hdr*)h; hd->size=size; hd->magic=0xA110CA7E; hd->kind=kind; hd->alive=1;
  if(trail_on){ TE t; t.a=(h&~7ull)|1; t.data=end-h; t.sh=0; t.syms=nullptr; trail.push_back(t); }
  memset(shadow+(a-ABASE),(init?0:SH_UN)|SH_V|(ro?SH_RO:0),size); if(init) memset((void*)a,0,size);
  bump=end; return a;
}
u64 alloc_mem(u64 size,int kind,u64 align,bool init,bool ro){ return alloc_at(kind==AK_STACK?st.stack:st.heap,size,kind,align,init,ro); }
bool find_alloc(u64 addr,u64*base,u64*size){
  if(!in_arena(addr,1)||!shadow[addr-ABASE]) return false;
  u64 a=addr; while(shadow[a-1-ABASE]) a--;
  Hdr*h=(Hdr*)(a-sizeof(Hdr)); if(h->magic!=0xA110CA7E) return false; *base=a; *size=h->size; return true;
}
void free_mem(u64 a){
  Hdr*h=(Hdr*)(a-sizeof(Hdr)); if(!in_arena(a,1)||h->magic!=0xA110CA7E||h->kind!=AK_HEAP||!h->alive) path_error("invalid or double free");
  if(trail_on) log_range(a-sizeof(Hdr),sizeof(Hdr)+h->size); h->alive=0; memset(shadow+(a-ABASE),0,h->size);
}
bool mem_valid(u64 a,u64 n,bool write){ if(!in_arena(a,n)) return false; for(u64 i=0;i<n;i++){ u8 s=shadow[a-ABASE+i]; if(!(s&SH_V)||(write&&(s&SH_RO))) return false; } return true; }
static char hexb[64]; static const char*hx(u64 a){ snprintf(hexb,64,"0x%lx",a); return hexb; }
[[noreturn]] static void bad_access(const char*what,u64 a,u64 n){
  std::string why; u64 b,s; (void)b; (void)s; if(a<65536) why="null pointer"; else if(!in_arena(a,n)) why="wild pointer"; else why="out of bounds, freed or read-only memory";
  path_error(std::string("invalid ")+what+" of "+std::to_string(n)+" bytes at "+hx(a)+" ("+why+")");
}
static inline u64 shmask(int n){ return n>=8?~0ull:((1ull<<(8*n))-1); }
static Expr*byte_expr(u64 a){ u8 s=shadow[a-ABASE]; if(s&SH_SYM) return symarr[a-ABASE]; return mkc(*(u8*)a,8); }
static void put_byte(u64 a,Expr*e){ u8&s=shadow[a-ABASE]; if(e->isc()){ *(u8*)a=e->lo; s&=~(SH_SYM|SH_UN);} else { symarr[a-ABASE]=e; *(u8*)a=0xEE; s=(s&~SH_UN)|SH_SYM; } }
static u64 uninit_n=0;
static V rd_slow(u64 a,int n){
  if(!in_arena(a,n)) bad_access("read",a,n);
  u8*s=shadow+(a-ABASE); bool sym=false;
  for(int i=0;i<n;i++){ if(!(s[i]&SH_V)) bad_access("read",a,n); if(s[i]&(SH_SYM|SH_UN)) sym=true; }
  if(!sym){ if(n<=8){ u64 v=0; memcpy(&v,(void*)a,n); return vc(v);} u128 v=0; memcpy(&v,(void*)a,n); return V{0,mkc(v,n*8)}; }
  for(int i=0;i<n;i++) if(s[i]&SH_UN){ // materialise a run of uninitialised bytes as one unknown value
    int j=i; while(j<n&&(s[j]&SH_UN)) j++; int len=j-i; counters["uninit_reads"]++; Expr*v=mkvar("uninit"+std::to_string(uninit_n++),len*8); log_range(a+i,len);
    for(int k=0;k<len;k++){ put_byte(a+i+k,mk_extract(v,k*8,8)); } i=j-1; }
  Expr*r=byte_expr(a); for(int i=1;i<n;i++) r=mk_concat(byte_expr(a+i),r);
  return fromE(r);
}
V rd(u64 a,int n){
  if(n<=8&&in_arena(a,n)){ u64 s; memcpy(&s,shadow+(a-ABASE),8); u64 m=shmask(n); if((s&0x0d0d0d0d0d0d0d0dull&m)==(0x0101010101010101ull&m)){ u64 v=*(u64*)a; return vc(v&m);} }
  return rd_slow(a,n);
}
void wr(u64 a,int n,V v,bool force){
  if(!in_arena(a,n)) bad_access("write",a,n);
  u8*s=shadow+(a-ABASE); 
  if(n<=8){ u64 sh; memcpy(&sh,s,8); u64 m=shmask(n);
    if((sh&0x0303030303030303ull&m)!=(0x0101010101010101ull&m)&&!force) bad_access("write",a,n);
    if(trail_on) log_range(a,n);
    if(!v.e){ memcpy((void*)a,&v.c,n); sh&=~(0x0c0c0c0c0c0c0c0cull&m); memcpy(s,&sh,8); return; } }
  else { for(int i=0;i<n;i++) if(((s[i]&3)!=1)&&!force) bad_access("write",a,n); if(trail_on) log_range(a,n); }
  Expr*e=v.e?v.e:mkc(v.c,n*8); 
  for(int i=0;i<n;i++) put_byte(a+i,mk_extract(e,i*8,8));
}
static int known_tz(Expr*e){ // number of low bits known to be zero
  switch(e->op){ case CONST: { if(!e->lo) return 64; return __builtin_ctzll(e->lo); }
    case ADD: case SUB: case OR: return std::min(known_tz(e->k[0]),known_tz(e->k[1])); case MUL: return std::min(64,known_tz(e->k[0])+known_tz(e->k[1])); case SHL: return e->k[1]->isc()?std::min<u64>(64,known_tz(e->k[0])+e->k[1]->lo):known_tz(e->k[0]);
    case AND: return std::max(known_tz(e->k[0]),known_tz(e->k[1])); case CONCAT: { int t=known_tz(e->k[1]); return t>=e->k[1]->w?e->k[1]->w+known_tz(e->k[0]):t; } case ZEXT: case SEXT: return known_tz(e->k[0]); case ITE: return std::min(known_tz(e->k[1]),known_tz(e->k[2])); default: return 0; } }
static u64 model_val(Expr*e){ if(st.model) return (u64)eval(e,*st.model); Model m; return (u64)eval(e,m); }
// finds the object a symbolic address lies in, forking on objects; sets the candidate offsets
static bool sym_object(Expr*a,int n,u64&b,u64&sz,u64&step,u64&start,u64 limit){
  if(!st.model_ok){ Model m; may(mkc(1,1),&m); }
  u64 a0=model_val(a); if(!find_alloc(a0,&b,&sz)||a0+n>b+sz) bad_access("access through an input-dependent address",a0,n);
  Expr*d=mk2(SUB,a,mkc(b,64));
  branch(mk2(ULE,d,mkc(sz-n,64))); // the other side is explored later and picks its own object
  u64 d0=model_val(d); // the true side is the one consistent with a0
  if(d0>sz-n){ return false; }
  int tz=known_tz(a); Expr*e=a; (void)e; step=1; if(tz>0){ step=1ull<<std::min(tz,12); } else { // base + scaled index
    int t2=known_tz(d); if(t2>0) step=1ull<<std::min(t2,12); }
  start=d0%step; return (sz-n-start)/step+1<=limit;
}
V mem_read(V addr,int n,int w){
  u64 a; V v;
  if(isconc(addr)){ a=addr.e?addr.e->lo:addr.c; v=rd(a,n); }
  else { u64 b,sz,step,start; if(sym_object(addr.e,n,b,sz,step,start,optn("max_sym_obj",1024))){
      Expr*r=nullptr; for(u64 o=start;o+n<=sz;o+=step){ Expr*x=E(rd(b+o,n),n*8); r=r?mk_ite(mk_eq(addr.e,mkc(b+o,64)),x,r):x; } v=fromE(r); counters["sym_reads"]++;
    } else v=rd(concretize(addr,64),n); }
  if(w<n*8) { if(v.e) v=fromE(mk_extract(v.e,0,w)); else v.c&=m64(w); }
  return v;
}
void mem_write(V addr,V val,int n,int w){
  if(w<n*8){ if(val.e) val=fromE(mk_zext(val.e,n*8)); }
  if(isconc(addr)){ wr(addr.e?addr.e->lo:addr.c,n,val); return; }
  u64 b,sz,step,start; if(sym_object(addr.e,n,b,sz,step,start,optn("max_sym_obj_w",128))){ counters["sym_writes"]++;
    for(u64 o=start;o+n<=sz;o+=step) wr(b+o,n,fromE(mk_ite(mk_eq(addr.e,mkc(b+o,64)),E(val,n*8),E(rd(b+o,n),n*8)))); 
  } else wr(concretize(addr,64),n,val);
}
bool range_conc(u64 a,u64 n){ if(!in_arena(a,n)) return false; for(u64 i=0;i<n;i++){ u8 s=shadow[a-ABASE+i]; if((s&(SH_V|SH_SYM|SH_UN))!=SH_V) return false; } return true; }
void mem_copy(u64 d,u64 s,u64 n){
  if(!n) return; if(!in_arena(s,n)||!in_arena(d,n)) bad_access("copy",in_arena(s,n)?d:s,n);
  for(u64 i=0;i<n;i++){ if(!(shadow[s-ABASE+i]&SH_V)) bad_access("read",s+i,1); if((shadow[d-ABASE+i]&3)!=SH_V) bad_access("write",d+i,1); }
  log_range(d,n);
  bool sym=false; for(u64 i=0;i<n;i++) if(shadow[s-ABASE+i]&SH_SYM){sym=true;break;}
  if(sym) memmove(symarr+(d-ABASE),symarr+(s-ABASE),n*8);
  std::vector<u8> sh(shadow+(s-ABASE),shadow+(s-ABASE)+n); memmove((void*)d,(void*)s,n);
  for(u64 i=0;i<n;i++) shadow[d-ABASE+i]=SH_V|(sh[i]&(SH_SYM|SH_UN));
}
bool cstr(u64 a,std::string&out){ out.clear(); for(;;a++){ if(!in_arena(a,1)||!(shadow[a-ABASE]&SH_V)) bad_access("read",a,1); if(shadow[a-ABASE]&(SH_SYM|SH_UN)) return false; char c=*(char*)a; if(!c) return true; out.push_back(c);} }
BStr bstr_at(u64 a,u64 max){ BStr r; for(;max;a++,max--){ V v=rd(a,1); if(!truth(v,8)) break; r.putv(v);} return r; }
void mem_put(u64 a,const BStr&b,bool nul){ for(size_t i=0;i<b.s.size();i++){ auto it=b.sym.find(i); wr(a+i,1,it==b.sym.end()?vc((u8)b.s[i]):V{0,it->second}); } if(nul) wr(a+b.s.size(),1,vc(0)); }

// ================================================================ path conditions
static int outfd=1; static std::atomic<int>*slots=nullptr; static std::vector<pid_t> kids; static bool is_child=false;
void emit(const std::string&j){ std::string l=j+"\n"; size_t o=0; while(o<l.size()){ ssize_t r=write(outfd,l.data()+o,l.size()-o); if(r<=0) break; o+=r; } }
std::string jesc(const std::string&s){ std::string r="\""; char b[8]; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c<32||c>126){ snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r+"\""; }
std::string model_json(const Model&m){ std::string r="{"; std::map<u32,u128> s(m.v.begin(),m.v.end()); for(auto&kv:s){ if(vars[kv.first].name.compare(0,6,"uninit")==0) continue; if(r.size()>1) r+=","; char b[64]; u128 v=kv.second; int nd=(vars[kv.first].w+3)/4; if(nd>16) snprintf(b,64,"\"%0*lx%016lx\"",nd-16,(u64)(v>>64),(u64)v); else snprintf(b,64,"\"%0*lx\"",nd,(u64)v); r+=jesc(vars[kv.first].name)+":"+b; } return r+"}"; }
[[noreturn]] void path_end(int k,const std::string&m){ throw PathEnd{k,m}; }
[[noreturn]] void path_error(const std::string&m){ throw PathEnd{PE_ERROR,m}; }
static bool pc_has(Expr*c){ for(auto p:st.pc) if(p==c) return true; return false; }
static bool model_sat(Expr*c){ return st.model_ok && (st.model?eval(c,*st.model):eval(c,Model()))!=0; }
static void ensure_model(){ if(st.model_ok) return; auto m=std::make_shared<Model>(); Res r=solve(st.pc,m.get()); if(r==UNSAT) path_end(PE_INFEASIBLE); if(r==SAT){ st.model=m; st.model_ok=true; } }
Model full_model(){ return st.model?*st.model:Model(); }
// result of pc && c; on SAT m holds a model of both
static Res query(Expr*c,std::shared_ptr<Model>&m){
  if(c->isc()) { if(!c->lo) return UNSAT; m=st.model; return SAT; }
  if(pc_has(c)){ if(st.model_ok){ m=st.model; return SAT; } }
  if(pc_has(mk_not(c))) return UNSAT;
  std::vector<Expr*> q; if(st.model_ok) q=slice(st.pc,c); else q=st.pc; q.push_back(c);
  auto nm=std::make_shared<Model>(); if(st.model&&st.model_ok) *nm=*st.model; Res r=solve(q,nm.get()); if(r==SAT) m=nm; return r;
}
static void addpc(Expr*c){ if(c->isc()||pc_has(c)) return; if(c->op==AND&&c->w==1){ addpc(c->k[0]); addpc(c->k[1]); return; } st.pc.push_back(c); }
static void push_choice(Expr*c,std::shared_ptr<Model> m,int alt){
  counters["forks"]++; st.forks++;
  if(st.forks>(int)optn("max_depth",100000)) path_end(PE_LIMIT,"decision depth");
  if(slots&&slots->load()>0){ int v=slots->fetch_sub(1); if(v>0){ fflush(0); pid_t p=fork(); if(p==0){ is_child=true; kids.clear(); choices.clear(); counters.clear(); sstats=SolverStats(); covered.clear(); called_funcs.clear();
        // the child takes the alternative
        undo_to(instr_trail); if(c){ st.pc.push_back(c); if(m){ st.model=m; st.model_ok=true;} else st.model_ok=false; } pending_alt=alt; throw (int)1; }
      if(p>0){ kids.push_back(p); return; } } slots->fetch_add(1); }
  choices.push_back(Choice{st,instr_trail,c,m,alt}); trail_on=true;
}
static std::string where();
static void dbg_fork(const char*k,Expr*c){ static const char*on=getenv("SX_FORKS"); if(on) fprintf(stderr,"FORK %s %s pc=%d %s\n",k,st.mode>=2?"asm":where().c_str(),st.frames.empty()?0:(int)st.frames.back().pc,estr(c,3).substr(0,200).c_str()); }
bool branch(Expr*c){
  if(c->isc()) return c->lo;
  if(pc_has(c)) return true; Expr*nc=mk_not(c); if(pc_has(nc)) return false;
  ensure_model();
  if(st.model_ok){ bool b=model_sat(c); Expr*mine=b?c:nc,*other=b?nc:c; std::shared_ptr<Model> m; Res r=query(other,m);
    if(r==UNSAT) return b; if(r==UNKNOWN){ st.unk++; counters["unknown_branches"]++; }
    dbg_fork("br",c); push_choice(other,r==SAT?m:nullptr,-1); addpc(mine); return b; }
  std::shared_ptr<Model> m1,m2; Res r1=query(c,m1),r2=query(nc,m2);
  if(r1==UNSAT&&r2==UNSAT) path_end(PE_INFEASIBLE); if(r1==UNSAT) return false; if(r2==UNSAT) return true;
  push_choice(nc,r2==SAT?m2:nullptr,-1); addpc(c); if(r1==SAT){ st.model=m1; st.model_ok=true; } return true;
}
u64 concretize(V v,int w){
  if(isconc(v)) return v.e?v.e->lo:v.c;
  ensure_model(); u64 v0=model_val(v.e)&m64(w); Expr*eq=mk_eq(v.e,mkc(v0,w)); std::shared_ptr<Model> m; Expr*ne=mk_not(eq);
  if(pc_has(eq)) return v0;
  Res r=query(ne,m); if(r==UNSAT){ return v0; } counters["concretized"]++; dbg_fork("conc",v.e); push_choice(ne,r==SAT?m:nullptr,-1); addpc(eq); return v0;
}
int choose(int n){ int k=0; if(pending_alt>=0){ k=pending_alt; pending_alt=-1; } if(k+1<n) push_choice(nullptr,nullptr,k+1); return k; }
void assume(Expr*c){
  if(c->isc()){ if(!c->lo) path_end(PE_INFEASIBLE); return; } if(model_sat(c)){ addpc(c); return; }
  std::shared_ptr<Model> m; Res r=query(c,m); if(r==UNSAT) path_end(PE_INFEASIBLE); addpc(c); if(r==SAT){ st.model=m; st.model_ok=true; } else { st.model_ok=false; st.unk++; }
}
bool may(Expr*c,Model*mo){ std::shared_ptr<Model> m; Res r=query(c,m); if(r==SAT&&mo&&m) *mo=*m; return r!=UNSAT; }
static std::map<std::string,int> reported;
static std::string where(){ std::string r; for(int i=(int)st.frames.size()-1,k=0;i>=0&&k<8;i--,k++){ if(k) r+=" < "; r+=st.frames[i].f->name; } return r; }
std::string backtrace_str(){ return where(); }
std::string choices_json(){ std::string s="["; for(size_t i=0;i<st.log.size();i++) s+=(i?",":"")+std::to_string(st.log[i]); return s+"]"; }
void report(const std::string&kind,const std::string&msg,const Model&m){
  std::string key=cur_fn+"|"+kind+"|"+msg; counters["violations"]++; if(reported[key]++>=(int)optn("max_reports",1)) return;
  emit("{\"type\":\"violation\",\"job\":"+jesc(cur_job)+",\"fn\":"+jesc(cur_fn)+",\"kind\":"+jesc(kind)+",\"msg\":"+jesc(msg)+",\"where\":"+jesc(where())+",\"unk\":"+std::to_string(st.unk)+",\"choices\":"+choices_json()+",\"model\":"+model_json(m)+"}");
}
int check_assert(Expr*c,const std::string&msg,const std::string&kind){
  counters["asserts"]++; if(c->isc()&&c->lo) return 1;
  std::shared_ptr<Model> m; Expr*nc=mk_not(c); Res r=query(nc,m); if(r==UNSAT) return 1;
  if(r==UNKNOWN){ counters["undecided"]++; emit("{\"type\":\"undecided\",\"job\":"+jesc(cur_job)+",\"fn\":"+jesc(cur_fn)+",\"msg\":"+jesc(msg)+"}"); return 2; }
  // a complete model, for the replay
  Model mm; if(m) mm=*m; if(!st.model_ok){ std::vector<Expr*> q=st.pc; q.push_back(nc); solve(q,&mm); }
  report(kind,msg,mm); return 0;
}
static std::map<std::string,int> fresh_n;
Expr*fresh(const std::string&n,int w){ return mkvar(n,w); }
static std::map<std::string,Expr*> named; 
Expr*named_byte(const std::string&n){ auto it=named.find(n); if(it!=named.end()) return it->second; Expr*e=mkvar(n,8); named[n]=e; return e; }
std::vector<std::pair<Expr*,int>> placeholders;

// ================================================================ loading bitcode
static int tw(const DataLayout&dl,Type*t){
  if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isPointerTy()) return 64; if(t->isFloatTy()) return 32; if(t->isDoubleTy()) return 64; if(t->isX86_FP80Ty()) return 80; if(t->isVoidTy()) return 0;
  if(auto*v=dyn_cast<FixedVectorType>(t)) return tw(dl,v->getElementType())*v->getNumElements();
  if(auto*s=dyn_cast<StructType>(t)){ int r=0; for(Type*e:s->elements()) r+=tw(dl,e); return r; }
  if(auto*a=dyn_cast<ArrayType>(t)) return tw(dl,a->getElementType())*a->getNumElements();
  return 64;
}
static int tcls(Type*t){ if(t->isFloatTy()||t->isDoubleTy()||t->isVectorTy()) return 1; if(t->isX86_FP80Ty()) return 2; return 0; }
static u64 gaddr(::Module*m,const GlobalValue*gv){
  if(auto*f=dyn_cast<Function>(gv)) return get_func(m,f->getName().str())->addr;
  if(auto*a=dyn_cast<GlobalAlias>(gv)) return gaddr(m,cast<GlobalValue>(a->getAliasee()));
  return m->globals[gv->getName().str()].addr;
}
static const DataLayout&DL(::Module*m){ return ((llvm::Module*)m->llvm)->getDataLayout(); }
static u128 const_val(::Module*m,const Constant*c);
static void write_const(::Module*m,u64 a,const Constant*c){
  const DataLayout&dl=DL(m);
  if(isa<ConstantAggregateZero>(c)||isa<ConstantPointerNull>(c)||isa<UndefValue>(c)) return;
  if(auto*d=dyn_cast<ConstantDataSequential>(c)){ StringRef r=d->getRawDataValues(); memcpy((void*)a,r.data(),r.size()); return; }
  if(auto*s=dyn_cast<ConstantStruct>(c)){ const StructLayout*l=dl.getStructLayout(s->getType()); for(unsigned i=0;i<s->getNumOperands();i++) write_const(m,a+l->getElementOffset(i),s->getOperand(i)); return; }
  if(auto*s=dyn_cast<ConstantArray>(c)){ u64 es=dl.getTypeAllocSize(s->getType()->getElementType()); for(unsigned i=0;i<s->getNumOperands();i++) write_const(m,a+es*i,s->getOperand(i)); return; }
  if(isa<ConstantVector>(c)){ u64 es=dl.getTypeAllocSize(cast<VectorType>(c->getType())->getElementType()); for(unsigned i=0;i<c->getNumOperands();i++) write_const(m,a+es*i,cast<Constant>(c->getOperand(i))); return; }
  u128 v=const_val(m,c); u64 n=dl.getTypeStoreSize(c->getType()); memcpy((void*)a,&v,std::min<u64>(n,16));
}
static u128 const_val(::Module*m,const Constant*c){
  const DataLayout&dl=DL(m);
  if(auto*i=dyn_cast<ConstantInt>(c)){ const APInt&x=i->getValue(); u128 v=x.getRawData()[0]; if(x.getNumWords()>1) v|=(u128)x.getRawData()[1]<<64; return v; }
  if(auto*f=dyn_cast<ConstantFP>(c)){ APInt x=f->getValueAPF().bitcastToAPInt(); u128 v=x.getRawData()[0]; if(x.getNumWords()>1) v|=(u128)x.getRawData()[1]<<64; return v; }
  if(isa<ConstantPointerNull>(c)||isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)) return 0;
  if(auto*g=dyn_cast<GlobalValue>(c)) return gaddr(m,g);
  if(auto*ag=dyn_cast<ConstantAggregate>(c)){ u128 r=0; int o=0; for(unsigned i=0;i<ag->getNumOperands();i++){ r|=const_val(m,ag->getOperand(i))<<o; o+=tw(dl,ag->getOperand(i)->getType()); } return r; }
  if(auto*d=dyn_cast<ConstantDataSequential>(c)){ u128 r=0; StringRef s=d->getRawDataValues(); memcpy(&r,s.data(),std::min<size_t>(16,s.size())); return r; }
  if(auto*e=dyn_cast<ConstantExpr>(c)){
    switch(e->getOpcode()){
    case Instruction::GetElementPtr: { APInt off(64,0); cast<GEPOperator>(e)->accumulateConstantOffset(dl,off); return (u64)((u64)const_val(m,e->getOperand(0))+off.getSExtValue()); }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: return const_val(m,e->getOperand(0))&wmask(tw(dl,e->getType()));
    case Instruction::Add: return (const_val(m,e->getOperand(0))+const_val(m,e->getOperand(1)))&wmask(tw(dl,e->getType()));
    case Instruction::Sub: return (const_val(m,e->getOperand(0))-const_val(m,e->getOperand(1)))&wmask(tw(dl,e->getType()));
    case Instruction::Mul: return (const_val(m,e->getOperand(0))*const_val(m,e->getOperand(1)))&wmask(tw(dl,e->getType()));
    case Instruction::Trunc: return const_val(m,e->getOperand(0))&wmask(tw(dl,e->getType()));
    case Instruction::ICmp: { u64 a=const_val(m,e->getOperand(0)),b=const_val(m,e->getOperand(1)); return e->getPredicate()==CmpInst::ICMP_EQ?a==b:e->getPredicate()==CmpInst::ICMP_NE?a!=b:e->getPredicate()==CmpInst::ICMP_ULT?a<b:e->getPredicate()==CmpInst::ICMP_UGT?a>b:0; }
    default: break; } }
  std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr,"unsupported constant %s\n",os.str().c_str()); exit(96);
}
static Func*new_func(::Module*m,const std::string&n,void*lf){
  Func*f=new Func; f->name=n; f->mod=m; f->llvm=lf; f->addr=alloc_mem(16,AK_FUNC,16,true,true); func_by_addr[f->addr]=f; m->funcs[n]=f; return f;
}
Func*get_func(::Module*m,const std::string&n){ auto it=m->funcs.find(n); if(it==m->funcs.end()) return nullptr; return it->second; }
bool func_internal(Func*f){ return ((Function*)f->llvm)->hasLocalLinkage(); }
static Func*main_libfunc(const std::string&n){ return mainmod?get_func(mainmod,n):nullptr; }
::Module*load_module(const std::string&path,bool ref,const std::vector<std::string>&){
  auto*ctx=new LLVMContext; SMDiagnostic err; std::unique_ptr<llvm::Module> lm=parseIRFile(path,err,*ctx);
  if(!lm){ fprintf(stderr,"cannot read %s: %s\n",path.c_str(),err.getMessage().str().c_str()); exit(96); }
  auto*m=new ::Module; m->name=path; m->llvm=lm.release(); m->ctx=ctx; m->ref=ref; modules.push_back(m); auto*L=(llvm::Module*)m->llvm; const DataLayout&dl=L->getDataLayout();
  for(Function&f:*L){ auto*F=new_func(m,f.getName().str(),&f); F->vararg=f.isVarArg(); F->external=f.isDeclaration(); F->retw=tw(dl,f.getReturnType());
    F->retext=f.getAttributes().hasRetAttr(Attribute::SExt)?1:f.getAttributes().hasRetAttr(Attribute::ZExt)?2:0; F->retfp=tcls(f.getReturnType())==1;
    for(Argument&a:f.args()){ Param p; p.w=tw(dl,a.getType()); p.ext=a.hasSExtAttr()?1:a.hasZExtAttr()?2:0; p.byval=a.hasByValAttr(); p.bsize=p.byval?(u64)dl.getTypeAllocSize(a.getParamByValType()):0; p.cls=tcls(a.getType()); F->params.push_back(p); }
    if(F->external) F->ext_id=ext_lookup(F->name); }
  for(GlobalVariable&g:L->globals()){ Global G; G.name=g.getName().str(); G.size=dl.getTypeAllocSize(g.getValueType()); G.llvm=&g; G.constant=g.isConstant(); G.internal=g.hasLocalLinkage(); G.external=g.isDeclaration();
    G.addr=alloc_mem(G.size,AK_GLOBAL,std::max<u64>(g.getAlign()?g.getAlign()->value():1,16),true,false); m->globals[G.name]=G; }
  for(GlobalVariable&g:L->globals()) if(g.hasInitializer()){ Global&G=m->globals[g.getName().str()]; write_const(m,G.addr,g.getInitializer()); if(G.constant) for(u64 i=0;i<G.size;i++) shadow[G.addr-ABASE+i]|=SH_RO; }
  return m;
}
// ================================================================ translation
enum X : u16 { I_BIN, I_FBIN, I_FNEG, I_ICMP, I_FCMP, I_LOAD, I_STORE, I_LOADA, I_STOREA, I_GEP, I_ALLOCA, I_TRUNC, I_ZEXT, I_SEXT, I_FPCVT, I_FPTOSI, I_FPTOUI, I_SITOFP, I_UITOFP, I_MOV, I_SELECT, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_EXTRACT, I_INSERT, I_UNREACH };
struct GepX { i64 off; struct T { int o; int w; i64 scale; }; std::vector<T> t; };
struct CallX { Func*f; int fop; std::vector<int> args; std::vector<int> ws,cls; std::vector<u64> byval; };
struct SwX { std::vector<std::pair<u64,int>> cases; int def; std::vector<std::pair<int,std::vector<u64>>> groups; };
struct AggX { std::vector<std::pair<u64,int>> e; };   // memory offset and width of each element
static void flatten(const DataLayout&dl,Type*t,u64 off,AggX*x){
  if(auto*s=dyn_cast<StructType>(t)){ auto*l=dl.getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) flatten(dl,s->getElementType(i),off+l->getElementOffset(i),x); return; }
  if(auto*a=dyn_cast<ArrayType>(t)){ u64 es=dl.getTypeAllocSize(a->getElementType()); for(u64 i=0;i<a->getNumElements();i++) flatten(dl,a->getElementType(),off+es*i,x); return; }
  x->e.push_back({off,tw(dl,t)});
}
static void translate(Func*f){
  if(f->translated) return; f->translated=true; called_funcs.insert(f->name);
  auto*F=(Function*)f->llvm; ::Module*m=f->mod; const DataLayout&dl=DL(m);
  std::unordered_map<const Value*,int> reg; std::unordered_map<const Constant*,int> cidx; int n=0;
  for(Argument&a:F->args()) reg[&a]=n++;
  for(BasicBlock&b:*F) for(Instruction&i:b) if(!i.getType()->isVoidTy()) reg[&i]=n++;
  f->nregs=n;
  auto opnd=[&](const Value*v)->int{ if(auto*c=dyn_cast<Constant>(v)){ auto it=cidx.find(c); if(it!=cidx.end()) return it->second; int w=tw(dl,c->getType()); u128 x=const_val(m,c)&wmask(w); V val= w<=64?vc((u64)x):V{0,mkc(x,w)}; f->consts.push_back(val); int id=~(int)(f->consts.size()-1); cidx[c]=id; return id; }
    auto it=reg.find(v); if(it==reg.end()){ f->consts.push_back(vc(0)); return ~(int)(f->consts.size()-1); } return it->second; };
  std::unordered_map<const BasicBlock*,int> bpc; std::vector<std::pair<int,const BasicBlock*>> fix;
  auto edge=[&](const BasicBlock*from,const BasicBlock*to)->int{ Edge e; e.pc=-1; for(const PHINode&p:to->phis()){ int s=opnd(p.getIncomingValueForBlock(from)); int d=reg[&p]; if(s!=d) e.copies.push_back({d,s}); } f->edges.push_back(e); fix.push_back({(int)f->edges.size()-1,to}); return f->edges.size()-1; };
  for(BasicBlock&b:*F){ bpc[&b]=f->code.size();
    for(Instruction&i:b){ if(isa<PHINode>(i)) continue;
      Inst x; memset(&x,0,sizeof x); x.dst=i.getType()->isVoidTy()?-1:reg[&i]; x.w=tw(dl,i.getType());
      if(auto*bo=dyn_cast<BinaryOperator>(&i)){ x.a=opnd(bo->getOperand(0)); x.b=opnd(bo->getOperand(1)); x.op=I_BIN;
        switch(bo->getOpcode()){ case Instruction::Add: x.sub=ADD; break; case Instruction::Sub: x.sub=SUB; break; case Instruction::Mul: x.sub=MUL; break; case Instruction::UDiv: x.sub=UDIV; break; case Instruction::SDiv: x.sub=SDIV; break; case Instruction::URem: x.sub=UREM; break; case Instruction::SRem: x.sub=SREM; break;
          case Instruction::And: x.sub=AND; break; case Instruction::Or: x.sub=OR; break; case Instruction::Xor: x.sub=XOR; break; case Instruction::Shl: x.sub=SHL; break; case Instruction::LShr: x.sub=LSHR; break; case Instruction::AShr: x.sub=ASHR; break;
          case Instruction::FAdd: x.op=I_FBIN; x.sub=FADD; break; case Instruction::FSub: x.op=I_FBIN; x.sub=FSUB; break; case Instruction::FMul: x.op=I_FBIN; x.sub=FMUL; break; case Instruction::FDiv: x.op=I_FBIN; x.sub=FDIV; break; default: x.op=I_UNREACH; }
      } else switch(i.getOpcode()){
      case Instruction::FNeg: x.op=I_FNEG; x.a=opnd(i.getOperand(0)); break;
      case Instruction::ICmp: x.op=I_ICMP; x.sub=cast<CmpInst>(i).getPredicate(); x.a=opnd(i.getOperand(0)); x.b=opnd(i.getOperand(1)); x.w2=tw(dl,i.getOperand(0)->getType()); break;
      case Instruction::FCmp: x.op=I_FCMP; x.sub=cast<CmpInst>(i).getPredicate(); x.a=opnd(i.getOperand(0)); x.b=opnd(i.getOperand(1)); x.w2=tw(dl,i.getOperand(0)->getType()); break;
      case Instruction::Load: if(i.getType()->isAggregateType()){ x.op=I_LOADA; auto*ax=new AggX; flatten(dl,i.getType(),0,ax); x.x=ax; } else { x.op=I_LOAD; x.w2=dl.getTypeStoreSize(i.getType()); } x.a=opnd(i.getOperand(0)); break;
      case Instruction::Store: { Type*t=i.getOperand(0)->getType(); x.w=tw(dl,t); if(t->isAggregateType()){ x.op=I_STOREA; auto*ax=new AggX; flatten(dl,t,0,ax); x.x=ax; } else { x.op=I_STORE; x.w2=dl.getTypeStoreSize(t);} x.a=opnd(i.getOperand(0)); x.b=opnd(i.getOperand(1)); break; }
      case Instruction::GetElementPtr: { auto&g=cast<GetElementPtrInst>(i); x.op=I_GEP; x.a=opnd(g.getPointerOperand()); auto*gx=new GepX; gx->off=0;
        for(gep_type_iterator it=gep_type_begin(g),e=gep_type_end(g);it!=e;++it){ Value*idx=it.getOperand(); if(StructType*s=it.getStructTypeOrNull()){ gx->off+=dl.getStructLayout(s)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); }
          else { i64 sc=dl.getTypeAllocSize(it.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(idx)) gx->off+=sc*ci->getSExtValue(); else gx->t.push_back({opnd(idx),tw(dl,idx->getType()),sc}); } }
        x.x=gx; break; }
      case Instruction::Alloca: { auto&a=cast<AllocaInst>(i); x.op=I_ALLOCA; x.a=opnd(a.getArraySize()); x.x=(void*)(u64)dl.getTypeAllocSize(a.getAllocatedType()); x.b=a.getAlign().value(); break; }
      case Instruction::Trunc: x.op=I_TRUNC; goto cast; case Instruction::ZExt: x.op=I_ZEXT; goto cast; case Instruction::SExt: x.op=I_SEXT; goto cast;
      case Instruction::FPTrunc: case Instruction::FPExt: x.op=I_FPCVT; goto cast; case Instruction::FPToSI: x.op=I_FPTOSI; goto cast; case Instruction::FPToUI: x.op=I_FPTOUI; goto cast; case Instruction::SIToFP: x.op=I_SITOFP; goto cast; case Instruction::UIToFP: x.op=I_UITOFP; goto cast;
      case Instruction::BitCast: case Instruction::Freeze: x.op=I_MOV; goto cast;
      case Instruction::PtrToInt: x.op=x.w<64?I_TRUNC:I_MOV; goto cast; case Instruction::IntToPtr: x.op=tw(dl,i.getOperand(0)->getType())<64?I_ZEXT:I_MOV; goto cast;
      cast: x.a=opnd(i.getOperand(0)); x.w2=tw(dl,i.getOperand(0)->getType()); break;
      case Instruction::Select: x.op=I_SELECT; x.a=opnd(i.getOperand(0)); x.b=opnd(i.getOperand(1)); x.c=opnd(i.getOperand(2)); break;
      case Instruction::Br: { auto&br=cast<BranchInst>(i); if(br.isConditional()){ x.op=I_CBR; x.a=opnd(br.getCondition()); x.b=edge(&b,br.getSuccessor(0)); x.c=edge(&b,br.getSuccessor(1)); } else { x.op=I_BR; x.b=edge(&b,br.getSuccessor(0)); } break; }
      case Instruction::Switch: { auto&s=cast<SwitchInst>(i); x.op=I_SWITCH; x.a=opnd(s.getCondition()); x.w2=tw(dl,s.getCondition()->getType()); auto*sx=new SwX; std::map<const BasicBlock*,int> ed; auto E1=[&](const BasicBlock*t){ auto it=ed.find(t); if(it!=ed.end()) return it->second; return ed[t]=edge(&b,t); };
        sx->def=E1(s.getDefaultDest()); std::map<int,std::vector<u64>> g; for(auto&c:s.cases()){ int e=E1(c.getCaseSuccessor()); u64 v=c.getCaseValue()->getZExtValue(); sx->cases.push_back({v,e}); g[e].push_back(v); } for(auto&kv:g) sx->groups.push_back(kv); x.x=sx; break; }
      case Instruction::Ret: x.op=I_RET; if(i.getNumOperands()){ x.a=opnd(i.getOperand(0)); x.w=tw(dl,i.getOperand(0)->getType()); } else { x.w=0; } break;
      case Instruction::Unreachable: x.op=I_UNREACH; break;
      case Instruction::ExtractValue: case Instruction::InsertValue: { bool ins=isa<InsertValueInst>(i); Type*at=i.getOperand(0)->getType(); unsigned idx=ins?cast<InsertValueInst>(i).getIndices()[0]:cast<ExtractValueInst>(i).getIndices()[0]; int o=0; for(unsigned k=0;k<idx;k++) o+=tw(dl,isa<StructType>(at)?cast<StructType>(at)->getElementType(k):cast<ArrayType>(at)->getElementType());
        x.op=ins?I_INSERT:I_EXTRACT; x.a=opnd(i.getOperand(0)); x.w2=tw(dl,at); x.c=o; if(ins){ x.b=opnd(i.getOperand(1)); x.sub=tw(dl,i.getOperand(1)->getType()); } break; }
      case Instruction::Call: { auto&c=cast<CallInst>(i); auto*cx=new CallX; cx->f=nullptr; cx->fop=0; x.op=I_CALL;
        if(auto*ii=dyn_cast<IntrinsicInst>(&i)){ auto id=ii->getIntrinsicID(); if(id==Intrinsic::lifetime_start||id==Intrinsic::lifetime_end||id==Intrinsic::dbg_declare||id==Intrinsic::dbg_value||id==Intrinsic::assume||id==Intrinsic::experimental_noalias_scope_decl) { delete cx; continue; } }
        if(c.isInlineAsm()){ x.op=I_UNREACH; break; }
        if(auto*fn=dyn_cast<Function>(c.getCalledOperand()->stripPointerCasts())) cx->f=get_func(m,fn->getName().str()); else cx->fop=opnd(c.getCalledOperand());
        for(unsigned k=0;k<c.arg_size();k++){ cx->args.push_back(opnd(c.getArgOperand(k))); cx->ws.push_back(tw(dl,c.getArgOperand(k)->getType())); int cls=tcls(c.getArgOperand(k)->getType()); if(c.paramHasAttr(k,Attribute::ByVal)){ cx->byval.push_back(dl.getTypeAllocSize(c.getParamByValType(k))); cls=c.getParamAlign(k).valueOrOne().value()>8?5:3; } else cx->byval.push_back(0); cx->cls.push_back(cls); }
        x.x=cx; break; }
      default: { std::string s; raw_string_ostream os(s); i.print(os); fprintf(stderr,"unsupported instruction %s\n",os.str().c_str()); x.op=I_UNREACH; x.sub=1; } }
      f->code.push_back(x); } }
  for(auto&p:fix) f->edges[p.first].pc=bpc[p.second];
}
// ================================================================ interpretation
static inline V vbin(int op,V a,V b,int w){
  if(!a.e&&!b.e&&w<=64){ u64 x=a.c,y=b.c,m=m64(w),r;
    switch(op){ case ADD: r=x+y; break; case SUB: r=x-y; break; case MUL: r=x*y; break; case AND: r=x&y; break; case OR: r=x|y; break; case XOR: r=x^y; break;
      case SHL: r= y>=(u64)w?0:x<<y; break; case LSHR: r= y>=(u64)w?0:x>>y; break; case ASHR: { i64 s=(i64)(x<<(64-w))>>(64-w); r=s>>(y>=(u64)w?w-1:y); break; }
      case UDIV: r=y?x/y:m; break; case UREM: r=y?x%y:x; break;
      case SDIV: { i64 p=(i64)(x<<(64-w))>>(64-w),q=(i64)(y<<(64-w))>>(64-w); r= !q?m:q==-1?-(u64)p:(u64)(p/q); break; }
      case SREM: { i64 p=(i64)(x<<(64-w))>>(64-w),q=(i64)(y<<(64-w))>>(64-w); r= !q?x:q==-1?0:(u64)(p%q); break; }
      default: r=0; }
    return vc(r&m); }
  return fromE(mk2((Op)op,E(a,w),E(b,w)));
}
static V vicmp(int p,V a,V b,int w){
  if(!a.e&&!b.e){ u64 x=a.c,y=b.c; i64 s=(i64)(x<<(64-w))>>(64-w),t=(i64)(y<<(64-w))>>(64-w); bool r;
    switch(p){ case CmpInst::ICMP_EQ: r=x==y; break; case CmpInst::ICMP_NE: r=x!=y; break; case CmpInst::ICMP_UGT: r=x>y; break; case CmpInst::ICMP_UGE: r=x>=y; break; case CmpInst::ICMP_ULT: r=x<y; break; case CmpInst::ICMP_ULE: r=x<=y; break; case CmpInst::ICMP_SGT: r=s>t; break; case CmpInst::ICMP_SGE: r=s>=t; break; case CmpInst::ICMP_SLT: r=s<t; break; default: r=s<=t; }
    return vc(r); }
  Expr*x=E(a,w),*y=E(b,w);
  switch(p){ case CmpInst::ICMP_EQ: return fromE(mk_eq(x,y)); case CmpInst::ICMP_NE: return fromE(mk_not(mk_eq(x,y))); case CmpInst::ICMP_UGT: return fromE(mk2(ULT,y,x)); case CmpInst::ICMP_UGE: return fromE(mk2(ULE,y,x)); case CmpInst::ICMP_ULT: return fromE(mk2(ULT,x,y)); case CmpInst::ICMP_ULE: return fromE(mk2(ULE,x,y));
    case CmpInst::ICMP_SGT: return fromE(mk2(SLT,y,x)); case CmpInst::ICMP_SGE: return fromE(mk2(SLE,y,x)); case CmpInst::ICMP_SLT: return fromE(mk2(SLT,x,y)); default: return fromE(mk2(SLE,x,y)); }
}
static V vfcmp(int p,V a,V b,int w){
  Expr*x=E(a,w),*y=E(b,w); Expr*un=mk2(FUNO,x,y);
  switch(p){ case CmpInst::FCMP_FALSE: return vc(0); case CmpInst::FCMP_TRUE: return vc(1); case CmpInst::FCMP_OEQ: return fromE(mk2(FEQ,x,y)); case CmpInst::FCMP_OGT: return fromE(mk2(FLT,y,x)); case CmpInst::FCMP_OGE: return fromE(mk2(FLE,y,x)); case CmpInst::FCMP_OLT: return fromE(mk2(FLT,x,y)); case CmpInst::FCMP_OLE: return fromE(mk2(FLE,x,y)); case CmpInst::FCMP_ONE: return fromE(mk_not(mk_or1(un,mk2(FEQ,x,y)))); case CmpInst::FCMP_ORD: return fromE(mk_not(un)); case CmpInst::FCMP_UNO: return fromE(un);
    case CmpInst::FCMP_UEQ: return fromE(mk_or1(un,mk2(FEQ,x,y))); case CmpInst::FCMP_UNE: return fromE(mk_not(mk2(FEQ,x,y))); case CmpInst::FCMP_UGT: return fromE(mk_or1(un,mk2(FLT,y,x))); case CmpInst::FCMP_UGE: return fromE(mk_or1(un,mk2(FLE,y,x))); case CmpInst::FCMP_ULT: return fromE(mk_or1(un,mk2(FLT,x,y))); default: return fromE(mk_or1(un,mk2(FLE,x,y))); }
}
void push_frame(Func*f,CallArgs&a,int retdst){
  translate(f); f->calls++; if(st.frames.size()>(size_t)optn("max_frames",20000)) path_error("call depth: unbounded recursion");
  Frame fr; fr.f=f; fr.pc=0; fr.retdst=retdst; fr.base=st.regs.size(); fr.stacksave=st.stack; fr.va=0;
  st.regs.resize(fr.base+f->nregs,vc(0)); int np=f->params.size();
  for(int i=0;i<np&&i<a.n;i++){ V v=a.v[i]; if(f->params[i].byval){ u64 p=alloc_mem(f->params[i].bsize,AK_STACK,16); mem_copy(p,concretize(v,64),f->params[i].bsize); v=vc(p); } st.regs[fr.base+i]=v; }
  if(f->vararg){ // System V register save area and overflow area
    u64 ovn=0; for(int i=0;i<a.n;i++) ovn+= a.cls[i]==3||a.cls[i]==5?((a.w[i]+31)&~15):16; u64 area=alloc_mem(176+24+ovn+16,AK_STACK,16); int gp=0,fp=0; u64 ov=area+208; 
    for(int i=0;i<a.n;i++){ bool nm=i<np; if(a.cls[i]==0&&gp<6){ if(!nm) wr(area+gp*8,8,a.w[i]<64?fromE(mk_zext(E(a.v[i],a.w[i]),64)):a.v[i]); gp++; } else if(a.cls[i]==1&&fp<8){ if(!nm){ V v=a.v[i]; if(a.w[i]<64&&v.e) v=fromE(mk_zext(v.e,64)); wr(area+48+fp*16,8,v);} fp++; }
      else if(a.cls[i]==2){ ov=(ov+15)&~15ull; if(!nm) wr(ov,10,a.v[i]); if(!nm) ov+=16; } else if(a.cls[i]==3||a.cls[i]==5){ u64 n=a.w[i]; if(a.cls[i]==5) ov=(ov+15)&~15ull; if(!nm){ mem_copy(ov,concretize(a.v[i],64),n); ov+=(n+7)&~7ull; } } else { if(!nm){ wr(ov,8,a.w[i]<64?fromE(mk_zext(E(a.v[i],a.w[i]),64)):a.v[i]); ov+=8; } } }
    wr(area+176,4,vc(std::min<int>(gp,6)*8)); // gp_offset as va_start must see it: count of named only
    int ng=0,nf=0; for(int i=0;i<np&&i<a.n;i++){ if(a.cls[i]==0&&ng<6) ng++; else if(a.cls[i]==1&&nf<8) nf++; }
    wr(area+176,4,vc(ng*8)); wr(area+180,4,vc(48+nf*16)); wr(area+184,8,vc(area+208)); wr(area+192,8,vc(area)); fr.va=area+176; }
  st.frames.push_back(fr);
}
static void pop_frame(){ Frame&fr=st.frames.back(); st.regs.resize(fr.base);
  if(st.stack>fr.stacksave){ log_range(fr.stacksave,st.stack-fr.stacksave); memset(shadow+(fr.stacksave-ABASE),0,st.stack-fr.stacksave); st.stack=fr.stacksave; } st.frames.pop_back(); }
static Expr*fpc(long double d,int w){ u128 v=0; if(w==32){ float f=d; memcpy(&v,&f,4);} else if(w==64){ double f=d; memcpy(&v,&f,8);} else memcpy(&v,&d,10); return mkc(v,w); }
static V fptoint(V a,int fw,int w,bool uns){
  Expr*x=E(a,fw); if(st.mode==1){ // conversion of a value out of range is undefined
      long double lim=ldexpl(1.0L,uns?w:w-1); assume(mk2(FLT,x,fpc(lim,fw))); long double lo=uns?-1.0L:-lim-1; bool rep= fw==80||uns||(fw==64&&w<=32)||(fw==32&&w<=16); assume(rep?mk2(FLT,fpc(lo,fw),x):mk2(FLE,fpc(-lim,fw),x)); }
  if(!uns){ if(w<=32) return fromE(mk_extract(mk_fp1(FTOSI,x,32,3),0,w)); return fromE(mk_fp1(FTOSI,x,w,3)); }
  if(w<=16) return fromE(mk_extract(mk_fp1(FTOSI,x,32,3),0,w)); if(w==32) return fromE(mk_extract(mk_fp1(FTOSI,x,64,3),0,w));
  return fromE(mk_fp1(FTOUI,x,w,3));
}
static void do_return(V v,bool has){
  int rd=st.frames.back().retdst; pop_frame();
  if(st.frames.empty()){ if(st.mode==1){ tv_ref_return(v); return; } tv_exit(has?(int)concretize(v,32):0); return; }
  Frame&c=st.frames.back(); if(rd>=0) st.regs[c.base+rd]=v; c.pc++;
}
void tv_drive(); void tv_nonterm();
static u64 max_steps=0;
static void run_path(){
  for(;;){
    if(st.mode==2){ instr_trail=trail.size(); if(++st.steps>max_steps) path_end(PE_LIMIT,"step bound"); if(st.steps>st.asm_limit) tv_nonterm(); x86_step(); continue; }
    if(st.mode==3){ instr_trail=trail.size(); tv_drive(); continue; }
    Frame*fr=&st.frames.back(); Func*f=fr->f; V*R=st.regs.data()+fr->base; const V*C=f->consts.data(); const Inst*code=f->code.data();
#define OP(i) ((i)>=0?R[i]:C[~(i)])
    for(;;){
      const Inst&x=code[fr->pc]; instr_trail=trail.size();
      if(++st.steps>max_steps) path_end(PE_LIMIT,"step bound in "+f->name);
      switch(x.op){
      case I_BIN: { V a=OP(x.a),b=OP(x.b);
        if(x.sub>=UDIV&&x.sub<=SREM){ if(!truth(b,x.w)){ if(st.mode==1) path_end(PE_INFEASIBLE,"ub"); path_error("division by zero"); }
          if(x.sub==SDIV||x.sub==SREM){ Expr*ov=mk_and1(mk_eq(E(a,x.w),mkc((u128)1<<(x.w-1),x.w)),mk_eq(E(b,x.w),mkc(~(u128)0,x.w))); if(branch(ov)){ if(st.mode==1) path_end(PE_INFEASIBLE,"ub"); if(x.w>=32) path_error("signed division overflow (traps)"); } } }
        if(x.sub>=SHL&&x.sub<=ASHR&&x.w>1){ Expr*ov=mk2(ULE,mkc(x.w,x.w),E(b,x.w)); if(st.mode==1){ if(!ov->isc()||ov->lo) assume(mk_not(ov)); }
          else if(!b.e){ if(b.c>=x.w){ b.c&=(x.w<=32?31:63); counters["big_shifts"]++; } } else if(x.w==32||x.w==64){ b=fromE(mk2(AND,E(b,x.w),mkc(x.w-1,x.w))); } }
        R[x.dst]=vbin(x.sub,a,b,x.w); fr->pc++; break; }
      case I_FBIN: { V a=OP(x.a),b=OP(x.b); R[x.dst]=fromE(mk2((Op)x.sub,E(a,x.w),E(b,x.w))); fr->pc++; break; }
      case I_FNEG: { V a=OP(x.a); R[x.dst]=fromE(mk2(XOR,E(a,x.w),mkc((u128)1<<(x.w-1),x.w))); fr->pc++; break; }
      case I_ICMP: R[x.dst]=vicmp(x.sub,OP(x.a),OP(x.b),x.w2); fr->pc++; break;
      case I_FCMP: R[x.dst]=vfcmp(x.sub,OP(x.a),OP(x.b),x.w2); fr->pc++; break;
      case I_LOAD: { V v=mem_read(OP(x.a),x.w2,x.w); R[x.dst]=v; fr->pc++; break; }
      case I_STORE: mem_write(OP(x.b),OP(x.a),x.w2,x.w); fr->pc++; break;
      case I_LOADA: { u64 p=concretize(OP(x.a),64); Expr*r=nullptr; for(auto&e:((AggX*)x.x)->e){ Expr*v=E(rd(p+e.first,(e.second+7)/8),(e.second+7)/8*8); v=mk_extract(v,0,e.second); r=r?mk_concat(v,r):v; } R[x.dst]=fromE(r); fr->pc++; break; }
      case I_STOREA: { u64 p=concretize(OP(x.b),64); Expr*v=E(OP(x.a),x.w); int o=0; for(auto&e:((AggX*)x.x)->e){ wr(p+e.first,(e.second+7)/8,fromE(mk_zext(mk_extract(v,o,e.second),(e.second+7)/8*8))); o+=e.second; } fr->pc++; break; }
      case I_GEP: { auto*g=(GepX*)x.x; V b=OP(x.a); if(g->t.empty()){ if(!b.e) R[x.dst]=vc(b.c+g->off); else R[x.dst]=fromE(mk2(ADD,b.e,mkc(g->off,64))); fr->pc++; break; }
        u64 acc=g->off; Expr*se=nullptr; for(auto&t:g->t){ V i=OP(t.o); if(!i.e) acc+=(u64)((i64)(i.c<<(64-t.w))>>(64-t.w))*t.scale; else { Expr*e=mk2(MUL,mk_sext(i.e,64),mkc(t.scale,64)); se=se?mk2(ADD,se,e):e; } }
        if(!b.e&&!se) R[x.dst]=vc(b.c+acc); else { Expr*e=mk2(ADD,E(b,64),mkc(acc,64)); if(se) e=mk2(ADD,e,se); R[x.dst]=fromE(e); } fr->pc++; break; }
      case I_ALLOCA: { u64 n=concretize(OP(x.a),64); R[x.dst]=vc(alloc_mem(n*(u64)x.x,AK_STACK,x.b)); fr->pc++; break; }
      case I_TRUNC: { V a=OP(x.a); R[x.dst]=a.e?fromE(mk_extract(a.e,0,x.w)):vc(a.c&m64(x.w)); fr->pc++; break; }
      case I_ZEXT: { V a=OP(x.a); if(a.e||x.w>64) R[x.dst]=fromE(mk_zext(E(a,x.w2),x.w)); else R[x.dst]=a; fr->pc++; break; }
      case I_SEXT: { V a=OP(x.a); if(a.e||x.w>64) R[x.dst]=fromE(mk_sext(E(a,x.w2),x.w)); else R[x.dst]=vc((u64)((i64)(a.c<<(64-x.w2))>>(64-x.w2))&m64(x.w)); fr->pc++; break; }
      case I_FPCVT: R[x.dst]=fromE(mk_fp1(FCVT,E(OP(x.a),x.w2),x.w)); fr->pc++; break;
      case I_FPTOSI: R[x.dst]=fptoint(OP(x.a),x.w2,x.w,false); fr->pc++; break;
      case I_FPTOUI: R[x.dst]=fptoint(OP(x.a),x.w2,x.w,true); fr->pc++; break;
      case I_SITOFP: R[x.dst]=fromE(mk_fp1(SITOF,E(OP(x.a),x.w2),x.w)); fr->pc++; break;
      case I_UITOFP: R[x.dst]=fromE(mk_fp1(UITOF,E(OP(x.a),x.w2),x.w)); fr->pc++; break;
      case I_MOV: R[x.dst]=OP(x.a); fr->pc++; break;
      case I_SELECT: { V c=OP(x.a); if(!c.e) R[x.dst]=c.c?OP(x.b):OP(x.c); else { V p=OP(x.b),q=OP(x.c); R[x.dst]=fromE(mk_ite(c.e,E(p,x.w),E(q,x.w))); } fr->pc++; break; }
      case I_CBR: case I_BR: { int ei=x.b;  if(x.op==I_CBR){ V c=OP(x.a); bool t; if(!c.e) t=c.c; else { t=branch(c.e); fr=&st.frames.back(); R=st.regs.data()+fr->base; } ei=t?x.b:x.c; }
       { const Edge&e=f->edges[ei]; size_t n=e.copies.size(); if(n==1) R[e.copies[0].first]=OP(e.copies[0].second); else if(n){ V tmp[64]; std::vector<V> big; V*t=tmp; if(n>64){ big.resize(n); t=big.data(); } for(size_t i=0;i<n;i++) t[i]=OP(e.copies[i].second); for(size_t i=0;i<n;i++) R[e.copies[i].first]=t[i]; } fr->pc=e.pc; } break; }
      case I_SWITCH: { auto*s=(SwX*)x.x; V v=OP(x.a); int ei=s->def; if(!v.e){ for(auto&c:s->cases) if(c.first==v.c){ ei=c.second; break; } } else { for(auto&g:s->groups){ Expr*c=nullptr; for(u64 k:g.second){ Expr*q=mk_eq(v.e,mkc(k,x.w2)); c=c?mk_or1(c,q):q; } if(g.first==s->def) continue; if(branch(c)){ ei=g.first; break; } } fr=&st.frames.back(); R=st.regs.data()+fr->base; }
        const Edge&e=f->edges[ei]; size_t n=e.copies.size(); std::vector<V> t(n); for(size_t i=0;i<n;i++) t[i]=OP(e.copies[i].second); for(size_t i=0;i<n;i++) R[e.copies[i].first]=t[i]; fr->pc=e.pc; break; }
      case I_RET: { bool has=x.w!=0; V v=has?OP(x.a):vc(0); do_return(v,has); goto reload; }
      case I_EXTRACT: R[x.dst]=fromE(mk_extract(E(OP(x.a),x.w2),x.c,x.w)); fr->pc++; break;
      case I_INSERT: { Expr*a=E(OP(x.a),x.w2),*b=E(OP(x.b),x.sub); Expr*r=b; if(x.c) r=mk_concat(r,mk_extract(a,0,x.c)); if(x.c+x.sub<x.w2) r=mk_concat(mk_extract(a,x.c+x.sub,x.w2-x.c-x.sub),r); R[x.dst]=fromE(r); fr->pc++; break; }
      case I_CALL: { auto*cx=(CallX*)x.x; Func*g=cx->f; CallArgs a; a.n=cx->args.size(); if(a.n>64) path_error("too many arguments for the executor");
        for(int i=0;i<a.n;i++){ a.v[i]=OP(cx->args[i]); a.w[i]=cx->byval[i]?(int)cx->byval[i]:cx->ws[i]; a.cls[i]=cx->cls[i]; }
        if(!g){ u64 t=concretize(OP(cx->fop),64); auto it=func_by_addr.find(t); if(it==func_by_addr.end()) path_error("call through an invalid function pointer "+std::string(hx(t))); g=it->second; }
        a.va=fr->va;
        if(g->external&&g->ext_id<0&&st.mode==0&&mainmod){ Func*h=get_func(mainmod,"sxl_"+g->name); if(h&&!h->external) g=h; }
        if(g->external){ if(g->ext_id<0){ path_error("call of an unmodelled function "+g->name); } bool pushed=false; V r=ext_call(g->ext_id,a,g,pushed,x.dst); if(pushed||st.mode>=2) goto reload; fr=&st.frames.back(); R=st.regs.data()+fr->base; if(x.dst>=0) R[x.dst]=r; fr->pc++; break; }
        if(st.mode==0&&optn("nummap",0)&&g->name=="strmap_get"&&a.n==2&&isconc(a.v[1])){ // no identifier starts with a digit or contains a quote: the lookup of a number, character or string literal finds nothing (property P20)
          V b=rd(a.v[1].e?a.v[1].e->lo:a.v[1].c,1); bool dig; if(isconc(b)){ u64 c=b.e?b.e->lo:b.c; dig=(c>='0'&&c<='9')||c=='"'||c=='\''; if(c=='L'){ V b2=rd((a.v[1].e?a.v[1].e->lo:a.v[1].c)+1,1); if(isconc(b2)){ u64 d=b2.e?b2.e->lo:b2.c; dig=d=='"'||d=='\''; } } } else dig=!may(mk_not(mk2(ULT,mk2(SUB,b.e,mkc('0',8)),mkc(10,8))),nullptr);
          if(dig){ counters["nummap"]++; fr=&st.frames.back(); R=st.regs.data()+fr->base; if(x.dst>=0) R[x.dst]=vc(0); fr->pc++; break; } }
        push_frame(g,a,x.dst); goto reload; }
      case I_UNREACH: if(st.mode==1) path_end(PE_INFEASIBLE,"ub"); path_error("unreachable code reached in "+f->name);
      default: path_error("bad instruction");
      }
    }
    reload:;
  }
}
// ================================================================ exploration
static u64 total_steps=0;
static void stats_line(){
  std::string s="{\"type\":\"stats\",\"job\":"+jesc(cur_job)+",\"queries\":"+std::to_string(sstats.queries)+",\"unsat\":"+std::to_string(sstats.unsat)+",\"sat\":"+std::to_string(sstats.sat)+",\"unknown\":"+std::to_string(sstats.unknown)+",\"cache_hits\":"+std::to_string(sstats.cache_hits)+",\"fp_refined\":"+std::to_string(sstats.fp_refined);
  char b[128]; snprintf(b,128,",\"solver_s\":%.4f,\"max_query\":%.4f",sstats.time,sstats.maxtime); s+=b;
  s+=",\"steps\":"+std::to_string(total_steps); for(auto&kv:counters) s+=",\"c_"+kv.first+"\":"+std::to_string(kv.second);
  s+=",\"covered\":["; bool f=true; for(auto&c:covered){ if(!f) s+=","; f=false; s+=jesc(c);} s+="]";
  if(optn("funcs",0)){ s+=",\"funcs\":["; f=true; for(auto*m:modules) if(!m->ref) for(auto&kv:m->funcs) if(kv.second->calls){ if(!f) s+=","; f=false; s+=jesc(kv.first);} s+="]"; }
  emit(s+"}");
}
static void wait_kids(){ for(pid_t p:kids){ int ws; waitpid(p,&ws,0); if(!WIFEXITED(ws)||WEXITSTATUS(ws)!=0){ char b[160]; snprintf(b,160,"{\"type\":\"crash\",\"job\":%s,\"status\":%d}",jesc(cur_job).c_str(),ws); emit(b); } } kids.clear(); }
void tv_path_error(const std::string&msg);
void sample_path(const char*how);

static void explore(){
  max_steps=optn("max_steps",400000000ull); u64 max_paths=optn("max_paths",1000000);
  for(;;){
    u64 sbase=st.steps;
    try { run_path(); }
    catch(PathEnd&e){ total_steps+=st.steps-sbase;
      switch(e.kind){ case PE_DONE: case PE_EXIT: counters["paths"]++; sample_path("done"); break;
        case PE_VIOL: counters["paths"]++; break;
        case PE_INFEASIBLE: counters[e.msg=="ub"?"paths_ub":"paths_infeasible"]++; break;
        case PE_LIMIT: counters["paths_cut"]++; emit("{\"type\":\"cut\",\"job\":"+jesc(cur_job)+",\"fn\":"+jesc(cur_fn)+",\"msg\":"+jesc(e.msg)+",\"where\":"+jesc(where())+"}"); break;
        case PE_ERROR: counters["paths"]++; if(st.mode==1&&e.msg.find("invalid ")==0){ counters["paths_ub"]++; break; } tv_path_error(e.msg); break; }
    }
    catch(int){ continue; } // forked child: go on with the alternative
    if(choices.empty()||counters["paths"]+counters["paths_cut"]>=max_paths){ if(!choices.empty()){ counters["paths_dropped"]+=choices.size(); emit("{\"type\":\"cut\",\"job\":"+jesc(cur_job)+",\"fn\":"+jesc(cur_fn)+",\"msg\":\"path bound\"}"); choices.clear(); } break; }
    Choice&c=choices.back(); undo_to(c.trail); st=c.s; if(c.c){ st.pc.push_back(c.c); if(c.m){ st.model=c.m; st.model_ok=true; } else st.model_ok=false; } pending_alt=c.alt; choices.pop_back(); if(choices.empty()){ trail_on=false; trail.clear(); }
  }
  stats_line(); wait_kids();
}
void finish_process(){ }
void engine_init(){ mem_init(); st.heap=ABASE+65536; st.stack=STACK0; st.model=nullptr; st.model_ok=true; }
void engine_explore(int fd,std::atomic<int>*sl){ outfd=fd; slots=sl; explore(); if(is_child){ if(slots) slots->fetch_add(1); _exit(0); } } 
// ---------------------------------------------------------------- helpers for translation validation
static void flat(const DataLayout&dl,Type*t,u64 off,std::vector<Scalar>&o){
  if(auto*s=dyn_cast<StructType>(t)){ auto*l=dl.getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) flat(dl,s->getElementType(i),off+l->getElementOffset(i),o); return; }
  if(auto*a=dyn_cast<ArrayType>(t)){ u64 es=dl.getTypeAllocSize(a->getElementType()); for(u64 i=0;i<a->getNumElements();i++) flat(dl,a->getElementType(),off+es*i,o); return; }
  if(auto*v=dyn_cast<FixedVectorType>(t)){ o.push_back({off,tw(dl,t),1,false}); return; }
  o.push_back({off,tw(dl,t),t->isX86_FP80Ty()?2:t->isFloatingPointTy()?1:0,t->isPointerTy()});
}
std::vector<Scalar> global_scalars(::Module*m,const std::string&n){ std::vector<Scalar> r; auto it=m->globals.find(n); if(it!=m->globals.end()) flat(DL(m),((GlobalVariable*)it->second.llvm)->getValueType(),0,r); return r; }
std::vector<Scalar> ret_scalars(Func*f){ std::vector<Scalar> r; Type*t=((Function*)f->llvm)->getReturnType(); if(!t->isVoidTy()) flat(DL(f->mod),t,0,r); return r; }
bool has_sret(Func*f){ auto*F=(Function*)f->llvm; return F->arg_size()&&F->hasParamAttribute(0,Attribute::StructRet); }
u64 sret_size(Func*f){ auto*F=(Function*)f->llvm; return DL(f->mod).getTypeAllocSize(F->getParamStructRetType(0)); }
std::vector<Scalar> sret_scalars(Func*f){ std::vector<Scalar> r; flat(DL(f->mod),((Function*)f->llvm)->getParamStructRetType(0),0,r); return r; }
std::vector<Scalar> byval_scalars(Func*f,int i){ std::vector<Scalar> r; flat(DL(f->mod),((Function*)f->llvm)->getParamByValType(i),0,r); return r; }
u64 param_align(Func*f,int i){ auto a=((Function*)f->llvm)->getParamAlign(i); return a?a->value():1; }
