// Translation validation: the assembly produced by the compiler (itself executed in the bitcode executor) against the reference.
#include "x86.h"
#include <stdio.h>
#include <algorithm>
struct FnRun { Func*f; std::vector<V> args; std::vector<std::vector<V>> byval; u64 sret=0; };
static std::vector<std::string> fns; 
std::string choices_json();
static Asm&A(){ return *(Asm*)st.asmp.get(); }
static bool shared_global(const std::string&n){ auto it=refmod->globals.find(n); return it!=refmod->globals.end()&&A().data.count(n)&&A().data[n]==it->second.addr; }
static Expr*eq_scalar(Expr*x,Expr*y,const Scalar&s){
  Expr*e=mk_eq(x,y); if(e->isc()&&e->lo) return e;
  if(s.fp&&(s.w==32||s.w==64||s.w==80)) return mk_or1(e,mk_and1(mk2(FUNO,x,x),mk2(FUNO,y,y)));
  if(s.w==64&&s.fp==0&&x->isc()&&y->isc()){ // pointers to anonymous constants (string literals) are compared by content
    u64 b1,n1,b2,n2; if(find_alloc(x->lo,&b1,&n1)&&find_alloc(y->lo,&b2,&n2)){ bool named=false; for(auto&g:refmod->globals) if(g.first[0]!='.'&&g.second.addr==b1) named=true; for(auto&d:A().data) if(d.first[0]!='.'&&d.second==b2) named=true; if(named) return e; u64 l1=b1+n1-x->lo,l2=b2+n2-y->lo; u64 n=std::min(l1,l2); if(l1!=l2) return e; Expr*r=mkc(1,1); for(u64 i=0;i<n;i++) r=mk_and1(r,mk_eq(E(rd(x->lo+i,1),8),E(rd(y->lo+i,1),8))); return r; } }
  return e;
}
static std::string lw(const Scalar&s);
static std::string stderr_text(){ auto it=st.vfs.find("<stderr>"); std::string s=it==st.vfs.end()?"":it->second->s; auto o=st.vfs.find("<stdout>"); if(o!=st.vfs.end()) s+=o->second->s; if(s.size()>300) s.resize(300); return s; }
static std::string first_line(const std::string&s){ return s.substr(0,s.find('\n')); }
void sample_path(const char*how){ if(counters["paths"]<=optn("samples",1)) emit("{\"type\":\"sample\",\"job\":"+jesc(cur_job)+",\"fn\":"+jesc(cur_fn)+",\"pc\":"+std::to_string(st.pc.size())+",\"steps\":"+std::to_string(st.steps)+",\"choices\":"+choices_json()+",\"model\":"+model_json(full_model())+"}"); }
void tv_path_error(const std::string&msg){
  const char*k=st.mode==2?"asm":st.mode==3?"asm":st.mode==1?"reference":"compiler"; counters["path_errors"]++; std::string m=msg; if(st.mode==2&&st.asmp&&st.x86.rip<A().ins.size()) m+=" at \""+A().ins[st.x86.rip].text+"\"";
  report(k,m,full_model());
}
static std::string line_at(const BStr&b,size_t i){ size_t x=i?b.s.rfind('\n',i-1):std::string::npos,y=b.s.find('\n',i); x=x==std::string::npos?0:x+1; return b.s.substr(x,(y==std::string::npos?b.s.size():y)-x).substr(0,120); }
// the last version of the file must equal the first one: the same source was compiled again
static bool number_at(const BStr&b,size_t&i,Expr*&e){ // a number, which may be symbolic
  const std::string&s=b.s; if(s.compare(i,2,"~S")==0){ e=placeholders[atoi(s.c_str()+i+2)].first; i+=8; return true; }
  size_t j=i+(s[i]=='-'); if(j>=s.size()||!isdigit(s[j])||b.sym.count(j)) return false; while(j<s.size()&&isdigit(s[j])&&!b.sym.count(j)) j++; e=mkc(strtoull(s.substr(i,j-i).c_str(),0,10),64); i=j; return true; }
static void check_same(const std::string&p){
  BStr a,b; if(p=="<stdout>"){ auto x=st.vfs.find(p); if(x==st.vfs.end()) path_error("no output"); const BStr&o=*x->second; // the same file twice
    size_t h=o.s.size()/2; auto cut=[&](size_t f,size_t n){ BStr r; r.s=o.s.substr(f,n); for(auto&kv:o.sym) if(kv.first>=f&&kv.first<f+n) r.sym[kv.first-f]=kv.second; return r; }; a=cut(0,h); b=cut(h,o.s.size()-h); }
  else { auto x=st.vfs.find(p+"~1"),y=st.vfs.find(p); if(x==st.vfs.end()||y==st.vfs.end()) path_error("the file was not written twice: "+p); a=*x->second; b=*y->second; }
  counters["same_bytes"]+=b.s.size(); size_t i=0,j=0; auto msg=[&]{ return "the first compilation gives \""+line_at(a,i)+"\", the second \""+line_at(b,j)+"\""; };
  auto must=[&](Expr*c){ counters["same_symbolic"]++; if(c->isc()&&c->lo) return; if(check_assert(c,msg(),"differs")==0) path_end(PE_VIOL); };
  while(1){ bool ea=i>=a.s.size(),eb=j>=b.s.size(); if(ea&&eb) break; Expr*x,*y; size_t k=i,l=j;
    if(!ea&&!eb&&(a.s.compare(i,2,"~S")==0||b.s.compare(j,2,"~S")==0)&&number_at(a,k,x)&&number_at(b,l,y)){ must(mk_eq(x->w<64?mk_zext(x,64):x,y->w<64?mk_zext(y,64):y)); i=k; j=l; continue; }
    if(!ea&&!eb&&(a.sym.count(i)||b.sym.count(j))){ Expr*u=a.sym.count(i)?a.sym[i]:mkc((unsigned char)a.s[i],8),*v=b.sym.count(j)?b.sym[j]:mkc((unsigned char)b.s[j],8); if(u->w!=8) u=mk_extract(u,0,8); if(v->w!=8) v=mk_extract(v,0,8); must(mk_eq(u,v)); i++; j++; continue; }
    if(ea||eb||a.s[i]!=b.s[j]){ report("differs",msg(),full_model()); path_end(PE_VIOL); }
    i++; j++; }
  covered.insert("same");
}
void tv_exit(int code){
  st.exit_code=code; 
  if(job.o.count("show_stdout")&&st.vfs.count("<stdout>")) fprintf(stderr,"%s",st.vfs["<stdout>"]->s.c_str());
  if(job.o.count("show_stderr")&&st.vfs.count("<stderr>")) fprintf(stderr,"%s",st.vfs["<stderr>"]->s.c_str());
  if(job.o.count("save")){ std::string s=job.o["save"]; size_t c=s.find('='); std::string vn=s.substr(0,c),rn=s.substr(c+1); if(st.vfs.count(vn)){ FILE*f=fopen(rn.c_str(),"wb"); auto&b=*st.vfs[vn]; fwrite(b.s.data(),1,b.s.size(),f); fclose(f);} }
  if(job.ref.empty()){
    if(code!=0&&!((st.tag>>(code&31))&1)&&!(optn("exit_ok",0)>>(code&31)&1)) path_error("exit status "+std::to_string(code)+": "+first_line(stderr_text()));
    if(code==0&&job.o.count("same")) check_same(job.o["same"]);
    covered.insert("exit"+std::to_string(code)); path_end(PE_EXIT);
  }
  if(code!=0){ if(optn("exit_ok",0)>>(code&31)&1) path_end(PE_EXIT); path_error("the compiler rejected the program (exit status "+std::to_string(code)+"): "+first_line(stderr_text())); }
  st.frames.clear(); st.regs.clear(); st.mode=3; st.phase=1;
}
struct Holder { std::map<std::string,std::vector<V>> m; };
static void make_args(FnRun&R){
  Func*f=R.f; R.args.clear(); int np=f->params.size();
  for(int i=0;i<np;i++){ Param&p=f->params[i]; std::string n="a"+std::to_string(i);
    if(i==0&&has_sret(f)){ R.sret=alloc_mem(sret_size(f),AK_ASM,16,false); R.args.push_back(vc(R.sret)); continue; }
    if(p.byval){ u64 a=alloc_mem(p.bsize,AK_ASM,16,true); for(auto&s:byval_scalars(f,i)){ Expr*v=named_var(n+"."+std::to_string(s.off),s.w); if(s.w==80) assume(mk_eq(mk_extract(v,63,1),mk_not(mk_eq(mk_extract(v,64,15),mkc(0,15))))); wr(a+s.off,s.w/8,fromE(v)); } R.args.push_back(vc(a)); continue; }
    Expr*v=named_var(n,p.w); if(p.w==80) assume(mk_eq(mk_extract(v,63,1),mk_not(mk_eq(mk_extract(v,64,15),mkc(0,15))))); R.args.push_back(fromE(v)); }
}
static int fresh_id=0;
static std::string lw(const Scalar&s){ return " ("+std::to_string(s.w)+(s.fp?"f":s.ptr?"p":"i")+")"; }
void tv_drive(){
  switch(st.phase){
  case 1: { // parse the assembly
    std::vector<BStr> t; auto it=st.vfs.find(job.o.count("out")?job.o["out"]:"out.s"); if(it==st.vfs.end()) path_error("the compiler produced no output"); t.push_back(*it->second);
    for(auto&a:job.asms){ FILE*f=fopen(a.c_str(),"rb"); if(!f) path_error("cannot read "+a); BStr b; char buf[65536]; size_t n; while((n=fread(buf,1,sizeof buf,f))>0) b.s.append(buf,n); fclose(f); t.push_back(b); }
    auto p=asm_parse(t); st.asmp=p; counters["asm_insns"]+=p->ins.size(); st.phase=2; 
    for(auto&d:p->init) if(!shared_global(d.first)) for(size_t i=0;i<d.second.size();i++) wr(p->data[d.first]+i,1,d.second[i],true);
    if(fns.empty()){ for(auto&kv:refmod->funcs) if(kv.first.compare(0,2,"t_")==0&&!kv.second->external) fns.push_back(kv.first); if(!job.fns.empty()) fns=job.fns; }
    break; }
  case 2: { // static data
    cur_fn="<data>"; Asm&a=A(); int n=0;
    for(auto&g:refmod->globals){ const std::string&nm=g.first; if(nm[0]=='.'||nm.find('.')!=std::string::npos||g.second.external) continue; bool ext=!g.second.internal;
      if(!a.data.count(nm)){ if(ext&&!optn("partial",0)) path_error("no definition of "+nm+" in the assembly"); continue; }
      if(a.data[nm]!=g.second.addr||a.dsize[nm]<g.second.size) path_error("the object "+nm+" is smaller than its type");
      if(ext&&!a.globl.count(nm)&&a.section[nm]!="bss") path_error("the external object "+nm+" is not global");
      auto&iv=a.init[nm]; std::vector<Scalar> sc=global_scalars(refmod,nm);
      if(!(shadow[g.second.addr-ABASE]&SH_SYM)) for(auto&s:sc){ int nb=(s.w+7)/8; Expr*x=E(rd(g.second.addr+s.off,nb),nb*8),*y=nullptr; for(int i=0;i<nb;i++){ Expr*b=E(iv[s.off+i],8); y=y?mk_concat(b,y):b; } n++; Expr*q=eq_scalar(x,y,s); if(q->isc()&&q->lo) { counters["asserts"]++; continue; } if(check_assert(q,"initial contents of "+nm+"+"+std::to_string(s.off)+" differ"+lw(s),"data")==0) path_end(PE_VIOL); } }
    // linkage: a name is exported exactly when it has external linkage
    for(auto&n:a.priv0) if(Func*f=get_func(refmod,n)) if(!f->external&&!func_internal(f)) path_error("the external function "+n+" is not global");
    for(auto&n:a.glob0){ auto g=refmod->globals.find(n); if(g!=refmod->globals.end()&&!g->second.external&&g->second.internal) path_error("the static object "+n+" is exported"); if(Func*f=get_func(refmod,n)) if(!f->external&&func_internal(f)) path_error("the static function "+n+" is exported"); }
    counters["data_scalars"]+=n; if(optn("data_only",0)||fns.empty()) path_end(PE_DONE); st.phase=3; break; }
  case 3: { int k=choose(fns.size()); st.fidx=k; st.phase=4; break; }
  case 4: { cur_fn=fns[st.fidx]; FnRun R; R.f=get_func(refmod,cur_fn); if(!R.f||R.f->external) path_error("no such function in the reference: "+cur_fn); if(!A().text.count(cur_fn)) path_error("no code for "+cur_fn);
    if(!A().globl.count(cur_fn)&&cur_fn.compare(0,2,"t_")==0) path_error("the function "+cur_fn+" is not global");
    auto h=std::make_shared<std::pair<Holder,Holder>>(); 
    // arbitrary initial values of the s_ globals
    for(auto&g:refmod->globals){ const std::string&nm=g.first; if(nm.compare(0,2,"s_")==0&&!g.second.external&&!g.second.constant) for(auto&s:global_scalars(refmod,nm)) if(!s.ptr){ Expr*v=named_var(nm+"."+std::to_string(s.off),(s.w+7)/8*8); if(s.w==80) assume(mk_eq(mk_extract(v,63,1),mk_not(mk_eq(mk_extract(v,64,15),mkc(0,15))))); wr(g.second.addr+s.off,(s.w+7)/8,fromE(v)); } }
    for(auto&g:refmod->globals) if(!g.second.external&&shared_global(g.first)&&!(shadow[g.second.addr-ABASE]&SH_RO)){ auto&v=h->first.m[g.first]; bool sy=g.first.compare(0,2,"s_")==0; std::vector<bool> isp(g.second.size,false); if(sy) for(auto&s:global_scalars(refmod,g.first)) if(s.ptr) for(int i=0;i<8;i++) isp[s.off+i]=true; for(u64 i=0;i<g.second.size;i++) v.push_back((sy&&!isp[i])?rd(g.second.addr+i,1):A().init[g.first][i]); }
    make_args(R);
    st.refvals.clear(); st.inputs.clear();
    // keep the initial contents and the arguments in the state
    for(auto&kv:h->first.m) st.inputs.push_back({kv.first,std::make_shared<std::vector<V>>(kv.second)});
    st.inputs.push_back({"<args>",std::make_shared<std::vector<V>>(R.args)}); st.refvals.push_back(vc(R.sret));
    CallArgs a; a.n=R.args.size(); for(int i=0;i<a.n;i++){ a.v[i]=R.args[i]; a.w[i]=R.f->params[i].byval?(int)R.f->params[i].bsize:R.f->params[i].w; a.cls[i]=R.f->params[i].byval?3:R.f->params[i].cls; }
    st.ref_start=st.steps; st.mode=1; push_frame(R.f,a,-1); break; }
  }
}
static std::vector<V>*inp(const std::string&n){ for(auto&p:st.inputs) if(p.first==n) return p.second.get(); return nullptr; }
void tv_ref_return(V v){
  Func*f=get_func(refmod,fns[st.fidx]); u64 sret=st.refvals[0].c; counters["ref_paths"]++; covered.insert("fn:"+fns[st.fidx]);
  auto add=[&](const std::string&n,std::vector<V>&&x){ st.inputs.push_back({n,std::make_shared<std::vector<V>>(x)}); };
  add("<ret>",{v}); if(sret){ std::vector<V> s; for(auto&sc:sret_scalars(f)) s.push_back(rd(sret+sc.off,(sc.w+7)/8)); add("<sret>",std::move(s)); }
  // save what the reference left in the shared globals, restore their initial contents
  std::vector<std::pair<std::string,std::shared_ptr<std::vector<V>>>> ends;
  for(auto&p:st.inputs){ if(p.first[0]=='<') continue; auto&g=refmod->globals[p.first]; std::vector<V> e; for(auto&s:global_scalars(refmod,p.first)) e.push_back(rd(g.addr+s.off,(s.w+7)/8)); ends.push_back({">"+p.first,std::make_shared<std::vector<V>>(e)}); for(u64 i=0;i<g.size;i++) wr(g.addr+i,1,(*p.second)[i]); }
  for(auto&e:ends) st.inputs.push_back(e);
  // private data of the assembly and constants
  Asm&A_=A(); for(auto&d:A_.init) if(!inp(d.first)){ u64 ad=A_.data[d.first]; bool sh=refmod->globals.count(d.first)&&refmod->globals[d.first].addr==ad; bool ro=shadow[ad-ABASE]&SH_RO; for(size_t i=0;i<d.second.size();i++) wr(ad+i,1,d.second[i],true); }
  // machine state
  X86&x=st.x86; memset(&x,0,sizeof x); for(int i=0;i<16;i++){ x.r[i]=fromE(mkvar("clobr"+std::to_string(fresh_id++),64)); x.x[i][0]=fromE(mkvar("clobx"+std::to_string(fresh_id++),64)); x.x[i][1]=fromE(mkvar("cloby"+std::to_string(fresh_id++),64)); }
  for(int i:{RBX,RBP,R12,R13,R14,R15}) x.r[i]=fromE(named_var("callee_saved"+std::to_string(i),64));
  x.cw=vc(0x37f); u64 ss=optn("stack",1u<<18); u64 stk=alloc_mem(ss,AK_ASM,16,false); x.rlo=stk; u64 sp=stk+ss-4096; std::vector<V>&args=*inp("<args>"); int gp=0,xm=0; static const int ar[]={RDI,RSI,RDX,RCX,R8,R9}; u64 so=sp; 
  for(size_t i=0;i<args.size();i++){ Param&p=f->params[i];
    if(p.byval){ u64 al=std::max<u64>(8,param_align(f,i)); so=(so+al-1)/al*al; mem_copy(so,args[i].c,p.bsize); so+=(p.bsize+7)&~7ull; continue; }
    if(p.cls==2){ so=(so+15)&~15ull; wr(so,10,args[i]); so+=16; continue; }
    Expr*v=E(args[i],p.w); if(p.cls==1){ if(p.w<64) v=mk_concat(mkvar("garb"+std::to_string(fresh_id++),64-p.w),v); if(xm<8) x.x[xm++][0]=fromE(v); else { wr(so,8,fromE(v)); so+=8; } continue; }
    if(p.w<32) v=p.ext==1?mk_sext(v,32):p.ext==2?mk_zext(v,32):mk_concat(mkvar("garb"+std::to_string(fresh_id++),32-p.w),v); if(v->w<64) v=mk_concat(mkvar("garb"+std::to_string(fresh_id++),64-v->w),v);
    if(gp<6) x.r[ar[gp++]]=fromE(v); else { wr(so,8,fromE(v)); so+=8; } }
  if(f->vararg) x.r[RAX]=fromE(mk_concat(mkvar("garb"+std::to_string(fresh_id++),56),mkc(xm,8)));
  x.entry_rsp=sp-8; wr(sp-8,8,vc(RET_MAGIC)); x.r[RSP]=vc(sp-8); for(int i=0;i<16;i++) x.saved[i]=x.r[i];
  st.asm_limit=st.steps+200000+100*(st.steps-st.ref_start); st.mode=2; x86_start(x86_sym(A_,fns[st.fidx]));
}
void tv_nonterm(){ if(check_assert(mkc(0,1),"the compiled code does not end where the reference does","nonterm")==0) path_end(PE_VIOL); path_end(PE_LIMIT,"step bound"); }
static void need(Expr*c,const std::string&m,const char*kind="result"){ if(check_assert(c,m,kind)==0) path_end(PE_VIOL); }
void tv_asm_return(){
  X86&x=st.x86; Func*f=get_func(refmod,fns[st.fidx]); counters["asm_paths"]++;
  need(mk_eq(E(x.r[RSP],64),mkc(x.entry_rsp+8,64)),"stack pointer not restored","abi");
  for(int i:{RBX,RBP,R12,R13,R14,R15}) need(mk_eq(E(x.r[i],64),E(x.saved[i],64)),"callee saved register "+std::to_string(i)+" not preserved","abi");
  { u64 c=concretize(x.cw,16); if((c&0xf3f)!=(0x37f&0xf3f)) path_error("x87 control word changed"); }
  auto rs=ret_scalars(f); int gp=0,xm=0,sp=0; V rv=(*inp("<ret>"))[0]; u64 sret=st.refvals[0].c; int nx87=0; for(auto&s:rs) if(s.fp==2) nx87++;
  if(x.sp!=nx87) path_error("x87 stack depth at return is "+std::to_string(x.sp));
  if(!rs.empty()){ int tot=0; for(auto&s:rs) tot+=s.w; Expr*all=E(rv,tot); int o=0;
    for(auto&s:rs){ Expr*r=mk_extract(all,o,s.w); o+=s.w; Expr*g; if(s.fp==2) g=x.st[sp++]; else if(s.fp==1){ g=mk_extract(E(x.x[xm++][0],64),0,s.w); } else g=mk_extract(E(x.r[gp++?RDX:RAX],64),0,s.w);
      need(eq_scalar(r,g,s),"returned value differs"+lw(s)); } }
  if(sret){ need(mk_eq(E(x.r[RAX],64),mkc(sret,64)),"address of the returned structure","abi"); auto sc=sret_scalars(f); auto&v=*inp("<sret>"); for(size_t i=0;i<sc.size();i++){ int nb=(sc[i].w+7)/8; need(eq_scalar(E(v[i],nb*8),E(rd(sret+sc[i].off,nb),nb*8),sc[i]),"returned structure differs at offset "+std::to_string(sc[i].off)+lw(sc[i])); } }
  for(auto&p:st.inputs){ if(p.first[0]=='<'||p.first[0]=='>') continue; auto&g=refmod->globals[p.first]; auto sc=global_scalars(refmod,p.first); auto&e=*inp(">"+p.first);
    for(size_t i=0;i<sc.size();i++){ int nb=(sc[i].w+7)/8; need(eq_scalar(E(e[i],nb*8),E(rd(g.addr+sc[i].off,nb),nb*8),sc[i]),"final value of "+p.first+"+"+std::to_string(sc[i].off)+" differs"+lw(sc[i])); } }
  path_end(PE_DONE);
}
