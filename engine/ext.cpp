// Models of the external functions the code under test calls, and the harness interface.
#include "exec.h"
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
typedef V (*H)(CallArgs&a,Func*f,bool&pushed,int rd);
static u64 C(CallArgs&a,int i){ return concretize(a.v[i],a.w[i]); }
static bool use_lib(const char*n,CallArgs&a,bool&pushed,int rd){ Func*g=mainmod?get_func(mainmod,std::string("sxl_")+n):nullptr; if(!g||g->external) path_error(std::string("symbolic operand of ")+n); push_frame(g,a,rd); pushed=true; return true; }
#define DEF(n) static V x_##n(CallArgs&a,Func*f,bool&pushed,int rd_)
#define HDR() ((Hdr*)(p-sizeof(Hdr)))
DEF(malloc){ return vc(alloc_mem(C(a,0),AK_HEAP,16)); }
DEF(calloc){ return vc(alloc_mem(C(a,0)*C(a,1),AK_HEAP,16,true)); }
DEF(free){ u64 p=C(a,0); if(p) free_mem(p); return vc(0); }
DEF(realloc){ u64 p=C(a,0),n=C(a,1); u64 q=alloc_mem(n,AK_HEAP,16); if(p){ Hdr*h=(Hdr*)(p-sizeof(Hdr)); if(!in_arena(p,1)||h->magic!=0xA110CA7E||!h->alive) path_error("realloc of an invalid pointer"); mem_copy(q,p,std::min<u64>(n,h->size)); free_mem(p); } return vc(q); }
DEF(malloc_usable_size){ u64 p=C(a,0); return vc(p?((Hdr*)(p-sizeof(Hdr)))->size:0); }
DEF(memcpy){ u64 d=C(a,0),s=C(a,1),n=C(a,2); mem_copy(d,s,n); return vc(d); }
DEF(memset){ u64 d=C(a,0),n=C(a,2); V v=a.v[1]; if(v.e) v=fromE(mk_extract(v.e,0,8)); else v.c&=255; if(n&&!mem_valid(d,n,true)) path_error("memset out of bounds"); u64 i=0; if(!v.e) for(;i+8<=n;i+=8) wr(d+i,8,vc(v.c*0x0101010101010101ull)); for(;i<n;i++) wr(d+i,1,v); return vc(d); }
DEF(strlen){ u64 s=C(a,0); std::string t; if(!cstr(s,t)){ use_lib("strlen",a,pushed,rd_); return vc(0);} return vc(t.size()); }
DEF(strcmp){ std::string s,t; if(!cstr(C(a,0),s)||!cstr(C(a,1),t)){ use_lib("strcmp",a,pushed,rd_); return vc(0);} int r=strcmp(s.c_str(),t.c_str()); return vc((u32)r); }
DEF(strncmp){ u64 p=C(a,0),q=C(a,1),n=C(a,2); std::string s,t; for(u64 i=0;i<n;i++){ V x=rd(p+i,1),y=rd(q+i,1); if(x.e||y.e){ use_lib("strncmp",a,pushed,rd_); return vc(0);} if(x.c!=y.c) return vc((u32)((int)x.c-(int)y.c)); if(!x.c) break; } return vc(0); }
DEF(memcmp){ u64 p=C(a,0),q=C(a,1),n=C(a,2); for(u64 i=0;i<n;i++){ V x=rd(p+i,1),y=rd(q+i,1); if(x.e||y.e){ use_lib("memcmp",a,pushed,rd_); return vc(0);} if(x.c!=y.c) return vc((u32)((int)x.c-(int)y.c)); } return vc(0); }
DEF(strchr){ u64 p=C(a,0); std::string s; if(a.v[1].e||!cstr(p,s)){ use_lib("strchr",a,pushed,rd_); return vc(0);} char c=(char)a.v[1].c; if(!c) return vc(p+s.size()); size_t k=s.find(c); return vc(k==std::string::npos?0:p+k); }
DEF(strrchr){ u64 p=C(a,0); std::string s; if(a.v[1].e||!cstr(p,s)){ use_lib("strrchr",a,pushed,rd_); return vc(0);} char c=(char)a.v[1].c; if(!c) return vc(p+s.size()); size_t k=s.rfind(c); return vc(k==std::string::npos?0:p+k); }
DEF(strdup){ u64 p=C(a,0); std::string s; if(!cstr(p,s)){ use_lib("strdup",a,pushed,rd_); return vc(0);} u64 q=alloc_mem(s.size()+1,AK_HEAP,16); mem_copy(q,p,s.size()+1); return vc(q); }
static std::string conc_str(u64 p){ std::string s; for(;;p++){ V v=rd(p,1); u64 c=concretize(v,8); if(!c) return s; s.push_back((char)c); } }
DEF(strtol){ std::string s=conc_str(C(a,0)); char*e; long r=strtol(s.c_str(),&e,(int)C(a,2)); u64 ep=C(a,1); if(ep) wr(ep,8,vc(C(a,0)+(e-s.c_str()))); return vc((u64)r); }
DEF(strtold){ std::string s=conc_str(C(a,0)); char*e; long double r=strtold(s.c_str(),&e); u64 ep=C(a,1); if(ep) wr(ep,8,vc(C(a,0)+(e-s.c_str()))); u128 v=0; memcpy(&v,&r,10); return V{0,mkc(v,80)}; }
DEF(strtod){ std::string s=conc_str(C(a,0)); char*e; double r=strtod(s.c_str(),&e); u64 ep=C(a,1); if(ep) wr(ep,8,vc(C(a,0)+(e-s.c_str()))); u64 v; memcpy(&v,&r,8); return vc(v); }
DEF(strtof){ std::string s=conc_str(C(a,0)); char*e; float r=strtof(s.c_str(),&e); u64 ep=C(a,1); if(ep) wr(ep,8,vc(C(a,0)+(e-s.c_str()))); u32 v; memcpy(&v,&r,4); return vc(v); }
// ---------------------------------------------------------------- formatted output
struct Args { CallArgs*a; int i; u64 va;
  V gp(int w){ if(a){ if(i>=a->n) path_error("printf: missing argument"); V v=a->v[i]; int aw=a->w[i]; i++; if(aw<w) return fromE(mk_zext(E(v,aw),w)); if(aw>w) return v.e?fromE(mk_extract(v.e,0,w)):vc(v.c&m64(w)); return v; }
    u64 go=concretize(rd(va,4),32); u64 p; if(go<48){ p=concretize(rd(va+16,8),64)+go; wr(va,4,vc(go+8)); } else { p=concretize(rd(va+8,8),64); wr(va+8,8,vc(p+8)); } return rd(p,w/8); }
  V fpd(){ if(a){ V v=a->v[i++]; return v; } u64 fo=concretize(rd(va+4,4),32); u64 p; if(fo<176){ p=concretize(rd(va+16,8),64)+fo; wr(va+4,4,vc(fo+16)); } else { p=concretize(rd(va+8,8),64); wr(va+8,8,vc(p+8)); } return rd(p,8); }
  V ld(){ if(a){ V v=a->v[i++]; return v; } u64 p=(concretize(rd(va+8,8),64)+15)&~15ull; wr(va+8,8,vc(p+16)); return rd(p,10); } };
static Expr*conc80(V v,int w){ Expr*e=E(v,w); if(e->isc()) return e; Model m=full_model(); u128 x=eval(e,m); assume(mk_eq(e,mkc(x,w))); counters["fp_print_concretized"]++; return mkc(x,w); }
static BStr format(const std::string&f,Args&A){
  BStr o; size_t i=0; char buf[512];
  while(i<f.size()){ if(f[i]!='%'){ o.put(f[i++]); continue; } size_t s=i++; if(f[i]=='%'){ o.put('%'); i++; continue; }
    std::string sp="%"; bool wid=false; while(i<f.size()&&strchr("-+ #0",f[i])) sp+=f[i++],wid=true;
    if(f[i]=='*'){ int w=(int)concretize(A.gp(32),32); sp+=std::to_string(w); wid=true; i++; } while(isdigit(f[i])) sp+=f[i++],wid=true;
    if(f[i]=='.'){ sp+=f[i++]; wid=true; if(f[i]=='*'){ int w=(int)concretize(A.gp(32),32); sp+=std::to_string(w); i++; } while(isdigit(f[i])) sp+=f[i++]; }
    int l=0; bool L=false; while(strchr("hlLz",f[i])&&f[i]){ if(f[i]=='l'||f[i]=='z') l=1; if(f[i]=='L') L=true; i++; }
    char c=f[i++];
    switch(c){
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': { int w=l?64:32; V v=A.gp(w); if(v.e&&!wid&&strchr("diu",c)){ Expr*e=c=='u'?mk_zext(v.e,64):mk_sext(v.e,64); placeholders.push_back({e,c}); snprintf(buf,512,"~S%05d~",(int)placeholders.size()-1); o.puts(buf); break; }
      u64 x=concretize(v,w); if(w==32&&(c=='d'||c=='i')) x=(u64)(i64)(int)x; sp+="l"; sp+=c; snprintf(buf,512,sp.c_str(),x); o.puts(buf); break; }
    case 'c': { V v=A.gp(32); if(v.e) v=fromE(mk_extract(v.e,0,8)); else v.c&=255; o.putv(v); break; }
    case 'p': { u64 x=concretize(A.gp(64),64); snprintf(buf,512,"%p",(void*)x); o.puts(buf); break; }
    case 's': { u64 p=concretize(A.gp(64),64); u64 max=~0ull; size_t d=sp.find('.'); if(d!=std::string::npos) max=strtoull(sp.c_str()+d+1,0,10); if(!p){ o.puts("(null)"); break; } BStr b=bstr_at(p,max); int w=0; std::string ws=sp.substr(1,d==std::string::npos?std::string::npos:d-1); bool left=ws.find('-')!=std::string::npos; w=abs(atoi(ws.c_str()+(ws.find_first_of("123456789")==std::string::npos?ws.size():ws.find_first_of("123456789")))); int pad=w-(int)b.s.size(); if(!left) while(pad-->0) o.put(' '); o.app(b); if(left) while(pad-->0) o.put(' '); break; }
    case 'f': case 'g': case 'e': case 'G': case 'E': case 'a': if(L){ V v=A.ld(); Expr*e=conc80(v,80); long double d=0; u128 x=e->cv(); memcpy(&d,&x,10); sp+="L"; sp+=c; snprintf(buf,512,sp.c_str(),d); } else { V v=A.fpd(); Expr*e=conc80(v,64); double d; u64 x=(u64)e->cv(); memcpy(&d,&x,8); sp+=c; snprintf(buf,512,sp.c_str(),d); } o.puts(buf); break;
    default: path_error(std::string("printf conversion ")+c); }
  }
  return o;
}
static std::shared_ptr<BStr> file_rw(const std::string&p){ auto&r=st.vfs[p]; if(!r) r=std::make_shared<BStr>(); else if(r.use_count()>1) r=std::make_shared<BStr>(*r); return r; }
static OpenFile*find_file(u64 h){ for(auto&f:st.files) if(f.handle==h) return &f; return nullptr; }
static void fwrite_b(u64 h,const BStr&b){ OpenFile*f=find_file(h); if(!f||!f->open) path_error("write to a closed or invalid file"); auto p=file_rw(f->path); p->app(b); if(p->s.size()>(50u<<20)) path_end(PE_LIMIT,"output size"); }
static std::string fmt_of(CallArgs&a,int i){ std::string s; u64 p=C(a,i); if(!cstr(p,s)) return conc_str(p); return s; }
DEF(printf){ Args A{&a,1,0}; BStr b=format(fmt_of(a,0),A); file_rw("<stdout>")->app(b); return vc((u32)b.s.size()); }
DEF(fprintf){ u64 h=C(a,0); Args A{&a,2,0}; BStr b=format(fmt_of(a,1),A); fwrite_b(h,b); return vc((u32)b.s.size()); }
DEF(vfprintf){ u64 h=C(a,0); Args A{nullptr,0,C(a,2)}; BStr b=format(fmt_of(a,1),A); fwrite_b(h,b); return vc((u32)b.s.size()); }
DEF(vprintf){ Args A{nullptr,0,C(a,1)}; BStr b=format(fmt_of(a,0),A); file_rw("<stdout>")->app(b); return vc((u32)b.s.size()); }
DEF(sprintf){ u64 d=C(a,0); Args A{&a,2,0}; BStr b=format(fmt_of(a,1),A); mem_put(d,b,true); return vc((u32)b.s.size()); }
static V snpr(u64 d,u64 n,BStr&b){ size_t full=b.s.size(); if(n){ BStr c=b; if(c.s.size()>n-1){ c.s.resize(n-1); for(auto it=c.sym.begin();it!=c.sym.end();) if(it->first>=n-1) it=c.sym.erase(it); else ++it; } mem_put(d,c,true); } return vc((u32)full); }
DEF(snprintf){ u64 d=C(a,0),n=C(a,1); Args A{&a,3,0}; BStr b=format(fmt_of(a,2),A); return snpr(d,n,b); }
DEF(vsnprintf){ u64 d=C(a,0),n=C(a,1); Args A{nullptr,0,C(a,3)}; BStr b=format(fmt_of(a,2),A); return snpr(d,n,b); }
DEF(puts){ BStr b=bstr_at(C(a,0)); b.put('\n'); file_rw("<stdout>")->app(b); return vc(1); }
DEF(putchar){ BStr b; V v=a.v[0]; if(v.e) v=fromE(mk_extract(v.e,0,8)); b.putv(v); file_rw("<stdout>")->app(b); return a.v[0]; }
DEF(fputc){ u64 h=C(a,1); BStr b; V v=a.v[0]; if(v.e) v=fromE(mk_extract(v.e,0,8)); b.putv(v); fwrite_b(h,b); return a.v[0]; }
DEF(fputs){ u64 h=C(a,1); BStr b=bstr_at(C(a,0)); fwrite_b(h,b); return vc(1); }
DEF(fwrite){ u64 p=C(a,0),n=C(a,1)*C(a,2),h=C(a,3); BStr b; for(u64 i=0;i<n;i++) b.putv(rd(p+i,1)); fwrite_b(h,b); return vc(C(a,2)); }
DEF(fflush){ return vc(0); }
DEF(perror){ BStr b=bstr_at(C(a,0)); b.puts(": error\n"); file_rw("<stderr>")->app(b); return vc(0); }
// ---------------------------------------------------------------- files
static bool load_file(const std::string&p){
  if(st.vfs.count(p)) return true; std::string real=p; auto it=job.files.find(p); if(it!=job.files.end()) real=it->second; FILE*f=fopen(real.c_str(),"rb"); if(!f) return false;
  auto b=std::make_shared<BStr>(); char buf[65536]; size_t n; while((n=fread(buf,1,sizeof buf,f))>0) b->s.append(buf,n); fclose(f);
  for(auto&s:job.syms) if(s.file==p&&s.off<b->s.size()){ Expr*e=named_byte(s.name); b->sym[s.off]=e; static std::map<std::string,Expr*> bounds; auto bi=bounds.find(s.name+' '+s.ranges); if(bi!=bounds.end()){ if(bi->second) assume(bi->second); continue; } undeclare_range(e); Expr*c=nullptr; unsigned mn=255,mx=0; const char*r=s.ranges.c_str(); while(*r){ unsigned lo=strtoul(r,(char**)&r,10),hi=lo; if(*r=='-'){ r++; hi=strtoul(r,(char**)&r,10);} mn=std::min(mn,lo); mx=std::max(mx,hi); Expr*q=mk_and1(mk2(ULE,mkc(lo,8),e),mk2(ULE,e,mkc(hi,8))); c=c?mk_or1(c,q):q; if(*r==',') r++; } bounds[s.name+' '+s.ranges]=c; if(c){ assume(c); declare_range(e,mn,mx); } }
  st.vfs[p]=b; return true; }
static u64 new_file(const std::string&p,bool w){ OpenFile f; f.path=p; f.pos=0; f.open=true; f.write=w; f.handle=alloc_mem(16,AK_FILE,16,true,true); st.files.push_back(f); return f.handle; }
DEF(fopen){ std::string p=conc_str(C(a,0)),m=conc_str(C(a,1)); if(m[0]=='r'){ if(!load_file(p)) return vc(0); return vc(new_file(p,false)); } if(m[0]=='w'){ if(st.vfs.count(p)&&job.o.count("same")){ int k=1; while(st.vfs.count(p+"~"+std::to_string(k))) k++; st.vfs[p+"~"+std::to_string(k)]=st.vfs[p]; } st.vfs[p]=std::make_shared<BStr>(); } else load_file(p); if(p=="<fail>") return vc(0); return vc(new_file(p,true)); }
DEF(fclose){ OpenFile*fl=find_file(C(a,0)); if(!fl||!fl->open) path_error("fclose of a closed or invalid file"); fl->open=false; return vc(0); }
DEF(fread){ u64 p=C(a,0),s=C(a,1),n=C(a,2); OpenFile*fl=find_file(C(a,3)); if(!fl||!fl->open) path_error("read from a closed or invalid file"); auto b=st.vfs[fl->path]; u64 tot=s*n,av=b->s.size()>fl->pos?b->s.size()-fl->pos:0; u64 k=std::min(tot,av);
  if(k&&!mem_valid(p,k,true)) path_error("fread overflows its buffer"); for(u64 i=0;i<k;i++){ auto it=b->sym.find(fl->pos+i); wr(p+i,1,it==b->sym.end()?vc((u8)b->s[fl->pos+i]):V{0,it->second}); } fl->pos+=k; return vc(s?k/s:0); }
DEF(fseek){ OpenFile*fl=find_file(C(a,0)); if(!fl) path_error("fseek of an invalid file"); i64 o=(i64)C(a,1); int wh=C(a,2); u64 sz=st.vfs[fl->path]->s.size(); fl->pos=wh==0?o:wh==1?fl->pos+o:sz+o; return vc(0); }
DEF(ftell){ OpenFile*fl=find_file(C(a,0)); if(!fl) path_error("ftell of an invalid file"); return vc(fl->pos); }
DEF(mkstemps){ u64 p=C(a,0); std::string s=conc_str(p); size_t x=s.rfind("XXXXXX"); if(x==std::string::npos) return vc((u32)-1); char b[16]; snprintf(b,16,"%06d",(int)st.files.size()); for(int i=0;i<6;i++) wr(p+x+i,1,vc(b[i])); return vc(3); }
DEF(ret0){ return vc(0); }
DEF(isatty){ return vc(0); }
DEF(getenv){ return vc(0); }
DEF(getcwd){ u64 p=C(a,0); BStr b; b.puts("/w"); mem_put(p,b,true); return vc(p); }
DEF(time){ u64 p=C(a,0); if(p) wr(p,8,vc(1700000000)); return vc(1700000000); }
DEF(gettimeofday){ u64 p=C(a,0); if(p){ wr(p,8,vc(1700000000)); wr(p+8,8,vc(0)); } return vc(0); }
DEF(localtime){ u64 p=alloc_mem(56,AK_GLOBAL,16,true); wr(p,4,vc(20)); wr(p+4,4,vc(13)); wr(p+8,4,vc(22)); wr(p+12,4,vc(14)); wr(p+16,4,vc(10)); wr(p+20,4,vc(123)); wr(p+24,4,vc(2)); return vc(p); }
DEF(system){ path_error("call of system()"); }
DEF(exit){ tv_exit((int)C(a,0)); return vc(0); }
DEF(abort){ path_error("abort() called"); }
DEF(assert_fail){ std::string s; cstr(C(a,0),s); path_error("assertion failed: "+s); }
// ---------------------------------------------------------------- intrinsics
DEF(abs){ Expr*x=E(a.v[0],a.w[0]); return fromE(mk_ite(mk2(SLT,x,mkc(0,x->w)),mk_neg(x),x)); }
DEF(ptrmask){ return fromE(mk_and1(E(a.v[0],64),E(a.v[1],64))); }
DEF(smax){ Expr*x=E(a.v[0],a.w[0]),*y=E(a.v[1],a.w[0]); return fromE(mk_ite(mk2(SLT,x,y),y,x)); }
DEF(smin){ Expr*x=E(a.v[0],a.w[0]),*y=E(a.v[1],a.w[0]); return fromE(mk_ite(mk2(SLT,x,y),x,y)); }
DEF(umax){ Expr*x=E(a.v[0],a.w[0]),*y=E(a.v[1],a.w[0]); return fromE(mk_ite(mk2(ULT,x,y),y,x)); }
DEF(umin){ Expr*x=E(a.v[0],a.w[0]),*y=E(a.v[1],a.w[0]); return fromE(mk_ite(mk2(ULT,x,y),x,y)); }
DEF(ctpop){ Expr*x=E(a.v[0],a.w[0]); Expr*r=mkc(0,x->w); for(int i=0;i<x->w;i++) r=mk2(ADD,r,mk_zext(mk_extract(x,i,1),x->w)); return fromE(r); }
DEF(fabs){ Expr*x=E(a.v[0],a.w[0]); return fromE(mk2(AND,x,mkc(wmask(x->w-1),x->w))); }
DEF(fshl){ int w=a.w[0]; u64 s=C(a,2)%w; Expr*x=E(a.v[0],w),*y=E(a.v[1],w); if(!s) return fromE(x); return fromE(mk2(OR,mk2(SHL,x,mkc(s,w)),mk2(LSHR,y,mkc(w-s,w)))); }
DEF(bswap){ int w=a.w[0]; Expr*x=E(a.v[0],w),*r=nullptr; for(int i=0;i<w/8;i++){ Expr*b=mk_extract(x,i*8,8); r=r?mk_concat(r,b):b; } return fromE(r); }
DEF(uaddsat){ int w=a.w[0]; Expr*x=E(a.v[0],w),*y=E(a.v[1],w),*s=mk2(ADD,x,y); return fromE(mk_ite(mk2(ULT,s,x),mkc(~(u128)0,w),s)); }
DEF(usubsat){ int w=a.w[0]; Expr*x=E(a.v[0],w),*y=E(a.v[1],w); return fromE(mk_ite(mk2(ULT,x,y),mkc(0,w),mk2(SUB,x,y))); }
DEF(va_start){ u64 p=C(a,0); mem_copy(p,a.va,24); return vc(0); }
DEF(va_copy){ mem_copy(C(a,0),C(a,1),24); return vc(0); }
DEF(expect){ return a.v[0]; }
DEF(trap){ path_error("trap"); }
// ---------------------------------------------------------------- harness interface
static std::map<std::pair<std::string,int>,Expr*> symnames;
Expr*named_var(const std::string&n,int w){ auto k=std::make_pair(n,w); auto it=symnames.find(k); if(it!=symnames.end()) return it->second; return symnames[k]=mkvar(n,w); }
DEF(sx_sym){ std::string n; cstr(C(a,0),n); int idx=(int)C(a,1),w=(int)C(a,2); if(idx>=0) n+=std::to_string(idx); return fromE(mk_zext(named_var(n,w),64)); }
DEF(sx_bytes){ std::string n; cstr(C(a,2),n); u64 p=C(a,0),k=C(a,1); for(u64 i=0;i<k;i++) wr(p+i,1,V{0,named_var(n+"."+std::to_string(i),8)}); return vc(0); }
DEF(sx_assume){ assume(mk_not(mk_eq(E(a.v[0],32),mkc(0,32)))); return vc(0); }
DEF(sx_assert){ std::string n; cstr(C(a,1),n); if(check_assert(mk_not(mk_eq(E(a.v[0],32),mkc(0,32))),n)==0) path_end(PE_VIOL); return vc(0); }
DEF(sx_cover){ std::string n; cstr(C(a,0),n); covered.insert(n); return vc(0); }
DEF(sx_choose){ int k=choose((int)C(a,0)); st.log.push_back(k); return vc(k); }
DEF(sx_concretize){ return vc(C(a,0)); }
DEF(sx_exit_ok){ st.tag|=1ull<<(C(a,0)&31); return vc(0); }
DEF(sx_done){ path_end(PE_DONE); }
DEF(sx_either){ return fromE(mk_zext(mk_or1(mk_not(mk_eq(E(a.v[0],32),mkc(0,32))),mk_not(mk_eq(E(a.v[1],32),mkc(0,32)))),32)); }
DEF(sx_both){ return fromE(mk_zext(mk_and1(mk_not(mk_eq(E(a.v[0],32),mkc(0,32))),mk_not(mk_eq(E(a.v[1],32),mkc(0,32)))),32)); }
DEF(sx_assert_eqf){ u64 p=C(a,0),q=C(a,1); int n=C(a,2); std::string m; cstr(C(a,3),m); Expr*x=E(rd(p,n),n*8),*y=E(rd(q,n),n*8); Expr*ok=mk_or1(mk_eq(x,y),mk_and1(mk2(FUNO,x,x),mk2(FUNO,y,y))); if(check_assert(ok,m)==0) path_end(PE_VIOL); return vc(0); }
static std::vector<std::pair<std::string,H>> table={
#define T(n) {#n,x_##n}
T(malloc),T(calloc),T(free),T(realloc),T(malloc_usable_size),T(memcpy),{"memmove",x_memcpy},T(memset),T(strlen),T(strcmp),T(strncmp),T(memcmp),T(strchr),T(strrchr),T(strdup),T(strtol),T(strtold),T(strtod),T(strtof),T(printf),T(fprintf),T(vfprintf),T(vprintf),T(sprintf),T(snprintf),T(vsnprintf),T(puts),T(putchar),T(fputc),{"putc",x_fputc},T(fputs),T(fwrite),T(fflush),T(perror),
T(fopen),T(fclose),T(fread),T(fseek),T(ftell),T(mkstemps),{"close",x_ret0},{"unlink",x_ret0},T(isatty),T(getenv),T(getcwd),T(time),T(gettimeofday),T(localtime),T(system),T(exit),T(abort),{"__assert_fail",x_assert_fail},{"va_end",x_ret0},
T(sx_sym),T(sx_bytes),T(sx_assume),T(sx_assert),T(sx_cover),T(sx_choose),T(sx_concretize),T(sx_exit_ok),T(sx_done),T(sx_either),T(sx_both),T(sx_assert_eqf)};
static std::vector<std::pair<std::string,H>> intr={{"llvm.memcpy.",x_memcpy},{"llvm.memmove.",x_memcpy},{"llvm.memset.",x_memset},{"llvm.abs.",x_abs},{"llvm.ptrmask.",x_ptrmask},{"llvm.smax.",x_smax},{"llvm.smin.",x_smin},{"llvm.umax.",x_umax},{"llvm.umin.",x_umin},{"llvm.ctpop.",x_ctpop},{"llvm.fabs.",x_fabs},{"llvm.va_start",x_va_start},{"llvm.va_copy",x_va_copy},{"llvm.va_end",x_ret0},{"llvm.expect",x_expect},{"llvm.trap",x_trap},{"llvm.stacksave",x_ret0},{"llvm.stackrestore",x_ret0},{"llvm.fshl",x_fshl},{"llvm.bswap",x_bswap},{"llvm.uadd.sat",x_uaddsat},{"llvm.usub.sat",x_usubsat}};
int ext_lookup(const std::string&n){ for(size_t i=0;i<table.size();i++) if(table[i].first==n) return i; for(size_t i=0;i<intr.size();i++) if(n.compare(0,intr[i].first.size(),intr[i].first)==0) return 1000+i; return -1; }
V ext_call(int id,CallArgs&a,Func*f,bool&pushed,int rd){ return (id>=1000?intr[id-1000].second:table[id].second)(a,f,pushed,rd); }
void ext_init(){ // the three standard streams
  for(auto*n:{"<stdin>","<stdout>","<stderr>"}) new_file(n,true);
  for(auto*m:modules) for(auto&kv:m->globals){ int k=kv.first=="stdin"?0:kv.first=="stdout"?1:kv.first=="stderr"?2:-1; if(k>=0&&kv.second.external) wr(kv.second.addr,8,vc(st.files[k].handle),true); }
}
