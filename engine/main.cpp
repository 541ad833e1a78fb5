// symx: runs jobs (see DESIGN.md) in forked processes.
#include "exec.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <fstream>
#include <sstream>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <atomic>
#include <time.h>
void engine_init(); void engine_explore(int fd,std::atomic<int>*slots); void ext_init();
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static std::vector<Job> read_jobs(const char*fn){
  std::vector<Job> r; std::ifstream f(fn); std::string l; Job j; bool in=false;
  while(std::getline(f,l)){ std::istringstream s(l); std::string k; s>>k; if(k.empty()) continue;
    auto rest=[&]{ std::string x; std::getline(s,x); size_t p=x.find_first_not_of(' '); return p==std::string::npos?std::string():x.substr(p); };
    if(k=="job"){ j=Job(); j.name=rest(); in=true; } else if(k=="end"){ r.push_back(j); in=false; }
    else if(k=="entry") j.entry=rest(); else if(k=="argv"){ std::string a; while(s>>a) j.argv.push_back(a); } else if(k=="file"){ std::string a; s>>a; j.files[a]=rest(); }
    else if(k=="sym"){ SymSpec y; s>>y.file>>y.off>>y.name; y.ranges=rest(); j.syms.push_back(y); } else if(k=="ref") j.ref=rest(); else if(k=="asm") j.asms.push_back(rest()); else if(k=="fn") j.fns.push_back(rest()); else if(k=="opt"){ std::string a; s>>a; j.o[a]=rest(); }
    else if(k=="symref"){ std::string a; s>>a; j.symrefs.push_back({a,rest()}); } else { fprintf(stderr,"bad job line: %s\n",l.c_str()); exit(95); } }
  return r;
}
static void run_job(Job&jb,int fd,std::atomic<int>*slots){
  job=jb; cur_job=jb.name; cur_fn=jb.entry; opt_rlimit=optn("rlimit",10000000); opt_fp_rlimit=optn("fp_rlimit",20000000);
  rlimit rl; rl.rlim_cur=optn("cpu",600); rl.rlim_max=rl.rlim_cur+5; setrlimit(RLIMIT_CPU,&rl); rl.rlim_cur=rl.rlim_max=(optn("mem_mb",3500)+22000ull)<<20; setrlimit(RLIMIT_DATA,&rl);
  if(jb.ref.size()){ refmod=load_module(jb.ref,true); ext_init();
    for(auto&s:jb.symrefs){ auto it=refmod->globals.find(s.first); if(it==refmod->globals.end())continue; std::istringstream is(s.second); std::string n; u64 i=0; while(is>>n) wr(it->second.addr+i++,1,V{0,named_byte(n)},true); } }
  Func*f=get_func(mainmod,jb.entry.empty()?"main":jb.entry); if(!f||f->external){ emit("{\"type\":\"crash\",\"job\":"+jesc(cur_job)+",\"msg\":\"no entry\"}"); exit(94); }
  CallArgs a; a.n=f->params.size(); for(int i=0;i<a.n;i++){ a.v[i]=vc(0); a.w[i]=f->params[i].w; a.cls[i]=0; }
  if(f->name=="main"){ std::vector<std::string> av={"wcc"}; for(auto&s:jb.argv) av.push_back(s); u64 arr=alloc_mem(8*(av.size()+1),AK_GLOBAL,16,true); for(size_t i=0;i<av.size();i++){ u64 p=alloc_mem(av[i].size()+1,AK_GLOBAL,16,true); memcpy((void*)p,av[i].c_str(),av[i].size()+1); wr(arr+8*i,8,vc(p)); } a.v[0]=vc(av.size()); a.v[1]=vc(arr); }
  push_frame(f,a,-1); engine_explore(fd,slots);
}
int main(int argc,char**argv){
  rlimit sl; getrlimit(RLIMIT_STACK,&sl); if(sl.rlim_cur!=RLIM_INFINITY&&sl.rlim_cur<(1ull<<30)&&!getenv("SYMX_STACK")){ sl.rlim_cur=std::min<rlim_t>(sl.rlim_max,1ull<<30); setrlimit(RLIMIT_STACK,&sl); setenv("SYMX_STACK","1",1); execv("/proc/self/exe",argv); }
  std::string mod,out="/dev/stdout",jobs; int J=1; double deadline=1e9;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; if(a=="-m") mod=argv[++i]; else if(a=="-o") out=argv[++i]; else if(a=="-j") J=atoi(argv[++i]); else if(a=="-t") deadline=atof(argv[++i]); else if(a=="-O"){ std::string kv=argv[++i]; size_t e=kv.find('='); opts[kv.substr(0,e)]=kv.substr(e+1); } else if(a=="-q") opt_dump_smt=argv[++i]; else jobs=a; }
  if(opts.count("rlimit")) opt_rlimit=strtoull(opts["rlimit"].c_str(),0,0); if(opts.count("fp_rlimit")) opt_fp_rlimit=strtoull(opts["fp_rlimit"].c_str(),0,0);
  engine_init(); mainmod=load_module(mod,false); ext_init();
  std::vector<Job> js=read_jobs(jobs.c_str()); int fd=open(out.c_str(),O_WRONLY|O_CREAT|O_TRUNC|O_APPEND,0644); if(fd<0){ perror(out.c_str()); return 93; }
  auto*slots=(std::atomic<int>*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); new(slots) std::atomic<int>(J); double t0=now();
  std::map<pid_t,std::pair<std::string,double>> running; size_t next=0; int bad=0;
  auto reap=[&](bool block){ int ws; pid_t p=waitpid(-1,&ws,block?0:WNOHANG); if(p<=0) return false; auto it=running.find(p); if(it==running.end()) return true; slots->fetch_add(1);
    double dt=now()-it->second.second; char b[64]; snprintf(b,64,"%.3f",dt); std::string nm=it->second.first; running.erase(it); std::string l;
    if(WIFSIGNALED(ws)||WEXITSTATUS(ws)){ bad++; l="{\"type\":\"crash\",\"job\":"+jesc(nm)+",\"signal\":"+std::to_string(WIFSIGNALED(ws)?WTERMSIG(ws):0)+",\"status\":"+std::to_string(WIFEXITED(ws)?WEXITSTATUS(ws):0)+",\"wall\":"+b+"}\n"; } else l="{\"type\":\"job\",\"job\":"+jesc(nm)+",\"wall\":"+b+"}\n";
    if(write(fd,l.data(),l.size())<0){} return true; };
  while(next<js.size()||!running.empty()){
    while(reap(false)){}
    if(next<js.size()&&now()-t0>deadline){ for(;next<js.size();next++){ std::string l="{\"type\":\"skipped\",\"job\":"+jesc(js[next].name)+"}\n"; if(write(fd,l.data(),l.size())<0){} } }
    if(now()-t0>deadline*1.3+20) for(auto&r:running) kill(-r.first,SIGKILL);
    if(next<js.size()){ int v=slots->fetch_sub(1); if(v>0){ pid_t p=fork(); if(p==0){ setpgid(0,0); run_job(js[next],fd,slots); _exit(0); } setpgid(p,p); running[p]={js[next].name,now()}; next++; continue; } slots->fetch_add(1); }
    usleep(1000);
  }
  return 0;
}
