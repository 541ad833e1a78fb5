// Symbolic executor of LLVM bitcode, with an x86-64 assembly executor on the same memory and path state.
#pragma once
#include "solver.h"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

struct V { u64 c; Expr *e; };            // e==nullptr: concrete (width <= 64)
inline V vc(u64 c){ return V{c,nullptr}; }
inline u64 m64(int w){ return w>=64?~0ull:((1ull<<w)-1); }
inline Expr *E(const V &v,int w){ return v.e?v.e:mkc(v.c,w); }
inline V fromE(Expr *e){ if(e->isc()&&e->w<=64) return V{e->lo,nullptr}; return V{0,e}; }
inline bool isconc(const V&v){ return !v.e||v.e->isc(); }

// ---------------------------------------------------------------- memory: an identity mapped arena with a shadow byte per byte
static const u64 ABASE=0x100000000000ull, ASIZE=0x80000000ull;
extern u8 *shadow; extern Expr **symarr;
enum { SH_V=1, SH_RO=2, SH_SYM=4, SH_UN=8 };
inline bool in_arena(u64 a,u64 n){ return a>=ABASE && a<ABASE+ASIZE && n<=ASIZE && a+n<=ABASE+ASIZE; }
struct Hdr { u64 size; u32 magic; u8 kind, alive, pad[2]; };   // lies before every allocation, itself inaccessible
enum { AK_GLOBAL, AK_HEAP, AK_STACK, AK_ASM, AK_FUNC, AK_FILE };

struct PathEnd { int kind; std::string msg; };
enum { PE_DONE, PE_ERROR, PE_INFEASIBLE, PE_LIMIT, PE_EXIT, PE_VIOL };

// ---------------------------------------------------------------- code
struct Func; struct Module;
struct Edge { int pc; std::vector<std::pair<int,int>> copies; };   // dst reg, src operand
struct Inst { u16 op; u16 w; u16 w2; u16 sub; int dst; int a,b,c; void *x; };
struct Param { int w; int ext; bool byval; u64 bsize; int cls; };   // ext: 0 none 1 sext 2 zext; cls 0 int 1 sse 2 x87/memory
struct Func {
  std::string name; Module *mod=nullptr; void *llvm=nullptr; u64 addr=0; bool translated=false, vararg=false, external=false, retfp=false;
  int nregs=0; int retw=0; int retext=0; std::vector<Param> params; std::vector<Inst> code; std::vector<V> consts; std::vector<Edge> edges; int ext_id=-1; u64 calls=0;
};
struct Frame { Func *f; int pc; int retdst; u32 base; u64 stacksave; u64 va; };
struct Global { std::string name; u64 addr, size; void *llvm; bool constant, internal, external; };
struct Module { std::string name; std::map<std::string,Func*> funcs; std::map<std::string,Global> globals; void *llvm=nullptr, *ctx=nullptr; bool ref=false; };

struct BStr { std::string s; std::map<size_t,Expr*> sym; void put(char c){ s.push_back(c);} void puts(const std::string&t){ s+=t; } void putv(V v){ if(v.e) sym[s.size()]=v.e; s.push_back(v.e?'?':(char)v.c);} void app(const BStr&o){ for(auto&kv:o.sym) sym[s.size()+kv.first]=kv.second; s+=o.s; } };
struct OpenFile { std::string path; size_t pos; bool open,write; u64 handle; };

// ---------------------------------------------------------------- x86
enum { RAX,RCX,RDX,RBX,RSP,RBP,RSI,RDI,R8,R9,R10,R11,R12,R13,R14,R15,RIPREG };
enum { FK_NONE, FK_ADD, FK_SUB, FK_LOGIC, FK_FCMP, FK_SHIFT, FK_IMUL };
struct Flags { int kind=0; V a,b,r; int w=0; };
struct X86 { V r[16]; V x[16][2]; Expr *st[8]; int sp; Flags fl; V cw; u64 rip; u64 entry_rsp; V saved[16]; u64 rlo; };

struct State {
  std::vector<Frame> frames; std::vector<V> regs; std::vector<Expr*> pc; std::shared_ptr<Model> model; bool model_ok=true;
  std::vector<OpenFile> files; std::map<std::string,std::shared_ptr<BStr>> vfs; std::vector<std::pair<std::string,std::shared_ptr<std::vector<V>>>> inputs;
  u64 heap, stack; X86 x86; int mode=0;       // 0 program under test (bitcode), 1 reference (bitcode), 2 x86
  u64 steps=0, ref_start=0, asm_limit=~0ull; int forks=0; int phase=0; int fidx=-1; std::vector<V> refvals; std::shared_ptr<std::map<u64,std::vector<V>>> refmem; std::shared_ptr<void> asmp; int exit_code=0; int unk=0; u64 tag=0; std::vector<u64> log;
};
extern State st;

// engine api used by the models
[[noreturn]] void path_error(const std::string &msg);
[[noreturn]] void path_end(int kind,const std::string&msg="");
bool branch(Expr *cond);                         // decides a symbolic condition, forking when both sides are feasible
inline bool truth(V v,int w){ return v.e?branch(w==1?v.e:mk_not(mk_eq(v.e,mkc(0,w)))):v.c!=0; }
u64 concretize(V v,int w);                       // forks over every feasible value
int choose(int n);                               // forks over 0..n-1
void assume(Expr *c);
bool may(Expr*c,Model*m=nullptr);                // satisfiable together with the path condition (unknown counts as yes)
int check_assert(Expr *cond,const std::string &msg,const std::string&kind="assert");    // 1 holds, 0 violated (reported), 2 undecided
Expr *fresh(const std::string&name,int w);
u64 alloc_mem(u64 size,int kind,u64 align=16,bool init=false,bool ro=false);
void free_mem(u64 a);
bool find_alloc(u64 addr,u64 *base,u64*size);
V mem_read(V addr,int nbytes,int w);
void mem_write(V addr,V val,int nbytes,int w);
V rd(u64 a,int n);                               // concrete address, n bytes
void wr(u64 a,int n,V v,bool force=false);
bool mem_valid(u64 a,u64 n,bool write);
void mem_copy(u64 d,u64 s,u64 n);
bool range_conc(u64 a,u64 n);
bool cstr(u64 a,std::string&out);                // concrete C string; false when a symbolic byte occurs first
BStr bstr_at(u64 a,u64 max=~0ull);               // C string with symbolic bytes (forks on a possible NUL)
void mem_put(u64 a,const BStr&b,bool nul);
void emit(const std::string &json);
std::string jesc(const std::string&s);
std::string model_json(const Model&m);
Model full_model();
extern std::vector<std::pair<Expr*,int>> placeholders;
V parse_placeholder(const std::string&s,bool&ok);
// externals
int ext_lookup(const std::string&name);
struct CallArgs { V v[64]; int w[64]; int cls[64]; int n=0; u64 va=0; };
V ext_call(int id,CallArgs&a,Func*f,bool&pushed,int retdst);
// x86 and translation validation
void x86_step();
void tv_start(const std::string&jobdef);
void tv_exit(int code);          // the compiler finished
void tv_ref_return(V v);
void tv_asm_return();
extern std::vector<Module*> modules; extern std::map<u64,Func*> func_by_addr; extern Module *mainmod,*refmod;
Func *get_func(Module*m,const std::string&n);
bool func_internal(Func*f);
void push_frame(Func*f,CallArgs&a,int retdst);
Module *load_module(const std::string&path,bool ref,const std::vector<std::string>&only={});
extern std::map<std::string,u64> counters; extern std::set<std::string> covered, called_funcs;
extern std::map<std::string,std::string> opts;
u64 optn(const char*k,u64 d);
extern std::string cur_job, cur_fn;
struct SymSpec { std::string file; size_t off; std::string name; std::string ranges; };
struct Job { std::string name, entry; std::vector<std::string> argv; std::map<std::string,std::string> files; std::vector<SymSpec> syms; std::string ref; std::vector<std::string> asms, fns; std::map<std::string,std::string> o; std::vector<std::pair<std::string,std::string>> symrefs; };
extern Job job;
Expr *named_byte(const std::string&name);
std::string backtrace_str();
struct Scalar { u64 off; int w; int fp; bool ptr; };   // fp: 0 integer, 1 float or double, 2 x87
std::vector<Scalar> global_scalars(Module*m,const std::string&n), ret_scalars(Func*f), sret_scalars(Func*f), byval_scalars(Func*f,int i); bool has_sret(Func*f); u64 sret_size(Func*f), param_align(Func*f,int i);
Expr*named_var(const std::string&n,int w); void report(const std::string&kind,const std::string&msg,const Model&m);
extern u8 *trailp;
