#pragma once
#include "exec.h"
struct Operand { enum K:u8 { NONE, REG, XMM, STR, IMM, MEM, LABEL } k=NONE; bool ind=false, rip=false, hasbase=false, hasidx=false; int reg=0, sz=0, base=0, idx=0, scale=1; V imm{0,nullptr}; std::string sym; };
struct Insn { int h=-1; int sz=0, sz2=0, cc=0, x=0; Operand o[3]; int n=0; std::string text; };
struct AsmData { std::string label; u64 addr,size; bool comm; };
struct Asm {
  std::vector<Insn> ins; std::set<std::string> priv0, glob0; std::map<std::string,int> text; std::map<std::string,u64> data; std::map<std::string,u64> dsize; u64 tbase=0; std::map<u64,int> entry; std::map<u64,std::string> extaddr; std::map<std::string,u64> extsym, got; std::set<std::string> globl;
  std::map<std::string,std::vector<V>> init; std::vector<std::string> order; std::map<std::string,u64> align; std::map<std::string,std::string> section; std::vector<u64> objs;
  struct Lit { u64 a,n; }; std::vector<Lit> anon;
};
std::shared_ptr<Asm> asm_parse(const std::vector<BStr>&texts);
void x86_start(u64 target);
u64 x86_sym(Asm&A,const std::string&n);
static const u64 RET_MAGIC=0x7ff7deadbee0ull;
Expr *x86_reg(int r,int sz);
V xread(const Insn&i,const Operand&o,int sz);
