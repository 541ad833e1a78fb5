// Hash-consed bit-vector expressions with local simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;
typedef unsigned __int128 u128; typedef __int128 i128;

enum Op : u8 {
  CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR, CONCAT, EXTRACT, ZEXT, SEXT,
  EQ, ULT, ULE, SLT, SLE, ITE,
  // floating point over IEEE bit patterns (width 32, 64, or 80 = x87 extended)
  FADD, FSUB, FMUL, FDIV, FSQRT, FEQ, FLT, FLE, FUNO, FCVT, FTOSI, FTOUI, SITOF, UITOF, FROUND,
  OP_COUNT
};
extern const char *op_names[];
inline bool op_is_fp_arith(Op o){ return (o>=FADD && o<=FSQRT) || (o>=FCVT && o<=FROUND); }
inline bool op_is_fp(Op o){ return o>=FADD; }

struct Expr {
  Op op; u8 nk; u16 w; u32 aux;      // aux: EXTRACT low bit, VAR id, FROUND/FTOSI rounding mode
  u32 id; bool fp;                   // fp: contains fp arithmetic somewhere
  Expr *k[3]; u64 lo, hi;            // CONST value
  u128 cv() const { return ((u128)hi<<64)|lo; }
  bool isc() const { return op==CONST; }
};
struct Expr;
struct VarInfo { std::string name; int w; bool ranged=false; u64 lo=0, hi=0; };   // ranged: an assumption bounds the variable on every path
void undeclare_range(Expr*v); void declare_range(Expr*v,u64 lo,u64 hi);
extern std::vector<VarInfo> vars;
extern std::vector<Expr*> var_exprs;

inline u128 wmask(int w){ return w>=128 ? ~(u128)0 : (((u128)1<<w)-1); }
Expr *mkc(u128 v,int w);
Expr *mkvar(const std::string &name,int w);
Expr *mk2(Op op, Expr *a, Expr *b);
Expr *mk_ite(Expr *c, Expr *a, Expr *b);
Expr *mk_extract(Expr *a, int lo, int w);
Expr *mk_concat(Expr *hi, Expr *lo);
Expr *mk_zext(Expr *a, int w);
Expr *mk_sext(Expr *a, int w);
Expr *mk_not(Expr *a);     // bitwise
Expr *mk_neg(Expr *a);
Expr *canon(Expr *e);     // an equal expression in which sums and bitwise chains have a canonical order
inline Expr *mk_eq(Expr *a, Expr *b){ return mk2(EQ,a,b); }
Expr *mk_fp1(Op op, Expr *a, int w, u32 aux=0);   // FSQRT FCVT FTOSI FTOUI SITOF UITOF FROUND
inline Expr *mk_bool(bool b){ return mkc(b,1); }
inline Expr *mk_and1(Expr*a,Expr*b){ return mk2(AND,a,b); }
inline Expr *mk_or1(Expr*a,Expr*b){ return mk2(OR,a,b); }
std::string estr(Expr *e, int depth=6);
u128 fp_op_const(Op op, u32 aux, int w, int aw, u128 a, u128 b);

// evaluation under an assignment
struct Model { std::unordered_map<u32,u128> v; u128 get(u32 id) const { auto it=v.find(id); return it==v.end()?0:it->second; } };
u128 eval(Expr *e, const Model &m);
// sorted list of variable ids
const std::vector<u32> &varset(Expr *e);
size_t expr_count();
