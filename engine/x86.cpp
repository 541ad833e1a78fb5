// x86-64 assembly (AT&T) parser and symbolic executor.
#include "x86.h"
#include <stdio.h>
#include <stdlib.h>
#include <ctype.h>
#include <math.h>
static Asm&A(){ return *(Asm*)st.asmp.get(); }
enum H { H_MOV, H_MOVZ, H_MOVS, H_LEA, H_ADD, H_SUB, H_AND, H_OR, H_XOR, H_CMP, H_TEST, H_IMUL, H_MUL, H_NOT, H_NEG, H_INC, H_DEC, H_SHL, H_SHR, H_SAR, H_IDIV, H_DIV, H_CLTD, H_CQTO, H_CLTQ, H_CWTL, H_PUSH, H_POP, H_LEAVE, H_RET, H_CALL, H_JMP, H_JCC, H_SETCC, H_CMOV, H_NOP,
  H_FMOV, H_FARITH, H_FCMP, H_CVTI2F, H_CVTF2I, H_CVTF2F, H_MOVA, H_MOVQ, H_MOVD, H_PXOR, H_PAND, H_POR, H_PANDN, H_SQRT, H_FMINMAX,
  H_FLD, H_FILD, H_FLDC, H_FSTP, H_FST, H_FISTP, H_XARITH, H_FCOMI, H_FXCH, H_FCMOV, H_FNSTCW, H_FLDCW, H_FCHS, H_FABS, H_UD2, H_REPMOV, H_REPSTO, H_UNPCK, H_ADC, H_SBB, H_BT, H_CQTO16, H_CMPXX, H_SHUF, H_MOVH, H_XCHG, H_NONE };
// ---------------------------------------------------------------- parsing
static int reg_of(const std::string&s,int&sz,Operand::K&k){
  static std::map<std::string,std::pair<int,int>> m; if(m.empty()){ const char*b[]={"ax","cx","dx","bx","sp","bp","si","di"}; for(int i=0;i<8;i++){ m[std::string("r")+b[i]]={i,8}; m[std::string("e")+b[i]]={i,4}; m[b[i]]={i,2}; std::string l= i<4?std::string(1,b[i][0])+"l":std::string(b[i])+"l"; m[l]={i,1}; if(i<4) m[std::string(1,b[i][0])+"h"]={i+32,1}; } for(int i=8;i<16;i++){ std::string r="r"+std::to_string(i); m[r]={i,8}; m[r+"d"]={i,4}; m[r+"w"]={i,2}; m[r+"b"]={i,1}; } m["rip"]={RIPREG,8}; }
  if(s.compare(0,3,"xmm")==0){ k=Operand::XMM; sz=16; return atoi(s.c_str()+3); }
  if(s.compare(0,2,"st")==0){ k=Operand::STR; sz=10; return s.size()>2?atoi(s.c_str()+3):0; }
  auto it=m.find(s); if(it==m.end()) return -1; k=Operand::REG; sz=it->second.second; return it->second.first;
}
V parse_placeholder(const std::string&s,bool&ok){ ok=false; if(s.size()>=4&&s[0]=='~'&&s[1]=='S'){ size_t n=strtoul(s.c_str()+2,0,10); if(n<placeholders.size()){ ok=true; return V{0,placeholders[n].first}; } } return vc(0); }
static std::string trim(const std::string&s){ size_t a=s.find_first_not_of(" \t"),b=s.find_last_not_of(" \t"); return a==std::string::npos?"":s.substr(a,b-a+1); }
// sum of terms: numbers, placeholders, at most one symbol (a second, subtracted symbol is returned in sym2)
static bool parse_sum(const std::string&t,V&num,std::string&sym,std::string&sym2){
  num=vc(0); sym.clear(); sym2.clear(); Expr*acc=nullptr; u64 c=0; size_t i=0; int sign=1; bool any=false;
  while(i<t.size()){ char ch=t[i]; if(ch==' '||ch=='\t'){i++;continue;} if(ch=='+'){ sign=1;i++;continue;} if(ch=='-'){ sign=-sign;i++;continue;}
    if(isdigit(ch)){ char*e; u64 v=strtoull(t.c_str()+i,&e,0); i=e-t.c_str(); if(i<t.size()&&(t[i]=='b'||t[i]=='f')) return false; c+=sign<0?-v:v; sign=1; any=true; continue; }
    if(ch=='~'){ size_t j=t.find('~',i+1); bool ok; V v=parse_placeholder(t.substr(i),ok); if(!ok||j==std::string::npos) return false; Expr*e=v.e; if(sign<0) e=mk_neg(e); acc=acc?mk2(ADD,acc,e):e; i=j+1; sign=1; any=true; continue; }
    if(isalpha(ch)||ch=='_'||ch=='.'||ch=='$'){ size_t j=i; while(j<t.size()&&(isalnum(t[j])||strchr("_.$@",t[j]))) j++; std::string n=t.substr(i,j-i); if(sign<0) sym2=n; else if(sym.empty()) sym=n; else return false; i=j; sign=1; any=true; continue; }
    return false; }
  num= acc?fromE(mk2(ADD,acc,mkc(c,64))):vc(c); return any;
}
static Operand parse_operand(std::string t){
  Operand o; t=trim(t); if(t[0]=='*'){ o.ind=true; t=t.substr(1); }
  if(t[0]=='%'){ Operand::K k; o.reg=reg_of(t.substr(1),o.sz,k); if(o.reg<0) path_error("asm: unknown register "+t); o.k=k; return o; }
  std::string s2;
  if(t[0]=='$'){ o.k=Operand::IMM; if(!parse_sum(t.substr(1),o.imm,o.sym,s2)) path_error("asm: bad immediate "+t); return o; }
  size_t p=t.find('('); 
  if(p==std::string::npos){ if(!parse_sum(t,o.imm,o.sym,s2)) path_error("asm: bad operand "+t); o.k=(o.sym.empty()||o.ind)?Operand::MEM:Operand::LABEL; return o; }
  o.k=Operand::MEM; std::string d=trim(t.substr(0,p)); if(!d.empty()&&!parse_sum(d,o.imm,o.sym,s2)) path_error("asm: bad displacement "+t);
  size_t q=t.find(')',p); if(q==std::string::npos) path_error("asm: bad operand "+t); std::string in=t.substr(p+1,q-p-1); std::vector<std::string> ps; size_t b=0; for(;;){ size_t c=in.find(',',b); ps.push_back(trim(in.substr(b,c==std::string::npos?c:c-b))); if(c==std::string::npos) break; b=c+1; }
  Operand::K k; int sz; if(ps[0].size()){ int r=reg_of(ps[0].substr(1),sz,k); if(r<0) path_error("asm: bad base "+t); if(r==RIPREG) o.rip=true; else { o.hasbase=true; o.base=r; if(sz!=8) path_error("asm: base register is not 64 bit: "+t);} }
  if(ps.size()>1&&ps[1].size()){ o.idx=reg_of(ps[1].substr(1),sz,k); if(o.idx<0||sz!=8) path_error("asm: bad index "+t); o.hasidx=true; if(ps.size()>2&&ps[2].size()) o.scale=atoi(ps[2].c_str()); }
  return o;
}
static int cond_code(const std::string&s){ static const std::map<std::string,int> m={{"o",0},{"no",1},{"b",2},{"c",2},{"nae",2},{"ae",3},{"nb",3},{"nc",3},{"e",4},{"z",4},{"ne",5},{"nz",5},{"be",6},{"na",6},{"a",7},{"nbe",7},{"s",8},{"ns",9},{"p",10},{"pe",10},{"np",11},{"po",11},{"l",12},{"nge",12},{"ge",13},{"nl",13},{"le",14},{"ng",14},{"g",15},{"nle",15}}; auto it=m.find(s); return it==m.end()?-1:it->second; }
static int sfx(char c){ return c=='b'?1:c=='w'?2:c=='l'?4:c=='q'?8:0; }
static void decode(Insn&I,const std::string&mn){
  auto opsz=[&]{ for(int i=I.n-1;i>=0;i--) if(I.o[i].k==Operand::REG) return I.o[i].sz; return 0; };
  static const std::map<std::string,int> plain={{"cltd",H_CLTD},{"cdq",H_CLTD},{"cqto",H_CQTO},{"cqo",H_CQTO},{"cltq",H_CLTQ},{"cwtl",H_CWTL},{"leave",H_LEAVE},{"leaveq",H_LEAVE},{"ret",H_RET},{"retq",H_RET},{"nop",H_NOP},{"nopw",H_NOP},{"nopl",H_NOP},{"endbr64",H_NOP},{"ud2",H_UD2},{"fld1",H_FLDC},{"fldz",H_FLDC},{"fxch",H_FXCH},{"fchs",H_FCHS},{"fabs",H_FABS},{"fnstcw",H_FNSTCW},{"fldcw",H_FLDCW},{"fcmovnbe",H_FCMOV},{"fcmovbe",H_FCMOV},{"fcmovb",H_FCMOV},{"fcmovnb",H_FCMOV},{"fcmove",H_FCMOV},{"fcmovne",H_FCMOV},{"movaps",H_MOVA},{"movups",H_MOVA},{"movapd",H_MOVA},{"movdqa",H_MOVA},{"movdqu",H_MOVA},{"movupd",H_MOVA},{"xorps",H_PXOR},{"pxor",H_PXOR},{"xorpd",H_PXOR},{"andps",H_PAND},{"andpd",H_PAND},{"pand",H_PAND},{"orps",H_POR},{"orpd",H_POR},{"por",H_POR},{"sqrtss",H_SQRT},{"sqrtsd",H_SQRT},{"movd",H_MOVD},{"unpcklps",H_UNPCK},{"unpcklpd",H_UNPCK},{"punpckldq",H_UNPCK},{"movlhps",H_UNPCK}};
  auto it=plain.find(mn); if(it!=plain.end()){ I.h=it->second; if(mn=="fld1") I.x=1; if(I.h==H_FCMOV) I.cc=cond_code(mn.substr(5)); if(mn=="sqrtsd") I.sz=8; else if(mn=="sqrtss") I.sz=4; if(mn=="unpcklps"||mn=="punpckldq") I.sz=4; else if(I.h==H_UNPCK) I.sz=8; if(mn=="movaps"||mn=="movapd"||mn=="movdqa") I.x=1; return; }
  if(mn=="call"||mn=="callq"){ I.h=H_CALL; return; } if(mn=="jmp"||mn=="jmpq"){ I.h=H_JMP; return; }
  if(mn[0]=='j'){ I.h=H_JCC; I.cc=cond_code(mn.substr(1)); if(I.cc>=0) return; }
  if(mn.compare(0,3,"set")==0){ I.cc=cond_code(mn.substr(3)); if(I.cc>=0){ I.h=H_SETCC; return; } }
  if(mn.compare(0,4,"cmov")==0){ std::string c=mn.substr(4); I.cc=cond_code(c); if(I.cc<0&&c.size()>1){ I.cc=cond_code(c.substr(0,c.size()-1)); I.sz=sfx(c.back()); } if(I.cc>=0){ I.h=H_CMOV; if(!I.sz) I.sz=opsz(); return; } }
  if(mn=="movabsq"){ I.h=H_MOV; I.sz=8; I.x=1; return; }
  if(mn=="movq"&&(I.o[0].k==Operand::XMM||I.o[1].k==Operand::XMM)){ I.h=H_MOVQ; return; }
  if((mn=="movss"||mn=="movsd")){ I.h=H_FMOV; I.sz=mn=="movss"?4:8; return; }
  if((mn=="movlps"||mn=="movlpd")){ I.h=H_MOVH; I.x=0; return; } if((mn=="movhps"||mn=="movhpd")){ I.h=H_MOVH; I.x=1; return; }
  for(const char*p:{"movs","movz"}) if(mn.compare(0,4,p)==0&&(mn.size()==6||mn.size()==5)){ I.sz2=sfx(mn[4]); I.sz=mn.size()==6?sfx(mn[5]):opsz(); if(I.sz&&I.sz2&&I.sz2<I.sz){ I.h=p[3]=='s'?H_MOVS:H_MOVZ; return; } }
  static const std::map<std::string,int> ints={{"mov",H_MOV},{"lea",H_LEA},{"add",H_ADD},{"sub",H_SUB},{"and",H_AND},{"or",H_OR},{"xor",H_XOR},{"cmp",H_CMP},{"test",H_TEST},{"imul",H_IMUL},{"mul",H_MUL},{"not",H_NOT},{"neg",H_NEG},{"inc",H_INC},{"dec",H_DEC},{"shl",H_SHL},{"sal",H_SHL},{"shr",H_SHR},{"sar",H_SAR},{"idiv",H_IDIV},{"div",H_DIV},{"push",H_PUSH},{"pop",H_POP},{"adc",H_ADC},{"sbb",H_SBB},{"xchg",H_XCHG}};
  static const std::map<std::string,int> fp={{"add",FADD},{"sub",FSUB},{"mul",FMUL},{"div",FDIV}};
  if(mn.size()==5&&mn[3]=='s'&&(mn[4]=='s'||mn[4]=='d')){ auto f=fp.find(mn.substr(0,3)); if(f!=fp.end()){ I.h=H_FARITH; I.x=f->second; I.sz=mn[4]=='s'?4:8; return; } }
  if(mn=="ucomiss"||mn=="comiss"||mn=="ucomisd"||mn=="comisd"){ I.h=H_FCMP; I.sz=mn.back()=='s'?4:8; return; }
  if(mn.compare(0,6,"cvtsi2")==0){ I.h=H_CVTI2F; I.sz=mn[7]=='s'?4:8; I.sz2=mn.size()>8?sfx(mn[8]):(I.o[0].k==Operand::REG?I.o[0].sz:4); return; }
  if(mn.compare(0,8,"cvttss2s")==0||mn.compare(0,8,"cvttsd2s")==0||mn.compare(0,7,"cvtss2s")==0&&mn!="cvtss2sd"||mn.compare(0,7,"cvtsd2s")==0&&mn!="cvtsd2ss"){ bool t=mn[3]=='t'; I.h=H_CVTF2I; I.x=t?3:0; size_t k=t?5:4; I.sz2=mn[k]=='s'?4:8; char l=mn.back(); I.sz=l=='l'?4:l=='q'?8:I.o[1].sz; return; }
  if(mn=="cvtss2sd"){ I.h=H_CVTF2F; I.sz2=4; I.sz=8; return; } if(mn=="cvtsd2ss"){ I.h=H_CVTF2F; I.sz2=8; I.sz=4; return; }
  // x87
  if(mn=="fld"||mn=="flds"||mn=="fldl"||mn=="fldt"){ I.h=H_FLD; char c=mn.back(); I.sz=c=='s'?4:c=='l'?8:c=='t'?10:0; return; }
  if(mn=="fstp"||mn=="fstps"||mn=="fstpl"||mn=="fstpt"){ I.h=H_FSTP; char c=mn.back(); I.sz=c=='s'?4:c=='l'?8:c=='t'?10:0; return; }
  if(mn=="fst"||mn=="fsts"||mn=="fstl"){ I.h=H_FST; char c=mn.back(); I.sz=c=='s'?4:c=='l'?8:0; if(mn=="fst") I.sz=0; return; }
  if(mn=="filds"||mn=="fildl"||mn=="fildq"||mn=="fildll"){ I.h=H_FILD; I.sz=mn=="filds"?2:mn=="fildl"?4:8; return; }
  if(mn=="fistps"||mn=="fistpl"||mn=="fistpq"||mn=="fistpll"||mn=="fisttpll"){ I.h=H_FISTP; I.sz=mn=="fistps"?2:mn=="fistpl"?4:8; return; }
  if(mn=="fcomip"||mn=="fucomip"||mn=="fucompi"||mn=="fcompi"){ I.h=H_FCOMI; I.x=1; return; } if(mn=="fcomi"||mn=="fucomi"){ I.h=H_FCOMI; I.x=0; return; }
  { // fadd fsub fsubr fmul fdiv fdivr, with p (pop) or s/l (memory)
    static const std::vector<std::pair<std::string,int>> xs={{"fsubr",FSUB|256},{"fdivr",FDIV|256},{"fadd",FADD},{"fsub",FSUB},{"fmul",FMUL},{"fdiv",FDIV}};
    for(auto&x:xs) if(mn.compare(0,x.first.size(),x.first)==0){ std::string r=mn.substr(x.first.size()); if(r==""||r=="p"||r=="s"||r=="l"){ I.h=H_XARITH; I.x=x.second; I.cc=r=="p"; I.sz=r=="s"?4:r=="l"?8:0; return; } } }
  auto f=ints.find(mn); if(f!=ints.end()){ I.h=f->second; I.sz=opsz(); if((I.h==H_SHL||I.h==H_SHR||I.h==H_SAR)&&I.n==2&&I.o[1].k==Operand::REG) I.sz=I.o[1].sz; if(I.h==H_PUSH||I.h==H_POP) I.sz=8; if(I.sz) return; I.sz=4; return; }
  if(mn.size()>2){ auto g=ints.find(mn.substr(0,mn.size()-1)); int s=sfx(mn.back()); if(g!=ints.end()&&s){ I.h=g->second; I.sz=s; return; } }
  I.h=-1;
}
struct DItem { std::string label; int size; V num; std::string sym,sym2; };
static std::string demangle(const std::string&s){ size_t p=s.find('@'); return p==std::string::npos?s:s.substr(0,p); }
u64 x86_sym(Asm&a,const std::string&n0){
  std::string n=demangle(n0);
  auto d=a.data.find(n); if(d!=a.data.end()) return d->second;
  auto t=a.text.find(n); if(t!=a.text.end()){ if(refmod){ Func*f=get_func(refmod,n); if(f&&n[0]!='.') { a.entry[f->addr]=t->second; return f->addr; } } u64 ad=a.tbase+16ull*t->second; a.entry[ad]=t->second; return ad; }
  auto e=a.extsym.find(n); if(e!=a.extsym.end()) return e->second;
  u64 ad=0; if(refmod){ if(Func*f=get_func(refmod,n)) ad=f->addr; else { auto g=refmod->globals.find(n); if(g!=refmod->globals.end()) ad=g->second.addr; } }
  if(!ad) ad=alloc_mem(16,AK_FUNC,16,true,true); a.extsym[n]=ad; a.extaddr[ad]=n; return ad;
}
std::shared_ptr<Asm> asm_parse(const std::vector<BStr>&texts){
  auto R=std::make_shared<Asm>(); Asm&a=*R; int fileno=0; std::vector<std::pair<std::string,std::vector<DItem>>> objs; std::map<std::string,int> objidx; std::string section="text"; std::map<std::string,u64> comm,aligns; u64 cur_align=1; std::vector<std::string> tlab; bool tdata=false; std::map<int,std::string> prefix; std::vector<int> owner;
  std::set<std::string> defined;
  // names private to a file: those of the first file keep their names (the reference has them), those of the others are prefixed
  std::vector<std::set<std::string>> priv(texts.size()), glob(texts.size()), defs(texts.size());
  for(size_t k=0;k<texts.size();k++){ const std::string&S=texts[k].s; std::set<std::string> cm,lo; size_t p=0;
    while(p<S.size()){ size_t nl=S.find('\n',p); if(nl==std::string::npos) nl=S.size(); std::string l=trim(S.substr(p,nl-p)); p=nl+1; size_t c=0; while(c<l.size()&&(isalnum(l[c])||strchr("_.$",l[c]))) c++;
      if(c&&c<l.size()&&l[c]==':'){ defs[k].insert(l.substr(0,c)); continue; }
      size_t sp=l.find_first_of(" \t"); if(sp==std::string::npos||l[0]!='.') continue; std::string mn=l.substr(0,sp),rest=trim(l.substr(sp)); rest=trim(rest.substr(0,rest.find('#'))); if(mn==".globl"||mn==".global") glob[k].insert(rest); else if(mn==".local") lo.insert(rest); else if(mn==".comm") cm.insert(trim(rest.substr(0,rest.find(',')))); }
    for(auto&n:cm){ defs[k].insert(n); if(!lo.count(n)) glob[k].insert(n); } for(auto&n:defs[k]) if(!glob[k].count(n)) priv[k].insert(n); }
  if(texts.size()) { a.priv0=priv[0]; a.glob0=glob[0]; }
  for(auto&T:texts){ std::string pre=texts.size()>1?"f"+std::to_string(fileno)+":":""; fileno++; section="text"; cur_align=1; objs.push_back({"",{}}); bool fresh_obj=false;
    auto loc=[&](const std::string&n){ std::string m=demangle(n); return m.compare(0,2,".L")==0||m.compare(0,3,".SL")==0||m.compare(0,4,".FPL")==0||m==".RU4TOLD"||m==".LDTORU4"? pre+m : texts.size()==1||m.empty()||m[0]=='.'? m : [&]()->std::string{ size_t at=m.find('@'); std::string b=at==std::string::npos?m:m.substr(0,at); if(fileno==1) return at==std::string::npos?m:b; if(priv[fileno-1].count(b)) return pre+b; if(priv[0].count(b)) return "g:"+b; return b; }(); };
    // constants among the code belong to the label before them
    auto datahook=[&]{ if(section!="text") return; if(tlab.size()){ std::string n=tlab.back(); tlab.clear(); tdata=true; a.text.erase(n); objs.push_back({n,{}}); aligns[n]=cur_align; cur_align=1; a.section[n]="text"; } else if(!tdata) path_error("asm: data without a label in the text section"); };
    size_t pos=0; const std::string&S=T.s; tlab.clear(); tdata=false;
    while(pos<S.size()){ size_t nl=S.find('\n',pos); if(nl==std::string::npos) nl=S.size();
      // a symbolic byte can only be part of a string literal
      size_t lp=pos; std::string line=S.substr(pos,nl-pos); pos=nl+1;
      std::string l=trim(line); if(l.empty()||l[0]=='#') continue;
      bool symline=false; { auto it=T.sym.lower_bound(lp); if(it!=T.sym.end()&&it->first<nl) symline=true; }
      if(l.compare(0,7,".string")==0||l.compare(0,6,".asciz")==0||l.compare(0,6,".ascii")==0){
        if(section.compare(0,5,"debug")==0) continue;
        size_t q=line.find('"'); if(q==std::string::npos) path_error("asm: bad string"); datahook(); size_t i=q+1; auto&items=objs.back().second;
        auto put=[&](V v){ items.push_back(DItem{"",1,v,"",""}); };
        for(;;){ if(i>=line.size()) path_error("asm: unterminated string"); auto sy=T.sym.find(lp+i); if(sy!=T.sym.end()){ Expr*e=sy->second; Expr*bad=mk_or1(mk_eq(e,mkc('"',8)),mk_or1(mk_eq(e,mkc('\\',8)),mk_or1(mk_eq(e,mkc('\n',8)),mk_eq(e,mkc(0,8))))); if(branch(bad)) path_error("the assembler would misread a character emitted unescaped in a string"); put(V{0,e}); i++; continue; }
          char c=line[i]; if(c=='"'){ i++; break; } if(c!='\\'){ put(vc((u8)c)); i++; continue; }
          c=line[++i];
          if((c>='0'&&c<='7')||(c=='~'&&line[i+1]=='S')){ // up to three octal digits, each of which can be a number printed with %d or a symbolic character
            Expr*v=mkc(0,16); int k=0;
            while(k<3&&i<line.size()){ Expr*d=nullptr; size_t len=1; auto sy=T.sym.find(lp+i);
              if(sy!=T.sym.end()){ d=mk2(SUB,mk_zext(sy->second,16),mkc(48,16)); if(!branch(mk2(ULT,d,mkc(8,16)))) break; }
              else if(line[i]=='~'&&line[i+1]=='S'){ bool ok; size_t e=line.find('~',i+1); V x=parse_placeholder(line.substr(i,e-i+1),ok); if(!ok) path_error("asm: bad escape"); if(!branch(mk2(ULT,x.e,mkc(8,x.e->w)))) path_error("asm: a printed number in a string has several digits"); d=mk_extract(x.e,0,16); len=e-i+1; }
              else if(line[i]>='0'&&line[i]<='7') d=mkc(line[i]-'0',16); else break;
              v=mk2(ADD,mk2(MUL,v,mkc(8,16)),d); i+=len; k++; }
            if(!k) path_error("asm: bad escape"); put(fromE(mk_extract(v,0,8))); continue; }
          int v=c=='n'?10:c=='t'?9:c=='r'?13:c=='b'?8:c=='f'?12:c=='\\'?'\\':c=='"'?'"':-1; if(v<0) path_error(std::string("asm: escape \\")+c); put(vc(v)); i++; }
        if(l.compare(0,6,".ascii")!=0||l.compare(0,6,".asciz")==0||l.compare(0,7,".string")==0) if(l.compare(0,7,".string")==0||l.compare(0,6,".asciz")==0) put(vc(0));
        continue; }
      if(symline) path_error("an input-dependent character outside a string in the assembly: "+l);
      // comments
      { size_t h=l.find('#'); if(h!=std::string::npos&&l.find('"')==std::string::npos) l=trim(l.substr(0,h)); if(l.empty()) continue; }
      // labels
      while(true){ size_t c=0; while(c<l.size()&&(isalnum(l[c])||strchr("_.$",l[c]))) c++; if(c&&c<l.size()&&l[c]==':'){ std::string n=loc(l.substr(0,c)); if(section!="text"||true){ if(defined.count(n)&&section.compare(0,5,"debug")!=0) path_error("asm: symbol defined twice: "+n); defined.insert(n); }
          if(section=="text"){ a.text[n]=a.ins.size(); tlab.push_back(n); } else if(section.compare(0,5,"debug")!=0){ if(!objs.back().second.empty()||objs.back().first==""||true){ objs.push_back({n,{}}); aligns[n]=cur_align; cur_align=1; a.section[n]=section; } }
          l=trim(l.substr(c+1)); if(l.empty()) break; } else break; }
      if(l.empty()) continue;
      size_t sp=l.find_first_of(" \t"); std::string mn=l.substr(0,sp), rest=sp==std::string::npos?"":trim(l.substr(sp));
      if(mn[0]=='.'){
        if(mn==".text"){ section="text"; } else if(mn==".data"){ section="data"; } else if(mn==".bss"){ section="bss"; }
        else if(mn==".section"){ std::string n=rest.substr(0,rest.find_first_of(", \t")); if(n.compare(0,6,".debug")==0||n.compare(0,5,".note")==0) section="debug"; else if(n.compare(0,5,".text")==0) section="text"; else if(n.compare(0,7,".rodata")==0) section="rodata"; else section="data"; }
        else if(mn==".globl"||mn==".global"){ a.globl.insert(loc(rest)); }
        else if(mn==".align"||mn==".balign") cur_align=std::max<u64>(cur_align,strtoull(rest.c_str(),0,0)); else if(mn==".p2align") cur_align=1ull<<atoi(rest.c_str());
        else if(mn==".comm"||mn==".lcomm"){ size_t c=rest.find(','); std::string n=loc(trim(rest.substr(0,c))); V num; std::string s1,s2; size_t c2=rest.find(',',c+1); if(!parse_sum(rest.substr(c+1,c2==std::string::npos?c2:c2-c-1),num,s1,s2)||num.e) path_error("asm: bad .comm"); comm[n]=std::max(comm[n],num.c); u64 al=c2==std::string::npos?1:strtoull(rest.c_str()+c2+1,0,0); aligns[n]=al; }
        else if(mn==".byte"||mn==".word"||mn==".value"||mn==".short"||mn==".long"||mn==".int"||mn==".quad"){ if(section.compare(0,5,"debug")==0) continue; datahook(); int sz=mn==".byte"?1:(mn==".long"||mn==".int")?4:mn==".quad"?8:2; size_t b=0; for(;;){ size_t c=rest.find(',',b); DItem d; d.size=sz; if(!parse_sum(rest.substr(b,c==std::string::npos?c:c-b),d.num,d.sym,d.sym2)) path_error("asm: bad data "+l); if(d.sym.size()) d.sym=loc(d.sym); if(d.sym2.size()) d.sym2=loc(d.sym2); objs.back().second.push_back(d); if(c==std::string::npos) break; b=c+1; }}
        else if(mn==".zero"||mn==".skip"||mn==".space"){ if(section.compare(0,5,"debug")==0) continue; datahook(); V num; std::string s1,s2; if(!parse_sum(rest,num,s1,s2)) path_error("asm: bad .zero"); u64 n=concretize(num,64); if(n>(1u<<24)) path_error("asm: .zero "+std::to_string((i64)n)); for(u64 i=0;i<n;i++) objs.back().second.push_back(DItem{"",1,vc(0),"",""}); }
        else if(mn==".local"||mn==".type"||mn==".size"||mn==".file"||mn==".loc"||mn==".ident"||mn==".addrsig"||mn==".addrsig_sym"||mn.compare(0,4,".cfi")==0||mn==".uleb128"||mn==".weak"||mn==".set"){ }
        else path_error("asm: unknown directive "+mn);
        continue; }
      if(section!="text") path_error("asm: instruction outside the text section: "+l);
      if(mn=="rep"||mn=="repne"||mn=="lock"){ path_error("asm: unsupported prefix "+l); }
      tlab.clear(); tdata=false; Insn I; I.text=l; std::vector<std::string> os; int par=0; std::string cur; for(char c:rest){ if(c=='(') par++; if(c==')') par--; if(c==','&&!par){ os.push_back(cur); cur.clear(); } else cur+=c; } if(!trim(cur).empty()) os.push_back(cur);
      if(os.size()>3) path_error("asm: too many operands: "+l); for(auto&s:os){ I.o[I.n]=parse_operand(s); if(I.o[I.n].sym.size()){ std::string raw=I.o[I.n].sym; size_t at=raw.find('@'); I.o[I.n].sym=loc(at==std::string::npos?raw:raw.substr(0,at))+(at==std::string::npos?"":raw.substr(at)); } I.n++; }
      decode(I,mn); if(I.h<0) path_error("asm: unsupported instruction: "+l); a.ins.push_back(I); owner.push_back(fileno); }
  }
  { Insn I; I.h=H_UD2; I.text="<end of text>"; a.ins.push_back(I); }
  a.tbase=alloc_mem(16*a.ins.size()+16,AK_FUNC,16,true,true);
  // layout of data: merge label-only objects with the following one (two labels, one address)
  for(auto&o:objs){ if(o.first.empty()){ if(!o.second.empty()) path_error("asm: data before any label"); continue; } u64 n=0; for(auto&d:o.second) n+=d.size; u64 ad=0; if(refmod){ auto g=refmod->globals.find(o.first); if(g!=refmod->globals.end()){ ad=g->second.addr; if(g->second.size<n) ad=0; } }
    if(!ad) ad=alloc_mem(n,AK_ASM,std::max<u64>(16,aligns[o.first]),true,false); a.data[o.first]=ad; a.dsize[o.first]=n; a.align[o.first]=aligns[o.first]; a.order.push_back(o.first); }
  for(auto&c:comm){ if(a.data.count(c.first)) continue; u64 ad=0; if(refmod){ auto g=refmod->globals.find(c.first); if(g!=refmod->globals.end()&&g->second.size>=c.second) ad=g->second.addr; } if(!ad) ad=alloc_mem(c.second,AK_ASM,16,true,false); a.data[c.first]=ad; a.dsize[c.first]=c.second; a.section[c.first]="bss"; a.align[c.first]=aligns[c.first]; std::vector<V>&iv=a.init[c.first]; iv.assign(c.second,vc(0)); }
  // contents; those of symbols shared with the reference go to a.init and are written when the assembly runs
  for(auto&o:objs){ if(o.first.empty()) continue; std::vector<V>&iv=a.init[o.first]; for(auto&d:o.second){ V v=d.num; if(d.sym.size()){ u64 s=x86_sym(a,d.sym); if(d.sym2.size()) s-=x86_sym(a,d.sym2); v=v.e?fromE(mk2(ADD,v.e,mkc(s,64))):vc(v.c+s); } for(int i=0;i<d.size;i++) iv.push_back(v.e?fromE(mk_extract(v.e,8*i,8)):vc((v.c>>(8*i))&255)); } }
  // resolve labels used by instructions
  for(auto&I:a.ins) for(int k=0;k<I.n;k++) if(I.o[k].sym.size()){ std::string s=I.o[k].sym; size_t at=s.find("@GOTPCREL"); if(at!=std::string::npos){ std::string n=s.substr(0,at); if(!a.got.count(n)){ u64 g=alloc_mem(8,AK_ASM,16,true,false); wr(g,8,vc(x86_sym(a,n))); shadow[g-ABASE]|=SH_RO; a.got[n]=g; } I.o[k].imm=vc(a.got[n]+I.o[k].imm.c); } else { u64 v=x86_sym(a,s); I.o[k].imm=I.o[k].imm.e?fromE(mk2(ADD,I.o[k].imm.e,mkc(v,64))):vc(I.o[k].imm.c+v); } }
  for(auto&t:a.text) x86_sym(a,t.first);
  return R;
}
// ---------------------------------------------------------------- execution
static X86&X(){ return st.x86; }
static Expr*e64(V v){ return E(v,64); }
Expr*x86_reg(int r,int sz){ if(r>=32) return mk_extract(e64(X().r[r-32]),8,8); return mk_extract(e64(X().r[r]),0,sz*8); }
static void setreg(int r,int sz,Expr*v){ V&d=X().r[r>=32?r-32:r]; if(sz==8) d=fromE(v); else if(sz==4) d=fromE(mk_zext(v,64)); else if(r>=32) d=fromE(mk_concat(mk_concat(mk_extract(e64(d),16,48),v),mk_extract(e64(d),0,8))); else d=fromE(mk_concat(mk_extract(e64(d),sz*8,64-sz*8),v)); }
static V ea(const Operand&o){ V d=o.imm; Expr*s=nullptr; u64 c=d.e?0:d.c; if(d.e) s=d.e; if(o.hasbase){ V b=X().r[o.base]; if(b.e) s=s?mk2(ADD,s,b.e):b.e; else c+=b.c; } if(o.hasidx){ V b=X().r[o.idx]; if(b.e){ Expr*m=mk2(MUL,b.e,mkc(o.scale,64)); s=s?mk2(ADD,s,m):m; } else c+=b.c*o.scale; } if(!s) return vc(c); return fromE(mk2(ADD,s,mkc(c,64))); }
static void chk(V a){ if(!a.e&&!X().r[RSP].e){ u64 sp=X().r[RSP].c; if(a.c<sp-128&&a.c>=X().rlo) path_error("access below the stack pointer"); } }
static Expr*ld(V a,int n){ chk(a); return E(mem_read(a,n,n*8),n*8); }
static void sto(V a,int n,Expr*v){ chk(a); mem_write(a,fromE(v),n,n*8); }
static Expr*get(const Operand&o,int sz){ switch(o.k){ case Operand::REG: return x86_reg(o.reg,sz); case Operand::IMM: return mk_extract(E(o.imm,64),0,sz*8); case Operand::MEM: case Operand::LABEL: return ld(ea(o),sz); case Operand::XMM: if(sz==16) return mk_concat(e64(X().x[o.reg][1]),e64(X().x[o.reg][0])); return mk_extract(e64(X().x[o.reg][0]),0,sz*8); default: path_error("asm operand"); } }
static void put(const Operand&o,int sz,Expr*v){ switch(o.k){ case Operand::REG: setreg(o.reg,sz,v); break; case Operand::MEM: case Operand::LABEL: sto(ea(o),sz,v); break; case Operand::XMM: if(sz==16){ X().x[o.reg][0]=fromE(mk_extract(v,0,64)); X().x[o.reg][1]=fromE(mk_extract(v,64,64)); } else if(sz==8) X().x[o.reg][0]=fromE(v); else X().x[o.reg][0]=fromE(mk_concat(mk_extract(e64(X().x[o.reg][0]),32,32),v)); break; default: path_error("asm operand"); } }
static void flags(int k,Expr*a,Expr*b,Expr*r,int w){ Flags&f=X().fl; f.kind=k; f.a=fromE(a); f.b=b?fromE(b):vc(0); f.r=fromE(r); f.w=w; if(w>64) path_error("flags width"); }
static Expr*cond(int cc){
  Flags&f=X().fl; if(f.kind==FK_NONE) path_error("use of undefined flags"); int w=f.w; Expr*a=E(f.a,w),*b=E(f.b,w),*r=E(f.r,f.kind==FK_FCMP?w:w); Expr*z=mkc(0,w); Expr*res=nullptr; int c=cc&~1;
  if(f.kind==FK_FCMP){ Expr*un=mk2(FUNO,a,b); switch(c){ case 2: res=mk_or1(un,mk2(FLT,a,b)); break; case 4: res=mk_or1(un,mk2(FEQ,a,b)); break; case 6: res=mk_not(mk2(FLT,b,a)); break; case 10: res=un; break; case 0: case 8: res=mkc(0,1); break; case 12: res=mkc(0,1); break; case 14: res=mk_or1(un,mk2(FEQ,a,b)); break; } }
  else { Expr*zf=mk_eq(r,z),*sf=mk_extract(r,w-1,1); Expr*cf=nullptr,*of=nullptr;
    switch(f.kind){ case FK_SUB: if(c==2) res=mk2(ULT,a,b); else if(c==4) res=mk_eq(a,b); else if(c==6) res=mk2(ULE,a,b); else if(c==12) res=mk2(SLT,a,b); else if(c==14) res=mk2(SLE,a,b); else of=mk_extract(mk2(AND,mk2(XOR,a,b),mk2(XOR,a,r)),w-1,1); break;
      case FK_ADD: cf=mk2(ULT,r,a); of=mk_extract(mk2(AND,mk2(XOR,a,r),mk2(XOR,b,r)),w-1,1); break; case FK_LOGIC: cf=of=mkc(0,1); break; case FK_SHIFT: case FK_IMUL: break; }
    if(!res) switch(c){ case 0: res=of; break; case 2: res=cf; break; case 4: if(f.kind==FK_IMUL) break; res=zf; break; case 6: if(cf) res=mk_or1(cf,zf); break; case 8: if(f.kind==FK_IMUL) break; res=sf; break; case 10: { Expr*lo=mk_extract(r,0,8),*p=mkc(1,1); for(int i=0;i<8;i++) p=mk2(XOR,p,mk_extract(lo,i,1)); res=p; break; } case 12: if(of) res=mk2(XOR,sf,of); break; case 14: if(of) res=mk_or1(zf,mk2(XOR,sf,of)); break; }
    if(!res) path_error("use of undefined flags"); }
  return cc&1?mk_not(res):res;
}
static void push64(Expr*v){ V&sp=X().r[RSP]; if(sp.e) sp=vc(concretize(sp,64)); u64 n=sp.c-8; wr(n,8,fromE(v)); sp=vc(n); }
static Expr*pop64(){ V&sp=X().r[RSP]; u64 s=concretize(sp,64); Expr*v=E(rd(s,8),64); sp=vc(s+8); return v; }
static void fpush(Expr*v){ X86&x=X(); if(x.sp>=8) path_error("x87 stack overflow"); for(int i=x.sp;i>0;i--) x.st[i]=x.st[i-1]; x.st[0]=v; x.sp++; }
static Expr*fpop(){ X86&x=X(); if(x.sp<1) path_error("x87 stack underflow"); Expr*v=x.st[0]; for(int i=0;i+1<x.sp;i++) x.st[i]=x.st[i+1]; x.sp--; return v; }
static Expr*fst(int i){ if(i>=X().sp) path_error("x87 register is empty"); return X().st[i]; }
static int rounding(){ V c=X().cw; if(!isconc(c)){ Expr*e=mk_extract(c.e,10,2); return (int)concretize(fromE(e),2); } u64 v=c.e?c.e->lo:c.c; return (v>>10)&3; }
static int clob=0;
static void clobber_caller_saved(bool keep_rax,bool keep_x0){ X86&x=X(); for(int r:{RAX,RCX,RDX,RSI,RDI,R8,R9,R10,R11}){ if(r==RAX&&keep_rax) continue; x.r[r]=fromE(mkvar("clob"+std::to_string(clob++),64)); } for(int i=0;i<16;i++){ if(i==0&&keep_x0) continue; for(int h=0;h<2;h++) x.x[i][h]=fromE(mkvar("clob"+std::to_string(clob++),64)); } x.fl.kind=FK_NONE; }
static int target_index(u64 ad){ auto it=A().entry.find(ad); if(it!=A().entry.end()) return it->second; if(ad>=A().tbase&&ad<A().tbase+16*A().ins.size()&&!((ad-A().tbase)&15)) return (ad-A().tbase)/16; return -1; }
static void libcall(const std::string&n){
  if(X().sp) path_error("x87 stack not empty at a call");
  CallArgs a; static const int ar[]={RDI,RSI,RDX,RCX,R8,R9}; a.n=6; for(int i=0;i<6;i++){ a.v[i]=X().r[ar[i]]; a.w[i]=64; a.cls[i]=0; }
  int id=ext_lookup(n); bool ok=false; for(const char*p:{"memcpy","memmove","memset","malloc","calloc","free","strlen"}) if(n==p) ok=true; if(!ok||id<0) path_error("call of an external function: "+n);
  bool pushed=false; V r=ext_call(id,a,nullptr,pushed,-1); if(pushed) path_error("symbolic operand of "+n); X().r[RAX]=r; clobber_caller_saved(true,false);
}
void x86_start(u64 target){ X86&x=X(); x.rip=target_index(target); if((int)x.rip<0) path_error("entry not found"); }
void x86_step(){
  Asm&a=A(); X86&x=st.x86; const Insn&I=a.ins[x.rip]; u64 next=x.rip+1; int w=I.sz*8; counters["x86_steps"]++;
  switch(I.h){
  case H_MOV: { Expr*v=get(I.o[0],I.sz); if(I.o[0].k==Operand::IMM&&I.sz==8&&!I.x&&isconc(I.o[0].imm)){ i64 t=(i64)I.o[0].imm.c; if(I.o[0].sym.empty()&&(t!=(i64)(int)t)&&!(I.o[1].k==Operand::REG)) path_error("asm: immediate does not fit: "+I.text); } put(I.o[1],I.sz,v); break; }
  case H_MOVZ: put(I.o[1],I.sz,mk_zext(get(I.o[0],I.sz2),w)); break;
  case H_MOVS: put(I.o[1],I.sz,mk_sext(get(I.o[0],I.sz2),w)); break;
  case H_LEA: put(I.o[1],I.sz,mk_extract(e64(ea(I.o[0])),0,w)); break;
  case H_ADD: case H_SUB: case H_AND: case H_OR: case H_XOR: case H_CMP: case H_TEST: {
    if(I.o[0].k==Operand::IMM&&isconc(I.o[0].imm)&&I.o[0].sym.empty()){ i64 t=(i64)I.o[0].imm.c; if(I.sz==8&&t!=(i64)(int)t) path_error("asm: immediate does not fit: "+I.text); } else if(I.o[0].k==Operand::IMM&&I.o[0].imm.e&&I.sz==8){ if(branch(mk_not(mk_eq(I.o[0].imm.e,mk_sext(mk_extract(I.o[0].imm.e,0,32),64))))) path_error("asm: immediate does not fit: "+I.text); }
    Expr*s=get(I.o[0],I.sz),*d=get(I.o[1],I.sz); 
    if(I.h==H_XOR&&I.o[0].k==Operand::REG&&I.o[1].k==Operand::REG&&I.o[0].reg==I.o[1].reg){ flags(FK_LOGIC,d,s,mkc(0,w),w); put(I.o[1],I.sz,mkc(0,w)); break; }
    switch(I.h){ case H_ADD: { Expr*r=mk2(ADD,d,s); flags(FK_ADD,d,s,r,w); put(I.o[1],I.sz,r); break; } case H_SUB: { Expr*r=mk2(SUB,d,s); flags(FK_SUB,d,s,r,w); put(I.o[1],I.sz,r); break; } case H_CMP: flags(FK_SUB,d,s,mk2(SUB,d,s),w); break; case H_TEST: flags(FK_LOGIC,d,s,mk2(AND,d,s),w); break;
      default: { Expr*r=mk2(I.h==H_AND?AND:I.h==H_OR?OR:XOR,d,s); flags(FK_LOGIC,d,s,r,w); put(I.o[1],I.sz,r); } } break; }
  case H_IMUL: { Expr*r; if(I.n==1){ // widening
      Expr*p=mk2(MUL,mk_sext(x86_reg(RAX,I.sz),2*w),mk_sext(get(I.o[0],I.sz),2*w)); setreg(RAX,I.sz,mk_extract(p,0,w)); setreg(RDX,I.sz,mk_extract(p,w,w)); x.fl.kind=FK_NONE; break; }
    if(I.n==2) r=mk2(MUL,get(I.o[1],I.sz),get(I.o[0],I.sz)); else r=mk2(MUL,get(I.o[1],I.sz),get(I.o[0],I.sz)); put(I.o[I.n-1],I.sz,r); x.fl.kind=FK_NONE; break; }
  case H_NOT: put(I.o[0],I.sz,mk_not(get(I.o[0],I.sz))); break;
  case H_NEG: { Expr*v=get(I.o[0],I.sz); Expr*r=mk_neg(v); flags(FK_SUB,mkc(0,w),v,r,w); put(I.o[0],I.sz,r); break; }
  case H_INC: case H_DEC: { Expr*v=get(I.o[0],I.sz); Expr*r=mk2(I.h==H_INC?ADD:SUB,v,mkc(1,w)); put(I.o[0],I.sz,r); flags(FK_SHIFT,v,nullptr,r,w); break; }
  case H_SHL: case H_SHR: case H_SAR: { const Operand&d=I.o[I.n-1]; Expr*v=get(d,I.sz); Expr*c=I.n==1?mkc(1,8):I.o[0].k==Operand::REG?x86_reg(I.o[0].reg,1):mk_extract(E(I.o[0].imm,64),0,8); if(I.n==2&&I.o[0].k==Operand::REG&&I.o[0].reg!=RCX) path_error("asm: shift count register"); Expr*m=mk2(AND,c,mkc(I.sz==8?63:31,8)); Expr*cw=w>=8?(w==8?m:mk_zext(m,w)):m; Expr*r=mk2(I.h==H_SHL?SHL:I.h==H_SHR?LSHR:ASHR,v,cw); put(d,I.sz,r); if(m->isc()&&m->lo) flags(FK_SHIFT,v,nullptr,r,w); else if(!m->isc()) x.fl.kind=FK_NONE; break; }
  case H_CLTD: setreg(RDX,4,mk2(ASHR,x86_reg(RAX,4),mkc(31,32))); break;
  case H_CQTO: setreg(RDX,8,mk2(ASHR,x86_reg(RAX,8),mkc(63,64))); break;
  case H_CLTQ: setreg(RAX,8,mk_sext(x86_reg(RAX,4),64)); break;
  case H_CWTL: setreg(RAX,4,mk_sext(x86_reg(RAX,2),32)); break;
  case H_IDIV: case H_DIV: { bool s=I.h==H_IDIV; Expr*b=get(I.o[0],I.sz); Expr*q,*r; if(w<32) path_error("asm: narrow division"); Expr*lo=x86_reg(RAX,I.sz),*hi=x86_reg(RDX,I.sz);
    if(branch(mk_eq(b,mkc(0,w)))) path_error("division by zero traps");
    if(s&&hi==mk2(ASHR,lo,mkc(w-1,w))){ if(branch(mk_and1(mk_eq(lo,mkc((u128)1<<(w-1),w)),mk_eq(b,mkc(~(u128)0,w))))) path_error("division overflow traps"); q=mk2(SDIV,lo,b); r=mk2(SREM,lo,b); }
    else if(!s&&hi->isc()&&!hi->cv()){ q=mk2(UDIV,lo,b); r=mk2(UREM,lo,b); }
    else { Expr*n=mk_concat(hi,lo); Expr*bb=s?mk_sext(b,2*w):mk_zext(b,2*w); Expr*Q=mk2(s?SDIV:UDIV,n,bb); if(branch(mk_not(mk_eq(Q,s?mk_sext(mk_extract(Q,0,w),2*w):mk_zext(mk_extract(Q,0,w),2*w))))) path_error("division overflow traps"); q=mk_extract(Q,0,w); r=mk_extract(mk2(s?SREM:UREM,n,bb),0,w); }
    setreg(RAX,I.sz,q); setreg(RDX,I.sz,r); x.fl.kind=FK_NONE; break; }
  case H_MUL: { Expr*p=mk2(MUL,mk_zext(x86_reg(RAX,I.sz),2*w),mk_zext(get(I.o[0],I.sz),2*w)); setreg(RAX,I.sz,mk_extract(p,0,w)); setreg(RDX,I.sz,mk_extract(p,w,w)); x.fl.kind=FK_NONE; break; }
  case H_PUSH: { Expr*v=get(I.o[0],8); push64(v); break; }
  case H_POP: { Expr*v=pop64(); put(I.o[0],8,v); break; }
  case H_LEAVE: { x.r[RSP]=x.r[RBP]; Expr*v=pop64(); setreg(RBP,8,v); break; }
  case H_RET: { u64 t=concretize(fromE(pop64()),64); if(t==RET_MAGIC){ tv_asm_return(); return; } if(x.sp>2) path_error("x87 stack at return"); int k=target_index(t); if(k<0) path_error("return to a corrupted address"); next=k; break; }
  case H_CALL: { u64 sp=concretize(x.r[RSP],64); if(sp&15) path_error("stack not 16 byte aligned at a call: "+I.text); u64 t; if(I.o[0].k==Operand::LABEL) t=I.o[0].imm.c; else t=concretize(fromE(get(I.o[0],8)),64);
    if(x.sp) path_error("x87 stack not empty at a call");
    int k=target_index(t); if(k<0){ auto e=a.extaddr.find(t); std::string n; if(e!=a.extaddr.end()) n=e->second; else { auto f=func_by_addr.find(t); if(f!=func_by_addr.end()) n=f->second->name; } if(n.empty()) path_error("call to an invalid address"); libcall(n); break; }
    push64(mkc(a.tbase+16*next,64)); x.fl.kind=FK_NONE; next=k; counters["x86_calls"]++; break; }
  case H_JMP: if(I.o[0].k==Operand::LABEL){ int k=target_index(I.o[0].imm.c); if(k<0) path_error("jump to an unknown label: "+I.text); next=k; } else { u64 t=concretize(fromE(get(I.o[0],8)),64); int k=target_index(t); if(k<0) path_error("jump to an invalid address"); next=k; } break;
  case H_JCC: { if(branch(cond(I.cc))){ int k=target_index(I.o[0].imm.c); if(k<0) path_error("jump to an unknown label: "+I.text); next=k; } break; }
  case H_SETCC: put(I.o[0],1,mk_zext(cond(I.cc),8)); break;
  case H_CMOV: { Expr*s=get(I.o[0],I.sz),*d=get(I.o[1],I.sz); put(I.o[1],I.sz,mk_ite(cond(I.cc),s,d)); break; }
  case H_NOP: break;
  // ---- SSE
  case H_FMOV: { Expr*v=get(I.o[0],I.sz); if(I.o[1].k==Operand::XMM&&I.o[0].k!=Operand::XMM){ x.x[I.o[1].reg][0]=fromE(mk_zext(v,64)); x.x[I.o[1].reg][1]=vc(0); } else put(I.o[1],I.sz,v); break; }
  case H_MOVA: { if(I.x) for(int k=0;k<2;k++) if(I.o[k].k==Operand::MEM){ V ad=ea(I.o[k]); if(!ad.e&&(ad.c&15)) path_error("misaligned vector access: "+I.text); } put(I.o[1],16,get(I.o[0],16)); break; }
  case H_MOVQ: { Expr*v=get(I.o[0],8); if(I.o[1].k==Operand::XMM){ x.x[I.o[1].reg][0]=fromE(v); x.x[I.o[1].reg][1]=vc(0); } else put(I.o[1],8,v); break; }
  case H_MOVD: { Expr*v=get(I.o[0],4); if(I.o[1].k==Operand::XMM){ x.x[I.o[1].reg][0]=fromE(mk_zext(v,64)); x.x[I.o[1].reg][1]=vc(0); } else put(I.o[1],4,v); break; }
  case H_MOVH: { if(I.o[1].k==Operand::XMM) x.x[I.o[1].reg][I.x]=fromE(get(I.o[0],8)); else put(I.o[1],8,e64(x.x[I.o[0].reg][I.x])); break; }
  case H_PXOR: { bool self=I.o[0].k==Operand::XMM&&I.o[0].reg==I.o[1].reg; put(I.o[1],16,self?mkc(0,128):mk2(XOR,get(I.o[1],16),get(I.o[0],16))); break; }
  case H_PAND: put(I.o[1],16,mk2(AND,get(I.o[1],16),get(I.o[0],16))); break; case H_POR: put(I.o[1],16,mk2(OR,get(I.o[1],16),get(I.o[0],16))); break;
  case H_UNPCK: { Expr*s=get(I.o[0],16),*d=get(I.o[1],16); if(I.sz==8) put(I.o[1],16,mk_concat(mk_extract(s,0,64),mk_extract(d,0,64))); else put(I.o[1],16,mk_concat(mk_concat(mk_extract(s,32,32),mk_extract(d,32,32)),mk_concat(mk_extract(s,0,32),mk_extract(d,0,32)))); break; }
  case H_FARITH: put(I.o[1],I.sz,mk2((Op)I.x,get(I.o[1],I.sz),get(I.o[0],I.sz))); break;
  case H_SQRT: put(I.o[1],I.sz,mk_fp1(FSQRT,get(I.o[0],I.sz),w)); break;
  case H_FCMP: { Expr*s=get(I.o[0],I.sz),*d=get(I.o[1],I.sz); flags(FK_FCMP,d,s,d,w); break; }
  case H_CVTI2F: put(I.o[1],I.sz,mk_fp1(SITOF,get(I.o[0],I.sz2),w)); break;
  case H_CVTF2I: put(I.o[1],I.sz,mk_fp1(FTOSI,get(I.o[0],I.sz2),w,I.x)); break;
  case H_CVTF2F: put(I.o[1],I.sz,mk_fp1(FCVT,get(I.o[0],I.sz2),w)); break;
  // ---- x87
  case H_FLD: if(I.sz==0) fpush(fst(I.o[0].reg)); else { Expr*v=get(I.o[0],I.sz); fpush(I.sz==10?v:mk_fp1(FCVT,v,80)); } break;
  case H_FLDC: { u128 v=0; if(I.x) v=((u128)0x3fff<<64)|0x8000000000000000ull; fpush(mkc(v,80)); break; }
  case H_FILD: fpush(mk_fp1(SITOF,get(I.o[0],I.sz),80)); break;
  case H_FSTP: case H_FST: { if(I.sz==0){ Expr*v=fst(0); fst(I.o[0].reg); x.st[I.o[0].reg]=v; if(I.h==H_FSTP) fpop(); } else { Expr*v=fst(0); put(I.o[0],I.sz,I.sz==10?v:mk_fp1(FCVT,v,w)); if(I.h==H_FSTP) fpop(); } break; }
  case H_FISTP: { int rm=rounding(); Expr*v=fst(0); put(I.o[0],I.sz,mk_fp1(FTOSI,v,w,rm)); fpop(); break; }
  case H_XARITH: { bool rev=I.x&256; Op op=(Op)(I.x&255); if(I.sz){ Expr*m=mk_fp1(FCVT,get(I.o[0],I.sz),80); Expr*s=fst(0); x.st[0]=rev?mk2(op,m,s):mk2(op,s,m); break; }
    int src=0,dst=1; if(I.n==2){ src=I.o[0].reg; dst=I.o[1].reg; } else if(I.n==1){ if(I.cc){ src=0; dst=I.o[0].reg; } else { src=I.o[0].reg; dst=0; } } Expr*s=fst(src),*d=fst(dst);
    // the AT&T mnemonics of the non-commutative forms with a destination other than %st are swapped
    if(dst!=0&&(op==FSUB||op==FDIV)) rev=!rev;  // now 'rev' is Intel's R form: dst = src - dst
    x.st[dst]=rev?mk2(op,s,d):mk2(op,d,s); if(I.cc) fpop(); break; }
  case H_FCOMI: { int o=I.n?I.o[0].reg:1; Expr*s0=fst(0),*s1=fst(o); Flags&f=x.fl; f.kind=FK_FCMP; f.a=fromE(s0); f.b=fromE(s1); f.r=f.a; f.w=80; if(I.x) fpop(); break; }
  case H_FXCH: { int o=I.n?I.o[0].reg:1; Expr*t=fst(0); Expr*u=fst(o); x.st[0]=u; x.st[o]=t; break; }
  case H_FCMOV: { Expr*s=fst(I.o[0].reg),*d=fst(0); x.st[0]=mk_ite(cond(I.cc),s,d); break; }
  case H_FNSTCW: put(I.o[0],2,E(x.cw,16)); break;
  case H_FLDCW: x.cw=fromE(get(I.o[0],2)); break;
  case H_FCHS: x.st[0]=mk2(XOR,fst(0),mkc((u128)1<<79,80)); break;
  case H_FABS: x.st[0]=mk2(AND,fst(0),mkc(wmask(79),80)); break;
  case H_UD2: path_error("execution reached "+I.text);
  default: path_error("unsupported instruction: "+I.text);
  }
  x.rip=next;
}
