// Reference terms: what the user asked for, independent of the library's own representation.
#pragma once
#include "oracle.h"
#include "Filesystem.h"
#include <string.h>
#include <memory>
#include <random>
struct Rng { uint64_t s; Rng(uint64_t x):s(x*0x9E3779B97F4A7C15ull+0x1234567){ for(int i=0;i<4;i++) next(); }
  uint64_t next(){ s^=s<<13; s^=s>>7; s^=s<<17; return s; } int u(int n){ return (int)((next()>>11)%n); } bool p(int pc){ return u(100)<pc; } ld f(){ return (next()>>11)/(ld)(1ull<<53);} };
enum Op { O_SYM,O_INT,O_REAL,O_BOOL,O_ZERO,O_EYE,O_MAT,O_SYMM,O_NEG,O_ADD,O_SUB,O_MUL,O_DIV,O_POW,O_SQRT,O_SIN,O_COS,O_TAN,O_ASIN,O_ACOS,O_ATAN,O_ABS,O_SIGN,O_ATAN2,O_ELEM,O_IF,O_LESS,O_GREATER,O_EQUAL,O_SKEW,O_SCALAR,O_TRANS,O_SOLVE,O_OUTER,O_INV,O_DER,O_NADD,O_NMUL };
static const char* opn[]={"sym","int","real","bool","zero","eye","mat","symm","neg","+","-","*","/","pow","sqrt","sin","cos","tan","asin","acos","atan","abs","sign","atan2","elem","if","<",">","==","skew","scalar","transpose","solve","outer","inverse","der","sum","prod"};
struct T; typedef std::shared_ptr<T> TP;
struct Sh { int nd,r,c; int n_() const {return r*c;} bool operator==(Sh const&o)const{return nd==o.nd&&r==o.r&&c==o.c;} };
struct T { Op op; std::vector<TP> k; std::string name; ld v; int i,j; Sh sh; bool raw; BasicPtr cache; T(Op o):op(o),v(0),i(0),j(0),raw(false){} };
static std::string show(TP const&t){ std::string s; char b[64];
  switch(t->op){ case O_SYM: return t->name; case O_INT: snprintf(b,64,"%d",(int)t->v); return b; case O_REAL: snprintf(b,64,"%.6Lgr",t->v); return b; case O_BOOL: return t->v?"true":"false";
   case O_ZERO: snprintf(b,64,"zero(%d:%dx%d)",t->sh.nd,t->sh.r,t->sh.c); return b; case O_EYE: snprintf(b,64,"eye(%d)",t->sh.r); return b; default: break; }
  s=opn[t->op]; if(t->raw) s="new_"+s; if(t->op==O_MAT||t->op==O_SYMM){ snprintf(b,64,"%d:%dx%d",t->sh.nd,t->sh.r,t->sh.c); s+=b; } s+="("; for(size_t i=0;i<t->k.size();i++){ if(i) s+=","; s+=show(t->k[i]); } if(t->op==O_ELEM){ snprintf(b,64,",%d,%d",t->i,t->j); s+=b;} if(t->op==O_POW){ snprintf(b,64,",%.6Lg%s",t->v,t->i?"":"r"); s+=b;} return s+")"; }
static V tval(TP const&t, Env const&env){
  auto a=[&](int i){ return tval(t->k[i],env); };
  switch(t->op){
    case O_SYM: return env.at(t->name); case O_INT: case O_REAL: case O_BOOL: return V(S(t->v));
    case O_ZERO: return V(t->sh.nd,t->sh.r,t->sh.c); case O_EYE: return veye(2,t->sh.r);
    case O_MAT: { V r(t->sh.nd,t->sh.r,t->sh.c); for(int i=0;i<r.n();i++) r.a[i]=a(i).a[0]; return r; }
    case O_SYMM: { V r(2,t->sh.r,t->sh.c); int q=0; for(int i=0;i<r.r;i++)for(int j=i;j<r.r;j++){ r.at(i,j)=r.at(j,i)=a(q++).a[0]; } return r; }
    case O_NEG: return vneg(a(0)); case O_ADD: return vadd(a(0),a(1)); case O_SUB: return vadd(a(0),vneg(a(1))); case O_MUL: return vmul(a(0),a(1));
    case O_NADD: { V r=a(0); for(size_t i=1;i<t->k.size();i++) r=vadd(r,a(i)); return r; }
    case O_NMUL: { V r=a(0); for(size_t i=1;i<t->k.size();i++) r=vmul(r,a(i)); return r; }
    case O_DIV: return vmul(a(0),vpow(a(1),-1)); case O_POW: return vpow(a(0),t->v); case O_SQRT: return vpow(a(0),0.5L);
    case O_SIN: return map1(a(0),sinS); case O_COS: return map1(a(0),cosS); case O_TAN: return map1(a(0),tanS); case O_ASIN: return map1(a(0),asinS); case O_ACOS: return map1(a(0),acosS); case O_ATAN: return map1(a(0),atanS);
    case O_ABS: return map1(a(0),absS); case O_SIGN: return map1(a(0),signS); case O_ATAN2: return V(atan2S(a(0).a[0],a(1).a[0]));
    case O_ELEM: return vel(a(0),t->i,t->j); case O_IF: return vif(a(0),a(1),a(2)); case O_LESS: return vcmp(a(0),a(1),0); case O_GREATER: return vcmp(a(0),a(1),1); case O_EQUAL: return vcmp(a(0),a(1),2);
    case O_SKEW: return vskew(a(0)); case O_SCALAR: return V(a(0).a[0]); case O_TRANS: return vtr(a(0)); case O_SOLVE: { V A=a(0),b=a(1); if(A.sc()&&b.sc()) return V(b.a[0]/A.a[0]); return vsolve(A,b);} case O_OUTER: { V x=vmul(a(0),vtr(a(1))); x.nd=2; return x; } case O_INV: return vinv(a(0));
    case O_DER: return map1(a(0),[](S const&x){return D(x);});
  }
  throw Ill("tval"); }
static Shape shp(Sh const&s){ return s.nd==0?Shape(): s.nd==1? (s.c==1?Shape(s.r):Shape(1,s.r,s.c)) : Shape(s.r,s.c); }
struct World { std::map<std::string,BasicPtr> sym; };
static BasicPtr build(TP const&t, World&w){
  if(t->cache.get()) return t->cache;
  auto a=[&](int i){ return build(t->k[i],w); };
  bool raw=t->raw; BasicPtr r; BasicPtrVec v;
  #define UN(C) r= raw? BasicPtr(new C(a(0))) : C::New(a(0)); break
  #define BI(C) { BasicPtr x=a(0),y=a(1); r= raw? BasicPtr(new C(x,y)) : C::New(x,y); break; }
  switch(t->op){
    case O_SYM: r=w.sym.at(t->name); break;
    case O_INT: r= raw? BasicPtr(new Int((int)t->v)) : Int::New((int)t->v); break;
    case O_REAL: r= raw? BasicPtr(new Real((double)t->v)) : Real::New((double)t->v); break;
    case O_BOOL: r= BasicPtr(new Bool(t->v!=0)); break;
    case O_ZERO: r= Zero::getZero(shp(t->sh)); break;
    case O_EYE: r= Util::eye(shp(t->sh)); break;
    case O_MAT: { for(size_t i=0;i<t->k.size();i++) v.push_back(a(i)); r=BasicPtr(new Matrix(v,shp(t->sh))); break; }
    case O_SYMM: { for(size_t i=0;i<t->k.size();i++) v.push_back(a(i)); r=BasicPtr(new SymmetricMatrix(v,shp(t->sh))); break; }
    case O_NEG: if(raw) r=BasicPtr(new Neg(a(0))); else if(t->i&1) r=-a(0); else r=Neg::New(a(0)); break;
    case O_ADD: { BasicPtr x=a(0),y=a(1); r= raw? BasicPtr(new Add(x,y)) : (t->i&1)? x+y : Add::New(x,y); break; }
    case O_SUB: { BasicPtr x=a(0),y=a(1); r= raw? BasicPtr(new Add(x,BasicPtr(new Neg(y)))) : x-y; break; }
    case O_MUL: { BasicPtr x=a(0),y=a(1); r= raw? BasicPtr(new Mul(x,y)) : (t->i&1)? x*y : Mul::New(x,y); break; }
    case O_NADD: for(size_t i=0;i<t->k.size();i++) v.push_back(a(i)); r=BasicPtr(new Add(v)); break;
    case O_NMUL: for(size_t i=0;i<t->k.size();i++) v.push_back(a(i)); r=BasicPtr(new Mul(v)); break;
    case O_DIV: { BasicPtr x=a(0),y=a(1); r=Util::div(x,y); break; }
    case O_POW: { BasicPtr x=a(0); BasicPtr e = t->i? BasicPtr(new Int((int)t->v)) : BasicPtr(new Real((double)t->v)); if(raw) r=BasicPtr(new Pow(x,e)); else if(t->j==0) r=Pow::New(x,e); else r= t->i? Util::pow(x,(int)t->v) : Util::pow(x,(double)t->v); break; }
    case O_SQRT: r=Util::sqrt(a(0)); break;
    case O_SIN: UN(Sin); case O_COS: UN(Cos); case O_TAN: UN(Tan); case O_ASIN: UN(Asin); case O_ACOS: UN(Acos); case O_ATAN: UN(Atan); case O_ABS: UN(Abs); case O_SIGN: UN(Sign);
    case O_SKEW: UN(Skew); case O_SCALAR: UN(Scalar); case O_TRANS: UN(Transpose); case O_INV: UN(Inverse);
    case O_ATAN2: BI(Atan2) case O_LESS: BI(Less) case O_GREATER: BI(Greater) case O_EQUAL: BI(Equal) case O_SOLVE: BI(Solve) case O_OUTER: BI(Outer)
    case O_ELEM: { BasicPtr x=a(0); r= raw? BasicPtr(new Element(x,t->i,t->j)) : Element::New(x,t->i,t->j); break; }
    case O_IF: { BasicPtr x=a(0),y=a(1),z=a(2); r= raw? BasicPtr(new If(x,y,z)) : If::New(x,y,z); break; }
    case O_DER: r= raw? BasicPtr(new Der(a(0))) : Der::New(a(0)); break;
  }
  t->cache=r; return r; }
static void clearCache(TP const&t){ t->cache=BasicPtr(); for(auto&k:t->k) clearCache(k); }
static TP mkT(Op o, std::vector<TP> k, Sh s){ TP t(new T(o)); t->k=k; t->sh=s; return t; }
struct SymDecl { const char*n; Sh sh; int kind; };  // kind 0 var 1 param 2 const 3 input 4 state
static const SymDecl SD[]={ {"a",{0,1,1},0},{"b",{0,1,1},0},{"c",{0,1,1},0},{"q",{0,1,1},4},{"p",{0,1,1},1},{"kc",{0,1,1},2},{"ui",{0,1,1},3},
  {"v3",{1,3,1},0},{"u3",{1,3,1},0},{"p3",{1,3,1},1},{"w2",{1,2,1},0},{"z2",{1,2,1},0},{"s3",{1,3,1},4},{"r3",{1,1,3},0},{"A",{2,3,3},0},{"B",{2,3,3},0},{"P",{2,3,3},1},{"M",{2,2,2},0},{"N",{2,2,2},0},{"Kk",{2,3,2},0},{"L",{2,2,3},0},{"y1",{1,1,1},0},{"X1",{2,1,1},0} };
static const int NSD=sizeof(SD)/sizeof(SD[0]);
// a fixed reference term given on the command line (mode "term"): replay of a verifier counterexample
static TP FIXED,FIXED2; static std::string FIXSYM; static std::vector<SymDecl> EXTRA;
static TP cloneT(TP const&t){ TP r(new T(*t)); r->cache=BasicPtr(); for(auto&x:r->k) x=cloneT(x); return r; }
static TP parseT(std::vector<std::string> const&w,size_t&p){ if(w.at(p++)!="(") throw std::runtime_error("term"); std::string o=w.at(p++); int op=-1; for(int i=0;i<=O_NMUL;i++) if(o==opn[i]) op=i; if(op<0) throw std::runtime_error("op "+o);
  TP t(new T((Op)op)); int par=atoi(w.at(p++).c_str()); t->raw= par&&op!=O_SYM; t->v=strtold(w.at(p++).c_str(),0); t->i=atoi(w.at(p++).c_str()); t->j=atoi(w.at(p++).c_str()); t->sh.nd=atoi(w.at(p++).c_str()); t->sh.r=atoi(w.at(p++).c_str()); t->sh.c=atoi(w.at(p++).c_str()); t->name=w.at(p++); int n=atoi(w.at(p++).c_str()); while(n-->0) t->k.push_back(parseT(w,p)); if(w.at(p++)!=")") throw std::runtime_error("term");
  if(op==O_SYM){ bool have=false; for(auto&d:EXTRA) if(t->name==d.n) have=true; if(!have){ SymDecl d={::strdup(t->name.c_str()),t->sh,par?1:0}; EXTRA.push_back(d); } } return t; }
static TP parseTerm(const char*s){ std::vector<std::string> w; std::string c; for(;;s++){ if(*s==' '||!*s){ if(!c.empty()) w.push_back(c); c=""; if(!*s) break; } else c+=*s; } size_t p=0; return parseT(w,p); }
static World mkWorld(){ World w; for(int i=0;i<NSD;i++){ Symbol_Kind k= SD[i].kind==1?PARAMETER:SD[i].kind==2?CONSTANT:SD[i].kind==3?INPUT:VARIABLE; Symbol*s= SD[i].sh.nd==0? new Symbol(SD[i].n,k): new Symbol(SD[i].n,shp(SD[i].sh),k); if(SD[i].kind==4) s->setState(); w.sym[SD[i].n]=BasicPtr(s);} for(auto&d:EXTRA){ Symbol_Kind k=d.kind==1?PARAMETER:VARIABLE; w.sym[d.n]=BasicPtr(d.sh.nd==0? new Symbol(d.n,k): new Symbol(d.n,shp(d.sh),k)); } return w; }
static Env mkEnv(Rng&g,bool time,std::string psym="",int pel=0){ Env e; for(int i=0;i<NSD+(int)EXTRA.size();i++){ SymDecl const&D=i<NSD?SD[i]:EXTRA[i-NSD]; V v(D.sh.nd,D.sh.r,D.sh.c); for(int k=0;k<v.n();k++){ ld x=g.f()*1.8L-0.9L; if(fabsl(x)<0.12L) x+= x<0?-0.2L:0.2L; v.a[k]=S(x); if(time && D.kind!=1 && D.kind!=2) for(int d=1;d<=K;d++) v.a[k].c[d]=g.f()*2-1; if(psym==D.n && (pel<0||pel==k)) v.a[k].c[1]=1; } if(v.r==v.c&&v.r>1) for(int k=0;k<v.r;k++){ S d(2.0L); v.at(k,k)=v.at(k,k)+d; } e[D.n]=v; } return e; }
struct Gen { Rng&g; bool allowRaw; bool der; std::vector<TP> pool; int focus; bool noIf; bool bcast; bool weird; bool elemwise; bool relval;
  Gen(Rng&r):g(r),allowRaw(true),der(false),focus(-1),noIf(false),bcast(true),weird(false),elemwise(true),relval(true){}
  TP R(TP t){ if(allowRaw && g.p(25)) t->raw=true; t->i = (t->op==O_NEG||t->op==O_ADD||t->op==O_MUL)? g.u(2):t->i; if(relval||t->op<O_LESS||t->op>O_EQUAL) pool.push_back(t); return t; }
  TP leaf(Sh s){
    if(s.nd==0){ int x=g.u(10); if(x<2){ TP t=mkT(O_INT,{},s); static const int iv[]={0,1,-1,2,-2,3,5,-1,1,0}; t->v=iv[g.u(10)]; if(g.p(30)) t->raw=true; return t; } if(x==2){ TP t=mkT(O_REAL,{},s); static const ld rv[]={0,1,-1,0.5L,-0.25L,2,1.5L,-3,0.125L,2.75L}; t->v=rv[g.u(10)]; if(g.p(30)) t->raw=true; return t;} if(x==3&&g.p(15)) { TP t=mkT(O_ZERO,{},s); return t; } }
    else { int x=g.u(12); if(x==0) return mkT(O_ZERO,{},s); if(x==1&&s.nd==2&&s.r==s.c){ TP t=mkT(O_EYE,{},s); if(g.p(30)) t->raw=true; return t;} if(x<5){ TP t=mkT(O_MAT,{},s); int zm=g.u(6); for(int i=0;i<s.r*s.c;i++) { TP e; if(zm==0){ e=mkT(O_INT,{},Sh{0,1,1}); e->v=g.u(3)-1;} else if(zm==1){ e=mkT(O_INT,{},Sh{0,1,1}); e->v= (i/s.c==i%s.c)?1:0;} else if(zm==2){ e=mkT(O_INT,{},Sh{0,1,1}); e->v=1; } else e=leaf(Sh{0,1,1}); t->k.push_back(e);} return t; } 
      if(x==5&&s.nd==2&&s.r==s.c){ TP t=mkT(O_SYMM,{},s); for(int i=0;i<s.r*(s.r+1)/2;i++) t->k.push_back(leaf(Sh{0,1,1})); return t; } }
    std::vector<int> c; for(int i=0;i<NSD;i++) if(SD[i].sh==s) c.push_back(i);
    if(c.empty()){ TP t=mkT(O_MAT,{},s); for(int i=0;i<s.r*s.c;i++) t->k.push_back(leaf(Sh{0,1,1})); return t; }
    TP t=mkT(O_SYM,{},s); t->name=SD[c[g.u(c.size())]].n; return t; }
  int dim(){ static const int d[]={3,3,2,2,4,1}; return d[g.u(weird?6:5)]; }
  TP cond(int d){ if(g.p(8)){ TP t=mkT(O_BOOL,{},Sh{0,1,1}); t->v=g.u(2); return t;} Op o= (Op)(O_LESS+g.u(3)); return R(mkT(o,{gen(Sh{0,1,1},d-1),gen(Sh{0,1,1},d-1)},Sh{0,1,1})); }
  TP gen(Sh s,int d){
    if(d<=0) return leaf(s);
    if(!pool.empty() && g.p(12)) { for(int tr=0;tr<4;tr++){ TP t=pool[g.u(pool.size())]; if(t->sh==s) return t; } }
    Sh sc{0,1,1};
    for(int tries=0;tries<20;tries++){
    int x= focus>=0 && g.p(50)? focus : g.u(30);
    switch(x){
      case 0: return R(mkT(O_NEG,{gen(s,d-1)},s));
      case 1: case 2: { TP l=gen(s,d-1), r=gen((bcast&&s.nd>0&&g.p(8))?sc:s,d-1); if(g.p(50)) std::swap(l,r); return R(mkT(g.p(60)?O_ADD:O_SUB,{l,r},s)); }
      case 3: case 4: if(s.nd==0){ return R(mkT(O_MUL,{gen(sc,d-1),gen(sc,d-1)},s)); } { TP l=gen(s,d-1), r=gen(sc,d-1); if(g.p(50)) std::swap(l,r); return R(mkT(O_MUL,{l,r},s)); }
      case 5: case 6: { int k=dim();
          if(s.nd==0){ TP l=gen(Sh{1,1,k},d-1), r=gen(Sh{1,k,1},d-1); return R(mkT(O_MUL,{l,r},s)); }
          if(s.nd==1&&s.c==1&&s.r>1) return R(mkT(O_MUL,{gen(Sh{2,s.r,k},d-1),gen(Sh{1,k,1},d-1)},s));
          if(s.nd==1&&s.r==1&&s.c>1) return R(mkT(O_MUL,{gen(Sh{1,1,k},d-1),gen(Sh{2,k,s.c},d-1)},s));
          if(s.nd==2&&s.r>1&&s.c>1){ if(g.p(20)) return R(mkT(O_MUL,{gen(Sh{1,s.r,1},d-1),gen(Sh{1,1,s.c},d-1)},s)); if(k>1) return R(mkT(O_MUL,{gen(Sh{2,s.r,k},d-1),gen(Sh{2,k,s.c},d-1)},s)); }
          break; }
      case 7: if(s.nd==0){ return mkT(O_DIV,{gen(sc,d-1),gen(sc,d-1)},s); } return mkT(O_DIV,{gen(s,d-1),gen(sc,d-1)},s);
      case 8: if(s.nd==0 || (s.nd==2&&s.r==s.c&&s.r>1)){ TP t=mkT(O_POW,{gen(s,d-1)},s); if(s.nd==0){ static const ld ev[]={2,3,-1,0.5L,2,-2,1.5L,0,1,4,-0.5L,2}; int q=g.u(12); t->v=ev[q]; t->i=(t->v==(int)t->v)&&g.p(70); } else { static const int ev[]={2,3,-1,1,2,-2}; t->v=ev[g.u(6)]; t->i=g.p(80); } t->j=g.u(2); if(g.p(25)&&allowRaw) t->raw=true; pool.push_back(t); return t; } break;
      case 9: if(s.nd==0) return mkT(O_SQRT,{gen(s,d-1)},s); break;
      case 10: case 11: case 12: if(s.nd==0||(elemwise&&g.p(25))) { static const Op u[]={O_SIN,O_COS,O_TAN,O_ASIN,O_ACOS,O_ATAN,O_ABS,O_SIGN,O_SIN,O_COS}; return R(mkT(u[g.u(10)],{gen(s,d-1)},s)); } break;
      case 13: if(s.nd==0) return R(mkT(O_ATAN2,{gen(sc,d-1),gen(sc,d-1)},s)); break;
      case 14: case 15: if(s.nd==0){ int r=dim(),c=dim(); Sh q= g.p(40)?Sh{1,r,1}:g.p(15)?Sh{1,1,c}:Sh{2,r,c}; if(q.nd==1&&q.r==1&&q.c==1) q.r=2; TP t=mkT(O_ELEM,{gen(q,d-1)},s); t->i=g.u(q.r); t->j=g.u(q.c); if(g.p(30)&&allowRaw) t->raw=true; return t; } break;
      case 16: if(!noIf) return R(mkT(O_IF,{cond(d),gen(s,d-1),gen(s,d-1)},s)); break;
      case 17: break;
      case 18: if(s.nd==2&&s.r==3&&s.c==3) return R(mkT(O_SKEW,{gen(Sh{1,3,1},d-1)},s)); break;
      case 19: if(s.nd==0&&weird) { Sh q= g.p(50)?Sh{1,1,1}:Sh{2,1,1}; return R(mkT(O_SCALAR,{gen(q,d-1)},s)); } break;
      case 20: case 21: return R(mkT(O_TRANS,{gen(Sh{s.nd,s.c,s.r},d-1)},s));
      case 22: if(s.nd==1&&s.c==1&&s.r>1) return R(mkT(O_SOLVE,{gen(Sh{2,s.r,s.r},d-1),gen(s,d-1)},s)); break;
      case 23: if(s.nd==2&&s.r==s.c&&s.r>1) return R(mkT(O_OUTER,{gen(Sh{1,s.r,1},d-1),gen(Sh{1,s.r,1},d-1)},s)); break;
      case 24: if(s.nd==2&&s.r==s.c&&s.r>1) return R(mkT(O_INV,{gen(s,d-1)},s)); break;
      case 25: if(der) return R(mkT(O_DER,{gen(s,d-1)},s)); break;
      case 26: { TP t=mkT(O_NADD,{},s); int n=2+g.u(4); for(int i=0;i<n;i++) t->k.push_back(gen((bcast&&i>0&&s.nd>0&&g.p(10))?sc:s,d-1)); pool.push_back(t); return t; }
      case 27: if(s.nd==0){ TP t=mkT(O_NMUL,{},s); int n=2+g.u(4); for(int i=0;i<n;i++) t->k.push_back(gen(sc,d-1)); pool.push_back(t); return t; } 
               else if(s.nd==2&&s.r==s.c&&s.r>1){ TP t=mkT(O_NMUL,{},s); int n=2+g.u(3); bool m=false; for(int i=0;i<n;i++){ bool useM=g.p(60)||(i==n-1&&!m); m|=useM; t->k.push_back(gen(useM?s:sc,d-1)); } pool.push_back(t); return t; } break;
      case 28: if(s.nd>0&&g.p(40)){ TP t=mkT(O_MAT,{},s); for(int i=0;i<s.r*s.c;i++) t->k.push_back(gen(sc,d-2)); return t; } break;
      case 29: return leaf(s);
    } }
    return leaf(s); }
  Sh anyShape(){ switch(g.u(8)){ case 0:case 1:case 2: return Sh{0,1,1}; case 3: return Sh{1,3,1}; case 4: return Sh{1,1,3}; case 5: return Sh{2,3,3}; case 6: return Sh{1,2,1}; default: return Sh{2,2,2}; } }
};
