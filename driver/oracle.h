// Independent evaluator: value of a real Symbolics expression (walking it through public
// accessors only) and the value type used by the reference terms.
#pragma once
#include "series.h"
#include "Symbolics.h"
#include "Bool.h"
#include <stdexcept>
using namespace Symbolics;
struct V { int nd,r,c; std::vector<S> a; bool bad;
  V():nd(0),r(1),c(1),a(1),bad(false){}
  V(S const&s):nd(0),r(1),c(1),a(1,s),bad(false){}
  V(int nd_,int r_,int c_):nd(nd_),r(r_),c(c_),a(r_*c_),bad(false){}
  S& at(int i,int j){ return a[i*c+j]; } S const& at(int i,int j) const { return a[i*c+j]; }
  bool sc() const { return nd==0; }
  int n() const { return r*c; } };
struct Ill : std::runtime_error { Ill(std::string const&s):std::runtime_error(s){} };
static inline int ndof(int r,int c){ return 0; }
static V mk(Shape const&s){ return V((int)s.getNrDimensions(),(int)s.getDimension(1),(int)s.getDimension(2)); }
template<class F> static V map1(V const&a,F f){ V r=a; for(size_t i=0;i<a.a.size();i++) r.a[i]=f(a.a[i]); return r; }
static V vadd(V const&a,V const&b){ if(a.sc()&&!b.sc()) return vadd(b,a); V r=a; if(b.sc()){ for(auto&x:r.a) x=x+b.a[0]; return r;}
  if(a.r!=b.r||a.c!=b.c) throw Ill("add of different shapes"); for(size_t i=0;i<r.a.size();i++) r.a[i]=a.a[i]+b.a[i]; if(b.nd>r.nd) r.nd=b.nd; return r; }
static V vneg(V const&a){ return map1(a,[](S const&x){return -x;}); }
static V vmul(V const&a,V const&b){ if(a.sc()&&!b.sc()){ V r=b; for(auto&x:r.a) x=a.a[0]*x; return r;} if(b.sc()){ V r=a; for(auto&x:r.a) x=x*b.a[0]; return r;}
  if(a.c!=b.r) throw Ill("product of non-conforming shapes");
  int nd; if(a.r==1&&b.c==1) nd=(a.nd==2&&b.nd==2)?2:((a.nd==1&&b.nd==1)?0:1); else if(a.nd==1&&b.nd==1) nd=2; else if(a.r==1||b.c==1) nd=(a.nd==2&&b.nd==2)?2:1; else nd=2;
  V r(nd,a.r,b.c); for(int i=0;i<a.r;i++) for(int j=0;j<b.c;j++){ S s; for(int k=0;k<a.c;k++) s=s+a.at(i,k)*b.at(k,j); r.at(i,j)=s; }
  return r; }
static V vtr(V const&a){ V r(a.nd,a.c,a.r); for(int i=0;i<a.r;i++)for(int j=0;j<a.c;j++) r.at(j,i)=a.at(i,j); return r; }
static V veye(int nd,int n){ V r(nd,n,n); for(int i=0;i<n;i++) r.at(i,i)=S(1); return r; }
static V vsolve(V A,V B){ int n=A.r; if(A.c!=n||B.r!=n) throw Ill("solve shapes");
  for(int k=0;k<n;k++){ int p=k; for(int i=k;i<n;i++) if(fabsl(A.at(i,k).c[0])>fabsl(A.at(p,k).c[0])) p=i;
    if(fabsl(A.at(p,k).c[0])<1e-3L){ for(auto&x:B.a) x.bad=true; return B; }
    if(p!=k){ for(int j=0;j<n;j++) std::swap(A.at(p,j),A.at(k,j)); for(int j=0;j<B.c;j++) std::swap(B.at(p,j),B.at(k,j)); }
    for(int i=0;i<n;i++) if(i!=k){ S f=A.at(i,k)/A.at(k,k); for(int j=0;j<n;j++) A.at(i,j)=A.at(i,j)-f*A.at(k,j); for(int j=0;j<B.c;j++) B.at(i,j)=B.at(i,j)-f*B.at(k,j);} }
  for(int i=0;i<n;i++) for(int j=0;j<B.c;j++) B.at(i,j)=B.at(i,j)/A.at(i,i); return B; }
static V vinv(V const&a){ if(a.sc()) return V(S(1)/a.a[0]); V e=veye(a.nd,a.r); return vsolve(a,e); }
static V vpow(V const&a, ld p){ if(a.n()==1){ V r=a; r.a[0]=powr(a.a[0],p); return r;} if(a.r!=a.c) throw Ill("pow of non-square");
  ld q=roundl(p); if(fabsl(p-q)>1e-13L){ V r=a; for(auto&x:r.a) x.bad=true; return r; } int n=(int)q; V b=n<0?vinv(a):a; if(n<0) n=-n; V r=veye(2,a.r); for(int i=0;i<n;i++) r=vmul(r,b); r.nd=a.nd; return r; }
static V vskew(V const&a){ V r(2,3,3); if(a.n()!=3){ if(a.sc()){ r.at(0,0)=S(0); for(auto&x:r.a){ x=S(0); if(a.a[0].c[0]!=0) x.bad=true; fl(x,a.a[0]); } return r;} throw Ill("skew of non 3-vector"); }
  r.at(0,1)=-a.a[2]; r.at(0,2)=a.a[1]; r.at(1,0)=a.a[2]; r.at(1,2)=-a.a[0]; r.at(2,0)=-a.a[1]; r.at(2,1)=a.a[0]; return r; }
static V vel(V const&a,int i,int j){ if(a.sc()) return a; if(i>=a.r||j>=a.c) throw Ill("element index"); return V(a.at(i,j)); }
static bool vbad(V const&a){ if(a.bad) return true; for(auto&x:a.a) if(x.bad) return true; return false; }
static V vif(V const&c,V const&a,V const&b){ if(c.a[0].bad){ V r=a; for(auto&x:r.a)x.bad=true; return r;} V r= c.a[0].c[0]!=0 ? a : b; return r; }
static V vcmp(V const&a,V const&b,int op){ V r=a; if(a.a.size()!=b.a.size()) throw Ill("compare shapes"); for(size_t i=0;i<a.a.size();i++) r.a[i]=cmpS(a.a[i],b.a[i],op); return r; }
typedef std::map<std::string,V> Env;
struct Eval {
  Env const& env; std::map<const Basic*,V> memo; int depth; long steps;
  Env const* denv;  // values of derivative symbols are taken as D(env[state])
  Eval(Env const&e):env(e),depth(0),steps(0),denv(0){}
  V ev(BasicPtr const&p){ if(p.get()==NULL) throw Ill("null argument"); auto it=memo.find(p.get()); if(it!=memo.end()) return it->second;
    if(++depth>4000||++steps>400000) throw Ill("expression too deep"); V r=go(p); --depth; memo[p.get()]=r; return r; }
  V sym(Symbol const*s){ std::string n=s->getName(); auto it=env.find(n); if(it!=env.end()) return it->second;
    if(n.compare(0,4,"$DER")==0){ auto j=env.find(n.substr(4)); if(j!=env.end()) return map1(j->second,[](S const&x){return D(x);}); }
    throw Ill("unknown symbol "+n); }
  V go(BasicPtr const&p){
    Basic_Type t=p->getType(); size_t n=p->getArgsSize();
    #define A(i) ev(p->getArg(i))
    #define NEED(k) if(n!=(k)) throw Ill("wrong number of arguments")
    V r;
    switch(t){
      case Type_Bool: { const Bool*b=dynamic_cast<const Bool*>(p.get()); if(!b) throw Ill("bool"); return V(S(b->getValue()?1:0)); }
      case Type_Symbol: { const Symbol*b=dynamic_cast<const Symbol*>(p.get()); if(!b) throw Ill("sym"); return sym(b); }
      case Type_Zero: return mk(p->getShape());
      case Type_Eye: { V z=mk(p->getShape()); for(int i=0;i<z.r&&i<z.c;i++) z.at(i,i)=S(1); return z; }
      case Type_Int: { const Int*b=dynamic_cast<const Int*>(p.get()); if(!b) throw Ill("int"); return V(S((ld)b->getValue())); }
      case Type_Real: { const Real*b=dynamic_cast<const Real*>(p.get()); if(!b) throw Ill("real"); S s((ld)b->getValue()); if(!(fabsl(s.c[0])<1e9L)) s.bad=true; return V(s); }
      case Type_Matrix: { const Matrix*m=dynamic_cast<const Matrix*>(p.get()); if(!m) throw Ill("mat"); V z=mk(p->getShape()); 
           for(int i=0;i<z.r;i++)for(int j=0;j<z.c;j++){ V e=ev(m->get(i,j)); if(e.n()!=1) throw Ill("matrix element is not scalar"); z.at(i,j)=e.a[0]; } return z; }
      case Type_Neg: NEED(1); { V a=A(0); if(p->getArg(0)->getType()==Type_Bool) { return V(S(a.a[0].c[0]!=0?0:1)); } return vneg(a); }
      case Type_Add: { if(n==0) throw Ill("empty sum"); r=A(0); for(size_t i=1;i<n;i++) r=vadd(r,A(i)); return r; }
      case Type_Mul: { if(n==0) throw Ill("empty product"); S co(1); bool have=false; V m; for(size_t i=0;i<n;i++){ V a=A(i); if(p->getArg(i)->is_Scalar()) co=co*a.a[0]; else if(!have){ m=a; have=true;} else m=vmul(m,a);} return have? vmul(V(co),m):V(co); }
      case Type_Pow: NEED(2); { V e=A(1); if(e.n()!=1) throw Ill("exponent"); for(int i=1;i<=K;i++) if(e.a[0].c[i]!=0) throw Ill("non constant exponent"); V b=A(0); return vpow(b,e.a[0].c[0]); }
      case Type_Sin: NEED(1); return map1(A(0),sinS);
      case Type_Cos: NEED(1); return map1(A(0),cosS);
      case Type_Tan: NEED(1); return map1(A(0),tanS);
      case Type_Asin: NEED(1); return map1(A(0),asinS);
      case Type_Acos: NEED(1); return map1(A(0),acosS);
      case Type_Atan: NEED(1); return map1(A(0),atanS);
      case Type_Abs: NEED(1); return map1(A(0),absS);
      case Type_Sign: NEED(1); return map1(A(0),signS);
      case Type_Der: NEED(1); return map1(A(0),[](S const&x){return D(x);});
      case Type_Atan2: NEED(2); { V a=A(0),b=A(1); return V(atan2S(a.a[0],b.a[0])); }
      case Type_Element: { const Element*e=dynamic_cast<const Element*>(p.get()); if(!e) throw Ill("element"); return vel(A(0),(int)e->getRow(),(int)e->getCol()); }
      case Type_Solve: NEED(2); { V a=A(0),b=A(1); if(a.sc()&&b.sc()) return V(b.a[0]/a.a[0]); V x=vsolve(a,b); return x; }
      case Type_Scalar: NEED(1); { V a=A(0); if(a.n()!=1) throw Ill("scalar()"); return V(a.a[0]); }
      case Type_Skew: NEED(1); return vskew(A(0));
      case Type_Transpose: NEED(1); return vtr(A(0));
      case Type_Inverse: NEED(1); return vinv(A(0));
      case Type_Outer: NEED(2); { V a=A(0),b=A(1); V x=vmul(a,vtr(b)); x.nd=2; return x; }
      case Type_If: NEED(3); return vif(A(0),A(1),A(2));
      case Type_Less: NEED(2); return vcmp(A(0),A(1),0);
      case Type_Greater: NEED(2); return vcmp(A(0),A(1),1);
      case Type_Equal: NEED(2); return vcmp(A(0),A(1),2);
      case Type_Jacobian: NEED(2); throw Ill("jacobian node");
      default: throw Ill("unknown node type");
    }
  }
};
// values are compared at order 0..upto
static bool same(V const&a,V const&b,int upto,std::string&why){
  if(a.n()!=b.n() || a.r!=b.r || a.c!=b.c){ char s[99]; snprintf(s,99,"shape (%d: %dx%d) vs (%d: %dx%d)",a.nd,a.r,a.c,b.nd,b.r,b.c); why=s; return false; }
  for(size_t i=0;i<a.a.size();i++) for(int k=0;k<=upto;k++){ ld x=a.a[i].c[k],y=b.a[i].c[k]; if(fabsl(x-y)>1e-7L*(1+fabsl(x)+fabsl(y))*(k?100:1)){ char s[160]; snprintf(s,160,"element %d coefficient %d: %.12Lg vs %.12Lg",(int)i,k,x,y); why=s; return false; } }
  return true; }
static bool sameShape(V const&a,Shape const&s,std::string&why){ if((int)s.getNumEl()!=a.n()){ why="declared element count "+s.toString(); return false;} if((int)s.getDimension(1)!=a.r||(int)s.getDimension(2)!=a.c){ char t[120]; snprintf(t,120,"declared shape %s (%d,%d) vs (%d,%d)",s.toString().c_str(),(int)s.getDimension(1),(int)s.getDimension(2),a.r,a.c); why=t; return false;}
  if(a.n()>1 && (int)s.getNrDimensions()!=a.nd){ char t[120]; snprintf(t,120,"declared %d dimensions, expected %d (%dx%d)",(int)s.getNrDimensions(),a.nd,a.r,a.c); why=t; return false;} return true; }
