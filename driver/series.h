// Truncated Taylor series over long double: c[0..K].  One independent variable (time or one
// perturbed symbol).  'bad' = undefined / numerically fragile -> the comparison is skipped.
#pragma once
#include <math.h>
#include <vector>
#include <string>
#include <map>
#include <set>
#include <stdint.h>
#include <stdio.h>
static const int K = 3;
typedef long double ld;
struct S {
  ld c[K+1]; bool bad; int br;   // br: value came through sin/cos/tan outside the principal branch
  S(ld v=0){ c[0]=v; for(int i=1;i<=K;i++)c[i]=0; bad=false; br=0; }
};
static inline void chk(S&a){ for(int i=0;i<=K;i++) if(!(fabsl(a.c[i])<1e9L)) a.bad=true; if(!(fabsl(a.c[0])<1e5L)) a.bad=true; }
static inline void fl(S&r,S const&a){ r.bad|=a.bad; r.br|=a.br; }
static inline S operator+(S const&a,S const&b){ S r; for(int i=0;i<=K;i++) r.c[i]=a.c[i]+b.c[i]; fl(r,a);fl(r,b);chk(r);return r;}
static inline S operator-(S const&a){ S r; for(int i=0;i<=K;i++) r.c[i]=-a.c[i]; fl(r,a);return r;}
static inline S operator-(S const&a,S const&b){ return a+(-b);}
static inline S operator*(S const&a,S const&b){ S r; for(int i=0;i<=K;i++){ r.c[i]=0; for(int j=0;j<=i;j++) r.c[i]+=a.c[j]*b.c[i-j];} fl(r,a);fl(r,b);chk(r);return r;}
static inline S operator/(S const&a,S const&b){ S r; fl(r,a);fl(r,b); if(fabsl(b.c[0])<1e-4L){ r.bad=true; return r;} for(int i=0;i<=K;i++){ ld s=a.c[i]; for(int j=1;j<=i;j++) s-=b.c[j]*r.c[i-j]; r.c[i]=s/b.c[0]; } chk(r); return r;}
static inline S D(S const&a){ S r; fl(r,a); for(int i=0;i<K;i++) r.c[i]=(i+1)*a.c[i+1]; r.c[K]=0; return r; }
// integrate r' = g with r(0)=v
static inline S I(S const&g, ld v){ S r; fl(r,g); r.c[0]=v; for(int i=1;i<=K;i++) r.c[i]=g.c[i-1]/i; return r; }
static inline void sincosS(S const&x,S&s,S&c){ s=S(sinl(x.c[0])); c=S(cosl(x.c[0])); fl(s,x);fl(c,x);
  for(int k=1;k<=K;k++){ ld a=0,b=0; for(int j=1;j<=k;j++){ a+=j*x.c[j]*c.c[k-j]; b-=j*x.c[j]*s.c[k-j]; } s.c[k]=a/k; c.c[k]=b/k; } chk(s);chk(c);}
static inline S sinS(S const&x){ S s,c; sincosS(x,s,c); if(fabsl(x.c[0])>1.57L) s.br=1; return s;}
static inline S cosS(S const&x){ S s,c; sincosS(x,s,c); if(x.c[0]<0||x.c[0]>3.14L) c.br=1; return c;}
static inline S tanS(S const&x){ S s,c; sincosS(x,s,c); S r=s/c; if(fabsl(x.c[0])>1.57L) r.br=1; if(fabsl(c.c[0])<1e-2L) r.bad=true; return r;}
static inline S powi(S const&x,int n){ if(n<0){ return S(1)/powi(x,-n);} S r(1); fl(r,x); for(int i=0;i<n;i++) r=r*x; return r;}
static inline S powr(S const&x, ld p){ // real exponent
  ld q=roundl(p); if(fabsl(p-q)<1e-13L && fabsl(q)<40){ if(q<0 && fabsl(x.c[0])<1e-4L){S r; r.bad=true; return r;} if(q==0 && fabsl(x.c[0])<1e-9L){S r(1); r.bad=true; return r;} return powi(x,(int)q);} 
  if(x.c[0]<1e-4L){ S r; r.bad=true; return r; }
  // r' = p r x'/x
  S r; fl(r,x); r.c[0]=powl(x.c[0],p); for(int k=1;k<=K;k++){ ld s=0; for(int j=1;j<=k;j++) s+=(p*j-(k-j))*x.c[j]*r.c[k-j]; r.c[k]=s/(k*x.c[0]); } chk(r); return r; }
static inline S asinS(S const&x){ S r; fl(r,x); if(x.br||fabsl(x.c[0])>0.995L){ r.bad=true; return r;} S g=D(x)*powr(S(1)-x*x,-0.5L); return I(g,asinl(x.c[0])); }
static inline S acosS(S const&x){ S r; fl(r,x); if(x.br||fabsl(x.c[0])>0.995L){ r.bad=true; return r;} S g=-(D(x)*powr(S(1)-x*x,-0.5L)); return I(g,acosl(x.c[0])); }
static inline S atanS(S const&x){ S r; fl(r,x); if(x.br){ r.bad=true; return r;} S g=D(x)/(S(1)+x*x); return I(g,atanl(x.c[0])); }
static inline S atan2S(S const&y,S const&x){ S r; fl(r,x);fl(r,y); ld n=x.c[0]*x.c[0]+y.c[0]*y.c[0]; if(n<1e-3L || (x.c[0]<1e-6L && fabsl(y.c[0])<1e-6L)){ r.bad=true; return r;} S g=(D(y)*x-y*D(x))/(x*x+y*y); return I(g,atan2l(y.c[0],x.c[0])); }
static inline S absS(S const&x){ S r= x.c[0]<0?-x:x; if(fabsl(x.c[0])<1e-7L) { bool z=true; for(int i=0;i<=K;i++) if(x.c[i]!=0) z=false; if(!z) r.bad=true;} return r; }
static inline S signS(S const&x){ S r(x.c[0]<0?-1:1); fl(r,x); if(fabsl(x.c[0])<1e-7L){ bool z=true; for(int i=0;i<=K;i++) if(x.c[i]!=0) z=false; if(z) { bool b=r.bad; r=S(0); r.bad=b; } else r.bad=true;} return r; }
// comparisons: 0/1 ; exactly equal constants are fine, nearly equal are fragile
static inline S cmpS(S const&x,S const&y,int op){ S r; ld d=x.c[0]-y.c[0]; r = S(op==0? (d<0) : op==1 ? (d>0) : (d==0)); fl(r,x);fl(r,y); if(fabsl(d)<1e-7L && d!=0) r.bad=true; return r; }
