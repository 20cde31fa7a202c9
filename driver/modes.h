static const int NPTS=2;
static TP genTerm(Rng&g,Gen&G){ if(FIXED.get()) return cloneT(FIXED); if(g.p(60)) G.focus=g.u(30); Sh s=G.anyShape(); int d=1+g.u(3); if(g.p(10)) d=4; return G.gen(s,d); }
static V evalAt(BasicPtr const&p,Env const&e){ Eval E(e); return E.ev(p); }
// ---- construction: the object built by operators/New/constructors denotes what was asked for
static Out m_build(uint64_t seed){ Rng g(seed); Gen G(g); G.relval=false; G.der=g.p(10); if(G.der) G.elemwise=false; TP t=genTerm(g,G); World w=mkWorld(); BasicPtr r;
  try{ r=build(t,w);} catch(...){ // undefined operations may be refused
    Rng ge(seed+77); Env e=mkEnv(ge,true); try { V v=tval(t,e); if(vbad(v)) return ok(false); } catch(Ill&) { return ok(false); } return bad("throw",show(t)+" : "+catchmsg()); }
  bool ran=false; for(int k=0;k<NPTS;k++){ Rng ge(seed*31+k+5); Env e=mkEnv(ge,true); V v; try{ v=tval(t,e);} catch(Ill&x){ if(FIXED.get()) return bad("accept",show(t)+" => "+rstr(r)+" : operands that do not conform were accepted"); return ok(false);} if(vbad(v)) continue; ran=true; V z; try{ z=evalAt(r,e);} catch(Ill&x){ return bad("illformed",show(t)+" => "+rstr(r)+" : "+x.what()); } if(vbad(z)) continue; std::string why; if(!same(v,z,0,why)) return bad("value",show(t)+" => "+rstr(r)+" : want/got "+why); if(!sameShape(v,r->getShape(),why)) return bad("shape",show(t)+" => "+rstr(r)+" : "+why); }
  return ok(ran); }
static Out m_simp(uint64_t seed){ Rng g(seed^0x5151); Gen G(g); G.relval=false; G.der=g.p(10); if(G.der) G.elemwise=false; TP t=genTerm(g,G); if(!FIXED.get()&&g.p(70)) t->raw= t->op!=O_DIV&&t->op!=O_SQRT; World w=mkWorld(); BasicPtr r; try{ r=build(t,w);} catch(...){ return ok(false);}
  std::vector<Env> es; std::vector<V> vs; for(int k=0;k<NPTS;k++){ Rng ge(seed*37+k+5); Env e=mkEnv(ge,true); try { V v=evalAt(r,e); if(vbad(v)) continue; es.push_back(e); vs.push_back(v);} catch(Ill&){ return ok(false);} }
  if(es.empty()) return ok(false); std::string before=rstr(r); BasicPtr s; bool twice=g.p(30);
  try{ s=r->simplify(); if(twice&&s.get()) s=s->simplify(); } catch(...){ return bad("throw",show(t)+" == "+before+" simplify threw "+catchmsg()); }
  if(s.get()==NULL) return bad("null",before);
  for(size_t k=0;k<es.size();k++){ V z; std::string why; try{ z=evalAt(s,es[k]); } catch(Ill&x){ return bad("illformed",show(t)+" == "+before+" => "+rstr(s)+" : "+x.what()); } if(vbad(z)) continue; if(!same(vs[k],z,0,why)) return bad("value",show(t)+" == "+before+" => "+rstr(s)+" : want/got "+why); if(!sameShape(vs[k],s->getShape(),why)) return bad("shape",show(t)+" == "+before+" => "+rstr(s)+" : "+why);
    V y; try{ y=evalAt(r,es[k]); } catch(Ill&x){ return bad("operand-illformed",show(t)+" == "+before+" left as "+rstr(r)+" : "+x.what()); } if(vbad(y)) continue; if(!same(vs[k],y,0,why)) return bad("operand",show(t)+" == "+before+" left as "+rstr(r)+" : want/got "+why); }
  return ok(); }
// ---- derivatives
static Out derCheck(uint64_t seed,bool time,bool elem){ Rng g(seed^(time?0xD1:0xD2)); Gen G(g); G.der=time&&g.p(15); G.elemwise=false; G.relval=false; TP t=genTerm(g,G); World w=mkWorld(); BasicPtr r; try{ r=build(t,w);} catch(...){ return ok(false);}
  std::string ps; if(!time){ static const char*c[]={"a","b","c","q"}; ps=c[g.u(4)]; if(FIXSYM!="") ps=FIXSYM; }
  bool simpFirst=g.p(25); if(simpFirst) try{ r=r->simplify(); }catch(...){ return ok(false);} 
  std::vector<Env> es; std::vector<V> vs; for(int k=0;k<NPTS;k++){ Rng ge(seed*41+k+5); Env e=mkEnv(ge,time,ps,0); try { V v=evalAt(r,e); if(vbad(v)) continue; es.push_back(e); vs.push_back(map1(v,[](S const&x){return D(x);}));} catch(Ill&){ return ok(false);} }
  if(es.empty()) return ok(false); std::string before=rstr(r); BasicPtr s; bool simp=g.p(40);
  try{ s= time? (g.p(50)||r->getType()==Type_Matrix? r->der(): Der::New(r)) : r->der(w.sym[ps]); } catch(...){ std::string m=catchmsg(); return bad("throw",show(t)+" == "+before+" der("+ps+") threw "+m); }
  if(s.get()==NULL) return bad("null",before);
  if(simp) try{ s=s->simplify(); }catch(...){ return bad("simp",show(t)+" == "+before+" simplify of the derivative threw "+catchmsg()); }
  for(size_t k=0;k<es.size();k++){ V z; std::string why; try{ z=evalAt(s,es[k]); } catch(Ill&x){ return bad("illformed",show(t)+" == "+before+" der("+ps+") => "+rstr(s)+" : "+x.what()); } if(vbad(z)) continue; if(z.n()==1&&z.sc()&&vs[k].n()>1&&z.a[0].c[0]==0){ z=map1(vs[k],[](S const&){return S(0);}); } if(!same(vs[k],z,0,why)) return bad("value",show(t)+" == "+before+" der("+ps+") => "+rstr(s)+" : want/got "+why); if(!sameShape(vs[k],s->getShape(),why)) return bad("shape",show(t)+" == "+before+" der("+ps+") => "+rstr(s)+" : "+why); }
  return ok(); }
static Out m_der(uint64_t s){ return derCheck(s,true,false); }
static Out m_pder(uint64_t s){ return derCheck(s,false,false); }
static Out m_jac(uint64_t seed){ Rng g(seed^0x1ac); Gen G(g); G.elemwise=false; G.relval=false; Sh sh= g.p(35)?Sh{0,1,1}:g.p(50)?Sh{1,3,1}:Sh{1,2,1}; TP t; if(sh.nd==1&&g.p(85)){ t=mkT(O_MAT,{},sh); for(int i=0;i<sh.r;i++) t->k.push_back(G.gen(Sh{0,1,1},1+g.u(3))); } else t=G.gen(sh,1+g.u(3)); World w=mkWorld(); BasicPtr r; try{ r=build(t,w);} catch(...){ return ok(false);} 
  static const char*c[]={"a","b","c","q"}; std::vector<std::string> ss; int n=1+g.u(3); int off=g.u(4); for(int i=0;i<n;i++) ss.push_back(c[(off+i)%4]); if(n==1) { ss.push_back(c[(off+1)%4]); n=2; }
  BasicPtrVec sv; for(auto&x:ss) sv.push_back(w.sym[x]); BasicPtr syms(new Matrix(sv,g.p(70)?Shape(n):Shape(1,1,n)));
  std::vector<Env> bases; std::vector<V> want; for(int k=0;k<NPTS;k++){ V J(sh.nd==0?1:2, sh.nd==0?1:sh.r, n); bool b=false; try{ for(int j=0;j<n;j++){ Rng ge(seed*43+k+5); Env e=mkEnv(ge,false,ss[j],0); V v=evalAt(r,e); if(vbad(v)) b=true; for(int i=0;i<J.r;i++) J.at(i,j)=S(v.a[i].c[1]); } } catch(Ill&){ return ok(false);} if(b) continue; Rng ge(seed*43+k+5); bases.push_back(mkEnv(ge,false)); want.push_back(J); }
  if(bases.empty()) return ok(false); std::string before=rstr(r); BasicPtr s; bool raw=g.p(40);
  try{ s= raw? BasicPtr(new Jacobian(r,syms))->simplify() : Jacobian::New(r,syms); if(s->getType()==Type_Jacobian) s=s->simplify(); if(s->getType()==Type_Jacobian) return ok(false); } catch(...){ return bad("throw",show(t)+" == "+before+" jacobian threw "+catchmsg()); }
  for(size_t k=0;k<bases.size();k++){ V z; std::string why; try{ z=evalAt(s,bases[k]); } catch(Ill&x){ return bad("illformed",show(t)+" jacobian => "+rstr(s)+" : "+x.what()); } if(vbad(z)) continue; V wnt=want[k]; if(!same(wnt,z,0,why)) return bad("value",std::string(raw?"raw ":"")+show(t)+" == "+before+" jacobian wrt "+ss[0]+".. => "+rstr(s)+" : want/got "+why); }
  return ok(); }
// ---- substitution
static TP anySub(Rng&g,TP t){ for(int i=0;i<6;i++){ if(t->k.empty()||g.p(30)) return t; t=t->k[g.u(t->k.size())]; } return t; }
static TP tsubs(TP t,std::string const&n,TP by){ if(t->op==O_SYM&&t->name==n) return by; TP r(new T(*t)); r->cache=BasicPtr(); r->k.clear(); for(auto&x:t->k) r->k.push_back(tsubs(x,n,by)); return r; }
static Out m_subs(uint64_t seed){ Rng g(seed^0x5B5); Gen G(g); G.relval=false; TP t=genTerm(g,G); World w=mkWorld(); BasicPtr r; try{ r=build(t,w);} catch(...){ return ok(false);} 
  int si=g.u(NSD-2); Sh sh=SD[si].sh; Gen G2(g); TP by=G2.gen(sh,g.u(3)); if(g.p(20)){ by=mkT(O_SYM,{},sh); by->name=SD[si].n; }
  BasicPtr nb; try{ nb=build(by,w);} catch(...){ return ok(false);} if(nb->getShape()!=w.sym[SD[si].n]->getShape()) return ok(false);
  std::vector<Env> es; std::vector<V> vs; for(int k=0;k<NPTS;k++){ Rng ge(seed*47+k+5); Env e=mkEnv(ge,true); try { V bv=evalAt(nb,e); if(vbad(bv)) continue; Env e2=e; e2[SD[si].n]=bv; V v=evalAt(r,e2); if(vbad(v)) continue; es.push_back(e); vs.push_back(v);} catch(Ill&){ return ok(false);} }
  if(es.empty()) return ok(false); std::string before=rstr(r),nbs=rstr(nb); BasicPtr s; bool simp=g.p(30);
  try{ s=r->subs(w.sym[SD[si].n],nb); if(simp) s=s->simplify(); } catch(...){ return bad("throw",show(t)+" == "+before+" subs("+SD[si].n+","+nbs+") threw "+catchmsg()); }
  for(size_t k=0;k<es.size();k++){ V z; std::string why; try{ z=evalAt(s,es[k]); } catch(Ill&x){ return bad("illformed",before+" subs("+SD[si].n+","+nbs+") => "+rstr(s)+" : "+x.what()); } if(vbad(z)) continue; if(!same(vs[k],z,0,why)) return bad("value",before+" subs("+SD[si].n+","+nbs+") => "+rstr(s)+" : want/got "+why); if(!sameShape(vs[k],s->getShape(),why)) return bad("shape",before+" subs => "+rstr(s)+" : "+why); }
  return ok(); }
// ---- equality and ordering
static TP mutate(Rng&g,TP t){ TP r(new T(*t)); r->cache=BasicPtr(); int x=g.u(6); if(r->k.empty()||x==0){ if(r->op==O_INT){ r->v+= g.u(3)-1; } else if(r->op==O_REAL) r->v+=g.u(3)-1; else if(r->op==O_SYM){ for(int i=0;i<20;i++){ int j=g.u(NSD); if(SD[j].sh==r->sh){ r->name=SD[j].n; break; } } } else if(r->op==O_ZERO && g.p(50)) { r->op=O_INT; r->v=0; r->sh=Sh{0,1,1}; } else if(r->op==O_ELEM){ if(r->k[0]->sh.r>1) r->i=(r->i+1)%r->k[0]->sh.r; else if(r->k[0]->sh.c>1) r->j=(r->j+1)%r->k[0]->sh.c; } else if(r->op==O_POW) r->v+=1; else if(r->k.size()==2&&r->k[0]->sh==r->k[1]->sh) std::swap(r->k[0],r->k[1]); else if(r->op==O_SIN) r->op=O_COS; return r; }
  int i=g.u(r->k.size()); r->k[i]=mutate(g,r->k[i]); return r; }
static TP copyT(TP t){ TP r(new T(*t)); r->cache=BasicPtr(); for(auto&x:r->k) x=copyT(x); return r; }
static TP permT(Rng&g,TP t){ TP r=copyT(t); if((r->op==O_NADD||r->op==O_NMUL)&&r->k.size()>1){ int i=g.u(r->k.size()),j=g.u(r->k.size()); if(r->op==O_NADD||(r->k[i]->sh.nd==0&&r->k[j]->sh.nd==0)|| (r->k[i]->sh.nd==2&&r->k[j]->sh.nd==2)) std::swap(r->k[i],r->k[j]); } else if(!r->k.empty()){ int i=g.u(r->k.size()); r->k[i]=permT(g,r->k[i]); } return r; }
static bool hasNaN(BasicPtr const&p){ if(p->getType()==Type_Real){ const Real*r=dynamic_cast<const Real*>(p.get()); return !(fabsl((ld)r->getValue())<1e300L); } for(size_t i=0;i<p->getArgsSize();i++) if(hasNaN(p->getArg(i))) return true; return false; }
static Out m_eq(uint64_t seed){ Rng g(seed^0xE9); Gen G(g); G.weird=g.p(50); TP t[4]; t[0]=genTerm(g,G); if(!FIXED.get()&&g.p(35)) t[0]=G.leaf(G.anyShape()); World w=mkWorld();
  for(int i=1;i<4;i++){ int x=g.u(6); if(FIXED2.get()&&i==1){ t[i]=cloneT(FIXED2); continue; } if(x==0) { Gen G2(g); t[i]=g.p(50)?genTerm(g,G2):G2.leaf(G2.anyShape()); } else if(x==1) t[i]=copyT(t[i-1]); else if(x==2) t[i]=permT(g,t[i-1]); else t[i]=mutate(g,t[i-1]); }
  BasicPtr p[4]; for(int i=0;i<4;i++) try{ p[i]=build(copyT(t[i]),w); if(hasNaN(p[i])) return ok(false); } catch(...){ return ok(false);} 
  std::vector<Env> es; for(int k=0;k<NPTS;k++){ Rng ge(seed*53+k); es.push_back(mkEnv(ge,true)); }
  bool eq[4][4],lt[4][4]; for(int i=0;i<4;i++)for(int j=0;j<4;j++){ try{ eq[i][j]= p[i]==p[j]; lt[i][j]= p[i]<p[j]; bool ne=p[i]!=p[j]; if(ne==eq[i][j]) return bad("neq",rstr(p[i])+" vs "+rstr(p[j])+": == and != agree"); bool gt=p[i]>p[j]; if(gt && lt[i][j]) return bad("order",rstr(p[i])+" vs "+rstr(p[j])+": both < and >"); } catch(...){ return bad("throw",rstr(p[i])+" vs "+rstr(p[j])+": comparison threw "+catchmsg()); } }
  for(int i=0;i<4;i++){ if(!hasNaN(p[i])) if(!eq[i][i]) return bad("refl",rstr(p[i])+" is not equal to itself"); if(lt[i][i]) return bad("irrefl",rstr(p[i])+" < itself"); BasicPtr c; try{ c=build(copyT(t[i]),w);} catch(...){ continue; } try { if(!hasNaN(p[i]) && !(p[i]==c)) { return bad("copy",rstr(p[i])+" is not equal to an identically built "+rstr(c)); } } catch(...){ return bad("throw",catchmsg()); } }
  for(int i=0;i<4;i++)for(int j=0;j<4;j++){ if(eq[i][j]!=eq[j][i]) return bad("symm",rstr(p[i])+" == "+rstr(p[j])+" is not symmetric"); if(lt[i][j]&&lt[j][i]) return bad("asym",rstr(p[i])+" < "+rstr(p[j])+" holds both ways");
    if(eq[i][j]){ if(p[i]->getShape()!=p[j]->getShape()) return bad("eqshape",rstr(p[i])+" == "+rstr(p[j])+" but shapes "+p[i]->getShape().toString()+" / "+p[j]->getShape().toString()); for(auto&e:es){ V a,b; std::string why; try{ a=evalAt(p[i],e); b=evalAt(p[j],e);} catch(Ill&){ continue; } if(vbad(a)||vbad(b)) continue; if(!same(a,b,0,why)) return bad("eqvalue",rstr(p[i])+" == "+rstr(p[j])+" but values differ: "+why); } }
    // as keys of an ordered container, equivalent expressions must denote the same value
    if(i!=j&&!lt[i][j]&&!lt[j][i]) for(auto&e:es){ V a,b; std::string why; try{ a=evalAt(p[i],e); b=evalAt(p[j],e);} catch(Ill&){ continue; } if(vbad(a)||vbad(b)) continue; if(!same(a,b,0,why)) return bad("equiv",rstr(p[i])+" and "+rstr(p[j])+" are unordered but values differ: "+why); }
    for(int k=0;k<4;k++){ if(eq[i][j]&&eq[j][k]&&!eq[i][k]) return bad("eqtrans",rstr(p[i])+" == "+rstr(p[j])+" == "+rstr(p[k])+" is not transitive"); } }
  return ok(); }
// ---- shapes: operations accept exactly the conforming operands and give the right dimensions
static Out m_shape(uint64_t seed){ Rng g(seed^0x54A); 
  auto rs=[&](){ int x=g.u(6); int r=1+g.u(4),c=1+g.u(4); if(g.p(25)) r=1+g.u(7); if(x==0) return Sh{0,1,1}; if(x<3) return Sh{1,r,1}; if(x==3) return Sh{1,1,c}; return Sh{2,r,c}; };
  int opx=g.u(16); Sh a=rs(),b=rs(); if(g.p(40)) b=a; else if(g.p(40)){ b.r=a.c; if(b.nd==1&&b.c!=1&&b.r!=1) b.nd=2; if(b.nd==0&&b.r!=1) b.nd=1; }
  char ds[200]; snprintf(ds,200,"op %d shapes (%d:%dx%d) (%d:%dx%d)",opx,a.nd,a.r,a.c,b.nd,b.r,b.c);
  // Shape class itself
  Shape sa=shp(a),sb=shp(b);
  if((int)sa.getNumEl()!=a.r*a.c) return bad("numel",ds); { Shape cp(sa); if(!(cp==sa)||cp!=sa) return bad("shapeeq",ds); bool e=(a==b); if((sa==sb)!=e||(sa!=sb)==e) return bad("shapeeq",ds); if((sa<sb)&&(sb<sa)) return bad("shapelt",ds); if(!e&&!(sa<sb)&&!(sb<sa)) return bad("shapelt",std::string(ds)+" unordered"); }
  { Shape tr=sa.transpose(); if((int)tr.getDimension(1)!=a.c||(int)tr.getDimension(2)!=a.r||(int)tr.getNrDimensions()!=a.nd||(int)tr.getNumEl()!=a.r*a.c) return bad("transpose",ds); }
  if(getenv("DRV_TRACE")) fprintf(stderr,"%s\n",ds);
  BasicPtr x(a.nd?new Symbol("xx",sa):new Symbol("xx")), y(b.nd?new Symbol("yy",sb):new Symbol("yy")); bool valid; Sh want{0,1,1}; BasicPtr res; Env e; Rng ge(seed); { V v(a.nd,a.r,a.c); for(auto&q:v.a) q=S(ge.f()+0.3L); e["xx"]=v; V u(b.nd,b.r,b.c); for(auto&q:u.a) q=S(ge.f()+0.3L); e["yy"]=u; }
  bool lit=g.p(35); auto M=[&](BasicPtr s,Sh h){ if(h.nd==0) return s; BasicPtrVec v; for(int i=0;i<h.r;i++)for(int j=0;j<h.c;j++) v.push_back(Element::New(s,i,j)); return BasicPtr(new Matrix(v,shp(h))); }; if(lit){ x=M(x,a); if(g.p(60)) y=M(y,b); }
  bool raw=g.p(50); std::string thrown; bool th=false; V xv=e["xx"],yv=e["yy"],wv; 
  auto mulok=[&](Sh p,Sh q){ return p.nd==0||q.nd==0||p.c==q.r; };
  try{ switch(opx){
    case 0: case 1: valid= a.nd==0||b.nd==0||a==b; if(valid) wv=vadd(xv,yv); res= raw? BasicPtr(new Add(x,y)): x+y; break;
    case 2: valid= a.nd==0||b.nd==0||a==b; if(valid) wv=vadd(xv,vneg(yv)); res=x-y; break;
    case 3: case 4: case 5: valid=mulok(a,b); if(valid) wv=vmul(xv,yv); res= raw? BasicPtr(new Mul(x,y)): x*y; break;
    case 6: valid=true; wv=vtr(xv); res= raw? BasicPtr(new Transpose(x)):Transpose::New(x); break;
    case 7: valid= a.nd==1&&a.r==3; if(a.nd==0) return ok(false); if(valid) wv=vskew(xv); if(lit&&!raw&&!valid) return ok(false); res= raw? BasicPtr(new Skew(x)):Skew::New(x); break;
    case 8: { if(a.nd!=2||b.nd!=1) return ok(false); valid= a.r==a.c&&b.c==1&&b.r==a.r; if(valid) wv=V(1,a.r,1); res= raw? BasicPtr(new Solve(x,y)):Solve::New(x,y); if(valid){ std::string why; if(!sameShape(wv,res->getShape(),why)) return bad("shape",std::string(ds)+" solve "+why); } return valid?ok():bad("accept",std::string(ds)+" solve accepted"); }
    case 9: { if(a.nd!=1||b.nd!=1) return ok(false); valid= a.c==1&&b.c==1&&a.r==b.r; if(valid){ wv=vmul(xv,vtr(yv)); wv.nd=2; } if(lit&&!raw&&!valid) return ok(false); res= raw? BasicPtr(new Outer(x,y)):Outer::New(x,y); break; }
    case 10: case 11: { int i=g.u(6),j=g.u(5); valid= a.nd==0? (i==0&&j==0) : (i<a.r&&j<a.c); if(valid) wv=vel(xv,i,j); res= raw&&a.nd? BasicPtr(new Element(x,i,j)):Element::New(x,i,j); break; }
    case 12: { valid=a==b; if(valid) wv=xv; BasicPtr c(new Symbol("cc")); e["cc"]=V(S(1)); res= raw? BasicPtr(new If(c,x,y)):If::New(c,x,y); break; }
    case 13: { if(a.nd==0) return ok(false); valid= a.nd==2&&a.r==a.c; if(lit||a.n_()==1) return ok(false); res= raw? BasicPtr(new Inverse(x)):Inverse::New(x); if(!valid) return ok(false); std::string why; V q(2,a.r,a.c); if(!sameShape(q,res->getShape(),why)) return bad("shape",std::string(ds)+" inverse "+why); return ok(); }
    case 14: { if(a.nd==0) return ok(false); valid= a.nd==2&&a.r==a.c; if(valid) wv=vmul(xv,xv); if(lit&&!raw) return ok(false); res= raw? BasicPtr(new Pow(x,2)):Pow::New(x,Int::New(2)); break; }
    case 15: { valid=a.r==1&&a.c==1; if(valid) wv=V(xv.a[0]); if(lit&&!raw) return ok(false); res= raw? BasicPtr(new Scalar(x)):Scalar::New(x); break; }
  } } catch(...){ th=true; thrown=catchmsg(); }
  if(th&&valid) return bad("reject",std::string(ds)+(raw?" raw":"")+(lit?" lit":"")+": conforming operands rejected: "+thrown); if(!th&&!valid) return bad("accept",std::string(ds)+(raw?" raw":"")+(lit?" lit":"")+": non-conforming operands accepted, result "+rstr(res)+" "+res->getShape().toString()); if(th) return ok();
  std::string why; if(!sameShape(wv,res->getShape(),why)) return bad("shape",std::string(ds)+(raw?" raw":"")+(lit?" lit":"")+" => "+rstr(res)+": "+why); V z; try{ z=evalAt(res,e);} catch(Ill&xx){ return bad("illformed",std::string(ds)+" => "+rstr(res)+": "+xx.what()); } if(!vbad(z)&&!same(wv,z,0,why)) return bad("value",std::string(ds)+" => "+rstr(res)+": "+why); return ok(); }

// ---- matrix and symmetric matrix objects: any history of stores and arithmetic agrees with an array
static BasicPtr melem(Rng&g,Env const&e,S&val){ static const char*c[]={"a","b","c","q"}; int x=g.u(6); if(x==0){ int v=g.u(7)-3; val=S(v); return BasicPtr(new Int(v)); } if(x==1){ ld v=(g.u(9)-4)/2.0L; val=S(v); return BasicPtr(new Real((double)v)); } const char*n=c[g.u(4)]; val=e.at(n).a[0]; BasicPtr s(new Symbol(n)); if(x==2){ val=-val; return Neg::New(s); } if(x==3){ val=val*S(2); return s*Int::New(2); } return s; }
static Out mcheck(const char*what,std::string const&ds,Matrix const&m,V const&w,Env const&e){ std::string why; if(!sameShape(w,m.getShape(),why)) return bad("shape",ds+what+": "+why); for(int i=0;i<w.r;i++)for(int j=0;j<w.c;j++){ Eval E(e); V x; BasicPtr el; try{ el=m.get(i,j); x=E.ev(el);} catch(Ill&q){ return bad("illformed",ds+what+": "+q.what()); } catch(...){ return bad("throw",ds+what+": reading an element threw "+catchmsg()); } V y(w.at(i,j)); if(!same(y,x,0,why)){ char b[40]; snprintf(b,40," element (%d,%d) ",i,j); return bad("value",ds+what+b+rstr(el)+": "+why); } } return ok(); }
static Out m_matrix(uint64_t seed){ Rng g(seed^0x3A7); Env e=mkEnv(g,true); bool sym=g.p(40); auto rs=[&](){ Sh q; int x=g.u(6); if(x==0) q=Sh{1,1+g.u(5),1}; else if(x==1) q=Sh{1,1,2+g.u(4)}; else q=Sh{2,1+g.u(5),1+g.u(5)}; if(sym){ q.nd=2; q.r=2+g.u(4); q.c=q.r; } return q; };
  Sh h=rs(); char b[80]; snprintf(b,80,"%s %d:%dx%d ",sym?"symmetric":"matrix",h.nd,h.r,h.c); std::string ds=b; V w(h.nd,h.r,h.c); BasicPtrVec vals; bool full=g.p(60);
  if(full){ if(sym){ for(int i=0;i<h.r;i++)for(int j=i;j<h.r;j++){ S v; vals.push_back(melem(g,e,v)); w.at(i,j)=w.at(j,i)=v; } } else for(int i=0;i<w.n();i++){ S v; vals.push_back(melem(g,e,v)); w.a[i]=v; } }
  BasicPtr keep; Matrix*m; try{ m= sym? (full? new SymmetricMatrix(vals,shp(h)): new SymmetricMatrix(shp(h))) : (full? new Matrix(vals,shp(h)): new Matrix(shp(h))); keep=BasicPtr(m); } catch(...){ return bad("throw",ds+"construction threw "+catchmsg()); }
  { Out o=mcheck("as constructed",ds,*m,w,e); if(o.fail) return o; }
  if(full&&g.p(20)){ BasicPtrVec v2=vals; if(g.p(50)) v2.push_back(Int::New(1)); else v2.pop_back(); bool th=false; try{ if(sym) new SymmetricMatrix(v2,shp(h)); else new Matrix(v2,shp(h)); } catch(...){ th=true; } if(!th) return bad("accept",ds+"wrong number of elements accepted"); }
  int n=1+g.u(6); for(int k=0;k<n;k++){ int i=g.u(h.r),j=g.u(h.c); S v; BasicPtr x=melem(g,e,v); bool lin=!sym&&g.p(30); snprintf(b,80,"after storing %s%d,%d ",lin?"(linear) ":"",i,j); try{ if(lin) m->set(i*h.c+j,x); else m->set(i,j,x);} catch(...){ return bad("throw",ds+b+"threw "+catchmsg()); } w.at(i,j)=v; if(sym) w.at(j,i)=v; Out o=mcheck(b,ds,*m,w,e); if(o.fail) return o; if(lin&&m->get(i*h.c+j).get()!=x.get()) return bad("value",ds+"linear read"); }
  { int i=h.r+g.u(3),j=h.c+g.u(3); int q=g.u(3); if(q==0) i=g.u(h.r); if(q==1) j=g.u(h.c); bool th=false; try{ if(g.p(50)) m->get(i,j); else m->set(i,j,Int::New(1)); } catch(...){ th=true; } if(!th){ snprintf(b,80,"index (%d,%d) accepted",i,j); return bad("bounds",ds+b);} if(!sym){ th=false; try{ if(g.p(50)) m->get(w.n()+g.u(3)); else m->set(w.n()+g.u(3),Int::New(1)); } catch(...){ th=true; } if(!th) return bad("bounds",ds+"linear index accepted"); } Out o=mcheck("after refused access",ds,*m,w,e); if(o.fail) return o; }
  if(!sym){ Matrix cp(*m); cp.set(0,0,Int::New(77)); Out o=mcheck("after changing a copy",ds,*m,w,e); if(o.fail) return o; }
  int op=g.u(28); Sh h2=h; if(op==2||op==3){ h2=Sh{2,h.c,1+g.u(4)}; if(g.p(30)){ h2.nd=1; h2.c=1; } if(sym&&h2.r==h2.c&&0) h2=h; } V w2(h2.nd,h2.r,h2.c); bool s2=(h2.nd==2&&h2.r==h2.c&&h2.r>1&&g.p(40)); if(sym&&op<2&&g.p(60)) s2=true; BasicPtrVec v2; if(s2){ for(int i=0;i<h2.r;i++)for(int j=i;j<h2.r;j++){ S v; v2.push_back(melem(g,e,v)); w2.at(i,j)=w2.at(j,i)=v; } } else for(int i=0;i<w2.n();i++){ S v; v2.push_back(melem(g,e,v)); w2.a[i]=v; }
  Matrix*m2= s2? new SymmetricMatrix(v2,shp(h2)) : new Matrix(v2,shp(h2)); BasicPtr keep2(m2); int iv=g.u(5)-2; ld rvv=(g.u(9)-4)/2.0L; Int ci(iv); Real cr((double)rvv); SymmetricMatrix*sm= sym? dynamic_cast<SymmetricMatrix*>(m):0; snprintf(b,80,"op %d%s%s ",op,s2?" with symmetric":"",""); std::string what=b; V want; 
  try{ switch(op){
    case 0: { want=vadd(w,w2); if(sm&&s2){ SymmetricMatrix r(*sm+*dynamic_cast<SymmetricMatrix*>(m2)); return mcheck(what.c_str(),ds,r,want,e);} Matrix r(g.p(50)? *m+*m2 : Matrix(*m)+=*m2); return mcheck(what.c_str(),ds,r,want,e); }
    case 1: { want=vadd(w,vneg(w2)); if(sm&&s2){ SymmetricMatrix r(*sm-*dynamic_cast<SymmetricMatrix*>(m2)); return mcheck(what.c_str(),ds,r,want,e);} Matrix r(g.p(50)? *m-*m2: Matrix(*m)-=*m2); return mcheck(what.c_str(),ds,r,want,e); }
    case 2: case 3: { want=vmul(w,w2); if(want.n()==1&&want.nd==1) want.nd=1; Matrix r(*m * *m2); return mcheck(what.c_str(),ds,r,want,e); }
    case 4: { want=vadd(w,V(S(iv))); if(sm) return mcheck(what.c_str(),ds,*sm+ci,want,e); return mcheck(what.c_str(),ds,*m+ci,want,e); }
    case 5: { want=vadd(w,V(S(rvv))); if(sm) return mcheck(what.c_str(),ds,*sm+cr,want,e); return mcheck(what.c_str(),ds,*m+cr,want,e); }
    case 6: { want=vadd(w,V(S(-iv))); if(sm) return mcheck(what.c_str(),ds,*sm-ci,want,e); return mcheck(what.c_str(),ds,*m-ci,want,e); }
    case 7: { want=vadd(w,V(S(-rvv))); if(sm) return mcheck(what.c_str(),ds,*sm-cr,want,e); return mcheck(what.c_str(),ds,*m-cr,want,e); }
    case 8: { want=vmul(w,V(S(iv))); if(sm) return mcheck(what.c_str(),ds,*sm*ci,want,e); return mcheck(what.c_str(),ds,*m*ci,want,e); }
    case 9: { want=vmul(w,V(S(rvv))); if(sm) return mcheck(what.c_str(),ds,*sm*cr,want,e); return mcheck(what.c_str(),ds,*m*cr,want,e); }
    case 10: { want=vneg(w); if(sm) return mcheck(what.c_str(),ds,-*sm,want,e); return mcheck(what.c_str(),ds,-*m,want,e); }
    case 11: { want=vtr(w); return mcheck(what.c_str(),ds,m->transpose(),want,e); }
    case 12: { ld d=(1+g.u(4))/2.0L; want=map1(w,[&](S const&x){return x*S(1/d);}); if(sm) return mcheck(what.c_str(),ds,*sm/Real((double)d),want,e); return mcheck(what.c_str(),ds,g.p(50)?*m/Real((double)d):*m/(double)d,want,e); }
    case 13: { BasicPtr d=keep->der(); want=map1(w,[](S const&x){return D(x);}); for(int i=0;i<w.r;i++)for(int j=0;j<w.c;j++){ } if(d->getType()!=Type_Matrix) return ok(false); return ok(false); }
    case 14: { want=map1(w,sinS); BasicPtr r=Sin::New(keep); const Matrix*rm=dynamic_cast<const Matrix*>(r.get()); if(!rm) return ok(false); return mcheck(what.c_str(),ds,*rm,want,e); }
    case 15: { bool eq=(*m==*m2); bool all=h==h2; if(eq&&!all) return bad("eq",ds+"equal to a matrix of another shape"); if(eq){ std::string why; if(!same(w,w2,0,why)) return bad("eq",ds+"compared equal: "+why); } Matrix cp(*m); if(!sym&&!(cp==*m)) return bad("eq",ds+"copy differs"); return ok(); }
    case 16: { want=vadd(V(S(iv)),w); if(sm) return mcheck(what.c_str(),ds,ci+*sm,want,e); return mcheck(what.c_str(),ds,ci+*m,want,e); }
    case 17: { want=vadd(V(S(rvv)),w); if(sm) return mcheck(what.c_str(),ds,cr+*sm,want,e); return mcheck(what.c_str(),ds,cr+*m,want,e); }
    case 18: { want=vadd(V(S(iv)),vneg(w)); if(sm) return mcheck(what.c_str(),ds,ci-*sm,want,e); return mcheck(what.c_str(),ds,ci-*m,want,e); }
    case 19: { want=vadd(V(S(rvv)),vneg(w)); if(sm) return mcheck(what.c_str(),ds,cr-*sm,want,e); return mcheck(what.c_str(),ds,cr-*m,want,e); }
    case 20: { want=vmul(V(S(iv)),w); if(sm) return mcheck(what.c_str(),ds,ci* *sm,want,e); return mcheck(what.c_str(),ds,ci* *m,want,e); }
    case 21: { want=vmul(V(S(rvv)),w); if(sm) return mcheck(what.c_str(),ds,cr* *sm,want,e); return mcheck(what.c_str(),ds,cr* *m,want,e); }
    case 22: { int d=1+g.u(4); if(g.p(40)) d=-d; want=map1(w,[&](S const&x){return x*S(1.0L/d);}); if(sm) return mcheck(what.c_str(),ds,*sm/Int(d),want,e); return mcheck(what.c_str(),ds,*m/Int(d),want,e); }
    case 23: { ld d=(1+g.u(4))/2.0L; want=map1(w,[&](S const&x){return x*S(1/d);}); if(sm){ SymmetricMatrix r(*sm); if(g.p(50)) return mcheck(what.c_str(),ds,r/=(double)d,want,e); return mcheck(what.c_str(),ds,*sm/(double)d,want,e); } Matrix r(*m); return mcheck(what.c_str(),ds,r/=(double)d,want,e); }
    case 24: { if(!(sm&&s2)) return ok(false); SymmetricMatrix r(*sm); SymmetricMatrix*q=dynamic_cast<SymmetricMatrix*>(m2); if(g.p(50)){ want=vadd(w,w2); return mcheck(what.c_str(),ds,r+=*q,want,e); } want=vadd(w,vneg(w2)); return mcheck(what.c_str(),ds,r-=*q,want,e); }
    case 25: { int f=g.u(5); BasicPtr x; int l=g.u(4); SymmetricMatrix*q=s2? dynamic_cast<SymmetricMatrix*>(m2):0; if(f<2) want=vadd(w,w2); else want=vadd(w,vneg(w2));
      if(f<2) x= l==0&&sm? *sm+keep2 : l==1&&q? keep+*q : l==2? *m+keep2 : keep+*m2; else x= l==0&&sm? *sm-keep2 : l==1&&q? keep-*q : l==2? *m-keep2 : keep-*m2;
      V r; try{ r=evalAt(x,e);} catch(Ill&x2){ return bad("ill",ds+what+std::string(x2.what())); } std::string why; if(!same(want,r,0,why)) return bad("val",ds+what+"with an expression: "+why); return ok(); }
    case 26: { S v; BasicPtr x=melem(g,e,v); V sv(v); want=vmul(w,sv); BasicPtr y= sm? (g.p(50)? *sm*x : x* *sm) : (g.p(50)? *m*x : x* *m); V r; try{ r=evalAt(y,e);} catch(Ill&x2){ return bad("ill",ds+what+std::string(x2.what())); } std::string why; if(!same(want,r,0,why)) return bad("val",ds+what+"times an expression: "+why); return ok(); }
    case 27: { Matrix c1(*m); bool a=(Matrix(*m)==keep), b2=(keep==Matrix(*m)), n1=(Matrix(*m)!=keep), n2=(keep!=Matrix(*m)); if(a==n1||b2==n2||a!=b2) return bad("eq",ds+what+"comparison with an expression is not consistent"); if(!sym&&!a) return bad("eq",ds+what+"differs from itself"); if(sm){ bool a3=(*sm==keep), b3=(keep==*sm), n3=(*sm!=keep), n4=(keep!=*sm); if(!a3||!b3||n3||n4) return bad("eq",ds+what+"symmetric matrix differs from itself"); } return ok(); }
  } } catch(...){ return bad("throw",ds+what+"threw "+catchmsg()); }
  return ok(); }

// ---- printed code: one record per case, judged by printcheck.py
#include "CPrinter.h"
#include "CSharpPrinter.h"
#include "FMUPrinter.h"
#include "FortranPrinter.h"
#include "MatlabPrinter.h"
#include "MatlabSymPrinter.h"
#include "ModelicaPrinter.h"
#include "PythonPrinter.h"
static bool arrayops(BasicPtr const&p,bool root){ Basic_Type t=p->getType(); if(t==Type_Element&&p->getArg(0)->getType()==Type_Symbol) return false; if(!p->is_Scalar()&&!(root&&t==Type_Matrix)) return true; for(size_t i=0;i<p->getArgsSize();i++) if(arrayops(p->getArg(i),false)) return true; return false; }
static bool bigint(BasicPtr const&p){ if(p->getType()==Type_Int){ const Int*b=dynamic_cast<const Int*>(p.get()); if(b&&b->getValue()==(-2147483647-1)) return true; } for(size_t i=0;i<p->getArgsSize();i++) if(bigint(p->getArg(i))) return true; return false; }
static bool odd(BasicPtr const&p){ Basic_Type t=p->getType(); if((t==Type_Transpose||t==Type_Inverse||t==Type_Skew||t==Type_Scalar)&&p->getArg(0)->is_Scalar()) return true; if(t==Type_Element&&p->getArg(0)->is_Scalar()) return true; for(size_t i=0;i<p->getArgsSize();i++) if(odd(p->getArg(i))) return true; return false; }
static void putv(std::string&o,V const&v){ char b[64]; snprintf(b,64," %d %d %d",v.nd,v.r,v.c); o+=b; for(auto&x:v.a){ snprintf(b,64," %.17Lg",x.c[0]); o+=b; } }
static std::string hex(std::string const&s){ std::string r; char b[4]; for(unsigned char c:s){ snprintf(b,4,"%02x",c); r+=b; } return r.empty()?"-":r; }
static Out m_print(uint64_t seed){ Rng g(seed^0x9717); Gen G(g); G.relval=false; G.bcast=g.p(15); G.elemwise=false; bool sc=g.p(35); TP t; if(sc&&!FIXED.get()){ t=G.gen(Sh{0,1,1},1+g.u(4)); } else t=genTerm(g,G); World w=mkWorld(); BasicPtr r;
  try{ r=build(t,w); if(g.p(40)) r=r->simplify(); } catch(...){ return ok(false); } if(hasNaN(r)||bigint(r)||odd(r)) return ok(false);
  std::string rec; bool ran=false; for(int k=0;k<NPTS;k++){ Rng ge(seed*61+k+5); Env e=mkEnv(ge,false,"",0); V v; try{ v=evalAt(r,e);} catch(Ill&){ return ok(false); } if(vbad(v)) continue; ran=true; rec+="ENV"; for(auto&x:e){ rec+=" "+x.first; putv(rec,x.second); } rec+="\nVAL"; putv(rec,v); rec+="\n"; }
  if(!ran) return ok(false);
  std::map<std::string,int> vr; for(int i=0;i<NSD;i++) if((seed>>3)%3==0 && i%2) { vr[SD[i].n]=i; if(SD[i].sh.nd){ for(int a=0;a<SD[i].sh.r;a++) for(int b=0;b<SD[i].sh.c;b++){ char q[99]; if(SD[i].sh.nd==1) snprintf(q,99,"%s_%d",SD[i].n,a>0?a:b); else snprintf(q,99,"%s_%d_%d",SD[i].n,a,b); vr[q]=i; } } }
  CPrinter c; CSharpPrinter cs; FMUPrinter fm(&vr); FortranPrinter fo; MatlabPrinter ml; MatlabSymPrinter ms; ModelicaPrinter mo; PythonPrinter py;
  struct { const char*n; Printer*p; bool arr; } L[]={ {"C",&c,false},{"CSharp",&cs,false},{"FMU",&fm,false},{"Fortran",&fo,true},{"Matlab",&ml,true},{"MatlabSym",&ms,true},{"Modelica",&mo,true},{"Python",&py,true} };
  bool ao=arrayops(r,true); std::string out="CASE "+std::to_string(seed)+" "+hex(show(t)+" == "+rstr(r))+"\n"+rec; int n=0;
  for(auto&l:L){ if(ao&&!l.arr) continue; std::string s; try{ s=l.p->print(r); } catch(...){ out+="TXT "+std::string(l.n)+" "+hex("THROW "+catchmsg())+"\n"; continue; } if(l.p->getErrorcount()!=0) continue; out+="TXT "+std::string(l.n)+" "+hex(s)+"\n"; n++; }
  out+="END\n"; FILE*f=fdopen(dup(3),"a"); if(f){ fputs(out.c_str(),f); fclose(f); } return ok(n>0); }
