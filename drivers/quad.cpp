// Contracts for AdaptiveQuad (include/nuSQuIDS/AdaptiveQuad.h).
#include "vf.h"
#include <cmath>
#include <limits>
#include <stdexcept>
#include <utility>
#include <vector>
#include <deque>
#include <stack>
#include <queue>
#include <list>
#include <initializer_list>
#include <functional>
#include <algorithm>
#if !defined(VF_NATIVE) && defined(VF_ADAPT)
#include "worklist.h"
#define vector vf_worklist
#define deque vf_worklist
#define stack vf_worklist
#define queue vf_worklist
#define list vf_worklist
#include <nuSQuIDS/AdaptiveQuad.h>
#undef vector
#undef deque
#undef stack
#undef queue
#undef list
#else
#include <nuSQuIDS/AdaptiveQuad.h>
#endif
using AdaptiveQuad::Interval; using AdaptiveQuad::Options; using AdaptiveQuad::integrate;
namespace{
struct F{ int k; double operator()(double x) const{ return vf_fun(k,x); } };
// counts and confines the evaluations
struct In{ double a,b; int* n; double operator()(double x) const{ vf_le(a,x,std::fabs(a)+std::fabs(b),"the integrand is only evaluated inside the interval"); vf_le(x,b,std::fabs(a)+std::fabs(b),"the integrand is only evaluated inside the interval"); ++*n; return vf_fun(0,x); } };
struct Sh{ double m,h; double operator()(double t) const{ return vf_fun(0,m+t*h); } };       // f on [a,b] seen from [-1,1]
struct Fl{ double s; double operator()(double x) const{ return vf_fun(0,s-x); } };           // mirrored
struct Lc{ double p,q; double operator()(double x) const{ return p*vf_fun(0,x)+q*vf_fun(1,x); } };
struct Mo{ int k; double operator()(double t) const{ double r=1; for(int i=0;i<k;i++) r*=t; return r; } };
struct P5{ const double* c; double operator()(double x) const{ return c[0]+x*(c[1]+x*(c[2]+x*(c[3]+x*(c[4]+x*c[5])))); }
  double I(double x) const{ return x*(c[0]+x*(c[1]/2+x*(c[2]/3+x*(c[3]/4+x*(c[4]/5+x*c[5]/6))))); }
  double M(double x) const{ double r=0,t=std::fabs(x),y=t; for(int i=0;i<6;i++){ r+=std::fabs(c[i])*y; y*=t; } return r; } };
struct P9{ const double* c; double operator()(double x) const{ double r=0; for(int i=9;i>=0;i--) r=r*x+c[i]; return r; }
  double I(double x) const{ double r=0; for(int i=9;i>=0;i--) r=r*x+c[i]/(i+1); return r*x; }
  double M(double x) const{ double r=0,t=std::fabs(x); for(int i=9;i>=0;i--) r=r*t+std::fabs(c[i]); return r*t; } };
double wid(const char* n){ double w=vf_real_in(n,0.0009765625,64); return w; }
}
// ---- D01: one interval
VF(D01_midpoint){ double a=vf_real("a"),w=wid("w"),b=a+w; double m=AdaptiveQuad::midpoint(a,b);
  vf_close(2*m,a+b,std::fabs(a)+std::fabs(b),"the midpoint is half way"); vf_le(a,m,0,"the midpoint is inside"); vf_le(m,b,0,"the midpoint is inside"); }
static void nodes(const bool full){ double a=vf_real("a"),b=a+wid("w"); int n=0; double fa=vf_real("fa"),fb=vf_real("fb");
  Interval i(a,b,fa,fb); In f{a,b,&n}; i.evaluate(f,full);
  vf_assert(n==(full?11:5),"five or eleven interior evaluations");
  vf_le(a,i.spa,std::fabs(a),"the split points lie inside in order"); vf_le(i.spa,i.spb,std::fabs(a),"the split points lie inside in order"); vf_le(i.spb,i.b,std::fabs(a),"the split points lie inside in order");
  vf_close(i.fspa,vf_fun(0,i.spa),0,"the value kept for a split point is the integrand there"); vf_close(i.fspb,vf_fun(0,i.spb),0,"the value kept for a split point is the integrand there");
  vf_close(i.spa+i.spb,a+b,std::fabs(a)+std::fabs(b),"the split points are symmetric about the middle");
  vf_assert(i.a==a && i.b==b && i.fa==fa && i.fb==fb,"end points are kept"); }
VF(D01_nodes){ nodes(false); }
VF(D01_fullnodes){ nodes(true); }
VF(D01_affine){ double a=vf_real("a"),w=wid("w"),b=a+w; double h=w/2,m=a+h;
  Interval i(a,b,vf_fun(0,a),vf_fun(0,b)), u(-1,1,vf_fun(0,m+(-1.)*h),vf_fun(0,m+1.*h));
  F f{0}; Sh g{m,h}; double full=i.evaluate(f,true),fu=u.evaluate(g,true); double s=h*8*(std::fabs(vf_fun(0,a))+std::fabs(vf_fun(0,b))+std::fabs(vf_fun(0,m))+1);
  vf_close(i.i2,h*u.i2,s,"the 4 point rule scales with the interval"); vf_close(i.value,h*u.value,s,"the 7 point rule scales with the interval"); vf_close(full,h*fu,s,"the 13 point rule scales with the interval"); }
VF(D01_linear){ double a=vf_real("a"),b=a+wid("w"),p=vf_real("p"),q=vf_real("q"); F f{0},g{1}; Lc l{p,q};
  Interval i(a,b,f(a),f(b)),j(a,b,g(a),g(b)),k(a,b,l(a),l(b)); double x=i.evaluate(f,true),y=j.evaluate(g,true),z=k.evaluate(l,true);
  double s=(b-a)*(std::fabs(p)+std::fabs(q))*(std::fabs(f(a))+std::fabs(f(b))+std::fabs(g(a))+std::fabs(g(b))+std::fabs(i.value)+std::fabs(j.value)+1);
  vf_close(k.i2,p*i.i2+q*j.i2,s,"the 4 point rule is linear"); vf_close(k.value,p*i.value+q*j.value,s,"the 7 point rule is linear"); vf_close(z,p*x+q*y,s,"the 13 point rule is linear"); }
VF(D01_mirror){ double a=vf_real("a"),b=a+wid("w"); F f{0}; Fl g{a+b}; Interval i(a,b,f(a),f(b)),j(a,b,f(b),f(a)); double x=i.evaluate(f,true),y=j.evaluate(g,true);
  double s=(b-a)*(std::fabs(f(a))+std::fabs(f(b))+1)*64;
  vf_close(i.i2,j.i2,s,"mirroring the integrand keeps the integral"); vf_close(i.value,j.value,s,"mirroring the integrand keeps the integral"); vf_close(x,y,s,"mirroring the integrand keeps the integral"); }
VF(D01_partial){ double a=vf_real("a"),b=a+wid("w"); F f{0}; Interval i(a,b,f(a),f(b)),j(a,b,f(a),f(b)); i.evaluate(f,true); j.evaluate(f,false);
  vf_close(i.value,j.value,0,"the shorter evaluation gives the same 7 point estimate"); vf_close(i.i2,j.i2,0,"the shorter evaluation gives the same 4 point estimate"); vf_close(i.spa,j.spa,0,"same split points"); vf_close(i.fspb,j.fspb,0,"same split points"); }
VF(D01_poly5){ double a=vf_real("a"),b=a+wid("w"); double* c=vf_reals("c",6); P5 f{c}; Interval i(a,b,f(a),f(b)); i.evaluate(f);
  double e=f.I(b)-f.I(a),s=f.M(a)+f.M(b); vf_close(i.i2,e,s,"the 4 point rule integrates degree 5 exactly"); vf_close(i.value,e,s,"the 7 point rule integrates degree 5 exactly"); }
VF(D01_poly9){ double* c=vf_reals("c",10); P9 f{c}; Interval i(-1,1,f(-1),f(1)); double full=i.evaluate(f,true);
  double e=f.I(1)-f.I(-1),s=f.M(1); vf_close(i.value,e,s,"the 7 point rule integrates degree 9 exactly");
  double d=1e-12*s; vf_le(full-e,d,s,"the 13 point rule integrates degree 9 to 12 digits"); vf_le(e-full,d,s,"the 13 point rule integrates degree 9 to 12 digits"); }
#define MOM(K) VF(D01_moment##K){ Mo f{K}; Interval i(-1,1,f(-1),f(1)); double full=i.evaluate(f,true),e=(K%2)?0:2./(K+1); \
  vf_le(full-e,1e-12,1e-3,"the 13 point rule integrates this power to 12 digits"); vf_le(e-full,1e-12,1e-3,"the 13 point rule integrates this power to 12 digits"); }
MOM(10) MOM(11) MOM(12) MOM(13) MOM(14) MOM(15) MOM(16) MOM(17)
VF(D01_badness){ double a=vf_real("a"),b=a+wid("w"),tol=vf_real("tol"); F f{0}; Interval i(a,b,f(a),f(b)); i.evaluate(f); double d=i.value-i.i2;
  if(i.badness(tol)<=0){ vf_le(d,tol,0,"badness at most zero means the estimates agree within the tolerance"); vf_le(-d,tol,0,"badness at most zero means the estimates agree within the tolerance"); }
  else vf_assert(std::fabs(d)>tol || std::fabs(std::fabs(d)-tol)<=1e-12*(std::fabs(d)+std::fabs(tol)),"positive badness means they do not"); }
VF(D01_subdividable){ double a=vf_real("a"),b=a+vf_real_in("w",0,1); Interval i(a,b,0,0); double m=std::fabs(a); if(std::fabs(b)>m) m=std::fabs(b);
  vf_assert(i.canSubdivide()==(b-a>32*std::numeric_limits<double>::epsilon()*m),"an interval can be divided while it is wider than 32 ulp of its larger end"); }
#ifdef VF_ADAPT
// ---- D02: the adaptive integral
namespace{
struct Cnt{ int* n; double operator()(double x) const{ ++*n; return vf_fun(0,x); } };
// throws if the integrand is touched at all
struct Never{ double operator()(double) const{ vf_unreachable("a refused integral never evaluates the integrand"); return 0; } };
struct Rng{ double a,b; int* n; double operator()(double x) const{ vf_assert(x>=a && x<=b,"the integrand is only evaluated inside the limits"); ++*n; return vf_fun(0,x); } };
double big(double a,double b){ double x=std::fabs(a),y=std::fabs(b); return x>y?x:y; }
// what the comparison with the tolerance comes down to (steps of the argument, proved here)
void lemma(const Interval& i,double is,double tol){ double s=std::fabs(is),e1=std::fabs(i.value-is),e2=std::fabs(i.i2-is); vf_le(1e-9*s,tol*s,s,"lemma: the tolerance is at least 1e-9 of the result");
  if(e2>0){ double R=e1/e2; if(R>0 && R<1) vf_le(tol*s,tol/R*s,tol/R*s,"lemma: dividing by a ratio below one only loosens the tolerance"); } }
// the estimates of the whole interval agree well enough that no subdivision is needed for any tolerance from 1e-9 up
void wide(double a,double b){ vf_assume(b-a>32*std::numeric_limits<double>::epsilon()*big(a,b)); }
double whole(double a,double b,double tol,double& v){ wide(a,b); F f{0}; Interval i(a,b,f(a),f(b)); double is=i.evaluate(f,true); v=i.value; double d=i.value-i.i2,t=1e-9*std::fabs(is); vf_assume(is>0 || is<0); vf_assume(d<=t); vf_assume(-d<=t);
  lemma(i,is,tol); return is; }
}
// an integrand whose integral over every interval the rules give exactly: prim is a primitive
struct Exact{ double operator()(double x) const{ return vf_fun(0,x); } };
struct Good:Exact{}; struct Bad:Exact{}; struct Near:Exact{}; struct Far:Exact{}; struct Within{ double a,b; double operator()(double x) const{ vf_assert(x>=a && x<=b,"the integrand is only evaluated inside the limits"); return vf_fun(0,x); } };
#ifndef VF_NATIVE
static bool plain;               // every estimate of a piece is its length, and none is acceptable
static double prim(double x){ return plain?x:vf_fun(5,x); }
static double lowlim,uplim;      // the limits of the integral, in order
// what holds of every pending interval
static void J(bool c,const char* m,bool put){ if(put) vf_assert(c,m); else vf_assume(c); }
namespace AdaptiveQuad{
static void vf_arbitrary(Interval& i){ i.a=vf_real("i.a"); i.b=vf_real("i.b"); i.fa=vf_real("i.fa"); i.fb=vf_real("i.fb"); i.spa=vf_real("i.spa"); i.spb=vf_real("i.spb"); i.fspa=vf_real("i.fspa"); i.fspb=vf_real("i.fspb"); i.value=vf_real("i.value"); i.i2=vf_real("i.i2"); }
static void vf_pending(const Interval& i,bool put){
  J(i.a>=lowlim && i.b<=uplim,"a pending interval lies inside the limits",put); J(i.a<=i.spa && i.spa<=i.spb && i.spb<=i.b,"the split points of a pending interval are in order",put);
  J(i.fa==vf_fun(0,i.a) && i.fb==vf_fun(0,i.b),"a pending interval knows the integrand at its ends",put); J(i.fspa==vf_fun(0,i.spa) && i.fspb==vf_fun(0,i.spb),"a pending interval knows the integrand at its split points",put); }
static double vf_weight(const Interval& i){ return prim(i.b)-prim(i.a); }
}
template<class Fn> static double evaluate_contract(Interval* i,Fn f,bool full){
  for(int k=0;k<(full?11:5);k++) f(vf_real_in("x",i->a,i->b));
  i->spa=vf_real_in("spa",i->a,i->b); i->spb=vf_real_in("spb",i->spa,i->b); i->fspa=vf_fun(0,i->spa); i->fspb=vf_fun(0,i->spb);
  i->i2=vf_app(2,i->a,i->b,i->fa,i->fb); i->value=vf_app(1,i->a,i->b,i->fa,i->fb); return full?vf_app(0,i->a,i->b,i->fa,i->fb):0; }
// the contract of Interval::evaluate as its callers see it (proved by the D01 contracts): the interval and its end values are kept, the
// integrand is evaluated 11 (or 5) times inside the interval, and the estimates are determined by the interval, its end values and the integrand
template<class Fn> __attribute__((used)) double VFSTUB_evaluate(Interval* i,Fn f,bool full){ return evaluate_contract<Fn>(i,f,full); }
static double exact(Interval* i,Exact& f,bool full){ double r=evaluate_contract<Exact&>(i,f,full); i->value=prim(i->b)-prim(i->a); return full?i->value:r; }
template<> __attribute__((used)) double VFSTUB_evaluate<Exact&>(Interval* i,Exact& f,bool full){ return exact(i,f,full); }
// every piece is acceptable, the whole interval need not be
template<> __attribute__((used)) double VFSTUB_evaluate<Good&>(Interval* i,Good& f,bool full){ double r=exact(i,f,full); if(!full) i->i2=i->value; return r; }
// neither any piece nor the whole is acceptable, whatever the tolerance (at most one)
template<> __attribute__((used)) double VFSTUB_evaluate<Bad&>(Interval* i,Bad& f,bool full){ double r=exact(i,f,full); i->i2=i->value+2*(uplim-lowlim); return r; }
// the squared difference of the two estimates of a piece is its length, so the sum of squares over pieces that tile the interval is known
static double spread(Interval* i,Exact& f,bool full,double k){ double r=evaluate_contract<Exact&>(i,f,full),L=i->b-i->a; i->value=L; i->i2=full?0.75*L+k*L:L-sqrt(L); return full?0.75*L:r; }
template<> __attribute__((used)) double VFSTUB_evaluate<Near&>(Interval* i,Near& f,bool full){ return spread(i,f,full,1); }
template<> __attribute__((used)) double VFSTUB_evaluate<Far&>(Interval* i,Far& f,bool full){ return spread(i,f,full,-0.125); }
#define STUB(T) template double VFSTUB_evaluate<T>(Interval*,T,bool);
#else
#define STUB(T)
#endif
STUB(F&) STUB(Cnt&) STUB(Rng&) STUB(Within&) STUB(Never&) STUB(P5&)
VF(D02_tolerance){ double a=vf_real("a"),b=vf_real("b"),tol=vf_real_in("tol",-1,3e-16); vf_assume(tol<std::numeric_limits<double>::epsilon()); bool t=false;
  try{ integrate(Never{},a,b,tol); }catch(std::runtime_error&){ t=true; } vf_assert(t,"a tolerance below machine precision is refused"); }
VF(D02_narrow){ double a=vf_real("a"),w=vf_real_in("w",0,1)*1e-13,b=a+w; F f{0}; vf_assume(b-a<=32*std::numeric_limits<double>::epsilon()*big(a,b)); bool t=false;
  try{ integrate(f,a,b,1e-6); }catch(std::runtime_error&){ t=true; } vf_assert(t,"limits too close together are refused"); }
VF(D02_narrow_reversed){ double a=vf_real("a"),w=vf_real_in("w",0,1)*1e-13,b=a+w; F f{0}; vf_assume(b-a<=32*std::numeric_limits<double>::epsilon()*big(a,b)); bool t=false;
  try{ integrate(f,b,a,1e-6); }catch(std::runtime_error&){ t=true; } vf_assert(t,"limits too close together are refused"); }
VF(D02_direct){ double a=vf_real("a"),b=a+wid("w"),tol=vf_real_in("tol",1e-9,1),v; double is=whole(a,b,tol,v); int n=0; Cnt f{&n};
  double r=integrate(f,a,b,tol); vf_close(r,is,0,"when the estimates agree the result is the 13 point estimate"); vf_assert(n==13,"thirteen evaluations suffice when the estimates agree"); }
VF(D02_reverse){ double a=vf_real("a"),b=a+wid("w"),tol=vf_real_in("tol",1e-9,1),v; double is=whole(a,b,tol,v); F f{0};
  vf_close(integrate(f,b,a,tol),-is,0,"exchanging the limits changes the sign"); }
VF(D02_flags){ double a=vf_real("a"),b=a+wid("w"),tol=vf_real_in("tol",1e-9,1),v; double is=whole(a,b,tol,v); F f{0}; Options o; o.outOfTolerance=vf_bool("before"); double r=integrate(f,a,b,tol,&o);
  vf_assert(!o.outOfTolerance && o.inTolerance(),"within tolerance"); vf_close(o.uncertainty,std::fabs(v-is),std::fabs(is),"the uncertainty is the difference of the two best estimates"); vf_close(r,is,0,"options do not change the result");
  vf_close(o.fa,f(a),0,"the missing end point value is handed back"); vf_close(o.fb,f(b),0,"the missing end point value is handed back"); }
VF(D02_known){ double a=vf_real("a"),b=a+wid("w"),tol=vf_real_in("tol",1e-9,1),v; double is=whole(a,b,tol,v); int n=0; Cnt f{&n}; F g{0}; Options o; o.fa=g(a); o.fb=g(b); double r=integrate(f,a,b,tol,&o);
  vf_close(r,is,0,"known end point values give the same result"); vf_assert(n==11,"known end point values are not evaluated again"); vf_close(o.fa,g(a),0,"known end point values are kept"); vf_close(o.fb,g(b),0,"known end point values are kept"); }
VF(D02_known_one){ double a=vf_real("a"),b=a+wid("w"),tol=vf_real_in("tol",1e-9,1),v; double is=whole(a,b,tol,v); int n=0; Cnt f{&n}; F g{0}; Options o; o.fb=g(b); double r=integrate(f,a,b,tol,&o);
  vf_close(r,is,0,"one known end point value gives the same result"); vf_assert(n==12,"known end point values are not evaluated again"); vf_close(o.fa,g(a),0,"the missing end point value is handed back"); vf_close(o.fb,g(b),0,"known end point values are kept"); }
VF(D02_known_reversed){ double a=vf_real("a"),b=a+wid("w"),tol=vf_real_in("tol",1e-9,1),v; double is=whole(a,b,tol,v); F f{0}; Options o; o.fa=f(b); double r=integrate(f,b,a,tol,&o);
  vf_close(r,-is,0,"known end point values give the same result for exchanged limits"); vf_close(o.fa,f(b),0,"end point values belong to their own limit"); vf_close(o.fb,f(a),0,"end point values belong to their own limit"); }
VF(D02_known_used){ double a=vf_real("a"),b=a+wid("w"),fa=vf_real("fa"),fb=vf_real("fb"),tol=vf_real_in("tol",1e-9,1); F f{0}; wide(a,b); Interval i(a,b,fa,fb); double is=i.evaluate(f,true); double d=i.value-i.i2,t=1e-9*std::fabs(is);
  vf_assume(is>0 || is<0); vf_assume(d<=t); vf_assume(-d<=t); lemma(i,is,tol); Options o; o.fa=fb; o.fb=fa; vf_close(integrate(f,b,a,tol,&o),-is,0,"the supplied end point values are the ones used"); }
VF(D02_poly5){ double a=vf_real("a"),b=a+wid("w"),tol=vf_real_in("tol",1e-6,1); double* c=vf_reals("c",6); P5 f{c}; Interval i(a,b,f(a),f(b)); double is=i.evaluate(f,true); double e=f.I(b)-f.I(a); wide(a,b);
#ifndef VF_NATIVE
  vf_assume(i.value==i.i2);                           // proved in D01_poly5
#else
  vf_assume(std::fabs(e)>1e-6*(f.M(a)+f.M(b)));     // otherwise rounding decides whether to subdivide
#endif
  vf_close(integrate(f,a,b,tol),is,std::fabs(f.M(a))+std::fabs(f.M(b)),"a polynomial of degree five needs no subdivision"); }
#ifndef VF_NATIVE
static void limits(double a,double b){ lowlim=a; uplim=b; }
#else
static void limits(double,double){}
#endif
// subdivision, any number of times
#ifndef VF_NATIVE
#define PIECES(NAME) VF(NAME){ double a=vf_real("a"),b=a+wid("w"),tol=vf_real_in("tol",1e-15,1); limits(a,b); plain=false; wide(a,b); Options o; Exact f;
PIECES(D02_pieces) double r=integrate(f,a,b,tol,&o);
  vf_close(r,prim(b)-prim(a),0,"however often it is subdivided, the result is the sum over pieces that tile the interval once"); vf_le(0,o.uncertainty,0,"the uncertainty is not negative");
  vf_close(o.fa,f(a),0,"the missing end point value is handed back"); vf_close(o.fb,f(b),0,"the missing end point value is handed back"); }
PIECES(D02_pieces_reversed) double r=integrate(f,b,a,tol,&o);
  vf_close(r,prim(a)-prim(b),0,"exchanging the limits changes the sign, however often the interval is subdivided"); vf_close(o.fa,f(b),0,"the missing end point value is handed back"); vf_close(o.fb,f(a),0,"the missing end point value is handed back"); }
PIECES(D02_pieces_plain) vf_close(integrate(f,a,b,tol),prim(b)-prim(a),0,"without options the result is the same"); }
PIECES(D02_pieces_known) o.fa=f(b); o.fb=f(a); vf_close(integrate(f,b,a,tol,&o),prim(a)-prim(b),0,"known end point values give the same result"); }
PIECES(D02_pieces_good) Good g; o.outOfTolerance=vf_bool("before"); vf_close(integrate(g,a,b,tol,&o),prim(b)-prim(a),0,"the result is the sum over the pieces"); vf_assert(o.inTolerance(),"not out of tolerance when every piece is acceptable"); }
PIECES(D02_pieces_bad) plain=true; Bad g; o.outOfTolerance=vf_bool("before"); vf_close(integrate(g,a,b,tol,&o),b-a,0,"the result is the sum over the pieces"); vf_assert(o.outOfTolerance,"out of tolerance when no piece is acceptable"); }
PIECES(D02_pieces_near) vf_assume(tol<=0.125); plain=true; Near g; vf_close(integrate(g,b,a,tol,&o),a-b,0,"the result is the sum over the pieces"); vf_close(o.uncertainty,sqrt(b-a)/4,0,"the uncertainty is the root of the summed squares, scaled by the gain of the best estimate"); }
PIECES(D02_pieces_far) vf_assume(tol<=0.125); plain=true; Far g; vf_close(integrate(g,a,b,tol,&o),b-a,0,"the result is the sum over the pieces"); vf_close(o.uncertainty,sqrt(b-a),0,"the uncertainty is the root of the summed squares when the best estimate is no gain"); }
PIECES(D02_inside) Within g{a,b}; integrate(g,a,b,tol,&o); }
PIECES(D02_inside_reversed) Within g{a,b}; integrate(g,b,a,tol); }
#endif
// subdivision: bounded stand-ins
namespace{
// the documented scheme, written recursively: split in three at the split points while the estimates of a piece differ by more than the tolerance
struct Ref{ double tol; double sum,sq; bool out; long n;
  template<class G> void run(const G& f,Interval i){ Interval p[3]={Interval(i.a,i.spa,i.fa,i.fspa),Interval(i.spa,i.spb,i.fspa,i.fspb),Interval(i.spb,i.b,i.fspb,i.fb)};
    for(int k=3;k-->0;){ p[k].evaluate(f); ++n; bool ok=std::fabs(p[k].value-p[k].i2)<=tol; if(ok || !(p[k].b-p[k].a>32*std::numeric_limits<double>::epsilon()*std::max(std::fabs(p[k].a),std::fabs(p[k].b)))){ if(!ok) out=true; sum+=p[k].value; sq+=(p[k].value-p[k].i2)*(p[k].value-p[k].i2); } else run(f,p[k]); } } };

struct Case{ int kind; double c[4]; double kink;
  double operator()(double x) const{ double z=c[1]*x+c[2]; switch(kind){ case 0: return c[0]*std::cos(4*z)+c[3]; case 1: return c[0]*std::exp(z)+c[3]; case 2: return c[0]*std::fabs(x-kink)+c[3]; case 3: return 1/(0.01+(x-kink)*(x-kink)); default: return c[0]*std::sqrt(std::fabs(x-kink)); } }
  double I(double x) const{ double z=c[1]*x+c[2],u=x-kink; switch(kind){ case 0: return c[0]*std::sin(4*z)/(4*c[1])+c[3]*x; case 1: return c[0]*std::exp(z)/c[1]+c[3]*x; case 2: return c[0]*u*std::fabs(u)/2+c[3]*x; case 3: return 10*std::atan(10*u); default: return c[0]*2./3*u*std::sqrt(std::fabs(u)); } } };
Case pick_case(double a,double b){ Case f; f.kind=(int)vf_int("kind",0,4,0,4); for(double& x:f.c) x=vf_real_in("c",0.25,2); f.kink=vf_real_in("kink",a,b); return f; }
struct CB{ const Case* f; double a,b; long* n; double operator()(double x) const{ vf_assert(x>=a && x<=b,"the integrand is only evaluated inside the limits"); vf_assert(++*n<3000000,"the subdivision ends"); return (*f)(x); } };
}
VF_B(D02_accuracy){ double a=vf_real_in("a",-4,4),b=a+vf_real_in("w",0.0625,4); Case f=pick_case(a,b); long n=0; double tol=std::pow(10.,-vf_real_in("digits",3,9)); Options o; CB g{&f,a,b,&n};
  double r=integrate(g,a,b,tol,&o),e=f.I(b)-f.I(a),s=std::fabs(e)+1e-3; 
  if(f.kind<2) vf_assert(std::fabs(r-e)<=1000*tol*s+1e-12*s,"a smooth integrand is integrated to the requested tolerance (up to a factor)"); else if(f.kind==2) vf_assert(std::fabs(r-e)<=0.2*s,"a kinked integrand is integrated approximately"); vf_assert(o.inTolerance(),"the goal is reported as met"); vf_assert(o.uncertainty>=0 && std::fabs(o.fa-f(a))<=1e-12*std::fabs(f(a))&&std::fabs(o.fb-f(b))<=1e-12*std::fabs(f(b)),"uncertainty and end points are reported"); 
  vf_close(integrate(g,b,a,tol),-r,0,"exchanging the limits changes the sign"); Options p; p.fa=f(b); p.fb=f(a); vf_close(integrate(g,b,a,tol,&p),-r,0,"known end point values give the same result for exchanged limits"); }
VF_B(D02_step){ double a=vf_real_in("a",0.5,4),b=a+vf_real_in("w",0.0625,4),k=vf_real_in("kink",a,b); long n=0; auto f=[&](double x)->double{ vf_assert(++n<3000000,"the subdivision ends"); vf_assert(x>=a&&x<=b,"the integrand is only evaluated inside the limits"); return x<k?1:3; }; Options o; double tol=std::pow(10.,-vf_real_in("digits",3,8));
  double r=integrate(f,a,b,tol,&o),e=(k-a)+3*(b-k); vf_assert(std::fabs(r-e)<=0.3*e,"a step is integrated approximately"); }
VF_B(D02_tiny){ double a=vf_real_in("a",0.5,2),b=a*(1+vf_real_in("w",33,120)*std::numeric_limits<double>::epsilon()); vf_assume(b-a>33*std::numeric_limits<double>::epsilon()*b); double k=vf_real_in("kink",a,b); auto f=[&](double x)->double{ return std::fabs(x-k); }; Options o; double tol=1e-3; double r=integrate(f,a,b,tol,&o);
  double u=o.uncertainty; vf_assert(u>=0,"an uncertainty is reported"); if(u<1e-6*tol*r) vf_assert(o.inTolerance(),"a narrow interval with an acceptable uncertainty is not reported as out of tolerance"); }

// every outcome against the recursive scheme; singular integrands leave pieces out of tolerance
VF_B(D02_scheme){ double a=vf_real_in("a",-2,2),b=a+vf_real_in("w",0.0625,4),k=vf_real_in("kink",a,b),tol=std::pow(10.,-vf_real_in("digits",2,9)); int kind=(int)vf_int("kind",0,6,0,6); bool rev=vf_bool("reversed"),known=vf_bool("known");
  auto f=[&](double x)->double{ double u=std::fabs(x-k); switch(kind){ case 0: return std::cos(5*x); case 1: return u; case 2: return std::sqrt(u); case 3: return 1/(1e-3+u*u); case 4: return u>0?1/std::sqrt(u):1e9; case 5: return x<k?1:3; default: return u>0?std::pow(u,-0.75)+1:1e20; } };
  Interval i(a,b,f(a),f(b)); double is=i.evaluate(f,true),e1=std::fabs(i.value-is),e2=std::fabs(i.i2-is),R=e2!=0?e1/e2:1; Ref z{tol,0,0,false,0}; if(R>0&&R<1) z.tol/=R; z.tol*=is==0?b-a:std::fabs(is);
  double want,unc; if(std::fabs(i.value-i.i2)<=z.tol){ want=is; unc=e1; } else { z.run(f,i); want=z.sum; unc=std::sqrt(z.sq)*(R>0&&R<1?R:1); }
  Options o; o.outOfTolerance=vf_bool("before"); if(known){ o.fa=f(rev?b:a); o.fb=f(rev?a:b); } double r=rev?integrate(f,b,a,tol,&o):integrate(f,a,b,tol,&o),s=std::fabs(want)+1e-6;
  vf_assert(std::fabs(r-(rev?-want:want))<=1e-9*s,"the result is the sum over the accepted pieces, negated for exchanged limits"); vf_assert(o.outOfTolerance==z.out,"out of tolerance exactly when a piece had to be accepted that is");
  vf_assert(std::fabs(o.uncertainty-unc)<=1e-6*unc+1e-14*s,"the uncertainty is the root of the summed squares, scaled by the gain of the best estimate");
  vf_assert(o.fa==f(rev?b:a) && o.fb==f(rev?a:b),"the end point values belong to their own limit"); }
#endif
