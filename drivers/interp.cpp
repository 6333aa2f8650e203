// Contracts for linspace/logspace, AkimaSpline, BiCubicInterpolator and TriCubicInterpolator (include/nuSQuIDS/tools.h, src/tools.cpp)
#include <cstdint>
#include <cmath>
#include <vector>
#include <stdexcept>
#include <nuSQuIDS/tools.h>
#include "vf.h"
using namespace nusquids;
typedef marray<double,1> A1; typedef marray<double,2> A2; typedef marray<double,3> A3;
#define IX(i,n) size_t i=vf_index(#i,n)

// ---------------------------------------------------------------- C01 sample grids
VF(C01_linspace){ double lo=vf_real("lo"),hi=vf_real("hi"); size_t n=vf_size("n",2,4294967295u,40); A1 g=linspace(lo,hi,(unsigned)n); vf_assert(g.extent(0)==n && g.size()==n,"linspace returns the requested number of samples"); IX(i,n);
  double sc=std::fabs(lo)+std::fabs(hi);
  vf_close(g[i],lo+(hi-lo)*double(i)/double(n-1),sc,"sample i is min+(max-min)*i/(samples-1)"); vf_close(g[0],lo,0,"first sample is min"); vf_close(g[n-1],hi,0,"last sample is max"); }
VF(C01_logspace){ double lo=vf_real_in("lo",1e-3,1e9),hi=vf_real_in("hi",1e-3,1e9); size_t n=vf_size("n",2,4294967295u,40); A1 g=logspace(lo,hi,(unsigned)n); vf_assert(g.extent(0)==n && g.size()==n,"logspace returns the requested number of samples"); IX(i,n);
  if(i>0 && i<n-1) vf_close(g[i],std::exp(std::log(lo)+(std::log(hi)-std::log(lo))*double(i)/double(n-1)),0,"sample i is exp(log(min)+(log(max)-log(min))*i/(samples-1))");
  vf_close(g[0],lo,0,"first sample is min"); vf_close(g[n-1],hi,0,"last sample is max"); }
VF(C01_single){ double lo=vf_real("lo"),hi=vf_real_in("hi",1,9); A1 g=linspace(lo,hi,1); A1 h=logspace(2.0,hi,1); vf_assert(g.size()==1 && h.size()==1,"a single sample is one element"); vf_close(g[0],hi,0,"a single linear sample is the upper limit"); vf_close(h[0],hi,0,"a single logarithmic sample is the upper limit"); }
VF(C01_none){ double lo=vf_real("lo"),hi=vf_real("hi"); bool a=false,b=false; try{ linspace(lo,hi,0); }catch(std::length_error&){ a=true; } try{ logspace(lo,hi,0); }catch(std::length_error&){ b=true; } vf_assert(a && b,"zero samples are refused with length_error"); }

// ---------------------------------------------------------------- C02/C03 Akima spline
#define NMAX 2147483640
#define GRID(n,nmin) size_t n=vf_size(#n,nmin,NMAX,12); double* x=vf_increasing("x",n); double* y=vf_reals("y",n)
// divided differences of the data, continued past both ends as in Akima's construction
static double seg(const double* x,const double* y,size_t i){ return (y[i+1]-y[i])/(x[i+1]-x[i]); }
#define BIGY 1e4
VF(C02_nodes){ GRID(n,3); AkimaSpline s(x,y,(unsigned)n); IX(i,n); if(i+1<n) vf_close(s(x[i]),y[i],BIGY,"the spline passes through every node"); else vf_close(s(x[n-1]),y[n-1],BIGY,"the spline passes through the last node"); }
VF(C02_tables){ GRID(n,3); AkimaSpline s(x,y,(unsigned)n); IX(i,n); A1 a=s.getAbscissas(), o=s.getOrdinates(), d=s.getAbscissaDerivatives(); A1 e; s.getAbscissaDerivatives(e);
  vf_assert(a.size()==n && o.size()==n && d.size()==n && e.size()==n,"one entry per node"); vf_close(a[i],x[i],0,"abscissas are returned"); vf_close(o[i],y[i],0,"ordinates are returned"); vf_close(d[i],e[i],0,"both derivative accessors agree"); }
// Akima's slope at node k: weighted mean of the neighbouring secants.  p,q: the two secants left of the node, r,s: the two right of it.
static double rslope(double p,double q,double r,double s){ double L=std::fabs(p-q), NE=L+std::fabs(r-s); if(NE>0) return (1-L/NE)*q+(L/NE)*r; return r; }   // slope of the piece that starts at the node
static double lslope(double p,double q,double r,double s){ double L=std::fabs(p-q), NE=L+std::fabs(r-s); if(NE>0) return (1-L/NE)*q+(L/NE)*r; return q; }   // slope of the piece that ends at the node
static double hermite(double s,double h,double y0,double y1,double d0,double d1){ double u=s/h; return (1+2*u)*(1-u)*(1-u)*y0+u*(1-u)*(1-u)*h*d0+u*u*(3-2*u)*y1+u*u*(u-1)*h*d1; }
// the piece over [x_i,x_{i+1}] is the cubic with those end values and Akima's end slopes; m[0..4]: secants i-2..i+2
static void piece(const AkimaSpline& s,const double* x,const double* y,size_t n,size_t i,double m0,double m1,double m2,double m3,double m4){
  vf_hint(i+1); double h=x[i+1]-x[i]; double q=vf_real_in("q",0,1); double xq=x[i]+q*h; vf_assume(x[i]<=xq && xq<x[i+1]);
  double d0=rslope(m0,m1,m2,m3), d1=lslope(m1,m2,m3,m4);
  A1 d=s.getAbscissaDerivatives(); vf_close(d[i],d0,BIGY,"tabulated slope is Akima's");
  if(std::fabs(m1-m2)+std::fabs(m3-m4)>0){ vf_close(d[i+1],d1,BIGY,"the slope is continuous across the node"); }
  vf_close(s(xq),hermite(xq-x[i],h,y[i],y[i+1],d0,d1),BIGY,"between two nodes the spline is the cubic with the node values and Akima's slopes"); }
#define M(k) seg(x,y,(k))
VF(C02_inner){ GRID(n,6); AkimaSpline s(x,y,(unsigned)n); size_t j=vf_index("j",n-5); size_t i=j+2; piece(s,x,y,n,i,M(i-2),M(i-1),M(i),M(i+1),M(i+2)); }
VF(C02_first){ GRID(n,5); AkimaSpline s(x,y,(unsigned)n); piece(s,x,y,n,0,3*M(0)-2*M(1),2*M(0)-M(1),M(0),M(1),M(2)); }
VF(C02_second){ GRID(n,5); AkimaSpline s(x,y,(unsigned)n); piece(s,x,y,n,1,2*M(0)-M(1),M(0),M(1),M(2),M(3)); }
VF(C02_penult){ GRID(n,5); AkimaSpline s(x,y,(unsigned)n); size_t i=n-3; piece(s,x,y,n,i,M(n-5),M(n-4),M(n-3),M(n-2),2*M(n-2)-M(n-3)); }
VF(C02_lastpc){ GRID(n,5); AkimaSpline s(x,y,(unsigned)n); size_t i=n-2; piece(s,x,y,n,i,M(n-4),M(n-3),M(n-2),2*M(n-2)-M(n-3),3*M(n-2)-2*M(n-3)); }
static void small(size_t n){ double* x=vf_increasing("x",n); double* y=vf_reals("y",n); AkimaSpline s(x,y,(unsigned)n); double m[8]; for(size_t k=0;k+1<n;k++) m[k+2]=M(k); m[1]=2*m[2]-m[3]; m[0]=3*m[2]-2*m[3]; m[n+1]=2*m[n]-m[n-1]; m[n+2]=3*m[n]-2*m[n-1];
  for(size_t i=0;i+1<n;i++) piece(s,x,y,n,i,m[i],m[i+1],m[i+2],m[i+3],m[i+4]); }
VF(C02_n3){ small(3); }
VF(C02_n4){ small(4); }
// ---------------------------------------------------------------- C03 input checking, extrapolation, straight lines
VF(C03_few){ size_t n=vf_size("n",0,2,2); double* x=vf_increasing("x",n); double* y=vf_reals("y",n); bool threw=false; try{ AkimaSpline s(x,y,(unsigned)n); }catch(std::runtime_error&){ threw=true; } vf_assert(threw,"fewer than three points are refused"); }
VF(C03_order){ size_t n=vf_size("n",3,NMAX,9); double* x=vf_reals("x",n); double* y=vf_reals("y",n); IX(i,n-1); vf_assume(x[i+1]<=x[i]); try{ AkimaSpline s(x,y,(unsigned)n); vf_unreachable("abscissas that are not strictly increasing are refused"); }catch(std::runtime_error&){ vf_assert(true,"abscissas that are not strictly increasing are refused with runtime_error"); } }
VF(C03_sizes){ size_t n=vf_size("n",3,NMAX,8),m=vf_size("m",3,NMAX,8); double* x=vf_increasing("x",n); double* y=vf_reals("y",m); std::vector<double> vx(x,x+n),vy(y,y+m); bool threw=false; try{ AkimaSpline s(vx,vy); vf_assert(n==m,"vectors of different length are refused"); IX(i,n-1); vf_hint(i+1); vf_close(s(vx[i]),vy[i],BIGY,"the vector constructor builds the same spline"); }catch(std::runtime_error&){ threw=true; } vf_assert(threw==(n!=m),"exactly the vectors of different length are refused"); }
VF(C03_line){ size_t n=vf_size("n",3,NMAX,12); double* x=vf_increasing("x",n); double p=vf_real_in("p",-8,8),c=vf_real_in("c",-8,8); double* y=vf_reals("y",n); for(size_t k=0;k<n;k++) y[k]=p*x[k]+c; AkimaSpline s(x,y,(unsigned)n); IX(i,n-1); double q=vf_real_in("q",0,1); double xq=x[i]+q*(x[i+1]-x[i]); vf_assume(x[i]<=xq && xq<x[i+1]); vf_hint(i+1);
  vf_close(s(xq),p*xq+c,BIGY,"data on a straight line is reproduced everywhere"); A1 d=s.getAbscissaDerivatives(); vf_close(d[i],p,BIGY,"the slope of a straight line is reproduced"); vf_close(d[n-1],p,BIGY,"the slope of a straight line is reproduced at the end"); }
VF(C03_below){ GRID(n,5); AkimaSpline s(x,y,(unsigned)n); double u=vf_real_in("u",0.0001,2); double h=x[1]-x[0]; double xq=x[0]-u; double m0=3*M(0)-2*M(1),m1=2*M(0)-M(1),m2=M(0),m3=M(1),m4=M(2); vf_close(s(xq),hermite(xq-x[0],h,y[0],y[1],rslope(m0,m1,m2,m3),lslope(m1,m2,m3,m4)),1e8,"below the first node the first piece is continued"); }
VF(C03_above){ GRID(n,5); AkimaSpline s(x,y,(unsigned)n); double u=vf_real_in("u",0.0,2); size_t i=n-2; double h=x[i+1]-x[i]; double xq=x[n-1]+u; double m0=M(n-4),m1=M(n-3),m2=M(n-2),m3=2*M(n-2)-M(n-3),m4=3*M(n-2)-2*M(n-3); vf_hint(n-1); vf_close(s(xq),hermite(xq-x[i],h,y[i],y[i+1],rslope(m0,m1,m2,m3),lslope(m1,m2,m3,m4)),1e8,"beyond the last node the last piece is continued"); }
// initialising again discards the previous data completely
VF(C03_reinit){ GRID(n,3); size_t m=vf_size("m",3,NMAX,7); double* u=vf_increasing("u",m); double* w=vf_reals("w",m); AkimaSpline s(u,w,(unsigned)m); s.initialize(x,y,(unsigned)n); AkimaSpline f(x,y,(unsigned)n); IX(i,n); A1 a=s.getAbscissas(), o=s.getOrdinates(), d=s.getAbscissaDerivatives(), e=f.getAbscissaDerivatives(); vf_assert(a.size()==n && o.size()==n && d.size()==n,"reinitialised spline has the new number of nodes"); vf_close(a[i],x[i],0,"reinitialised spline has the new nodes"); vf_close(o[i],y[i],0,"reinitialised spline has the new values"); vf_close(d[i],e[i],0,"reinitialised spline equals a fresh one"); }
