// Contracts for the bicubic and tricubic interpolators (include/nuSQuIDS/tools.h, src/tools.cpp).
#include <cstdint>
#include "vf.h"
#include <cmath>
#include <vector>
#include <string>
#include <map>
#include <memory>
#include <iostream>
#include <sstream>
#include <fstream>
#include <algorithm>
#include <functional>
#include <stdexcept>
#include <type_traits>
#include <iterator>
#include <utility>
#include <tuple>
#include <array>
#include <limits>
#include <numeric>
#include <cassert>
#include <hdf5.h>
#include <hdf5_hl.h>
#define private public
#define protected public
#include <nuSQuIDS/marray.h>
#include <nuSQuIDS/tools.h>
#undef private
#undef protected
using namespace nusquids;
namespace{
typedef marray<double,1> A1; typedef marray<double,2> A2; typedef marray<double,3> A3;
A1 line(const double* p,size_t n){ A1 a({n}); double* d=a.get_data(); for(size_t k=0;k<n;k++) d[k]=p[k]; return a; }
void fill(A2& a,size_t n,size_t m){ a=A2({n,m}); vf_fill(a.get_data(),n*m); }
// cubic Hermite basis: value and slope weights at the two ends
double H0(double t){ return (1+2*t)*(1-t)*(1-t); } double H1(double t){ return t*t*(3-2*t); }
double G0(double t){ return t*(1-t)*(1-t); } double G1(double t){ return t*t*(t-1); }
double H(int k,double t){ return k?H1(t):H0(t); } double G(int k,double t){ return k?G1(t):G0(t); }
struct Bi{ size_t I,J; double *X,*Y; BiCubicInterpolator b;
  Bi(){ I=vf_size("I",2,1<<20,5); J=vf_size("J",2,1<<20,5); X=vf_increasing("X",I); Y=vf_increasing("Y",J); b.xcoords=line(X,I); b.ycoords=line(Y,J);
    fill(b.data,J,I); fill(b.dzdx,J,I); fill(b.dzdy,J,I); fill(b.dzdxdy,J,I); } };
double patch(const BiCubicInterpolator& b,size_t i,size_t j,double t,double u,double dx,double dy,double& s){ double r=0; s=0;
  for(int p=0;p<2;p++) for(int q=0;q<2;q++){
    r+=H(p,t)*H(q,u)*b.data[j+q][i+p]+dx*G(p,t)*H(q,u)*b.dzdx[j+q][i+p]+dy*H(p,t)*G(q,u)*b.dzdy[j+q][i+p]+dx*dy*G(p,t)*G(q,u)*b.dzdxdy[j+q][i+p];
    s+=std::fabs(b.data[j+q][i+p])+dx*std::fabs(b.dzdx[j+q][i+p])+dy*std::fabs(b.dzdy[j+q][i+p])+dx*dy*std::fabs(b.dzdxdy[j+q][i+p]); }
  return r; }
}
VF(C04_patch){ Bi B; size_t i=vf_index("i",B.I-1),j=vf_index("j",B.J-1); double x=vf_real("x"),y=vf_real("y");
#ifdef VF_NATIVE
  x=vf_real_in("x",B.X[i],B.X[i+1]); y=vf_real_in("y",B.Y[j],B.Y[j+1]);
#endif
  vf_assume(B.X[i]<=x); vf_assume(x<B.X[i+1]); vf_assume(B.Y[j]<=y); vf_assume(y<B.Y[j+1]); vf_hint(i+1); vf_hint(j+1);
  double dx=B.X[i+1]-B.X[i],dy=B.Y[j+1]-B.Y[j],t=(x-B.X[i])/dx,u=(y-B.Y[j])/dy,s; double e=patch(B.b,i,j,t,u,dx,dy,s);
  vf_close(B.b(x,y),e,s,"inside a cell the value is the Hermite patch of the four corners"); }
// outside the grid (and at its far edges) the nearest cell's patch is continued
VF(C04_beyond){ Bi B; bool left=vf_bool("left"); size_t j=vf_index("j",B.J-1); double x=vf_real("x"),y=vf_real("y"); size_t i=0;
#ifdef VF_NATIVE
  y=vf_real_in("y",B.Y[j],B.Y[j+1]);
#endif
  vf_assume(B.Y[j]<=y); vf_assume(y<B.Y[j+1]); vf_hint(j+1);
  if(left) vf_assume(x<B.X[0]); else{ vf_assume(B.X[B.I-1]<=x); i=B.I-2; }
  double dx=B.X[i+1]-B.X[i],dy=B.Y[j+1]-B.Y[j],t=(x-B.X[i])/dx,u=(y-B.Y[j])/dy,s; double e=patch(B.b,i,j,t,u,dx,dy,s); double w=1+std::fabs(t);
  vf_close(B.b(x,y),e,s*w*w*w*8,"outside the grid in x the end cell is continued"); }
VF(C04_above){ Bi B; bool below=vf_bool("below"); size_t i=vf_index("i",B.I-1); double x=vf_real("x"),y=vf_real("y"); size_t j=0;
#ifdef VF_NATIVE
  x=vf_real_in("x",B.X[i],B.X[i+1]);
#endif
  vf_assume(B.X[i]<=x); vf_assume(x<B.X[i+1]); vf_hint(i+1);
  if(below) vf_assume(y<B.Y[0]); else{ vf_assume(B.Y[B.J-1]<=y); j=B.J-2; }
  double dx=B.X[i+1]-B.X[i],dy=B.Y[j+1]-B.Y[j],t=(x-B.X[i])/dx,u=(y-B.Y[j])/dy,s; double e=patch(B.b,i,j,t,u,dx,dy,s); double w=1+std::fabs(u);
  vf_close(B.b(x,y),e,s*w*w*w*8,"outside the grid in y the end cell is continued"); }
VF(C04_nodes){ Bi B; size_t i=vf_index("i",B.I-1),j=vf_index("j",B.J-1); vf_hint(i+1); vf_hint(j+1);
  vf_close(B.b(B.X[i],B.Y[j]),B.b.data[j][i],0,"a tabulated point is reproduced"); }
VF(C04_lastnode){ Bi B; size_t I=B.I,J=B.J; double s=0; for(int p=1;p<3;p++) for(int q=1;q<3;q++) s+=std::fabs(B.b.data[J-q][I-p]);
  vf_close(B.b(B.X[I-1],B.Y[J-1]),B.b.data[J-1][I-1],s*8,"the last tabulated point is reproduced"); }
VF(C04_edge){ Bi B; size_t I=B.I; size_t j=vf_index("j",B.J-1); vf_hint(j+1); double s=0; for(int p=1;p<3;p++) for(int q=0;q<2;q++) s+=std::fabs(B.b.data[j+q][I-p]);
  vf_close(B.b(B.X[I-1],B.Y[j]),B.b.data[j][I-1],s*8,"a tabulated point on the far edge is reproduced"); }
VF(C04_empty){ BiCubicInterpolator b; double x=vf_real("x"),y=vf_real("y"); vf_close(b(x,y),0,0,"an empty interpolator returns zero"); }
VF(C04_size){ size_t n=vf_size("n",1,1<<20,6),m=vf_size("m",1,1<<20,6),I=vf_size("I",1,1<<20,6),J=vf_size("J",1,1<<20,6); vf_assume(I!=n || J!=m); A2 d({m,n}); vf_fill(d.get_data(),m*n); double* X=vf_increasing("X",I); double* Y=vf_increasing("Y",J); bool t=false;
  try{ BiCubicInterpolator b(std::move(d),line(X,I),line(Y,J)); }catch(std::runtime_error&){ t=true; } vf_assert(t,"grids that do not match the data are refused"); }
#ifndef VF_NATIVE
// contract of the Akima spline as seen by the interpolators (its slopes are determined by the two sequences; what they are is proved under C02 and C03)
void VFSTUB_akima_init(AkimaSpline* s,const double* x,const double* y,unsigned n){ if(n<3) throw std::runtime_error("too few"); s->xLast=vf_slice(x,n); s->yLast=vf_slice(y,n); }
void VFSTUB_akima_slopes(const AkimaSpline* s,A1& d){ double* p=d.get_data(); size_t n=d.extent(0); double x=s->xLast,y=s->yLast; for(size_t k=0;k<n;k++) p[k]=vf_app(7,x,y,(double)k,(double)n); }
#endif
namespace{
// the Akima slope at node k of the sequence y over x
double slope(const double* x,const double* y,size_t n,size_t k){ AkimaSpline s(x,y,(unsigned)n); A1 d({n}); s.getAbscissaDerivatives(d); return d[k]; }
struct BiN{ size_t I,J; double *X,*Y,*D; BiCubicInterpolator b; static A2 tab(const double* d,size_t J,size_t I){ A2 a({J,I}); double* p=a.get_data(); for(size_t k=0;k<I*J;k++) p[k]=d[k]; return a; }
  BiN():I(vf_size("I",3,1<<20,6)),J(vf_size("J",3,1<<20,6)),X(vf_increasing("X",I)),Y(vf_increasing("Y",J)),D(vf_reals("D",I*J)),b(tab(D,J,I),line(X,I),line(Y,J)){} };
}
VF(C04_tables_y){ BiN B; size_t i=vf_index("i",B.I),j=vf_index("j",B.J); double* c=vf_reals("c",B.J); for(size_t k=0;k<B.J;k++) c[k]=B.D[k*B.I+i];
  vf_close(B.b.dzdy[j][i],slope(B.Y,c,B.J,j),1,"the y slopes are the spline slopes of each column"); vf_close(B.b.data[j][i],B.D[j*B.I+i],0,"the data is kept"); }
VF(C04_tables_x){ BiN B; size_t i=vf_index("i",B.I),j=vf_index("j",B.J); double* c=vf_reals("c",B.I); for(size_t k=0;k<B.I;k++) c[k]=B.D[j*B.I+k];
  vf_close(B.b.dzdx[j][i],slope(B.X,c,B.I,i),1,"the x slopes are the spline slopes of each row"); vf_close(B.b.xcoords[i],B.X[i],0,"the grid is kept"); vf_close(B.b.ycoords[j],B.Y[j],0,"the grid is kept"); }
VF(C04_tables_xy){ BiN B; size_t i=vf_index("i",B.I),j=vf_index("j",B.J); double* c=vf_reals("c",B.I); for(size_t k=0;k<B.I;k++) c[k]=B.b.dzdy[j][k];
  vf_close(B.b.dzdxdy[j][i],slope(B.X,c,B.I,i),1,"the mixed slopes are the spline slopes in x of the y slopes"); }

// ---- tricubic. Vertices of a cell are numbered x + 2y + 4z, kinds of data: f, fx, fy, fz, fxy, fxz, fyz, fxyz.
namespace{
typedef TriCubicInterpolator Tri;
const int DX[8]={0,1,0,0,1,1,0,1}, DY[8]={0,0,1,0,1,0,1,1}, DZ[8]={0,0,0,1,0,1,1,1};
double HG(int d,int v,double t){ return d?G(v,t):H(v,t); }
double W(int m,double t,double u,double v){ int k=m/8,p=m%8; return HG(DX[k],p&1,t)*HG(DY[k],(p>>1)&1,u)*HG(DZ[k],p>>2,v); }
struct Tc{ size_t I,J,K; double *X,*Y,*Z; alignas(Tri) char buf[sizeof(Tri)]; Tri& t; A3* tab[8];
  void grid(A1& a,const double* p,size_t n){ new(&a) A1({n}); double* d=a.get_data(); for(size_t k=0;k<n;k++) d[k]=p[k]; }
  Tc():t(*reinterpret_cast<Tri*>(buf)){ I=vf_size("I",2,1<<16,4); J=vf_size("J",2,1<<16,4); K=vf_size("K",2,1<<16,4); X=vf_increasing("X",I); Y=vf_increasing("Y",J); Z=vf_increasing("Z",K);
    grid(t.xcoords,X,I); grid(t.ycoords,Y,J); grid(t.zcoords,Z,K); 
    tab[0]=&t.data; tab[1]=&t.dfdx; tab[2]=&t.dfdy; tab[3]=&t.dfdz; tab[4]=&t.d2fdxdy; tab[5]=&t.d2fdxdz; tab[6]=&t.d2fdydz; tab[7]=&t.d3fdxdydz;
    for(A3* a:tab){ new(a) A3({K,J,I}); vf_fill(a->get_data(),I*J*K); } }
  ~Tc(){ t.~Tri(); } };
double cell(Tc& T,size_t i,size_t j,size_t k,double t,double u,double v,double dx,double dy,double dz,double(*w)(int,double,double,double),double& s){ double r=0; s=0;
  for(int m=0;m<64;m++){ int q=m/8,p=m%8; double f=(*T.tab[q])[k+(p>>2)][j+((p>>1)&1)][i+(p&1)]; if(DX[q]) f*=dx; if(DY[q]) f*=dy; if(DZ[q]) f*=dz;
    r+=w(m,t,u,v)*f; s+=std::fabs(f); }
  return r; }
#ifdef VF_NATIVE
double Wt(int m,double t,double u,double v){ return W(m,t,u,v); }
#else
double Wt(int m,double t,double u,double v){ return vf_app(8,(double)m,t,u,v); }
#endif
}
#ifndef VF_NATIVE
// contract of get_coeffs followed by evaluate_polynomial (C05_poly): the weights W applied to the 64 data
void VFSTUB_tri_coeffs(double* c,double* d){ for(int m=0;m<64;m++) c[m]=d[m]; }
double VFSTUB_tri_poly(double* c,double t,double u,double v){ double r=0; for(int m=0;m<64;m++) r+=Wt(m,t,u,v)*c[m]; return r; }
#endif
VF(C05_poly){ double d[64],c[64],s=0; double* D=vf_reals("d",64); for(int m=0;m<64;m++){ d[m]=D[m]; s+=std::fabs(d[m]); } double t=vf_real_in("t",0,1),u=vf_real_in("u",0,1),v=vf_real_in("v",0,1);
#ifndef VF_NATIVE
  t=vf_real("t"); u=vf_real("u"); v=vf_real("v");
#endif
  double e=0; for(int m=0;m<64;m++) e+=W(m,t,u,v)*d[m];
  Tri::get_coeffs(c,d); vf_close(Tri::evaluate_polynomial(c,t,u,v),e,s,"the polynomial is the Hermite patch of the 64 corner data"); }
VF(C05_cell){ Tc T; size_t i=vf_index("i",T.I-1),j=vf_index("j",T.J-1),k=vf_index("k",T.K-1); double x=vf_real("x"),y=vf_real("y"),z=vf_real("z");
#ifdef VF_NATIVE
  x=vf_real_in("x",T.X[i],T.X[i+1]); y=vf_real_in("y",T.Y[j],T.Y[j+1]); z=vf_real_in("z",T.Z[k],T.Z[k+1]);
#endif
  vf_assume(T.X[i]<=x); vf_assume(x<T.X[i+1]); vf_assume(T.Y[j]<=y); vf_assume(y<T.Y[j+1]); vf_assume(T.Z[k]<=z); vf_assume(z<T.Z[k+1]); vf_hint(i+1); vf_hint(j+1); vf_hint(k+1); vf_modular();
  double dx=T.X[i+1]-T.X[i],dy=T.Y[j+1]-T.Y[j],dz=T.Z[k+1]-T.Z[k],s; double e=cell(T,i,j,k,(x-T.X[i])/dx,(y-T.Y[j])/dy,(z-T.Z[k])/dz,dx,dy,dz,&Wt,s);
  vf_close(T.t(x,y,z),e,s,"inside a cell the value is the Hermite patch of the eight corners"); }
VF(C05_nodes){ Tc T; size_t i=vf_index("i",T.I-1),j=vf_index("j",T.J-1),k=vf_index("k",T.K-1); vf_hint(i+1); vf_hint(j+1); vf_hint(k+1); vf_modular();
  double dx=T.X[i+1]-T.X[i],dy=T.Y[j+1]-T.Y[j],dz=T.Z[k+1]-T.Z[k],s; double e=cell(T,i,j,k,0,0,0,dx,dy,dz,&Wt,s);   // with C05_vertex: the tabulated value
  vf_close(T.t(T.X[i],T.Y[j],T.Z[k]),e,s,"a tabulated point is reproduced"); }
VF(C05_vertex){ double d[64],c[64],s=0; double* D=vf_reals("d",64); for(int m=0;m<64;m++){ d[m]=D[m]; s+=std::fabs(d[m]); } Tri::get_coeffs(c,d);
  for(int p=0;p<8;p++) vf_close(Tri::evaluate_polynomial(c,p&1,(p>>1)&1,p>>2),d[p],s,"the patch takes the tabulated value at each corner"); }
// outside the grid, and at its far faces, the end cell's patch is continued: one axis at a time
static void beyond(int axis){ Tc T; bool low=vf_bool("low"); size_t c[3]; const size_t n[3]={T.I,T.J,T.K}; double* g[3]={T.X,T.Y,T.Z}; double q[3];
  for(int a=0;a<3;a++) if(a!=axis) c[a]=vf_index("c",n[a]-1);
  c[axis]=low?0:n[axis]-2;
  for(int a=0;a<3;a++){
#ifdef VF_NATIVE
    q[a]=vf_real_in("q",g[a][c[a]]-(a==axis?4:0),g[a][c[a]+1]+(a==axis?4:0));
#else
    q[a]=vf_real("q");
#endif
    if(a!=axis){ vf_assume(g[a][c[a]]<=q[a]); vf_assume(q[a]<g[a][c[a]+1]); vf_hint(c[a]+1); } }
  if(low) vf_assume(q[axis]<g[axis][0]); else vf_assume(g[axis][n[axis]-1]<=q[axis]);
  vf_modular(); double h[3],t[3],s,w=1; for(int a=0;a<3;a++){ h[a]=g[a][c[a]+1]-g[a][c[a]]; t[a]=(q[a]-g[a][c[a]])/h[a]; }
#ifdef VF_NATIVE
  w=1+std::fabs(t[axis]); w=w*w*w*8;
#endif
  double e=cell(T,c[0],c[1],c[2],t[0],t[1],t[2],h[0],h[1],h[2],&Wt,s); vf_close(T.t(q[0],q[1],q[2]),e,s*w,"outside the grid the end cell is continued"); }
VF(C05_beyond_x){ beyond(0); }
VF(C05_beyond_y){ beyond(1); }
VF(C05_beyond_z){ beyond(2); }
VF(C05_size){ size_t n=vf_size("n",1,1<<16,5),m=vf_size("m",1,1<<16,5),l=vf_size("l",1,1<<16,5),I=vf_size("I",1,1<<16,5),J=vf_size("J",1,1<<16,5),K=vf_size("K",1,1<<16,5); vf_assume(I!=n || J!=m || K!=l);
  A3 d({l,m,n}); vf_fill(d.get_data(),l*m*n); double* X=vf_increasing("X",I); double* Y=vf_increasing("Y",J); double* Z=vf_increasing("Z",K); bool t=false;
  try{ Tri b(std::move(d),line(X,I),line(Y,J),line(Z,K)); }catch(std::runtime_error&){ t=true; } vf_assert(t,"grids that do not match the data are refused"); }
namespace{
struct TriN{ size_t I,J,K; double *X,*Y,*Z,*D; Tri t; static A3 tab(const double* d,size_t K,size_t J,size_t I){ A3 a({K,J,I}); double* p=a.get_data(); for(size_t k=0;k<I*J*K;k++) p[k]=d[k]; return a; }
  TriN():I(vf_size("I",3,1<<16,5)),J(vf_size("J",3,1<<16,5)),K(vf_size("K",3,1<<16,5)),X(vf_increasing("X",I)),Y(vf_increasing("Y",J)),Z(vf_increasing("Z",K)),D(vf_reals("D",I*J*K)),t(tab(D,K,J,I),line(X,I),line(Y,J),line(Z,K)){} };
}
VF(C05_tables){ TriN T; const size_t I=T.I,J=T.J,K=T.K; size_t i=vf_index("i",I),j=vf_index("j",J),k=vf_index("k",K); Tri& t=T.t;
  double *cx=vf_reals("cx",I),*cy=vf_reals("cy",J),*cz=vf_reals("cz",K);
  for(size_t a=0;a<I;a++) cx[a]=T.D[(k*J+j)*I+a];
  for(size_t a=0;a<J;a++) cy[a]=T.D[(k*J+a)*I+i];
  for(size_t a=0;a<K;a++) cz[a]=T.D[(a*J+j)*I+i];
  vf_close(t.data[k][j][i],T.D[(k*J+j)*I+i],0,"the data is kept"); vf_close(t.xcoords[i],T.X[i],0,"the grid is kept"); vf_close(t.ycoords[j],T.Y[j],0,"the grid is kept"); vf_close(t.zcoords[k],T.Z[k],0,"the grid is kept");
  vf_close(t.dfdx[k][j][i],slope(T.X,cx,I,i),1,"the x slopes are the spline slopes along x"); vf_close(t.dfdy[k][j][i],slope(T.Y,cy,J,j),1,"the y slopes are the spline slopes along y");
  vf_close(t.dfdz[k][j][i],slope(T.Z,cz,K,k),1,"the z slopes are the spline slopes along z");
  double *xy=vf_reals("xy",I),*xz=vf_reals("xz",I),*yz=vf_reals("yz",J),*xyz=vf_reals("xyz",I);
  for(size_t a=0;a<I;a++) xy[a]=t.dfdy[k][j][a];
  for(size_t a=0;a<I;a++) xz[a]=t.dfdz[k][j][a];
  for(size_t a=0;a<J;a++) yz[a]=t.dfdz[k][a][i];
  for(size_t a=0;a<I;a++) xyz[a]=t.d2fdydz[k][j][a];
  vf_close(t.d2fdxdy[k][j][i],slope(T.X,xy,I,i),1,"xy slopes: along x, of the y slopes"); vf_close(t.d2fdxdz[k][j][i],slope(T.X,xz,I,i),1,"xz slopes: along x, of the z slopes");
  vf_close(t.d2fdydz[k][j][i],slope(T.Y,yz,J,j),1,"yz slopes: along y, of the z slopes"); vf_close(t.d3fdxdydz[k][j][i],slope(T.X,xyz,I,i),1,"xyz slopes: along x, of the yz slopes"); }
// what a user sees, end to end: products of linear functions are reproduced everywhere in the grid (bounded, executed)
VF_B(C04_linear){ BiN B; double a=vf_real("a"),b=vf_real("b"),c=vf_real("c"),d=vf_real("d"); for(size_t j=0;j<B.J;j++) for(size_t i=0;i<B.I;i++) B.D[j*B.I+i]=a+b*B.X[i]+c*B.Y[j]+d*B.X[i]*B.Y[j];
  BiCubicInterpolator s(BiN::tab(B.D,B.J,B.I),line(B.X,B.I),line(B.Y,B.J)); double x=vf_real_in("x",B.X[0],B.X[B.I-1]),y=vf_real_in("y",B.Y[0],B.Y[B.J-1]); double m=0; for(size_t k=0;k<B.I*B.J;k++) m=std::max(m,std::fabs(B.D[k]));
  vf_close(s(x,y),a+b*x+c*y+d*x*y,1e3*m,"a bilinear function is reproduced"); }
VF_B(C05_linear){ TriN T; double c[8]; for(double& q:c) q=vf_real("c"); auto f=[&](double x,double y,double z){ return c[0]+c[1]*x+c[2]*y+c[3]*z+c[4]*x*y+c[5]*x*z+c[6]*y*z+c[7]*x*y*z; }; double m=0;
  for(size_t k=0;k<T.K;k++) for(size_t j=0;j<T.J;j++) for(size_t i=0;i<T.I;i++){ double v=f(T.X[i],T.Y[j],T.Z[k]); T.D[(k*T.J+j)*T.I+i]=v; m=std::max(m,std::fabs(v)); }
  Tri s(TriN::tab(T.D,T.K,T.J,T.I),line(T.X,T.I),line(T.Y,T.J),line(T.Z,T.K)); double x=vf_real_in("x",T.X[0],T.X[T.I-1]),y=vf_real_in("y",T.Y[0],T.Y[T.J-1]),z=vf_real_in("z",T.Z[0],T.Z[T.K-1]);
  vf_close(s(x,y,z),f(x,y,z),1e3*m,"a trilinear function is reproduced"); }
VF_B(C04_values){ BiN B; size_t i=vf_index("i",B.I),j=vf_index("j",B.J); double m=0; for(size_t k=0;k<B.I*B.J;k++) m=std::max(m,std::fabs(B.D[k])); vf_close(B.b(B.X[i],B.Y[j]),B.D[j*B.I+i],1e3*m,"every tabulated value is reproduced"); }
VF_B(C05_values){ TriN T; size_t i=vf_index("i",T.I),j=vf_index("j",T.J),k=vf_index("k",T.K); double m=0; for(size_t a=0;a<T.I*T.J*T.K;a++) m=std::max(m,std::fabs(T.D[a])); vf_close(T.t(T.X[i],T.Y[j],T.Z[k]),T.D[(k*T.J+j)*T.I+i],1e3*m,"every tabulated value is reproduced"); }
