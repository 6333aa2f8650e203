// Contracts for the bodies and their tracks (include/nuSQuIDS/body.h, src/body.cpp).
#include <cstdint>
#include "vf.h"
#include <cmath>
#include <vector>
#include <string>
#include <map>
#include <memory>
#include <iostream>
#include <sstream>
#include <fstream>
#include <algorithm>
#include <functional>
#include <stdexcept>
#include <type_traits>
#include <iterator>
#include <utility>
#include <tuple>
#include <array>
#include <limits>
#include <numeric>
#include <cassert>
#include <hdf5.h>
#include <hdf5_hl.h>
#include <SQuIDS/const.h>
#define private public
#define protected public
#include <nuSQuIDS/body.h>
#undef private
#undef protected
using namespace nusquids;
namespace{
squids::Const unit; const double RE=6371.0, RS=695980.0, RA=694439.0;    // radii in km
#define KM unit.km
typedef std::vector<double> V;
V vec(const double* p,size_t n){ V v(n); for(size_t k=0;k<n;k++) v[k]=p[k]; return v; }
// an arbitrary length; natively one of the given order of magnitude
double length(const char* n,double scale){
#ifdef VF_NATIVE
  return vf_real_in(n,-1.5*scale,1.5*scale);
#else
  return vf_real(n);
#endif
}
// the spline through the table (natively the real one; for the verifier it is an arbitrary function of the table and the position)
double spl(const V& x,const V& y,double q){ AkimaSpline s(x,y); return s(q); }
// the tabulated profile at a relative radius, continued by its end values
double prof(const V& x,const V& y,double q){ size_t n=x.size(); return q<x[0]?y[0]:q>x[n-1]?y[n-1]:spl(x,y,q); }
// tolerance of the native run for a value interpolated at relative radius r: near the centre the radius itself has few digits
double tol(const V& y,double r){
#ifdef VF_NATIVE
  double m=0; for(double v:y) m=std::max(m,std::fabs(v)); return m*(r<0.02?1e5:300);
#else
  return 1;
#endif
}
// keep clear of the points where the profile may jump: rounding could pick either side there
void clear(double a,double b){
#ifdef VF_NATIVE
  vf_assume(std::fabs(a-b)>1e-9*(std::fabs(a)+std::fabs(b)));
#endif
}
}
#ifndef VF_NATIVE
// contract of the spline as seen by the bodies (proved under C02 and C03)
void VFSTUB_akima_init(AkimaSpline* s,const double* x,const double* y,unsigned n){ if(n<3) throw std::runtime_error("too few"); s->xLast=vf_slice(x,n); s->yLast=vf_slice(y,n); }
double VFSTUB_akima_eval(const AkimaSpline* s,double q){ return vf_app(9,s->xLast,s->yLast,q,0); }
#endif
VF(H01_vacuum){ double xi=vf_real("xi"),xf=vf_real("xf"),x=vf_real("x"); Vacuum v; Vacuum::Track t(x,xi,xf); const Body& b=v;
  vf_close(b.density(t),0,0,"a vacuum has no density"); vf_close(b.ye(t),1,0,"electron fraction of the vacuum"); vf_assert(b.IsConstantDensity(),"a vacuum is uniform"); }
VF(H01_constant){ double rho=vf_real("rho"),ye=vf_real("ye"),xi=vf_real("xi"),xf=vf_real("xf"),x=vf_real("x"); ConstantDensity c(rho,ye); ConstantDensity::Track t(x,xi,xf); const Body& b=c;
  vf_close(b.density(t),rho,0,"density is the given one everywhere"); vf_close(b.ye(t),ye,0,"electron fraction is the given one everywhere"); vf_assert(b.IsConstantDensity(),"uniform"); vf_assert(b.GetBodyParams().size()==2,"two parameters"); vf_close(b.GetBodyParams()[0],rho,0,"parameters are handed back"); vf_close(b.GetBodyParams()[1],ye,0,"parameters are handed back"); }
namespace{
struct Tab{ size_t n; V X,Y,Z; static const double* scaled(double* p,size_t n,double lo,double hi){
#ifdef VF_NATIVE
    double a=p[0],b=p[n-1]; for(size_t k=0;k<n;k++) p[k]=lo+(hi-lo)*(p[k]-a)/(b-a);
#endif
    return p; }
  Tab(double lo=0,double hi=1):n(vf_size("n",3,1<<20,8)),X(vec(scaled(vf_increasing("X",n),n,lo,hi),n)),Y(vec(vf_reals("Y",n),n)),Z(vec(vf_reals("Z",n),n)){} };
}
VF(H01_variable){ Tab T(-3,5); VariableDensity b(T.X,T.Y,T.Z); double y=length("y",6),xi=vf_real("xi"),xf=vf_real("xf"); VariableDensity::Track t(y*unit.cm,xi,xf); const Body& B=b; double q=t.GetX()/unit.cm;
  clear(q,T.X[0]); clear(q,T.X[T.n-1]);
  if(q<T.X[0] || q>T.X[T.n-1]){ vf_close(B.density(t),0,0,"no matter outside the table"); vf_close(B.ye(t),0,0,"no electrons outside the table"); }
  else{ vf_close(B.density(t),spl(T.X,T.Y,q),1,"density is the interpolated table"); vf_close(B.ye(t),spl(T.X,T.Z,q),1,"electron fraction is the interpolated table"); }
  vf_assert(!B.IsConstantDensity(),"not uniform"); }
VF(H01_variable_params){ Tab T; VariableDensity b(T.X,T.Y,T.Z); const V& p=b.GetBodyParams(); size_t k=vf_index("k",T.n); vf_assert(p.size()==3*T.n,"three numbers per table row"); vf_close(p[k],T.X[k],0,"parameters: positions"); vf_close(p[T.n+k],T.Y[k],0,"parameters: densities"); vf_close(p[2*T.n+k],T.Z[k],0,"parameters: electron fractions"); }
VF(H01_earth){ Tab T(vf_bool("low")?-0.1:0.2,vf_bool("high")?1:0.7); Earth e(T.X,T.Y,T.Z); const Body& B=e; double L=length("L",2*RE*KM),y=length("y",2*RE*KM),xi=vf_real("xi"),xf=vf_real("xf"); vf_assume(L>=0); vf_assume(L<=2*RE*KM); Earth::Track t(y,xi,xf,L);
  double a=y/KM,r2=RE*RE+a*a-(L/KM)*a; vf_assume(r2>0); double r=std::sqrt(r2)/RE;
  if(r<T.X[0]){ vf_close(B.density(t),T.Y[0],1,"innermost density"); vf_close(B.ye(t),T.Z[0],1,"innermost electron fraction"); }
  else if(r>T.X[T.n-1]){ vf_close(B.density(t),T.Y[T.n-1],1,"outermost density"); vf_close(B.ye(t),T.Z[T.n-1],1,"outermost electron fraction"); }
  else{ vf_close(B.density(t),spl(T.X,T.Y,r),tol(T.Y,r),"density at the radius of the position"); vf_close(B.ye(t),spl(T.X,T.Z,r),tol(T.Z,r),"electron fraction at the radius of the position"); }
  vf_close(e.GetRadius(),RE,0,"radius"); vf_assert(!B.IsConstantDensity(),"not uniform"); }
VF(H01_earth_centre){ Tab T(vf_bool("low")?-0.1:0.2,1); Earth e(T.X,T.Y,T.Z); const Body& B=e; Earth::Track t(RE*KM,0,2*RE*KM,2*RE*KM); vf_close(B.density(t),prof(T.X,T.Y,0),tol(T.Y,0),"density at the centre"); vf_close(B.ye(t),prof(T.X,T.Z,0),tol(T.Z,0),"electron fraction at the centre"); }
VF(H01_sun){ Tab T(vf_bool("low")?-0.1:0.2,vf_bool("high")?1:0.7); Sun s(T.X,T.Y,T.Z); const Body& B=s; double y=length("y",RS*KM),xi=vf_real("xi"),xf=vf_real("xf"); Sun::Track t(y,xi,xf); double r=y/(RS*KM); clear(r,T.X[T.n-1]);
  if(r<T.X[0]){ vf_close(B.density(t),T.Y[0],1,"innermost density"); vf_close(B.ye(t),0.5*(1+T.Z[0]),1,"innermost electron fraction"); }
  else if(r>T.X[T.n-1]){ vf_close(B.density(t),0,0,"no matter outside"); vf_close(B.ye(t),0.5,0,"electron fraction outside"); }
  else{ vf_close(B.density(t),spl(T.X,T.Y,r),tol(T.Y,r),"density at the radius of the position"); vf_close(B.ye(t),0.5*(1+spl(T.X,T.Z,r)),tol(T.Z,r),"electron fraction from the hydrogen fraction"); }
  vf_close(s.GetRadius(),RS*KM,0,"radius"); }
VF(H01_sunasnu){ Tab T(vf_bool("low")?-0.1:0.2,vf_bool("high")?1:0.7); SunASnu s(T.X,T.Y,T.Z); const Body& B=s; double R=s.GetRadius(),y=length("y",2*RA*KM),b=length("b",RA*KM),xi=vf_real("xi"); vf_assume(b>=0); vf_assume(b<=R); SunASnu::Track t(y,xi,b);
  double r=std::sqrt(R*R+y*y-2*y*std::sqrt(R*R-b*b))/R; clear(r,T.X[T.n-1]);
  if(r<T.X[0]){ vf_close(B.density(t),T.Y[0],1,"innermost density"); vf_close(B.ye(t),0.5*(1+T.Z[0]),1,"innermost electron fraction"); }
  else if(r>T.X[T.n-1]){ vf_close(B.density(t),0,0,"no matter outside"); vf_close(B.ye(t),0.5,0,"electron fraction outside"); }
  else{ vf_close(B.density(t),spl(T.X,T.Y,r),tol(T.Y,r),"density at the radius of the position"); vf_close(B.ye(t),0.5*(1+spl(T.X,T.Z,r)),tol(T.Z,r),"electron fraction from the hydrogen fraction"); }
  vf_close(R,RA*KM,0,"the radius is the one its tracks assume"); }
namespace{
bool same(double a,double b,double scale){
#ifdef VF_NATIVE
  return std::fabs(a-b)<=2e-9*(scale+std::fabs(a)+std::fabs(b));
#else
  return a==b;
#endif
}
double cosine(){
#ifdef VF_NATIVE
  return vf_real_in("c",-1,1);
#else
  double c=vf_real("c"); vf_assume(-1<=c); vf_assume(c<=1); return c;
#endif
}
double height(){
#ifdef VF_NATIVE
  return vf_real_in("h",0,100);
#else
  double h=vf_real("h"); vf_assume(h>=0); return h;
#endif
}
// radius (km) on a track that arrives at the surface with zenith cosine c, a km from the top of an atmosphere of height h
double radius_at(double c,double h,double a){ double T=RE+h,s=std::sqrt(T*T-RE*RE*(1-c*c)); double r2=T*T+a*a-2*s*a; vf_assume(r2>0); return std::sqrt(r2); }
}
VF(H01_earthatm){ Tab T(vf_bool("low")?-0.1:0.2,vf_bool("high")?1:0.7); EarthAtm e(T.X,T.Y,T.Z); const Body& B=e; double h=height(),c=cosine(),y=length("y",RE*KM); e.SetAtmosphereHeight(h); EarthAtm::Track t=e.MakeTrackWithCosine(c); t.SetX(y);
  double r=radius_at(c,h,y/KM); clear(r,RE); double d=B.density(t),z=B.ye(t);
  if(r>RE){ vf_assume(T.X[0]*(RE+h)<=RE); vf_close(d,0.0012*std::exp(-(r-RE)/7.594),0,"exponential atmosphere above the surface"); vf_close(z,0.494,0,"electron fraction of air"); }
  else if(r<RE){ // the table is relative to the surface according to the documentation, to the top of the atmosphere according to the code: either is accepted here (see H01_earthatm_scale)
    double q=r/RE,p=r/(RE+h); vf_assert(same(d,prof(T.X,T.Y,q),tol(T.Y,q)) || same(d,prof(T.X,T.Y,p),tol(T.Y,p)),"density at the radius of the position"); vf_assert(same(z,prof(T.X,T.Z,q),tol(T.Z,q)) || same(z,prof(T.X,T.Z,p),tol(T.Z,p)),"electron fraction at the radius of the position"); } }
VF(H01_earthatm_centre){ Tab T(vf_bool("low")?-0.1:0.2,1); EarthAtm e(T.X,T.Y,T.Z); const Body& B=e; double h=height(); e.SetAtmosphereHeight(h); EarthAtm::Track t=e.MakeTrackWithCosine(-1); t.SetX((RE+h)*KM); vf_close(B.density(t),prof(T.X,T.Y,0),tol(T.Y,0),"density at the centre"); vf_close(B.ye(t),prof(T.X,T.Z,0),tol(T.Z,0),"electron fraction at the centre"); }
VF(H01_earthatm_default){ Tab T(vf_bool("low")?-0.1:0.2,1); EarthAtm e(T.X,T.Y,T.Z); vf_close(e.GetRadius(),RE,0,"radius"); vf_close(e.GetAtmosphereHeight(),22,0,"height of the atmosphere"); double h=height(); e.SetAtmosphereHeight(h); vf_close(e.GetAtmosphereHeight(),h,0,"height that was set"); vf_close(e.GetRadius(),RE,0,"radius"); vf_assert(!e.IsConstantDensity(),"not uniform"); }
VF_B(H01_earthatm_scale){ Tab T(0,1); EarthAtm e(T.X,T.Y,T.Z); double h=vf_real_in("h",1,100),c=cosine(),f=vf_real_in("f",0,1); e.SetAtmosphereHeight(h); EarthAtm::Track t=e.MakeTrackWithCosine(c); t.SetX(f*t.GetBaseline()); double r=radius_at(c,h,t.GetX()/KM); vf_assume(r<0.99*RE);
  vf_close(e.density(t),prof(T.X,T.Y,r/RE),1,"EarthAtm: the table is relative to the surface"); }
// tables read from a file
#ifdef VF_NATIVE
namespace{ std::string file(const double* d,size_t n,size_t m){ std::ofstream o("vf_table.dat"); o.precision(17); for(size_t i=0;i<n;i++){ for(size_t j=0;j<m;j++) o<<(j?" ":"")<<d[i*m+j]; o<<"\n"; } o.close(); return "vf_table.dat"; } }
#else
namespace{ const double* TD; size_t TN,TM; std::string file(const double* d,size_t n,size_t m){ TD=d; TN=n; TM=m; return std::string(); } }
// contract of quickread: the rows of numbers of the file
marray<double,2> VFSTUB_quickread(std::string){ marray<double,2> a({TN,TM}); double* p=a.get_data(); for(size_t k=0;k<TN*TM;k++) p[k]=TD[k]; return a; }
#endif
namespace{
struct File{ size_t n,m; double* d; V X,Y,Z; File(size_t M,size_t x,size_t y,size_t z):n(vf_size("n",3,1<<20,8)),m(M){ double* p=vf_increasing("X",n); Tab::scaled(p,n,vf_bool("low")?-0.1:0.1,1); d=vf_reals("D",n*M); double* D=vf_reals("T",n*M); for(size_t k=0;k<n;k++) for(size_t j=0;j<M;j++) D[k*M+j]=j==x?p[k]:d[k*M+j]; d=D; X=V(n); Y=V(n); Z=V(n); for(size_t k=0;k<n;k++){ X[k]=p[k]; Y[k]=d[k*M+y]; Z[k]=d[k*M+z]; } } };
}
VF(H01_earth_file){ File F(3,0,1,2); Earth e(file(F.d,F.n,3)); const Body& B=e; double y=length("y",RE*KM); Earth::Track t(y,0,1,0); double r=std::sqrt(RE*RE+(y/KM)*(y/KM))/RE; vf_close(B.density(t),prof(F.X,F.Y,r),tol(F.Y,r),"density from the second column"); vf_close(B.ye(t),prof(F.X,F.Z,r),tol(F.Z,r),"electron fraction from the third column"); vf_close(e.GetRadius(),RE,0,"radius"); }
VF(H01_earthatm_file){ File F(3,0,1,2); EarthAtm e(file(F.d,F.n,3)); const Body& B=e; e.SetAtmosphereHeight(0); double c=cosine(),y=length("y",RE*KM); EarthAtm::Track t=e.MakeTrackWithCosine(c); t.SetX(y); double r=radius_at(c,0,y/KM); clear(r,RE); vf_assume(r<RE); vf_close(B.density(t),prof(F.X,F.Y,r/RE),tol(F.Y,r/RE),"density from the second column"); vf_close(B.ye(t),prof(F.X,F.Z,r/RE),tol(F.Z,r/RE),"electron fraction from the third column"); }
VF(H01_sun_file){ File F(7,1,3,6); Sun s(file(F.d,F.n,7)); const Body& B=s; double y=length("y",RS*KM); Sun::Track t(y,0,1); double r=y/(RS*KM); clear(r,F.X[F.n-1]); vf_assume(r<=F.X[F.n-1]); vf_close(B.density(t),prof(F.X,F.Y,r),tol(F.Y,r),"density from the fourth column"); vf_close(B.ye(t),0.5*(1+prof(F.X,F.Z,r)),tol(F.Z,r),"hydrogen fraction from the seventh column"); vf_close(s.GetRadius(),RS*KM,0,"radius"); }
VF(H01_sunasnu_file){ File F(7,1,3,6); SunASnu s(file(F.d,F.n,7)); const Body& B=s; double y=length("y",RA*KM); SunASnu::Track t(y,0,0); double r=std::fabs(y-RA*KM)/(RA*KM); clear(r,F.X[F.n-1]); vf_assume(r<=F.X[F.n-1]); vf_close(B.density(t),prof(F.X,F.Y,r),tol(F.Y,r),"density from the fourth column"); vf_close(B.ye(t),0.5*(1+prof(F.X,F.Z,r)),tol(F.Z,r),"hydrogen fraction from the seventh column"); vf_close(s.GetRadius(),RA*KM,0,"radius"); }
VF(H01_sizes){ size_t n=vf_size("n",1,1<<20,6),m=vf_size("m",1,1<<20,6),k=vf_size("k",1,1<<20,6); vf_assume(n!=m || n!=k || n<3); V X=vec(vf_increasing("X",n),n),Y=vec(vf_reals("Y",m),m),Z=vec(vf_reals("Z",k),k); int w=(int)vf_int("w",0,4,0,4); bool t=false;
  try{ if(w==0) VariableDensity b(X,Y,Z); else if(w==1) Earth b(X,Y,Z); else if(w==2) Sun b(X,Y,Z); else if(w==3) SunASnu b(X,Y,Z); else EarthAtm b(X,Y,Z); }catch(std::runtime_error&){ t=true; } vf_assert(t,"tables of different lengths, or too short ones, are refused"); }
VF(H02_track){ double xi=vf_real("xi"),xf=vf_real("xf"),y=vf_real("y"); Vacuum::Track t(xi,xf); vf_close(t.GetX(),xi,0,"a track starts at its initial position"); t.SetX(y); vf_close(t.GetX(),y,0,"the position is the one set"); vf_close(t.GetInitialX(),xi,0,"i"); vf_close(t.GetFinalX(),xf,0,"f"); t.ReverseTrack(); vf_close(t.GetInitialX(),xf,0,"r"); vf_close(t.GetFinalX(),xi,0,"r");
  std::vector<double> p=t.GetTrackParams(); vf_assert(p.size()==2,"two"); vf_close(p[0],xf,0,"p"); vf_close(p[1],xi,0,"p"); }

VF(H02_atm){ double R=vf_real("R"),h=vf_real("h"),phi=vf_real_in("phi",0,3.141592653589793); vf_assume(R>0); vf_assume(h>=0); EarthAtm::Track t(phi,R,h); double c=std::cos(phi),L=t.GetBaseline(),s=L+R*c;
#ifndef VF_NATIVE
  vf_assume(-1<=c); vf_assume(c<=1);
#endif
  vf_close(s*s,(R+h)*(R+h)-R*R*(1-c*c),(R+h)*(R+h),"the track runs from the top of the atmosphere to the surface"); vf_le(0,s,R,"forward intersection"); vf_le(0,L,R,"the baseline is not negative");
  vf_close((R+h)*(R+h)+L*L-2*s*L,R*R,(R+h)*(R+h),"the track ends at the surface");
  vf_close(t.GetX(),0,0,"starts at zero"); vf_close(t.GetInitialX(),0,0,"starts at zero"); vf_close(t.GetFinalX(),L,0,"ends after the baseline");
  V p=t.GetTrackParams(); vf_assert(p.size()==5,"five parameters"); vf_close(p[0],0,0,"initial position"); vf_close(p[1],L,0,"final position"); vf_close(p[2],std::acos(c),1,"zenith angle"); vf_close(p[3],R,0,"radius"); vf_close(p[4],h,0,"height"); }
VF(H02_atm_at){ double R=vf_real("R"),h=vf_real("h"),phi=vf_real_in("phi",0,3.141592653589793),x=vf_real("x"); vf_assume(R>0); vf_assume(h>=0); vf_assume(x>=0); EarthAtm::Track t(x,phi,R,h),u(phi,R,h); vf_close(t.GetX(),x,0,"position"); vf_close(t.GetBaseline(),u.GetBaseline(),0,"baseline"); vf_close(t.GetInitialX(),0,0,"initial position"); vf_close(t.GetFinalX(),u.GetBaseline(),0,"final position"); }
VF(H02_atm_cosine){ double R=vf_real("R"),h=vf_real("h"),c=cosine(); vf_assume(R>0); vf_assume(h>=0); EarthAtm::Track t=EarthAtm::Track::MakeWithCosine(c,R,h); double L=t.GetBaseline(),s=L+R*c;
  vf_close(s*s,(R+h)*(R+h)-R*R*(1-c*c),(R+h)*(R+h),"the track runs from the top of the atmosphere to the surface"); vf_le(0,s,R,"forward intersection"); vf_close(t.GetX(),0,0,"starts at zero"); vf_close(t.GetInitialX(),0,0,"starts at zero"); vf_close(t.GetFinalX(),L,0,"ends after the baseline");
  V p=t.GetTrackParams(); vf_assert(p.size()==5,"five parameters"); vf_close(p[2],std::acos(c),1,"zenith angle"); vf_close(p[3],R,0,"radius the track was made for"); vf_close(p[4],h,0,"height the track was made for"); }
VF(H02_atm_make){ Tab T; EarthAtm e(T.X,T.Y,T.Z); double h=height(),phi=vf_real_in("phi",0,3.141592653589793); e.SetAtmosphereHeight(h); EarthAtm::Track t=e.MakeTrack(phi),u=e.MakeTrackWithCosine(std::cos(phi)),w(phi,RE*KM,h*KM);
  vf_close(t.GetBaseline(),w.GetBaseline(),0,"baseline for the height that was set"); vf_close(u.GetBaseline(),w.GetBaseline(),0,"angle and cosine give the same track"); V p=t.GetTrackParams(),q=u.GetTrackParams(),r=w.GetTrackParams(); vf_assert(p.size()==5 && q.size()==5,"five parameters"); size_t k=vf_index("k",5); vf_close(p[k],r[k],0,"parameters"); vf_close(q[k],r[k],0,"angle and cosine give the same parameters"); }
VF(H02_earth){ double x=vf_real("x"),xi=vf_real("xi"),xf=vf_real("xf"),L=vf_real("L"); Earth::Track a(x,xi,xf,L),b(xi,xf,L),c(L); vf_close(a.GetX(),x,0,"position"); vf_close(b.GetX(),xi,0,"starts at the initial position"); vf_close(c.GetX(),0,0,"starts at zero"); vf_close(a.GetBaseline(),L,0,"baseline"); vf_close(b.GetBaseline(),L,0,"baseline"); vf_close(c.GetBaseline(),L,0,"baseline"); vf_close(c.GetInitialX(),0,0,"initial"); vf_close(c.GetFinalX(),L,0,"final"); V p=a.GetTrackParams(); vf_assert(p.size()==3,"three parameters"); vf_close(p[0],xi,0,"initial"); vf_close(p[1],xf,0,"final"); vf_close(p[2],L,0,"baseline"); }
VF(H02_sunasnu){ double x=length("x",RA*KM),xi=length("xi",RA*KM),b=length("b",RA*KM); vf_assume(b>=0); vf_assume(b<=RA*KM); SunASnu::Track t(x,xi,b),u(xi,b),w(b); double E=t.GetFinalX(),R=RA*KM; vf_close(E*E,4*(R*R-b*b),R*R,"the chord of the impact parameter"); vf_le(0,E,R,"length of the chord"); vf_close(t.GetX(),x,0,"position"); vf_close(t.GetInitialX(),xi,0,"initial"); vf_close(u.GetX(),xi,0,"starts at the initial position"); vf_close(u.GetFinalX(),E,0,"final"); vf_close(w.GetX(),0,0,"starts at zero"); vf_close(w.GetInitialX(),0,0,"starts at zero"); vf_close(w.GetFinalX(),E,0,"final");
  V p=t.GetTrackParams(); vf_assert(p.size()==3,"three parameters"); vf_close(p[0],xi,0,"initial"); vf_close(p[1],E,0,"final"); vf_close(p[2],b,0,"impact parameter"); }
VF(H02_straight){ double x=vf_real("x"),xi=vf_real("xi"),xf=vf_real("xf"); int w=(int)vf_int("w",0,3,0,3); double g[3],f[3],i[3];
  if(w==0){ Vacuum::Track a(x,xi,xf),b(xi,xf),c(xf); g[0]=a.GetX(); g[1]=b.GetX(); g[2]=c.GetX(); i[0]=a.GetInitialX(); i[1]=b.GetInitialX(); i[2]=c.GetInitialX(); f[0]=a.GetFinalX(); f[1]=b.GetFinalX(); f[2]=c.GetFinalX(); }
  else if(w==1){ ConstantDensity::Track a(x,xi,xf),b(xi,xf),c(xf); g[0]=a.GetX(); g[1]=b.GetX(); g[2]=c.GetX(); i[0]=a.GetInitialX(); i[1]=b.GetInitialX(); i[2]=c.GetInitialX(); f[0]=a.GetFinalX(); f[1]=b.GetFinalX(); f[2]=c.GetFinalX(); }
  else if(w==2){ VariableDensity::Track a(x,xi,xf),b(xi,xf),c(xf); g[0]=a.GetX(); g[1]=b.GetX(); g[2]=c.GetX(); i[0]=a.GetInitialX(); i[1]=b.GetInitialX(); i[2]=c.GetInitialX(); f[0]=a.GetFinalX(); f[1]=b.GetFinalX(); f[2]=c.GetFinalX(); }
  else{ Sun::Track a(x,xi,xf),b(xi,xf),c(xf); g[0]=a.GetX(); g[1]=b.GetX(); g[2]=c.GetX(); i[0]=a.GetInitialX(); i[1]=b.GetInitialX(); i[2]=c.GetInitialX(); f[0]=a.GetFinalX(); f[1]=b.GetFinalX(); f[2]=c.GetFinalX(); }
  vf_close(g[0],x,0,"position"); vf_close(g[1],xi,0,"starts at the initial position"); vf_close(g[2],0,0,"starts at zero"); vf_close(i[0],xi,0,"initial"); vf_close(i[1],xi,0,"initial"); vf_close(i[2],0,0,"initial"); for(int k=0;k<3;k++) vf_close(f[k],xf,0,"final"); }
