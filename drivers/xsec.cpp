// Contracts for the neutrino cross sections (include/nuSQuIDS/xsections.h, src/xsections.cpp).
#define VF_NDSET 32
#include <cstdint>
#include "vf.h"
#include <cmath>
#include <vector>
#include <string>
#include <map>
#include <memory>
#include <iostream>
#include <sstream>
#include <fstream>
#include <algorithm>
#include <functional>
#include <stdexcept>
#include <type_traits>
#include <iterator>
#include <utility>
#include <tuple>
#include <array>
#include <limits>
#include <numeric>
#include <cassert>
#include <unordered_map>
#include <SQuIDS/const.h>
#include "h5store.h"
#define private public
#define protected public
#include <nuSQuIDS/xsections.h>
#include <nuSQuIDS/AdaptiveQuad.h>
#undef private
#undef protected
using namespace nusquids;
typedef NeutrinoCrossSections XS; typedef NeutrinoDISCrossSectionsFromTables DIS; typedef NeutrinoDISCrossSectionsFromTables_V1 DIS1;
typedef std::vector<double> V;
namespace{
#ifdef VF_NATIVE
#define VF_ROUND(c) vf_assume(c)    // natively: away from where rounding decides
#else
#define VF_ROUND(c)
#endif
const double GeV=1e9; const char* const FILENAME="vf_xs.h5";
const XS::NeutrinoFlavor FL[3]={XS::electron,XS::muon,XS::tau}; const XS::NeutrinoType NT[2]={XS::neutrino,XS::antineutrino}; const XS::Current CU[2]={XS::CC,XS::NC};
const char* const FN[3]={"electron","muon","tau"}; const char* const SN[4]={"s_CC_nu","s_NC_nu","s_CC_nubar","s_NC_nubar"}; const char* const DN[4]={"dsdy_CC_nu","dsdy_NC_nu","dsdy_CC_nubar","dsdy_NC_nubar"};
template<class F> bool refuses(F f){ try{ f(); }catch(std::runtime_error&){ return true; } return false; }
}
#ifndef VF_NATIVE
// the bucket counts of std::unordered_map (compiled into libstdc++), for small tables
namespace std{ namespace __detail{
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const{ static const unsigned char p[14]={2,2,2,3,5,5,7,7,11,11,11,11,13,13}; vf_assert(n<14,"model: small hash tables"); if(n==0) return 1; _M_next_resize=p[n]; return p[n]; }
pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb,size_t ne,size_t ni) const{ if(ne+ni>_M_next_resize){ size_t m=ne+ni; if(_M_next_resize==0 && m<11) m=11; if(m>=nb) return pair<bool,size_t>(true,_M_next_bkt(m+1>nb*2?m+1:nb*2)); _M_next_resize=nb; } return pair<bool,size_t>(false,0); }
} }
int vf_file_kind(const char*){ return h5_made()?1:0; }
// contracts of the interpolators (C02-C04): a function of the tables and the point
// (the values are kept where the spline keeps its segments, so that they move with it)
void VFSTUB_akima_init(AkimaSpline* s,const double* x,const double* y,unsigned n){ if(n<3) throw std::runtime_error("too few"); size_t k=n; double* p=static_cast<double*>(::operator new(k*sizeof(AkimaSpline::segment))); __builtin_memcpy(p,y,k*sizeof(double)); double** v=(double**)&s->segments; v[0]=p; v[1]=v[2]=p+5*k; s->xLast=vf_slice(x,n); s->yLast=vf_slice(y,n); }
marray<double,1> VFSTUB_akima_ordinates(const AkimaSpline* s){ size_t n=s->segments.size(); marray<double,1> r({n}); __builtin_memcpy(r.get_data(),(const void*)s->segments.data(),n*sizeof(double)); return r; }
double VFSTUB_akima_eval(const AkimaSpline* s,double q){ return vf_app(9,s->xLast,s->yLast,q,0); }
void VFSTUB_bicubic_init(BiCubicInterpolator* b,marray<double,2>* d,marray<double,1>* x,marray<double,1>* y){ if(x->extent(0)!=d->extent(1) || y->extent(0)!=d->extent(0)) throw std::runtime_error("grid"); new(b) BiCubicInterpolator(); b->data=std::move(*d); b->xcoords=std::move(*x); b->ycoords=std::move(*y); }
// logspace (C01): samples linear in the logarithm; the contracts name the step of the grid they build
static double grid_step; void grid(double d){ grid_step=d; }
marray<double,1> VFSTUB_logspace(double a,double b,unsigned n){ if(n==0) throw std::length_error("n"); double la=std::log(a),lb=std::log(b); vf_close(lb-la,double(n-1)*grid_step,0,"contract of logspace: the step"); vf_assert(n>=2,"contract of logspace: the step"); marray<double,1> r({n}); double* p=r.get_data(); for(unsigned k=0;k<n;k++) p[k]=std::exp(la+double(k)*grid_step); return r; }
double VFSTUB_bicubic_eval(const BiCubicInterpolator* b,double x,double y){ return vf_app(8,vf_app(7,vf_slice(b->data.get_data(),b->data.size()),vf_slice(b->xcoords.get_data(),b->xcoords.size()),vf_slice(b->ycoords.get_data(),b->ycoords.size()),0),x,y,0); }
// AdaptiveQuad::integrate (D02): determined by the limits, the tolerance and the integrand, which is represented by its values at the ends
double VFSTUB_integrate(const void*,double a,double b,double tol,AdaptiveQuad::Options* o){ return vf_app(6,a,b,tol,vf_app(5,o->fa,o->fb,0,0)); }
#else
void grid(double){}
#endif
namespace{
double spl(const double* x,const double* y,size_t n,double q){ AkimaSpline s(x,y,n); return s(q); }
marray<double,1> arr(const double* p,size_t n){ marray<double,1> a({n}); std::copy(p,p+n,a.get_data()); return a; }
marray<double,2> arr2(const double* p,size_t n,size_t m){ marray<double,2> a({n,m}); std::copy(p,p+n*m,a.get_data()); return a; }
// energies in powers of ten of an electronvolt, from a few GeV upwards natively
double* energies(size_t n,bool low){ double* p=vf_increasing("E",n);
#ifdef VF_NATIVE
  double a=p[0],b=p[n-1]; for(size_t k=0;k<n;k++) p[k]=(low?9:11)+(p[k]-a)/(b-a)*3;
#endif
  return p; }
double* logs(const char* n,size_t k){ double* p=vf_reals(n,k);
#ifdef VF_NATIVE
  for(size_t i=0;i<k;i++) p[i]=std::remainder(p[i],8)-30;
#endif
  return p; }
// the tables in a file: common to the flavours, or one set per flavour, some of them possibly aliases of one another
struct File{ int layout; size_t ne,nz; double *E,*Z; double *S[3][4],*D[3][4]; Store st;
  void put(hid_t loc,int f){ hsize_t e1[1]={ne},e2[2]={nz,ne}; for(int t=0;t<4;t++){ S[f][t]=logs("S",ne); D[f][t]=logs("D",ne*nz); H5LTmake_dataset_double(loc,SN[t],1,e1,S[f][t]); H5LTmake_dataset_double(loc,DN[t],2,e2,D[f][t]); } }
  void same(int f,int g){ for(int t=0;t<4;t++){ S[f][t]=S[g][t]; D[f][t]=D[g][t]; } }
  // 0: common, 1: all different, 2: tau like electron, 3: tau like muon, 4: muon like electron, 5: all three alike
  File(int layout_,bool low=false):layout(layout_){ ne=vf_size("ne",3,1<<12,6); nz=vf_size("nz",3,1<<12,5); E=energies(ne,low); Z=vf_increasing("Z",nz); hsize_t n1[1]={ne},n2[1]={nz};
#ifdef VF_NATIVE
    { double a=Z[0],b=Z[nz-1]; for(size_t k=0;k<nz;k++) Z[k]=(Z[k]-a)/(b-a); }
#endif
    hid_t f=H5Fcreate(FILENAME,H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT); H5LTmake_dataset_double(f,"energies",1,n1,E); H5LTmake_dataset_double(f,"zs",1,n2,Z);
    if(layout==0){ put(f,0); same(1,0); same(2,0); }
    else for(int k=0;k<3;k++){ int src= k==1 && layout>=4?0: k==2 && (layout==2 || layout==5)?0: k==2 && layout==3?1: -1; if(src>=0){ H5Lcreate_hard(f,FN[src],f,FN[k],H5P_DEFAULT,H5P_DEFAULT); same(k,src); } else{ hid_t g=H5Gcreate2(f,FN[k],H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT); put(g,k); H5Gclose(g); } }
    H5Fclose(f); }
  double total(int f,int t,double loge) const{ return spl(E,S[f][t],ne,loge); }
  double diff(int f,int t,double x,double y) const{ BiCubicInterpolator b(arr2(D[f][t],nz,ne),arr(E,ne),arr(Z,nz)); return b(x,y); }
  double emin() const{ return std::pow(10.,E[0]); } double emax() const{ return std::pow(10.,E[ne-1]); } };
void total_inside(int layout){ File F(layout); DIS x(FILENAME); double E=vf_real_in("E1",1e9,1e14); vf_assume(E>=10*GeV); vf_assume(E>=F.emin()); vf_assume(E<=F.emax());
  vf_close(x.GetEmin(),F.emin(),0,"lowest energy"); vf_close(x.GetEmax(),F.emax(),0,"highest energy");
  for(int f=0;f<3;f++) for(int a=0;a<2;a++) for(int c=0;c<2;c++) vf_close(x.TotalCrossSection(E,FL[f],NT[a],CU[c]),std::pow(10.,F.total(f,2*a+c,std::log10(E))),0,"total cross section from the table of its flavour, kind and current");
  vf_assert(x.TotalCrossSection(E,XS::sterile,NT[0],CU[0])==0,"sterile neutrinos do not interact"); }
void diff_inside(int layout){ File F(layout); DIS x(FILENAME); double E1=vf_real_in("E1",1e9,1e14),E2=vf_real_in("E2",1e9,1e14); vf_assume(E1>F.emin()); vf_assume(E1<=F.emax()); vf_assume(E2>F.emin()); vf_assume(E2<=E1);
  for(int f=0;f<3;f++) for(int a=0;a<2;a++) for(int c=0;c<2;c++) vf_close(x.SingleDifferentialCrossSection(E1,E2,FL[f],NT[a],CU[c]),std::pow(10.,F.diff(f,2*a+c,std::log10(E1),(E2-F.emin())/(E1-F.emin())))/(E1/GeV),0,"differential cross section from the table of its flavour, kind and current");
  vf_assert(x.SingleDifferentialCrossSection(E1,E2,XS::sterile,NT[0],CU[0])==0,"sterile neutrinos do not interact"); }
}
namespace{ template<class F> void each_layout(F f){ int l=(int)vf_int("layout",2,5,2,5); if(l==2) f(2); else if(l==3) f(3); else if(l==4) f(4); else f(5); } }
VF(X01_total_common){ total_inside(0); }
VF(X01_total_flavours){ total_inside(1); }
VF(X01_total_alias){ each_layout(total_inside); }
VF(X01_diff_common){ diff_inside(0); }
VF(X01_diff_flavours){ diff_inside(1); }
VF(X01_diff_alias){ each_layout(diff_inside); }
VF(X01_below){ File F(0,true); DIS x(FILENAME); double E=vf_real_in("E1",1e7,1e11),m=F.emin(); vf_assume(E>0); vf_assume(E<m); vf_assume(m>0); vf_assume(m<F.emax()) /* pow increases */; for(int a=0;a<2;a++) for(int c=0;c<2;c++){ double r=x.TotalCrossSection(E,XS::muon,NT[a],CU[c]);
  if(E<10*GeV && m>10*GeV) vf_assert(r==std::numeric_limits<double>::min(),"nothing below 10 GeV when the table starts above"); else vf_close(r,std::pow(10.,F.total(1,2*a+c,std::log10(m)))*(E/m),0,"proportional to the energy below the table");
  vf_assert(x.SingleDifferentialCrossSection(E,m,XS::muon,NT[a],CU[c])==std::numeric_limits<double>::min(),"no differential cross section below the table"); vf_assert(x.AverageSingleDifferentialCrossSection(E,m/2,m,XS::muon,NT[a],CU[c])==std::numeric_limits<double>::min(),"no differential cross section below the table"); } }
VF(X01_above){ File F(0); DIS x(FILENAME); double E=vf_real_in("E1",1e14,1e16),e2=vf_real_in("E2",1e9,1e14); vf_assume(E>F.emax()); vf_assume(e2>0);
  for(int f=0;f<3;f++) for(int a=0;a<2;a++) for(int c=0;c<2;c++){ vf_assert(refuses([&]{ x.TotalCrossSection(E,FL[f],NT[a],CU[c]); }),"energies above the table are refused"); vf_assert(refuses([&]{ x.SingleDifferentialCrossSection(E,e2,FL[f],NT[a],CU[c]); }),"energies above the table are refused"); vf_assert(refuses([&]{ x.AverageSingleDifferentialCrossSection(E,e2,2*e2,FL[f],NT[a],CU[c]); }),"energies above the table are refused"); }
  vf_assert(x.TotalCrossSection(E,XS::sterile,NT[0],CU[0])==0 && x.SingleDifferentialCrossSection(E,e2,XS::sterile,NT[0],CU[0])==0 && x.AverageSingleDifferentialCrossSection(E,e2,2*e2,XS::sterile,NT[0],CU[0])==0,"sterile neutrinos do not interact"); }
VF(X01_diff_low){ File F(0,true); DIS x(FILENAME); double E1=vf_real_in("E1",1e9,1e14),E2=vf_real_in("E2",1e7,1e10); vf_assume(E1>F.emin()); vf_assume(E1<=F.emax()); vf_assume(E2<=F.emin()); vf_assume(E2>0); 
  for(int a=0;a<2;a++) for(int c=0;c<2;c++){ double v=F.diff(2,2*a+c,std::log10(E1),(E2-F.emin())/(E1-F.emin())),e=F.diff(2,2*a+c,std::log10(E1),0); vf_close(x.SingleDifferentialCrossSection(E1,E2,XS::tau,NT[a],CU[c]),std::pow(10.,v>e?e:v)/(E1/GeV),0,"the continuation below the table does not exceed its edge"); } }

// the older tables: bilinear in the logarithms of the energies
namespace{
struct File1{ size_t n; double a,d,lo,hi; double *s[2],*D[2]; Store st;
  File1():n(vf_size("n",2,1<<10,5)){ a=vf_real_in("a",2.4,5); d=vf_real_in("d",0.1,2); vf_assume(d>0); grid(d); lo=std::exp(a)*GeV; hi=std::exp(a+double(n-1)*d)*GeV; vf_assume(lo>=10*GeV); vf_assume(hi>lo) /* exp increases */; hsize_t e3[3]={2,3,n},e4[4]={2,3,n,n};
    hid_t f=H5Fcreate(FILENAME,H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT); addH5Attribute(f,"Emin",lo); addH5Attribute(f,"Emax",hi);
    for(int c=0;c<2;c++){ s[c]=vf_reals("s",6*n); D[c]=vf_reals("D",6*n*n); H5LTmake_dataset_double(f,c?"s_NC":"s_CC",3,e3,s[c]); H5LTmake_dataset_double(f,c?"dsDE_NC":"dsDE_CC",4,e4,D[c]); } H5Fclose(f); }
  double total(int c,int nt,int fl,size_t k) const{ return s[c][(nt*3+fl)*n+k]; }
  double diff(int c,int nt,int fl,size_t k,size_t l) const{ return D[c][((nt*3+fl)*n+k)*n+l]; } };
double lin(double t,double p,double q){ return p+t*(q-p); }
}
VF(X02_ends){ File1 F; DIS1 x(FILENAME); vf_close(x.GetEmin(),F.lo,0,"lowest energy"); vf_close(x.GetEmax(),F.hi,0,"highest energy"); vf_assert(x.GetNumE()==F.n && x.IsInit(),"number of energies");
  for(int f=0;f<3;f++) for(int a=0;a<2;a++) for(int c=0;c<2;c++){ vf_close(x.TotalCrossSection(F.lo,FL[f],NT[a],CU[c]),F.total(c,a,f,0),10,"first entry"); vf_close(x.TotalCrossSection(F.hi,FL[f],NT[a],CU[c]),F.total(c,a,f,F.n-1),10,"last entry"); }
  double E=vf_real_in("E",1e7,1e10); vf_assume(E>0); vf_assume(E<F.lo); double r=x.TotalCrossSection(E,FL[0],NT[0],CU[0]); if(E<10*GeV && F.lo>10*GeV) vf_assert(r==std::numeric_limits<double>::min(),"nothing below 10 GeV when the table starts above"); else vf_close(r,F.total(0,0,0,0)*(E/F.lo),10,"proportional to the energy below the table");
  vf_assert(x.SingleDifferentialCrossSection(E,E/2,FL[0],NT[0],CU[0])==std::numeric_limits<double>::min(),"no differential cross section below the table");
  double H=vf_real_in("H",1e14,1e30); vf_assume(H>F.hi); vf_assert(refuses([&]{ x.TotalCrossSection(H,FL[1],NT[0],CU[0]); }) && refuses([&]{ x.SingleDifferentialCrossSection(H,F.lo,FL[1],NT[0],CU[0]); }),"energies above the table are refused");
  vf_assert(x.TotalCrossSection(H,XS::sterile,NT[0],CU[0])==0 && x.SingleDifferentialCrossSection(H,F.lo,XS::sterile,NT[0],CU[0])==0,"sterile neutrinos do not interact"); }
VF(X02_total){ File1 F; DIS1 x(FILENAME); size_t k=vf_index("k",F.n-1); double t=vf_real_in("t",0,1); vf_assume(t<1); double E=std::exp(F.a+(double(k)+t)*F.d)*GeV; vf_assume(E>=10*GeV) /* exp increases */; vf_assume(E>=x.GetEmin()); vf_assume(E<=x.GetEmax());
  for(int f=0;f<3;f++) for(int a=0;a<2;a++) for(int c=0;c<2;c++) vf_close(x.TotalCrossSection(E,FL[f],NT[a],CU[c]),lin(t,F.total(c,a,f,k),F.total(c,a,f,k+1)),10,"total cross section is interpolated in its own row of the table"); }
namespace{ template<class F> void combos(F f){ for(int l=0;l<3;l++) for(int a=0;a<2;a++) for(int c=0;c<2;c++) f(l,a,c); } }
VF(X02_diff_below){ File1 F; DIS1 x(FILENAME); size_t k=vf_index("k",F.n-1),l=vf_index("l",F.n-1); vf_assume(l<k); double t=vf_real_in("t",0,1),u=vf_real_in("u",0,1); vf_assume(t<1); vf_assume(u<1); double E1=std::exp(F.a+(double(k)+t)*F.d)*GeV,E2=std::exp(F.a+(double(l)+u)*F.d)*GeV; vf_assume(E1>=F.lo); vf_assume(E1<=F.hi); vf_assume(E2<E1) /* exp increases */;
  combos([&](int f,int a,int c){ vf_close(x.SingleDifferentialCrossSection(E1,E2,FL[f],NT[a],CU[c]),lin(t,lin(u,F.diff(c,a,f,k,l),F.diff(c,a,f,k,l+1)),lin(u,F.diff(c,a,f,k+1,l),F.diff(c,a,f,k+1,l+1))),10,"bilinear in the logarithms of the energies"); }); }
VF(X02_diff_diagonal){ File1 F; DIS1 x(FILENAME); size_t k=vf_index("k",F.n-1); double t=vf_real_in("t",0,1),u=vf_real_in("u",0,1); vf_assume(t<1); vf_assume(u<t); double E1=std::exp(F.a+(double(k)+t)*F.d)*GeV,E2=std::exp(F.a+(double(k)+u)*F.d)*GeV; vf_assume(E1>=F.lo); vf_assume(E1<=F.hi); vf_assume(E2<E1) /* exp increases */;
  combos([&](int f,int a,int c){ double mm=F.diff(c,a,f,k,k),mp=F.diff(c,a,f,k,k+1),pm=F.diff(c,a,f,k+1,k),pp=F.diff(c,a,f,k+1,k+1); double r=x.SingleDifferentialCrossSection(E1,E2,FL[f],NT[a],CU[c]);
    if(mp==0) vf_close(r,mm+t*(pm-mm)+u*(pp-pm),10,"in the cells at the kinematic limit: the plane through the three allowed corners"); else vf_close(r,lin(t,lin(u,mm,mp),lin(u,pm,pp)),10,"bilinear in the logarithms of the energies"); }); }
VF(X02_diff_top){ File1 F; DIS1 x(FILENAME); size_t l=vf_index("l",F.n-1); double u=vf_real_in("u",0,1); vf_assume(u<1); double E2=std::exp(F.a+(double(l)+u)*F.d)*GeV; vf_assume(E2<F.hi) /* exp increases */;
  combos([&](int f,int a,int c){ vf_close(x.SingleDifferentialCrossSection(F.hi,E2,FL[f],NT[a],CU[c]),lin(u,F.diff(c,a,f,F.n-1,l),F.diff(c,a,f,F.n-1,l+1)),10,"at the highest energy: linear in the logarithm of the outgoing energy"); }); }
VF(X02_diff_forbidden){ File1 F; DIS1 x(FILENAME); double p=vf_real_in("p",0,double(F.n-1)),q=vf_real_in("q",0,1e5),z=vf_real_in("z",1,1e5); VF_ROUND(z>1.0001); double E1=std::exp(F.a+p*F.d)*GeV,E2=std::exp(F.a+(p+q)*F.d)*GeV,E3=std::exp(F.a-z*F.d)*GeV; vf_assume(E1>=F.lo); vf_assume(E1<=F.hi); vf_assume(E2>=E1); vf_assume(E3<F.lo) /* exp increases */;
  combos([&](int f,int a,int c){ vf_assert(x.SingleDifferentialCrossSection(E1,E2,FL[f],NT[a],CU[c])==0,"nothing above the incoming energy"); vf_assert(x.SingleDifferentialCrossSection(E1,E3,FL[f],NT[a],CU[c])==0,"nothing a step or more below the table"); }); }

// what is written is read back (single precision tables natively)
namespace{
void same_value(double a,double b,const char* m){
#ifdef VF_NATIVE
  vf_assert(std::fabs(a-b)<=1e-2*(std::fabs(a)+std::fabs(b)),m);
#else
  vf_close(a,b,0,m);
#endif
}
void rewrite(int layout){ File F(layout); double E=vf_real_in("E1",1e9,1e14),E2=vf_real_in("E2",1e9,1e14); vf_assume(E>=10*GeV); vf_assume(E>F.emin()); vf_assume(E2>F.emin()); vf_assume(E2<=E);
#ifdef VF_NATIVE
  vf_assume(E<F.emax()*0.999 && E>F.emin()*2);
#else
  vf_assume(E<=F.emax());
#endif
  DIS x(FILENAME); size_t before=F.st.opened(); x.WriteHDF(FILENAME,0); vf_assert(F.st.opened()==before,"the file is closed after writing"); DIS y(FILENAME); vf_assert(F.st.opened()==before,"the file is closed after reading");
  same_value(y.GetEmin(),x.GetEmin(),"lowest energy is read back"); same_value(y.GetEmax(),x.GetEmax(),"highest energy is read back");
  for(int f=0;f<3;f++) for(int a=0;a<2;a++) for(int c=0;c<2;c++){ same_value(y.TotalCrossSection(E,FL[f],NT[a],CU[c]),std::pow(10.,F.total(f,2*a+c,std::log10(E))),"total cross section of each flavour is read back");
    same_value(y.SingleDifferentialCrossSection(E,E2,FL[f],NT[a],CU[c]),std::pow(10.,F.diff(f,2*a+c,std::log10(E),(E2-F.emin())/(E-F.emin())))/(E/GeV),"differential cross section of each flavour is read back"); } }
}
VF(X03_common){ rewrite(0); }
VF(X03_flavours){ rewrite(1); }
VF(X03_alias){ each_layout(rewrite); }
VF(X03_old){ File1 F; DIS1 x(FILENAME); size_t before=F.st.opened(); x.WriteHDF(FILENAME); vf_assert(F.st.opened()==before,"the file is closed after writing"); DIS1 y(FILENAME); vf_assert(F.st.opened()==before,"the file is closed after reading");
  vf_assert(y.GetNumE()==F.n && y.GetEmin()==F.lo && y.GetEmax()==F.hi,"energies are read back"); size_t k=vf_index("k",F.n),l=vf_index("l",F.n);
  combos([&](int f,int a,int c){ const marray<double,3>& s=c?y.s_NC_data:y.s_CC_data; const marray<double,4>& d=c?y.dsde_NC_data:y.dsde_CC_data; vf_assert(s[a][f][k]==F.total(c,a,f,k) && d[a][f][k][l]==F.diff(c,a,f,k,l),"tables are read back"); }); }
// files that do not hold a complete set of tables of matching sizes
namespace{ void spoil(int what){ size_t ne=vf_size("ne",3,1<<12,6),nz=vf_size("nz",3,1<<12,6),bad=vf_size("bad",3,1<<12,6); double* E=energies(ne,false); double* Z=vf_increasing("Z",nz); Store st; hsize_t n1[1]={ne},m1[1]={nz};
  hid_t f=H5Fcreate(FILENAME,H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT); if(what!=0) H5LTmake_dataset_double(f,"energies",1,n1,E); if(what!=1) H5LTmake_dataset_double(f,"zs",1,m1,Z);
  for(int t=0;t<4;t++){ hsize_t e1[1]={ne},e2[2]={nz,ne}; if(what==2 && t==1) continue; if(what==4 && t==0){ vf_assume(bad!=ne); e1[0]=bad; } if(what==5 && t==3){ vf_assume(bad!=ne); e2[1]=bad; } if(what==6 && t==0){ vf_assume(bad!=nz); e2[0]=bad; }
    double* S=vf_reals("S",e1[0]); double* D=vf_reals("D",e2[0]*e2[1]); H5LTmake_dataset_double(f,SN[t],1,e1,S); if(what!=3 || t!=3) H5LTmake_dataset_double(f,DN[t],2,e2,D); }
  H5Fclose(f); size_t before=st.opened(); vf_assert(refuses([&]{ DIS x(FILENAME); }),"an incomplete or inconsistent file is refused"); vf_assert(st.opened()==before,"a refused file is closed"); } }
namespace{ void spoil_old(int what){ size_t n=vf_size("n",2,1<<10,5),bad=vf_size("bad",2,1<<10,5); vf_assume(bad!=n); int t=what<16?what%4:-1,dim=what/4; Store st; double lo=vf_real_in("lo",1e10,1e11),hi=vf_real_in("hi",1e12,1e13);
  hid_t f=H5Fcreate(FILENAME,H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT); if(what!=20) addH5Attribute(f,"Emin",lo); if(what==21) addH5Attribute(f,"Emax",1); else addH5Attribute(f,"Emax",hi);
  for(int c=0;c<2;c++){ hsize_t e3[3]={2,3,n},e4[4]={2,3,n,n}; if(t==c) e3[dim%3]=dim%3==0?3:dim%3==1?1:bad; if(t==2+c) e4[dim]=dim==0?3:dim==1?1:bad; double* S=vf_reals("S",e3[0]*e3[1]*e3[2]); double* D=vf_reals("D",e4[0]*e4[1]*e4[2]*e4[3]); if(what!=16+c) H5LTmake_dataset_double(f,c?"s_NC":"s_CC",3,e3,S); if(what!=18+c) H5LTmake_dataset_double(f,c?"dsDE_NC":"dsDE_CC",4,e4,D); }
  H5Fclose(f); size_t before=st.opened(); vf_assert(refuses([&]{ DIS1 x(FILENAME); }),"an incomplete or inconsistent file of the earlier layout is refused"); vf_assert(st.opened()==before,"a refused file is closed"); } }
VF(X03_old_refused){ int w=(int)vf_int("what",0,21,0,21); for(int k=0;k<22;k++) if(w==k) spoil_old(k); }
VF(X03_refused){ int w=(int)vf_int("what",0,6,0,6); if(w==0) spoil(0); else if(w==1) spoil(1); else if(w==2) spoil(2); else if(w==3) spoil(3); else if(w==4) spoil(4); else if(w==5) spoil(5); else spoil(6); }

// the Glashow resonance, the null cross section, and the library of cross sections by target
typedef GlashowResonanceCrossSection GR;
VF(X04_glashow){ GR x; squids::Const k; double E=vf_real_in("E",1e14,1e17); vf_assume(E>0); double m=k.electron_mass,mu=k.muon_mass,M=80.385*k.GeV,W=2.085*k.GeV,b=GR::WDecayBranchingFraction(XS::muon); double s=x.TotalCrossSection(E,XS::electron,XS::antineutrino,XS::GR);
  double edge=1-(mu*mu-m*m)/(2*m*E),off=1-2*m*E/(M*M); vf_close(s*3*b*(off*off+(W/M)*(W/M))/1e-30,2*(k.GF/k.cm)*(k.GF/k.cm)*m/k.pi*E*edge*edge/1e-30,0,"Breit-Wigner resonance of the W");
  vf_close(x.SingleDifferentialCrossSection(E,E,XS::electron,XS::antineutrino,XS::GR)/1e-40,3*b*s/E*k.GeV/1e-40,0,"differential cross section at the highest outgoing energy");
  double q=vf_real_in("q",0,1); vf_close(x.SingleDifferentialCrossSection(E,q*E,XS::electron,XS::antineutrino,XS::GR),q*q*x.SingleDifferentialCrossSection(E,E,XS::electron,XS::antineutrino,XS::GR),1e-40,"proportional to the square of the outgoing energy");
  double i=(x.SingleDifferentialCrossSection(E,0,XS::electron,XS::antineutrino,XS::GR)+4*x.SingleDifferentialCrossSection(E,E/2,XS::electron,XS::antineutrino,XS::GR)+x.SingleDifferentialCrossSection(E,E,XS::electron,XS::antineutrino,XS::GR))/6*(E/k.GeV); vf_close(i,b*s,0,"its integral is the share of muons of the total");
  double E2=vf_real_in("E2",1e14,1e18); vf_assume(E2>E); vf_assert(x.SingleDifferentialCrossSection(E,E2,XS::electron,XS::antineutrino,XS::GR)==0,"nothing above the incoming energy"); vf_assert(s>=0,"never negative");
  GR y(x); vf_close(y.TotalCrossSection(E,XS::electron,XS::antineutrino,XS::GR),s,0,"a copy has the same cross section"); GR z(std::move(y)); vf_close(z.TotalCrossSection(E,XS::electron,XS::antineutrino,XS::GR),s,0,"a moved object has the same cross section"); }
VF(X04_glashow_only){ GR x; NullCrossSections n; double E=vf_real_in("E",1e10,1e17),E2=vf_real_in("E2",1e10,1e17); vf_assume(E>0); vf_assume(E2>0); const XS::NeutrinoFlavor fl[4]={XS::electron,XS::muon,XS::tau,XS::sterile}; const XS::Current cu[3]={XS::CC,XS::NC,XS::GR};
  for(int f=0;f<4;f++) for(int a=0;a<2;a++) for(int c=0;c<3;c++){ if(!(f==0 && a==1 && c==2)) vf_assert(x.TotalCrossSection(E,fl[f],NT[a],cu[c])==0 && x.SingleDifferentialCrossSection(E,E2,fl[f],NT[a],cu[c])==0,"only electron antineutrinos, and only the resonance");
    vf_assert(n.TotalCrossSection(E,fl[f],NT[a],cu[c])==0 && n.SingleDifferentialCrossSection(E,E2,fl[f],NT[a],cu[c])==0 && n.DoubleDifferentialCrossSection(E,.5,.5,fl[f],NT[a],cu[c])==0,"the null cross section is zero"); }
  vf_close(GR::WDecayBranchingFraction(XS::electron),.1071,0,"decays to electrons"); vf_close(GR::WDecayBranchingFraction(XS::muon),.1063,0,"decays to muons"); vf_close(GR::WDecayBranchingFraction(XS::tau),.1138,0,"decays to taus"); vf_assert(GR::WDecayBranchingFraction(XS::sterile)==0,"decays to nothing else"); }
namespace{ struct Given:XS{ double v; explicit Given(double v):v(v){} double TotalCrossSection(double E,NeutrinoFlavor,NeutrinoType,Current) const override{ return v*E; } double SingleDifferentialCrossSection(double E,double F,NeutrinoFlavor,NeutrinoType,Current) const override{ return v*E+F; } };
 double at1(std::shared_ptr<const XS> p){ return p->TotalCrossSection(1,XS::muon,XS::neutrino,XS::CC); } }
VF(X04_library){ CrossSectionLibrary l; double a=vf_real("a"),b=vf_real("b"),c=vf_real("c"); vf_assert(!l.hasTarget(proton) && !l.crossSectionForTarget(proton),"an empty library has no targets"); l.addTarget(proton,Given(a)); l.addTarget(neutron,std::shared_ptr<XS>(new Given(b))); 
  vf_assert(l.hasTarget(proton) && l.hasTarget(neutron) && !l.hasTarget(nusquids::electron) && !l.hasTarget(isoscalar_nucleon) && !l.crossSectionForTarget(nusquids::electron),"the targets added, and no others"); vf_assert(at1(l.crossSectionForTarget(proton))==a && at1(l.crossSectionForTarget(neutron))==b,"each target has its own cross section");
  vf_assert(refuses([&]{ l.addTarget(proton,Given(c)); }) && refuses([&]{ l.addTarget(neutron,std::shared_ptr<XS>(new Given(c))); }),"a target is not redefined"); vf_assert(at1(l.crossSectionForTarget(proton))==a && at1(l.crossSectionForTarget(neutron))==b,"refused additions change nothing");
  CrossSectionLibrary m(l); m.addTarget(nusquids::electron,Given(c)); vf_assert(!l.hasTarget(nusquids::electron) && at1(m.crossSectionForTarget(nusquids::electron))==c && at1(m.crossSectionForTarget(proton))==a,"a copy is independent"); }

// averages: of a cross section that is a polynomial of degree three, monotone and not negative on the range (Bernstein coefficients)
namespace{ struct Cubic:XS{ double a,w,b[4]; double f(double E) const{ double u=(E-a)/w,v=1-u; return b[0]*v*v*v+3*b[1]*v*v*u+3*b[2]*v*u*u+b[3]*u*u*u; } double mean() const{ return (b[0]+b[1]+b[2]+b[3])/4; }
   double TotalCrossSection(double E,NeutrinoFlavor,NeutrinoType,Current) const override{ return f(E); } double SingleDifferentialCrossSection(double,double F,NeutrinoFlavor,NeutrinoType,Current) const override{ return f(F); } };
 void average(bool rising,bool single){ Cubic x; x.a=vf_real_in("a",0,10); x.w=vf_real_in("w",0.1,10); vf_assume(x.w>0); double p=vf_real_in("b0",0,1),q[3]; vf_assume(p>=0); x.b[0]=p; for(int k=0;k<3;k++){ q[k]=vf_real_in("d",0,1); vf_assume(q[k]>=0); x.b[k+1]=x.b[k]+q[k]; } if(!rising){ std::swap(x.b[0],x.b[3]); std::swap(x.b[1],x.b[2]); }
  double r=single?x.AverageSingleDifferentialCrossSection(20,x.a,x.a+x.w,XS::muon,XS::neutrino,XS::CC):x.AverageTotalCrossSection(x.a,x.a+x.w,XS::muon,XS::neutrino,XS::CC),m=x.mean(); vf_le(r,m*1.001,1,"average within a tenth of a per cent"); vf_le(m*0.999,r,1,"average within a tenth of a per cent"); } }
VF(X05_total_rising){ average(true,false); }
VF(X05_total_falling){ average(false,false); }
VF(X05_diff_rising){ average(true,true); }
VF(X05_diff_falling){ average(false,true); }
VF(X05_linear){ Cubic x; x.a=vf_real_in("a",0,10); x.w=vf_real_in("w",0.1,10); vf_assume(x.w>0); double p=vf_real_in("p",0,1),q=vf_real_in("q",0,1); vf_assume(p>=0); vf_assume(q>=0); for(int k=0;k<4;k++) x.b[k]=p+(q-p)*k/3; vf_close(x.AverageTotalCrossSection(x.a,x.a+x.w,XS::muon,XS::neutrino,XS::CC),(p+q)/2,0,"the average of a linear cross section is exact"); vf_close(x.AverageSingleDifferentialCrossSection(20,x.a,x.a+x.w,XS::muon,XS::neutrino,XS::CC),(p+q)/2,0,"the average of a linear cross section is exact"); }
VF(X05_tables){ File F(0); DIS x(FILENAME); double E=vf_real_in("E1",1e9,1e14),a=vf_real_in("a",1e9,1e14),w=vf_real_in("w",1e8,1e12); vf_assume(E>F.emin()); vf_assume(E<=F.emax()); vf_assume(w>0); vf_assume(a>F.emin()); vf_assume(a+w<=E);
  for(int f=0;f<3;f++) for(int t=0;t<2;t++) for(int c=0;c<2;c++){ double r=x.AverageSingleDifferentialCrossSection(E,a,a+w,FL[f],NT[t],CU[c]); vf_close(x.AverageSingleDifferentialCrossSection(E,a+w,a,FL[f],NT[t],CU[c]),r,0,"the order of the limits does not matter"); vf_close(x.XS::AverageSingleDifferentialCrossSection(E,a,a+w,FL[f],NT[t],CU[c]),r,0,"the average of the differential cross section of the same flavour, kind and current");
    vf_close(x.AverageSingleDifferentialCrossSection(E,a,a,FL[f],NT[t],CU[c]),x.SingleDifferentialCrossSection(E,a,FL[f],NT[t],CU[c]),0,"the average over a single energy is the value there"); } }
// a range that lies below the table
VF(X05_below){ File F(0); DIS x(FILENAME); double E=vf_real_in("E1",1e9,1e14),a=vf_real_in("a",1e6,1e9),w=vf_real_in("w",1e6,1e9); vf_assume(E>F.emin()); vf_assume(E<=F.emax()); vf_assume(w>0); vf_assume(a>0); vf_assume(a+w<F.emin()); for(int t=0;t<2;t++) for(int c=0;c<2;c++){
  double r=x.AverageSingleDifferentialCrossSection(E,a,a+w,XS::muon,NT[t],CU[c]); vf_close(x.XS::AverageSingleDifferentialCrossSection(E,a,a+w,XS::muon,NT[t],CU[c]),r,0,"the average of the differential cross section of the same flavour, kind and current"); } }
#ifdef VF_NATIVE
// text tables: bounded stand-ins (formatting and parsing are library code)
VF_B(X03_text){ File F(1); for(size_t k=0;k<F.nz;k++) F.Z[k]=k/double(F.nz-1); { DIS x0(FILENAME); } Store st; hid_t f=H5Fcreate(FILENAME,H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT); hsize_t n1[1]={F.ne},m1[1]={F.nz},e2[2]={F.nz,F.ne}; H5LTmake_dataset_double(f,"energies",1,n1,F.E); H5LTmake_dataset_double(f,"zs",1,m1,F.Z);
  for(int k=0;k<3;k++){ hid_t g=H5Gcreate2(f,FN[k],H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT); for(int t=0;t<4;t++){ H5LTmake_dataset_double(g,SN[t],1,n1,F.S[k][t]); H5LTmake_dataset_double(g,DN[t],2,e2,F.D[k][t]); } H5Gclose(g); } H5Fclose(f);
  DIS x(FILENAME); x.WriteText("vf_text_"); DIS y("vf_text_"); same_value(y.GetEmin(),x.GetEmin(),"lowest energy is read back"); same_value(y.GetEmax(),x.GetEmax(),"highest energy is read back");
  for(int fl=0;fl<3;fl++){ const auto &p=x.getFlavor(FL[fl]),&q=y.getFlavor(FL[fl]); const BiCubicInterpolator* a[4]={&p.dsdy_CC_nu,&p.dsdy_NC_nu,&p.dsdy_CC_nubar,&p.dsdy_NC_nubar}; const BiCubicInterpolator* b[4]={&q.dsdy_CC_nu,&q.dsdy_NC_nu,&q.dsdy_CC_nubar,&q.dsdy_NC_nubar}; const AkimaSpline* c[4]={&p.s_CC_nu,&p.s_NC_nu,&p.s_CC_nubar,&p.s_NC_nubar}; const AkimaSpline* d[4]={&q.s_CC_nu,&q.s_NC_nu,&q.s_CC_nubar,&q.s_NC_nubar};
    for(int t=0;t<4;t++){ auto u=c[t]->getOrdinates(),v=d[t]->getOrdinates(); vf_assert(u.size()==v.size(),"number of energies is read back"); for(size_t k=0;k<u.size();k++) vf_assert(std::fabs(u[k]-v[k])<1e-4,"total cross sections are read back from text");
      const auto &m=a[t]->getData(),&n=b[t]->getData(); vf_assert(m.extent(0)==n.extent(0) && m.extent(1)==n.extent(1),"sizes are read back"); for(size_t i=0;i<m.extent(0);i++) for(size_t j=0;j<m.extent(1);j++) vf_assert(std::fabs(m[i][j]-n[i][j])<1e-4,"differential cross sections are read back from text");
      for(size_t j=0;j<F.ne;j++) vf_assert(std::fabs(a[t]->getXCoords()[j]-b[t]->getXCoords()[j])<1e-4,"energies are read back from text"); for(size_t j=0;j<F.nz;j++) vf_assert(std::fabs(a[t]->getYCoords()[j]-b[t]->getYCoords()[j])<1e-4,"zs are read back from text"); } } }
// energies a few roundings away from the end of the table
VF_B(X02_edge){ File1 F; DIS1 x(FILENAME); int down=(int)vf_int("down",1,4,1,4); double E1=F.hi,E2=F.hi; for(int k=0;k<down;k++) E2=std::nextafter(E2,0); vf_assume(E2/GeV<E1/GeV); combos([&](int f,int a,int c){ double v=F.diff(c,a,f,F.n-1,F.n-1),t=F.total(c,a,f,F.n-1); double tol=1e-6*(1+std::fabs(F.diff(c,a,f,F.n-1,F.n-2))+std::fabs(v)+std::fabs(t)+std::fabs(F.total(c,a,f,F.n-2)));
  vf_assert(std::fabs(x.SingleDifferentialCrossSection(E1,E2,FL[f],NT[a],CU[c])-v)<=tol,"next to the highest energies: the last table entry"); vf_assert(std::fabs(x.TotalCrossSection(E2,FL[f],NT[a],CU[c])-t)<=tol,"next to the highest energy: the last table entry"); }); }
VF_B(X03_old_text){ File1 F; for(int c=0;c<2;c++) for(size_t k=0;k<6*F.n*F.n;k++) F.D[c][k]=F.D[c][k]; DIS1 x(FILENAME); x.WriteText("vf_old_"); DIS1 y("vf_old_"); vf_assert(y.GetNumE()==F.n,"number of energies is read back"); same_value(y.GetEmin(),F.lo,"lowest energy is read back"); same_value(y.GetEmax(),F.hi,"highest energy is read back");
  combos([&](int f,int a,int c){ const marray<double,3>& s=c?y.s_NC_data:y.s_CC_data; const marray<double,4>& d=c?y.dsde_NC_data:y.dsde_CC_data; for(size_t k=0;k<F.n;k++){ vf_assert(std::fabs(s[a][f][k]-F.total(c,a,f,k))<=1e-4*std::fabs(s[a][f][k]),"total cross sections are read back from text"); for(size_t l=0;l<F.n;l++) vf_assert(std::fabs(d[a][f][k][l]-F.diff(c,a,f,k,l))<=1e-4*std::fabs(d[a][f][k][l]),"differential cross sections are read back from text"); } });
  const char* nm[4]={"vf_old_sigma_CC.dat","vf_old_sigma_NC.dat","vf_old_dsde_CC.dat","vf_old_dsde_NC.dat"}; int w=(int)vf_int("short",0,3,0,3); std::ifstream in(nm[w]); std::string line,all; std::getline(in,line); while(std::getline(in,line)) all+=line+"\n"; in.close(); std::ofstream(nm[w])<<all;
  vf_assert(refuses([&]{ DIS1 z("vf_old_"); }),"a table with a missing row is refused"); }
#endif
