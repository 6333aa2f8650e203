// Contract vocabulary shared by the deductive verifier and the native replay build.
//
// A contract is a C++ function  VF(<property id>_<name>) { ... }  that builds an arbitrary pre-state
// (vf_size, vf_index, vf_real, vf_reals, ... ; vf_assume = precondition), calls functions of /repo and
// states the postcondition with vf_assert / vf_close.  The verifier (engine/) executes it symbolically on
// the LLVM IR of /repo's current source, for all inputs; the native build (-DVF_NATIVE) runs the same text
// on concrete inputs, to look for / replay a failing input.
// VF_S(...) contracts quantify over all values but only over stated bounded shapes: executed symbolically, never counted as proved.
// VF_B(...) contracts are bounded stand-ins: they are only ever executed natively and never counted as proved.
#ifndef VF_H
#define VF_H
#include <cstddef>
#include <cstdint>
#ifndef VF_NATIVE
namespace vfi{
void vf_assume(bool);
void vf_assert(bool,const char*);
void vf_close(double a,double b,double scale,const char*);      // a==b over the reals
void vf_le(double a,double b,double scale,const char*);         // a<=b over the reals
size_t vf_size(const char*,size_t lo,size_t hi,size_t native_hi);
long vf_int(const char*,long lo,long hi,long native_lo,long native_hi);
size_t vf_index(const char*,size_t n);
double vf_real(const char*);
double vf_real_in(const char*,double lo,double hi);
double* vf_reals(const char*,size_t n);                         // arbitrary values
double* vf_positive(const char*,size_t n);                      // arbitrary positive values
double* vf_increasing(const char*,size_t n);                    // strictly increasing values
const char* vf_bytes(const char*,size_t n);                      // arbitrary bytes
void vf_fill(double*,size_t n);                                 // overwrite with arbitrary values
bool vf_bool(const char*);
double vf_fun(int k,double x);                                  // the k-th arbitrary function of one real argument
double vf_app(int k,double a,double b,double c,double d);       // the k-th arbitrary function of four real arguments (contract stubs only)
double vf_slice(const double* p,size_t n);                      // the sequence p[0..n-1] as one value: equal sequences (equal as terms) give equal values (contract stubs only)
void vf_modular();                                              // calls are checked against the stated contracts (VFSTUB_*), not the bodies
void vf_forget();                                               // forget heap allocated by vf_* helpers
void vf_unreachable(const char*);
void vf_hint(size_t k);                                          // proof hint only: a position the proof may try (no meaning)
void vf_fits(size_t limit,size_t a,size_t b,size_t c=1,size_t d=1);   // precondition: a*b*c*d <= limit as a mathematical product, and so is every sub-product
}
#define VF(NAME) namespace vfc{ void NAME(); } void vfc::NAME()
#define VF_S(NAME) namespace vfc{ void NAME(); } void vfc::NAME()
#define VF_B(NAME) static void NAME##_bounded()
#else
#include <vector>
#include <string>
#include <map>
#include <random>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <sstream>
#include <iostream>
#include <stdexcept>
#include <unistd.h>
#include <fcntl.h>
namespace vfi{
struct reject{}; struct failure{ std::string msg; };
struct Reg{ std::string name; void(*fn)(); bool bounded; };
inline std::vector<Reg>& regs(){ static std::vector<Reg> r; return r; }
struct Add{ Add(const char* n,void(*f)(),bool b){ regs().push_back(Reg{n,f,b}); } };
inline std::mt19937_64& rng(){ static std::mt19937_64 r; return r; }
inline std::ostringstream& log(){ static std::ostringstream s; return s; }
inline std::vector<double*>& owned(){ static std::vector<double*> v; return v; }
inline long& checks(){ static long n=0; return n; }
inline void note(const std::string& s){ log()<<s<<"; "; }
template<class T> void note(const char* n,const T& v){ log().precision(17); log()<<n<<"="<<v<<"; "; }
inline void vf_assume(bool b){ if(!b) throw reject{}; }
inline void vf_assert(bool b,const char* m){ checks()++; if(!b) throw failure{m}; }
inline void vf_close(double a,double b,double scale,const char* m){ checks()++; if(a==b || (a!=a && b!=b)) return;
  double s=std::max(std::max(std::fabs(a),std::fabs(b)),std::fabs(scale));
  if(!(std::fabs(a-b)<=2e-9*s+1e-290)){ std::ostringstream o; o.precision(17); o<<m<<": "<<a<<" vs "<<b<<" (scale "<<scale<<")"; throw failure{o.str()}; } }
inline void vf_le(double a,double b,double scale,const char* m){ checks()++;
  double s=std::max(std::max(std::fabs(a),std::fabs(b)),std::fabs(scale));
  if(!(a<=b+2e-9*s+1e-290)){ std::ostringstream o; o.precision(17); o<<m<<": "<<a<<" > "<<b; throw failure{o.str()}; } }
inline size_t pick(size_t lo,size_t hi){ return lo+size_t(rng()()%(hi-lo+1)); }
inline size_t vf_size(const char* n,size_t lo,size_t hi,size_t nh){ if(nh>hi) nh=hi; size_t v=pick(lo,nh); note(n,v); return v; }
inline long vf_int(const char* n,long lo,long hi,long nlo,long nhi){ if(nlo<lo) nlo=lo; if(nhi>hi) nhi=hi; long v=nlo+long(rng()()%(unsigned long)(nhi-nlo+1)); note(n,v); return v; }
inline size_t vf_index(const char* n,size_t k){ if(!k) throw reject{}; size_t v=pick(0,k-1); note(n,v); return v; }
inline double raw(){ switch(rng()()%6){
  case 0: return double(long(rng()()%11)-5);
  case 1: return (double(rng()()%2001)-1000)/64.;
  case 2: return std::ldexp(double(long(rng()()%2001)-1000),int(rng()()%21)-10);
  default: return std::uniform_real_distribution<double>(-10,10)(rng()); } }
inline double vf_real(const char* n){ double v=raw(); note(n,v); return v; }
inline double vf_real_in(const char* n,double lo,double hi){ double v; switch(rng()()%8){ case 0: v=lo; break; case 1: v=hi; break;
   default: v=std::uniform_real_distribution<double>(lo,hi)(rng()); } note(n,v); return v; }
inline double* fresh(size_t n){ double* p=new double[n?n:1]; owned().push_back(p); return p; }
inline void show(const char* nm,const double* p,size_t n){ log()<<nm<<"=["; for(size_t i=0;i<n&&i<64;i++) log()<<(i?",":"")<<p[i]; log()<<"]; "; }
inline double* vf_reals(const char* nm,size_t n){ double* p=fresh(n); for(size_t i=0;i<n;i++) p[i]=raw(); show(nm,p,n); return p; }
inline double* vf_positive(const char* nm,size_t n){ double* p=fresh(n); for(size_t i=0;i<n;i++) p[i]=std::fabs(raw())+0.0625; show(nm,p,n); return p; }
inline double* vf_increasing(const char* nm,size_t n){ double* p=fresh(n); double x=std::uniform_real_distribution<double>(-20,20)(rng()); if(rng()()%2) x=std::floor(x); int mode=rng()()%3;
  for(size_t i=0;i<n;i++){ p[i]=x; double st=std::uniform_real_distribution<double>(0.0625,4)(rng()); if(mode==0) st=1; if(mode==1) st=std::ldexp(1.,int(rng()()%5)); x+=st; } show(nm,p,n); return p; }
inline void vf_fill(double* p,size_t n){ for(size_t i=0;i<n;i++) p[i]=raw()+i*1e-3; show("fill",p,n); }
inline const char* vf_bytes(const char* nm,size_t n){ char* p=(char*)fresh(n/8+1); for(size_t i=0;i<n;i++) p[i]=char(rng()()%8?97+rng()()%26:rng()()%256); log()<<nm<<"=["; for(size_t i=0;i<n;i++) log()<<(i?",":"")<<int(p[i]); log()<<"]; "; return p; }
inline bool vf_bool(const char* n){ bool v=rng()()%2; note(n,v); return v; }
// an arbitrary function, natively: one of a family of smooth or kinked functions, chosen when it is first used in a case
struct Fun{ int kind; double c[4]; };
inline std::map<int,Fun>& funs(){ static std::map<int,Fun> m; return m; }
inline void vf_fun_name(int k){ if(!funs().count(k)){ Fun f; f.kind=rng()()%5; for(double& c:f.c) c=std::uniform_real_distribution<double>(-2,2)(rng());
  std::ostringstream o; o.precision(17); o<<"f"<<k<<"=kind"<<f.kind<<"("<<f.c[0]<<","<<f.c[1]<<","<<f.c[2]<<","<<f.c[3]<<")"; note(o.str()); funs()[k]=f; } }
inline double vf_fun(int k,double x){ vf_fun_name(k); const Fun& f=funs()[k]; double z=f.c[1]*x+f.c[2];
  switch(f.kind){ case 0: return f.c[0]+f.c[3]*std::cos(z); case 1: return f.c[0]*z*z*z+f.c[3]*z; case 2: return f.c[0]*std::exp(-z*z)+f.c[3];
    case 3: return f.c[0]*std::fabs(z)+f.c[3]*x; default: return f.c[0]/(1+z*z)+f.c[3]*x*x; } }
inline void vf_forget(){}
inline void vf_modular(){}
inline void vf_unreachable(const char* m){ vf_assert(false,m); }
inline void vf_hint(size_t){}
inline void vf_fits(size_t lim,size_t a,size_t b,size_t c=1,size_t d=1){ long double p=1; for(size_t x:{a,b,c,d}) if(x) p*=x; if(p>(long double)lim) throw reject{}; }
}
#define VF(NAME) namespace vfc{ void NAME(); static vfi::Add reg_##NAME(#NAME,&NAME,false); } void vfc::NAME()
#define VF_S(NAME) VF_B(NAME)
#define VF_B(NAME) namespace vfc{ void NAME(); static vfi::Add reg_##NAME(#NAME,&NAME,true); } void vfc::NAME()
#ifdef VF_MAIN
#include <chrono>
#include <typeinfo>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t vf_live(){ return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t vf_live(){ return 0; }
#endif
static int vf_one0(const vfi::Reg& r,uint64_t seed,uint64_t kase,bool verbose,bool print,long& grown,std::string& text);
static int vf_one(const vfi::Reg& r,uint64_t seed,uint64_t kase,bool verbose){
  long g=0; std::string text; int rc=vf_one0(r,seed,kase,verbose,true,g,text);
  if(rc==0 && g>0){
    // memory still held after the case: a leak if the same case holds more every time it is repeated
    long mn=g; for(int i=0;i<12 && mn>0;i++){ vf_one0(r,seed,kase,false,false,g,text); if(i>=2 && g<mn) mn=g; else if(i<2 && g<=0) mn=0; }
    if(mn>0){ printf("FAIL contract=%s seed=%llu case=%llu :: no heap memory is leaked: %ld bytes stay allocated each time :: inputs: %s\n",r.name.c_str(),(unsigned long long)seed,(unsigned long long)kase,mn,text.c_str()); fflush(stdout); return 2; }
  }
  return rc;
}
static int vf_one0(const vfi::Reg& r,uint64_t seed,uint64_t kase,bool verbose,bool print,long& grown,std::string& text){
  // 0 ok, 1 rejected, 2 violation
  uint64_t h=1469598103934665603ULL; for(char c:r.name) h=(h^(unsigned char)c)*1099511628211ULL;
  vfi::rng().seed(h^(seed*0x9E3779B97F4A7C15ULL)^(kase*0xD1B54A32D192ED03ULL));
  std::ostringstream().swap(vfi::log()); vfi::log().precision(17); vfi::funs().clear(); text.clear(); text.shrink_to_fit();
  int rc=0; std::string msg; size_t live0=vf_live();
  try{ r.fn(); }
  catch(vfi::reject&){ rc=1; }
  catch(vfi::failure& f){ rc=2; msg=f.msg; }
  catch(std::exception& e){ rc=2; msg=std::string("unexpected exception ")+typeid(e).name()+": "+e.what(); }
  catch(...){ rc=2; msg="unexpected exception"; }
  vfi::funs().clear(); for(double* p:vfi::owned()) delete[] p; std::vector<double*>().swap(vfi::owned());
  { std::string t=vfi::log().str(); if(rc==0){ std::ostringstream().swap(vfi::log()); std::string().swap(msg); { std::string u; u.swap(t); grown=0; text.swap(u); } size_t live1=vf_live(); size_t own=text.capacity()>15?text.capacity()+1:0; grown=long(live1)-long(live0)-long(own); vfi::log()<<text; } }
  if(!print) return rc;
  if(rc==2||verbose){ printf("%s contract=%s seed=%llu case=%llu :: %s :: inputs: %s\n",rc==2?"FAIL":(rc==1?"rejected":"ok"),r.name.c_str(),(unsigned long long)seed,(unsigned long long)kase,msg.c_str(),vfi::log().str().c_str()); fflush(stdout); }
  return rc;
}
int main(int argc,char** argv){
  // usage: prog run <prefix> <seed> <cases> <seconds per contract>  |  prog one <name> <seed> <case>
  std::string mode=argc>1?argv[1]:"";
  if(mode=="one"){ for(auto& r:vfi::regs()) if(r.name==argv[2]){ int k=vf_one(r,strtoull(argv[3],0,10),strtoull(argv[4],0,10),true); return k==2; } return 3; }
  if(mode=="list"){ for(auto& r:vfi::regs()) printf("%s %d\n",r.name.c_str(),int(r.bounded)); return 0; }
  bool exact=mode=="runone"; std::string pre=argv[2]; uint64_t seed=strtoull(argv[3],0,10); uint64_t N=strtoull(argv[4],0,10); double secs=atof(argv[5]);
  int bad=0; int cur=getenv("VF_CUR")?open(getenv("VF_CUR"),O_CREAT|O_RDWR|O_TRUNC,0600):-1;
  for(auto& r:vfi::regs()) if(exact? r.name==pre : r.name.compare(0,pre.size(),pre)==0){
    auto t0=std::chrono::steady_clock::now(); uint64_t ok=0,rej=0; long c0=vfi::checks();
    printf("BEGIN %s\n",r.name.c_str()); fflush(stdout);
    for(uint64_t k=0;k<N*3&&ok<N;k++){
      // the case being run, so that a crash can be attributed
      if(cur>=0){ char b[256]; int n=snprintf(b,sizeof b,"%-120s %20llu %20llu\n",r.name.c_str(),(unsigned long long)seed,(unsigned long long)k); if(pwrite(cur,b,n,0)<0) cur=-1; }
      int rc=vf_one(r,seed,k,false);
      if(rc==2){ bad++; break; }
      if(rc==1) rej++; else ok++;
      if(std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()>secs) break;
    }
    printf("DONE %s bounded=%d ok=%llu rejected=%llu checks=%ld\n",r.name.c_str(),int(r.bounded),(unsigned long long)ok,(unsigned long long)rej,vfi::checks()-c0); fflush(stdout);
  }
  return bad?1:0;
}
#endif
#endif
using namespace vfi;
#endif
