// Engine self test: the verifier must accept the Good contracts and must not accept the Bad ones.
#include <cstddef>
#include <cmath>
#include <stdexcept>
#include <new>
#include "vf.h"
static double ssum(const double* p,size_t n){ double s=0; for(size_t i=0;i<n;i++) s+=p[i]; return s; }
static double ssum_off(const double* p,size_t n){ double s=0; for(size_t i=1;i<n;i++) s+=p[i]; return s; }
static void copy(double* d,const double* s,size_t n){ for(size_t i=0;i<n;i++) d[i]=s[i]; }
static void copy_off(double* d,const double* s,size_t n){ for(size_t i=0;i+1<n;i++) d[i]=s[i]; }
VF(S00_good_sum){ size_t n=vf_size("n",1,1<<20,9); double* p=vf_reals("p",n); double s=0; for(size_t i=0;i<n;i++) s+=p[i]; vf_close(ssum(p,n),s,100,"sum"); }
VF(S00_bad_sum){ size_t n=vf_size("n",1,1<<20,9); double* p=vf_reals("p",n); double s=0; for(size_t i=0;i<n;i++) s+=p[i]; vf_close(ssum_off(p,n),s,100,"sum"); }
VF(S00_good_copy){ size_t n=vf_size("n",1,1<<20,9); double* p=vf_reals("p",n); double* q=vf_reals("q",n); copy(q,p,n); size_t i=vf_index("i",n); vf_close(q[i],p[i],0,"copy"); }
VF(S00_bad_copy){ size_t n=vf_size("n",1,1<<20,9); double* p=vf_reals("p",n); double* q=vf_reals("q",n); copy_off(q,p,n); size_t i=vf_index("i",n); vf_close(q[i],p[i],0,"copy"); }
VF(S00_bad_bounds){ size_t n=vf_size("n",1,1<<20,9); double* p=vf_reals("p",n); vf_assert(p[n]==p[n],"reads past the end"); }
VF(S00_bad_leak){ double* p=new double[3]; p[0]=1; vf_assert(p[0]==1,"leaks"); }
VF(S00_bad_twice){ double* p=new double[3]; delete[] p; delete[] p; }
VF(S00_good_throw){ bool t=false; try{ throw std::runtime_error("x"); }catch(std::exception&){ t=true; } vf_assert(t,"caught"); }
VF(S00_bad_throw){ int k=vf_int("k",0,9,0,9); if(k==7) throw std::runtime_error("escapes"); }
VF(S00_good_poly){ double x=vf_real("x"),y=vf_real("y"); vf_close((x+y)*(x+y),x*x+2*x*y+y*y,1e3,"square"); vf_le(0.0,x*x-2*x*y+y*y,1,"square is not negative"); }
VF(S00_bad_poly){ double x=vf_real("x"),y=vf_real("y"); vf_close((x+y)*(x+y),x*x+y*y,1e3,"square"); }
