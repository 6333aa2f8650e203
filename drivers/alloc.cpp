// Contracts for include/nuSQuIDS/aligned_alloc.h
#include <cstdint>
#include <cstddef>
#include <cassert>
#include <new>
#include <utility>
#include <type_traits>
#include <nuSQuIDS/aligned_alloc.h>
#include "vf.h"

// every supported alignment 2^0 .. 2^31 (2^16 natively: real memory is limited), any number of elements that does not overflow
#ifdef VF_NATIVE
static const unsigned MAXP=18;
#else
static const unsigned MAXP=32;
#endif
template<class T,unsigned P> struct Each{ static void run(){
  aligned_allocator<T> al(P); size_t n=vf_size("n",1,size_t(1)<<56,40);
  T* p=al.allocate(n);
  vf_assert(p!=nullptr,"allocate returns a block");
  vf_assert(reinterpret_cast<size_t>(p)%(size_t(1)<<P)==0,"block is aligned to the requested power of two");
  size_t i=vf_index("i",n); p[i]=T(1); p[0]=T(1); p[n-1]=T(2);     // the whole block may be written ...
  aligned_allocator<T> other(al); vf_assert(other==al && !(other!=al),"a copied allocator compares equal");
  other.deallocate(p,n);                                          // ... and any equal allocator can release it afterwards
} };
static constexpr unsigned lg(size_t a){ return a<=1?0:1+lg(a/2); }   // precondition: at least the natural alignment of T
template<class T,unsigned P,bool=(P<=lg(alignof(T)))> struct All{ static void run(){ All<T,P-1>::run(); Each<T,P-1>::run(); } };
template<class T,unsigned P> struct All<T,P,true>{ static void run(){} };
VF(B01_double){ All<double,MAXP>::run(); }
VF(B01_char){ All<unsigned char,MAXP>::run(); }
struct Big{ double x[6]; Big(){} explicit Big(int i){ for(double& v:x) v=i; } };
VF(B01_big){ Each<Big,3>::run(); Each<Big,4>::run(); Each<Big,5>::run(); Each<Big,6>::run(); Each<Big,12>::run(); }
VF(B01_null){ aligned_allocator<double> al(5); al.deallocate(nullptr,3); vf_assert(true,"deallocating null is a no-op"); }
VF(B01_toobig){ aligned_allocator<double> al(6); size_t n=vf_size("n",(size_t(1)<<61),~size_t(0),~size_t(0)); bool threw=false; try{ double* p=al.allocate(n); (void)p; }catch(std::bad_alloc&){ threw=true; }
  vf_assert(threw,"a request that cannot fit the address space is refused with bad_alloc"); vf_assert(al.max_size()<n,"max_size is smaller than what cannot be allocated"); }
// two live blocks never overlap and both can be released in either order
VF(B01_two){ aligned_allocator<double> al(6); size_t n=vf_size("n",1,size_t(1)<<50,20),m=vf_size("m",1,size_t(1)<<50,20); double* p=al.allocate(n); double* q=al.allocate(m);
  size_t i=vf_index("i",n),j=vf_index("j",m); p[i]=1.0; q[j]=2.0; vf_assert(p[i]==1.0 && q[j]==2.0,"blocks do not overlap"); if(vf_bool("first")){ al.deallocate(p,n); vf_assert(q[j]==2.0,"releasing one block leaves the other alone"); al.deallocate(q,m); } else { al.deallocate(q,m); al.deallocate(p,n); } }
// converting between element types keeps the alignment
VF(B01_rebind){ aligned_allocator<double> al(7); aligned_allocator<double>::rebind<float>::other fl(al); aligned_allocator<double> d6(6); size_t n=vf_size("n",1,size_t(1)<<50,20); float* p=fl.allocate(n);
  vf_assert(reinterpret_cast<size_t>(p)%128==0,"a rebound allocator keeps the alignment"); vf_assert(fl==al && !(fl!=al) && d6!=al && !(d6==al),"comparison across element types compares alignments"); p[n-1]=1.f; fl.deallocate(p,n); }
// memory of one allocator may go to another exactly when they compare equal: same alignment, whatever the element type
VF(B01_equality){ unsigned p=(unsigned)vf_int("p",0,31,0,31),q=(unsigned)vf_int("q",0,31,0,31); aligned_allocator<double> a(p),b(q); aligned_allocator<char> c(q);
  vf_assert((a==b)==(p==q) && (a!=b)==(p!=q),"allocators compare equal exactly when they ask for the same alignment"); vf_assert((a==c)==(p==q) && (c==a)==(p==q) && (a!=c)==(p!=q) && (c!=a)==(p!=q),"comparison across element types compares alignments");
  aligned_allocator<double> d(b); aligned_allocator<double> e(c); vf_assert((a==d)==(p==q) && (a==e)==(p==q),"a copied or converted allocator asks for the same alignment"); }
