// Contracts for include/nuSQuIDS/marray.h
#include <cstdint>
#include <array>
#include <vector>
#include <stdexcept>
#include <utility>
#include <nuSQuIDS/marray.h>
#include "vf.h"
using nusquids::marray; using nusquids::detail::no_init;
typedef marray<double,1> A1; typedef marray<double,2> A2; typedef marray<double,3> A3; typedef marray<double,4> A4;
static const size_t LIM=size_t(1)<<59, BIG=size_t(1)<<62;
#define SZ(n) vf_size(#n,1,BIG,5)
#define SZ0(n) vf_size(#n,0,BIG,5)
#define IX(i,n) size_t i=vf_index(#i,n)
#define PRE vf_assume
// precondition shared by all contracts: the array is representable in the address space (fewer than 2^59 elements)
#define PRE2(a,b) vf_fits(LIM,(a),(b))
#define PRE3(a,b,c) vf_fits(LIM,(a),(b),(c))

// ---------------------------------------------------------------- A01 row-major indexing
VF(A01_sub1){ size_t n=SZ(n); PRE(n<=LIM); A1 a({n},no_init); IX(i,n);
  const A1& c=a; const double* b=a.get_data(); std::array<size_t,1> x{{i}};
  vf_assert(&a[i]==b+i,"a[i] designates element i"); vf_assert(&c[i]==b+i,"const a[i] designates element i");
  vf_assert(&a[{i}]==b+i,"a[{i}] designates element i"); vf_assert(&c[{i}]==b+i,"const a[{i}] designates element i");
  vf_assert(&a[x]==b+i,"a[array] designates element i"); vf_assert(&c[x]==b+i,"const a[array] designates element i"); }
VF(A01_sub2){ size_t n=SZ(n),m=SZ(m); PRE2(n,m); A2 a({n,m},no_init); IX(i,n); IX(j,m);
  const A2& c=a; const double* e=a.get_data()+(i*m+j); std::array<size_t,2> x{{i,j}};
  vf_assert(&a[i][j]==e,"a[i][j] is element i*m+j"); vf_assert(&c[i][j]==e,"const a[i][j] is element i*m+j");
  vf_assert(&a[{i,j}]==e,"a[{i,j}] is element i*m+j"); vf_assert(&c[{i,j}]==e,"const a[{i,j}] is element i*m+j");
  vf_assert(&a[x]==e,"a[array] is element i*m+j"); vf_assert(&c[x]==e,"const a[array] is element i*m+j"); }
VF(A01_sub3){ size_t n=SZ(n),m=SZ(m),l=SZ(l); PRE3(n,m,l); A3 a({n,m,l},no_init); IX(i,n); IX(j,m); IX(k,l);
  const A3& c=a; const double* e=a.get_data()+((i*m+j)*l+k); std::array<size_t,3> x{{i,j,k}};
  vf_assert(&a[i][j][k]==e,"a[i][j][k] is element (i*m+j)*l+k"); vf_assert(&c[i][j][k]==e,"const a[i][j][k] is element (i*m+j)*l+k");
  vf_assert(&a[{i,j,k}]==e,"a[{i,j,k}] is element (i*m+j)*l+k"); vf_assert(&c[{i,j,k}]==e,"const a[{i,j,k}] is element (i*m+j)*l+k");
  vf_assert(&a[x]==e,"a[array] is element (i*m+j)*l+k"); vf_assert(&c[x]==e,"const a[array] is element (i*m+j)*l+k"); }
VF(A01_sub4){ size_t n=SZ(n),m=SZ(m),l=SZ(l),q=SZ(q); vf_fits(LIM,n,m,l,q); A4 a({n,m,l,q},no_init); IX(i,n); IX(j,m); IX(k,l); IX(p,q);
  const A4& c=a; const double* e=a.get_data()+(((i*m+j)*l+k)*q+p); std::array<size_t,4> x{{i,j,k,p}};
  vf_assert(&a[i][j][k][p]==e,"a[i][j][k][p] is element ((i*m+j)*l+k)*q+p"); vf_assert(&c[i][j][k][p]==e,"const a[i][j][k][p] is element ((i*m+j)*l+k)*q+p");
  vf_assert(&a[{i,j,k,p}]==e,"a[{i,j,k,p}] is element ((i*m+j)*l+k)*q+p"); vf_assert(&c[x]==e,"const a[array] is element ((i*m+j)*l+k)*q+p"); }
VF(A01_iter){ size_t n=SZ(n),m=SZ(m); PRE2(n,m); A2 a({n,m},no_init); const A2& c=a; IX(i,n); IX(j,m); size_t o=i*m+j; const double* b=a.get_data();
  vf_assert(&*(a.begin()+o)==b+o,"begin()+o is element o"); vf_assert(&*(c.begin()+o)==b+o,"const begin()+o is element o"); vf_assert(&*(a.cbegin()+o)==b+o,"cbegin()+o is element o");
  auto it=a.begin(); it+=o; vf_assert(&*it==b+o,"+= advances"); auto jt=it++; vf_assert(&*jt==b+o,"post-increment returns the old position"); --it; vf_assert(it==jt,"-- undoes ++");
  vf_assert(size_t(a.end()-a.begin())==n*m,"end()-begin() is the number of elements"); vf_assert(it-a.begin()==ptrdiff_t(o),"iterator difference counts elements");
  vf_assert(a.begin()+o!=a.end() && a.begin()+o<a.end() && a.begin()<=a.begin()+o,"element iterators precede end()");
  vf_assert(&a.begin()[o]==b+o,"begin()[o] is element o");
  vf_assert(&a.front()==b && &c.front()==b,"front() is the first element"); vf_assert(&a.back()==b+(n*m-1) && &c.back()==b+(n*m-1),"back() is the last element"); }
VF(A01_riter){ size_t n=SZ(n),m=SZ(m); PRE2(n,m); A2 a({n,m},no_init); const A2& c=a; IX(i,n); IX(j,m); size_t o=i*m+j; const double* b=a.get_data();
  vf_assert(&*(a.rbegin()+o)==b+(n*m-1-o),"rbegin()+o is the o-th element from the end"); vf_assert(&*(c.rbegin()+o)==b+(n*m-1-o),"const rbegin()+o is the o-th element from the end");
  vf_assert(size_t(a.rend()-a.rbegin())==n*m,"rend()-rbegin() is the number of elements"); auto r=a.rbegin(); r+=o; ++r; --r; vf_assert(&*r==b+(n*m-1-o),"reverse ++ and -- cancel"); }
VF(A01_coord1){ size_t n=SZ(n); PRE(n<=LIM); A1 a({n},no_init); IX(i,n); vf_assert(a.getCoordinate(a.begin()+i,0)==i,"getCoordinate inverts indexing"); }
VF(A01_coord2){ size_t n=SZ(n),m=SZ(m); PRE2(n,m); A2 a({n,m},no_init); IX(i,n); IX(j,m); auto it=a.begin()+(i*m+j);
  vf_assert(a.getCoordinate(it,0)==i,"getCoordinate(it,0) recovers i"); vf_assert(a.getCoordinate(it,1)==j,"getCoordinate(it,1) recovers j"); }
VF(A01_coord3){ size_t n=SZ(n),m=SZ(m),l=SZ(l); PRE3(n,m,l); A3 a({n,m,l},no_init); IX(i,n); IX(j,m); IX(k,l); auto it=a.begin()+((i*m+j)*l+k);
  vf_assert(a.getCoordinate(it,0)==i,"getCoordinate(it,0) recovers i"); vf_assert(a.getCoordinate(it,1)==j,"getCoordinate(it,1) recovers j"); vf_assert(a.getCoordinate(it,2)==k,"getCoordinate(it,2) recovers k"); }

// ---------------------------------------------------------------- A02 resize / insert / erase keep the surviving elements
VF(A02_insert1){ size_t n=SZ(n),k=SZ0(k); PRE(n+k<=LIM); A1 a({n},no_init); vf_fill(a.get_data(),n); size_t p=vf_index("p",n+1); double v=vf_real("v"); IX(i,n); double w=a[i];
  a.insert(0,p,k,v);
  vf_assert(a.size()==n+k && a.extent(0)==n+k,"extent grows by num"); if(i<p) vf_close(a[i],w,0,"surviving element keeps its value"); else vf_close(a[i+k],w,0,"surviving element keeps its value"); if(k>0){ IX(q,k); vf_close(a[p+q],v,0,"inserted element holds val"); } }
VF(A02_insert2d0){ size_t n=SZ(n),m=SZ(m),k=SZ0(k); PRE2(n+k,m); A2 a({n,m},no_init); vf_fill(a.get_data(),n*m); size_t p=vf_index("p",n+1); double v=vf_real("v"); IX(i,n); IX(j,m); double w=a[i][j];
  a.insert(0,p,k,v);
  vf_assert(a.extent(0)==n+k && a.extent(1)==m && a.size()==(n+k)*m,"extents after insert"); if(i<p) vf_close(a[i][j],w,0,"surviving element keeps its value"); else vf_close(a[i+k][j],w,0,"surviving element keeps its value"); if(k>0){ IX(q,k); vf_close(a[p+q][j],v,0,"inserted element holds val"); } }
VF(A02_insert2d1){ size_t n=SZ(n),m=SZ(m),k=SZ0(k); PRE2(n,m+k); A2 a({n,m},no_init); vf_fill(a.get_data(),n*m); size_t p=vf_index("p",m+1); double v=vf_real("v"); IX(i,n); IX(j,m); double w=a[i][j];
  a.insert(1,p,k,v);
  vf_assert(a.extent(0)==n && a.extent(1)==m+k && a.size()==n*(m+k),"extents after insert"); if(j<p) vf_close(a[i][j],w,0,"surviving element keeps its value"); else vf_close(a[i][j+k],w,0,"surviving element keeps its value"); if(k>0){ IX(q,k); vf_close(a[i][p+q],v,0,"inserted element holds val"); } }
VF(A02_insert3d1){ size_t n=SZ(n),m=SZ(m),l=SZ(l),k=SZ0(k); PRE3(n,m+k,l); A3 a({n,m,l},no_init); vf_fill(a.get_data(),n*m*l); size_t p=vf_index("p",m+1); double v=vf_real("v"); IX(i,n); IX(j,m); IX(h,l); double w=a[i][j][h];
  a.insert(1,p,k,v);
  vf_assert(a.extent(0)==n && a.extent(1)==m+k && a.extent(2)==l && a.size()==n*(m+k)*l,"extents after insert"); if(j<p) vf_close(a[i][j][h],w,0,"surviving element keeps its value"); else vf_close(a[i][j+k][h],w,0,"surviving element keeps its value"); if(k>0){ IX(q,k); vf_close(a[i][p+q][h],v,0,"inserted element holds val"); } }
VF(A02_insert3d2){ size_t n=SZ(n),m=SZ(m),l=SZ(l),k=SZ0(k); PRE3(n,m,l+k); A3 a({n,m,l},no_init); vf_fill(a.get_data(),n*m*l); size_t p=vf_index("p",l+1); double v=vf_real("v"); IX(i,n); IX(j,m); IX(h,l); double w=a[i][j][h];
  a.insert(2,p,k,v);
  vf_assert(a.extent(0)==n && a.extent(1)==m && a.extent(2)==l+k && a.size()==n*m*(l+k),"extents after insert"); if(h<p) vf_close(a[i][j][h],w,0,"surviving element keeps its value"); else vf_close(a[i][j][h+k],w,0,"surviving element keeps its value"); if(k>0){ IX(q,k); vf_close(a[i][j][p+q],v,0,"inserted element holds val"); } }
VF(A02_erase1){ size_t n=SZ(n); PRE(n<=LIM); A1 a({n},no_init); vf_fill(a.get_data(),n); size_t p=vf_index("p",n), k=vf_size("k",0,BIG,4); PRE(p+k<=n); IX(i,n); PRE(i<p||i>=p+k); double w=a[i];
  a.erase(0,p,k);
  vf_assert(a.size()==n-k && a.extent(0)==n-k,"extent shrinks by num"); if(i<p) vf_close(a[i],w,0,"surviving element keeps its value"); else vf_close(a[i-k],w,0,"surviving element keeps its value"); }
VF(A02_erase2d0){ size_t n=SZ(n),m=SZ(m); PRE2(n,m); A2 a({n,m},no_init); vf_fill(a.get_data(),n*m); size_t p=vf_index("p",n), k=vf_size("k",0,BIG,4); PRE(p+k<=n); IX(i,n); IX(j,m); PRE(i<p||i>=p+k); double w=a[i][j];
  a.erase(0,p,k);
  vf_assert(a.extent(0)==n-k && a.extent(1)==m && a.size()==(n-k)*m,"extents after erase"); if(i<p) vf_close(a[i][j],w,0,"surviving element keeps its value"); else vf_close(a[i-k][j],w,0,"surviving element keeps its value"); }
VF(A02_erase2d1){ size_t n=SZ(n),m=SZ(m); PRE2(n,m); A2 a({n,m},no_init); vf_fill(a.get_data(),n*m); size_t p=vf_index("p",m), k=vf_size("k",0,BIG,4); PRE(p+k<=m); IX(i,n); IX(j,m); PRE(j<p||j>=p+k); double w=a[i][j];
  a.erase(1,p,k);
  vf_assert(a.extent(0)==n && a.extent(1)==m-k && a.size()==n*(m-k),"extents after erase"); if(j<p) vf_close(a[i][j],w,0,"surviving element keeps its value"); else vf_close(a[i][j-k],w,0,"surviving element keeps its value"); }
VF(A02_erase3d1){ size_t n=SZ(n),m=SZ(m),l=SZ(l); PRE3(n,m,l); A3 a({n,m,l},no_init); vf_fill(a.get_data(),n*m*l); size_t p=vf_index("p",m), k=vf_size("k",0,BIG,4); PRE(p+k<=m); IX(i,n); IX(j,m); IX(h,l); PRE(j<p||j>=p+k); double w=a[i][j][h];
  a.erase(1,p,k);
  vf_assert(a.extent(0)==n && a.extent(1)==m-k && a.extent(2)==l && a.size()==n*(m-k)*l,"extents after erase"); if(j<p) vf_close(a[i][j][h],w,0,"surviving element keeps its value"); else vf_close(a[i][j-k][h],w,0,"surviving element keeps its value"); }
VF(A02_resize1){ size_t n=SZ(n),s=SZ(s); PRE(n<=LIM&&s<=LIM); A1 a({n},no_init); vf_fill(a.get_data(),n); IX(i,n); double w=a[i];
  a.resize(0,s);
  vf_assert(a.size()==s && a.extent(0)==s,"resize sets the extent"); if(i<s) vf_close(a[i],w,0,"surviving element keeps its value"); IX(q,s); if(q>=n) vf_close(a[q],0,0,"new element is value-initialised"); }
VF(A02_resize2d0){ size_t n=SZ(n),m=SZ(m),s=SZ(s); PRE2(n,m); PRE2(s,m); A2 a({n,m},no_init); vf_fill(a.get_data(),n*m); IX(i,n); IX(j,m); double w=a[i][j];
  a.resize(0,s);
  vf_assert(a.extent(0)==s && a.extent(1)==m && a.size()==s*m,"resize sets the extents"); if(i<s) vf_close(a[i][j],w,0,"surviving element keeps its value"); IX(q,s); if(q>=n) vf_close(a[q][j],0,0,"new element is value-initialised"); }
VF(A02_resize2d1){ size_t n=SZ(n),m=SZ(m),s=SZ(s); PRE2(n,m); PRE2(n,s); A2 a({n,m},no_init); vf_fill(a.get_data(),n*m); IX(i,n); IX(j,m); double w=a[i][j];
  a.resize(1,s);
  vf_assert(a.extent(0)==n && a.extent(1)==s && a.size()==n*s,"resize sets the extents"); if(j<s) vf_close(a[i][j],w,0,"surviving element keeps its value"); IX(q,s); if(q>=m) vf_close(a[i][q],0,0,"new element is value-initialised"); }
VF(A02_resizeall){ size_t n=SZ(n),m=SZ(m),s=SZ(s),t=SZ(t); PRE2(n,m); PRE2(s,m); PRE2(s,t); A2 a({n,m},no_init); vf_fill(a.get_data(),n*m); IX(i,n); IX(j,m); double w=a[i][j];
  std::array<size_t,2> e{{s,t}}; a.resize(e);
  vf_assert(a.extent(0)==s && a.extent(1)==t && a.size()==s*t,"resize sets all extents"); if(i<s && j<t) vf_close(a[i][j],w,0,"surviving element keeps its value"); }

// ---------------------------------------------------------------- A03 shape bookkeeping
VF(A03_ctor){ size_t n=SZ0(n),m=SZ0(m); PRE2(n,m); A2 a({n,m}); std::array<size_t,2> d{{n,m}}; A2 b(d); A2 c(d,no_init);
  vf_assert(a.extent(0)==n && a.extent(1)==m && a.size()==n*m && a.empty()==(n*m==0) && a.rank()==2,"extents, size and rank as requested");
  vf_assert(b.extent(0)==n && b.extent(1)==m && b.size()==n*m,"index-container constructor"); vf_assert(c.extent(0)==n && c.extent(1)==m && c.size()==n*m && c.get_extents()==d,"no_init constructor");
  if(n*m>0){ IX(i,n); IX(j,m); vf_close(a[i][j],0,0,"elements are value-initialised"); vf_close(b[i][j],0,0,"elements are value-initialised (container)"); } }
VF(A03_empty){ A1 a; A2 b; A3 c; vf_assert(a.size()==0 && a.empty() && a.extent(0)==0,"default rank 1 array is empty"); vf_assert(b.size()==0 && b.extent(0)==0 && b.extent(1)==0 && b.begin()==b.end(),"default rank 2 array is empty"); vf_assert(c.size()==0 && c.extent(2)==0,"default rank 3 array is empty"); }
VF(A03_reshape){ size_t n=SZ(n),m=SZ(m),s=SZ(s),t=SZ(t); PRE2(n,m); PRE2(s,t); A2 a({n,m},no_init); vf_fill(a.get_data(),n*m); IX(i,n); IX(j,m); double w=a[i][j]; const double* d=a.get_data(); std::array<size_t,2> e{{s,t}};
  bool threw=false; try{ a.reshape(e); }catch(std::logic_error&){ threw=true; }
  vf_assert(threw==(n*m!=s*t),"reshape rejects exactly the incompatible shapes"); vf_assert(a.size()==n*m && a.extent(0)==(threw?n:s) && a.extent(1)==(threw?m:t),"extents after reshape"); vf_assert(a.get_data()==d,"reshape keeps the storage"); vf_close(a.get_data()[i*m+j],w,0,"reshape keeps iteration order"); }
VF(A03_badrank){ size_t n=SZ(n),m=SZ(m); PRE2(n,m); bool t1=false,t2=false,t3=false,t4=false; std::array<size_t,3> d{{n,m,1}}; std::array<size_t,1> d1{{n}};
  try{ A2 a({n}); }catch(std::logic_error&){ t1=true; } try{ A2 a({n,m,1},no_init); }catch(std::logic_error&){ t2=true; } try{ A2 a(d); }catch(std::logic_error&){ t3=true; }
  A2 b({1,1}); try{ b.reshape(d1); }catch(std::logic_error&){ t4=true; } vf_assert(t1,"too few extents are rejected"); vf_assert(t2,"too many extents are rejected"); vf_assert(t3,"a container of the wrong size is rejected"); vf_assert(t4,"reshape to another rank is rejected"); 
  bool t5=false; try{ b.resize(d); }catch(std::logic_error&){ t5=true; } vf_assert(t5,"resize to another rank is rejected"); vf_assert(b.size()==1 && b.extent(0)==1 && b.extent(1)==1,"a rejected call changes nothing"); }
VF(A03_nested){ double v[6]; for(int i=0;i<6;i++) v[i]=vf_real("v"); A2 a({2,3},{{v[0],v[1],v[2]},{v[3],v[4],v[5]}}); A1 b({3},{v[0],v[1],v[2]}); A3 c({1,2,2},{{{v[0],v[1]},{v[2],v[3]}}});
  for(int i=0;i<2;i++) for(int j=0;j<3;j++) vf_close(a[i][j],v[3*i+j],0,"nested initialiser, rank 2"); for(int j=0;j<3;j++) vf_close(b[j],v[j],0,"nested initialiser, rank 1"); for(int i=0;i<2;i++) for(int j=0;j<2;j++) vf_close(c[0][i][j],v[2*i+j],0,"nested initialiser, rank 3");
  a={{v[5],v[4],v[3]},{v[2],v[1],v[0]}}; for(int i=0;i<2;i++) for(int j=0;j<3;j++) vf_close(a[i][j],v[5-3*i-j],0,"assignment from a nested initialiser"); }
VF(A03_nestedbad){ double v=vf_real("v"); bool t1=false,t2=false,t3=false; try{ A2 a({2,2},{{v,v},{v}}); }catch(std::logic_error&){ t1=true; } try{ A2 a({2,2},{{v,v}}); }catch(std::logic_error&){ t2=true; }
  A2 a({1,2},{{v,v}}); try{ a={{v,v,v}}; }catch(std::logic_error&){ t3=true; } vf_assert(t1,"a ragged initialiser is rejected"); vf_assert(t2,"a short initialiser is rejected"); vf_assert(t3,"assignment from a wrong shape is rejected"); vf_assert(a.size()==2 && a.extent(1)==2,"a rejected assignment keeps the shape"); vf_close(a[0][1],v,0,"a rejected assignment keeps the contents"); }
VF(A03_range){ size_t n=SZ(n),m=SZ(m),t=SZ(t); PRE2(n,m); PRE(t<=LIM); double* v=vf_reals("v",t); bool threw=false; IX(i,n); IX(j,m);
  try{ A2 a({n,m},v,v+t); vf_assert(a.size()==n*m && a.extent(0)==n && a.extent(1)==m,"iterator-range constructor sets the extents"); vf_close(a[i][j],v[i*m+j],0,"values are stored in iteration order"); }catch(std::logic_error&){ threw=true; }
  vf_assert(threw==(t!=n*m),"exactly a range of the wrong length is rejected"); }

// ---------------------------------------------------------------- A04 value semantics
VF(A04_copy){ size_t n=SZ0(n),m=SZ0(m); PRE2(n,m); A2 a({n,m},no_init); vf_fill(a.get_data(),n*m); A2 b(a);
  vf_assert(b.size()==n*m && b.extent(0)==n && b.extent(1)==m && a.size()==n*m && a.extent(0)==n && a.extent(1)==m,"copy has the same shape, source keeps its shape");
  if(n*m>0){ IX(i,n); IX(j,m); double w=a[i][j]; vf_assert(a.get_data()!=b.get_data(),"copy owns its own storage"); vf_close(b[i][j],w,0,"copy has the same elements"); double v=vf_real("v"); b[i][j]=v; vf_close(a[i][j],w,0,"writing the copy leaves the source alone"); a[i][j]=w+1; vf_close(b[i][j],v,0,"writing the source leaves the copy alone"); } }
VF(A04_move){ size_t n=SZ0(n),m=SZ0(m); PRE2(n,m); A2 a({n,m},no_init); vf_fill(a.get_data(),n*m); double* d=a.get_data(); double w=0; size_t i=0,j=0; if(n*m>0){ i=vf_index("i",n); j=vf_index("j",m); w=a[i][j]; }
  A2 b(std::move(a)); vf_assert(b.size()==n*m && b.extent(0)==n && b.extent(1)==m,"move keeps the shape"); vf_assert(a.size()==0 && a.empty() && a.begin()==a.end() && a.extent(0)==0 && a.extent(1)==0,"moved-from array is empty"); vf_assert(b.get_data()==d,"move transfers the storage"); if(n*m>0) vf_close(b[i][j],w,0,"move keeps the elements"); }
VF(A04_copyassign){ size_t n=SZ(n),m=SZ(m),s=SZ0(s),t=SZ0(t); PRE2(n,m); PRE2(s,t); A2 a({n,m},no_init); vf_fill(a.get_data(),n*m); A2 b({s,t},no_init); IX(i,n); IX(j,m); double w=a[i][j];
  A2& r=(b=a); vf_assert(&r==&b,"assignment returns its target"); vf_assert(b.size()==n*m && b.extent(0)==n && b.extent(1)==m && a.size()==n*m,"assigned array has the source's shape"); vf_close(b[i][j],w,0,"assigned array has the source's elements"); vf_close(a[i][j],w,0,"source keeps its elements"); vf_assert(a.get_data()!=b.get_data(),"no shared storage");
  const A2& al=b; b=al; vf_assert(b.size()==n*m,"self-assignment keeps the shape"); vf_close(b[i][j],w,0,"self-assignment keeps the elements"); }
VF(A04_moveassign){ size_t n=SZ(n),m=SZ(m),s=SZ(s),t=SZ(t); PRE2(n,m); PRE2(s,t); A2 a({n,m},no_init); vf_fill(a.get_data(),n*m); A2 b({s,t},no_init); vf_fill(b.get_data(),s*t); IX(i,n); IX(j,m); double w=a[i][j];
  b=std::move(a); vf_assert(b.size()==n*m && b.extent(0)==n && b.extent(1)==m,"move assignment takes the source's shape"); vf_close(b[i][j],w,0,"move assignment takes the source's elements"); vf_assert(a.size()==a.extent(0)*a.extent(1) && size_t(a.end()-a.begin())==a.size(),"moved-from array stays consistent"); 
  a=b; vf_assert(a.size()==n*m && a.extent(0)==n,"moved-from array can be assigned to"); vf_close(a[i][j],w,0,"assigning to a moved-from array"); }
VF(A04_swap){ size_t n=SZ(n),m=SZ(m),s=SZ(s),t=SZ(t); PRE2(n,m); PRE2(s,t); A2 a({n,m},no_init); vf_fill(a.get_data(),n*m); A2 b({s,t},no_init); vf_fill(b.get_data(),s*t); IX(i,n); IX(j,m); double w=a[i][j]; IX(k,s); IX(l,t); double x=b[k][l];
  a.swap(b); vf_assert(a.size()==s*t && a.extent(0)==s && a.extent(1)==t && b.size()==n*m && b.extent(0)==n && b.extent(1)==m,"swap exchanges shapes"); vf_close(b[i][j],w,0,"swap exchanges elements"); vf_close(a[k][l],x,0,"swap exchanges elements (other)"); }
// element type whose copy may throw at any time; live counts constructed minus destroyed objects
struct Thrower{ double v; static long live; static bool armed;
  Thrower():v(0){ ++live; }
  Thrower(const Thrower& o):v(o.v){ if(armed && vf_bool("throws")) throw 1; ++live; }
  Thrower& operator=(const Thrower& o){ if(armed && vf_bool("assign throws")) throw 1; v=o.v; return *this; }
  ~Thrower(){ --live; } };
long Thrower::live=0; bool Thrower::armed=false;
typedef marray<Thrower,2> T2; typedef marray<Thrower,1> T1;
VF(A04_throwcopy){ size_t n=SZ(n),m=SZ(m); PRE2(n,m); Thrower::live=0; Thrower::armed=false; bool threw=false; { T2 a({n,m}); vf_assert(Thrower::live==long(n*m),"one object per element"); IX(i,n); IX(j,m); double w=vf_real("w"); a[i][j].v=w; Thrower::armed=true;
    try{ T2 b(a); vf_close(b[i][j].v,w,0,"copy has the same elements"); vf_assert(Thrower::live==2*long(n*m),"copy constructs one object per element"); }catch(int){ threw=true; }
    vf_assert(Thrower::live==long(n*m),"a failed copy destroys exactly what it constructed"); vf_assert(a.size()==n*m && a.extent(0)==n && a.extent(1)==m,"source shape untouched"); vf_close(a[i][j].v,w,0,"source element untouched"); }
  vf_assert(Thrower::live==0,"every object is destroyed exactly once"); }
VF(A04_throwassign){ size_t n=SZ(n),m=SZ(m),s=SZ(s),t=SZ(t); PRE2(n,m); PRE2(s,t); Thrower::live=0; Thrower::armed=false; bool threw=false; { T2 a({n,m}); T2 b({s,t}); IX(i,n); IX(j,m); double w=vf_real("w"); a[i][j].v=w; IX(k,s); IX(l,t); double x=vf_real("x"); b[k][l].v=x; Thrower::armed=true;
    try{ b=a; }catch(int){ threw=true; }
    Thrower::armed=false;
    if(threw){ vf_assert(b.size()==s*t && b.extent(0)==s && b.extent(1)==t,"a failed assignment leaves the target's shape"); vf_close(b[k][l].v,x,0,"a failed assignment leaves the target's elements"); vf_assert(Thrower::live==long(n*m)+long(s*t),"a failed assignment constructs nothing that stays"); }
    else{ vf_assert(b.size()==n*m && b.extent(0)==n && b.extent(1)==m,"assignment takes the shape"); vf_close(b[i][j].v,w,0,"assignment takes the elements"); }
    vf_close(a[i][j].v,w,0,"source untouched"); }
  vf_assert(Thrower::live==0,"every object is destroyed exactly once"); }
VF(A04_throwinsert){ size_t n=SZ(n),k=SZ0(k); PRE(n+k<=LIM); Thrower::live=0; Thrower::armed=false; bool threw=false; { T1 a({n}); IX(i,n); double w=vf_real("w"); a[i].v=w; size_t p=vf_index("p",n+1); Thrower::armed=true;
    { Thrower z; Thrower::armed=true; try{ a.insert(0,p,k,z); }catch(int){ threw=true; } Thrower::armed=false; }
    if(threw){ vf_assert(a.size()==n && a.extent(0)==n,"a failed insert leaves the shape"); vf_close(a[i].v,w,0,"a failed insert leaves the elements"); }
    else{ vf_assert(a.size()==n+k,"insert grows the array"); if(i<p) vf_close(a[i].v,w,0,"surviving element keeps its value"); else vf_close(a[i+k].v,w,0,"surviving element keeps its value"); } }
  vf_assert(Thrower::live==0,"every object is destroyed exactly once"); }
VF(A04_throwerase){ size_t n=SZ(n); PRE(n<=LIM); Thrower::live=0; Thrower::armed=false; bool threw=false; { T1 a({n}); IX(i,n); double w=vf_real("w"); a[i].v=w; size_t p=vf_index("p",n), k=vf_size("k",0,BIG,4); PRE(p+k<=n); PRE(i<p||i>=p+k); Thrower::armed=true;
    try{ a.erase(0,p,k); }catch(int){ threw=true; } Thrower::armed=false;
    if(threw){ vf_assert(a.size()==n && a.extent(0)==n,"a failed erase leaves the shape"); vf_close(a[i].v,w,0,"a failed erase leaves the elements"); vf_assert(Thrower::live==long(n),"a failed erase destroys exactly what it constructed"); }
    else{ vf_assert(a.size()==n-k,"erase shrinks the array"); vf_assert(Thrower::live==long(n-k),"erase leaves one object per element"); if(i<p) vf_close(a[i].v,w,0,"surviving element keeps its value"); else vf_close(a[i-k].v,w,0,"surviving element keeps its value"); } }
  vf_assert(Thrower::live==0,"every object is destroyed exactly once"); }
VF(A04_throwctor){ size_t n=SZ(n),m=SZ(m); PRE2(n,m); bool threw=false; Thrower::live=0; Thrower::armed=false; { Thrower z; Thrower::armed=true; try{ marray<Thrower,2> a({1,2},{{z,z}}); vf_assert(a.size()==2,"size"); }catch(int){ threw=true; } Thrower::armed=false; } vf_assert(Thrower::live==0,"every object is destroyed exactly once"); }

// ---------------------------------------------------------------- A05 elementwise arithmetic
#define TWO A2 a({n,m},no_init); vf_fill(a.get_data(),n*m); A2 b({n,m},no_init); vf_fill(b.get_data(),n*m); IX(i,n); IX(j,m); const A2& ca=a; const A2& cb=b; double x=a[i][j], y=b[i][j]; double f=vf_real("f")
#define SAME(r,m_) vf_assert((r).size()==n*m && (r).extent(0)==n && (r).extent(1)==m,m_ " has the operands' shape")
VF(A05_same){ size_t n=SZ(n),m=SZ(m); PRE2(n,m); TWO; PRE(y!=0);
  { auto r=ca+cb; SAME(r,"sum"); vf_close(r[i][j],x+y,0,"a+b is elementwise"); } { auto r=ca-cb; SAME(r,"difference"); vf_close(r[i][j],x-y,0,"a-b is elementwise"); }
  { auto r=ca*cb; SAME(r,"product"); vf_close(r[i][j],x*y,0,"a*b is elementwise"); } { auto r=ca/cb; SAME(r,"quotient"); vf_close(r[i][j],x/y,0,"a/b is elementwise"); }
  { auto r=-ca; SAME(r,"negation"); vf_close(r[i][j],-x,0,"-a is elementwise"); }
  vf_close(a[i][j],x,0,"left operand unchanged"); vf_close(b[i][j],y,0,"right operand unchanged"); }
VF(A05_nonconst){ size_t n=SZ(n),m=SZ(m); PRE2(n,m); TWO; PRE(y!=0);
  { auto r=a+b; SAME(r,"sum"); vf_close(r[i][j],x+y,0,"a+b is elementwise"); } { auto r=a-b; SAME(r,"difference"); vf_close(r[i][j],x-y,0,"a-b is elementwise"); }
  { auto r=a*b; SAME(r,"product"); vf_close(r[i][j],x*y,0,"a*b is elementwise"); } { auto r=a/b; SAME(r,"quotient"); vf_close(r[i][j],x/y,0,"a/b is elementwise"); }
  vf_close(a[i][j],x,0,"left operand unchanged"); vf_close(b[i][j],y,0,"right operand unchanged"); }
VF(A05_assignops){ size_t n=SZ(n),m=SZ(m); PRE2(n,m); TWO; PRE(y!=0);
  { A2 c(a); A2& r=(c+=b); vf_assert(&r==&c,"+= returns its target"); SAME(c,"+="); vf_close(c[i][j],x+y,0,"+= is elementwise"); } { A2 c(a); c-=b; SAME(c,"-="); vf_close(c[i][j],x-y,0,"-= is elementwise"); }
  { A2 c(a); c*=b; SAME(c,"*="); vf_close(c[i][j],x*y,0,"*= is elementwise"); } { A2 c(a); c/=b; SAME(c,"/="); vf_close(c[i][j],x/y,0,"/= is elementwise"); }
  { A2 c(a); c+=a; vf_close(c[i][j],x+x,0,"+= of an equal array doubles"); } vf_close(b[i][j],y,0,"right operand unchanged"); }
VF(A05_rvalueops){ size_t n=SZ(n),m=SZ(m); PRE2(n,m); TWO; PRE(y!=0); PRE(f!=0);
  { A2 c=A2(a)+=b; SAME(c,"rvalue +="); vf_close(c[i][j],x+y,0,"rvalue +="); } { A2 c=A2(a)-=b; vf_close(c[i][j],x-y,0,"rvalue -="); } { A2 c=A2(a)*=b; vf_close(c[i][j],x*y,0,"rvalue *="); } { A2 c=A2(a)/=b; vf_close(c[i][j],x/y,0,"rvalue /="); }
  { A2 c=A2(a)+=f; vf_close(c[i][j],x+f,0,"rvalue += scalar"); } { A2 c=A2(a)-=f; vf_close(c[i][j],x-f,0,"rvalue -= scalar"); } { A2 c=A2(a)*=f; vf_close(c[i][j],x*f,0,"rvalue *= scalar"); } { A2 c=A2(a)/=f; vf_close(c[i][j],x/f,0,"rvalue /= scalar"); } { A2 c=-A2(a); SAME(c,"rvalue negation"); vf_close(c[i][j],-x,0,"rvalue negation"); } }
VF(A05_scalar){ size_t n=SZ(n),m=SZ(m); PRE2(n,m); TWO; PRE(x!=0); PRE(f!=0);
  { A2 r=a+f; SAME(r,"a+f"); vf_close(r[i][j],x+f,0,"a+f is elementwise"); } { A2 r=f+a; SAME(r,"f+a"); vf_close(r[i][j],f+x,0,"f+a is elementwise"); } { A2 r=a-f; SAME(r,"a-f"); vf_close(r[i][j],x-f,0,"a-f is elementwise"); } { A2 r=f-a; SAME(r,"f-a"); vf_close(r[i][j],f-x,0,"f-a is elementwise"); }
  { A2 r=a*f; SAME(r,"a*f"); vf_close(r[i][j],x*f,0,"a*f is elementwise"); } { A2 r=f*a; SAME(r,"f*a"); vf_close(r[i][j],f*x,0,"f*a is elementwise"); } { A2 r=a/f; SAME(r,"a/f"); vf_close(r[i][j],x/f,0,"a/f is elementwise"); }
  vf_close(a[i][j],x,0,"operand unchanged"); A2 c(a); c+=f; vf_close(c[i][j],x+f,0,"+= scalar"); c-=f; vf_close(c[i][j],x,fabs(x)+fabs(f),"-= scalar"); c=a; c*=f; vf_close(c[i][j],x*f,0,"*= scalar"); c/=f; SAME(c,"scalar assignment forms"); vf_close(c[i][j],x,0,"/= scalar"); }
VF(A05_scalardiv){ size_t n=SZ(n); PRE(n<=LIM); A1 a({n},no_init); { double* v=vf_positive("v",n); for(size_t q=0;q<n;q++) a[q]=v[q]; } IX(i,n); double x=a[i], f=vf_real("f"); A1 r=f/a; vf_assert(r.size()==n,"f/a has the operand's shape"); vf_close(r[i],f/x,0,"f/a divides the scalar by each element"); vf_close(a[i],x,0,"operand unchanged"); }
VF(A05_func){ size_t n=SZ(n),m=SZ(m); PRE2(n,m); TWO; { A2 r=exp(ca); SAME(r,"exp"); vf_close(r[i][j],std::exp(x),0,"exp is elementwise"); } { A2 r=sin(ca); vf_close(r[i][j],std::sin(x),0,"sin is elementwise"); } { A2 r=cos(ca); vf_close(r[i][j],std::cos(x),0,"cos is elementwise"); } { A2 r=abs(ca); vf_close(r[i][j],std::abs(x),0,"abs is elementwise"); } { A2 r=tanh(A2(a)); SAME(r,"tanh"); vf_close(r[i][j],std::tanh(x),0,"tanh is elementwise"); } { A2 r=atan2(ca,cb); SAME(r,"atan2"); vf_close(r[i][j],std::atan2(x,y),0,"atan2 is elementwise"); } { A2 r=hypot(ca,cb); vf_close(r[i][j],std::hypot(x,y),0,"hypot is elementwise"); } vf_close(a[i][j],x,0,"operand unchanged"); }
static double& at1(A1& a,size_t i){ return a[a.extent(0)==1?0:i]; }
static double& at2(A2& a,size_t i,size_t j){ return a[a.extent(0)==1?0:i][a.extent(1)==1?0:j]; }
// bounded: every pair of compatible shapes with extents 1..3
VF_B(A05_bcast22){ for(size_t p=1;p<=3;p++) for(size_t q=1;q<=3;q++) for(size_t r=1;r<=3;r++) for(size_t s=1;s<=3;s++){ if((p!=r && p!=1 && r!=1)||(q!=s && q!=1 && s!=1)) continue;
  A2 a({p,q},no_init); vf_fill(a.get_data(),p*q); A2 b({r,s},no_init); vf_fill(b.get_data(),r*s); const A2& ca=a; const A2& cb=b; size_t u=p>r?p:r, v=q>s?q:s; A2 c=ca-cb;
  vf_assert(c.extent(0)==u && c.extent(1)==v && c.size()==u*v,"broadcast shape (2,2)"); for(size_t i=0;i<u;i++) for(size_t j=0;j<v;j++) vf_close(c[i][j],at2(a,i,j)-at2(b,i,j),0,"broadcast element (2,2)"); } }
VF_B(A05_bcast12){ for(size_t q=1;q<=3;q++) for(size_t r=1;r<=3;r++) for(size_t s=1;s<=3;s++){ if(q!=s && q!=1 && s!=1) continue;
  A1 a({q},no_init); vf_fill(a.get_data(),q); A2 b({r,s},no_init); vf_fill(b.get_data(),r*s); const A1& ca=a; const A2& cb=b; size_t v=q>s?q:s; A2 c=ca-cb; A2 d=cb*ca;
  vf_assert(c.extent(0)==r && c.extent(1)==v && d.extent(0)==r && d.extent(1)==v,"broadcast shape (1,2)"); for(size_t i=0;i<r;i++) for(size_t j=0;j<v;j++){ vf_close(c[i][j],at1(a,j)-at2(b,i,j),0,"broadcast element (1,2)"); vf_close(d[i][j],at1(a,j)*at2(b,i,j),0,"broadcast element (2,1)"); } } }
VF_B(A05_bcast13){ for(size_t q=1;q<=2;q++) for(size_t r=1;r<=2;r++) for(size_t s=1;s<=2;s++) for(size_t t=1;t<=3;t+=2){ if(q!=s && q!=1 && s!=1) continue;
  A1 a({q},no_init); vf_fill(a.get_data(),q); A3 b({t,r,s},no_init); vf_fill(b.get_data(),t*r*s); const A1& ca=a; const A3& cb=b; size_t v=q>s?q:s; A3 c=ca+cb;
  vf_assert(c.extent(0)==t && c.extent(1)==r && c.extent(2)==v,"broadcast shape (1,3)"); for(size_t h=0;h<t;h++) for(size_t i=0;i<r;i++) for(size_t j=0;j<v;j++) vf_close(c[h][i][j],at1(a,j)+b[h][i][s==1?0:j],0,"broadcast element (1,3)"); } }
VF_B(A05_bcast23){ size_t p=vf_size("p",1,3,3),q=vf_size("q",1,3,3),t=vf_size("t",1,3,3),r=vf_size("r",1,3,3),s=vf_size("s",1,3,3); bool bad=(p!=r && p!=1 && r!=1)||(q!=s && q!=1 && s!=1);
  A2 a({p,q},no_init); vf_fill(a.get_data(),p*q); A3 b({t,r,s},no_init); vf_fill(b.get_data(),t*r*s); const A2& ca=a; const A3& cb=b; bool threw=false;
  try{ A3 c=ca/cb; size_t u=p>r?p:r, v=q>s?q:s; vf_assert(c.extent(0)==t && c.extent(1)==u && c.extent(2)==v,"broadcast shape (2,3)"); for(size_t h=0;h<t;h++) for(size_t i=0;i<u;i++) for(size_t j=0;j<v;j++){ double e=at2(a,i,j)/b[h][r==1?0:i][s==1?0:j]; if(std::isfinite(e)) vf_close(c[h][i][j],e,0,"broadcast element (2,3)"); } }catch(std::logic_error&){ threw=true; } vf_assert(threw==bad,"exactly incompatible shapes are rejected"); }
VF_B(A05_bcast33){ size_t e1[3],e2[3]; bool bad=false; for(int d=0;d<3;d++){ e1[d]=vf_size("e1",1,3,3); e2[d]=vf_size("e2",1,3,3); if(e1[d]!=e2[d] && e1[d]!=1 && e2[d]!=1) bad=true; } A3 a({e1[0],e1[1],e1[2]},no_init); vf_fill(a.get_data(),a.size()); A3 b({e2[0],e2[1],e2[2]},no_init); vf_fill(b.get_data(),b.size()); const A3& ca=a; const A3& cb=b; bool threw=false;
  try{ A3 c=ca-cb; for(int d=0;d<3;d++) vf_assert(c.extent(d)==std::max(e1[d],e2[d]),"broadcast shape (3,3)"); for(size_t i=0;i<c.extent(0);i++) for(size_t j=0;j<c.extent(1);j++) for(size_t k=0;k<c.extent(2);k++) vf_close(c[i][j][k],a[e1[0]==1?0:i][e1[1]==1?0:j][e1[2]==1?0:k]-b[e2[0]==1?0:i][e2[1]==1?0:j][e2[2]==1?0:k],0,"broadcast element (3,3)"); }catch(std::logic_error&){ threw=true; } vf_assert(threw==bad,"exactly incompatible shapes are rejected"); }
VF_B(A05_bcast11){ size_t p=vf_size("p",0,4,4),q=vf_size("q",0,4,4); A1 a({p},no_init); vf_fill(a.get_data(),p); marray<float,1> b({q}); for(size_t i=0;i<q;i++) b[i]=float(i)+0.5f; const A1& ca=a; bool threw=false; try{ auto c=ca*b; size_t v=p==q?p:(p==1?q:p); vf_assert(c.size()==v,"broadcast shape (1,1)"); for(size_t i=0;i<v;i++) vf_close(c[i],a[p==1?0:i]*b[q==1?0:i],0,"broadcast element (1,1)"); }catch(std::logic_error&){ threw=true; } vf_assert(threw==(p!=q && p!=1 && q!=1),"exactly incompatible shapes are rejected"); }

// ---------------------------------------------------------------- A06 reductions
VF(A06_sum){ size_t n=SZ0(n); PRE(n<=LIM); A1 a({n},no_init); double* v=vf_reals("v",n); for(size_t q=0;q<n;q++) a[q]=v[q]; double s=0,z=0; for(size_t q=0;q<n;q++){ s+=v[q]; } vf_close(a.sum(),s,1e3,"sum() adds every element once"); (void)z; }
VF_B(A06_sum2){ for(size_t p=1;p<=3;p++) for(size_t q=1;q<=3;q++){ A2 a({p,q},no_init); vf_fill(a.get_data(),p*q); A1 r=a.sum(0), c=a.sum(1); A2 rs=a.sum_same_rank(0), cs=a.sum_same_rank(1); vf_assert(r.extent(0)==q && c.extent(0)==p && rs.extent(0)==1 && rs.extent(1)==q && cs.extent(0)==p && cs.extent(1)==1,"shape of sums");
  for(size_t j=0;j<q;j++){ double t=0; for(size_t i=0;i<p;i++) t+=a[i][j]; vf_close(r[j],t,100,"sum(0)"); vf_close(rs[0][j],t,100,"sum_same_rank(0)"); } for(size_t i=0;i<p;i++){ double t=0; for(size_t j=0;j<q;j++) t+=a[i][j]; vf_close(c[i],t,100,"sum(1)"); vf_close(cs[i][0],t,100,"sum_same_rank(1)"); } } }
VF_B(A06_sum3){ for(size_t p=1;p<=2;p++) for(size_t q=1;q<=3;q++) for(size_t s=1;s<=2;s++){ A3 a({p,q,s},no_init); vf_fill(a.get_data(),p*q*s); A2 x=a.sum(0),y=a.sum(1),z=a.sum(2); A3 ys=a.sum_same_rank(1); vf_assert(x.extent(0)==q && x.extent(1)==s && y.extent(0)==p && y.extent(1)==s && z.extent(0)==p && z.extent(1)==q && ys.extent(1)==1 && ys.extent(0)==p && ys.extent(2)==s,"shape of sums (3)");
  for(size_t j=0;j<q;j++) for(size_t k=0;k<s;k++){ double t=0; for(size_t i=0;i<p;i++) t+=a[i][j][k]; vf_close(x[j][k],t,100,"sum(0) (3)"); } for(size_t i=0;i<p;i++) for(size_t k=0;k<s;k++){ double t=0; for(size_t j=0;j<q;j++) t+=a[i][j][k]; vf_close(y[i][k],t,100,"sum(1) (3)"); vf_close(ys[i][0][k],t,100,"sum_same_rank(1) (3)"); } for(size_t i=0;i<p;i++) for(size_t j=0;j<q;j++){ double t=0; for(size_t k=0;k<s;k++) t+=a[i][j][k]; vf_close(z[i][j],t,100,"sum(2) (3)"); } } }
