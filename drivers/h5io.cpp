// Contracts for the HDF5 helpers of include/nuSQuIDS/tools.h and src/tools.cpp.
#include <cstdint>
#include <array>
#include <vector>
#include <string>
#include <stdexcept>
#include <utility>
#include <nuSQuIDS/marray.h>
#include <nuSQuIDS/tools.h>
#include "vf.h"
#include "h5store.h"
using namespace nusquids;
typedef marray<double,1> A1; typedef marray<double,2> A2; typedef marray<double,3> A3;
static const size_t LIM=size_t(1)<<40;
namespace{
unsigned level(){ return vf_bool("compressed")?(unsigned)vf_int("level",1,9,1,9):0; }
template<class F> bool refused(F f){ try{ f(); }catch(std::runtime_error&){ return true; } return false; }
}
// ---------------------------------------------------------------- arrays
VF(F01_array1){ size_t n=vf_size("n",1,LIM,9),m=vf_size("m",0,LIM,9); Store S; A1 a({n},detail::no_init); vf_fill(a.get_data(),n); A1 b({m},detail::no_init); vf_fill(b.get_data(),m);
  writeArrayH5<double>(S.group,"table",a); vf_assert(S.closed(),"every identifier is closed"); readArrayH5(S.group,"table",b); vf_assert(S.closed(),"every identifier is closed");
  vf_assert(b.extent(0)==n && b.size()==n,"extents are restored"); size_t i=vf_index("i",n); vf_close(b[i],a[i],0,"elements are restored"); }
VF(F01_array2){ size_t n=vf_size("n",1,LIM,5),k=vf_size("k",1,LIM,5); vf_fits(LIM,n,k); Store S; A2 a({n,k},detail::no_init); vf_fill(a.get_data(),n*k); A2 b;
  writeArrayH5<double>(S.group,"table",a); vf_assert(S.closed(),"every identifier is closed"); readArrayH5(S.group,"table",b); vf_assert(S.closed(),"every identifier is closed");
  vf_assert(b.extent(0)==n && b.extent(1)==k && b.size()==n*k,"extents are restored"); size_t i=vf_index("i",n),j=vf_index("j",k); vf_close(b[i][j],a[i][j],0,"elements are restored"); }
VF(F01_array3){ size_t n=vf_size("n",1,LIM,4),k=vf_size("k",1,LIM,4),l=vf_size("l",1,LIM,4); vf_fits(LIM,n,k,l); Store S; A3 a({n,k,l},detail::no_init); vf_fill(a.get_data(),n*k*l); A3 b;
  writeArrayH5<double>(S.group,"table",a); readArrayH5(S.group,"table",b); vf_assert(S.closed(),"every identifier is closed");
  vf_assert(b.extent(0)==n && b.extent(1)==k && b.extent(2)==l && b.size()==n*k*l,"extents are restored"); size_t i=vf_index("i",n),j=vf_index("j",k),q=vf_index("q",l); vf_close(b[i][j][q],a[i][j][q],0,"elements are restored"); }
// a target that holds something else already
VF(F01_array2_over){ size_t n=vf_size("n",1,LIM,5),k=vf_size("k",1,LIM,5),u=vf_size("u",1,LIM,5),v=vf_size("v",1,LIM,5); vf_fits(LIM,n,k); vf_fits(LIM,u,v); vf_fits(LIM,n,v); vf_fits(LIM,u,k); Store S; A2 a({n,k},detail::no_init); vf_fill(a.get_data(),n*k); A2 b({u,v},detail::no_init); vf_fill(b.get_data(),u*v);
  writeArrayH5<double>(S.group,"table",a); readArrayH5(S.group,"table",b); vf_assert(S.closed(),"every identifier is closed");
  vf_assert(b.extent(0)==n && b.extent(1)==k && b.size()==n*k,"extents are restored"); size_t i=vf_index("i",n),j=vf_index("j",k); vf_close(b[i][j],a[i][j],0,"elements are restored"); }
VF(F01_array_empty){ Store S; size_t n=vf_size("n",0,LIM,9),m=vf_size("m",0,LIM,5); vf_assume(n==0 || m==0); A2 a({n,m},detail::no_init),b({1,1}); writeArrayH5<double>(S.group,"table",a); readArrayH5(S.group,"table",b); vf_assert(S.closed(),"every identifier is closed"); vf_assert(b.extent(0)==n && b.extent(1)==m && b.size()==0,"extents are restored"); }
VF(F01_compressed1){ size_t n=vf_size("n",1,LIM,9),b0=(size_t)vf_int("level",1,9,1,9); Store S; A1 a({n},detail::no_init),b; vf_fill(a.get_data(),n); writeArrayH5<double>(S.group,"table",a,(unsigned)b0); vf_assert(S.closed(),"every identifier is closed"); readArrayH5(S.group,"table",b); vf_assert(S.closed(),"every identifier is closed"); vf_assert(b.extent(0)==n,"extents are restored"); size_t i=vf_index("i",n); vf_close(b[i],a[i],0,"elements are restored"); }
VF(F01_compressed2){ size_t n=vf_size("n",1,LIM,7),k=vf_size("k",1,LIM,7); vf_fits(LIM,n,k); Store S; A2 a({n,k},detail::no_init),b; vf_fill(a.get_data(),n*k); writeArrayH5<double>(S.group,"table",a,(unsigned)vf_int("level",1,9,1,9)); vf_assert(S.closed(),"every identifier is closed"); readArrayH5(S.group,"table",b); vf_assert(S.closed(),"every identifier is closed"); vf_assert(b.extent(0)==n && b.extent(1)==k,"extents are restored"); size_t i=vf_index("i",n),j=vf_index("j",k); vf_close(b[i][j],a[i][j],0,"elements are restored"); }
VF(F01_two){ size_t n=vf_size("n",1,LIM,9),m=vf_size("m",1,LIM,9); Store S; A1 a({n},detail::no_init),b({m},detail::no_init),c,d; vf_fill(a.get_data(),n); vf_fill(b.get_data(),m); writeArrayH5<double>(S.group,"first",a); writeArrayH5<double>(S.group,"second",b); readArrayH5(S.group,"first",c); readArrayH5(S.group,"second",d); vf_assert(S.closed(),"every identifier is closed");
  vf_assert(c.extent(0)==n && d.extent(0)==m,"each name has its own array"); size_t i=vf_index("i",n),j=vf_index("j",m); vf_close(c[i],a[i],0,"each name has its own array"); vf_close(d[j],b[j],0,"each name has its own array"); }
VF(F01_rank){ size_t n=vf_size("n",1,LIM,5),k=vf_size("k",1,LIM,5),m=vf_size("m",1,LIM,5); vf_fits(LIM,n,k); Store S; A2 a({n,k},detail::no_init); vf_fill(a.get_data(),n*k); A1 b({m},detail::no_init); vf_fill(b.get_data(),m); size_t i=vf_index("i",m); double w=b[i]; writeArrayH5<double>(S.group,"table",a);
  vf_assert(refused([&]{ readArrayH5(S.group,"table",b); }),"an array of another rank is refused"); vf_assert(S.closed(),"every identifier is closed"); vf_assert(b.extent(0)==m,"the target is unchanged"); vf_close(b[i],w,0,"the target is unchanged"); }
VF(F01_rank3){ size_t n=vf_size("n",1,LIM,5); Store S; A1 a({n},detail::no_init); vf_fill(a.get_data(),n); A3 b; writeArrayH5<double>(S.group,"table",a); vf_assert(refused([&]{ readArrayH5(S.group,"table",b); }),"an array of another rank is refused"); vf_assert(S.closed(),"every identifier is closed"); }
VF(F01_missing){ size_t m=vf_size("m",1,LIM,5); Store S; A1 b({m},detail::no_init); vf_fill(b.get_data(),m); size_t i=vf_index("i",m); double w=b[i]; vf_assert(!h5ObjectExists(S.group,"table"),"nothing there yet"); vf_assert(refused([&]{ readArrayH5(S.group,"table",b); }),"a missing array is refused"); vf_assert(S.closed(),"every identifier is closed"); vf_assert(b.extent(0)==m,"the target is unchanged"); vf_close(b[i],w,0,"the target is unchanged"); }
VF(F01_taken){ size_t n=vf_size("n",1,LIM,5),m=vf_size("m",1,LIM,5); Store S; A1 a({n},detail::no_init),b({m},detail::no_init),c; vf_fill(a.get_data(),n); vf_fill(b.get_data(),m); unsigned l=level(); writeArrayH5<double>(S.group,"table",a); vf_assert(h5ObjectExists(S.group,"table"),"a written array exists"); vf_assert(!h5ObjectExists(S.group,"tables"),"other names do not exist");
  vf_assert(refused([&]{ writeArrayH5<double>(S.group,"table",b,l); }),"a name that is taken is refused"); vf_assert(S.closed(),"every identifier is closed"); readArrayH5(S.group,"table",c); vf_assert(c.extent(0)==n,"the first array is kept"); size_t i=vf_index("i",n); vf_close(c[i],a[i],0,"the first array is kept"); }
// ---------------------------------------------------------------- attributes
VF(F01_double){ Store S; double x=vf_real("x"),y=vf_real("y"),u=vf_real("u"),v=vf_real("v"); addH5Attribute(S.group,"x",x); addH5Attribute(S.group,"y",y); readH5Attribute(S.group,"y",v); readH5Attribute(S.group,"x",u); vf_close(u,x,0,"value"); vf_close(v,y,0,"value"); vf_assert(S.closed(),"every identifier is closed"); }
VF(F01_int){ Store S; int x=(int)vf_int("x",-2147483647-1,2147483647,-1000,1000),u=0; unsigned y=(unsigned)vf_int("y",0,4294967295L,0,4000),v=0; addH5Attribute(S.group,"x",x); addH5Attribute(S.group,"y",y); readH5Attribute(S.group,"x",u); readH5Attribute(S.group,"y",v); vf_assert(u==x,"value"); vf_assert(v==y,"value"); vf_assert(S.closed(),"every identifier is closed"); }
namespace{
template<class T> void wrong(T x,T y,int w){ Store S; T z=y; switch(w){ case 0: addH5Attribute(S.group,"x",1.5); break; case 1: addH5Attribute(S.group,"x",3u); break; case 2: addH5Attribute(S.group,"x",3); break; case 3: addH5Attribute(S.group,"x",std::string("text")); break; default: ; }
  vf_assert(refused([&]{ readH5Attribute(S.group,"x",y); }),"an attribute of another type, or a missing one, is refused"); vf_assert(y==z,"the target is unchanged"); vf_assert(S.closed(),"every identifier is closed"); }
}
VF(F01_wrong_double){ int w=(int)vf_int("w",1,4,1,4); double x=vf_real("x"); wrong<double>(x,x,w); }
VF(F01_wrong_unsigned){ int w=(int)vf_int("w",0,3,0,3); if(w==1) w=4; wrong<unsigned>(7,9,w); }
VF(F01_wrong_int){ int w=(int)vf_int("w",0,3,0,3); if(w==2) w=4; wrong<int>(7,9,w); }
VF(F01_wrong_string){ int w=(int)vf_int("w",0,3,0,3); if(w==3) w=4; wrong<std::string>("a","b",w); }
namespace{
void text(size_t n){ Store S; const char* c=vf_bytes("c",n); if(n==1) vf_assume(c[0]!=0); std::string s(c,n),t("something else"),u; addH5Attribute(S.group,"a",s); addH5Attribute<std::string>(S.group,"b","other"); vf_assert(S.closed(),"every identifier is closed"); readH5Attribute(S.group,"a",t); readH5Attribute(S.group,"b",u); vf_assert(S.closed(),"every identifier is closed");
  vf_assert(t.size()==n,"length"); if(n>0){ size_t k=n==1?0:vf_index("k",n); vf_assert(t[k]==c[k],"characters"); } vf_assert(u=="other","each name has its own text"); }
}
VF(F01_string){ text(vf_size("n",0,size_t(1)<<20,40)); }
// ---------------------------------------------------------------- identifiers that close themselves
namespace{
int closes[4];
bool mixed;                                           // some identifier was given to another handle's deleter
template<int I> herr_t closer_of(hid_t h){ if(h!=I) mixed=true; if(h>=0 && h<4) closes[h]++; return 0; }
herr_t closer(hid_t h){ if(h>=0 && h<4) closes[h]++; return 0; }
}
VF(F01_handle){ int w=(int)vf_int("w",0,5,0,5); for(int& c:closes) c=0; mixed=false;
  { H5Handle a(1,closer_of<1>,"a"); vf_assert(a.get()==1 && hid_t(a)==1,"the identifier"); 
    if(w==1){ H5Handle b(std::move(a)); vf_assert(b.get()==1,"moved"); }
    else if(w==2){ H5Handle b(2,closer_of<2>,"b"); b=std::move(a); vf_assert(b.get()==1,"moved"); }
    else if(w==3){ H5Handle b; b=std::move(a); vf_assert(b.get()==1,"moved"); }
    else if(w==4){ H5Handle b(2,closer_of<2>,"b"); H5Handle c(3,closer_of<3>,"c"); c=std::move(b); b=std::move(a); a=std::move(c); vf_assert(a.get()==2 && b.get()==1,"moved"); }
    else if(w==5){ H5Handle& b=a; a=std::move(b); vf_assert(a.get()==1,"assigned to itself"); } }
  vf_assert(closes[1]==1,"closed exactly once"); vf_assert(closes[2]==(w==2||w==4),"closed exactly once"); vf_assert(closes[3]==(w==4),"closed exactly once"); vf_assert(closes[0]==0,"nothing else is closed"); vf_assert(!mixed,"each identifier is closed by its own deleter"); }
VF(F01_handle_bad){ for(int& c:closes) c=0; bool d=vf_bool("described"); long h=vf_int("h",-9223372036854775807L-1,-1,-3,-1); bool r=false; try{ H5Handle a(h,closer,d?"do it":nullptr); }catch(std::runtime_error&){ r=true; } vf_assert(r,"an invalid identifier is refused"); for(int c:closes) vf_assert(c==0,"nothing is closed"); }
VF(F01_file){ Store S; hid_t f=h5_file(),g=h5_file(); vf_assert(h5_open(f) && h5_open(g),"two files"); int w=(int)vf_int("w",0,2,0,2);
  { H5File a(f); vf_assert(hid_t(a)==f,"the identifier"); if(w==1){ H5File b(std::move(a)); vf_assert(hid_t(b)==f,"moved"); } else if(w==2){ H5File b(g); b=std::move(a); vf_assert(hid_t(b)==f && hid_t(a)==g,"exchanged"); } vf_assert(h5_open(f)==(w==0),"a file is closed by its last owner"); }
  vf_assert(!h5_open(f),"the file is closed"); if(w==2) vf_assert(!h5_open(g),"the file is closed"); else h5_close(g); }
