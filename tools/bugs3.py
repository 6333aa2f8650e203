BH = '''#include <hdf5.h>
#include <nuSQuIDS/body.h>
#include <SQuIDS/const.h>
#include <cstdio>
#include <cmath>
#include <iostream>
#include <unistd.h>
using namespace nusquids;
static squids::Const U;
static std::vector<double> X{0.1,0.3,0.5,0.7,0.9},Y{12,10,8,5,3},Z{0.2,0.3,0.4,0.45,0.48};
static bool near(double a,double b){ return std::fabs(a-b)<=1e-9*(1+std::fabs(a)+std::fabs(b)); }
static hid_t file(){ hid_t p=H5Pcreate(H5P_FILE_ACCESS); H5Pset_fapl_core(p,1<<16,0); hid_t f=H5Fcreate("demo.h5",H5F_ACC_TRUNC,H5P_DEFAULT,p); H5Pclose(p); return f; }
#define CHECK(c) do{ if(!(c)){ std::printf("failed: %s\\n",#c); return 1; } }while(0)
'''
TH = '''#include <hdf5.h>
#include <nuSQuIDS/tools.h>
#include <cstdio>
#include <cmath>
#include <string>
using namespace nusquids;
static hid_t file(){ H5open(); H5Eset_auto2(H5E_DEFAULT,nullptr,nullptr); hid_t p=H5Pcreate(H5P_FILE_ACCESS); H5Pset_fapl_core(p,1<<16,0); hid_t f=H5Fcreate("demo.h5",H5F_ACC_TRUNC,H5P_DEFAULT,p); H5Pclose(p); return f; }
#define CHECK(c) do{ if(!(c)){ std::printf("failed: %s\\n",#c); return 1; } }while(0)
'''
BUGS = [
 dict(id='h01-atm-height', property='H01', body=True, needs='an atmosphere height other than the default, set after construction',
  breaks='the radius of the top of the atmosphere is not updated, so densities along tracks for that height are taken at wrong radii',
  edits=[('src/body.cpp', "  atm_height = height;\n  earth_with_atm_radius = radius + atm_height;", "  atm_height = height;\n  earth_with_atm_radius += height - atm_height;")],
  demo=BH + '''int main(){ EarthAtm e(X,Y,Z); e.SetAtmosphereHeight(60); EarthAtm::Track t=e.MakeTrackWithCosine(1); t.SetX(50*U.km); CHECK(near(e.density(t),0.0012*std::exp(-10/7.594))); return 0; }'''),
 dict(id='h01-last-ye', property='H01', body=True, needs='a table that ends below the surface and a position beyond its last radius',
  breaks='beyond the last table radius the Earth reports the electron fraction of its innermost row',
  edits=[('src/body.cpp', """  radius = 6371.0; // [km]
  arraysize = earth_radius.size();

  x_radius_min = earth_radius[0];
  x_radius_max = earth_radius[arraysize-1];
  x_rho_min = earth_density[0];
  x_rho_max = earth_density[arraysize-1];
  x_ye_min = earth_ye[0];
  x_ye_max = earth_ye[arraysize-1];""", """  radius = 6371.0; // [km]
  arraysize = earth_radius.size();

  x_radius_min = earth_radius[0];
  x_radius_max = earth_radius[arraysize-1];
  x_rho_min = earth_density[0];
  x_rho_max = earth_density[arraysize-1];
  x_ye_min = earth_ye[0];
  x_ye_max = earth_ye[0];""")],
  demo=BH + '''int main(){ Earth e(X,Y,Z); Earth::Track t(10*U.km,0,2*6371*U.km,2*6371*U.km); CHECK(near(e.density(t),3)); CHECK(near(e.ye(t),0.48)); return 0; }'''),
 dict(id='h01-sun-chord', property='H01', body=True, needs='a track with an impact parameter, and the electron fraction rather than the density',
  breaks='the electron fraction along a SunASnu track is looked up at the radius of the central track',
  edits=[('src/body.cpp', """  double r = sqrt(SQR(radius)+SQR(x)-2.0*x*sqrt(SQR(radius)-SQR(b)))/radius;
  return 0.5""", """  double r = sqrt(SQR(radius)+SQR(x)-2.0*x*sqrt(SQR(radius)))/radius;
  return 0.5""")],
  demo=BH + '''int main(){ SunASnu s(X,Y,Z); double R=s.GetRadius(),b=0.5*R; SunASnu::Track t(b); double L=t.GetFinalX(); t.SetX(0.5*L); double y=2*s.ye(t)-1; CHECK(std::fabs(y-0.4)<1e-6); return 0; }'''),
 dict(id='h02-cosine-height', property='H02', body=True, needs='an atmosphere height other than the default and a track made from a cosine',
  breaks='tracks made from a cosine always use the default height of the atmosphere',
  edits=[('src/body.cpp', "Track::MakeWithCosine(cosphi, GetRadius()*param.km, GetAtmosphereHeight()*param.km)", "Track::MakeWithCosine(cosphi, GetRadius()*param.km, 22.*param.km)")],
  demo=BH + '''int main(){ EarthAtm e(X,Y,Z); e.SetAtmosphereHeight(40); CHECK(near(e.MakeTrackWithCosine(1).GetBaseline()/U.km,40)); CHECK(near(e.MakeTrack(std::acos(0.25)).GetBaseline(),e.MakeTrackWithCosine(0.25).GetBaseline())); return 0; }'''),
 dict(id='h02-sun-from', property='H02', body=True, needs='a SunASnu track that starts away from zero',
  breaks='the end of the chord is measured from the initial position instead of from the entry point',
  edits=[('src/body.cpp', "  xend = 2.0*sqrt(SQR(radius_nu)-SQR(b_impact));", "  xend = xini + 2.0*sqrt(SQR(radius_nu)-SQR(b_impact));")],
  demo=BH + '''int main(){ double R=694439.0*U.km; SunASnu::Track a(0.3*R),b(0.1*R,0.3*R); CHECK(near(a.GetFinalX(),2*std::sqrt(0.91)*R)); CHECK(near(b.GetFinalX(),a.GetFinalX())); CHECK(near(b.GetInitialX(),0.1*R)); return 0; }'''),
 dict(id='h03-earth-end', property='H03', body=True, needs='an Earth track whose end differs from its baseline',
  breaks='a restored Earth track ends at its baseline',
  edits=[('src/body.cpp', "std::make_shared<Earth::Track>(x_,xini_,xend_,baseline_)", "std::make_shared<Earth::Track>(x_,xini_,baseline_,baseline_)")],
  demo=BH + '''int main(){ hid_t f=file(); Earth::Track t(1,0.5,3,7); t.Serialize(f); auto u=Earth::Track::Deserialize(f); H5Fclose(f); CHECK(u->GetFinalX()==3 && u->GetBaseline()==7 && u->GetInitialX()==0.5 && u->GetX()==1); return 0; }'''),
 dict(id='h03-atm-height', property='H03', body=True, needs='a saved EarthAtm with an atmosphere height other than the default',
  breaks='the height of the atmosphere is saved under a name that is not read back',
  edits=[('src/body.cpp', '  addH5Attribute(group,"atm_height",atm_height);', '  addH5Attribute(group,"atmheight",atm_height);')],
  demo=BH + '''int main(){ hid_t f=file(); EarthAtm e(X,Y,Z); e.SetAtmosphereHeight(35); e.Serialize(f); auto u=EarthAtm::Deserialize(f); H5Fclose(f); CHECK(near(u->GetAtmosphereHeight(),35)); return 0; }'''),
 dict(id='f01-chunk', property='F01', needs='a compressed array of rank 2 or more whose last extent is smaller than the others',
  breaks='chunks are larger than the array, so compressed writing fails',
  edits=[('include/nuSQuIDS/tools.h', "if(dimi>extents[i-1] || dimi==0)", "if(dimi>extents[0] || dimi==0)")],
  demo=TH + '''int main(){ hid_t f=file(); marray<double,2> a({9000,3}),b; for(size_t i=0;i<9000;i++) for(size_t j=0;j<3;j++) a[i][j]=i*10+j; try{ writeArrayH5<double>(f,"a",a,3); readArrayH5(f,"a",b); }catch(std::exception& e){ std::printf("%s\\n",e.what()); return 1; } CHECK(b.extent(0)==9000 && b.extent(1)==3 && b[77][2]==772); H5Fclose(f); return 0; }'''),
 dict(id='f01-rank', property='F01', needs='reading an array into one of higher rank',
  breaks='an array of lower rank is not refused and its missing extents are taken from uninitialised memory',
  edits=[('include/nuSQuIDS/tools.h', "    int raw_dim = H5Sget_simple_extent_ndims(dSpace);", "    int raw_dim = std::max(H5Sget_simple_extent_ndims(dSpace),(int)Rank);")],
  demo=TH + '''int main(){ hid_t f=file(); marray<double,1> a({3}); marray<double,2> b; writeArrayH5<double>(f,"a",a); bool r=false; try{ readArrayH5(f,"a",b); }catch(std::runtime_error&){ r=true; }catch(...){} CHECK(r); H5Fclose(f); return 0; }'''),
 dict(id='f01-type', property='F01', needs='reading a number attribute as another number type',
  breaks='an attribute of another type is converted instead of refused',
  edits=[('include/nuSQuIDS/tools.h', "if(H5Tequal(actualType, expectedType)<=0){", "if(H5Tequal(actualType, expectedType)<0){")],
  demo=TH + '''int main(){ hid_t f=file(); addH5Attribute(f,"a",1.75); int v=5; bool r=false; try{ readH5Attribute(f,"a",v); }catch(std::runtime_error&){ r=true; } CHECK(r && v==5); H5Fclose(f); return 0; }'''),
 dict(id='f01-deleter', property='F01', needs='move assignment between handles of different kinds of object',
  breaks='after a move assignment the handle given up is disposed of with the function of the other one',
  edits=[('include/nuSQuIDS/tools.h', "            std::swap(deleter,other.deleter);", "            deleter=other.deleter;")],
  demo=TH + '''static int a=0,b=0; static herr_t da(hid_t){ a++; return 0; } static herr_t db(hid_t){ b++; return 0; }
int main(){ { H5Handle x(1,da,"x"); { H5Handle y(2,db,"y"); x=std::move(y); } } CHECK(a==1 && b==1); return 0; }'''),
 dict(id='f01-text-tail', property='F01', needs='a text attribute read into a string that held a longer text',
  breaks='the tail of the old text stays behind the one read',
  edits=[('src/tools.cpp', "    dest.resize(size);", "    if(dest.size()<size) dest.resize(size);")],
  demo=TH + '''int main(){ hid_t f=file(); addH5Attribute<std::string>(f,"a","abc"); std::string s("something longer"),t; readH5Attribute(f,"a",t); CHECK(t=="abc"); readH5Attribute(f,"a",s); CHECK(s=="abc"); H5Fclose(f); return 0; }'''),
]
