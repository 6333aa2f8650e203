PRE = r'''
#include <hdf5.h>
#include <nuSQuIDS/xsections.h>
#include <cstdio>
#include <cmath>
using namespace nusquids; typedef NeutrinoCrossSections XS;
static int bad=0; static void near(double a,double b,const char* m){ if(!(std::fabs(a-b)<=1e-5*std::fabs(b))){ std::printf("%s: %g instead of %g\n",m,a,b); bad=1; } }
// tables whose logarithms are linear in the logarithm of the energy and in z, so that they are interpolated exactly
static double tot(int f,int t,double le){ return -38+0.3*le-0.5*f-0.1*t; }
static double dif(int f,int t,double le,double z){ return -37+0.2*le+1.5*z-0.5*f-0.1*t; }
static void put(hid_t loc,int f,size_t ne,size_t nz,int longer=-1){ const char* S[4]={"s_CC_nu","s_NC_nu","s_CC_nubar","s_NC_nubar"}; const char* D[4]={"dsdy_CC_nu","dsdy_NC_nu","dsdy_CC_nubar","dsdy_NC_nubar"};
 for(int t=0;t<4;t++){ size_t n=ne+(t==longer); marray<double,1> s({n}); for(size_t k=0;k<n;k++) s[k]=tot(f,t,11+0.5*k); writeArrayH5<double>(loc,S[t],s,0); marray<double,2> d({nz,ne}); for(size_t i=0;i<nz;i++) for(size_t k=0;k<ne;k++) d[i][k]=dif(f,t,11+0.5*k,i/double(nz-1)); writeArrayH5<double>(loc,D[t],d,0); } }
static void grid(hid_t f,size_t ne,size_t nz){ marray<double,1> e({ne}),z({nz}); for(size_t k=0;k<ne;k++) e[k]=11+0.5*k; for(size_t k=0;k<nz;k++) z[k]=k/double(nz-1); writeArrayH5<double>(f,"energies",e,0); writeArrayH5<double>(f,"zs",z,0); }
static const XS::NeutrinoFlavor FL[3]={XS::electron,XS::muon,XS::tau};
'''
V1 = PRE + r'''
static double s1(int c,int a,int f,size_t k){ return 1+0.1*k+10*f+100*a+1000*c; }
static double d1(int c,int a,int f,size_t k,size_t l){ return l>k?0:2+0.3*k+0.7*l+0.05*k*l+10*f+100*a+1000*c; }
static void old(const char* path,size_t n){ H5File f(H5Fcreate(path,H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT)); addH5Attribute(f,"Emin",std::exp(5.)*1e9); addH5Attribute(f,"Emax",std::exp(5.+0.5*(n-1))*1e9);
 for(int c=0;c<2;c++){ marray<double,3> s({2,3,n}); marray<double,4> d({2,3,n,n}); for(int a=0;a<2;a++) for(int l=0;l<3;l++) for(size_t k=0;k<n;k++){ s[a][l][k]=s1(c,a,l,k); for(size_t q=0;q<n;q++) d[a][l][k][q]=d1(c,a,l,k,q); } writeArrayH5<double>(f,c?"s_NC":"s_CC",s,0); writeArrayH5<double>(f,c?"dsDE_NC":"dsDE_CC",d,0); } }
static double at(double p){ return std::exp(5.+0.5*p)*1e9; }
'''
X = 'src/xsections.cpp'
BUGS = [
 dict(id='x01-tau-alias', property='X01', xsec=True, edits=[(X, 'xsData[tau]=xsData[muon];', 'xsData[tau]=xsData[electron];')],
  needs='a table file in which tau is an alias of muon and the electron tables differ', breaks='tau neutrinos get the electron cross sections', demo=PRE + r'''
int main(){ { H5File f(H5Fcreate("t.h5",H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT)); grid(f,5,5); hid_t g=H5Gcreate2(f,"electron",H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT); put(g,0,5,5); H5Gclose(g); g=H5Gcreate2(f,"muon",H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT); put(g,1,5,5); H5Gclose(g); H5Lcreate_hard(f,"muon",f,"tau",H5P_DEFAULT,H5P_DEFAULT); }
 NeutrinoDISCrossSectionsFromTables x("t.h5"); for(int f=0;f<3;f++) near(x.TotalCrossSection(1e12,FL[f],XS::neutrino,XS::CC),std::pow(10.,tot(f?1:0,0,12)),"total"); return bad; }
'''),
 dict(id='x01-low-edge', property='X01', xsec=True, edits=[(X, 'if(val>altVal)\n\t\t\tval=altVal;', 'if(val<altVal)\n\t\t\tval=altVal;')],
  needs='an outgoing energy below the table, where the continued table falls below its edge', breaks='the differential cross section below the table is held at its edge instead of following the continuation', demo=PRE + r'''
int main(){ { H5File f(H5Fcreate("t.h5",H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT)); grid(f,5,5); put(f,0,5,5); } NeutrinoDISCrossSectionsFromTables x("t.h5"); double m=x.GetEmin(),E=1e12,E2=m/4; near(x.SingleDifferentialCrossSection(E,E2,XS::muon,XS::antineutrino,XS::NC),std::pow(10.,dif(0,3,12,(E2-m)/(E-m)))/(E/1e9),"below the table"); return bad; }
'''),
 dict(id='x02-triangle', property='X02', xsec=True, edits=[(X, 'logE_data_range[loge_M1+1], logE_data_range[loge_M2], phiPM,', 'logE_data_range[loge_M1], logE_data_range[loge_M2+1], phiPM,')],
  needs='two energies in the same interval of a table with nothing above the diagonal', breaks='next to the kinematic limit the value of the wrong corner of the cell is used', demo=V1 + r'''
int main(){ old("t.h5",5); NeutrinoDISCrossSectionsFromTables_V1 x("t.h5"); near(x.SingleDifferentialCrossSection(at(2.75),at(2.25),XS::muon,XS::neutrino,XS::CC),d1(0,0,1,2,2)+0.75*(d1(0,0,1,3,2)-d1(0,0,1,2,2))+0.25*(d1(0,0,1,3,3)-d1(0,0,1,3,2)),"diagonal cell"); return bad; }
'''),
 dict(id='x02-last-interval', property='X02', xsec=True, edits=[(X, '''    phiMP = dsde_NC_data[neutype][flavor][loge_M1][loge_M2+1];
    if ( loge_M1 == div-1 ){''', '''    phiMP = dsde_NC_data[neutype][flavor][loge_M1][loge_M2+1];
    if ( loge_M1+2 >= div ){''')],
  needs='a neutral current and an incoming energy in the last interval of the table', breaks='the differential cross section does not depend on the incoming energy in the last interval', demo=V1 + r'''
int main(){ old("t.h5",5); NeutrinoDISCrossSectionsFromTables_V1 x("t.h5"); double p=d1(1,0,1,3,1),q=d1(1,0,1,4,1); near(x.SingleDifferentialCrossSection(at(3.5),at(1.00001),XS::muon,XS::neutrino,XS::NC),(p+q)/2,"last interval"); near(x.SingleDifferentialCrossSection(at(2.5),at(1.00001),XS::muon,XS::neutrino,XS::NC),(d1(1,0,1,2,1)+p)/2,"inner interval"); return bad; }
'''),
 dict(id='x03-alias', property='X03', xsec=True, edits=[(X, 'makeAlias("muon","tau");', 'makeAlias("electron","tau");')],
  needs='tables with tau the same object as muon but not as electron, written and read again', breaks='tau neutrinos have the electron cross sections after reading', demo=PRE + r'''
int main(){ { H5File f(H5Fcreate("t.h5",H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT)); grid(f,5,5); hid_t g=H5Gcreate2(f,"electron",H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT); put(g,0,5,5); H5Gclose(g); g=H5Gcreate2(f,"muon",H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT); put(g,1,5,5); H5Gclose(g); H5Lcreate_hard(f,"muon",f,"tau",H5P_DEFAULT,H5P_DEFAULT); }
 NeutrinoDISCrossSectionsFromTables x("t.h5"); x.WriteHDF("u.h5",0); NeutrinoDISCrossSectionsFromTables y("u.h5"); for(int f=0;f<3;f++) near(y.TotalCrossSection(1e12,FL[f],XS::neutrino,XS::CC)/1e-35,std::pow(10.,tot(f?1:0,0,12))/1e-35*(1+0*bad),"total"); return bad; }
''' .replace('1e-5*std::fabs(b)', '1e-3*std::fabs(b)')),
 dict(id='x03-longer', property='X03', xsec=True, edits=[(X, 'if(buffer1.extent(0)!=energies.extent(0))', 'if(buffer1.extent(0)<energies.extent(0))')],
  needs='a file with a total cross section table that has more entries than there are energies', breaks='the inconsistent file is accepted', demo=PRE + r'''
int main(){ { H5File f(H5Fcreate("t.h5",H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT)); grid(f,5,5); put(f,0,5,5,2); } try{ NeutrinoDISCrossSectionsFromTables x("t.h5"); std::puts("accepted"); return 1; }catch(std::runtime_error&){ return 0; } }
'''),
 dict(id='x04-threshold', property='X04', xsec=True, edits=[(X, 'pow(1. - (mu*mu - m*m)/(2*m*Enu), 2)', 'pow(1. - (mu*mu + m*m)/(2*m*Enu), 2)')],
  needs='energies near the production threshold of the muon', breaks='the resonance has the wrong threshold', demo=PRE + r'''
int main(){ GlashowResonanceCrossSection x; squids::Const k; double m=k.electron_mass,mu=k.muon_mass,M=80.385e9,E=(mu*mu-m*m)/(2*m)*1.001,F=6.3e15; auto f=[&](double E){ double e=1-(mu*mu-m*m)/(2*m*E),o=1-2*m*E/(M*M),w=2.085/80.385; return E*e*e/(o*o+w*w); }; near(x.TotalCrossSection(E,XS::electron,XS::antineutrino,XS::GR)/x.TotalCrossSection(F,XS::electron,XS::antineutrino,XS::GR),f(E)/f(F),"ratio"); return bad; }
'''),
 dict(id='x04-redefine', property='X04', xsec=True, edits=[('include/nuSQuIDS/xsections.h', '''    void addTarget(PDGCode target, std::shared_ptr<NeutrinoCrossSections> xs){
        if(hasTarget(target))''', '''    void addTarget(PDGCode target, std::shared_ptr<NeutrinoCrossSections> xs){
        if(!xs && hasTarget(target))''')],
  needs='a second cross section for one target, handed over by shared pointer', breaks='redefining a target is silently ignored instead of refused', demo=PRE + r'''
int main(){ CrossSectionLibrary l; l.addTarget(proton,NullCrossSections()); try{ l.addTarget(proton,std::shared_ptr<XS>(new NullCrossSections())); std::puts("accepted"); return 1; }catch(std::runtime_error&){ return 0; } }
'''),
 dict(id='x05-abscissa', property='X05', xsec=True, edits=[(X, 'if(checkAgreement(Legendre2,Lobatto2,tol))\n\t\t\treturn halfWidth*Legendre2;', 'if(checkAgreement(Legendre2,Lobatto2,2e3*tol))\n\t\t\treturn halfWidth*Lobatto2;')],
  needs='a curved cross section', breaks='the trapezoid rule is used for curved cross sections', demo=PRE + r'''
struct Q:XS{ double TotalCrossSection(double E,NeutrinoFlavor,NeutrinoType,Current) const override{ return E*E*E; } double SingleDifferentialCrossSection(double,double E,NeutrinoFlavor,NeutrinoType,Current) const override{ return E*E; } };
int main(){ Q q; near(q.AverageTotalCrossSection(1,3,XS::muon,XS::neutrino,XS::CC),10,"average of a cube"); near(q.AverageSingleDifferentialCrossSection(9,1,4,XS::muon,XS::neutrino,XS::CC),7,"average of a square"); return bad; }
'''),
 dict(id='x05-kind', property='X05', xsec=True, edits=[(X, '''	auto integrand=[=](double e_out)->double{
		return this->SingleDifferentialCrossSection(E1,e_out,flavor,neutype,current);
	};
	return fastInt(integrand,E2Min,E2Max,1e-3)/(E2Max-E2Min);
}
	
std::shared_ptr''', '''	auto integrand=[=](double e_out)->double{
		return this->SingleDifferentialCrossSection(E1,e_out,flavor,e_out<Emin ? neutrino : neutype,current);
	};
	return fastInt(integrand,E2Min,E2Max,1e-3)/(E2Max-E2Min);
}
	
std::shared_ptr''')],
  needs='an average for antineutrinos over a range that begins below the table', breaks='the neutrino table enters the average of the antineutrino cross section', demo=PRE + r'''
int main(){ { H5File f(H5Fcreate("t.h5",H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT)); grid(f,5,5); put(f,0,5,5); } NeutrinoDISCrossSectionsFromTables x("t.h5"); double m=x.GetEmin(),E=1e12; near(x.AverageSingleDifferentialCrossSection(E,m/2,m/1.01,XS::muon,XS::antineutrino,XS::NC),x.XS::AverageSingleDifferentialCrossSection(E,m/2,m/1.01,XS::muon,XS::antineutrino,XS::NC),"average"); return bad; }
'''),
]
