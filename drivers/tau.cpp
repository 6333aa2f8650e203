// Contracts for TauDecaySpectra (include/nuSQuIDS/taudecay.h, src/taudecay.cpp)
#include <cstdint>
#include <cstddef>
#include <cassert>
#include <new>
#include <cmath>
#include <stdexcept>
#include <nuSQuIDS/taudecay.h>
#include "vf.h"
using namespace nusquids;
typedef marray<double,1> A1;
typedef double (TauDecaySpectra::*Chan)(double,double) const;
#define EMAX 1e9
static const double RPI=0.07856*0.07856, RRHO=0.43335*0.43335, RA=0.70913*0.70913;
static double dev(double a,double b){ return std::fabs(a-b); }
#define NEAR(a,b,msg) vf_le(dev((a),(b)),1e-12,0,msg)

// ---------------------------------------------------------------- E01 channel spectra in z=E_nu/E_tau
// leptonic channel: a cubic in z on [0,1], non-negative, integrating to one (Simpson's rule is exact for cubics)
VF(E01_lepton){ TauDecaySpectra t; double E=vf_real_in("E",1e-3,EMAX); double z=vf_real_in("z",0,1); double f=t.TauDecayToLepton(E,z*E);
  double f0=t.TauDecayToLepton(E,0.0), fh=t.TauDecayToLepton(E,0.5*E), f1=t.TauDecayToLepton(E,E);
  vf_close(f0+4*fh+f1,6.0,1,"the leptonic spectrum integrates to one over the fraction of energy"); vf_le(0.0,f,1,"the leptonic spectrum is not negative"); vf_close(f1,0.0,1,"the leptonic spectrum vanishes at the end point");
  double d=vf_real_in("d",-0.2,0.2); double s=t.TauDecayToLepton(E,(z+2*d)*E)-4*t.TauDecayToLepton(E,(z+d)*E)+6*f-4*t.TauDecayToLepton(E,(z-d)*E)+t.TauDecayToLepton(E,(z-2*d)*E); vf_close(s,0.0,64,"the leptonic spectrum is a cubic in the energy fraction"); }
// hadronic channels with one resonance of squared mass ratio r: linear for z<1-r, zero above, integrating to one
template<Chan C> static void resonance(double r){ TauDecaySpectra t; double E=vf_real_in("E",1e-3,EMAX); double w=1-r; double z=vf_real_in("z",0,1.5), y=vf_real_in("y",0,1);
  double f=(t.*C)(E,z*E);
  if(z<w-1e-12 && y<w-1e-12){ double g=(t.*C)(E,y*E); vf_close((t.*C)(E,0.5*(z+y)*E),0.5*(f+g),1,"the spectrum is linear below the end point"); vf_le(0.0,f,1,"the spectrum is not negative"); }
  else if(z>w+1e-12) vf_close(f,0.0,1,"the spectrum vanishes above the end point of the resonance");
  NEAR(w*(t.*C)(E,0.5*w*E),1.0,"the spectrum integrates to one over the fraction of energy"); }
VF(E01_pion){ resonance<&TauDecaySpectra::TauDecayToPion>(RPI); }
VF(E01_rho){ resonance<&TauDecaySpectra::TauDecayToRho>(RRHO); }
VF(E01_a1){ resonance<&TauDecaySpectra::TauDecayToA1>(RA); }
VF(E01_hadron){ TauDecaySpectra t; double E=vf_real_in("E",1e-3,EMAX), z=vf_real_in("z",0,1.5); double f=t.TauDecayToHadron(E,z*E); if(z<0.3-1e-12) vf_close(f,1/0.3,1,"multi-hadron spectrum is flat up to 0.3"); else if(z>0.3+1e-12) vf_close(f,0.0,1,"multi-hadron spectrum vanishes above 0.3"); }
// all channels: branching-ratio weighted sum, branching ratios add to one (two leptonic channels)
VF(E01_all){ TauDecaySpectra t; double E=vf_real_in("E",1e-3,EMAX), z=vf_real_in("z",0,1.5); double e=z*E; double bl=t.GetTauToLeptonBranchingRatio(), bh=t.GetTauToHadronBranchingRatio(); NEAR(2*bl+0.12+0.26+0.13+bh,1.0,"branching ratios add to one");
  vf_close(t.TauDecayToAll(E,e),2*bl*t.TauDecayToLepton(E,e)+0.12*t.TauDecayToPion(E,e)+0.26*t.TauDecayToRho(E,e)+0.13*t.TauDecayToA1(E,e)+bh*t.TauDecayToHadron(E,e),8,"the total spectrum is the branching-ratio weighted sum of the channels"); vf_close(bl,0.18,1,"leptonic branching ratio"); vf_close(bh,0.13,1,"hadronic branching ratio"); }
// spectra depend on the energies only through their ratio; particles and antiparticles decay alike
VF(E01_ratio){ TauDecaySpectra t,u(false); double E=vf_real_in("E",1,100), z=vf_real_in("z",0,1), k=vf_real_in("k",0.5,64); vf_assume(dev(z,0.3)>1e-9 && dev(z,1-RPI)>1e-9 && dev(z,1-RRHO)>1e-9 && dev(z,1-RA)>1e-9); vf_close(t.TauDecayToAll(k*E,z*(k*E)),t.TauDecayToAll(E,z*E),8,"the spectrum depends on the ratio of energies only"); vf_close(u.TauDecayToAll(E,z*E),t.TauDecayToAll(E,z*E),8,"tau and antitau spectra are the same"); }

// ---------------------------------------------------------------- E02 tabulated spectra
#define GRID size_t n=vf_size("n",1,(size_t(1)<<28),7); double* en=vf_positive("E",n); A1 er({n},detail::no_init); for(size_t k=0;k<n;k++) er[k]=en[k]*1e9
static void table(unsigned nt){ GRID; TauDecaySpectra t(er); size_t i=vf_index("i",n), j=vf_index("j",n); double E=en[i], e=en[j]; double all=t.TauDecayToAll(E,e), lep=t.TauDecayToLepton(E,e), bl=t.GetTauToLeptonBranchingRatio();
  double r=e/E; vf_assume(dev(r,0.3)>1e-9 && dev(r,1-RPI)>1e-9 && dev(r,1-RRHO)>1e-9 && dev(r,1-RA)>1e-9); double sc=1e6;
  vf_close(t.dNdEnu_All(i,j,nt),all/E,sc,"all-channel neutrino spectrum per GeV"); vf_close(t.dNdEnu_Lep(i,j,nt),bl*lep/E,sc,"leptonic neutrino spectrum per GeV");
  vf_close(t.dNdEle_All(i,j,nt),all*e/(E*E),sc,"all-channel spectrum with respect to the outgoing lepton"); vf_close(t.dNdEle_Lep(i,j,nt),bl*lep*e/(E*E),sc,"leptonic spectrum with respect to the outgoing lepton"); }
VF(E02_table_tau){ table(0); }
VF(E02_table_antitau){ table(1); }
template<class F> static bool throws(F f){ try{ f(); }catch(std::runtime_error&){ return true; } return false; }
VF(E02_range){ GRID; TauDecaySpectra t; t.Init(er); unsigned i=(unsigned)vf_size("i",0,4294967295u,12), j=(unsigned)vf_size("j",0,4294967295u,12), nt=(unsigned)vf_size("nt",0,4294967295u,4); bool out=i>=n || j>=n || nt>=2; double v=0;
  vf_assert(throws([&]{ v+=t.dNdEnu_All(i,j,nt); })==out,"exactly the indices outside the table are refused (neutrino, all channels)"); vf_assert(throws([&]{ v+=t.dNdEnu_Lep(i,j,nt); })==out,"exactly the indices outside the table are refused (neutrino, leptonic)");
  vf_assert(throws([&]{ v+=t.dNdEle_All(i,j,nt); })==out,"exactly the indices outside the table are refused (lepton, all channels)"); vf_assert(throws([&]{ v+=t.dNdEle_Lep(i,j,nt); })==out,"exactly the indices outside the table are refused (lepton, leptonic)"); }
VF(E02_empty){ TauDecaySpectra t; unsigned i=(unsigned)vf_size("i",0,4294967295u,12); double v=0; vf_assert(throws([&]{ v+=t.dNdEnu_All(i,0); }) && throws([&]{ v+=t.dNdEle_All(i,0); }) && throws([&]{ v+=t.dNdEnu_Lep(0,i); }) && throws([&]{ v+=t.dNdEle_Lep(0,i); }),"a spectrum without tables refuses every index"); }
// initialising again replaces the tables
VF(E02_reinit){ GRID; size_t m=vf_size("m",1,(size_t(1)<<28),7); double* em=vf_positive("F",m); A1 fr({m},detail::no_init); for(size_t k=0;k<m;k++) fr[k]=em[k]*1e9; TauDecaySpectra t(fr); t.Init(er); size_t i=vf_index("i",n), j=vf_index("j",n); double E=en[i], e=en[j];
  vf_close(t.dNdEle_Lep(i,j,1),t.GetTauToLeptonBranchingRatio()*t.TauDecayToLepton(E,e)*e/(E*E),1e6,"reinitialised tables are those of the new energies"); vf_assert(throws([&]{ t.dNdEnu_All((unsigned)n,0); }),"reinitialised tables have the new size"); }
