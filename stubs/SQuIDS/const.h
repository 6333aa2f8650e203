// Stand-in for the header of the SQuIDS library, which is not installed here: only the unit constants that nuSQuIDS' own
// files use.  Their values are those of SQuIDS; the contracts only rely on their being positive and mutually consistent.
#ifndef SQUIDS_CONST_H
#define SQUIDS_CONST_H
#include <memory>
namespace squids{
struct Const{
  double pi=3.14159265358979, piby2=1.57079632679490;
  double eV=1.0, keV=1.0e3, MeV=1.0e6, GeV=1.0e9, TeV=1.0e12;
  double meter=5.06773093741e6, cm=5.06773093741e4, km=5.06773093741e9, sec=1.523e15, gr=5.62e32;
  double Na=6.0221415e+23, GF=1.16639e-23, tau_mass=1.776e9, proton_mass=0.938272e9, neutron_mass=0.939565e9, electron_mass=0.510998910e6, muon_mass=105.6583668e6;
};
}
#endif
