M='include/nuSQuIDS/marray.h'; T='src/tools.cpp'; D='src/taudecay.cpp'
H='''#include <cstdint>
#include <cstdio>
#include <cmath>
#include <vector>
#include <stdexcept>
#include <nuSQuIDS/%s>
using namespace nusquids;
#define CHECK(c) do{ if(!(c)){ printf("failed: %%s\\n",#c); return 1; } }while(0)
'''
def near(a,b): return 'CHECK(std::fabs((%s)-(%s))<1e-9)'%(a,b)
BUGS=[
dict(id='a02-erase-skip',property='A02',needs='erasing more than zero entries along a dimension in the middle of an array of rank three or more',breaks='erase skips too few elements, so survivors take the values of erased ones',
  edits=[(M,'''					allocator_traits::construct(allocator(),write_pos,(move?std::move(*read_pos):*read_pos));
				read_pos+=num*chunk_size; //skip the items being erased''','''					allocator_traits::construct(allocator(),write_pos,(move?std::move(*read_pos):*read_pos));
				read_pos+=(iterations>1?num+chunk_size-1:num*chunk_size); //skip the items being erased''')],
  demo=H%'marray.h'+'''int main(){ marray<double,3> a({2,5,3}); for(size_t h=0;h<2;h++) for(size_t i=0;i<5;i++) for(size_t j=0;j<3;j++) a[h][i][j]=100*h+10*i+j; a.erase(1,1,2); CHECK(a.extent(1)==3); for(size_t h=0;h<2;h++) for(size_t j=0;j<3;j++){ CHECK(a[h][0][j]==100*h+j); CHECK(a[h][1][j]==100*h+30+j); CHECK(a[h][2][j]==100*h+40+j); } return 0; }'''),
dict(id='a04-assign-shape',property='A04',needs='assigning an array of equal size but different shape',breaks='assignment keeps the old shape when the total size is the same',
  edits=[(M,'''		copy_assign(other,typename allocator_traits::propagate_on_container_copy_assignment());
		std::copy_n(other.extents.begin(),Rank,extents.begin());
		total_size()=other.total_size();''','''		bool reuse=(total_size()==other.total_size() && total_size()!=0);
		copy_assign(other,typename allocator_traits::propagate_on_container_copy_assignment());
		if(!reuse)
			std::copy_n(other.extents.begin(),Rank,extents.begin());
		total_size()=other.total_size();''')],
  demo=H%'marray.h'+'''int main(){ marray<double,2> a({2,6}),b({3,4}); for(size_t i=0;i<3;i++) for(size_t j=0;j<4;j++) b[i][j]=10*i+j; a=b; CHECK(a.extent(0)==3 && a.extent(1)==4); for(size_t i=0;i<3;i++) for(size_t j=0;j<4;j++) CHECK(a[i][j]==10*i+j); return 0; }'''),
dict(id='c02-last-slope',property='C02',needs='a point on the last piece of data whose last three secants differ',breaks='the secant continued two steps past the end is wrong, so the last piece has the wrong end slope',
  edits=[(T,'return(3*m(n-2)-2*m(n-3));','return(2*m(n-1)-m(n-3));')],
  demo=H%'tools.h'+'''int main(){ double x[]={0,1,2,3,4,5},y[]={0,1,0.5,3,2,7}; AkimaSpline s(x,y,6); double m[]={1,-0.5,2.5,-1,5}; double m5=2*m[4]-m[3],m6=3*m[4]-2*m[3]; double L=std::fabs(m[3]-m[4]),N=L+std::fabs(m5-m6); double al=L/N; double want=(1-al)*m[4]+al*m5; marray<double,1> d=s.getAbscissaDerivatives(); %s; return 0; }'''%near('d[5]','want')),
dict(id='c03-reinit-append',property='C03',needs='initialising a spline that already holds other data with fewer points',breaks='the pieces of the previous data survive a second initialisation',
  edits=[(T,'    segments.reserve(n-1);\n    segments.resize(0);','    segments.reserve(n-1);\n    if(segments.size()<n)\n        segments.resize(0);')],
  demo=H%'tools.h'+'''int main(){ double x[]={0,1,2,3,4,5},y[]={0,1,0.5,3,2,7}; AkimaSpline s(x,y,6); double u[]={10,11,12,13},v[]={1,2,3,4}; s.initialize(u,v,4); CHECK(s.getAbscissas().extent(0)==4); CHECK(std::fabs(s(11.5)-2.5)<1e-9); return 0; }'''),
dict(id='e02-antitau-lep',property='E02',needs='reading the leptonic outgoing-lepton table for antineutrinos',breaks='the leptonic table of the second neutrino type is scaled by the wrong branching ratio',
  edits=[(D,'dNdEle_Lep_tbl[neutype][e1][e2] = BrLepton*','dNdEle_Lep_tbl[neutype][e1][e2] = (neutype==0 ? BrLepton : BrRA1)*')],
  demo=H%'taudecay.h'+'''int main(){ marray<double,1> e({4}); for(int i=0;i<4;i++) e[i]=1e9*(i+1); TauDecaySpectra t; t.Init(e); for(int i=0;i<4;i++) for(int j=0;j<4;j++) CHECK(std::fabs(t.dNdEle_Lep(i,j,0)-t.dNdEle_Lep(i,j,1))<1e-12); return 0; }'''),
dict(id='a01-coordinate',property='A01',needs='recovering the middle coordinate of an iterator into an array of rank three or more whose first two extents differ',breaks='iterator coordinates are computed with the extent of the wrong dimension',
  edits=[(M,'		offset/=(divisor/extents[dim]);','		offset/=(divisor/extents[dim>1 || Rank<3 ? dim : 0]);')],
  demo=H%'marray.h'+'''int main(){ marray<double,3> a({2,3,4}); auto it=a.begin()+(1*12+2*4+3); CHECK(a.getCoordinate(it,0)==1); CHECK(a.getCoordinate(it,1)==2); CHECK(a.getCoordinate(it,2)==3); return 0; }'''),
]
