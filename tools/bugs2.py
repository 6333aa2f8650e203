exec(open(__file__.replace('bugs2','bugs1')).read().split('BUGS=[')[0]) if '__file__' in globals() else exec(open('tools/bugs1.py').read().split('BUGS=[')[0])
H=H.replace('using namespace nus','namespace nusquids{}\nusing namespace nus')
Q='include/nuSQuIDS/AdaptiveQuad.h'; A='include/nuSQuIDS/aligned_alloc.h'
BUGS=[
dict(id='c04-edge-cell',property='C04',needs='a bicubic grid with different numbers of x and y nodes',breaks='the end cell of the y direction is found with the number of x nodes',
  edits=[(T,'	if(j==ycoords.extent(0)-1)\n		j--;\n	\n	//cell dimensions\n	double dx=xcoords[i+1]-xcoords[i];\n	double dy=ycoords[j+1]-ycoords[j];\n	//compute','	if(j==xcoords.extent(0)-1)\n		j--;\n	\n	//cell dimensions\n	double dx=xcoords[i+1]-xcoords[i];\n	double dy=ycoords[j+1]-ycoords[j];\n	//compute')],
  demo=H%'tools.h'+'''int main(){ marray<double,2> d({5,3}); marray<double,1> x({3}),y({5}); for(int i=0;i<3;i++) x[i]=i; for(int j=0;j<5;j++) y[j]=j; for(int j=0;j<5;j++) for(int i=0;i<3;i++) d[j][i]=std::sin(1.3*j)+i*j; BiCubicInterpolator b(d,x,y); for(int j=0;j<5;j++) for(int i=0;i<3;i++) CHECK(std::fabs(b(i,j)-d[j][i])<1e-9); double h=1e-6; CHECK(std::fabs(b(0.5,2.5+h)-b(0.5,2.5))<1e-3); CHECK(std::fabs(b(0,2+h)-b(0,2))<1e-3); CHECK(std::fabs(b(0,3-h)-b(0,3))<1e-3); return 0; }'''),
dict(id='c05-third-derivative',property='C05',needs='data with a mixed xyz derivative, on a grid evaluated off its nodes',breaks='the triple mixed derivative is taken from the xz table instead of the yz table',
  edits=[(T,'				xslice[i]=d2fdydz[k][j][i];','				xslice[i]=d2fdxdz[k][j][i];')],
  demo=('#include <sstream>\n#include <iostream>\n#include <memory>\n#include <functional>\n'+H%'tools.h')+'''int main(){ marray<double,3> f({4,4,4}); marray<double,1> c({4}); for(int i=0;i<4;i++) c[i]=i; for(int k=0;k<4;k++) for(int j=0;j<4;j++) for(int i=0;i<4;i++) f[k][j][i]=i*j*k; TriCubicInterpolator t(f,c,c,c); for(double x=0.25;x<3;x+=0.5) CHECK(std::fabs(t(x,x+0.1,x-0.2)-x*(x+0.1)*(x-0.2))<1e-9); return 0; }'''),
dict(id='c05-coefficient',property='C05',needs='data with a mixed yz derivative at one corner of a cell',breaks='one vertex datum of the tricubic cell is taken from the opposite corner',
  edits=[(T,'	d[53]=d2fdydz[k+1][j  ][i+1]*dy*dz;\n	d[54]=d2fdydz[k+1][j+1][i  ]*dy*dz;','	d[53]=d2fdydz[k+1][j+1][i  ]*dy*dz;\n	d[54]=d2fdydz[k+1][j  ][i+1]*dy*dz;')],
  demo=H%'tools.h'+'''int main(){ marray<double,3> f({4,4,4}); marray<double,1> c({4}); for(int i=0;i<4;i++) c[i]=i; for(int k=0;k<4;k++) for(int j=0;j<4;j++) for(int i=0;i<4;i++) f[k][j][i]=i*j*k; TriCubicInterpolator t(f,c,c,c); for(double x=0.25;x<3;x+=0.5) CHECK(std::fabs(t(x,x+0.1,x-0.2)-x*(x+0.1)*(x-0.2))<1e-9); return 0; }'''),
dict(id='d01-negative-axis',property='D01',needs='an interval on the negative axis, far from zero',breaks='the width needed to subdivide ignores the magnitude of a negative left end',
  edits=[(Q,'32*std::numeric_limits<double>::epsilon()*std::max(std::abs(a),std::abs(b));','32*std::numeric_limits<double>::epsilon()*std::max(a,b);')],
  demo=H%'AdaptiveQuad.h'+'''int main(){ double u=std::numeric_limits<double>::epsilon(); AdaptiveQuad::Interval i(-1,-1+20*u,0,0); CHECK(!i.canSubdivide()); AdaptiveQuad::Interval j(1-20*u,1,0,0); CHECK(!j.canSubdivide()); AdaptiveQuad::Interval r(-3,-1,0,0); CHECK(r.canSubdivide()); return 0; }'''),
dict(id='d02-reversed-sum',property='D02',needs='reversed limits and an integrand that has to be subdivided',breaks='the sign of the exchanged limits is applied to the compensation instead of the sum',
  edits=[(Q,'		if(reverse)\n			total=-total;\n		return total;','		return (reverse && !outOfTolerance)?-total:total;')],
  demo=H%'AdaptiveQuad.h'+'''int main(){ auto f=[](double x){ return 1/std::sqrt(std::fabs(x-0.3)); }; AdaptiveQuad::Options o,p; double s=AdaptiveQuad::integrate(f,0.,1.,3e-16,&o), r=AdaptiveQuad::integrate(f,1.,0.,3e-16,&p); CHECK(o.outOfTolerance); CHECK(s>2.5 && s<3); CHECK(s+r==0); return 0; }'''),
dict(id='d02-kept-flag',property='D02',needs='passing the same options object to a second integration that succeeds without subdividing after a first that did not',breaks='the out of tolerance flag of a previous integration is kept',
  edits=[(Q,'				options->uncertainty=erri1;\n				options->outOfTolerance=false;','				options->uncertainty=erri1;')],
  demo=H%'AdaptiveQuad.h'+'''int main(){ AdaptiveQuad::Options o; o.outOfTolerance=true; double s=AdaptiveQuad::integrate([](double x){ return x; },0.,1.,1e-6,&o); CHECK(std::fabs(s-0.5)<1e-12); CHECK(o.inTolerance()); return 0; }'''),
dict(id='e01-rho-end',property='E01',needs='a neutrino energy fraction just past the end point of the rho channel',breaks='the rho channel helicity term runs to the end point of the pion channel',
  edits=[(D,'''    if (1.0 - RRho - z > 0.0) {
        g1 = -((2.0*z-1.0+RRho)''','''    if (1.0 - RPion - z > 0.0) {
        g1 = -((2.0*z-1.0+RRho)''')],
  demo=(H%'taudecay.h').replace('#include <nuSQ','#include <memory>\n#include <functional>\n#include <iostream>\n#include <sstream>\n#define private public\n#include <nuSQ')+'''int main(){ TauDecaySpectra t; t.SetParameters(true); double r=0.43335*0.43335; for(double z=1-r+1e-3; z<1; z+=1e-2) CHECK(t.TauDecayToRho(10.,10.*z)==0); return 0; }'''),
dict(id='a05-broadcast-stride',property='A05',needs='combining arrays where an extent of one of the second sits behind a larger one',breaks='the element of the broadcast operand is found with the strides of the result',
  edits=[(M,'			stride*=m2.extent(R2-i-1);','			stride*=resultExtents[OR-i-1];')],
  demo=H%'marray.h'+'''int main(){ marray<double,2> a({3,4}),b({3,1}); for(int i=0;i<3;i++){ b[i][0]=100*i; for(int j=0;j<4;j++) a[i][j]=10*i+j; } auto c=a+b; CHECK(c.extent(0)==3&&c.extent(1)==4); for(int i=0;i<3;i++) for(int j=0;j<4;j++) CHECK(c[i][j]==110*i+j); return 0; }'''),
dict(id='a06-dimension',property='A06',needs='summing a non-square array along a dimension other than the last while keeping the rank',breaks='the position in the summed dimension wraps at the extent of the last dimension',
  edits=[(M,'''					if(dummy_index<extents[i]-1){
						dummy_index++;
						break;
					}
					dummy_index=0;
				}
				if(i==0) break;
			}
		}
		
		return(s);
	}
	
	iterator begin()''','''					if(dummy_index<extents[Rank-1]-1){
						dummy_index++;
						break;
					}
					dummy_index=0;
				}
				if(i==0) break;
			}
		}
		
		return(s);
	}
	
	iterator begin()''')],
  demo=H%'marray.h'+'''int main(){ marray<double,3> a({2,3,4}); double n=0; for(auto& e : a) e=n++; auto s=a.sum_same_rank(1); CHECK(s.extent(0)==2&&s.extent(1)==1&&s.extent(2)==4); for(int i=0;i<2;i++) for(int k=0;k<4;k++) CHECK(s[i][0][k]==a[i][0][k]+a[i][1][k]+a[i][2][k]); return 0; }'''),
dict(id='a03-reshape',property='A03',needs='reshaping to a shape with more elements than the array holds',breaks='reshape accepts every shape whose size is a multiple of the size of the array',
  edits=[(M,'		if(new_total_size!=total_size())\n			throw std::logic_error("Inconsistent total size when attempting to reshape','		if(new_total_size!=total_size() && (!total_size() || new_total_size%total_size()))\n			throw std::logic_error("Inconsistent total size when attempting to reshape')],
  demo=H%'marray.h'+'''#include <array>
int main(){ marray<double,2> a({2,3}); bool t=false; try{ a.reshape(std::array<size_t,2>{{4,3}}); }catch(std::logic_error&){ t=true; } CHECK(t); CHECK(a.extent(0)==2); return 0; }'''),
dict(id='b01-equal',property='B01',needs='moving between arrays whose allocators ask for different alignments',breaks='allocators of different alignment compare equal although a weaker one supplied the block',
  edits=[(A,'	bool operator==(const aligned_allocator<U>& other) const noexcept{\n		return(align_pow==other.align_pow);','	bool operator==(const aligned_allocator<U>& other) const noexcept{\n		return(align_pow>=other.align_pow);')],
  demo='#include <cassert>\n'+H%'aligned_alloc.h'+'''int main(){ aligned_allocator<double> a(4),b(6); CHECK(!(a==b)); CHECK(!(b==a)); CHECK(a!=b); aligned_allocator<double> c(a); CHECK(a==c); return 0; }'''),
dict(id='c01-log-first',property='C01',needs='a logarithmic grid of at least three samples',breaks='the interior samples of the logarithmic grid are shifted by the rounding of the last one',
  edits=[(T,'    double step_log = (Emax_log - Emin_log)/double(div-1);','    double step_log = (Emax_log - Emin_log)/double(div>2 ? div : div-1);')],
  demo=H%'tools.h'+'''int main(){ auto g=logspace(1.,1e4,5); for(int i=0;i<5;i++) CHECK(std::fabs(std::log10(g[i])-i)<1e-9); return 0; }'''),
]
