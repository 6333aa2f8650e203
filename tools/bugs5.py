T = 'src/tools.cpp'
P = r'''
#include <nuSQuIDS/tools.h>
#include <cstdio>
#include <cmath>
#include <fstream>
#include <complex>
using namespace nusquids; typedef std::complex<double> C;
'''
M = P + r'''
static int run(bool dag){ const int n=3; C u[n][n],m[n][n],w[n][n]; gsl_matrix_complex *U=gsl_matrix_complex_alloc(n,n),*X=gsl_matrix_complex_alloc(n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ u[i][j]=C(std::cos(1+3*i+j),std::sin(2.+i*j+j)); m[i][j]=C(std::sin(1.5*i+j),std::cos(i-2.*j)); gsl_complex z; z.dat[0]=u[i][j].real(); z.dat[1]=u[i][j].imag(); gsl_matrix_complex_set(U,i,j,z); z.dat[0]=m[i][j].real(); z.dat[1]=m[i][j].imag(); gsl_matrix_complex_set(X,i,j,z); }
 for(int i=0;i<n;i++) for(int j=0;j<n;j++){ w[i][j]=0; for(int k=0;k<n;k++) for(int l=0;l<n;l++) w[i][j]+=dag?std::conj(u[k][i])*m[k][l]*u[l][j]:u[i][k]*m[k][l]*std::conj(u[j][l]); }
 if(dag) gsl_matrix_complex_change_basis_UCMU(U,X); else gsl_matrix_complex_change_basis_UMUC(U,X); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ gsl_complex z=gsl_matrix_complex_get(X,i,j); if(std::abs(w[i][j]-C(z.dat[0],z.dat[1]))>1e-12){ std::printf("element %d %d\n",i,j); return 1; } } return 0; }
'''
BUGS = [
 dict(id='t01-short-row', property='T01', edits=[(T, 'if(!table.empty() and column_number != row.size())', 'if(!table.empty() and column_number < row.size())')],
  needs='a file with a line that has fewer numbers than the one before', breaks='the file is accepted and what lies beyond the shorter line is read', demo=P + r'''
int main(){ std::ofstream("t.dat")<<"1 2 3\n4 5\n6 7\n"; try{ quickread("t.dat"); std::puts("accepted"); return 1; }catch(std::runtime_error&){ return 0; } }
'''),
 dict(id='t01-precision', property='T01', edits=[(T, 'outfile.precision(15);', 'outfile.precision(9);')],
  needs='values with more than nine significant digits', breaks='written tables lose digits', demo=P + r'''
int main(){ marray<double,2> a({1,2}); a[0][0]=M_PI; a[0][1]=1e20/3; quickwrite("t.dat",a); marray<double,2> b=quickread("t.dat"); for(int k=0;k<2;k++) if(std::fabs(a[0][k]-b[0][k])>1e-13*a[0][k]){ std::puts("digits lost"); return 1; } return 0; }
'''),
 dict(id='t02-umuc', property='T02', edits=[(T, '''gsl_blas_zgemm(CblasNoTrans,CblasConjTrans,''', '''gsl_blas_zgemm(CblasNoTrans,CblasTrans,''')],
  needs='a basis with complex elements', breaks='the transposed instead of the adjoint basis is used', demo=M + 'int main(){ return run(false); }\n'),
 dict(id='t02-ucmu', property='T02', edits=[(T, '''    gsl_blas_zgemm(CblasNoTrans,CblasNoTrans,
                   gsl_complex_rect(1.0,0.0),M,
                   U1,gsl_complex_rect(0.0,0.0),T1);''', '''    gsl_blas_zgemm(CblasTrans,CblasNoTrans,
                   gsl_complex_rect(1.0,0.0),M,
                   U1,gsl_complex_rect(0.0,0.0),T1);''')],
  needs='a matrix that is not symmetric', breaks='the transposed matrix is put into the other basis', demo=M + 'int main(){ return run(true); }\n'),
]
