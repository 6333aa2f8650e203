// T01: text tables; T02: complex matrices.
#include "vf.h"
#include <nuSQuIDS/tools.h>
#include <nuSQuIDS/resources.h>
#include <stdexcept>
#include <vector>
#include <gsl/gsl_blas.h>
#ifdef VF_NATIVE
#include <fstream>
#include <cmath>
#endif
using namespace vfi; using nusquids::marray;
template<class F> static bool refuses(F f){ try{ f(); }catch(std::runtime_error&){ return true; } return false; }
#ifndef VF_NATIVE
#include <fstream>
VFText* vf_text;
struct Text:VFText{ Text(){ path="t.dat"; exists=writable=true; lines=outlines=total=0; out=0; ends=0; glued=open_line=0; precision=6; vf_text=this; for(int k=0;k<8;k++){ count[k]=0; v[k]=0; } }
  ~Text(){ vf_text=0; } };
#endif
#ifndef VF_NATIVE
VF_S(T01_read){ for(int rows=0;rows<=4;rows++) for(int code=0;code<81;code++){ int n[4]={code%3,code/3%3,code/9%3,code/27}; bool skip=false; for(int k=rows;k<4;k++) if(n[k]) skip=true; if(skip) continue;
    Text t; double v[4][2]; t.lines=rows; for(int k=0;k<rows;k++){ t.count[k]=n[k]; for(int j=0;j<n[k];j++) v[k][j]=vf_real("v"); t.v[k]=v[k]; }
    int want=0,cols=0; bool ok=true; for(int k=0;k<rows;k++) if(n[k]){ if(want && n[k]!=cols) ok=false; cols=n[k]; want++; }
    if(!ok){ vf_assert(refuses([]{ nusquids::quickread("t.dat"); }),"a file with rows of different lengths is refused"); continue; }
    marray<double,2> r=nusquids::quickread("t.dat"); vf_assert(r.extent(0)==(size_t)want,"one row per line with data"); vf_assert(r.extent(1)==(size_t)cols,"one column per number"); int i=0; for(int k=0;k<rows;k++) if(n[k]){ for(int j=0;j<n[k];j++) vf_close(r[i][j],v[k][j],0,"the numbers of the line in order"); i++; } } }
VF_S(T01_missing){ Text t; t.exists=false; vf_assert(refuses([]{ nusquids::quickread("t.dat"); }),"a file that cannot be opened is refused"); vf_assert(!nusquids::fexists("t.dat"),"a file that cannot be opened does not exist"); t.exists=true; vf_assert(nusquids::fexists("t.dat"),"a file that can be opened exists"); vf_assert(!nusquids::fexists("u.dat"),"another file does not exist");
  marray<double,2> a({2,2}); t.writable=false; vf_assert(refuses([&]{ nusquids::quickwrite("t.dat",a); }),"a file that cannot be written is reported"); }
VF(T01_write){ size_t r=vf_size("rows",0,1u<<31,4),c=vf_size("columns",0,1u<<31,4); vf_fits(size_t(1)<<56,r,c); double* v=vf_reals("v",r*c); Text t; t.out=new double[r*c]; t.ends=new size_t[r]; marray<double,2> a({r,c}); double* d=a.get_data(); for(size_t k=0;k<r*c;k++) d[k]=v[k]; nusquids::quickwrite("t.dat",a);
  vf_assert(!t.open_line,"the last line is ended"); vf_assert(t.precision>=15,"fifteen digits"); vf_assert(t.outlines==r,"one line per row"); vf_assert(t.total==r*c,"one number per element"); if(r){ size_t i=vf_index("i",r); vf_assert(t.ends[i]==(i+1)*c,"one number per column"); if(c){ size_t j=vf_index("j",c); vf_close(t.out[i*c+j],v[i*c+j],0,"the element of this row and column"); } } delete[] t.out; delete[] t.ends; }
#else
VF_B(T01_text){ size_t rows=vf_size("rows",0,6,6),cols=vf_size("cols",1,5,5); bool ragged=vf_bool("ragged"); size_t odd=vf_index("odd",rows?rows:1); std::vector<std::vector<double> > m(rows,std::vector<double>(cols)); const char* gap[4]={" ","\t","  \t"," "}; std::string text; int junk=(int)vf_int("junk",0,3,0,3);
  for(size_t i=0;i<=rows;i++){ int before=(int)vf_int("before",0,2,0,2); if(before==1) text+="\n"; if(before==2) text+=junk&1?"# comment 1 2\n":"  \t\n"; if(i==rows) break;
    size_t n=cols+(ragged && i==odd); if(n>cols) m[i].push_back(0); for(size_t j=0;j<n;j++){ m[i][j]=vf_real_in("v",-10,10)*std::pow(10.,(double)vf_int("exponent",-30,30,-30,30)); char b[40]; std::snprintf(b,40,"%.17g",m[i][j]); if(j) text+=gap[vf_int("gap",0,3,0,3)]; text+=b; } if(junk&2) text+=" # more"; text+="\n"; }
  if(vf_bool("unterminated") && !text.empty()) text.resize(text.size()-1); std::ofstream("vf_table.dat")<<text;
  if(ragged && rows>1){ vf_assert(refuses([]{ nusquids::quickread("vf_table.dat"); }),"a file with rows of different lengths is refused"); return; }
  marray<double,2> r=nusquids::quickread("vf_table.dat"); vf_assert(r.extent(0)==rows,"one row per line with data"); vf_assert(r.extent(1)==(rows?m[0].size():0),"one column per number"); for(size_t i=0;i<rows;i++) for(size_t j=0;j<m[i].size();j++) vf_assert(r[i][j]==m[i][j],"the numbers of the line in order");
  nusquids::quickwrite("vf_table2.dat",r); marray<double,2> q=nusquids::quickread("vf_table2.dat"); if(rows){ vf_assert(q.extent(0)==rows && q.extent(1)==r.extent(1),"the written table has the same shape"); for(size_t i=0;i<rows;i++) for(size_t j=0;j<m[i].size();j++) vf_assert(std::fabs(q[i][j]-r[i][j])<=1e-14*std::fabs(r[i][j]),"written and read back to fifteen digits"); } }
VF_B(T01_resources){ ::setenv("NUSQUIDS_DATA_PATH","/nowhere/data",1); vf_assert(nusquids::getResourcePath()=="/nowhere/data","the environment names the data directory"); ::unsetenv("NUSQUIDS_DATA_PATH"); std::string p=nusquids::getResourcePath(); vf_assert(nusquids::fexists(p+"/astro/EARTH_MODEL_PREM.dat"),"the data directory holds the Earth model"); vf_assert(!nusquids::fexists(p+"/astro/no such file"),"a missing file does not exist"); vf_assert(refuses([]{ nusquids::quickread("no such file"); }),"a file that cannot be opened is refused"); marray<double,2> a({2,2}); vf_assert(refuses([&]{ nusquids::quickwrite("no such directory/f",a); }),"a file that cannot be written is reported"); }
#endif

// complex matrices: the contract of the GSL functions, for square matrices
#ifndef VF_NATIVE
#include <new>
extern "C"{
static gsl_matrix_complex* vf_gsl_new(size_t a,size_t b,bool clear){ vf_assert(a>0 && b>0,"GSL: matrix has elements"); gsl_matrix_complex* m=new gsl_matrix_complex; m->size1=a; m->size2=b; m->tda=b; m->data=new double[2*a*b]; m->block=0; m->owner=1; if(clear) for(size_t k=0;k<2*a*b;k++) m->data[k]=0; return m; }
gsl_matrix_complex* gsl_matrix_complex_alloc(const size_t a,const size_t b){ return vf_gsl_new(a,b,false); }
gsl_matrix_complex* gsl_matrix_complex_calloc(const size_t a,const size_t b){ return vf_gsl_new(a,b,true); }
void gsl_matrix_complex_free(gsl_matrix_complex* m){ delete[] m->data; delete m; }
gsl_complex gsl_matrix_complex_get(const gsl_matrix_complex* m,const size_t i,const size_t j){ vf_assert(i<m->size1 && j<m->size2,"GSL: index in range"); gsl_complex z; z.dat[0]=m->data[2*(i*m->tda+j)]; z.dat[1]=m->data[2*(i*m->tda+j)+1]; return z; }
void gsl_matrix_complex_set(gsl_matrix_complex* m,const size_t i,const size_t j,const gsl_complex z){ vf_assert(i<m->size1 && j<m->size2,"GSL: index in range"); m->data[2*(i*m->tda+j)]=z.dat[0]; m->data[2*(i*m->tda+j)+1]=z.dat[1]; }
gsl_complex gsl_complex_rect(double x,double y){ gsl_complex z; z.dat[0]=x; z.dat[1]=y; return z; }
gsl_complex gsl_complex_conjugate(gsl_complex a){ a.dat[1]=-a.dat[1]; return a; }
int gsl_matrix_complex_memcpy(gsl_matrix_complex* d,const gsl_matrix_complex* s){ vf_assert(d->size1==s->size1 && d->size2==s->size2,"GSL: matrices of the same size"); for(size_t i=0;i<s->size1;i++) for(size_t j=0;j<2*s->size2;j++) d->data[2*i*d->tda+j]=s->data[2*i*s->tda+j]; return 0; }
int gsl_blas_zgemm(CBLAS_TRANSPOSE_t ta,CBLAS_TRANSPOSE_t tb,const gsl_complex al,const gsl_matrix_complex* A,const gsl_matrix_complex* B,const gsl_complex be,gsl_matrix_complex* C){ const size_t n=C->size1; vf_assert(C!=A && C!=B,"GSL: the product is not stored over a factor"); vf_assert(A->size1==n && A->size2==n && B->size1==n && B->size2==n && C->size2==n,"GSL: square matrices of one size");
  for(size_t i=0;i<n;i++) for(size_t j=0;j<n;j++){ double re=0,im=0; for(size_t k=0;k<n;k++){ const double* a=A->data+2*(ta==CblasNoTrans?i*A->tda+k:k*A->tda+i); const double* b=B->data+2*(tb==CblasNoTrans?k*B->tda+j:j*B->tda+k); double ai=ta==CblasConjTrans?-a[1]:a[1],bi=tb==CblasConjTrans?-b[1]:b[1]; re+=a[0]*b[0]-ai*bi; im+=a[0]*bi+ai*b[0]; }
    double* c=C->data+2*(i*C->tda+j); double cr=0,ci=0; bool keep=be.dat[0]!=0 || be.dat[1]!=0; if(keep){ cr=be.dat[0]*c[0]-be.dat[1]*c[1]; ci=be.dat[0]*c[1]+be.dat[1]*c[0]; } c[0]=al.dat[0]*re-al.dat[1]*im+cr; c[1]=al.dat[0]*im+al.dat[1]*re+ci; } return 0; }
}
#endif
namespace{ struct Mat{ gsl_matrix_complex* m; std::vector<double> v; size_t n; Mat(size_t n,const char* name):m(gsl_matrix_complex_alloc(n,n)),v(2*n*n),n(n){ for(size_t i=0;i<n;i++) for(size_t j=0;j<n;j++){ gsl_complex z; z.dat[0]=re(i,j)=vf_real_in(name,-1,1); z.dat[1]=im(i,j)=vf_real_in(name,-1,1); gsl_matrix_complex_set(m,i,j,z); } }
  ~Mat(){ gsl_matrix_complex_free(m); } double& re(size_t i,size_t j){ return v[2*(i*n+j)]; } double& im(size_t i,size_t j){ return v[2*(i*n+j)+1]; }
  void is(Mat& o,const char* msg){ for(size_t i=0;i<n;i++) for(size_t j=0;j<n;j++){ gsl_complex z=gsl_matrix_complex_get(m,i,j); vf_close(z.dat[0],o.re(i,j),4.0*n*n,msg); vf_close(z.dat[1],o.im(i,j),4.0*n*n,msg); } } }; }
// the matrix sum_kl L(i,k) M(k,l) R(l,j) with L=U,R=U^dagger or L=U^dagger,R=U
static void change(size_t n,bool dagger_first){ Mat U(n,"U"),M(n,"M"),W(n,"W"); for(size_t i=0;i<n;i++) for(size_t j=0;j<n;j++){ double a=0,b=0; for(size_t k=0;k<n;k++){ double tr=0,ti=0; for(size_t l=0;l<n;l++){ double r=dagger_first?U.re(l,j):U.re(j,l),s=dagger_first?U.im(l,j):-U.im(j,l); tr+=M.re(k,l)*r-M.im(k,l)*s; ti+=M.re(k,l)*s+M.im(k,l)*r; } double r=dagger_first?U.re(k,i):U.re(i,k),s=dagger_first?-U.im(k,i):U.im(i,k); a+=r*tr-s*ti; b+=r*ti+s*tr; } W.re(i,j)=a; W.im(i,j)=b; }
  if(dagger_first) nusquids::gsl_matrix_complex_change_basis_UCMU(U.m,M.m); else nusquids::gsl_matrix_complex_change_basis_UMUC(U.m,M.m); M.is(W,"the matrix in the new basis"); U.is(U,"the basis itself is unchanged"); }
VF(T02_umuc2){ change(2,false); } VF(T02_umuc3){ change(3,false); } VF(T02_umuc4){ change(4,false); } VF(T02_umuc5){ change(5,false); } VF(T02_umuc6){ change(6,false); }
VF(T02_ucmu2){ change(2,true); } VF(T02_ucmu3){ change(3,true); } VF(T02_ucmu4){ change(4,true); } VF(T02_ucmu5){ change(5,true); } VF(T02_ucmu6){ change(6,true); }
VF(T02_conjugate){ for(size_t n=1;n<=6;n++){ Mat M(n,"M"),W(n,"W"); W.v=M.v; for(size_t k=0;k<n*n;k++) W.v[2*k+1]=-W.v[2*k+1]; nusquids::gsl_matrix_complex_conjugate(M.m); M.is(W,"the complex conjugate"); } }
