// Persistence contracts: the group of an HDF5 file that is written to and read back.
// For the verifier: a model of the HDF5 calls used (assumed contract of the HDF5 library), as ordinary code over a ghost store.
// Natively: the real library on a file kept in memory.
#ifndef VF_H5STORE
#define VF_H5STORE
#include <hdf5.h>
#include <hdf5_hl.h>
#ifdef VF_NATIVE
namespace{
hid_t h5_file(){ static int n=0; char nm[32]; snprintf(nm,sizeof nm,"vf_file%d.h5",n++); H5open(); H5Eset_auto2(H5E_DEFAULT,nullptr,nullptr); hid_t p=H5Pcreate(H5P_FILE_ACCESS); H5Pset_fapl_core(p,1<<16,0); hid_t f=H5Fcreate(nm,H5F_ACC_TRUNC,H5P_DEFAULT,p); H5Pclose(p); return f; }
bool h5_open(hid_t f){ return H5Iis_valid(f)>0; }
void h5_close(hid_t f){ H5Fclose(f); }
struct Store{ hid_t file,group; hsize_t n0[3]; static hsize_t count(H5I_type_t t){ hsize_t n=0; H5Inmembers(t,&n); return n; }
  Store(){ H5open(); H5Eset_auto2(H5E_DEFAULT,nullptr,nullptr); hid_t p=H5Pcreate(H5P_FILE_ACCESS); H5Pset_fapl_core(p,1<<16,0); static int n=0; char nm[32]; snprintf(nm,sizeof nm,"vf_store%d.h5",n++); file=H5Fcreate(nm,H5F_ACC_TRUNC,H5P_DEFAULT,p); H5Pclose(p); group=H5Gcreate2(file,"g",H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT); n0[0]=count(H5I_DATATYPE); n0[1]=count(H5I_DATASPACE); n0[2]=count(H5I_GENPROP_LST); }
  size_t opened() const{ return (size_t)H5Fget_obj_count(H5F_OBJ_ALL,H5F_OBJ_ALL)+count(H5I_DATATYPE)+count(H5I_DATASPACE)+count(H5I_GENPROP_LST); }
  bool closed() const{ return H5Fget_obj_count(file,H5F_OBJ_ATTR|H5F_OBJ_DATASET|H5F_OBJ_DATATYPE)==0 && count(H5I_DATATYPE)==n0[0] && count(H5I_DATASPACE)==n0[1] && count(H5I_GENPROP_LST)==n0[2]; }
  ~Store(){ H5Gclose(group); H5Fclose(file); } };
}
#else
namespace h5m{
enum Kind{ FREE=0, SPACE, TYPE, ATTR, DSET, PLIST, FILE, GRP };
enum Class{ NONE=0, INT, UINT, FLOAT, DOUBLE, STRING };
#ifndef VF_NDSET
#define VF_NDSET 8
#endif
const int NH=12,NA=16,ND=VF_NDSET,NL=8,BASE=1000;
struct Handle{ int kind; int cls; size_t size; int rank; hsize_t ext[4]; int ref; };                     // open identifiers
struct Attr{ char name[40]; int cls; size_t size; double d; float f; int i; unsigned u; char* s; };      // attributes of the group
struct Dset{ char name[40]; int loc; int cls; int rank; hsize_t ext[4]; double* d; };                             // its datasets
static Handle H[NH]; static Attr A[NA]; static Dset D[ND]; static int nh,na,nd,open;
static bool same(const char* a,const char* b){ size_t k=0; while(a[k] && a[k]==b[k]) k++; return a[k]==b[k]; }
static void copy(char* a,const char* b){ size_t k=0; while(b[k]){ a[k]=b[k]; k++; } a[k]=0; }
static hid_t fresh(int kind){ vf_assert(nh<NH,"model: number of identifiers"); H[nh].kind=kind; H[nh].rank=0; open++; return BASE+nh++; }
static Handle* get(hid_t h,int kind){ if(h<BASE || h>=BASE+nh) return nullptr; Handle* p=&H[h-BASE]; return p->kind==kind?p:nullptr; }
static herr_t close(hid_t h,int kind){ Handle* p=get(h,kind); if(!p) return -1; p->kind=FREE; open--; if(h==BASE+nh-1) nh--; return 0; }
struct Link{ char name[40]; int loc; };                                                                    // its groups (hard links)
static Link L[NL]; static int nl,ng; static bool made;                       // (there is one file; its path does not matter)
const hid_t GROUP=77;
static int loc(hid_t h){ if(h==GROUP) return 0; if(h<BASE || h>=BASE+nh) return -1; Handle* p=&H[h-BASE]; return p->kind==FILE?0:p->kind==GRP?p->ref:-1; }   // where an identifier of a file or group leads
static int link(const char* n){ for(int k=0;k<nl;k++) if(same(L[k].name,n)) return k; return -1; }
static int attr(const char* n){ for(int k=0;k<na;k++) if(same(A[k].name,n)) return k; return -1; }
static int dset(int l,const char* n){ for(int k=0;k<nd;k++) if(D[k].loc==l && same(D[k].name,n)) return k; return -1; }
static int cls(hid_t t){ if(t>0 && t<=STRING) return (int)t; Handle* p=get(t,TYPE); return p?p->cls:(int)NONE; }
static size_t size(hid_t t){ if(t>0 && t<=STRING) return t==DOUBLE?8:t==STRING?1:4; Handle* p=get(t,TYPE); return p?p->size:0; }
static void begin(){ made=false; nh=na=nd=open=nl=0; ng=1; }
static void end(){ for(int k=0;k<na;k++) if(A[k].cls==STRING) delete[] A[k].s; for(int k=0;k<nd;k++) delete[] D[k].d; }
}
extern "C"{
hid_t H5T_NATIVE_DOUBLE_g,H5T_NATIVE_FLOAT_g,H5T_NATIVE_INT_g,H5T_NATIVE_UINT_g,H5T_IEEE_F64LE_g,H5T_C_S1_g,H5P_CLS_DATASET_CREATE_ID_g;
hid_t H5P_CLS_LINK_CREATE_ID_g,H5P_CLS_LINK_ACCESS_ID_g;
herr_t H5open(void){ return 0; }
herr_t H5check_version(unsigned,unsigned,unsigned){ return 0; }
hid_t H5Screate_simple(int rank,const hsize_t* d,const hsize_t*){ if(rank<1 || rank>4) return -1; hid_t h=h5m::fresh(h5m::SPACE); h5m::Handle* p=h5m::get(h,h5m::SPACE); p->rank=rank; for(int k=0;k<rank;k++) p->ext[k]=d[k]; return h; }
herr_t H5Sclose(hid_t h){ return h5m::close(h,h5m::SPACE); }
int H5Sget_simple_extent_ndims(hid_t h){ h5m::Handle* p=h5m::get(h,h5m::SPACE); return p?p->rank:-1; }
int H5Sget_simple_extent_dims(hid_t h,hsize_t* d,hsize_t*){ h5m::Handle* p=h5m::get(h,h5m::SPACE); if(!p) return -1; for(int k=0;k<p->rank;k++) d[k]=p->ext[k]; return p->rank; }
hid_t H5Tcopy(hid_t t){ int c=h5m::cls(t); if(!c) return -1; size_t s=h5m::size(t); hid_t h=h5m::fresh(h5m::TYPE); h5m::Handle* p=h5m::get(h,h5m::TYPE); p->cls=c; p->size=s; return h; }
herr_t H5Tset_size(hid_t t,size_t s){ h5m::Handle* p=h5m::get(t,h5m::TYPE); if(!p || !s) return -1; p->size=s; return 0; }
size_t H5Tget_size(hid_t t){ return h5m::size(t); }
H5T_class_t H5Tget_class(hid_t t){ int c=h5m::cls(t); return c==h5m::NONE?H5T_NO_CLASS:c==h5m::STRING?H5T_STRING:c==h5m::INT||c==h5m::UINT?H5T_INTEGER:H5T_FLOAT; }
htri_t H5Tequal(hid_t a,hid_t b){ int c=h5m::cls(a),d=h5m::cls(b); if(!c || !d) return -1; return c==d && h5m::size(a)==h5m::size(b); }
herr_t H5Tclose(hid_t t){ return h5m::close(t,h5m::TYPE); }
hid_t H5Acreate2(hid_t loc,const char* n,hid_t t,hid_t s,hid_t,hid_t){ h5m::Handle* sp=h5m::get(s,h5m::SPACE); int c=h5m::cls(t); if(h5m::loc(loc)!=0 || !sp || !c || h5m::attr(n)>=0) return -1; vf_assert(sp->rank==1 && sp->ext[0]==1,"attributes hold one value"); vf_assert(h5m::na<h5m::NA,"model: number of attributes");
  h5m::Attr& a=h5m::A[h5m::na]; h5m::copy(a.name,n); a.cls=c; a.size=h5m::size(t); if(c==h5m::STRING){ a.s=new char[a.size]; for(size_t k=0;k<a.size;k++) a.s[k]=0; } else{ a.d=0; a.f=0; a.i=0; a.u=0; } hid_t h=h5m::fresh(h5m::ATTR); h5m::get(h,h5m::ATTR)->ref=h5m::na++; return h; }
hid_t H5Aopen(hid_t loc,const char* n,hid_t){ int k=h5m::attr(n); if(h5m::loc(loc)!=0 || k<0) return -1; hid_t h=h5m::fresh(h5m::ATTR); h5m::get(h,h5m::ATTR)->ref=k; return h; }
herr_t H5Aclose(hid_t h){ return h5m::close(h,h5m::ATTR); }
htri_t H5Aexists(hid_t loc,const char* n){ return h5m::loc(loc)!=0?-1:h5m::attr(n)>=0; }
hid_t H5Aget_type(hid_t h){ h5m::Handle* p=h5m::get(h,h5m::ATTR); if(!p) return -1; hid_t t=h5m::fresh(h5m::TYPE); h5m::Handle* q=h5m::get(t,h5m::TYPE); h5m::Attr& a=h5m::A[h5m::get(h,h5m::ATTR)->ref]; q->cls=a.cls; q->size=a.size; return t; }
herr_t H5Awrite(hid_t h,hid_t t,const void* v){ h5m::Handle* p=h5m::get(h,h5m::ATTR); int c=h5m::cls(t); if(!p || !c) return -1; h5m::Attr& a=h5m::A[p->ref]; if((c==h5m::STRING)!=(a.cls==h5m::STRING)) return -1; vf_assert(c==a.cls && h5m::size(t)==a.size,"model: attributes are written as the type they were created with");
  if(c==h5m::DOUBLE) a.d=*(const double*)v; else if(c==h5m::FLOAT) a.f=*(const float*)v; else if(c==h5m::INT) a.i=*(const int*)v; else if(c==h5m::UINT) a.u=*(const unsigned*)v; else{ const char* s=(const char*)v; for(size_t k=0;k<a.size;k++) a.s[k]=s[k]; } return 0; }
herr_t H5Aread(hid_t h,hid_t t,void* v){ h5m::Handle* p=h5m::get(h,h5m::ATTR); int c=h5m::cls(t); if(!p || !c) return -1; h5m::Attr& a=h5m::A[p->ref]; if((c==h5m::STRING)!=(a.cls==h5m::STRING)) return -1; vf_assert(c==a.cls && h5m::size(t)==a.size,"attributes are read as the type they have");
  if(c==h5m::DOUBLE) *(double*)v=a.d; else if(c==h5m::FLOAT) *(float*)v=a.f; else if(c==h5m::INT) *(int*)v=a.i; else if(c==h5m::UINT) *(unsigned*)v=a.u; else{ char* s=(char*)v; for(size_t k=0;k<a.size;k++) s[k]=a.s[k]; } return 0; }
hid_t H5Pcreate(hid_t){ return h5m::fresh(h5m::PLIST); }
herr_t H5Pset_chunk(hid_t h,int r,const hsize_t* d){ h5m::Handle* p=h5m::get(h,h5m::PLIST); if(!p || r<1 || r>4) return -1; for(int k=0;k<r;k++) if(d[k]==0) return -1; p->rank=r; for(int k=0;k<r;k++) p->ext[k]=d[k]; return 0; }
herr_t H5Pset_deflate(hid_t h,unsigned l){ return h5m::get(h,h5m::PLIST) && l<=9?0:-1; }
herr_t H5Pclose(hid_t h){ return h5m::close(h,h5m::PLIST); }
static size_t h5m_total(int r,const hsize_t* e){ size_t n=1; for(int k=0;k<r;k++) n*=e[k]; return n; }
hid_t H5Dcreate2(hid_t loc,const char* n,hid_t t,hid_t s,hid_t,hid_t pl,hid_t){ h5m::Handle* sp=h5m::get(s,h5m::SPACE); int c=h5m::cls(t); int l=h5m::loc(loc); if(l<0 || !sp || !c || h5m::dset(l,n)>=0) return -1; vf_assert(h5m::nd<h5m::ND,"model: number of datasets"); vf_assert(c==h5m::DOUBLE || c==h5m::FLOAT,"model: datasets of numbers");
  if(pl!=H5P_DEFAULT){ h5m::Handle* p=h5m::get(pl,h5m::PLIST); if(!p || p->rank!=sp->rank) return -1; for(int k=0;k<p->rank;k++) if(p->ext[k]>sp->ext[k]) return -1; }
  h5m::Dset& d=h5m::D[h5m::nd]; h5m::copy(d.name,n); d.loc=l; d.cls=c; d.rank=sp->rank; for(int k=0;k<d.rank;k++) d.ext[k]=sp->ext[k]; d.d=nullptr; hid_t h=h5m::fresh(h5m::DSET); h5m::get(h,h5m::DSET)->ref=h5m::nd++; return h; }
hid_t H5Dopen2(hid_t loc,const char* n,hid_t){ int l=h5m::loc(loc); int k=l<0?-1:h5m::dset(l,n); if(k<0) return -1; hid_t h=h5m::fresh(h5m::DSET); h5m::get(h,h5m::DSET)->ref=k; return h; }
herr_t H5Dclose(hid_t h){ return h5m::close(h,h5m::DSET); }
hid_t H5Dget_space(hid_t h){ h5m::Handle* p=h5m::get(h,h5m::DSET); if(!p) return -1; h5m::Dset& d=h5m::D[p->ref]; hid_t s=h5m::fresh(h5m::SPACE); h5m::Handle* q=h5m::get(s,h5m::SPACE); q->rank=d.rank; for(int k=0;k<d.rank;k++) q->ext[k]=d.ext[k]; return s; }
herr_t H5Dwrite(hid_t h,hid_t t,hid_t,hid_t,hid_t,const void* v){ h5m::Handle* p=h5m::get(h,h5m::DSET); if(!p || h5m::cls(t)!=h5m::DOUBLE) return -1; h5m::Dset& d=h5m::D[p->ref]; size_t n=h5m_total(d.rank,d.ext); delete[] d.d; d.d=nullptr; if(n){ d.d=new double[n]; __builtin_memcpy(d.d,v,n*sizeof(double)); } return 0; }
herr_t H5Dread(hid_t h,hid_t t,hid_t,hid_t,hid_t,void* v){ h5m::Handle* p=h5m::get(h,h5m::DSET); if(!p || h5m::cls(t)!=h5m::DOUBLE) return -1; h5m::Dset& d=h5m::D[p->ref]; size_t n=h5m_total(d.rank,d.ext); if(n) __builtin_memcpy(v,d.d,n*sizeof(double)); return 0; }
herr_t H5LTmake_dataset_double(hid_t loc,const char* n,int r,const hsize_t* e,const double* v){ hid_t s=H5Screate_simple(r,e,nullptr); if(s<0) return -1; hid_t d=H5Dcreate2(loc,n,h5m::DOUBLE,s,0,H5P_DEFAULT,0); if(d>=0){ H5Dwrite(d,h5m::DOUBLE,0,0,0,v); H5Dclose(d); } H5Sclose(s); return d<0?-1:0; }
herr_t H5LTread_dataset_double(hid_t loc,const char* n,double* v){ hid_t d=H5Dopen2(loc,n,0); if(d<0) return -1; H5Dread(d,h5m::DOUBLE,0,0,0,v); H5Dclose(d); return 0; }
htri_t H5Lexists(hid_t loc,const char* n,hid_t){ int l=h5m::loc(loc); return l<0?-1:h5m::dset(l,n)>=0 || (l==0 && h5m::link(n)>=0); }
htri_t H5Oexists_by_name(hid_t loc,const char* n,hid_t){ return H5Lexists(loc,n,0)>0?1:-1; }
herr_t H5Fclose(hid_t h){ return h5m::close(h,h5m::FILE); }
hid_t H5Fcreate(const char*,unsigned,hid_t,hid_t){ for(int k=0;k<h5m::nd;k++) delete[] h5m::D[k].d; h5m::nd=h5m::na=h5m::nl=0; h5m::ng=1; h5m::made=true; return h5m::fresh(h5m::FILE); }
hid_t H5Fopen(const char*,unsigned,hid_t){ return h5m::made?h5m::fresh(h5m::FILE):-1; }
hid_t H5Gcreate2(hid_t loc,const char* n,hid_t,hid_t,hid_t){ if(h5m::loc(loc)!=0 || H5Lexists(loc,n,0)) return -1; vf_assert(h5m::nl<h5m::NL,"model: number of groups"); h5m::copy(h5m::L[h5m::nl].name,n); h5m::L[h5m::nl].loc=h5m::ng; h5m::nl++; hid_t h=h5m::fresh(h5m::GRP); h5m::get(h,h5m::GRP)->ref=h5m::ng++; return h; }
hid_t H5Gopen2(hid_t loc,const char* n,hid_t){ int k=h5m::link(n); if(h5m::loc(loc)!=0 || k<0) return -1; hid_t h=h5m::fresh(h5m::GRP); h5m::get(h,h5m::GRP)->ref=h5m::L[k].loc; return h; }
herr_t H5Gclose(hid_t h){ return h5m::close(h,h5m::GRP); }
herr_t H5Lcreate_hard(hid_t a,const char* n,hid_t b,const char* m,hid_t,hid_t){ int k=h5m::link(n); if(h5m::loc(a)!=0 || h5m::loc(b)!=0 || k<0 || H5Lexists(b,m,0)) return -1; vf_assert(h5m::nl<h5m::NL,"model: number of groups"); h5m::copy(h5m::L[h5m::nl].name,m); h5m::L[h5m::nl].loc=h5m::L[k].loc; h5m::nl++; return 0; }
herr_t H5Lget_info(hid_t loc,const char* n,H5L_info_t* i,hid_t){ int k=h5m::link(n); if(h5m::loc(loc)!=0 || k<0) return -1; i->type=H5L_TYPE_HARD; i->u.address=(haddr_t)h5m::L[k].loc; return 0; }
}
namespace{
hid_t h5_file(){ return h5m::fresh(h5m::FILE); }
bool h5_made(){ return h5m::made; }
bool h5_open(hid_t h){ return h5m::get(h,h5m::FILE); }
void h5_close(hid_t h){ H5Fclose(h); }
struct Store{ hid_t group; Store():group(h5m::GROUP){ h5m::begin(); H5T_NATIVE_DOUBLE_g=H5T_IEEE_F64LE_g=h5m::DOUBLE; H5T_NATIVE_FLOAT_g=h5m::FLOAT; H5T_NATIVE_INT_g=h5m::INT; H5T_NATIVE_UINT_g=h5m::UINT; H5T_C_S1_g=h5m::STRING; H5P_CLS_DATASET_CREATE_ID_g=H5P_CLS_LINK_CREATE_ID_g=H5P_CLS_LINK_ACCESS_ID_g=99; }
  bool closed() const{ return h5m::open==0; } size_t opened() const{ return (size_t)h5m::open; }
  ~Store(){ h5m::end(); } };
}
#endif
#endif
