// Contracts for saving bodies and tracks to HDF5 and restoring them (include/nuSQuIDS/body.h, src/body.cpp).
#include "bodies.cpp"
#include "h5store.h"
namespace{
bool named(hid_t g,const char* n){ std::string s; readH5Attribute(g,"name",s); return s==n; }
// the restored track is at the same place of the same trajectory
template<class T> std::shared_ptr<T> restore(Store& S,T& t,const char* n){ t.Serialize(S.group); vf_assert(named(S.group,n),"the kind of track is saved"); std::shared_ptr<T> u=T::Deserialize(S.group); vf_assert(S.closed(),"every identifier is closed");
  vf_close(u->GetX(),t.GetX(),0,"position"); vf_close(u->GetInitialX(),t.GetInitialX(),0,"initial position"); vf_close(u->GetFinalX(),t.GetFinalX(),0,"final position"); V p=t.GetTrackParams(),q=u->GetTrackParams(); vf_assert(p.size()==q.size(),"number of parameters"); size_t k=vf_index("k",p.size()); vf_close(p[k],q[k],0,"track parameters"); return u; }
template<class T> void straight(const char* n){ Store S; double x=vf_real("x"),xi=vf_real("xi"),xf=vf_real("xf"); T t(x,xi,xf); if(vf_bool("reversed")) t.ReverseTrack(); restore(S,t,n); }
template<class T> std::shared_ptr<T> again(Store& S,const T& b,const char* n){ b.Serialize(S.group); vf_assert(named(S.group,n),"the kind of body is saved"); std::shared_ptr<T> c=T::Deserialize(S.group); vf_assert(S.closed(),"every identifier is closed"); return c; }
}
VF(H03_vacuum_track){ straight<Vacuum::Track>("VacuumTrack"); }
VF(H03_constant_track){ straight<ConstantDensity::Track>("ConstantDensityTrack"); }
VF(H03_variable_track){ straight<VariableDensity::Track>("VariableDensityTrack"); }
VF(H03_sun_track){ straight<Sun::Track>("SunTrack"); }
VF(H03_earth_track){ Store S; Earth::Track t(vf_real("x"),vf_real("xi"),vf_real("xf"),vf_real("L")); if(vf_bool("reversed")) t.ReverseTrack(); std::shared_ptr<Earth::Track> u=restore(S,t,"EarthTrack"); vf_close(u->GetBaseline(),t.GetBaseline(),0,"baseline"); }
VF(H03_sunasnu_track){ Store S; double x=length("x",RA*KM),xi=length("xi",RA*KM),b=length("b",RA*KM); vf_assume(b>=0); vf_assume(b<=RA*KM); SunASnu::Track t(x,xi,b); if(vf_bool("reversed")) t.ReverseTrack(); restore(S,t,"SunASnuTrack"); }
// files written before the impact parameter was saved
VF(H03_sunasnu_track_old){ Store S; double x=length("x",RA*KM),xi=length("xi",RA*KM),b=length("b",RA*KM); vf_assume(b>=0); vf_assume(b<=RA*KM); SunASnu::Track t(x,xi,b); addH5Attribute(S.group,"x",t.GetX()); addH5Attribute(S.group,"xini",t.GetInitialX()); addH5Attribute(S.group,"xend",t.GetFinalX()); std::shared_ptr<SunASnu::Track> u=SunASnu::Track::Deserialize(S.group); double c=u->GetTrackParams()[2]; vf_close(c*c,b*b,RA*KM*RA*KM,"impact parameter from the length of the chord"); vf_close(u->GetFinalX(),t.GetFinalX(),0,"final position"); vf_assert(S.closed(),"every identifier is closed"); }
VF(H03_earthatm_track){ Store S; double R=vf_real("R"),h=vf_real("h"),c=cosine(),x=vf_real("x"); vf_assume(R>0); vf_assume(h>=0); EarthAtm::Track t=EarthAtm::Track::MakeWithCosine(c,R,h); t.SetX(x); if(vf_bool("reversed")) t.ReverseTrack(); std::shared_ptr<EarthAtm::Track> u=restore(S,t,"EarthAtmTrack"); vf_close(u->GetBaseline(),t.GetBaseline(),0,"baseline"); }
// files written before the radius and the height were saved
VF(H03_earthatm_track_old){ Store S; double c=cosine(); EarthAtm::Track t=EarthAtm::Track::MakeWithCosine(c,RE*KM,22*KM); addH5Attribute(S.group,"x",t.GetX()); addH5Attribute(S.group,"xini",t.GetInitialX()); addH5Attribute(S.group,"xend",t.GetFinalX()); addH5Attribute(S.group,"cosphi",c); std::shared_ptr<EarthAtm::Track> u=EarthAtm::Track::Deserialize(S.group); vf_close(u->GetBaseline(),t.GetBaseline(),0,"baseline"); V p=u->GetTrackParams(); vf_close(p[3],RE*KM,0,"radius"); vf_close(p[4],22*KM,0,"height"); vf_assert(S.closed(),"every identifier is closed"); }
VF(H03_vacuum){ Store S; Vacuum v; again(S,v,"Vacuum"); }
VF(H03_constant){ Store S; double rho=vf_real("rho"),ye=vf_real("ye"); ConstantDensity c(rho,ye); std::shared_ptr<ConstantDensity> d=again(S,c,"ConstantDensity"); Vacuum::Track t(1); vf_close(d->density(t),rho,0,"density"); vf_close(d->ye(t),ye,0,"electron fraction"); vf_close(d->GetBodyParams()[0],rho,0,"parameters"); vf_close(d->GetBodyParams()[1],ye,0,"parameters"); }
VF(H03_variable){ Tab T(-3,5); Store S; VariableDensity b(T.X,T.Y,T.Z); std::shared_ptr<VariableDensity> c=again(S,b,"VariableDensity"); double y=length("y",6); Vacuum::Track t(y*unit.cm,0,1); vf_close(c->density(t),b.density(t),0,"density"); vf_close(c->ye(t),b.ye(t),0,"electron fraction"); size_t k=vf_index("k",3*T.n); vf_assert(c->GetBodyParams().size()==3*T.n,"number of parameters"); vf_close(c->GetBodyParams()[k],b.GetBodyParams()[k],0,"parameters"); }
namespace{
template<class B,class T> void same_profile(const B& b,const B& c,const T& t){ vf_close(c.density(t),b.density(t),0,"density"); vf_close(c.ye(t),b.ye(t),0,"electron fraction"); vf_close(c.GetRadius(),b.GetRadius(),0,"radius"); }
}
VF(H03_earth){ Tab T(vf_bool("low")?-0.1:0.2,vf_bool("high")?1:0.7); Store S; Earth e(T.X,T.Y,T.Z); std::shared_ptr<Earth> c=again(S,e,"Earth"); double y=length("y",RE*KM); Earth::Track t(y,0,1,0); same_profile(e,*c,t); }
VF(H03_sun){ Tab T(vf_bool("low")?-0.1:0.2,vf_bool("high")?1:0.7); Store S; Sun e(T.X,T.Y,T.Z); std::shared_ptr<Sun> c=again(S,e,"Sun"); double y=length("y",RS*KM); Sun::Track t(y,0,1); same_profile(e,*c,t); }
VF(H03_sunasnu){ Tab T(vf_bool("low")?-0.1:0.2,vf_bool("high")?1:0.7); Store S; SunASnu e(T.X,T.Y,T.Z); std::shared_ptr<SunASnu> c=again(S,e,"SunASnu"); double y=length("y",RA*KM); SunASnu::Track t(y,0,0); same_profile(e,*c,t); }
VF(H03_earthatm){ Tab T(vf_bool("low")?-0.1:0.2,vf_bool("high")?1:0.7); Store S; EarthAtm e(T.X,T.Y,T.Z); double h=height(),z=cosine(),y=length("y",RE*KM); e.SetAtmosphereHeight(h); std::shared_ptr<EarthAtm> c=again(S,e,"EarthAtm"); EarthAtm::Track t=e.MakeTrackWithCosine(z); t.SetX(y); same_profile(e,*c,t); vf_close(c->GetAtmosphereHeight(),h,0,"height of the atmosphere"); }
#ifdef VF_NATIVE
// the registry used to restore a body or track of unknown kind
VF_B(H03_registry){ struct E{ const char* n; int w; }; int w=(int)vf_int("w",0,6,0,6); Store S; Tab T(0,1); double x=vf_real("x"); vf_assume(x>=0); std::shared_ptr<Body> b; std::shared_ptr<Body::Track> t;
  switch(w){ case 0: b=std::make_shared<Vacuum>(); t=std::make_shared<Vacuum::Track>(x,0,2); break; case 1: b=std::make_shared<ConstantDensity>(3,0.5); t=std::make_shared<ConstantDensity::Track>(x,0,2); break; case 2: b=std::make_shared<VariableDensity>(T.X,T.Y,T.Z); t=std::make_shared<VariableDensity::Track>(x,0,2); break; case 3: b=std::make_shared<Earth>(T.X,T.Y,T.Z); t=std::make_shared<Earth::Track>(x,0,2,2); break; case 4: b=std::make_shared<Sun>(T.X,T.Y,T.Z); t=std::make_shared<Sun::Track>(x,0,2); break; case 5: b=std::make_shared<SunASnu>(T.X,T.Y,T.Z); t=std::make_shared<SunASnu::Track>(x,0,0); break; default: b=std::make_shared<EarthAtm>(T.X,T.Y,T.Z); t=std::make_shared<EarthAtm::Track>(EarthAtm::Track::MakeWithCosine(0.3,RE*KM,22*KM)); }
  std::string n; { b->Serialize(S.group); readH5Attribute(S.group,"name",n); std::shared_ptr<Body> c=GetBodyDeserializer(n)(S.group); vf_assert(typeid(*c)==typeid(*b),"the kind of body is restored"); }
  { Store Q; t->Serialize(Q.group); readH5Attribute(Q.group,"name",n); std::shared_ptr<Body::Track> u=GetTrackDeserializer(n)(Q.group); vf_assert(typeid(*u)==typeid(*t),"the kind of track is restored"); vf_close(u->GetX(),t->GetX(),0,"position"); }
  bool r=false; try{ GetBodyDeserializer("no such body"); }catch(std::runtime_error&){ r=true; } vf_assert(r,"unknown bodies are refused"); r=false; try{ GetTrackDeserializer("no such track"); }catch(std::runtime_error&){ r=true; } vf_assert(r,"unknown tracks are refused"); }
#endif
