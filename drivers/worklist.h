// The contract of a worklist, in place of std::vector and the like, for code that takes pending pieces from a container until none is left
// (verifier only).  The content is not represented: vf_pending() is what holds of every piece when it is put in, so also of whichever piece
// is taken out, and the sum of vf_weight() over the pieces is tracked (it is zero when none is left).  Which piece comes next is left open.
#ifndef VF_WORKLIST_H
#define VF_WORKLIST_H
namespace std{
template<class T,class A=void> struct vf_worklist{
  typedef T value_type; typedef size_t size_type; typedef T& reference; typedef const T& const_reference;
  double sum; bool some,shown; alignas(T) unsigned char raw[sizeof(T)];
  T& slot() const{ return *(T*)raw; }
  vf_worklist():sum(0),some(false),shown(false){}
  vf_worklist(std::initializer_list<T> l):vf_worklist(){ for(const T& t:l) push_back(t); }
  vf_worklist(size_t n,const T& t):vf_worklist(){ for(size_t i=0;i<n;i++) push_back(t); }
  void reserve(size_t){}
  bool empty() const{ if(some) return false; bool e=vf_bool("empty"); if(e) vf_assume(sum==0); const_cast<vf_worklist*>(this)->some=!e; return e; }
  size_t size() const{ return empty()?0:vf_size("size",1,1000,1000); }
  T& show(){ vf_assert(some,"a piece is only taken from a worklist that is not empty"); if(!shown){ vf_arbitrary(slot()); vf_pending(slot(),false); shown=true; } return slot(); }
  T& back(){ return show(); } T& front(){ return show(); } T& top(){ return show(); }
  void push_back(const T& t){ vf_pending(t,true); sum+=vf_weight(t); some=true; shown=false; }
  void push(const T& t){ push_back(t); } void push_front(const T& t){ push_back(t); }
  template<class... X> void emplace_back(X&&... x){ push_back(T(std::forward<X>(x)...)); } template<class... X> void emplace(X&&... x){ push_back(T(std::forward<X>(x)...)); }
  void pop_back(){ show(); sum-=vf_weight(slot()); vf_arbitrary(slot()); some=false; shown=false; }
  void pop(){ pop_back(); } void pop_front(){ pop_back(); }
  void clear(){ sum=0; some=false; shown=false; }
};
}
#endif
