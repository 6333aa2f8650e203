// K03: the thread pool.
#include "vf.h"
#include <stdexcept>
#include <memory>
#include <vector>
#include <functional>
using namespace vfi;
#ifndef VF_NATIVE
#include <mutex>
#include <queue>
#define private public
#include <nuSQuIDS/ThreadPool.h>
#undef private
typedef std::queue<std::function<void()> > Queue;
VFThreads* vf_threads;
// One thread's view.  While the lock is not held, other threads may change the tasks and the stop flag, so that what this thread sees of
// them is arbitrary (junk); whenever it acquires the lock they are arbitrary again, but well formed.
static ThreadPool* pool; static bool junk,stopped_seen,empty_seen,slept; static bool pending; static size_t taken_id;
static void blur(){ pool->stop=junk; }
void vf_acquire(){ if(!pool) return; vf_assert(pool->stop==junk,"the stop flag is only changed under the lock"); vf_assert(!pending,"a task that was taken has run before the next one is taken"); pool->tasks.drop(); size_t h=vf_size("head",0,1ul<<40,3),n=vf_size("pending",0,1ul<<40,3); pool->tasks.head=h; pool->tasks.tail=h+n; pool->stop=vf_bool("stop"); }
void vf_release(){ if(!pool) return; stopped_seen=pool->stop; empty_seen=pool->tasks.head==pool->tasks.tail; blur(); }
// a wake-up counts once there is something to wake up for, or while the lock keeps the workers from looking
bool vf_notified(){ return pool && (vf_threads->held || pool->tasks.pushed || stopped_seen); }
void vf_sleep(bool awake){ vf_assert(awake || (!pool->stop && pool->tasks.head==pool->tasks.tail),"a worker does not sleep while there is a task or the pool stops"); }
template<> void Queue::vf_popped(size_t id){ vf_assert(!pending,"one task is taken at a time"); taken_id=id; pending=true; }
void VFTask::operator()() const{ vf_assert(!vf_threads->held,"tasks run without the lock"); vf_assert(pending,"a task runs once, after it has been taken out of the queue"); vf_assert(id==taken_id,"the task that was taken is the one that runs"); pending=false; }
struct World{ VFThreads t; World(){ t.held=false; t.notified_one=t.notified_all=t.started=t.joined=0; for(int k=0;k<8;k++) t.live[k]=false; vf_threads=&t; pool=nullptr; pending=false; junk=vf_bool("junk"); stopped_seen=empty_seen=false; } ~World(){ vf_threads=nullptr; pool=nullptr; } };
struct Pool{ ThreadPool* p; Pool(size_t n):p(new ThreadPool(n)){ pool=p; blur(); } ~Pool(){ if(p) end(); } void end(){ ThreadPool* q=p; p=nullptr; delete q; pool=nullptr; } };
VF(K03_worker){ World w; Pool p(1); vf_assert(w.t.started==1,"one thread per worker"); w.t.body[0](); vf_assert(!w.t.held,"a worker ends without the lock"); vf_assert(stopped_seen,"a worker ends only when the pool stops"); vf_assert(empty_seen,"a worker ends only when no task is left"); vf_assert(!pending,"every task that was taken has run"); }
static int calls; static double given;
struct Add{ bool fails; double operator()(double x) const{ vf_assert(!vf_threads->held,"tasks run without the lock"); calls++; given=x; if(fails) throw std::runtime_error("task"); return vf_fun(0,x); } };
struct Note{ void operator()(const double& x) const{ calls++; given=x; } };
// what a submitter does: the task is put in under the lock and announced, or refused
template<class R,class F,class G> static void submit(F f,double x,G check){ World w; Pool p(0); calls=0; std::future<R> r; bool thrown=false; try{ r=pool->enqueue(f,x); }catch(std::runtime_error&){ thrown=true; }
  vf_assert(!w.t.held,"the lock is released"); vf_assert(calls==0,"the submitter does not run the task"); Queue& q=pool->tasks; if(thrown){ vf_assert(stopped_seen,"tasks are refused only when the pool stops"); vf_assert(!q.pushed,"a refused task is not put into the queue"); return; }
  vf_assert(!stopped_seen,"a pool that stops takes no tasks"); vf_assert(q.pushed!=nullptr,"the task is put into the queue"); vf_assert(w.t.notified_one+w.t.notified_all>0,"a worker is woken once the task is there"); vf_assert(r.valid(),"the result can be asked for");
  std::function<void()> t=std::move(*q.pushed); t(); vf_assert(calls==1,"the task calls the function once"); vf_close(given,x,0,"with the given argument"); check(r); }
VF(K03_submit){ double x=vf_real("x"); bool fails=vf_bool("fails"); Add f={fails}; submit<double>(f,x,[&](std::future<double>& r){ bool thrown=false; double v=0; try{ v=r.get(); }catch(std::runtime_error&){ thrown=true; } vf_assert(thrown==fails,"an exception of the task reaches the submitter"); if(!fails) vf_close(v,vf_fun(0,x),0,"the result of the task reaches the submitter"); }); }
VF(K03_submit_void){ submit<void>(Note(),vf_real("x"),[](std::future<void>& r){ r.get(); }); }
// starting and stopping: bounded numbers of workers
VF_S(K03_life){ for(size_t n=0;n<=4;n++){ World w; Pool p(n); vf_assert(w.t.started==(long)n,"one thread per worker"); vf_assert(w.t.joined==0,"workers run until the pool ends"); p.end(); vf_assert(!w.t.held,"the lock is released"); vf_assert(w.t.joined==(long)n,"every worker is waited for"); vf_assert(stopped_seen,"the pool stops"); vf_assert(n==0 || w.t.notified_all>0,"all workers are woken"); } }
#endif
#ifdef VF_NATIVE
// bounded stand-in with real threads: whatever interleavings the machine happens to show
#include <nuSQuIDS/ThreadPool.h>
#include <atomic>
#include <chrono>
VF_B(K03_threads){ size_t workers=vf_size("workers",1,6,6),tasks=vf_size("tasks",0,40,40); bool nest=vf_bool("nest"),slow=vf_bool("slow"),collect=vf_bool("collect"); std::vector<std::shared_ptr<std::atomic<int> > > ran; for(size_t k=0;k<2*tasks;k++) ran.push_back(std::make_shared<std::atomic<int> >(0)); std::vector<std::future<double> > r; std::vector<std::future<void> > inner(tasks);
  { ThreadPool p(workers); for(size_t k=0;k<tasks;k++) r.push_back(p.enqueue([&,k](double x)->double{ ++*ran[k]; if(slow && k%7==0) std::this_thread::sleep_for(std::chrono::microseconds(50)); if(nest && collect) inner[k]=p.enqueue([&ran,k,tasks](){ ++*ran[tasks+k]; }); if(k%5==4) throw std::runtime_error("task"); return x+1; },double(k)));
    if(collect) for(size_t k=0;k<tasks;k++){ bool thrown=false; double v=0; try{ v=r[k].get(); }catch(std::runtime_error&){ thrown=true; } vf_assert(thrown==(k%5==4),"an exception of the task reaches the submitter"); if(!thrown) vf_assert(v==k+1.,"the result of the task reaches the submitter"); } }
  for(size_t k=0;k<tasks;k++){ vf_assert(*ran[k]==1,"every task runs once before the pool is gone"); if(nest && collect) vf_assert(*ran[tasks+k]==1,"tasks submitted by tasks run once before the pool is gone"); if(!collect) vf_assert(r[k].wait_for(std::chrono::seconds(0))==std::future_status::ready,"the result is there when the pool is gone"); } }
VF_B(K03_order){ std::vector<int> seen; size_t tasks=vf_size("tasks",0,30,30); { ThreadPool p(1); for(size_t k=0;k<tasks;k++) p.enqueue([&seen,k](){ seen.push_back((int)k); }); } vf_assert(seen.size()==tasks,"every task runs once before the pool is gone"); for(size_t k=0;k<tasks;k++) vf_assert(seen[k]==(int)k,"one worker runs the tasks in the order of submission"); }
// what hangs in case of an error is left behind: the case has failed then
VF_B(K03_prompt){ size_t workers=vf_size("workers",1,4,4),tasks=vf_size("tasks",0,3,3); bool nest=vf_bool("nest"),idle=vf_bool("idle"); const auto limit=std::chrono::seconds(20); ThreadPool* p=new ThreadPool(workers); if(idle) std::this_thread::sleep_for(std::chrono::microseconds(300));
  std::vector<std::future<int> >* r=new std::vector<std::future<int> >; std::vector<std::future<int> >* q=new std::vector<std::future<int> >(tasks); for(size_t k=0;k<tasks;k++){ r->push_back(p->enqueue([=](int x){ if(nest) (*q)[k]=p->enqueue([](int y){ return 2*y; },x); return x+1; },(int)k));
    vf_assert(r->back().wait_for(limit)==std::future_status::ready,"a task submitted to an idle pool runs"); vf_assert(r->back().get()==(int)k+1,"the result of the task reaches the submitter"); if(nest){ vf_assert((*q)[k].wait_for(limit)==std::future_status::ready,"a task submitted by a task runs"); vf_assert((*q)[k].get()==2*(int)k,"the result of the task reaches the submitter"); } }
  std::promise<void>* gone=new std::promise<void>; std::future<void> f=gone->get_future(); std::thread t([=]{ if(idle) std::this_thread::sleep_for(std::chrono::microseconds(300)); delete p; gone->set_value(); }); bool ended=f.wait_for(limit)==std::future_status::ready; if(!ended) t.detach(); vf_assert(ended,"the pool ends when its workers are idle"); t.join(); delete gone; delete r; delete q; }
// tasks that wait for each other run side by side, one per worker
VF_B(K03_meet){ size_t workers=vf_size("workers",1,5,5); bool idle=vf_bool("idle"); const auto limit=std::chrono::seconds(20); ThreadPool p(workers); if(idle) std::this_thread::sleep_for(std::chrono::microseconds(300)); std::atomic<size_t> here(0); std::vector<std::future<bool> > r;
  for(size_t k=0;k<workers;k++) r.push_back(p.enqueue([&]()->bool{ ++here; auto end=std::chrono::steady_clock::now()+limit; while(here<workers && std::chrono::steady_clock::now()<end) std::this_thread::yield(); return here>=workers; }));
  for(size_t k=0;k<workers;k++) vf_assert(r[k].get(),"a worker does not sleep while there is a task"); }
// a task that outlives the pool's destructor being called: its own tasks are refused from then on, and those refused are not run
VF_B(K03_refuse){ size_t workers=vf_size("workers",1,3,3); const auto limit=std::chrono::seconds(20); std::atomic<size_t> ran(0),accepted(0); std::atomic<bool> begun(false),refused(false),after(false);
  { ThreadPool p(workers); ThreadPool* q=&p; p.enqueue([&,q](){ begun=true; auto end=std::chrono::steady_clock::now()+limit; while(!refused && std::chrono::steady_clock::now()<end){ try{ q->enqueue([&](){ ++ran; }); ++accepted; std::this_thread::sleep_for(std::chrono::microseconds(20)); }catch(std::runtime_error&){ refused=true; } } try{ q->enqueue([&](){ ++ran; }); after=true; }catch(std::runtime_error&){} }); while(!begun) std::this_thread::yield(); }
  vf_assert(refused && !after,"a pool that stops takes no tasks"); vf_assert(ran==accepted,"accepted tasks run once, refused ones do not"); }
#endif
