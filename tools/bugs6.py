
H = 'include/nuSQuIDS/ThreadPool.h'
P = r'''
#include <nuSQuIDS/ThreadPool.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <unistd.h>
using namespace std::chrono;
'''
L = '-pthread'
BUGS = [
 dict(id='k03-drop', property='K03', libs=L, edits=[(H, 'if(this->stop && this->tasks.empty())', 'if(this->stop)')],
  needs='tasks still waiting when the pool is destroyed', breaks='waiting tasks are dropped', demo=P + r'''
int main(){ std::atomic<int> n(0); { ThreadPool p(2); for(int k=0;k<50;k++) p.enqueue([&]{ std::this_thread::sleep_for(milliseconds(2)); ++n; }); } std::printf("%d\n",(int)n); return n!=50; }
'''),
 dict(id='k03-notify', property='K03', libs=L, edits=[(H, 'condition.notify_all();', 'condition.notify_one();')],
  needs='two or more workers asleep when the pool is destroyed', breaks='the destructor waits for ever for workers that were not woken', demo=P + r'''
int main(){ alarm(10); { ThreadPool p(4); std::this_thread::sleep_for(milliseconds(200)); } return 0; }
'''),
 dict(id='k03-wait', property='K03', libs=L, edits=[(H, '[this]{ return this->stop || !this->tasks.empty(); });', '[this]{ return this->stop || this->tasks.size()>1; });')],
  needs='a single task in an idle pool', breaks='a lone task waits until another one is submitted', demo=P + r'''
int main(){ ThreadPool p(2); std::this_thread::sleep_for(milliseconds(100)); auto r=p.enqueue([](int x){ return x+1; },4); return r.wait_for(seconds(3))!=std::future_status::ready || r.get()!=5; }
'''),
 dict(id='k03-locked', property='K03', libs=L, edits=[(H, '''                        this->tasks.pop();
                    }

                    task();''', '''                        this->tasks.pop();
                    if(workers.size()>1) lock.unlock();

                    task();}''')],
  needs='a pool of one worker whose task submits another task', breaks='the task runs under the lock and waits for itself', demo=P + r'''
int main(){ alarm(10); std::atomic<int> n(0); { ThreadPool p(1); p.enqueue([&]{ p.enqueue([&]{ ++n; }); ++n; }).get(); } return n!=2; }
'''),
 dict(id='k03-back', property='K03', libs=L, edits=[(H, 'task = std::move(this->tasks.front());', 'task = this->tasks.size()>8 ? std::move(this->tasks.back()) : std::move(this->tasks.front());')],
  needs='more than eight tasks waiting', breaks='the newest task is run in place of the oldest, which is discarded', demo=P + r'''
int main(){ std::vector<int> n(40,0); alarm(20); { ThreadPool p(1); p.enqueue([]{ std::this_thread::sleep_for(milliseconds(100)); }); for(int k=0;k<7;k++) p.enqueue([&n,k]{ ++n[k]; }); for(int k=7;k<40;k++) p.enqueue([&n,k]{ ++n[k]; }); } for(int k=0;k<40;k++) if(n[k]!=1){ std::printf("task %d ran %d times\n",k,n[k]); return 1; } return 0; }
'''),
 dict(id='k03-early', property='K03', libs=L, edits=[(H, '''        tasks.emplace([task](){ (*task)(); });
    }
    condition.notify_one();''', '''        if(tasks.empty())
            condition.notify_one();
        lock.unlock();
        lock.lock();
        tasks.emplace([task](){ (*task)(); });
    }''')],
  needs='a worker that looks for tasks between the wake-up and the moment the task is put in', breaks='the worker goes back to sleep and the task waits', demo=P + r'''
int main(){ for(int k=0;k<20000;k++){ ThreadPool p(1); if(k%2) std::this_thread::sleep_for(microseconds(100)); auto r=p.enqueue([](int x){ return x+1; },4); if(r.wait_for(seconds(2))!=std::future_status::ready){ std::printf("round %d\n",k); return 1; } } return 0; }
'''),
 dict(id='k03-first', property='K03', libs=L, edits=[(H, '''        tasks.emplace([task](){ (*task)(); });
    }
    condition.notify_one();''', '''        tasks.emplace([task](){ (*task)(); });
        if(tasks.size()==1)
            condition.notify_one();
    }''')],
  needs='several tasks submitted before the first worker has woken up, that wait for each other', breaks='one worker is woken for all of them, the others sleep while tasks wait', demo=P + r'''
int main(){ for(int k=0;k<50;k++){ std::atomic<int> here(0); ThreadPool p(4); std::this_thread::sleep_for(milliseconds(5)); std::vector<std::future<bool> > r; for(int j=0;j<4;j++) r.push_back(p.enqueue([&]()->bool{ ++here; auto end=steady_clock::now()+seconds(3); while(here<4 && steady_clock::now()<end) std::this_thread::yield(); return here==4; })); for(auto& f:r) if(!f.get()) return 1; } return 0; }
'''),
 dict(id='k03-checklate', property='K03', libs=L, edits=[(H, '''        if(stop)
            throw std::runtime_error("enqueue on stopped ThreadPool");

        tasks.emplace([task](){ (*task)(); });
    }
    condition.notify_one();''', '''        tasks.emplace([task](){ (*task)(); });
        if(stop)
            throw std::runtime_error("enqueue on stopped ThreadPool");
    }
    condition.notify_one();''')],
  needs='a task that submits another one while the pool is being destroyed', breaks='the refused task runs all the same', demo=P + r'''
int main(){ std::atomic<int> ran(0); std::atomic<bool> refused(false),begun(false); { ThreadPool p(1); p.enqueue([&]{ begun=true; std::this_thread::sleep_for(milliseconds(300)); try{ p.enqueue([&]{ ++ran; }); }catch(std::runtime_error&){ refused=true; } }); while(!begun) std::this_thread::yield(); } std::printf("%d %d\n",(int)refused,(int)ran); return !refused || ran!=0; }
'''),
]
