// Cooperative deterministic scheduler. The thread pools under test are compiled with their threads,
// atomics, clocks and synchronisation objects replaced by these, so that exactly one thread runs
// between two scheduling points and the schedule is a chosen, replayable sequence.
#pragma once
#include <thread>
#include <mutex>
#include <shared_mutex>
#include <condition_variable>
#include <functional>
#include <vector>
#include <memory>
#include <chrono>
#include <random>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
namespace vp{
struct Th{ int id; std::condition_variable cv; bool go=false, done=false; std::function<bool()> en; bool timed=false, timedout=false, notified=false; };
struct Sched{
 std::mutex mx; std::vector<std::unique_ptr<Th>> th; int cur=0; long steps=0, limit=200000;
 // strategy
 int mode=0; unsigned long rs=1; int sticky=60; std::vector<int> script; size_t sp=0;
 std::vector<std::pair<int,int>> dec; size_t dpos=0; int preempt=0, pbound=2;   // systematic exploration (mode 2)
 std::function<void(const char*)> stuck; long clk=0; int hw=3, lastTimed=-1; long run=0;
 unsigned rnd(){ rs=rs*6364136223846793005ul+1442695040888963407ul; return unsigned(rs>>33); }
 void reset(){ th.clear(); th.emplace_back(new Th); th[0]->id=0; cur=0; steps=0; sp=0; dpos=0; preempt=0; clk=0; lastTimed=-1; run=0; }
 int choose(const std::vector<int>&E){ // E: enabled ids, non empty
  bool selfIn=std::find(E.begin(),E.end(),cur)!=E.end() && !th[cur]->timed;
  std::vector<int> F; for(int i:E) if(!th[i]->timed) F.push_back(i);
  if(F.empty()) F=E; else if(F.size()<E.size() && mode!=2 && rnd()%20==0) F=E;
  if(mode==1){ while(sp<script.size()){ int w=script[sp++]; if(std::find(F.begin(),F.end(),w)!=F.end()) return w; } return F[rnd()%F.size()]; }
  if(mode==2 && th[F[0]]->timed){ /* only timeouts are left: fire them fairly, this is not a choice */ int n=F[0]; for(int i:F) if(i>lastTimed){ n=i; break; } lastTimed=n; return n; }
  if(mode==2){ if(selfIn && run>3000 && F.size()>1){ run=0; for(int i:F) if(i!=cur) return i; } // depth-first over preemption-bounded schedules; option 0 = continue current
    std::vector<int> O; if(selfIn) O.push_back(cur); for(int i:F) if(i!=cur || !selfIn) O.push_back(i);
    int n = (selfIn && preempt>=pbound)?1:(int)O.size(); int k=0;
    if(dpos<dec.size()){ k=dec[dpos].first; dec[dpos].second=n; } else dec.push_back({0,n});
    ++dpos; if(k>=n) k=n-1; if(selfIn && k>0) ++preempt; return O[k]; }
  if(selfIn && (int)(rnd()%100)<sticky) return cur;
  return F[rnd()%F.size()]; }
 bool next_systematic(){ while(!dec.empty()){ if(dec.back().first+1<dec.back().second){ ++dec.back().first; return true; } dec.pop_back(); } return false; }
 // called with mx held by the thread that owns the token; hands the token on and waits to get it back
 void sw(std::unique_lock<std::mutex>&lk,int me,bool finishing=false){
  if(++steps>limit){ stuck("steplimit"); }
  std::vector<int> E; for(auto&t:th) if(!t->done && (!t->en || t->en() || t->timed)) E.push_back(t->id);
  if(E.empty()){ bool all=true; for(auto&t:th) all=all&&t->done; if(all) return; stuck("deadlock"); }
  int n=choose(E); run=(n==cur)?run+1:0; cur=n; Th&t=*th[n];
  if(t.timed && !(t.en && t.en())){ t.timedout=true; clk+=20; }
  if(n!=me){ t.go=true; t.cv.notify_one(); if(!finishing){ Th&m=*th[me]; m.cv.wait(lk,[&]{return m.go;}); m.go=false; } } }
 void point(std::function<bool()> en=nullptr,bool timed=false){
  int me=self(); std::unique_lock<std::mutex> lk(mx); Th&m=*th[me]; m.en=en; m.timed=timed; m.timedout=false; sw(lk,me); m.en=nullptr; m.timed=false; }
 static int& self(){ static thread_local int s=0; return s; }
 int spawn(){ std::unique_lock<std::mutex> lk(mx); th.emplace_back(new Th); th.back()->id=(int)th.size()-1; return th.back()->id; }
 void enter(int id){ self()=id; std::unique_lock<std::mutex> lk(mx); Th&m=*th[id]; m.cv.wait(lk,[&]{return m.go;}); m.go=false; }
 void leave(int id){ std::unique_lock<std::mutex> lk(mx); th[id]->done=true; sw(lk,id,true); }
};
inline Sched& S(){ static Sched s; return s; }
struct mutex{ int owner=-1, readers=0;
 void lock(){ S().point([this]{return owner<0&&readers==0;}); owner=Sched::self(); }
 bool try_lock(){ S().point(); if(owner<0&&readers==0){ owner=Sched::self(); return true;} return false; }
 void unlock(){ owner=-1; S().point(); } };
struct shared_mutex: mutex{
 void lock_shared(){ S().point([this]{return owner<0;}); ++readers; }
 void unlock_shared(){ --readers; S().point(); } };
struct cond_var{ std::vector<int> w;
 template<class L> void wait(L&lk){ S().point(); int me=Sched::self(); Th*t=S().th[me].get(); t->notified=false; w.push_back(me); lk.unlock(); S().point([t]{return t->notified;}); lk.lock(); }
 template<class L,class P> void wait(L&lk,P p){ while(!p()) wait(lk); }
 template<class L,class R,class Q> std::cv_status wait_for(L&lk,const std::chrono::duration<R,Q>&){ S().point(); int me=Sched::self(); Th*t=S().th[me].get(); t->notified=false; w.push_back(me); lk.unlock(); S().point([t]{return t->notified;},true);
   bool to=!t->notified; w.erase(std::remove(w.begin(),w.end(),me),w.end()); lk.lock(); return to?std::cv_status::timeout:std::cv_status::no_timeout; }
 template<class L,class R,class Q,class P> bool wait_for(L&lk,const std::chrono::duration<R,Q>&d,P p){ while(!p()){ if(wait_for(lk,d)==std::cv_status::timeout) return p(); } return true; }
 void notify_one(){ S().point(); if(!w.empty()){ size_t k=S().rnd()%w.size(); S().th[w[k]]->notified=true; w.erase(w.begin()+k); } }
 void notify_all(){ S().point(); for(int i:w) S().th[i]->notified=true; w.clear(); } };
template<class T> struct atomic{ T v{}; atomic()=default; constexpr atomic(T x):v(x){} atomic(const atomic&)=delete;
 operator T()const{ S().point(); return v; } T load(std::memory_order=std::memory_order_seq_cst)const{ S().point(); return v; }
 T operator=(T x){ S().point(); return v=x; } void store(T x,std::memory_order=std::memory_order_seq_cst){ S().point(); v=x; }
 T operator++(){ S().point(); return ++v; } T operator--(){ S().point(); return --v; } T operator++(int){ S().point(); return v++; } T operator--(int){ S().point(); return v--; }
 T operator+=(T x){ S().point(); return v+=x; } T operator-=(T x){ S().point(); return v-=x; }
 T fetch_add(T x,std::memory_order=std::memory_order_seq_cst){ S().point(); T o=v; v+=x; return o; } T fetch_sub(T x,std::memory_order=std::memory_order_seq_cst){ S().point(); T o=v; v-=x; return o; }
 T exchange(T x,std::memory_order=std::memory_order_seq_cst){ S().point(); T o=v; v=x; return o; }
 bool compare_exchange_strong(T&e,T d,std::memory_order=std::memory_order_seq_cst,std::memory_order=std::memory_order_seq_cst){ S().point(); if(v==e){ v=d; return true;} e=v; return false; } };
struct thread{ std::unique_ptr<std::thread> t; int id=-1; typedef std::thread::native_handle_type native_handle_type; native_handle_type native_handle(){ return t->native_handle(); }
 thread()=default; thread(thread&&)=default; thread& operator=(thread&&)=default;
 template<class F,class...A> explicit thread(F f,A...a){ id=S().spawn(); int i=id; t.reset(new std::thread([i,f,a...]()mutable{ S().enter(i); f(a...); S().leave(i); })); S().point(); }
 bool joinable()const{ return (bool)t; }
 void join(){ int i=id; S().point([i]{return S().th[i]->done;}); t->join(); t.reset(); }
 void detach(){ t->detach(); t.reset(); }
 static unsigned hardware_concurrency(){ return S().hw; } ~thread(){ if(t){ S().stuck("thread destroyed without join"); } } };
inline void yield(){ S().point(); }
template<class D> void sleep_for(const D&){ S().point(); }
struct clock{ typedef std::chrono::milliseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<clock,duration> time_point; static const bool is_steady=true;
 static time_point now(){ return time_point(duration(S().clk)); } };
template<class> struct always_false{ static const bool value=false; };
}
