// drives the real background-task pool under chosen schedules; script lines:
//   mode seed sticky nthreads nops (op a b)* nscript script...
//   add prio repeats | del | exec | idle n | await task | expect n
#include "vp_sched.h"
#include "vp_io.h"
#include "nntl/math.h"
#include "nntl/common.h"
#include "nntl/interface/threads/workers.h"
#include "nntl/interface/threads/prioritize_workers.h"
#include "nntl/interface/threads/bgworkers.h"
using namespace nntl;
struct VSync : threads::_impl::_sync_base { typedef vp::mutex mutex_t; typedef vp::shared_mutex shared_mutex_t; typedef vp::cond_var cond_var_t; typedef vp::cond_var cond_var_any_t; typedef mutex_t mutex_comp_t; typedef cond_var_t cond_var_comp_t; };
typedef threads::BgWorkers<VSync> Bg;
struct Op{ std::string k; long a,b; };
static void ev(const std::string&s){ vp::emit(s); }
struct Task{ int id; long rep; std::vector<long> left; long calls=0;
 bool operator()(const thread_id_t w){ { vp::J j; j.str("op","t_b").i("t",id).i("w",w).i("thr",vp::Sched::self()); ev(j.end()); }
  ++calls; vp::S().point(); bool more=left[w]>0; if(more) --left[w]; else left[w]=rep;
  { vp::J j; j.str("op","t_e").i("t",id).i("w",w).i("more",more); ev(j.end()); } return more; } };
static void one(int n,const std::vector<Op>&ops){
 vp::S().reset(); vp::S().limit=400000;
 { vp::J j; j.str("op","new").i("n",n); ev(j.end()); }
 Bg* p=new Bg(n,threads::PriorityClass::threads_priority_no_change);
 { vp::J j; j.str("op","ready").i("n",p->workers_count()); ev(j.end()); }
 std::vector<std::unique_ptr<Task>> T;
 for(auto&o:ops){
  auto B=[&]{ vp::J j; j.str("op",(o.k+"_b").c_str()).i("a",o.a).i("t",(long)T.size()); ev(j.end()); };
  auto E=[&]{ vp::J j; j.str("op",(o.k+"_e").c_str()).i("cnt",(long)p->tasks_count()); ev(j.end()); };
  if(o.k=="add"){ T.emplace_back(new Task{(int)T.size()+1,o.b,std::vector<long>(n,o.b)}); B(); p->add_task(*T.back(),(int)o.a); E(); }
  else if(o.k=="del"){ B(); p->delete_tasks(); E(); }
  else if(o.k=="exec"){ B(); p->exec([](const thread_id_t w){ { vp::J j; j.str("op","x_b").i("w",w).i("thr",vp::Sched::self()); ev(j.end()); } vp::S().point(); vp::S().point(); { vp::J j; j.str("op","x_e").i("w",w); ev(j.end()); } }); E(); }
  else if(o.k=="expect"){ B(); p->expect_tasks_count((unsigned)o.a); E(); }
  else if(o.k=="tmo"){ B(); p->set_task_wait_timeout(std::chrono::milliseconds(o.a)); E(); }
  else if(o.k=="idle"){ for(long i=0;i<o.a;++i) vp::S().point(); }
  else if(o.k=="await"){ if(o.a<1||o.a>(long)T.size()) continue; long c=T[o.a-1]->calls, lim=60000; while(T[o.a-1]->calls==c && --lim>0) vp::S().point(); vp::J j; j.str("op","await").i("t",o.a).i("ran",T[o.a-1]->calls>c); ev(j.end()); } }
 { vp::J j; j.str("op","dtor"); ev(j.end()); }
 delete p;
 { vp::J j; j.str("op","gone"); ev(j.end()); } }
int main(int argc,char**argv){
 std::ifstream in(argv[1]); vp::out()=fopen(argv[2],"w"); std::string line;
 vp::S().stuck=[](const char*w){ vp::J j; j.str("op",w); ev(j.end()); fflush(vp::out()); _exit(0); };
 while(std::getline(in,line)){ std::istringstream is(line); int mode,sticky,hw; unsigned long seed; size_t n; is>>mode>>seed>>sticky>>hw>>n; std::vector<Op> J(n); for(auto&j:J) is>>j.k>>j.a>>j.b;
  size_t ns=0; is>>ns; auto&s=vp::S(); s.script.resize(ns); for(auto&x:s.script) is>>x; s.mode=mode; s.rs=seed*7919+13; s.sticky=sticky; s.hw=hw;
  if(mode==2){ s.dec.clear(); s.pbound=sticky; long lim=seed; do{ one(hw,J); }while(--lim>0 && s.next_systematic()); }
  else one(hw,J);
  vp::J j; j.str("op","next"); ev(j.end()); }
 return 0; }
