// drives the real Workers thread pool under chosen schedules; script lines:
//   mode seed sticky hw  njobs  (kind cnt use)*   nscript script...
#include "vp_sched.h"
#include "vp_io.h"
#include "nntl/math.h"
#include "nntl/common.h"
#include "nntl/interface/threads/workers.h"
using namespace nntl;
struct VSync : threads::_impl::_sync_base { typedef vp::MTX mutex_t; typedef vp::shared_mutex shared_mutex_t; typedef vp::cond_var cond_var_t; typedef vp::cond_var cond_var_any_t; typedef mutex_t mutex_comp_t; typedef cond_var_t cond_var_comp_t; };
typedef threads::Workers<double,numel_cnt_t,VSync> Pool;
typedef Pool::par_range_t R; typedef Pool::reduce_data_t RD;
struct Job{ std::string k; long cnt,use; };
static void ev(const std::string&s){ vp::emit(s); }
static long val(const R&r){ return 1000*(long)r.tid() + 37*(long)r.offset()%900 + (long)r.cnt()%7; }
static void body(const R&r){ vp::J a; a.str("op","beg").i("tid",r.tid()).i("ofs",r.offset()).i("n",r.cnt()).i("thr",vp::Sched::self()); ev(a.end()); vp::S().point(); vp::S().point();
  vp::J b; b.str("op","end").i("tid",r.tid()).i("ofs",r.offset()).i("n",r.cnt()).i("thr",vp::Sched::self()).i("val",val(r)); ev(b.end()); }
static void one(const std::vector<Job>&jobs){
 vp::S().reset();
 { vp::J j; j.str("op","new").i("w",vp::S().hw); ev(j.end()); }
 Pool* p=new Pool();
 { vp::J j; j.str("op","ready").i("w",p->cur_workers_count()); ev(j.end()); }
 for(auto&jb:jobs){
  vp::J j; j.str("op","issue").str("kind",jb.k).i("cnt",jb.cnt).i("use",jb.use); ev(j.end());
  if(jb.k=="run"){ thread_id_t u=-1; p->run([](const R&r){ body(r); },jb.cnt,thread_id_t(jb.use),&u); vp::J q; q.str("op","ret").i("used",u).arr("vals",std::vector<long>()); ev(q.end()); }
  else { std::vector<long> got; long nn=-1;
   double res=p->reduce([](const R&r)->RD{ body(r); return Pool::converter_reduce_data_t<double>::to((double)val(r)); },
     [&](const RD*d,numel_cnt_t n)->double{ double s=0; nn=n; for(numel_cnt_t i=0;i<n;++i){ double x=Pool::converter_reduce_data_t<double>::from(d[i]); got.push_back((long)x); s+=x; } return s; },jb.cnt,thread_id_t(jb.use));
   if(nn<0) got.push_back((long)res); vp::J q; q.str("op","ret").i("used",nn<0?1:nn).arr("vals",got); ev(q.end()); } }
 { vp::J j; j.str("op","del"); ev(j.end()); }
 delete p;
 { vp::J j; j.str("op","gone"); ev(j.end()); } }
int main(int argc,char**argv){
 std::ifstream in(argv[1]); vp::out()=fopen(argv[2],"w"); std::string line;
 vp::S().stuck=[](const char*w){ vp::J j; j.str("op",w); ev(j.end()); fflush(vp::out()); _exit(0); };
 while(std::getline(in,line)){ std::istringstream is(line); int mode,sticky,hw; unsigned long seed; size_t n; is>>mode>>seed>>sticky>>hw>>n; std::vector<Job> J(n); for(auto&j:J) is>>j.k>>j.cnt>>j.use;
  size_t ns=0; is>>ns; auto&s=vp::S(); s.script.resize(ns); for(auto&x:s.script) is>>x; s.mode=mode; s.rs=seed*7919+13; s.sticky=sticky; s.hw=hw;
  if(mode==2){ s.dec.clear(); s.pbound=sticky; long lim=seed; do{ one(J); }while(--lim>0 && s.next_systematic()); }
  else one(J);
  vp::J j; j.str("op","next"); ev(j.end()); }
 return 0; }
