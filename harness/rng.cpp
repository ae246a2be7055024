// drives the real random number generators; prints counts of what they deliver
#include "vp_alloc.h"
#include "vp_io.h"
#ifndef REALT
#define REALT double
#endif
#include "nntl/math.h"
#include "nntl/interfaces.h"
#include "nntl/nntl.h"
#include "nntl/interface/rng/afrand.h"
#include "nntl/interface/rng/afrand_mt.h"
#include "nntl/interface/rng/afrand_as.h"
#include "nntl/interface/rng/distr_normal_naive.h"
#include <memory>
#include <set>
#include <csignal>
#include <unistd.h>
bool std::type_info::operator==(const std::type_info&o)const noexcept{ return std::strcmp(name(),o.name())==0; }
using namespace nntl;
typedef REALT real_t; typedef math::smatrix<real_t> M;
struct I : d_int_nI<real_t>{}; typedef I::iThreads_t Th;
static Th& pool(){ static Th t; return t; }
typedef rng::AFRand<real_t,AFog::CRandomSFMT0> R0;
typedef rng::AFRand_mt<real_t,AFog::CRandomSFMT0,Th> R1;
typedef rng::AFRand_mt<real_t,AFog::CRandomMersenne,Th> R2;
typedef rng::AFRand_as<real_t,AFog::CRandomSFMT0,Th> R3;
static const real_t SENT=real_t(-98765432.0), GUARD=real_t(-1234567.0); static const long G=16;
struct Out{ std::vector<double> v; long gb=0,left=0; };
struct Buf{ std::vector<real_t> b; long n; Buf(long n_):b(n_+2*G,GUARD),n(n_){ std::fill(b.begin()+G,b.begin()+G+n,SENT); } real_t*p(){ return b.data()+G; }
  void out(Out&o){ for(long i=0;i<G;++i) o.gb+=(b[i]!=GUARD)+(b[G+n+i]!=GUARD); for(long i=0;i<n;++i){ o.left+=b[G+i]==SENT; o.v.push_back(b[G+i]); } } };
// a matrix over a guarded buffer; bias: 0 none, 1 bias column
struct MB{ long r,c; int bias; Buf b; M m; MB(long r_,long c_,int bias_,bool inrow=true):r(r_),c(c_),bias(bias_),b((r_)*(c_+bias_)){ 
   m.useExternalStorage(b.p(),(vec_len_t)r,(vec_len_t)(c+bias),bias!=0); if(bias) m.set_biases(); }
  void out(Out&o){ Out t; b.out(t); o.gb+=t.gb; o.left+=t.left; for(long i=0;i<r*c;++i) o.v.push_back(t.v[i]); for(long i=r*c;i<r*(c+bias);++i) o.gb+= t.v[i]!=1.; } };
static void shape(long n,long&r,long&c){ c=1; for(long k:{7,5,3,2}) if(n%k==0){ c=k; break; } r=n/c; }
struct Dev{ virtual ~Dev(){} virtual void seed(long)=0; virtual void seed64(unsigned long)=0; virtual void reseed()=0; virtual void uni(const vp::Args&,Out&)=0; virtual void nrm(const vp::Args&,Out&)=0; virtual void in(const vp::Args&,Out&,long&bad)=0; virtual void bern(const vp::Args&,Out&)=0; };
template<class R> auto callReseed(R&r,int)->decltype(r.reseed()){ r.reseed(); }
template<class R> void callReseed(R&r,long){}
template<class R> struct D: Dev{ std::unique_ptr<R> p; 
 void seed(long s)override{ p->seed((int)s); } void seed64(unsigned long s)override{ p->seed64(s); } void reseed()override{ callReseed(*p,0); }
 void uni(const vp::Args&a,Out&o)override{ long n=a["n"],api=a["api"]; real_t lo=real_t(a["lo"])/4,hi=real_t(a["hi"])/4; long r,c; shape(n,r,c); R&g=*p;
  switch(api){
   case 0:{ Buf b(n); g.gen_vector(b.p(),n,hi); b.out(o); break; }
   case 1:{ Buf b(n); g.gen_vector(b.p(),n,lo,hi); b.out(o); break; }
   case 2:{ Buf b(n); g.gen_vector_norm(b.p(),n); b.out(o); break; }
   case 3:{ Buf b(n); g.gen_vector_gtz(b.p(),n,hi); b.out(o); break; }
   case 4:{ for(long i=0;i<n;++i) o.v.push_back(g.gen_f(hi)); break; }
   case 5:{ MB m(r,c,0); g.gen_matrix(m.m,hi); m.out(o); break; }
   case 6:{ MB m(r,c,1); g.gen_matrix_no_bias(m.m,hi); m.out(o); break; }
   case 7:{ MB m(r,c,1); g.gen_matrixAny(m.m,hi); m.out(o); break; }
   case 8:{ MB m(r,c,0); g.gen_matrixAny(m.m,hi); m.out(o); break; }
   case 9:{ MB m(r,c,0); g.gen_matrix_norm(m.m); m.out(o); break; }
   case 10:{ MB m(r,c,1); g.gen_matrix_no_bias_norm(m.m); m.out(o); break; }
   case 11:{ MB m(r,c,0); g.gen_matrix_gtz(m.m,hi); m.out(o); break; }
   case 12:{ MB m(r,c,1); g.gen_matrix_no_bias_gtz(m.m,hi); m.out(o); break; }
   case 13:{ for(long i=0;i<n;++i) o.v.push_back((double)g.template gen_f_norm<real_t>()); break; }
   default:{ M m(true,(vec_len_t)c,(vec_len_t)r,true); g.gen_matrixAny(m,hi); for(long y=0;y<c;++y){ for(long x=0;x<r;++x) o.v.push_back(m.get((vec_len_t)x,(vec_len_t)y)); o.gb+= m.get((vec_len_t)r,(vec_len_t)y)!=real_t(1); } break; } } }
 void nrm(const vp::Args&a,Out&o)override{ long n=a["n"],api=a["api"]; real_t m=real_t(a["m"])/4,st=real_t(a["st"])/4; long r,c; shape(n,r,c); R&g=*p; 
  switch(api){
   case 0:{ Buf b(n); g.normal_vector(b.p(),n,m,st); b.out(o); break; }
   case 1:{ MB b(r,c,0); g.normal_matrix(b.m,m,st); b.out(o); break; }
   case 2:{ Buf b(n); rng::distr_normal_naive<R> d(g,m,st); d.gen_vector(b.p(),n); b.out(o); break; }
   case 3:{ MB b(r,c,0); rng::distr_normal_naive<R> d(g,m,st); d.gen_matrix(b.m); b.out(o); break; }
   case 4:{ MB b(r,c,1); rng::distr_normal_naive<R> d(g,m,st); d.gen_matrix_no_bias(b.m); b.out(o); break; }
   default:{ std::normal_distribution<real_t> d(m,st); for(long i=0;i<n;++i) o.v.push_back(d(g)); break; } } }
 void in(const vp::Args&a,Out&o,long&bad)override{ long n=a["n"],api=a["api"],k=a["k"]; R&g=*p;
  switch(api){
   case 0:{ std::vector<int> b(n+2*G,-7777777); g.gen_vector_gtz(b.data()+G,n,(int)k); for(long i=0;i<G;++i) o.gb+=(b[i]!=-7777777)+(b[G+n+i]!=-7777777); for(long i=0;i<n;++i){ o.left+=b[G+i]==-7777777; o.v.push_back(b[G+i]); } break; }
   case 1: for(long i=0;i<n;++i) o.v.push_back((double)g.gen_i(k)); break;
   case 2: for(long i=0;i<n;++i) o.v.push_back((double)g(k)); break;
   case 3:{ std::vector<int> w(k); for(long i=0;i<n;++i){ for(long j=0;j<k;++j) w[j]=(int)j; std::random_shuffle(w.begin(),w.end(),g); std::vector<int> s(w); std::sort(s.begin(),s.end()); for(long j=0;j<k;++j) bad+= s[j]!=(int)j; o.v.push_back(w[i%k]==(int)0? (double)0 : (double)((w[i%k]))); } break; }
   default:{ for(long i=0;i<n;++i){ uint32_t x=g(); o.v.push_back((double)(((uint64_t)x*(uint64_t)k)>>32)); } } } }
 void bern(const vp::Args&a,Out&o)override{ long n=a["n"],api=a["api"]; real_t q=real_t(a["p"])/100; long r,c; shape(n,r,c); R&g=*p;
  switch(api){
   case 0:{ Buf b(n); g.bernoulli_vector(b.p(),n,q,real_t(5),real_t(-3)); b.out(o); for(auto&x:o.v) x= x==5?1: x==-3?0:9; break; }
   case 1:{ MB b(r,c,0); g.bernoulli_matrix(b.m,q,real_t(.5),real_t(2)); b.out(o); for(auto&x:o.v) x= x==.5?1: x==2?0:9; break; }
   case 2:{ Buf b(n); g.binary_vector(b.p(),n,q); b.out(o); break; }
   default:{ MB b(r,c,0); g.binary_matrix(b.m,q); b.out(o); } } } };
template<class R> Dev* mk(long s,long how){ auto d=new D<R>; if(how) { d->p.reset(new R()); if(!d->p->init_ithreads(pool(),(int)s)) return nullptr; } else d->p.reset(new R(pool(),(int)s)); return d; }
template<> Dev* mk<R0>(long s,long){ auto d=new D<R0>; d->p.reset(new R0((int)s)); return d; }
template<> Dev* mk<R3>(long s,long how){ auto d=new D<R3>; if(how){ d->p.reset(new R3()); if(!d->p->init_ithreads(pool(),(int)s)) return nullptr; } else d->p.reset(new R3(pool(),(int)s)); d->p->preinit_additive_norm(30000); d->p->preinit_additive_normal_distr(30000); if(!d->p->init_rng()) return nullptr; return d; }
// preparing far more numbers than there is memory for must be reported as a failure
static long hugeInit(){ R3 r(pool(),7); r.preinit_additive_norm(numel_cnt_t(1)<<50); long ok=r.init_rng(); r.deinit_rng(); return ok; }
extern "C" const char* __asan_default_options(){ return "allocator_may_return_null=1"; }
static long hash(const std::vector<double>&v){ uint64_t h=1469598103934665603ull; for(double d:v){ uint64_t x; memcpy(&x,&d,8); h^=x; h*=1099511628211ull; h^=h>>29; } return (long)((h>>7)&0x3fffffff); }
static void crash(int){ vp::emit("{\"op\":\"crash\"}"); _exit(0); }
int main(int argc,char**argv){ std::unique_ptr<Dev> o[3]; signal(SIGSEGV,crash); signal(SIGABRT,crash); signal(SIGFPE,crash);
 return vp::drive(argc,argv,[&](vp::Args&a){ auto j=a.ev(); 
  if(a.op=="reset"){ for(auto&x:o) x.reset(); }
  else if(a.op=="new"){ long k=a["kind"],s=a["s"],how=a["how"]; o[a["o"]].reset(); Dev*d= k==0?mk<R0>(s,how):k==1?mk<R1>(s,how):k==2?mk<R2>(s,how):mk<R3>(s,how); j.i("ok",d!=nullptr).i("big",k==3?hugeInit():0); o[a["o"]].reset(d); }
  else { Dev&d=*o[a["o"]];
   if(a.op=="seed") d.seed(a["s"]);
   else if(a.op=="seed64") d.seed64(((unsigned long)a["hi"]<<32)|(uint32_t)a["s"]);
   else if(a.op=="reseed") d.reseed();
   else { Out r; long n=a["n"],out=0; std::vector<long> bins;
    if(a.op=="uni"){ d.uni(a,r); double lo=a["lo"]/4.,hi=a["hi"]/4.,eps=1e-6*std::max(std::fabs(lo),std::fabs(hi)); bins.assign(8,0); long pr=0; 
      for(double x:r.v){ if(!(x>=lo-eps&&x<=hi+eps)){ ++out; continue; } long b=(long)std::floor((x-lo)/(hi-lo)*8); bins[std::max(0l,std::min(7l,b))]++; } 
      for(size_t i=0;i+1<r.v.size();i+=2) pr+= r.v[i]<(lo+hi)/2 && r.v[i+1]<(lo+hi)/2; j.i("pairs",pr).i("dist",(long)std::set<double>(r.v.begin(),r.v.end()).size()); }
    else if(a.op=="norm"){ d.nrm(a,r); double m=a["m"]/4.,st=a["st"]/4.; bins.assign(8,0); static const double q[7]={-1.1503493804,-.6744897502,-.3186393640,0,.3186393640,.6744897502,1.1503493804}; long pr=0;
      for(double x:r.v){ double z=(x-m)/st; if(!(std::fabs(z)<7)){ ++out; continue; } int b=0; while(b<7&&z>=q[b]) ++b; bins[b]++; } 
      for(size_t i=0;i+1<r.v.size();i+=2) pr+= r.v[i]<m && r.v[i+1]<m; j.i("pairs",pr).i("dist",(long)std::set<double>(r.v.begin(),r.v.end()).size()); }
    else if(a.op=="int"){ long k=a["k"]; bins.assign(k,0); long bad=0; d.in(a,r,bad); out+=bad; for(double x:r.v){ if(x<0||x>=k||x!=std::floor(x)) ++out; else bins[(long)x]++; } }
    else { d.bern(a,r); bins.assign(2,0); for(double x:r.v){ if(x==1) bins[0]++; else if(x==0) bins[1]++; else ++out; } }
    if((long)r.v.size()!=n) ++out; j.i("gb",r.gb).i("left",r.left).i("out",out).arr("bins",bins).i("h",hash(r.v)); } }
  vp::emit(j.end()); }); }
