// runs the real weight initialization schemes; prints counts describing the matrix obtained
#include "vp_alloc.h"
#include "vp_io.h"
#ifndef REALT
#define REALT double
#endif
#include "nntl/math.h"
#include "nntl/interfaces.h"
#include "nntl/nntl.h"
#include "nntl/weights_init.h"
#include <set>
#include <csignal>
#include <unistd.h>
using namespace nntl;
typedef REALT real_t; typedef math::smatrix<real_t> M; struct I : d_int_nI<real_t>{};
static long g_fail=0,g_calls=0;
extern "C" {
 int __real_LAPACKE_dgesvd(int,char,char,int,int,double*,int,double*,double*,int,double*,int,double*);
 int __real_LAPACKE_sgesvd(int,char,char,int,int,float*,int,float*,float*,int,float*,int,float*);
 // a failing decomposition leaves the matrix destroyed
 int __wrap_LAPACKE_dgesvd(int a,char b,char c,int m,int n,double*A,int l,double*s,double*u,int lu,double*v,int lv,double*w){ ++g_calls; if(g_fail>0){ --g_fail; for(long i=0;i<(long)m*n;++i) A[i]=std::nan(""); return 1; } return __real_LAPACKE_dgesvd(a,b,c,m,n,A,l,s,u,lu,v,lv,w); }
 int __wrap_LAPACKE_sgesvd(int a,char b,char c,int m,int n,float*A,int l,float*s,float*u,int lu,float*v,int lv,float*w){ ++g_calls; if(g_fail>0){ --g_fail; for(long i=0;i<(long)m*n;++i) A[i]=std::nanf(""); return 1; } return __real_LAPACKE_sgesvd(a,b,c,m,n,A,l,s,u,lu,v,lv,w); }
}
static I::iMath_t& im(){ static I::iMath_t m; return m; }
static I::iRng_t& rg(){ static I::iRng_t* r=0; if(!r){ r=new I::iRng_t(); r->init_ithreads(im().ithreads(),1); } return *r; }
namespace wi=nntl::weights_init;
static bool run(long k,M&W){ switch(k){
 case 0: return wi::Xavier<>().make_weights(W,rg(),im()); case 1: return wi::XavierFour().make_weights(W,rg(),im()); case 2: return wi::Xavier<500000>().make_weights(W,rg(),im());
 case 3: return wi::He_Zhang<>().make_weights(W,rg(),im()); case 4: return wi::He_Zhang<500000>().make_weights(W,rg(),im()); case 5: return wi::He_Zhang2<>().make_weights(W,rg(),im());
 case 6: return wi::SNNInit().make_weights(W,rg(),im()); case 7: return wi::He_Zhang2<250000>().make_weights(W,rg(),im());
 case 8: return wi::Martens_SI_sigm<>().make_weights(W,rg(),im()); case 9: return wi::Martens_SI_tanh<4>().make_weights(W,rg(),im()); case 10: return wi::Martens_SI<-250000,500000,7>().make_weights(W,rg(),im());
 case 11: return wi::OrthoInit_u().make_weights(W,rg(),im()); case 12: return wi::OrthoInit<1500000>().make_weights(W,rg(),im()); default: return wi::OrthoInit<1000000,2>().make_weights(W,rg(),im()); } }
static void crash(int){ vp::emit("{\"op\":\"crash\"}"); _exit(0); }
int main(int argc,char**argv){ signal(SIGSEGV,crash); signal(SIGABRT,crash);
 return vp::drive(argc,argv,[&](vp::Args&a){ auto j=a.ev(); long k=a["k"],r=a["r"],p=a["p"],N=r*(p+1); const long G=16; std::vector<real_t> buf(N+2*G,real_t(-77)); for(long i=0;i<N;++i) buf[G+i]=real_t(-123456);
  M W; W.useExternalStorage(buf.data()+G,(vec_len_t)r,(vec_len_t)(p+1)); rg().seed((int)a["s"]); g_fail=a["fail"]; g_calls=0;
  long ret=run(k,W); long gb=0; for(long i=0;i<G;++i) gb+=(buf[i]!=-77)+(buf[G+N+i]!=-77);
  auto w=[&](long x,long y)->double{ return buf[G+x+y*r]; }; double sc=std::sqrt((double)a["num"]/(double)a["den"]);
  std::vector<double> v; std::vector<long> cols(4,0),bins(8,0); long bias=0,zmin=1<<30,zmax=0,sets=0,out=0,pairs=0,orth=0; double bv= k==9?.5: k==10?-.25:0;
  bool uni=k<=2, sp=k>=8&&k<=10, ort=k>=11;
  for(long x=0;x<r;++x) bias+= w(x,p)!=bv;
  if(sp){ std::set<std::vector<long>> S; for(long x=0;x<r;++x){ std::vector<long> z; for(long y=0;y<p;++y) if(w(x,y)!=0){ z.push_back(y); v.push_back(w(x,y)); cols[y*4/p]++; } zmin=std::min(zmin,(long)z.size()); zmax=std::max(zmax,(long)z.size()); S.insert(z); } sets=(long)S.size(); }
  else for(long i=0;i<r*(uni?p+1:p);++i) v.push_back(buf[G+i]);
  if(ort){ long n=std::min(r,p+1),m=std::max(r,p+1); bool cw= r>=p+1; double gain= k==12?1.5:1; for(long x=0;x<n;++x) for(long y=0;y<=x;++y){ double d=0; for(long z=0;z<m;++z) d+= cw? w(z,x)*w(z,y) : w(x,z)*w(y,z); if(!(std::fabs(d/(gain*gain)-(x==y))<(sizeof(real_t)==4?1e-4:1e-10))) ++orth; } }
  static const double q[7]={-1.1503493804,-.6744897502,-.3186393640,0,.3186393640,.6744897502,1.1503493804};
  if(!ort) for(double x:v){ if(uni){ if(!(std::fabs(x)<=sc*(1+1e-6))){ ++out; continue; } bins[std::max(0l,std::min(7l,(long)std::floor((x/sc+1)*4)))]++; } else { double z=x/sc; if(!(std::fabs(z)<7)){ ++out; continue; } int b=0; while(b<7&&z>=q[b]) ++b; bins[b]++; } }
  for(size_t i=0;i+1<v.size();i+=2) pairs+= v[i]<0&&v[i+1]<0;
  vp::emit(j.i("ret",ret).i("gb",gb).i("n",(long)v.size()).i("out",out).i("bias",bias).arr("bins",bins).arr("cols",cols).i("pairs",pairs).i("dist",(long)std::set<double>(v.begin(),v.end()).size())
   .i("zmin",zmin).i("zmax",zmax).i("sets",sets).i("orth",orth).i("calls",g_calls).end()); }); }
