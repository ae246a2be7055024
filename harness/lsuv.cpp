// runs the real data-dependent initialization on small networks; prints statistics of the outputs of every layer, computed here from the final weights
#include "vp_alloc.h"
#include "vp_io.h"
#ifndef REALT
#define REALT double
#endif
#include "nntl/math.h"
#include "nntl/interfaces.h"
#include "nntl/nntl.h"
#include "nntl/weights_init.h"
#include "nntl/weights_init/LsuvExt.h"
#include <csignal>
#include <functional>
#include <random>
#include <unistd.h>
bool std::type_info::operator==(const std::type_info&o)const noexcept{ return std::strcmp(name(),o.name())==0; }
using namespace nntl;
typedef REALT real_t; typedef math::smatrix<real_t> Mx; typedef math::smatrix_deform<real_t> MxD;
struct Insp : public inspector::_impl::_base<real_t>{}; struct I : d_int_nI<real_t>{ typedef Insp iInspect_t; }; typedef grad_works<I> GWk; typedef layer_input<I> In;
template<class A> using FC=layer_fully_connected<A,GWk>; typedef weights_init::Xavier<> WI;
typedef FC<activation::identity<real_t,WI>> FI; typedef FC<activation::relu<real_t,WI>> FR; typedef FC<activation::sigm<real_t,WI>> FS; typedef FC<activation::softsign<real_t,1000000,1000000,WI>> FT;
typedef layer_output<activation::identity_quad_loss<real_t,WI>,GWk> OI; typedef layer_output<activation::sigm_quad_loss<real_t,WI>,GWk> OS;
static double fi(double x){ return x; } static double fr(double x){ return x>0?x:0; } static double fs(double x){ return 1/(1+std::exp(-x)); } static double ft(double x){ return x/(1+std::fabs(x)); }
typedef double(*F)(double); typedef std::vector<std::vector<double>> V;   // V[sample][column]
typedef std::vector<std::vector<double>> WM;                                // WM[neuron][input]
static I::iMath_t& im(){ static I::iMath_t m; return m; }
static I::iRng_t& rg(){ static I::iRng_t* r=0; if(!r){ r=new I::iRng_t(); r->init_ithreads(im().ithreads(),1); } return *r; }
struct Nd{ long idx,src,c0,c1; F f; std::function<WM()> w; bool linear; }; // src: -1 data, -2 outputs of nodes 0 and 1 side by side, else node
template<class L> WM wm(L&l){ const auto&m=l.get_weights(); WM o(m.rows(),std::vector<double>(m.cols())); for(int r=0;r<(int)m.rows();++r) for(int c=0;c<(int)m.cols();++c) o[r][c]=m.get(r,c); return o; }
struct Set{ long bs,bc,ind,pre,cen,sc,ts,tc,ols,olc,mt,mr; };
struct Net{ std::vector<Nd> nd; virtual ~Net(){} virtual long run(inmem_train_data<real_t,real_t>&td,const std::vector<Set>&s,long dflt,bool alt,long&ff)=0; virtual long again(inmem_train_data<real_t,real_t>&td)=0; };
template<class D> struct NB: Net{
 template<class L> Nd node(L&l,long src,F f,long c0=0,long c1=-1){ return Nd{(long)l.get_layer_idx(),src,c0,c1,f,[&l]{ return wm(l); },f==fi}; }
 template<class LP> long doRun(LP&lp,inmem_train_data<real_t,real_t>&td,const std::vector<Set>&s,long dflt,bool alt,long&ff){ typedef nnet<LP> NN; static typename I::iInspect_t ins; NN nn(lp,&ins,&im(),&rg());
  typedef weights_init::procedural::LSUVExt<NN,inmem_train_data<real_t,real_t>> X; typedef typename X::LayerSetts_t LS; auto mk=[](const Set&q){ LS l; l.batchSize=(vec_len_t)q.bs; l.batchCount=(vec_len_t)q.bc; l.bOnInvidualNeurons=q.ind; l.bOverPreActivations=q.pre; l.bCentralNormalize=q.cen; l.bScaleNormalize=q.sc;
     l.targetScale=real_t(q.ts)/100; l.targetCentral=real_t(q.tc)/100; l.ScaleTolerance=real_t(q.ols)/1000; l.CentralTolerance=real_t(q.olc)/1000; l.maxTries=(unsigned)q.mt; l.maxReinitTries=(unsigned)q.mr; l.bVerbose=false; l.emitDbgAfterTry=1000; return l; };
  bool r; { std::unique_ptr<X> o; if(dflt<0||alt){ o.reset(new X(nn,td)); if(dflt>=0) o->setts().set_default(mk(s[dflt])).add(0,mk(s[0])); } else o.reset(new X(nn,td,mk(s[dflt])));
   for(size_t i=0;i<nd.size();++i) if((long)i!=dflt){ if(dflt<0) { LS junk; junk.maxTries=0; o->setts().add((layer_index_t)nd[i].idx,junk); } o->setts().add((layer_index_t)nd[i].idx,mk(s[i])); }
   r=o->run(); ff=o->m_firstFailedLayerIdx; }
  return r; }
 template<class LP> long doAgain(LP&lp,inmem_train_data<real_t,real_t>&td){ static typename I::iInspect_t ins; nnet<LP> nn(lp,&ins,&im(),&rg()); MxD x; x.will_emulate_biases(); td.X(td.train_set_id).clone_to(x); return (long)nn.fprop(x); } };
#define NET long run(inmem_train_data<real_t,real_t>&td,const std::vector<Set>&s,long d,bool alt,long&ff)override{ return this->doRun(lp,td,s,d,alt,ff); } long again(inmem_train_data<real_t,real_t>&td)override{ return this->doAgain(lp,td); }
static const real_t LR=real_t(.001);
template<class A,class B,class O> struct C3: NB<C3<A,B,O>>{ In in; A a; B b; O o; layers<In,A,B,O> lp; NET C3(long x,long n,long m,F fa,F fb,F fo):in(x),a(n,LR),b(m,LR),o(2,LR),lp(in,a,b,o){ this->nd={this->node(a,-1,fa),this->node(b,0,fb),this->node(o,1,fo)}; } };
template<class A,class B,class O> struct P3: NB<P3<A,B,O>>{ In in; A a; B b; LPH<PHL<A>,PHL<B>> h; O o; layers<In,LPH<PHL<A>,PHL<B>>,O> lp; NET P3(long x,long n,long m,F fa,F fb,F fo):in(x),a(n,LR),b(m,LR),h(make_PHL(a,0,(neurons_count_t)(x/2)),make_PHL(b,(neurons_count_t)(x/2),(neurons_count_t)(x-x/2))),o(2,LR),lp(in,h,o){ this->nd={this->node(a,-1,fa,0,x/2),this->node(b,-1,fb,x/2,x),this->node(o,-2,fo)}; } };
template<class A,class B,class O> struct Q3: NB<Q3<A,B,O>>{ In in; A a; B b; LPV<A,B> h; O o; layers<In,LPV<A,B>,O> lp; NET Q3(long x,long n,long m,F fa,F fb,F fo):in(x),a(n,LR),b(m,LR),h(a,b),o(2,LR),lp(in,h,o){ this->nd={this->node(a,-1,fa),this->node(b,0,fb),this->node(o,1,fo)}; } };
static Net* mkn(long k,long x,long n,long m){ switch(k){ case 0: return new C3<FI,FI,OI>(x,n,m,fi,fi,fi); case 1: return new C3<FT,FR,OS>(x,n,m,ft,fr,fs); case 2: return new C3<FS,FT,OI>(x,n,m,fs,ft,fi);
  case 3: return new P3<FI,FT,OI>(x,n,m,fi,ft,fi); case 4: return new Q3<FI,FR,OI>(x,n,m,fi,fr,fi); default: return new P3<FI,FI,OI>(x,n,m,fi,fi,fi); } }
static long q4(double v){ return v!=v||std::fabs(v)>1e5? 99999999 : std::lround(v*10000); }
static void stat(const std::vector<double>&v,double&mean,double&sd){ mean=0; for(double x:v) mean+=x; mean/=v.size(); sd=0; for(double x:v) sd+=(x-mean)*(x-mean); sd=std::sqrt(sd/(v.size()-1)); }
static void crash(int){ vp::emit("{\"op\":\"crash\"}"); _exit(0); }
int main(int argc,char**argv){ signal(SIGSEGV,crash); signal(SIGABRT,crash); std::cout.setstate(std::ios::failbit);
 return vp::drive(argc,argv,[&](vp::Args&a){ auto j=a.ev(); long N=a["rows"],x=a["x"]; std::mt19937 g((unsigned)a["s"]); std::normal_distribution<double> nd(0,1);
  rg().seed((int)a["s"]); inmem_train_data<real_t,real_t> td; V X(N,std::vector<double>(x)); { MxD xx[2],yy[2]; for(int d=0;d<2;++d){ xx[d].will_emulate_biases(); xx[d].resize(d?3:N,x); yy[d].resize(d?3:N,2); for(int r=0;r<(d?3:N);++r){ for(int c=0;c<x;++c){ real_t v=real_t(d?777:nd(g)*(1+c%3)+.3*(c%4)); xx[d].set(r,c,v); if(!d) X[r][c]=v; } for(int c=0;c<2;++c) yy[d].set(r,c,0); } xx[d].set_biases(); }
   td.absorb(std::move(xx[0]),std::move(yy[0]),std::move(xx[1]),std::move(yy[1])); }
  std::unique_ptr<Net> n(mkn(a["net"],x,a["n"],a["m"])); std::vector<Set> S; for(int i=0;i<3;++i){ std::string k="l"+std::to_string(i); const auto&v=a.v(k.c_str()); S.push_back(Set{v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11]}); }
  // first give the layers their weights so that they can be compared
  long ag=n->again(td); std::vector<WM> W0; for(auto&z:n->nd) W0.push_back(z.w());
  long ff=0; long r=n->run(td,S,a["dflt"],a["s"]%2,ff); std::vector<WM> W1; for(auto&z:n->nd) W1.push_back(z.w()); long ag2=n->again(td); long kept=1; for(size_t i=0;i<3;++i) kept&= W1[i]==n->nd[i].w();
  std::vector<V> A; std::vector<std::string> ls; double eps=sizeof(real_t)==4?1e-3:1e-7;
  for(size_t i=0;i<3;++i){ auto&z=n->nd[i]; const V* src; V tmp; if(z.src==-1) src=&X; else if(z.src==-2){ tmp=A[0]; for(long s=0;s<N;++s) tmp[s].insert(tmp[s].end(),A[1][s].begin(),A[1][s].end()); src=&tmp; } else src=&A[z.src];
   const WM&w=W1[i]; size_t K=w.size(),C=w[0].size()-1; V out(N,std::vector<double>(K)),pre(N,std::vector<double>(K)); for(long s=0;s<N;++s) for(size_t k=0;k<K;++k){ double d=w[k][C]; for(size_t c=0;c<C;++c) d+=w[k][c]*(*src)[s][z.c0+c]; pre[s][k]=d; out[s][k]=z.f(d); }
   const V&m= S[i].pre? pre:out; std::vector<long> sd,mn; double mm,ss; if(S[i].ind){ for(size_t k=0;k<K;++k){ std::vector<double> v; for(long s=0;s<N;++s) v.push_back(m[s][k]); stat(v,mm,ss); sd.push_back(q4(ss)); mn.push_back(q4(mm)); } } else { std::vector<double> v; for(long s=0;s<N;++s) for(size_t k=0;k<K;++k) v.push_back(m[s][k]); stat(v,mm,ss); sd.push_back(q4(ss)); mn.push_back(q4(mm)); }
   // relation of the new to the old weights: one positive factor for the layer / for each neuron
   long prop=1,same=1,posi=1,bsame=1,bscal=1,buni=1; double f0=-1,sh0=0; for(size_t k=0;k<K;++k){ const auto&o=W0[i][k]; const auto&v=w[k]; size_t b=0; for(size_t c=0;c<C;++c){ if(std::fabs(o[c])>std::fabs(o[b])) b=c; same&= o[c]==v[c]; } double f=v[b]/o[b]; if(!(f>0)) posi=0; for(size_t c=0;c<C;++c) if(!(std::fabs(v[c]-f*o[c])<=eps*(std::fabs(v[c])+f*std::fabs(o[b])))) prop=0;
     if(!S[i].ind){ if(k==0) f0=f; else if(!(std::fabs(f-f0)<=eps*f)) prop=0; } bsame&= o[C]==v[C]; double sh=v[C]-f*o[C]; if(!(std::fabs(sh)<=eps*(std::fabs(v[C])+std::fabs(f*o[C])+1e-9))) bscal=0; if(k==0) sh0=sh; else if(!(std::fabs(sh-sh0)<=eps*10*(1+std::fabs(sh)+std::fabs(f*o[C])))) buni=0; }
   A.push_back(out); vp::J l; ls.push_back(l.i("idx",z.idx).i("linear",z.linear).arr("sd",sd).arr("mn",mn).i("prop",prop).i("posi",posi).i("same",same).i("bsame",bsame).i("bscal",bscal).i("buni",buni).end()); }
  vp::emit(j.i("ret",r).i("ff",ff).i("ag",ag).i("ag2",ag2).i("kept",kept).raw("ly",vp::jlist(ls)).end()); }); }
