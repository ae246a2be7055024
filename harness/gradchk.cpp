// runs the real numeric gradient check on networks, optionally with a falsified analytical gradient; records every comparison it asks for and the state before and after
#include "vp_alloc.h"
#include "vp_io.h"
#include "nntl/math.h"
#include "nntl/interfaces.h"
#include "nntl/nntl.h"
#include "nntl/weights_init.h"
#include <functional>
#include <random>
#include <csignal>
#include <unistd.h>
using namespace nntl;
typedef double real_t; typedef math::smatrix<real_t> Mx; typedef math::smatrix_deform<real_t> MxD;
typedef std::pair<numel_cnt_t,numel_cnt_t> Co;
struct Chk{ long l,g,n,i,cls,inj; };
struct Fault{ long l=-1,g=0,n=0,i=0,kind=0; double rel=0; };
static std::vector<Chk> CK; static Fault FA; static long WHO=-1;
static const size_t MAXCK=4000;
struct Insp : public inspector::GradCheck<real_t>{ typedef inspector::GradCheck<real_t> P;
 void gc_prep_check_layer(const layer_index_t l,const nntl::_impl::gradcheck_paramsGroup g,const Mx::mtx_coords_t&c,const bool b=false)noexcept{ CK.push_back(Chk{(long)l,g==nntl::_impl::gradcheck_paramsGroup::dLdW,g==nntl::_impl::gradcheck_paramsGroup::dLdW?(long)c.first:(long)c.second,g==nntl::_impl::gradcheck_paramsGroup::dLdW?(long)c.second:(long)c.first,3,0}); P::gc_prep_check_layer(l,g,c,b); }
 real_t get_analytical_value()const noexcept{ real_t v=P::get_analytical_value(); Chk&k=CK.back(); k.cls= v!=v?3: v==0?0: std::fabs(v)<1e-4||std::fabs(v)>100?1:2;
  if(k.l==FA.l&&k.g==FA.g&&k.n==FA.n&&(!k.g||k.i==FA.i)){ k.inj=FA.kind; switch(FA.kind){ case 1: return v*(1+FA.rel); case 2: return v*(1+FA.rel); case 3: return 0; case 4: return -v; case 5: return std::numeric_limits<real_t>::quiet_NaN(); case 6: return std::numeric_limits<real_t>::infinity(); } } return v; }
};
struct I : public d_int_nI<real_t>{ typedef Insp iInspect_t; };
static I::iMath_t& im(){ static I::iMath_t m; return m; }
static I::iRng_t& rg(){ static I::iRng_t* r=0; if(!r){ r=new I::iRng_t(); r->init_ithreads(im().ithreads(),1); } return *r; }
static Insp& ins(){ static Insp i; return i; }
typedef weights_init::Xavier<> WI; typedef grad_works<I> GWk; template<class A> using FC=layer_fully_connected<A,GWk>;
typedef FC<activation::identity<real_t,WI>> FI; typedef FC<activation::sigm<real_t,WI>> FS; typedef FC<activation::softsigm<real_t,1000,WI>> FG; typedef FC<activation::elu<real_t,1000,WI>> FE; typedef LFC_DO<activation::sigm<real_t,WI>,GWk,Dropout<real_t>> FD;
typedef layer_output<activation::identity_quad_loss<real_t,WI>,GWk> OI; typedef layer_output<activation::sigm_xentropy_loss<real_t,WI>,GWk> OX;  typedef layer_output<activation::sigm_quad_loss<real_t,WI>,GWk> OS;
typedef layer_input<I> In; typedef layer_identity<I> Id; typedef LIG<500000,I> Gate;
static const real_t LR=real_t(.01);
struct Ly{ long idx,nc,inc,lr,out; std::function<Mx*()> w; std::function<void(double)> l2; }; static std::vector<real_t> LOSS; static long FULL=0;
struct Obs : public i_training_observer<real_t>{ template<class T,class C> bool init(numel_cnt_t e,T&td,const C&cd)noexcept{ return true; } void deinit()noexcept{} void report_results_begin(const data_set_id_t d,const numel_cnt_t n)noexcept{}
 template<class Y,class C> void report_results(const numel_cnt_t b,const Mx&a,const math::smatrix<Y>&y,const C&cd)noexcept{} void report_results_end(const real_t l)noexcept{}
 template<class T> void on_training_start(const T&td,vec_len_t bs,vec_len_t mf,numel_cnt_t np)noexcept{} void on_training_fragment_end(const numel_cnt_t e,const real_t tr,const real_t te,const std::chrono::nanoseconds&t)noexcept{ LOSS.push_back(tr); LOSS.push_back(te); } void on_training_end(const std::chrono::nanoseconds&t)noexcept{} };
typedef inmem_train_data<real_t,real_t> TD; typedef gradcheck_settings<real_t> GS;
struct B{ std::vector<Ly> ly; long gate=0,inw=0,outw=0; virtual ~B(){} virtual bool gc(const Mx&x,const Mx&y,long bs,const GS&s)=0; virtual long prep(const Mx&x)=0; virtual long train(TD&td,long ep,const std::function<void(B&)>&cb)=0; 
 template<class L> void add(L&l,std::true_type){ ly.push_back(Ly{(long)l.get_layer_idx(),(long)l.get_neurons_cnt(),(long)l.get_incoming_neurons_cnt(),1,0,[&l]()->Mx*{ return &l.get_weights(); },[&l](double v){ l.get_gradWorks().L2(real_t(v)); }}); } template<class L> void add(L&l,std::false_type){ ly.push_back(Ly{(long)l.get_layer_idx(),(long)l.get_neurons_cnt(),0,0,0,[]()->Mx*{ return 0; },[](double){}}); }
 template<class L> void add(L&l){ add(l,std::integral_constant<bool,is_layer_learnable<L>::value>()); } };
template<class LP> struct Run{ LP lp; nnet<LP> nn; template<class...A> Run(A&...a):lp(a...),nn(lp,&ins(),&im(),&rg()){} };
template<class D> struct NB : B{ 
 bool gc(const Mx&x,const Mx&y,long bs,const GS&s)override{ return ((D*)this)->r->nn.gradcheck(x,y,(vec_len_t)bs,s); } long prep(const Mx&x)override{ return (long)((D*)this)->r->nn.fprop(x); }
 long train(TD&td,long ep,const std::function<void(B&)>&cb)override{ nnet_train_opts<real_t,Obs> o((numel_cnt_t)ep,false); o.ImmediatelyDeinit(false).calcFullLossValue(!!FULL); return (long)((D*)this)->r->nn.train(td,o,[&](numel_cnt_t)->bool{ cb(*this); return true; }); } };
#define NET(LPT,...) typedef LPT LP; std::unique_ptr<Run<LP>> r; void fin(){ r.reset(new Run<LP>(__VA_ARGS__)); this->inw=in.get_neurons_cnt(); this->outw=o.get_neurons_cnt(); }
#define C ,
template<class F1,class F2,class O> struct G0 : NB<G0<F1,F2,O>>{ In in; F1 f; F2 g; O o; NET(layers<In C F1 C F2 C O>,in,f,g,o) G0(long a,long b,long c,long y):in(a),f(b,LR),g(c,LR),o(y,LR){ fin(); this->add(f); this->add(g); this->add(o); this->ly.back().out=1; } };
struct G1 : NB<G1>{ In in; FS f; FI g; typedef LPV<FS,FI> V; V v; OI o; NET(layers<In C V C OI>,in,v,o) G1(long a,long b,long c,long y):in(a),f(b,LR),g(c,LR),v(f,g),o(y,LR){ fin(); add(f); add(g); add(v); add(o); ly.back().out=1; } };
struct G2 : NB<G2>{ In in; FI u; FS f; FG g; Id d; typedef LPH<PHL<FS>,PHL<FG>,PHL<Id>> H; H h; OX o; NET(layers<In C FI C H C OX>,in,u,h,o) G2(long a,long b,long c,long y):in(a),u(b+2,LR),f(b,LR),g(c,LR),h(make_PHL(f,0,(neurons_count_t)b),make_PHL(g,1,(neurons_count_t)b),make_PHL(d,(neurons_count_t)b,2)),o(y,LR){ fin(); add(u); add(f); add(g); add(d); add(h); add(o); ly.back().out=1; } };
struct G3 : NB<G3>{ In in; FS u; FI f; typedef LPT<FI> T; T t; OI o; NET(layers<In C FS C T C OI>,in,u,t,o) G3(long a,long b,long c,long y):in(a),u(2*b,LR),f(c,LR),t(f,2),o(y,LR){ fin(); add(u); add(f); add(t); add(o); ly.back().out=1; } };
struct G4 : NB<G4>{ In in; Gate gt; FS f; FI g; typedef LPHO<false,PHL<Gate>,PHL<FS>,PHL<FI>> H; H h; OI o; NET(layers<In C H C OI>,in,h,o) G4(long a,long b,long c,long y):in(2+2*a),gt(),f(b,LR),g(c,LR),h(make_PHL(gt,0,2),make_PHL(f,2,(neurons_count_t)a),make_PHL(g,(neurons_count_t)(2+a),(neurons_count_t)a)),o(y,LR){ gate=2; fin(); add(f); add(g); add(gt); add(h); add(o); ly.back().out=1; } };
static B* mk(long k,long a,long b,long c,long y){ switch(k){ case 0: return new G0<FS,FI,OI>(a,b,c,y); case 1: return new G0<FI,FG,OX>(a,b,c,y); case 2: return new G0<FE,FS,OS>(a,b,c,y); case 3: return new G1(a,b,c,y); case 4: return new G2(a,b,c,y); case 5: return new G3(a,b,c,y); case 6: return new G0<FD,FS,OS>(a,b,c,y); default: return new G4(a,b,c,y); } }
typedef std::vector<std::vector<real_t>> WS; static WS snap(B&b){ WS r; for(auto&l:b.ly) if(l.lr){ Mx*m=l.w(); r.emplace_back(m->data(),m->data()+m->numel()); } return r; }
static void put(B&b,const WS&w){ size_t k=0; for(auto&l:b.ly) if(l.lr){ Mx*m=l.w(); std::copy(w[k].begin(),w[k].end(),m->data()); ++k; } }
static void crash(int){ vp::emit("{\"op\":\"crash\"}"); _exit(0); }
int main(int argc,char**argv){ signal(SIGSEGV,crash); signal(SIGABRT,crash); std::cout.setstate(std::ios::failbit);
 return vp::drive(argc,argv,[&](vp::Args&a){ auto j=a.ev(); std::mt19937 g((unsigned)a["s"]); std::normal_distribution<double> nd(0,1); rg().seed((int)a["s"]);
  std::unique_ptr<B> n(mk(a["net"],a["a"],a["b"],a["c"],a["y"])); long l2=a["s"]%3; FULL=(a["s"]/3)%2; auto reg=[&](B&b){ if(l2) for(auto&l:b.ly) l.l2(.05*l2); }; reg(*n); long N=a["rows"]; MxD x,y; x.will_emulate_biases(); x.resize(N,n->inw); y.resize(N,n->outw);
  for(int r=0;r<N;++r){ for(int c=0;c<n->inw;++c) x.set(r,c, c<n->gate? double(g()%2) : c==n->gate&&a["zc"]? 0. : nd(g)); for(int c=0;c<n->outw;++c) y.set(r,c, a["net"]==1||a["net"]==4||a["net"]==6? double(g()%2) : nd(g)); } x.set_biases();
  GS st(!!(a["s"]%2),a["net"]==6,1e-5); st.onlineBatchSize=(vec_len_t)a["obs"]; auto grp=[](gradcheck_groupSetts&q,const std::vector<long>&v){ if(v[0]) q.set((neurons_count_t)v[1],(unsigned)v[2]); else q.set((neurons_count_t)v[1]); }; grp(st.groupSetts,a.v("gs")); grp(st.subgroupSetts,a.v("ss"));
  auto thr=[](long t){ return std::pow(10.,-(double)t); }; st.evalSetts.dLdA_setts.relErrFailThrsh=thr(a["fa"]); st.evalSetts.dLdW_setts.relErrFailThrsh=thr(a["fw"]); st.evalSetts.dLdA_setts.relErrWarnThrsh=thr(a["fa"]+2); st.evalSetts.dLdW_setts.relErrWarnThrsh=thr(a["fw"]+2); st.evalSetts.dLdA_setts.percOfZeros=(int)a["za"]; st.evalSetts.dLdW_setts.percOfZeros=(int)a["zw"]; st.evalSetts.bIgnoreZerodLdWInUndelyingLayer=!!a["ig"];
  if(a["net"]==6) for(auto*l:{&((G0<FD,FS,OS>*)n.get())->f}) l->dropoutPercentActive(real_t(.75));
  if(a["net"]==7){ for(int k=0;k<2;++k) st.layerCanSkipExecIds.push_back((layer_index_t)n->ly[k].idx); }
  long nl=(long)n->ly.size(); std::vector<long> ign; std::vector<long> iv=a.v("ign"); if(a["net"]==7&&a["s"]%4) iv.push_back(2); for(long k:iv) if(k<nl){ st.ignoreLayerIds.push_back((layer_index_t)n->ly[k].idx); ign.push_back(n->ly[k].idx); }
  std::vector<std::string> ls; for(auto&l:n->ly){ vp::J q; ls.push_back(q.i("idx",l.idx).i("nc",l.nc).i("inc",l.inc).i("lr",l.lr).i("out",l.out).end()); }
  FA=Fault(); FA.kind=a["fk"];
  if(FA.kind){ auto&l=n->ly[a["fl"]%nl]; FA.l=l.idx; FA.g=a["fg"]; FA.n=a["fn"]%l.nc; FA.i=a["fi"]%(l.inc+1); FA.rel= FA.kind==1? 3*thr(FA.g?a["fw"]:a["fa"]) : .2*thr(FA.g?a["fw"]:a["fa"]); if(g()%2&&FA.rel<.4) FA.rel=-FA.rel; }
  CK.clear(); long ret=0,wsame=1,tr=0,eq=1,ag=0;
  if(a.op=="gc"){ WS w0; if(a["pre"]){ MxD px; px.will_emulate_biases(); px.resize(a["pre"],n->inw); px.zeros(); px.set_biases(); ag=n->prep(px); w0=snap(*n); }
   ret=n->gc(x,y,a["bs"],st); WS w1=snap(*n); if(a["pre"]) wsame= w0==w1; ag+=n->prep(x); wsame&= snap(*n)==w1; }
  else { // "gct": training with a gradient check after every epoch against plain training
   MxD px; x.clone_to(px); ag=n->prep(px); WS w0=snap(*n); WS res[2]; std::vector<real_t> ls2[2]; FA=Fault();
   for(int pass=0;pass<2;++pass){ B*b=n.get(); std::unique_ptr<B> n2; if(pass){ n2.reset(mk(a["net"],a["a"],a["b"],a["c"],a["y"])); b=n2.get(); reg(*b); b->prep(px); } LOSS.clear(); put(*b,w0); TD td; MxD X[2],Y[2]; for(int d=0;d<2;++d){ x.clone_to(X[d]); y.clone_to(Y[d]); } td.absorb(std::move(X[0]),std::move(Y[0]),std::move(X[1]),std::move(Y[1]));
     if(b==n.get()) b->prep(px); tr+=b->train(td,a["ep"],[&](B&q){ if(pass){ CK.clear(); ret+= q.gc(x,y,a["bs"],st); } }); res[pass]=snap(*b); ls2[pass]=LOSS; }
   eq= res[0]==res[1] && res[0]!=w0 && ls2[0]==ls2[1] && !ls2[0].empty(); CK.clear(); }
  std::vector<std::string> cs; for(auto&k:CK){ vp::J q; cs.push_back(vp::jarr(std::vector<long>{k.l,k.g,k.n,k.i,k.cls,k.inj})); }
  vp::emit(j.i("ret",ret).i("ag",ag).i("wsame",wsame).i("tr",tr).i("eq",eq).raw("ly",vp::jlist(ls)).raw("ids",vp::jarr(ign)).raw("ck",vp::jlist(cs)).end()); }); }
