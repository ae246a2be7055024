// whole networks: histories of train()/fprop() calls, every notification recorded
#include "vp_alloc.h"
#include "vp_io.h"
#include "nntl/math.h"
#include "nntl/interfaces.h"
#include "nntl/nntl.h"
#include "nntl/weights_init.h"
using namespace nntl;
#ifndef REALT
#define REALT double
#endif
typedef REALT real_t; typedef math::smatrix<real_t> Mx; typedef math::smatrix_deform<real_t> MxD;
typedef std::vector<long> L; static std::vector<L> EV; static int lastL=0;
template<class M> L ids(const M&m){ L o; for(int i=0;i<m.batch_size();++i) o.push_back((long)std::lround((double)(m.bBatchInRow()?m.get(0,i):m.get(i,0)))); return o; }
static std::vector<double> wts(); static std::vector<double> wlast; static long wbad;   // weights may only change when a gradient is applied
static void ev(L v){ EV.push_back(v); auto w=wts(); if(w!=wlast&&v[0]!=33&&v[0]!=20&&v[0]!=1) ++wbad; wlast=w; } static void ev(L v,const L&w){ v.insert(v.end(),w.begin(),w.end()); ev(v); }
struct Insp : public inspector::_impl::_base<real_t>{ typedef inspector::_impl::_base<real_t> B;
 void init_nnet(const size_t n,const numel_cnt_t e)const noexcept{ ev({20,(long)n,(long)e}); }
 void train_epochBegin(const numel_cnt_t e,const numel_cnt_t n)const noexcept{ ev({8,e,n}); } void train_epochEnd()const noexcept{ ev({13}); }
 void train_batchBegin(const numel_cnt_t b)const noexcept{ ev({9,b}); } void train_batchEnd()const noexcept{ ev({12}); }
 void train_preFprop(const B::realmtx_t&x)const noexcept{ ev({10},ids(x)); } template<class Y> void train_preBprop(const math::smatrix<Y>&y)const noexcept{ ev({11},ids(y)); }
 void train_preCalcError(const data_set_id_t d)const noexcept{ ev({17,d}); } void train_postCalcError()const noexcept{ ev({18}); }
 // forward propagation of the first layer above the input: mode and samples
 void fprop_begin(const layer_index_t l,const B::realmtx_t&p,const bool t)const noexcept{ lastL=l; if(l==1) ev({30,t},ids(p)); } void fprop_end(const B::realmtx_t&a)const noexcept{ if(lastL>0) ev({31,lastL,a.batch_size()}); }
 template<class T> void bprop_begin(const layer_index_t l,const math::smatrix<T>&d)const noexcept{ ev({32,l,d.batch_size()}); }
 void apply_grad_end(const B::realmtx_t&)const noexcept{ ev({33}); } };
struct I : public d_int_nI<real_t>{ typedef Insp iInspect_t; };
static long lastbs; static bool obsFail; static real_t thr;
struct Obs : public i_training_observer<real_t>{ 
 template<class T,class C> bool init(numel_cnt_t e,T&td,const C&cd)noexcept{ ev({2,e}); return !obsFail; } void deinit()noexcept{ ev({16}); }
 void report_results_begin(const data_set_id_t d,const numel_cnt_t n)noexcept{ ev({4,d,n}); }
 template<class Y,class C> void report_results(const numel_cnt_t b,const Mx&a,const math::smatrix<Y>&y,const C&cd)noexcept{ ev({5,b,cd.is_training_mode(),(long)cd.input_batch_size(),a.batch_size()},ids(y)); }
 real_t ll=0; void report_results_end(const real_t l)noexcept{ ll=l; ls.push_back(l); ev({6}); } std::vector<real_t> ls;
 template<class T> void on_training_start(const T&td,vec_len_t bs,vec_len_t mf,numel_cnt_t np)noexcept{ lastbs=bs; ls.clear(); ev({3,bs,mf,np}); }
 void on_training_fragment_end(const numel_cnt_t e,const real_t tr,const real_t te,const std::chrono::nanoseconds&t)noexcept{ bool m=ls.size()==2&&ls[0]==tr&&ls[1]==te; ls.clear(); ev({7,e,m,tr>=thr,t.count()>=0}); }
 void on_training_end(const std::chrono::nanoseconds&t)noexcept{ ev({15}); } };
typedef grad_works<I> GWk; typedef weights_init::XavierFour WI;
typedef layer_fully_connected<activation::relu<real_t,WI>,GWk> FC; typedef layer_output<activation::identity_quad_loss<real_t,WI>,GWk> OutL; typedef layer_input<I> InpL;
typedef layers<InpL,FC,OutL> LP; typedef nnet<LP> NN; typedef inmem_train_data<real_t,real_t> TD; typedef _nnet_errs::ErrorCode E;
static int ec(E e){ return e==E::Success?0: e==E::InvalidTD?1: e==E::InvalidInputLayerNeuronsCount?2: e==E::InvalidOutputLayerNeuronsCount?3: e==E::CantInitializeObserver?4: e==E::NNDiverged?5: e==E::InvalidBatchSize2MaxFPropSizeRelation?6: e==E::OtherTdInitError?7: 9; }
static std::unique_ptr<InpL> in; static std::unique_ptr<FC> fc; static std::unique_ptr<OutL> ou; static std::unique_ptr<LP> lp; static std::unique_ptr<NN> nn; static std::unique_ptr<TD> td;
std::vector<double> wts(){ std::vector<double> o; for(auto m:{&fc->get_weights(),&ou->get_weights()}) for(int i=0;i<m->numel();++i) o.push_back(m->data()[i]); return o; }
static void mkx(MxD&x,long n){ x.will_emulate_biases(); x.resize(n,in->get_neurons_cnt()); for(int i=0;i<n;++i) for(int c=0;c<in->get_neurons_cnt();++c) x.set(i,c,real_t(c?1:i+1)); x.set_biases(); }
int main(int argc,char**argv){ using namespace vp; static I::iMath_t im; static I::iRng_t rng; static Insp insp; std::cout.setstate(std::ios::failbit);
 if(I::iRng_t::is_multithreaded) rng.init_ithreads(im.ithreads()); rng.seed64(5); std::vector<double> wprev;
 return drive(argc,argv,[&](Args&a){ J j=a.ev(); EV.clear(); lastL=0; wbad=0; if(nn) wlast=wts();
  if(a.op=="reset"){ if(nn) nn->deinit(); nn.reset(); lp.reset(); td.reset(); in.reset(new InpL(a["xw"])); fc.reset(new FC(a["hid"],real_t(1e-5))); ou.reset(new OutL(a["yw"],real_t(1e-5))); if(a["l2"]) fc->get_gradWorks().L2(real_t(.5));
    lp.reset(new LP(*in,*fc,*ou)); nn.reset(new NN(*lp,&insp,&im,&rng)); wprev.clear(); }
  else if(a.op=="data"){ if(td){ td->deinit4all(); } td.reset(new TD); long xw=a["xw"],yw=a["yw"]; long n[2]={a["n1"],a["n2"]};
    if(n[0]){ MxD x[2],y[2]; for(int d=0;d<2;++d){ x[d].will_emulate_biases(); x[d].resize(n[d],xw+1>1?xw:1); y[d].resize(n[d],yw);
      for(int i=0;i<n[d];++i){ for(int c=0;c<xw;++c) x[d].set(i,c,real_t(c?1:d*100+i+1)); for(int c=0;c<yw;++c) y[d].set(i,c,real_t(c?0:d*100+i+1)); } x[d].set_biases(); }
      j.i("ok",td->absorb(std::move(x[0]),std::move(y[0]),std::move(x[1]),std::move(y[1]))); } else j.i("ok",1); }
  else if(a.op=="train"){ nnet_train_opts<real_t,Obs> o(a["ep"],false); auto&c=o.getCondEpochEval(); long msk=a["msk"]; for(int e=0;e<a["ep"];++e) c.set(e,(msk>>e)&1);
    o.batchSize(a["bs"]); if(a["mf"]) o.maxFpropSize(a["mf"]); o.divergenceCheckLastEpoch((int16_t)a["div"]); thr=a["lim"]?real_t(-1):real_t(1e30); o.divergenceCheckThreshold(thr).ImmediatelyDeinit(a["imm"]).bReportOnlyTime(a["rot"]).bForceReinitTD(a["rtd"]).calcFullLossValue(a["full"]);
    obsFail=a["of"]; long stop=a["stop"]; bool hadW=wprev.size()>0; 
    bool same=true; auto r=nn->train(*td,o,[&](const numel_cnt_t e)noexcept{ ev({14,e}); if(a["cbf"]){ MxD x; mkx(x,std::min((long)a["cbf"],lastbs)); nn->fprop(x); } return e!=stop; },[&]()noexcept{ ev({1}); if(hadW) same=wts()==wprev; return a["inf"]?E::OtherTdInitError:E::Success; });
    j.i("ret",ec(r)).i("le",ec(nn->get_last_error())).i("same",same).i("wbad",wbad); std::vector<std::string> s; for(auto&v:EV) s.push_back(jarr(v)); j.raw("ev",jlist(s)); bool w=fc->get_weights().numel()>0; if(w){ auto v=wts(); j.i("moved",v!=wprev); wprev=v; wlast=v; } else { j.i("moved",0); wprev.clear(); } j.i("ini",nn->is_initialized(1,1)); }
  else if(a.op=="fprop"){ MxD x; mkx(x,a["n"]);
    auto r=nn->fprop(x); j.i("ret",ec(r)).i("rows",ou->get_activations().batch_size()).i("cols",ou->get_activations().sample_size()); auto v=wts(); j.i("same",wprev.empty()||v==wprev); wprev=v; std::vector<std::string> s; for(auto&q:EV) s.push_back(jarr(q)); j.raw("ev",jlist(s)); }
  else if(a.op=="req"){ nn->require_reinit(); }
  else if(a.op=="deinit"){ nn->deinit(); j.i("ini",nn->is_initialized(1,0)); }
  else { fprintf(stderr,"unknown op\n"); exit(3); }
  emit(j.end()); }); }
