// quality reports: the stdout observer and both evaluators inside real training calls; confusion matrices
#include "vp_alloc.h"
#include "vp_io.h"
#include "nntl/math.h"
#include "nntl/interfaces.h"
#include "nntl/nntl.h"
#include "nntl/weights_init.h"
#include "nntl/utils/confusion_mtx.h"
using namespace nntl;
#ifndef REALT
#define REALT double
#endif
typedef REALT real_t; typedef math::smatrix_deform<real_t> MxD; typedef std::vector<long> L;
struct Insp : public inspector::_impl::_base<real_t>{ }; struct I : public d_int_nI<real_t>{ typedef Insp iInspect_t; };
// in-memory data with supplementary sets
struct TD : public _inmem_train_data<TD,real_t,real_t>{ typedef _inmem_train_data<TD,real_t,real_t> B; typedef inmem_train_data_stor<real_t,real_t> S; MxD ex[2],ey[2]; int nx=0;
 data_set_id_t datasets_count()const noexcept{ return 2+nx; } numel_cnt_t dataset_samples_count(data_set_id_t d)const noexcept{ return X(d).batch_size(); }
 const x_mtxdef_t& X(data_set_id_t d)const noexcept{ return d<2?S::X(d):ex[d-2]; } const y_mtxdef_t& Y(data_set_id_t d)const noexcept{ return d<2?S::Y(d):ey[d-2]; }
 x_mtxdef_t& X_mutable(data_set_id_t d)noexcept{ return d<2?S::X_mutable(d):ex[d-2]; } y_mtxdef_t& Y_mutable(data_set_id_t d)noexcept{ return d<2?S::Y_mutable(d):ey[d-2]; }
 static DatasetNamingFunc_t get_dataset_naming_function()noexcept{ return [](data_set_id_t d,char*p,unsigned n){ snprintf(p,n,"extra%d",(int)d); }; } };
static std::vector<std::string> EV; static void ev(const L&v){ EV.push_back(vp::jarr(v)); } static long k1024(double v){ return std::lround(v*1024); }
static std::stringstream TXT;
template<class Ev> struct Obs : public training_observer_stdcout<real_t,Ev>{ typedef training_observer_stdcout<real_t,Ev> B; using B::m_classifRes; using B::m_curDataSetId; using B::m_evaluator; static real_t& thr(){ static real_t t=real_t(.5); return t; } static bool& set(){ static bool b=false; return b; }
 template<class T,class C> bool init(numel_cnt_t e,T&td,const C&cd)noexcept{ if constexpr(!std::is_same<Ev,eval_classification_one_hot_cached<real_t>>::value) if(set()) m_evaluator.set_threshold(thr()); return B::init(e,td,cd); }
 long lines(){ long n=0; std::string s; while(std::getline(TXT,s)){ long a[9]; double d[9]; char nm[64];
   if(10<=sscanf(s.c_str(),"%ld/%ld %lfs trL=%lf, trErr=%lf%% (%ld), vL=%lf, vErr=%lf%% (%ld%c",a,a+1,d,d+1,d+2,a+2,d+3,d+4,a+3,nm)) ev({9,1,a[0],a[1],std::lround(d[1]*1000),std::lround(d[2]*100),a[2],std::lround(d[3]*1000),std::lround(d[4]*100),a[3]});
   else if(4<=sscanf(s.c_str(),"extra%ld: Loss=%lf, Err=%lf%% (%ld",a,d,d+1,a+1)) ev({9,2,a[0],std::lround(d[0]*1000),std::lround(d[1]*100),a[1]});
   else if(8<=sscanf(s.c_str(),"Model f:%ld->%ld has %ld params. There are %ld training samples and %ld for testing. BatchSize=%ld, batchCnt=%ld, maxFpropSize=%ld",a,a+1,a+2,a+3,a+4,a+5,a+6,a+7)) ev({9,3,a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]});
   else if(!s.empty()&&s.find("Training time")==std::string::npos) ev({9,0}); } TXT.clear(); TXT.str(""); return n; }
 template<class T> void on_training_start(const T&td,vec_len_t bs,vec_len_t mf,numel_cnt_t np)noexcept{ TXT.clear(); TXT.str(""); B::on_training_start(td,bs,mf,np); lines(); }
 void report_results_end(const real_t l)noexcept{ B::report_results_end(l); ev({1,(long)m_curDataSetId,(long)m_classifRes[m_curDataSetId].totalElements,(long)m_classifRes[m_curDataSetId].correctlyClassif,k1024(l)}); lines(); }
 void on_training_fragment_end(const numel_cnt_t e,const real_t tr,const real_t te,const std::chrono::nanoseconds&t)noexcept{ B::on_training_fragment_end(e,tr,te,t); bool m=this->m_lastTrainErr==tr&&this->m_lastTestErr==te; ev({2,(long)e,m,k1024(tr),k1024(te)}); lines(); } };
typedef grad_works<I> GWk; typedef weights_init::XavierFour WI; typedef layer_output<activation::identity_quad_loss<real_t,WI>,GWk> OutL; typedef layer_input<I> InpL;
typedef layers<InpL,OutL> LP; typedef nnet<LP> NN; typedef _nnet_errs::ErrorCode E;
typedef Obs<eval_classification_one_hot_cached<real_t>> O1; typedef Obs<eval_classification_binary_cached<real_t>> O2;
static std::unique_ptr<InpL> in; static std::unique_ptr<OutL> ou; static std::unique_ptr<LP> lp; static std::unique_ptr<NN> nn; static std::unique_ptr<TD> td;
static std::unique_ptr<nnet_train_opts<real_t,O1>> p1; static std::unique_ptr<nnet_train_opts<real_t,O2>> p2;
template<class O> void train(const vp::Args&a,vp::J&j,std::unique_ptr<nnet_train_opts<real_t,O>>&p){ if(!p||p->maxEpoch()!=a["ep"]||!a["keep"]) p.reset(new nnet_train_opts<real_t,O>(a["ep"],false)); auto&o=*p; auto&c=o.getCondEpochEval();
 for(int e=0;e<a["ep"];++e) c.set(e,(a["msk"]>>e)&1); o.maxFpropSize(0); o.batchSize(a["bs"]); if(a["bs"]) o.maxFpropSize(a["mf"]); o.divergenceCheckLastEpoch((int16_t)a["div"]); o.ImmediatelyDeinit(false).calcFullLossValue(a["full"]); O::set()=a["thr"]>=0; O::thr()=real_t(a["thr"])/4;
 auto r=nn->train(*td,o,[&](const numel_cnt_t)noexcept{ for(long d:a.v("cb")){ auto l=nn->calcLossAndReport(*td,d,o.observer(),(vec_len_t)a["mf2"]); ev({3,d,k1024(l)}); } return true; }); j.i("ret",(long)r); }
struct CMx{ utils::ConfusionMtx<real_t> m[3]; }; static CMx cm;
int main(int argc,char**argv){ using namespace vp; static I::iMath_t im; static I::iRng_t rng; static Insp insp; std::cout.rdbuf(TXT.rdbuf());
 if(I::iRng_t::is_multithreaded) rng.init_ithreads(im.ithreads()); rng.seed64(5); for(auto&m:cm.m) m.clear();
 return drive(argc,argv,[&](Args&a){ J j=a.ev(); EV.clear();
  if(a.op=="data"){ long w=a["w"]; const L&n=a.v("n"),&x=a.v("x"),&y=a.v("y"); if(nn) nn->deinit(); nn.reset(); lp.reset(); p1.reset(); p2.reset(); in.reset(new InpL(w)); ou.reset(new OutL(w,real_t(1e-5))); lp.reset(new LP(*in,*ou)); nn.reset(new NN(*lp,&insp,&im,&rng));
   math::smatrix<real_t> wm(w,w+1); wm.zeros(); for(int i=0;i<w;++i) wm.set(i,i,1); j.i("sw",ou->set_weights(wm)); ou->_setUpdateWeights(false);
   td.reset(new TD); td->nx=(int)n.size()-2; MxD X[4],Y[4]; size_t q=0; for(size_t d=0;d<n.size();++d){ X[d].will_emulate_biases(); X[d].resize(n[d],w); X[d].set_biases(); Y[d].resize(n[d],w); for(int i=0;i<n[d];++i) for(int c=0;c<w;++c,++q){ X[d].set(i,c,real_t(x[q])/4); Y[d].set(i,c,real_t(y[q])/4); } }
   j.i("ok",td->absorb(std::move(X[0]),std::move(Y[0]),std::move(X[1]),std::move(Y[1]))); for(size_t d=2;d<n.size();++d){ td->ex[d-2]=std::move(X[d]); td->ey[d-2]=std::move(Y[d]); } }
  else if(a.op=="relabel"){ const L&y=a.v("y"); size_t q=0; for(int d=0;d<td->datasets_count();++d){ auto&Y=td->Y_mutable(d); for(int i=0;i<(int)Y.rows();++i) for(int c=0;c<(int)Y.cols();++c,++q) Y.set(i,c,real_t(y[q])/4); } }
  else if(a.op=="train"){ if(a["kind"]) train(a,j,p2); else train(a,j,p1); j.raw("ev",jlist(EV)); }
  else if(a.op=="upd"){ for(long v:a.v("o")) cm.m[a["m"]].update((v&1)!=0,(v&2)!=0); }
  else if(a.op=="cnt"){ auto&m=cm.m[a["m"]]; m.trueNegCnt()=a["tn"]; m.falseNegCnt()=a["fn"]; m.falsePosCnt()=a["fp"]; m.truePosCnt()=a["tp"]; }
  else if(a.op=="cclear") cm.m[a["m"]].clear(); else if(a.op=="cadd") cm.m[a["m"]]+=cm.m[a["s"]]; else if(a.op=="cset") cm.m[a["m"]]=cm.m[a["s"]];
  else if(a.op=="cred"){ utils::ConfusionMtx<real_t> v[5]; for(int i=0;i<a["k"];++i) v[i]=cm.m[(a["m"]+i)%3]; cm.m[a["m"]].reduce(v,(int)a["k"]); }
  else if(a.op=="ceq") j.i("ret",cm.m[a["m"]]==cm.m[a["s"]]);
  else if(a.op=="cmet"){ const auto&m=cm.m[a["m"]]; L o; auto f=[&](real_t v){ o.push_back(v!=v?99999: std::isinf(v)?99998: std::lround(double(v)*10000)); };
   f(m.Sensitivity()); f(m.Recall()); f(m.TPR()); f(m.Specificity()); f(m.TNR()); f(m.Precision()); f(m.PPV()); f(m.NPV()); f(m.Accuracy()); f(m.Jaccard()); f(m.F1Score()); f(m.FBetaScore(real_t(2))); f(m.FBetaScore(real_t(.5))); f(m.Informedness()); f(m.Markedness()); f(m.MCC()); j.arr("met",o); 
   j.arr("tot",L{m.TP(),m.FP(),m.TN(),m.FN(),m.TotalPosCnt(),m.TotalNegCnt(),m.DataPosCnt(),m.DataNegCnt(),m.AllCnt(),m.truePosCnt(),m.falsePosCnt(),m.trueNegCnt(),m.falseNegCnt()}); }
  else { fprintf(stderr,"unknown op %s\n",a.op.c_str()); exit(3); }
  if(a.op[0]=='c'||a.op=="upd"){ std::vector<std::string> s; for(auto&m:cm.m) s.push_back(jarr(L{m.TP(),m.FP(),m.TN(),m.FN()})); j.raw("cm",jlist(s)); }
  emit(j.end()); }); }
