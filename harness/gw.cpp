// one weight matrix driven through histories of training steps by the gradient processing object of a layer
#include "vp_math.h"
typedef grad_works<DI> GW_t; typedef _impl::common_nn_data<DI> CD;
static const double S=1024;
static std::vector<long> rm(const Mx&m){ std::vector<long> o; for(double d:vp::dump(m)) o.push_back(vp::rnd(d,S)); return o; }
int main(int argc,char**argv){ std::cout.setstate(std::ios::failbit); using namespace vp; static DI::iRng_t rng; static DI::iInspect_t ins; static bool nl=false; if(DI::iRng_t::is_multithreaded) rng.init_ithreads(im().ithreads()); rng.init_rng(); rng.seed64(7);
 static CD cd(im(),rng,ins,nl); cd.init(4,2); GW_t* g=0; MxD w;
 auto cfg=[&](Args&a){ static const GW_t::GradType T[]={GW_t::ClassicalConstant,GW_t::RMSProp_Hinton,GW_t::RMSProp_Graves,GW_t::RProp,GW_t::ModProp,GW_t::Adam,GW_t::AdaMax,GW_t::Nadam,GW_t::Radam};
   g->set_type(T[a["ty"]]).beta1(real_t(a["b1"]/4.)).beta2(real_t(a["b2"]/4.)).numeric_stabilizer(real_t(.125));
   if(a["ty"]==8) g->gamma(real_t(.25));
   if(a["ne"]) g->nesterov_momentum(real_t(a["mo"]/4.)); else g->momentum(real_t(a["mo"]/4.));
   g->L1(real_t(a["l1"]/4.),!a["l1b"]).L2(real_t(a["l2"]/4.),!a["l2b"]).max_norm2(real_t(a["mn"]),a["mnb"]).LRDropoutPercentActive(real_t(a["do"]/4.)).setApplyLRDropoutToNesterovMomentum(a["nd"]);
   if(a["il"]) g->set_ILR(real_t(.5),real_t(1.5),real_t(.75),real_t(1.25)); else g->clear_ILR(); g->applyILRToMomentum(a["ilm"]); };
 return drive(argc,argv,[&](Args&a){ J j=a.ev();
  if(a.op=="reset"){ if(g){ g->gw_deinit(); delete g; } g=new GW_t(real_t(a["lr"]/8.)); cfg(a); w.clear(); w.resize(a["r"],a["c"]); fill(w,a.v("x")); j.i("ok",g->gw_init(cd,w)).i("fr",g->isFirstRun()); im().init(); }
  else if(a.op=="reinit"){ g->gw_deinit(); j.i("ok",g->gw_init(cd,w)).i("fr",g->isFirstRun()); im().init(); }
  else if(a.op=="lr"){ g->learning_rate(real_t(a["lr"]/8.)); j.i("ok",rnd(g->learning_rate(),8)==a["lr"]); }
  else if(a.op=="mom"){ if(a["ne"]) g->nesterov_momentum(real_t(a["mo"]/4.)); else g->momentum(real_t(a["mo"]/4.)); j.i("ok",1); }
  else if(a.op=="step"){ MxD d; d.resize(w.rows(),w.cols()); fill(d,a.v("g")); j.i("ha",g->hasLossAddendum()).i("la",rnd(g->lossAddendum(w),S));
    g->pre_training_fprop(w); j.arr("wp",rm(w)); g->apply_grad(w,d); j.arr("w",rm(w)).i("fr",g->isFirstRun()).i("sz",w.rows()*100+w.cols()); }
  else { fprintf(stderr,"unknown op\n"); exit(3); }
  emit(j.end()); }); }
