// activation functions, their derivatives, output-layer loss gradients and losses
#include "vp_math.h"
#include "nntl/activations/sigm.h"
#include "nntl/activations/identity.h"
#include "nntl/activations/relu_family.h"
#include "nntl/activations/elu.h"
#include "nntl/activations/elogu.h"
#include "nntl/activations/loglogu.h"
#include "nntl/activations/logu.h"
#include "nntl/activations/selu.h"
#include "nntl/activations/softsign.h"
#include "nntl/activations/softsigm.h"
#include "nntl/activations/softmax.h"
#include "nntl/activations/step.h"
#define S1(F,X) VAR(M.F X); 
#define F3(N,...) do{ VAR(M.N(__VA_ARGS__)); VAR(M.N##_st(__VA_ARGS__)); VAR(M.N##_mt(__VA_ARGS__)); }while(0)
#define R3(N,...) do{ VAR(res=M.N(__VA_ARGS__)); VAR(res=M.N##_st(__VA_ARGS__)); VAR(res=M.N##_mt(__VA_ARGS__)); }while(0)
namespace ac=nntl::activation;
#define CF(...) do{ typedef __VA_ARGS__ T_; VAR(T_::f(A,M)); }while(0)
#define CD(...) do{ typedef __VA_ARGS__ T_; VAR(T_::df(A,M)); }while(0)
#define CL(...) do{ typedef __VA_ARGS__ T_; VAR(T_::dLdZ(B,A,M)); }while(0)
#define CLI(...) do{ typedef __VA_ARGS__ T_; VAR(T_::dLdZIdentity(B,A,M)); }while(0)
#define CLS(...) do{ typedef __VA_ARGS__ T_; VAR(res=T_::loss(A,B,M)); }while(0)
template<class R> using LqF=ac::Linear_Loss_quadWeighted_FP<R,2000000,500000>;
template<class R> using Lq2=ac::Linear_Loss_quadWeighted2_FP<R,2000000,500000,500000>;
template<class R> using LqR=ac::Linear_Loss_quadWeighted_res_FP<R,2000000,500000>;
int main(int argc,char**argv){ std::cout.setstate(std::ios::failbit); using namespace vp; im();
 return drive(argc,argv,[&](Args&a){ if(a.op=="reset"){ emit(a.ev().end()); return; }
  Ctx& C=ctx(); C=Ctx(); MxD A; Mx B; double res=0; const std::string&op=a.op; typedef real_t R;
  auto g=[&](const char*n){ return a.has(n)?a[n]:0; }; const long r=g("r"),c=g("c"),k=g("k"),m=g("m"),Bn=g("bn"),Bp=g("bp"),ik=g("ik"); const bool b=g("b");
  const double L=std::log(2.0);
  auto val=[&](long x,long i)->double{ switch(ik){ case 0: return x/8.; case 1: return x*L; case 2: return x<0? 1-std::pow(2.,-x):std::pow(2.,x)-1; case 3: return x<0? x*L: std::pow(2.,x)-1;
    case 4: return x<0? x/8.: Bp==0? x*L: x; case 6: return x<0? (Bn==0?x*L:x) : (Bp==0?x*L:x); case 7: return x/16.; case 8: return std::log(double(x))+a.v("w").at(i);
    case 9: return x==99?0: std::pow(2.,-x); } fprintf(stderr,"bad kind\n"); exit(3); };
  auto src=[&]{ shape(A,r,c,b); size_t q=0; for(long j=0;j<c;++j) for(long i=0;i<r;++i) A.set(i,j,R(val(a.v("x").at(q++),i))); };
  const double yd=g("yd")? g("yd"):1;
  auto two=[&]{ src(); shape(B,r,c,false); fill(B,a.v("y"),yd); };
  auto xe=[&]{ two(); for(vec_len_t i=0;i<A.rows();++i) for(vec_len_t j=0;j<A.cols();++j) if(B.get(i,j)==0) A.set(i,j,R(1)-A.get(i,j)); };   // labels 0: 1-2^-x
  C.prep=src; C.get=[&]{ return dump(A); }; C.round=true; C.S=16384; Mx& X=A;
  auto grad=[&]{ C.prep=two; C.consts={&B}; };
  auto lossy=[&]{ C.prep=two; C.consts={&A,&B}; C.get=[&]{ return std::vector<double>{res}; }; };
  const R kd4=R(k/4.),md4=R(m/4.),kd8=R(k/8.); const R bn=R(Bn),bp=R(Bp);
  if(op=="fsigm"){ F3(sigm,X); CF(ac::sigm<R>); CF(ac::sigm_quad_loss<R>); CF(ac::sigm_xentropy_loss<R>); }
  else if(op=="dsigm"){ F3(dsigm,X); CD(ac::sigm<R>); }
  else if(op=="frelu"){ F3(relu,X); CF(ac::relu<R>); }
  else if(op=="drelu"){ F3(drelu,X); CD(ac::relu<R>); }
  else if(op=="fleaky"){ const R l=R(1./k); F3(leakyrelu,X,l); if(k==2) CF(ac::leaky_relu<R,200>); if(k==4) CF(ac::leaky_relu<R,400>); if(k==100){ CF(ac::leaky_relu<R>); CF(ac::leaky_relu_100<R>); } if(k==1000) CF(ac::leaky_relu_1000<R>); }
  else if(op=="dleaky"){ const R l=R(1./k); F3(dleakyrelu,X,l); if(k==2) CD(ac::leaky_relu<R,200>); if(k==4) CD(ac::leaky_relu<R,400>); if(k==100) CD(ac::leaky_relu_100<R>); if(k==1000) CD(ac::leaky_relu_1000<R>); }
  else if(op=="felu"){ F3(elu,X,kd4); if(k==4){ F3(elu_unitalpha,X); CF(ac::elu_ua<R>); CF(ac::elu<R>); } if(k==2) CF(ac::elu<R,500>); if(k==8) CF(ac::elu<R,2000>); }
  else if(op=="delu"){ F3(delu,X,kd4); if(k==4){ F3(delu_unitalpha,X); CD(ac::elu_ua<R>); } if(k==2) CD(ac::elu<R,500>); if(k==8) CD(ac::elu<R,2000>); }
  else if(op=="felogu"){ if(Bp){ F3(elogu,X,kd4,bp); if(k==4) F3(elogu_ua,X,bp); } else { F3(elogu_nb,X,kd4); if(k==4) F3(elogu_ua_nb,X); }
    if(k==4&&Bp==2){ CF(ac::elogu<R>); CF(ac::elogu_ua<R>);} if(k==2&&Bp==2) CF(ac::elogu<R,500>); if(k==2&&Bp==4) CF(ac::elogu<R,500,4000>); if(k==4&&Bp==4) CF(ac::elogu_ua<R,4000>); if(k==8&&Bp==0) CF(ac::elogu_nb<R,2000>); if(k==4&&Bp==0) CF(ac::elogu_ua_nb<R>); }
  else if(op=="delogu"){ if(Bp){ F3(delogu,X,kd4,bp); if(k==4) F3(delogu_ua,X,bp); } else { F3(delogu_nb,X,kd4); if(k==4) F3(delogu_ua_nb,X); }
    if(k==4&&Bp==2) CD(ac::elogu<R>); if(k==2&&Bp==2) CD(ac::elogu<R,500>); if(k==2&&Bp==4) CD(ac::elogu<R,500,4000>); if(k==4&&Bp==4) CD(ac::elogu_ua<R,4000>); if(k==8&&Bp==0) CD(ac::elogu_nb<R,2000>); if(k==4&&Bp==0) CD(ac::elogu_ua_nb<R>); }
  else if(op=="floglogu"){ if(Bn&&Bp) F3(loglogu,X,bn,bp); else if(Bp) F3(loglogu_nbn,X,bp); else if(Bn) F3(loglogu_nbp,X,bn); else F3(loglogu_nbn_nbp,X);
    if(Bn==4&&Bp==2) CF(ac::loglogu<R,4000,2000>); if(Bn==0&&Bp==2){ CF(ac::loglogu<R>); CF(ac::loglogu_nbn<R>); } if(Bn==2&&Bp==0) CF(ac::loglogu_nbp<R,2000>); if(Bn==0&&Bp==0) CF(ac::loglogu_nbn_nbp<R>); if(Bn==2&&Bp==4) CF(ac::loglogu<R,2000,4000>); }
  else if(op=="dloglogu"){ if(Bn&&Bp) F3(dloglogu,X,bn,bp); else if(Bp) F3(dloglogu_nbn,X,bp); else if(Bn) F3(dloglogu_nbp,X,bn); else F3(dloglogu_nbn_nbp,X);
    if(Bn==4&&Bp==2) CD(ac::loglogu<R,4000,2000>); if(Bn==0&&Bp==2){ CD(ac::loglogu<R>); CD(ac::loglogu_nbn<R>); } if(Bn==2&&Bp==0) CD(ac::loglogu_nbp<R,2000>); if(Bn==0&&Bp==0) CD(ac::loglogu_nbn_nbp<R>); if(Bn==2&&Bp==4) CD(ac::loglogu<R,2000,4000>); }
  else if(op=="flogu"){ if(Bp) F3(logu,X,bp); else F3(logu_nb,X); if(Bp==2) CF(ac::logu<R>); if(Bp==4) CF(ac::logu<R,4000>); if(Bp==0) CF(ac::logu_nb<R>); }
  else if(op=="dlogu"){ if(Bp) F3(dlogu,X,bp); else F3(dlogu_nb,X); if(Bp==2) CD(ac::logu<R>); if(Bp==4) CD(ac::logu<R,4000>); if(Bp==0) CD(ac::logu_nb<R>); }
  else if(op=="fsoftsign"){ F3(softsign,X,kd8,md4); if(m==4) F3(softsign_uc,X,kd8); if(k==8&&m==4){ CF(ac::softsign_uc_ua<R>); CF(ac::softsign<R>); } if(k==4&&m==4) CF(ac::softsign<R,500000>); if(k==8&&m==8) CF(ac::softsign<R,1000000,2000000>); if(k==16&&m==2) CF(ac::softsign<R,2000000,500000>); }
  else if(op=="dsoftsign"){ F3(dsoftsign,X,kd8,md4); if(k==8&&m==4){ F3(dsoftsign_ua_uc,X); CD(ac::softsign_uc_ua<R>); } if(k==4&&m==4) CD(ac::softsign<R,500000>); if(k==8&&m==8) CD(ac::softsign<R,1000000,2000000>); if(k==16&&m==2) CD(ac::softsign<R,2000000,500000>); }
  else if(op=="fsoftsigm"){ F3(softsigm,X,kd8); if(k==8){ CF(ac::softsigm_ua<R>); CF(ac::softsigm_quad_loss<R>); } if(k==4) CF(ac::softsigm<R,500>); if(k==16) CF(ac::softsigm_xentropy_loss<R,2000>); }
  else if(op=="dsoftsigm"){ F3(dsoftsigm,X,kd8); if(k==8) CD(ac::softsigm_ua<R>); if(k==4) CD(ac::softsigm<R,500>); if(k==16) CD(ac::softsigm<R,2000>); }
  else if(op=="fselu"){ F3(selu,X,kd4,md4); if(k==12&&m==6) CF(ac::selu<R,2000000000,1500000000>); }
  else if(op=="dselu"){ F3(dselu,X,kd4,md4); if(k==12&&m==6) CD(ac::selu<R,2000000000,1500000000>); }
  else if(op=="fselu0"){ CF(ac::selu<R>); }
  else if(op=="dselu0"){ CD(ac::selu<R>); }
  else if(op=="fstep"){ F3(step,X); CF(ac::step<R>); }
  else if(op=="dstep"){ CD(ac::step<R>); }
  else if(op=="fid"){ CF(ac::identity<R>); CF(ac::identity_quad_loss<R>); }
  else if(op=="did"){ CD(ac::identity<R>); VAR(ac::sigm<R>::dIdentity(A,M)); VAR(ac::elu<R>::dIdentity(A,M)); }
  else if(op=="softmax"){ F3(softmax,A); CF(ac::softmax_xentropy_loss<R>); }
  else if(op=="smparts"){ std::vector<R> mx(r),den(size_t(r)*64),num(size_t(r)*c); C.consts={&A}; C.prep=[&]{ src(); for(long i=0;i<r;++i){ mx[i]=A.get(i,0); for(long j=1;j<c;++j) mx[i]=std::max(mx[i],A.get(i,j)); } std::fill(den.begin(),den.end(),R(7)); };
    C.get=[&]{ std::vector<double> o(den.begin(),den.begin()+r); o.insert(o.end(),num.begin(),num.end()); return o; };
    VAR(M.softmax_parts(A,&mx[0],&den[0],&num[0])); VAR(M.softmax_parts_st(A,&mx[0],&den[0],&num[0])); VAR(M.softmax_parts_st_rw(A,&mx[0],&den[0],&num[0])); VAR(M.softmax_parts_st_cw(A,&mx[0],&den[0],&num[0])); VAR(M.softmax_parts_mt(A,&mx[0],&den[0],&num[0])); VAR(M.softmax_parts_mt_rw(A,&mx[0],&den[0],&num[0]));
    typedef iMath_t::Thresholds_t Th; if(c>(long)Th::softmax_parts_mt_cw_ColsPerThread) VAR(M.softmax_parts_mt_cw(A,&mx[0],&den[0],&num[0])); }
  else if(op=="gsigmq"){ grad(); F3(dSigmQuadLoss_dZ,B,X); CL(ac::sigm_quad_loss<R>); }
  else if(op=="gsub"){ grad(); CL(ac::sigm_xentropy_loss<R>); CL(ac::softmax_xentropy_loss<R>); CL(ac::identity_quad_loss<R>); CLI(ac::identity_quad_loss<R>); CLI(ac::sigm_quad_loss<R>); CLI(ac::softsigm_quad_loss<R>); }
  else if(op=="gidxe"){ grad(); F3(dIdentityXEntropyLoss_dZ,B,X); CLI(ac::sigm_xentropy_loss<R>); CLI(ac::softsigm_xentropy_loss<R>); CLI(ac::softmax_xentropy_loss<R>); }
  else if(op=="gssq"){ grad(); F3(dSoftSigmQuadLoss_dZ,B,X,kd8); if(k==8) CL(ac::softsigm_quad_loss<R>); if(k==16) CL(ac::softsigm_quad_loss<R,2000>); }
  else if(op=="gssx"){ grad(); F3(dSoftSigmXEntropyLoss_dZ,B,X,kd8); if(k==8) CL(ac::softsigm_xentropy_loss<R>); if(k==16) CL(ac::softsigm_xentropy_loss<R,2000>); }
  else if(op=="gcust"){ grad();
    if(k==0){ VAR(M.template dLoss_dZ<LqF<R>>(B,X)); VAR(M.template dLoss_dZ_st<LqF<R>>(B,X)); VAR(M.template dLoss_dZ_mt<LqF<R>>(B,X)); CL(ac::identity_custom_loss<LqF<R>>); CLI(ac::identity_custom_loss<LqF<R>>); }
    if(k==1){ VAR(M.template dLoss_dZ<Lq2<R>>(B,X)); VAR(M.template dLoss_dZ_st<Lq2<R>>(B,X)); VAR(M.template dLoss_dZ_mt<Lq2<R>>(B,X)); CL(ac::identity_custom_loss<Lq2<R>>); }
    if(k==2){ VAR(M.template dLoss_dZ<LqR<R>>(B,X)); VAR(M.template dLoss_dZ_st<LqR<R>>(B,X)); VAR(M.template dLoss_dZ_mt<LqR<R>>(B,X)); CL(ac::identity_custom_loss<LqR<R>>); } }
  else if(op=="lquad"){ lossy(); VAR(res=M.loss_quadratic(A,B)); VAR(res=M.loss_quadratic_st_naive(A,B)); VAR(res=M.loss_quadratic_mt_naive(A,B)); VAR(res=M.loss_quadratic_ns(A,B)); VAR(res=M.loss_quadratic_st_naive_ns(A,B)); VAR(res=M.loss_quadratic_mt_naive_ns(A,B)); VAR(res=M.template compute_loss<ac::Loss_quadratic<R>>(A,B));
    CLS(ac::identity_quad_loss<R>); CLS(ac::identity_quad_loss<R,weights_init::SNNInit,true>); CLS(ac::sigm_quad_loss<R>); CLS(ac::sigm_quad_loss<R,weights_init::SNNInit,true>); CLS(ac::softsigm_quad_loss<R>); CLS(ac::softsigm_quad_loss<R,1000,weights_init::SNNInit,true>); }
  else if(op=="lxe"){ lossy(); C.prep=xe; R3(loss_xentropy,A,B); VAR(res=M.loss_xentropy_ns(A,B)); VAR(res=M.loss_xentropy_ns_st(A,B)); VAR(res=M.loss_xentropy_ns_mt(A,B)); CLS(ac::sigm_xentropy_loss<R>); CLS(ac::sigm_xentropy_loss<R,weights_init::SNNInit,true>); CLS(ac::softsigm_xentropy_loss<R>); CLS(ac::softsigm_xentropy_loss<R,1000,weights_init::SNNInit,true>); }
  else if(op=="lsm"){ lossy(); R3(loss_softmax_xentropy,A,B); CLS(ac::softmax_xentropy_loss<R>); }
  else if(op=="lcust"){ lossy();
    if(k==0){ VAR(res=M.template compute_loss<LqF<R>>(A,B)); VAR(res=M.template compute_loss_st<LqF<R>>(A,B)); VAR(res=M.template compute_loss_mt<LqF<R>>(A,B)); CLS(ac::identity_custom_loss<LqF<R>>); }
    if(k==1){ VAR(res=M.template compute_loss<Lq2<R>>(A,B)); VAR(res=M.template compute_loss_st<Lq2<R>>(A,B)); VAR(res=M.template compute_loss_mt<Lq2<R>>(A,B)); CLS(ac::identity_custom_loss<Lq2<R>>); }
    if(k==2){ VAR(res=M.template compute_loss<LqR<R>>(A,B)); VAR(res=M.template compute_loss_st<LqR<R>>(A,B)); VAR(res=M.template compute_loss_mt<LqR<R>>(A,B)); CLS(ac::identity_custom_loss<LqR<R>>); } }
  else { fprintf(stderr,"unknown op %s\n",op.c_str()); exit(3); }
  fin(a); }); }
