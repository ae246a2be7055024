// normalization of train data: in-memory data sets are changed in place, transformed ones at run time
#include "vp_alloc.h"
#include "vp_io.h"
#include "nntl/math.h"
#include "nntl/interfaces.h"
#include "nntl/nntl.h"
#include "nntl/train_data/transf_train_data.h"
using namespace nntl;
#ifndef XTT
#define XTT double
#endif
#ifndef STT
#define STT double
#endif
typedef XTT X_t; typedef STT S_t;
typedef dt_interfaces<double> I; typedef I::iMath_t iMath_t; typedef I::iThreads_t iThreads_t;
struct Rng{ uint64_t s=88172645463325252ull; long operator()(long n){ s^=s<<13; s^=s>>7; s^=s<<17; return (long)((s>>11)%(uint64_t)n); } };
static Rng R; static iMath_t* gM;
struct CD{ iMath_t& iMath()const{return *gM;} iMath_t& get_iMath()const{return *gM;} auto& get_iThreads()const{return gM->ithreads();} Rng& iRng()const{return R;} vec_len_t input_batch_size()const{return 1;} };
static CD cd;
typedef inmem_train_data<X_t,X_t> TD; typedef inmem_train_data_stor<X_t,X_t> ST; typedef math::smatrix_deform<X_t> XM;
struct Fn : public _i_td_transformer<X_t,X_t>{ typedef inmem_train_data_stor<X_t,X_t> S; XM bx,by;
 vec_len_t samplesInBaseSample()const noexcept{return 1;} vec_len_t xWidth(const S&s)const noexcept{return s.train_x().sample_size();} vec_len_t yWidth(const S&s)const noexcept{return s.train_y().sample_size();}
 numel_cnt_t base_dataset_samples_count(const S&s,data_set_id_t d)const noexcept{return s.X(d).batch_size();}
 void deinit()noexcept{ bx.clear(); by.clear(); }
 template<class M> bool init(M&,const S&s,vec_len_t n)noexcept{ bx.clear(); by.clear(); bx.will_emulate_biases(); by.dont_emulate_biases(); return bx.resize(n,xWidth(s)) && by.resize(n,yWidth(s)); }
 void shape(vec_len_t n){ bx.deform_batch_size_with_biases(n); by.deform_batch_size(n); }
 void put(const S&s,data_set_id_t d,vec_len_t r,vec_len_t id){ for(int c=0;c<xWidth(s);++c) bx.set(r,c,s.X(d).get(id,c)); for(int c=0;c<yWidth(s);++c) by.set(r,c,s.Y(d).get(id,c)); }
 template<class C> void next_epoch(const S&s,const numel_cnt_t,const C&,const vec_len_t n,math::smatrix<X_t>**px,math::smatrix<X_t>**py)noexcept{ shape(n); *px=&bx; *py=&by; }
 template<class C> void next_batch(const S&s,const numel_cnt_t,const C&,const vec_len_t*ids,const vec_len_t n)noexcept{ for(int i=0;i<n;++i) put(s,0,i,ids[i]); }
 template<class C> void walk(const S&s,const data_set_id_t,const C&,const vec_len_t n,const unsigned ex,math::smatrix<X_t>**px,math::smatrix<X_t>**py)noexcept{ shape(n); *px=DataSetsId::exclude_dataX(ex)?nullptr:&bx; *py=DataSetsId::exclude_dataY(ex)?nullptr:&by; }
 template<class C> void walk_next(const S&s,const data_set_id_t d,const numel_cnt_t,const C&,const vec_len_t n,const vec_len_t ofs,const unsigned)noexcept{ shape(n); for(int i=0;i<n;++i) put(s,d,i,ofs+i); }
};
typedef transf_train_data<Fn> TT;
static std::unique_ptr<TD> T; static Fn fn; static std::unique_ptr<TT> T2; static std::unique_ptr<TD> base;
static const long U=64*16;
static long en(double v){ return v!=v? 999999999: std::fabs(v)>1e5? 888888888 : std::lround(v*U); }
template<class M> void rd(const M&m,std::vector<long>&o,bool&bo){ for(int i=0;i<m.batch_size();++i){ for(int c=0;c<m.sample_size();++c) o.push_back(en(m.get(i,c))); if(m.emulatesBiases()&&m.get(i,m.cols()-1)!=1) bo=false; } }
static bool mkset(TD&t,const vp::Args&a){ XM x[2],y[2]; for(int d=0;d<2;++d){ long n=a[d?"n2":"n1"],w=a["w"]; x[d].will_emulate_biases(); x[d].resize(n,w); y[d].resize(n,1); const auto&v=a.v(d?"x2":"x1"); for(int i=0;i<n;++i){ for(int c=0;c<w;++c) x[d].set(i,c,X_t(v[i*w+c]/64.)); y[d].set(i,0,X_t(i+10*d)); } } 
  return t.absorb(std::move(x[0]),std::move(y[0]),std::move(x[1]),std::move(y[1])); }
int main(int argc,char**argv){ std::cout.setstate(std::ios::failbit); static iMath_t im; gM=&im; bool rt=false; int thr=0;
 return vp::drive(argc,argv,[&](vp::Args&a){ long ret=1; std::vector<long> o1,o2,oe; bool bo=true,yo=true,raw=true;
  if(a.op=="reset"){ vp::emit(a.ev().end()); return; }
  { typedef utils::mtx2Normal::ScaleCentralData<S_t> A_t; static A_t A; bool is=true;
    if(a.op=="asc") A._upd_scale(S_t(a["v"])); else if(a.op=="aof") A._upd_ofs(S_t(a["v"])); else if(a.op=="aboth") A._upd_both(S_t(a["v"]),S_t(a["o"]));
    else if(a.op=="aall") A._upd_all_typed(A_t(S_t(a["v"]),S_t(a["o"]),a["b1"],a["b2"])); else if(a.op=="arst") A.reset(); else is=false;
    if(is){ vp::J j=a.ev(); j.i("rsc",vp::enc(A.sc)).i("rof",vp::enc(A.ofs)).i("rb1",A.bScale).i("rb2",A.bOffset); vp::emit(j.end()); return; } }
  if(a.op=="load"){ rt=a["rt"]; T2.reset(); T.reset(); base.reset(); fn.deinit(); if(rt){ base.reset(new TD); ret=mkset(*base,a); T2.reset(new TT(fn,*base)); } else { T.reset(new TD); ret=mkset(*T,a);} }
  else if(a.op=="norm"){ auto go=[&](auto&t){ typedef TDNormSettings<X_t,S_t> ST_; ST_ s; s.targetScale=S_t(a["T"]); s.targetCentral=S_t(a["C"]); s.bScaleNormalize=a["ns"]; s.bCentralNormalize=a["nc"]; s.bColumnwise=a["cw"]; s.batchSize=a["bs"]; s.batchCount=a["bc"]; s.bVerbose=false;
     return t.template normalize_data<S_t>(cd,s); }; ret= rt? go(*T2):go(*T); }
  else if(a.op=="resetn"){ T2->reset_normalization(); }
  auto show=[&](auto&t){ vec_len_t f=a["vb"]; t.init4inference(im,f); for(int d=0;d<2;++d){ long nb=t.walk_over_set(d,cd,-1); long k=0; for(long i=0;i<nb;++i){ t.next_subset(i,cd); rd(t.batchX(),d?o2:o1,bo); for(int r=0;r<t.batchY().rows();++r) if(t.batchY().get(r,0)!=X_t(k+++10*d)) yo=false; } } t.deinit4all();
    // what training batches deliver, put back in order by the label
    vec_len_t f2=0,b2=1; bool mb; if(t.init4train(im,f2,b2,&mb)==_nnet_errs::ErrorCode::Success){ long n=t.dataset_samples_count(0),w=t.xWidth(); oe.assign(n*w,0); long nb=t.on_next_epoch(0,cd,1); for(long i=0;i<nb;++i){ t.on_next_batch(i,cd); long id=std::lround((double)t.batchY().get(0,0)); if(id<0||id>=n){ yo=false; continue; } for(int c=0;c<w;++c) oe[id*w+c]=en(t.batchX().get(0,c)); } } t.deinit4all(); };
  if(rt) show(*T2); else show(*T);
  if(rt){ std::vector<long> z; bool b=true; rd(base->train_x(),z,b); rd(base->test_x(),z,b); vp::J j=a.ev(); j.i("ret",ret).arr("o1",o1).arr("o2",o2).arr("oe",oe).i("bo",bo).i("yo",yo).arr("raw",z); vp::emit(j.end()); }
  else { vp::J j=a.ev(); j.i("ret",ret).arr("o1",o1).arr("o2",o2).arr("oe",oe).i("bo",bo).i("yo",yo).raw("raw","[]"); vp::emit(j.end()); }
 }); }
