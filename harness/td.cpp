// replays train-data histories (storage, initialization, epochs, walks) on the real classes
#include "vp_alloc.h"
#include "vp_io.h"
#include "nntl/math.h"
#include "nntl/interfaces.h"
#include "nntl/nntl.h"
#include "nntl/train_data/transf_train_data.h"
using namespace nntl;
#ifndef XTT
#define XTT double
#endif
#ifndef YTT
#define YTT double
#endif
typedef XTT X_t; typedef YTT Y_t;
typedef dt_interfaces<double> I; typedef I::iMath_t iMath_t; typedef I::iRng_t iRng_t;
typedef inmem_train_data<X_t,Y_t> TD; typedef inmem_train_data_stor<X_t,Y_t> ST;
typedef math::smatrix_deform<X_t> XM; typedef math::smatrix_deform<Y_t> YM;
struct Rng{ uint64_t s=88172645463325252ull; long operator()(long n){ s^=s<<13; s^=s>>7; s^=s<<17; return (long)((s>>11)%(uint64_t)n); } };
static Rng R; static iMath_t* gM;
struct CD{ vec_len_t bs=0; iMath_t& iMath()const{return *gM;} iMath_t& get_iMath()const{return *gM;} Rng& iRng()const{return R;} vec_len_t input_batch_size()const{return bs;} };
static CD cd;
// a transformer turning each base sample into K samples (the copy number is appended as the last X column)
template<class XX> struct Fn : public _i_td_transformer<XX,XX>{ typedef inmem_train_data_stor<XX,XX> S; int K=1; math::smatrix_deform<XX> bx,by; 
 vec_len_t samplesInBaseSample()const noexcept{return K;} vec_len_t xWidth(const S&s)const noexcept{return s.train_x().sample_size()+1;} vec_len_t yWidth(const S&s)const noexcept{return s.train_y().sample_size();}
 numel_cnt_t base_dataset_samples_count(const S&s,data_set_id_t d)const noexcept{return s.X(d).batch_size();}
 void deinit()noexcept{ bx.clear(); by.clear(); }
 template<class M> bool init(M&,const S&s,vec_len_t n)noexcept{ bx.clear(); by.clear(); bx.will_emulate_biases(); by.dont_emulate_biases(); return bx.resize(n*K,xWidth(s)) && by.resize(n*K,yWidth(s)); }
 template<class M> static XX g(const M&m,vec_len_t i,vec_len_t c){ return m.bBatchInRow()? m.get(c,i):m.get(i,c); }
 void shape(vec_len_t n){ bx.deform_batch_size_with_biases(n*K); by.deform_batch_size(n*K); }
 void put(const S&s,data_set_id_t d,vec_len_t row,vec_len_t id,unsigned ex){ for(int k=0;k<K;++k){ vec_len_t r=row*K+k;
   if(!DataSetsId::exclude_dataX(ex)){ for(int c=0;c<s.X(d).sample_size();++c) bx.set(r,c,g(s.X(d),id,c)); bx.set(r,s.X(d).sample_size(),XX(k)); }
   if(!DataSetsId::exclude_dataY(ex)) for(int c=0;c<s.Y(d).sample_size();++c) by.set(r,c,g(s.Y(d),id,c)); } }
 template<class C> void next_epoch(const S&s,const numel_cnt_t,const C&,const vec_len_t n,math::smatrix<XX>**px,math::smatrix<XX>**py)noexcept{ shape(n); *px=&bx; *py=&by; }
 template<class C> void next_batch(const S&s,const numel_cnt_t,const C&,const vec_len_t*ids,const vec_len_t n)noexcept{ for(int i=0;i<n;++i) put(s,0,i,ids[i],0); }
 template<class C> void walk(const S&s,const data_set_id_t,const C&,const vec_len_t n,const unsigned ex,math::smatrix<XX>**px,math::smatrix<XX>**py)noexcept{ shape(n); *px=DataSetsId::exclude_dataX(ex)?nullptr:&bx; *py=DataSetsId::exclude_dataY(ex)?nullptr:&by; }
 template<class C> void walk_next(const S&s,const data_set_id_t d,const numel_cnt_t,const C&,const vec_len_t n,const vec_len_t ofs,const unsigned ex)noexcept{ shape(n); for(int i=0;i<n;++i) put(s,d,i,ofs+i,ex); }
};
typedef Fn<X_t> FN; typedef transf_train_data<FN> TT;
static std::unique_ptr<TD> S[3]; static FN fn; static std::unique_ptr<TT> T3; static std::unique_ptr<ST> SX; 
static XM lx[2]; static YM ly[2]; static std::vector<X_t> extX; static std::vector<Y_t> extY;
template<class M> std::string dump(const M&m,bool full=true){ vp::J j; if(m.empty()){ j.i("n",0).i("w",0).i("em",0).i("bir",0).i("bo",0).raw("d","[]"); return j.end(); }
 j.i("n",m.batch_size()).i("w",m.sample_size()).i("em",m.emulatesBiases()).i("bir",m.bBatchInRow()); bool bo=true; std::vector<std::string> d;
 for(int i=0;i<m.batch_size();++i){ std::vector<long> v; for(int c=0;c<m.sample_size();++c) v.push_back(vp::enc(m.bBatchInRow()?m.get(c,i):m.get(i,c))); d.push_back(vp::jarr(v));
  if(m.emulatesBiases()&&(m.bBatchInRow()?m.get(m.rows()-1,i):m.get(i,m.cols()-1))!=1) bo=false; }
 j.i("bo",bo).raw("d",vp::jlist(d)); return j.end(); }
template<class M> void mk(M&m,long n,long w,bool em,bool bir,bool own,long g,std::vector<typename M::value_type>&ext){ typedef typename M::value_type V; m.clear();
 if(!n) return; vec_len_t r=bir?w+em:n, c=bir?n:w+em;
 if(own){ M t; em?t.will_emulate_biases():t.dont_emulate_biases(); t.set_batchInRow(bir); t.resize_as_dataset(n,w); m=std::move(t); }
 else { ext.assign(r*c,V(1)); m.useExternalStorage(ext.data(),r,c,em,false,bir); }
 for(int i=0;i<n;++i) for(int k=0;k<w;++k) m.set(bir?k:i,bir?i:k,V((g*16+i)*4+k)); }
static int ecode(_nnet_errs::ErrorCode e){ typedef _nnet_errs::ErrorCode E; return e==E::Success?0: e==E::InvalidBatchSize2MaxFPropSizeRelation?1: e==E::TdInitNoMemory?2: e==E::OtherTdInitError?3:9; }
template<class F> auto on(long s,F&&f){ return s==3? f(*T3) : f(*S[s]); }
int main(int argc,char**argv){ static iMath_t im; gM=&im; 
 auto reset=[&](long k){ T3.reset(); S[1].reset(new TD); S[2].reset(new TD); for(auto&m:lx)m.clear(); for(auto&m:ly)m.clear(); extX.clear(); extY.clear(); R=Rng(); 
  fn.deinit(); fn.K=k; T3.reset(new TT(fn,*S[1])); };
 reset(1);
 return vp::drive(argc,argv,[&](vp::Args&a){ std::string op=a.op; long ret=0,o1=-1,o2=-1,o3=-1; bool gb=false,bxp=false,byp=false; long s=a.has("s")?a["s"]:1;
  if(op=="reset") reset(a["k"]);
  else if(op=="loose"){ long bad=a["bad"],n1=a["n1"],n2=a["n2"],xw=a["xw"],yw=a["yw"],g=a["g"]; bool bx=a["bx"],by=a["by"];
   mk(lx[0],bad==8?0:n1,xw,bad!=5,bx,bad!=7,g,extX); mk(lx[1],bad==17?0:n2,xw+(bad==3),bad!=9,bad==12?!bx:bx,bad!=16,g+1,extX);
   mk(ly[0],bad==18?0:n1+(bad==1),yw,bad==6,by,bad!=10,g+2,extY); mk(ly[1],bad==11?0:n2+(bad==2),yw+(bad==4),bad==14,bad==13?!by:by,bad!=15,g+3,extY); }
  else if(op=="absorb") ret=S[s]->absorb(std::move(lx[0]),std::move(ly[0]),std::move(lx[1]),std::move(ly[1]));
  else if(op=="extract") S[s]->extract(lx[0],ly[0],lx[1],ly[1]);
  else if(op=="reply") ret=S[s]->replace_Y(std::move(ly[0]),std::move(ly[1]));
  else if(op=="dupe") ret=S[s]->dupe(*S[a["t"]]);
  else if(op=="move") static_cast<ST&>(*S[a["t"]])=std::move(static_cast<ST&>(*S[s]));
  else if(op=="absorb_td") S[a["t"]]->absorb(std::move(static_cast<ST&>(*S[s])));
  else if(op=="clear") S[s]->clear();
  else if(op=="eq") ret=static_cast<ST&>(*S[s])==static_cast<ST&>(*S[a["t"]]);
  else if(op=="transp") S[s]->transpose<iMath_t>();
  else if(op=="transpx") S[s]->transposeX<iMath_t>();
  else if(op=="transpy") S[s]->transposeY<iMath_t>();
  else if(op=="init_inf"){ vec_len_t f=a["a"]; ret=on(s,[&](auto&t){return ecode(t.init4inference(im,f));}); o1=f; }
  else if(op=="init_tr"){ vec_len_t f=a["a"],b=a["b"]; bool mb=false; ret=on(s,[&](auto&t){return ecode(t.init4train(im,f,b,&mb));}); o1=f; o2=b; o3=mb; }
  else if(op=="isinf"){ vec_len_t f=a["a"]; ret=on(s,[&](auto&t){return t.is_initialized4inference(f);}); o1=f; }
  else if(op=="istr"){ vec_len_t f=a["a"],b=a["b"]; bool mb=false; ret=on(s,[&](auto&t){return t.is_initialized4train(f,b,mb);}); o1=f; o2=b; o3=ret?mb:0; }
  else if(op=="deinit") on(s,[&](auto&t){t.deinit4all();return 0;});
  else if(op=="epoch"){ cd.bs=a["c"]; ret=on(s,[&](auto&t){return (long)t.on_next_epoch(a["e"],cd,a["a"]);}); }
  else if(op=="batch"){ on(s,[&](auto&t){t.on_next_batch(a["i"],cd);return 0;}); bxp=byp=true; }
  else if(op=="walk"){ cd.bs=a["c"]; ret=on(s,[&](auto&t){return (long)t.walk_over_set(a["ds"],cd,a["a"],(unsigned)a["ex"]);}); }
  else if(op=="next"){ on(s,[&](auto&t){t.next_subset(a["i"],cd);return 0;}); bxp=a["ex"]!=1; byp=a["ex"]!=2; }
  else if(op=="orders"){ // distinct orders in which one-sample batches come over many epochs
   vec_len_t f=0,b=1; bool mb; TD&t=*S[s]; t.init4train(im,f,b,&mb); std::map<std::vector<long>,int> seen; long g=a["g"];
   for(long e=0;e<a["e"];++e){ long nb=t.on_next_epoch(e,cd,1); std::vector<long> o; for(long i=0;i<nb;++i){ t.on_next_batch(i,cd); o.push_back(vp::enc(t.batchX().get(0,0))/4-g*16); } seen[o]++; }
   t.deinit4all(); std::vector<std::string> L; for(auto&p:seen) L.push_back(vp::jarr(p.first)); vp::J j=a.ev(); j.i("ret",0).raw("orders",vp::jlist(L)); vp::emit(j.end()); return; }
  else { fprintf(stderr,"unknown op %s\n",op.c_str()); exit(3); }
  vp::J j=a.ev(); j.i("ret",ret).i("o1",o1).i("o2",o2).i("o3",o3);
  std::vector<std::string> L; for(int q=1;q<=2;++q){ vp::J z; TD&t=*S[q]; z.i("e",t.empty()).raw("x1",dump(t.train_x())).raw("y1",dump(t.train_y())).raw("x2",dump(t.test_x())).raw("y2",dump(t.test_y()))
   .i("c1",t.empty()?0:t.dataset_samples_count(0)).i("c2",t.empty()?0:t.dataset_samples_count(1)).i("xw",t.empty()?0:t.xWidth()).i("yw",t.empty()?0:t.yWidth())
   .i("big",t.empty()?0:(long)t.biggest_samples_count()).i("sc",t.samplesStorageCoherent()).i("scx",t.samplesXStorageCoherent()).i("scy",t.samplesYStorageCoherent()); L.push_back(z.end()); }
  j.raw("st",vp::jlist(L)); j.raw("lo",vp::jlist({dump(lx[0]),dump(ly[0]),dump(lx[1]),dump(ly[1])}));
  if(bxp) j.raw("fx",on(s,[&](auto&t){return dump(t.batchX());})); else j.raw("fx","{\"n\":-1}");
  if(byp) j.raw("fy",on(s,[&](auto&t){return dump(t.batchY());})); else j.raw("fy","{\"n\":-1}");
  vp::emit(j.end()); });
}
