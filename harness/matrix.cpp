// replays scripts of matrix operations on the real smatrix/smatrix_deform and records what they do
#include "vp_alloc.h"
#include "vp_io.h"
#include "nntl/math.h"
#include "nntl/common.h"
#include "nntl/interface/math/smatrix.h"
#include <memory>
using namespace nntl; using namespace nntl::math;
#ifndef VT
#define VT double
#endif
typedef VT T; typedef smatrix<T> M; typedef smatrix_deform<T> D;
static const int SL=3, XB=2, XS=24;
struct Slot{ alignas(D) unsigned char mem[sizeof(D)]; D*p=nullptr;
  template<class...A> void mk(A&&...a){ kill(); p=new(mem) D(std::forward<A>(a)...); }
  void kill(){ if(p){ p->~D(); p=nullptr; } } };
static Slot S[SL+1]; static T* X[XB+1];
static void reset(){ for(int s=1;s<=SL;++s){ S[s].kill(); } for(int s=1;s<=SL;++s) S[s].mk();
  for(int b=1;b<=XB;++b){ free(X[b]); X[b]=(T*)malloc(sizeof(T)*XS); for(int i=0;i<XS;++i) X[b][i]=T(6+i);} }
static std::string obs(){
 std::vector<std::string> ms;
 for(int s=1;s<=SL;++s){ const D& d=*S[s].p; vp::J j; j.i("e",d.empty()).i("af",d.isAllocationFailed()).i("em",d.emulatesBiases()).i("own",d.bOwnStorage()).i("bir",d.bBatchInRow()).i("r",d.rows()).i("c",d.cols());
  std::vector<long> v; bool rdy=!d.empty()&&d.rows()>0&&d.cols()>0;
  if(rdy){ for(int c=0;c<d.cols();++c) for(int r=0;r<d.rows();++r) v.push_back(vp::enc(d.get(r,c))); }
  j.i("rnb",rdy?d.rows_no_bias():0).i("cnb",rdy?d.cols_no_bias():0).i("ss",rdy?d.sample_size():0).i("bs",rdy?d.batch_size():0).i("ho",rdy?d.hasHoleyBiases():0)
   .i("ne",rdy?(long)d.numel():0).i("nenb",rdy?(long)d.numel_no_bias_sBiR():0).arr("d",v); ms.push_back(j.end()); }
 std::vector<std::string> xs; for(int b=1;b<=XB;++b){ std::vector<long> v; for(int i=0;i<XS;++i) v.push_back(vp::enc(X[b][i])); xs.push_back(vp::jarr(v)); }
 vp::J o; o.raw("m",vp::jlist(ms)).raw("x",vp::jlist(xs)).i("live",vp::g_live + (vp::g_bad_free?1000:0)); return o.end(); }
int main(int argc,char**argv){
 std::ifstream in(argv[1]); vp::out()=fopen(argv[2],"w"); reset(); std::string line;
 while(std::getline(in,line)){
  std::istringstream is(line); std::string op; long s,t,a,b,em,ho,bir,f,val,xb; size_t nv; is>>op>>s>>t>>a>>b>>em>>ho>>bir>>f>>val>>xb>>nv; std::vector<long> v(nv); for(auto&e:v) is>>e;
  long ret=-1; D*d=S[s].p; D* y= (t>=1&&t<=SL)?S[t].p:nullptr; M& m=*d; T w=T(vp::dec<T>(val));
  bool fail=op.compare(0,2,"f_")==0; std::string fop=op; if(fail){ op=op.substr(2); vp::g_fail_at=0; }
  if(op=="reset") reset();
  else if(op=="ctor") S[s].mk(vec_len_t(a),vec_len_t(b),bool(em),bool(bir));
  else if(op=="ctor_sz"){ S[s].mk(M(typename M::mtx_size_t(a,b),bool(em),bool(bir))); }
  else if(op=="ctor_ds"){ S[s].mk(M(bool(bir),vec_len_t(a),vec_len_t(b),bool(em))); }
  else if(op=="ctor0") S[s].mk();
  else if(op=="resize") ret=d->resize(vec_len_t(a),vec_len_t(b));
  else if(op=="resize_b") ret=m.resize(vec_len_t(a),vec_len_t(b));
  else if(op=="resize_sz") ret=d->resize(typename M::mtx_size_t(a,b));
  else if(op=="resize_ds") ret=d->resize_as_dataset(a,b);
  else if(op=="resize_ds_b") ret=m.resize_as_dataset(a,b);
  else if(op=="resize_nb") ret=m.resize(vec_len_t(a),vec_len_t(b),tag_noBias());
  else if(op=="resize_like") ret=d->resize(static_cast<const M&>(*y));
  else if(op=="resize_like_b") ret=m.resize(static_cast<const M&>(*y));
  else if(op=="resize_ne"){ bool e=em,h=ho,br=bir; ret=d->resize(numel_cnt_t(a),&e,&h,&br); }
  else if(op=="clear") d->clear();
  else if(op=="use_int") ret=d->useInternalStorage(a,b,em,bir);
  else if(op=="use_ext") d->useExternalStorage(X[t],vec_len_t(a),vec_len_t(b),bool(em),bool(ho),bool(bir));
  else if(op=="ctor_ext") S[s].mk(X[t],vec_len_t(a),vec_len_t(b),bool(em),bool(ho),bool(bir));
  else if(op=="use_ext_ds") d->useExternalStorage(bool(bir),X[t],vec_len_t(a),vec_len_t(b),bool(em),bool(ho));
  else if(op=="use_ext_ds2") d->useExternalStorage(vec_len_t(a),vec_len_t(b),X[t],bool(em),bool(ho));
  else if(op=="use_ext_like") d->useExternalStorage(X[xb],static_cast<const M&>(*y),bool(ho));
  else if(op=="ctor_ext_like"){ S[s].mk(M(X[xb],static_cast<const M&>(*y))); }
  else if(op=="use_ext_like_nb") m.useExternalStorage_no_bias(X[xb],static_cast<const M&>(*y));
  else if(op=="use_mat") d->useExternalStorage(static_cast<M&>(*y));
  else if(op=="use_mat_nb") d->useExternalStorage_no_bias(static_cast<M&>(*y));
  else if(op=="use_cols_nb") m.useExternalStorage_no_bias(static_cast<M&>(*y),a,b);
  else if(op=="subm"){ S[s].mk(y->submatrix_cols_no_bias(a,b)); }
  else if(op=="subm_b"){ S[s].mk(static_cast<M&>(*y).submatrix_cols_no_bias(a,b)); }
  else if(op=="mctor") S[s].mk(std::move(*y));
  else if(op=="massign") *d=std::move(*y);
  else if(op=="massign_b") m=std::move(static_cast<M&>(*y));
  else if(op=="clone_to") ret=m.clone_to(*y);
  else if(op=="clone_from") ret=d->cloneFrom(*y);
  else if(op=="clone_to_nb") ret=m.clone_to_no_bias(*y);
  else if(op=="copy_to") ret=m.copy_to(*y);
  else if(op=="copy_skip_bias") ret=m.copy_data_skip_bias(*y);
  else if(op=="set") m.set(a,b,w);
  else if(op=="fill") m.fill(w);
  else if(op=="ones") m.ones();
  else if(op=="nans") m.nans();
  else if(op=="nans_nb") m.nans_no_bias();
  else if(op=="zeros") m.zeros();
  else if(op=="fill_col"){ if(a==m.cols()-1 && (val&1)) m.fill_last_column(w); else m.fill_column_with(a,w); }
  else if(op=="fill_row"){ if(a==m.rows()-1 && (val&1)) m.fill_last_row(w); else m.fill_row_with(a,w); }
  else if(op=="set_biases") m.set_biases();
  else if(op=="holey") m.holey_biases(ho);
  else if(op=="set_bir") m.set_batchInRow(bir);
  else if(op=="emul"){ m.emulate_biases(em); }
  else if(op=="from_arr"){ if(f){ std::vector<T> q(v.begin(),v.end()); m.fill_from_array_no_bias(q.data()); } else { std::vector<short> q(v.begin(),v.end()); m.fill_from_array_no_bias(q.data()); } }
  else if(op=="biases_arr"){ std::vector<T> q(v.begin(),v.end()); vec_len_t n=0; for(auto e:v) n+=e!=0; m.copy_biases_from(q.data(),n); }
  else if(op=="biases_mat") m.copy_biases_from(static_cast<const M&>(*y));
  else if(op=="deform") d->deform(a,b);
  else if(op=="deform_rows") ret=d->deform_rows(a);
  else if(op=="deform_cols") ret=d->deform_cols(a);
  else if(op=="deform_bs") ret=d->deform_batch_size(a);
  else if(op=="deform_bs_bias") d->deform_batch_size_with_biases(a);
  else if(op=="deform_ss") ret=d->deform_sample_size(a);
  else if(op=="deform_ds") d->deform_dataset(a,b);
  else if(op=="deform_like") d->deform_like(static_cast<const M&>(*y));
  else if(op=="deform_like_nb") d->deform_like_no_bias(static_cast<const M&>(*y));
  else if(op=="hide_col") d->hide_last_col();
  else if(op=="rest_col") d->restore_last_col();
  else if(op=="hide_n") ret=d->hide_last_n_cols(a);
  else if(op=="rest_n") d->restore_last_n_cols(f,a);
  else if(op=="hide_bias") ret=d->hide_biases();
  else if(op=="rest_bias") d->restore_biases(f);
  else if(op=="transp") d->on_transposition();
  else if(op=="eq"){ bool q=m==static_cast<M&>(*y); bool n=m!=static_cast<M&>(*y); ret= q==n?9:q; }
  else if(op=="is_bin") ret=m._isBinary(true);
  else if(op=="is_bin_strict") ret=m._isBinaryStrict(true);
  else if(op=="is_bin_strict_nb") ret=m._isBinaryStrictNoBias(true);
  else if(op=="no_nans") ret=m.test_noNaNs();
  else if(op=="bias_ok") ret=m.test_biases_ok();
  else { fprintf(stderr,"unknown op %s\n",op.c_str()); return 3; }
  if(fail){ vp::g_fail_at=-1; if(fop=="f_clone_to"||fop=="f_clone_to_nb") S[t].mk(); else if(fop=="f_clone_from") S[s].mk(); }
  vp::J j; j.str("op",fop).i("s",s).i("t",t).i("a",a).i("b",b).b("em",em).b("ho",ho).b("bir",bir).b("f",f).i("val",val).i("xb",xb).arr("v",v).i("ret",ret).raw("obs",obs());
  vp::emit(j.end());
 }
 for(int s=1;s<=SL;++s) S[s].kill();
 return 0; }
