// element-wise kernels, matrix products, covariances, dropout
#include "vp_math.h"
int main(int argc,char**argv){ std::cout.setstate(std::ios::failbit); using namespace vp; im();
 return drive(argc,argv,[&](Args&a){ if(a.op=="reset"){ emit(a.ev().end()); return; }
  Ctx& C=ctx(); C=Ctx(); MxD A,W; Mx B,D; double res=0; const std::string&op=a.op;
  auto g=[&](const char*n){ return a.has(n)?a[n]:0; }; const long r=g("r"),c=g("c"),n=g("n"); const bool b=g("b"),bir=g("bir"),pb=g("pb"),ab=g("ab"); const real_t k=real_t(g("k")),s=real_t(g("s"));
  auto src=[&]{ shape(A,r,c,b,bir); fill(A,a.v("x")); };
  auto two=[&]{ src(); shape(B,r,c,false,bir); fill(B,a.v("y")); };
  auto dst=[&](long rr,long cc,bool bb=false,bool bi=false){ shape(D,rr,cc,bb,bi); for(vec_len_t j=0;j<D.cols_no_bias();++j) for(vec_len_t i=0;i<D.rows_no_bias();++i) D.set(i,j,real_t(7)); };
  auto D2=[&]{ auto x=dump(A),y=dump(B); x.insert(x.end(),y.begin(),y.end()); return x; };
  C.prep=src; C.get=[&]{ return dump(A); };
  auto bin=[&]{ C.prep=two; C.consts={&B}; };
  auto toD=[&]{ C.get=[&]{ return dump(D); }; };
  if(op=="mulcaddc"){ VAR(M.evMulCAddC_ip((Mx&)A,s,k,true)); VAR(M.evMulCAddC_ip_nb((Mx&)A,s,k)); VAR(M.evMulCAddC_ip_st((Mx&)A,s,k,true)); VAR(M.evMulCAddC_ip_mt((Mx&)A,s,k,true)); if(!b){ VAR(M.evMulCAddC_ip((Mx&)A,s,k)); VAR(M.evMulCAddC_ip_mt((Mx&)A,s,k,false)); VAR(M.evMulCAddC_ip_st((Mx&)A,s,k,false)); VAR(M.vMulCAddC_ip_st(A.data(),A.end(),s,k)); } }
  else if(op=="mulc"){ VAR(M.evMulC_ip((Mx&)A,k,true)); VAR(M.evMulC_ip_nb((Mx&)A,k)); VAR(M.evMulC_ip_st((Mx&)A,k,true)); VAR(M.evMulC_ip_mt((Mx&)A,k,true)); if(!b){ VAR(M.evMulC_ip((Mx&)A,k)); VAR(M.evMulC_ip_mt((Mx&)A,k,false)); VAR(M.evMulC_ip(A.data(),A.numel(),k)); VAR(M.evMulC_ip_st(A.data(),A.numel(),k)); VAR(M.evMulC_ip_mt(A.data(),A.numel(),k)); } }
  else if(op=="addc"){ VAR(M.evAddC_ip((Mx&)A,k,true)); VAR(M.evAddC_ip_nb((Mx&)A,k)); VAR(M.evAddC_ip_st((Mx&)A,k,true)); VAR(M.evAddC_ip_mt((Mx&)A,k,true)); if(!b){ VAR(M.evAddC_ip((Mx&)A,k)); VAR(M.evAddC_ip_mt((Mx&)A,k,false)); } }
  else if(op=="submulc"){ bin(); VAR(M.evSubMtxMulC_ip_nb(A,B,k)); VAR(M.evSubMtxMulC_ip_nb_st(A,B,k)); VAR(M.evSubMtxMulC_ip_nb_mt(A,B,k)); }
  else if(op=="mulnb"){ bin(); VAR(M.evMul_ip_Anb(A,B)); VAR(M.evMul_ip_Anb_st(A,B)); VAR(M.evMul_ip_Anb_mt(A,B)); if(!b){ VAR(M.evMul_ip(A,B)); VAR(M.evMul_ip_st(A,B)); VAR(M.evMul_ip_mt(A,B)); } }
  else if(op=="addnb"){ bin(); VAR(M.evAdd_Anb_ip(A,B)); VAR(M.evAdd_Anb_ip_st(A,B)); VAR(M.evAdd_Anb_ip_mt(A,B)); if(!b){ VAR(M.evAdd_ip(A,B)); VAR(M.evAdd_ip_st(A,B)); VAR(M.evAdd_ip_mt(A,B)); VAR(M.vAdd_ip(A.data(),B.data(),B.numel())); VAR(M.vAdd_ip_st(A.data(),B.data(),B.numel())); VAR(M.vAdd_ip_mt(A.data(),B.data(),B.numel())); } }
  else if(op=="addsc"){ bin(); VAR(M.evAddScaled_ip(A,k,B)); VAR(M.evAddScaled_ip_st(A,k,B)); VAR(M.evAddScaled_ip_mt(A,k,B)); }
  else if(op=="nzaddsc"){ bin(); VAR(M.evNZAddScaled_ip(A,k,B)); VAR(M.evNZAddScaled_ip_st(A,k,B)); VAR(M.evNZAddScaled_ip_mt(A,k,B)); }
  else if(op=="addsgn"){ bin(); VAR(M.evAddScaledSign_ip(A,k,B)); VAR(M.evAddScaledSign_ip_st(A,k,B)); VAR(M.evAddScaledSign_ip_mt(A,k,B)); }
  else if(op=="nzaddsgn"){ bin(); VAR(M.evNZAddScaledSign_ip(A,k,B)); VAR(M.evNZAddScaledSign_ip_st(A,k,B)); VAR(M.evNZAddScaledSign_ip_mt(A,k,B)); }
  else if(op=="sign"){ bin(); VAR(M.evSign(A,B)); VAR(M.evSign_st(A,B)); VAR(M.evSign_mt(A,B)); }
  else if(op=="square"){ bin(); VAR(M.evSquare(A,B)); VAR(M.evSquare_st(A,B)); VAR(M.evSquare_mt(A,B)); }
  else if(op=="abs"){ bin(); VAR(M.evAbs(A,B)); VAR(M.evAbs_st(A,B)); VAR(M.evAbs_mt(A,B)); }
  else if(op=="sub"){ bin(); VAR(M.evSub_ip(A,B)); VAR(M.evSub_ip_st_naive(A,B)); VAR(M.evSub_ip_mt_naive(A,B)); C.prep=[&]{ two(); dst(r,c); }; C.consts={&A,&B}; toD(); VAR(M.evSub(A,B,D)); VAR(M.evSub_st_naive(A,B,D)); VAR(M.evSub_mt_naive(A,B,D)); }
  else if(op=="mulcsub"){ C.prep=two; C.get=D2; VAR(M.evMulC_ip_Sub_ip(A,k,B)); VAR(M.evMulC_ip_Sub_ip_st(A,k,B)); VAR(M.evMulC_ip_Sub_ip_mt(A,k,B)); }
  else if(op=="moment"){ bin(); VAR(M.apply_momentum(A,k,B)); VAR(M.apply_momentum_st(A,k,B)); VAR(M.apply_momentum_mt(A,k,B)); }
  else if(op=="drop"){ const real_t p=real_t(a["p"])/8; C.S=a["p"]; C.prep=[&]{ src(); shape(B,r,c,false); fill(B,a.v("y"),8); }; C.get=D2; VAR(M.make_dropout(A,p,B)); VAR(M.make_dropout_st(A,p,B)); VAR(M.make_dropout_mt(A,p,B)); }
  else if(op=="adrop"){ const real_t p=real_t(a["p"])/8; const real_t d=real_t(a["d"]); C.prep=[&]{ src(); shape(B,r,c,false); fill(B,a.v("y"),8); }; C.get=D2; VAR(M.make_alphaDropout(A,p,s,k,d,B)); VAR(M.make_alphaDropout_st(A,p,s,k,d,B)); VAR(M.make_alphaDropout_mt(A,p,s,k,d,B)); }
  else if(op=="dropmask"){ const real_t p=real_t(a["p"])/8; C.prep=[&]{ src(); shape(B,r,c,false); fill(B,a.v("y"),8); }; C.consts={&B}; VAR(M.apply_dropout_mask(A,p,B)); VAR(M.apply_dropout_mask_st(A,p,B)); VAR(M.apply_dropout_mask_mt(A,p,B)); }
  else if(op=="ab"){ C.prep=[&]{ src(); shape(B,c,n,false); fill(B,a.v("y")); dst(r,n); }; C.consts={&A,&B}; toD(); VAR(M.mMulAB_C(A,B,D)); }
  else if(op=="abt"){ C.prep=[&]{ src(); shape(B,n,c,false); fill(B,a.v("y")); dst(r,n,b); }; C.prep=[&]{ shape(A,r,c,false); fill(A,a.v("x")); shape(B,n,c,false); fill(B,a.v("y")); dst(r,n,b); }; C.consts={&A,&B}; toD(); VAR(M.mMulABt_Cnb(A,B,D)); }
  else if(op=="atb"){ C.prep=[&]{ src(); shape(B,r,n,false); fill(B,a.v("y")); dst(c,n); }; C.consts={&A,&B}; toD(); VAR(M.mScaledMulAtB_C(k,A,B,D)); }
  else if(op=="fwd"){ // x: r samples of c values; y: weights n*(c+1)
    C.prep=[&]{ if(pb){ shape(A,c,r,true,true); Mx t; shape(t,r,c,false); fill(t,a.v("x")); for(long i=0;i<r;++i) for(long j=0;j<c;++j) A.set(j,i,t.get(i,j)); } else { shape(A,r,c,true); fill(A,a.v("x")); } shape(W,n,c+1,false); fill(W,a.v("y")); if(ab) dst(n,r,b,true); else dst(r,n,b,false); };
    C.consts={&A,&W}; toD(); VAR(M.mMul_prevAct_weights_2_act((Mx&)A,(Mx&)W,D)); }
  else if(op=="bwd"){ // x: dLdZ r*n... samples r, width c; y: weights c*(n+1)
    C.prep=[&]{ shape(A,r,c,false); fill(A,a.v("x")); shape(W,c,n+1,false); fill(W,a.v("y")); if(pb) dst(n,r,false,true); else dst(r,n); };
    C.consts={&A,&W}; C.get=[&]{ auto d=dump(D); d.push_back(W.cols()); d.push_back(W.rows()); return d; }; VAR(M.mMul_dLdZ_weights_2_dLdAPrev((Mx&)A,W,D)); }
  else if(op=="dw"){ // x: dLdZ r*c; y: prevAct r*n (sample-wise)
    C.prep=[&]{ shape(A,r,c,false); fill(A,a.v("x")); Mx t; shape(t,r,n,false); fill(t,a.v("y")); if(pb){ shape(W,n,r,true,true); for(long i=0;i<r;++i) for(long j=0;j<n;++j) W.set(j,i,t.get(i,j)); } else { shape(W,r,n,true); fill(W,a.v("y")); } dst(c,n+1); };
    C.consts={&A,&W}; toD(); VAR(M.mMulScaled_dLdZ_prevAct_2_dLdW(k,(Mx&)A,(Mx&)W,D)); }
  else if(op=="cov"){ C.S=r; const bool lo=a["lo"]; C.prep=[&]{ src(); dst(c,c); }; C.consts={&A}; C.get=[&]{ std::vector<double> o; for(long j=0;j<c;++j) for(long i=0;i<c;++i) if(lo?i>=j:i<=j) o.push_back(D.get(i,j)); return o; }; VAR(M.mColumnsCov(A,D,lo)); if(lo) VAR(M.template mColumnsCov<true>(A,D)); else VAR(M.template mColumnsCov<false>(A,D)); }
  else if(op=="decov"){ C.round=true; C.S=std::pow(double(r),6)*(c-1); C.consts={&A}; C.get=[&]{ return std::vector<double>{res}; }; VAR(res=M.template loss_deCov<true,true>(A)); VAR(res=M.template loss_deCov<false,true>(A)); VAR(res=M.template loss_deCov<true,false>(A)); VAR(res=M.template loss_deCov<false,false>(A)); }
  else if(op=="ddecov"){ C.round=true; C.S=std::pow(double(r),5)*(c-1); C.prep=[&]{ src(); dst(r,c); }; C.consts={&A}; toD(); VAR(M.template dLoss_deCov<true,true>(A,D,k)); VAR(M.template dLoss_deCov<false,true>(A,D,k)); VAR(M.template dLoss_deCov<true,false>(A,D,k)); VAR(M.template dLoss_deCov<false,false>(A,D,k)); if(!b){ C.consts={}; C.get=[&]{ return dump(A); }; VAR(M.template dLoss_deCov_ip<true,true>(A,k)); VAR(M.template dLoss_deCov_ip<false,true>(A,k)); } }
  else if(op=="svd"){ C.round=true; C.S=1000; bool ok=false; C.get=[&]{ auto d=dump(A); d.push_back(ok/1000.); return d; }; VAR(ok=M.mSVD_Orthogonalize_ss(A)); }
  else if(op=="isorth"){ const bool t=a["t"]; C.consts={&A}; C.get=[&]{ return std::vector<double>{res}; }; VAR(res=M._mIsOrthogonal(A,t)); }
  else { fprintf(stderr,"unknown op %s\n",op.c_str()); exit(3); }
  fin(a); }); }
