// reductions and row-/column-wise kernels
#include "vp_math.h"
int main(int argc,char**argv){ std::cout.setstate(std::ios::failbit); using namespace vp; const long W=im().ithreads().cur_workers_count();
 return drive(argc,argv,[&](Args&a){ if(a.op=="reset"){ emit(a.ev().end()); return; }
  Ctx& C=ctx(); C=Ctx(); MxD A; Mx B; std::vector<real_t> v, w; std::vector<vec_len_t> ix; double res=0; const long r=a["r"],c=a["c"]; const bool b=a.has("b")&&a["b"]; const std::string&op=a.op;
  auto vecin=[&](const char*n){ v.clear(); for(long e:a.v(n)) v.push_back(real_t(e)); };
  auto base=[&]{ shape(A,r,c,b,a.has("bir")&&a["bir"]); fill(A,a.v("x")); if(a.vec.count("v")) vecin("v"); w.assign((r+c+2)*(W+1),real_t(-12345)); ix.assign(r,vec_len_t(-1)); };
  C.prep=base; C.get=[&]{ return dump(A); };
  auto vecout=[&](long n){ C.get=[&,n]{ if(op!="l2") for(size_t i=n;i<w.size();++i) if(w[i]!=real_t(-12345)) C.un=false; return std::vector<double>(w.begin(),w.begin()+n); }; C.consts={&A}; };
  auto scal=[&]{ C.get=[&]{ return std::vector<double>{res}; }; C.consts={&A}; };
  if(op=="sumprod"){ scal(); C.prep=[&]{ base(); shape(B,r,c,false); fill(B,a.v("y")); }; VAR(res=M.ewSumProd(A,B)); VAR(res=M.ewSumProd_st(A,B)); VAR(res=M.ewSumProd_mt(A,B)); }
  else if(op=="sumsq"){ scal(); VAR(res=M.ewSumSquares(A)); VAR(res=M.ewSumSquares_st(A)); VAR(res=M.ewSumSquares_mt(A)); VAR(res=M.ewSumSquares_ns(A)); VAR(res=M.ewSumSquares_st_ns(A)); VAR(res=M.ewSumSquares_mt_ns(A));
     VAR(res=M.ewSumSquares(A.data(),A.numel())); VAR(res=M.ewSumSquares_st(A.data(),A.numel())); VAR(res=M.ewSumSquares_mt(A.data(),A.numel())); VAR(res=M.ewSumSquares_ns(A.data(),A.numel())); VAR(res=M.ewSumSquares_mt_ns(A.data(),A.numel())); }
  else if(op=="sumabs"){ scal(); VAR(res=M.vSumAbs(A)); VAR(res=M.vSumAbs_st(A)); VAR(res=M.vSumAbs_mt(A)); }
  else if(op=="sumtri"){ scal(); const bool lo=a["lo"]; 
     #define TRI(L,N) VAR(res=M.template ewSumSquaresTriang<L,N>(A)); VAR(res=M.template ewSumSquaresTriang_st<L,N>(A)); VAR(res=M.template ewSumSquaresTriang_mt<L,N>(A));
     if(lo){ TRI(true,true) TRI(true,false) } else { TRI(false,true) TRI(false,false) } }
  else if(op=="rdiv"){ C.S=4; VAR(M.mrwDivideByVec(A,v.data())); VAR(M.mrwDivideByVec_st(A,v.data())); VAR(M.mrwDivideByVec_mt(A,v.data())); VAR(M.mrwDivideByVec_st_cw(A,v.data())); VAR(M.mrwDivideByVec_st_rw(A,v.data())); VAR(M.mrwDivideByVec_mt_cw(A,v.data())); VAR(M.mrwDivideByVec_mt_rw(A,v.data())); }
  else if(op=="rmul"){ VAR(M.mrwMulByVec(A,v.data())); VAR(M.mrwMulByVec_st(A,v.data())); VAR(M.mrwMulByVec_mt(A,v.data())); VAR(M.mrwMulByVec_st_cw(A,v.data())); VAR(M.mrwMulByVec_st_rw(A,v.data())); VAR(M.mrwMulByVec_mt_cw(A,v.data())); VAR(M.mrwMulByVec_mt_rw(A,v.data())); }
  else if(op=="cntz"){ vecout(r); auto p=[&]{ base(); std::fill(w.begin(),w.end(),real_t(0)); for(long i=0;i<r;++i) w[i]=v[i]; }; C.prep=p;
     VAR(M.mrwCountZeros(A,w.data())); VAR(M.mrwCountZeros_st(A,w.data())); VAR(M.mrwCountZeros_mt(A,w.data())); VAR(M.mrwCountZeros_st_cw(A,w.data())); VAR(M.mrwCountZeros_st_rw(A,w.data())); VAR(M.mrwCountZeros_mt_rw(A,w.data())); }
  else if(op=="idxmax"){ C.consts={&A}; C.get=[&]{ return std::vector<double>(ix.begin(),ix.end()); };
     VAR(M.mrwIdxsOfMax(A,ix.data())); VAR(M.mrwIdxsOfMax_st(A,ix.data())); VAR(M.mrwIdxsOfMax_mt(A,ix.data())); VAR(M.mrwIdxsOfMax_st_cw(A,ix.data())); VAR(M.mrwIdxsOfMax_st_rw(A,ix.data())); VAR(M.mrwIdxsOfMax_st_rw_small(A,ix.data())); VAR(M.mrwIdxsOfMax_mt_rw(A,ix.data())); if(c>4) VAR(M.mrwIdxsOfMax_mt_cw(A,ix.data())); }
  else if(op=="rmax"){ vecout(r); VAR(M.mrwMax(A,w.data())); VAR(M.mrwMax_st(A,w.data())); VAR(M.mrwMax_mt(A,w.data())); VAR(M.mrwMax_st_cw(A,w.data())); VAR(M.mrwMax_st_rw(A,w.data())); VAR(M.mrwMax_st_rw_small(A,w.data())); VAR(M.mrwMax_mt_rw(A,w.data())); }
  else if(op=="rsumip"){ C.get=[&]{ auto d=dump(A); d.resize(r); return d; }; VAR(M.mrwSum_ip(A)); VAR(M.mrwSum_ip_st(A)); VAR(M.mrwSum_ip_mt(A)); VAR(M.mrwSum_ip_st_cw(A)); VAR(M.mrwSum_ip_st_rw(A)); VAR(M.mrwSum_ip_st_rw_small(A)); VAR(M.mrwSum_ip_mt_rw(A)); if(c>3) VAR(M.mrwSum_ip_mt_cw(A)); }
  else if(op=="rsum"){ vecout(r); VAR(M.mrwSum(A,w.data())); VAR(M.mrwSum_st(A,w.data())); VAR(M.mrwSum_mt(A,w.data())); if(c>1){ VAR(M.mrwSum_st_cw(A,w.data())); VAR(M.mrwSum_st_rw(A,w.data())); VAR(M.mrwSum_mt_rw(A,w.data())); } if(c>3) VAR(M.mrwSum_mt_cw(A,w.data())); }
  else if(op=="ror"){ vecout(r); VAR(M.mrwOr(A,w.data())); VAR(M.mrwOr_st(A,w.data())); VAR(M.mrwOr_mt(A,w.data())); if(c>1){ VAR(M.mrwOr_st_cw(A,w.data())); VAR(M.mrwOr_st_rw(A,w.data())); VAR(M.mrwOr_mt_rw(A,w.data())); } if(c>3) VAR(M.mrwOr_mt_cw(A,w.data())); }
  else if(op=="cmean"){ vecout(c); C.S=r; VAR(M.template mcwMean<true>(A,w.data())); VAR(M.template mcwMean<false>(A,w.data())); VAR(M.template mcwMean_st<true>(A,w.data())); VAR(M.template mcwMean_st<false>(A,w.data())); VAR(M.template mcwMean_mt<true>(A,w.data())); VAR(M.template mcwMean_mt<false>(A,w.data())); }
  else if(op=="cdemean"){ C.S=r; VAR(M.template mcwDeMean<true>(A)); VAR(M.template mcwDeMean<false>(A)); VAR(M.template mcwDeMean_st<true>(A)); VAR(M.template mcwDeMean_mt<true>(A)); VAR(M.template mcwDeMean_mt<false>(A)); }
  else if(op=="cdemeannz"){ C.S=420; const real_t k=real_t(a["k"]); VAR(M.template mcwDeMeanNZ<true>(A,k)); VAR(M.template mcwDeMeanNZ<false>(A,k)); VAR(M.template mcwDeMeanNZ_st<true>(A,k)); VAR(M.template mcwDeMeanNZ_mt<true>(A,k)); VAR(M.template mcwDeMeanNZ_mt<false>(A,k)); }
  else if(op=="csub"){ VAR(M.mcwSub_ip(A,v.data())); VAR(M.mcwSub_ip_st(A,v.data())); VAR(M.mcwSub_ip_mt(A,v.data())); }
  else if(op=="cmuldiag"){ C.prep=[&]{ base(); shape(B,c,c,false); fill(B,a.v("y")); }; C.consts={&B}; VAR(M.mcwMulDiag_ip(A,B)); VAR(M.mcwMulDiag_ip_st(A,B)); VAR(M.mcwMulDiag_ip_mt(A,B)); }
  else if(op=="csum"){ vecout(c); VAR(M.template mcwSum<true>(A,w.data())); VAR(M.template mcwSum<false>(A,w.data())); }
  else if(op=="l2"){ vecout(r); VAR(M.mrwL2NormSquared(A,w.data())); VAR(M.mrwL2NormSquared_st(A,w.data())); VAR(M.mrwL2NormSquared_mt(A,w.data())); }
  else if(op=="capnorm"){ C.S=64; C.round=true; const real_t k=real_t(a["k"]); const bool ib=a["ib"]; VAR(M.mCheck_normalize_rows(A,k,ib)); VAR(M.mCheck_normalize_rows_st(A,k,ib)); VAR(M.mCheck_normalize_rows_mt(A,k,ib)); }
  else if(op=="setnorm"){ C.S=64; C.round=true; const real_t k=real_t(a["k"]); const bool ib=a["ib"]; VAR(M.mrwSetL2Norm(A,k,ib)); VAR(M.mrwSetL2Norm_st(A,k,ib)); VAR(M.mrwSetL2Norm_mt(A,k,ib)); VAR(M.mrwSetL2Norm((Mx&)A,k,ib)); }
  else { fprintf(stderr,"unknown op %s\n",op.c_str()); exit(3); }
  fin(a); }); }
