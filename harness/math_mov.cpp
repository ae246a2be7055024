// kernels that move, select, transpose, threshold or compare data
#include "vp_math.h"
int main(int argc,char**argv){ std::cout.setstate(std::ios::failbit); using namespace vp; im();
 return drive(argc,argv,[&](Args&a){ if(a.op=="reset"){ emit(a.ev().end()); return; }
  Ctx& C=ctx(); C=Ctx(); MxD A,D; Mx B; math::smatrix<char> K; std::vector<real_t> mask; std::vector<vec_len_t> ix; std::vector<unsigned char> uc; long res=0; const std::string&op=a.op;
  auto g=[&](const char*n){ return a.has(n)?a[n]:0; }; const long r=g("r"),c=g("c"); const bool b=g("b"),bir=g("bir"),db=g("db");
  auto src=[&]{ shape(A,r,c,b,bir); fill(A,a.v("x")); if(a.vec.count("v")){ ix.clear(); mask.clear(); for(long e:a.v("v")){ ix.push_back(vec_len_t(e)); mask.push_back(real_t(e)); } } };
  auto dst=[&](long rr,long cc,bool bb,bool bi){ shape(D,rr,cc,bb,bi); for(vec_len_t j=0;j<D.cols_no_bias();++j) for(vec_len_t i=0;i<D.rows_no_bias();++i) D.set(i,j,real_t(7)); };
  C.get=[&]{ return dump(D); }; C.consts={&A};
  auto scal=[&]{ C.get=[&]{ return std::vector<double>{double(res)}; }; };
  if(op=="clonecols"){ C.prep=[&]{ src(); long n=0; for(auto e:ix) n+=e; dst(r,n,false,false); }; VAR(M.mCloneCols(A,D,ix.data())); VAR(M.mCloneCols_st(A,D,ix.data())); VAR(M.mCloneCols_mt(A,D,ix.data())); }
  else if(op=="clonecol"){ C.prep=[&]{ src(); dst(r,a["n"],false,false); }; VAR(M.mCloneCol(A,D)); VAR(M.mCloneCol_st(A,D)); VAR(M.mCloneCol_mt(A,D)); }
  else if(op=="roll"){ const long k=a["k"]; C.prep=[&]{ src(); dst(r*k,c/k,b,false); }; VAR(M.mTilingRoll(A,D)); VAR(M.mTilingRoll_st(A,D)); VAR(M.mTilingRoll_mt(A,D)); VAR(M.mTilingRoll_seqread_st(A,D)); VAR(M.mTilingRoll_seqread_mt(A,D)); VAR(M.mTilingRoll_seqwrite_st(A,D)); VAR(M.mTilingRoll_seqwrite_mt(A,D)); }
  else if(op=="unroll"){ const long k=a["k"]; C.prep=[&]{ src(); dst(r/k,c*k,b,false); }; VAR(M.mTilingUnroll(A,D)); VAR(M.mTilingUnroll_st(A,D)); VAR(M.mTilingUnroll_mt(A,D)); VAR(M.mTilingUnroll_seqread_st(A,D)); VAR(M.mTilingUnroll_seqread_mt(A,D)); VAR(M.mTilingUnroll_seqwrite_st(A,D)); VAR(M.mTilingUnroll_seqwrite_mt(A,D)); }
  else if(op=="exrows"){ C.prep=[&]{ src(); dst(ix.size(),c,db,false); }; VAR(M.mExtractRows(A,ix.begin(),D)); VAR(M.mExtractRows_seqWrite_st(A,ix.begin(),D)); if(b==db) VAR(M.mExtractRows_seqWrite_mt(A,ix.begin(),D)); VAR(M.mExtractRows(A,ix.data(),D)); }
  else if(op=="excols"){ C.prep=[&]{ src(); dst(r,ix.size(),db,bir); }; VAR(M.mExtractCols(A,ix.begin(),D)); VAR(M.mExtractCols_st(A,ix.begin(),D)); VAR(M.mExtractCols_mt(A,ix.begin(),D)); }
  else if(op=="exbatch"){ C.prep=[&]{ src(); if(bir) dst(r,ix.size(),db,true); else dst(ix.size(),c,db,false); }; VAR(M.mExtractBatches(A,ix.begin(),D)); VAR(M.mExtractBatches((const Mx&)A,(const vec_len_t*)ix.data(),(Mx&)D)); }
  else if(op=="exmask"){ C.prep=[&]{ src(); long n=0; for(auto e:ix) n+=e; dst(n,c,db,false); }; VAR(M.mExtractRowsByMask(A,mask.data(),D)); VAR(M.mExtractRowsByMask_st(A,mask.data(),D)); VAR(M.mExtractRowsByMask_mt(A,mask.data(),D)); }
  else if(op=="fillmask"){ C.prep=[&]{ src(); dst(ix.size(),c,db,false); }; VAR(M.mFillRowsByMask(A,mask.data(),D)); VAR(M.mFillRowsByMask_st(A,mask.data(),D)); VAR(M.mFillRowsByMask_mt(A,mask.data(),D)); }
  else if(op=="exseq"){ const vec_len_t o=vec_len_t(a["o0"]); C.prep=[&]{ src(); dst(a["n"],c,b,false); }; VAR(M.mExtractRowsSeq(A,o,D)); VAR(M.mExtractRowsSeq_st(A,o,D)); VAR(M.mExtractRowsSeq_mt(A,o,D)); }
  else if(op=="transp"){ const bool ig=g("ig"); C.prep=[&]{ src(); dst(c,r,db,!bir); }; VAR(M.mTranspose((Mx&)A,(Mx&)D,ig)); VAR(M.mTranspose_seq_read((Mx&)A,(Mx&)D,ig)); VAR(M.mTranspose_seq_write((Mx&)A,(Mx&)D,ig)); if(ig) VAR(M.mTranspose_ignore_bias((Mx&)A,(Mx&)D)); }
  else if(op=="tip"){ C.consts={}; C.prep=src; C.get=[&]{ auto d=dump(A); d.push_back(A.rows()); d.push_back(A.cols()); d.push_back(A.bBatchInRow()); d.push_back(A.emulatesBiases()); return d; }; VAR(M.s_mTranspose_ip(A)); }
  else if(op=="binip"){ C.consts={}; C.prep=src; C.get=[&]{ return dump(A); }; const real_t f=real_t(a["k"]),lo=real_t(a["lo"]),hi=real_t(a["hi"]); VAR(M.ewBinarize_ip((Mx&)A,f,lo,hi)); VAR(M.ewBinarize_ip_st((Mx&)A,f,lo,hi)); VAR(M.ewBinarize_ip_mt((Mx&)A,f,lo,hi)); if(lo==0&&hi==1){ VAR(M.ewBinarize_ip((Mx&)A,f)); } }
  else if(op=="bin"){ const real_t f=real_t(a["k"]); C.prep=[&]{ src(); dst(r,c,false,false); shape(K,r,c,false); for(auto p=K.data();p!=K.data()+K.numel();++p) *p=7; uc.assign(r*c,7); };
     VAR(M.ewBinarize(D,A,f)); VAR(M.ewBinarize_st(D,A,f)); VAR(M.ewBinarize_mt(D,A,f)); C.get=[&]{ return dump(K); }; VAR(M.ewBinarize(K,A,f)); VAR(M.ewBinarize_mt(K,A,f)); C.get=[&]{ return std::vector<double>(uc.begin(),uc.end()); }; VAR(M.ewBinarize_st(uc,A,f)); VAR(M.ewBinarize_mt(uc,A,f)); }
  else if(op=="binbatch"){ const real_t f=real_t(a["k"]); const vec_len_t o=vec_len_t(a["o0"]); C.prep=[&]{ src(); dst(a["n"],c,db,false); shape(K,a["n"],c,false); for(auto p=K.data();p!=K.data()+K.numel();++p) *p=7; };
     VAR(M.ewBinarizeBatch((Mx&)D,o,(Mx&)A,f)); VAR(M.ewBinarizeBatch_st((Mx&)D,o,(Mx&)A,f)); VAR(M.ewBinarizeBatch_mt((Mx&)D,o,(Mx&)A,f)); if(!db){ C.get=[&]{ return dump(K); }; VAR(M.ewBinarizeBatch(K,o,(Mx&)A,f)); VAR(M.ewBinarizeBatch_mt(K,o,(Mx&)A,f)); } }
  else if(op=="cntnz"){ C.prep=src; scal(); VAR(res=M.vCountNonZeros(A.data(),A.numel())); VAR(res=M.vCountNonZerosStrict(A.data(),A.numel())); }
  else if(op=="cntsame"){ const vec_len_t o=vec_len_t(a["o0"]); std::vector<long> x,y; scal(); C.prep=[&]{ src(); x=a.v("x"); y=a.v("y"); }; VAR(res=M.vCountSame(x,y,o)); VAR(res=M.vCountSame_st_naive(x,y,o)); VAR(res=M.vCountSame_mt_naive(x,y,o)); }
  else if(op=="cntsameb"){ const vec_len_t o=vec_len_t(a["o0"]); scal(); C.prep=[&]{ src(); shape(B,a["n"],c,false); fill(B,a.v("y")); }; C.consts={&A,&B}; VAR(res=M.vCountSameBatch((Mx&)A,o,B)); VAR(res=M.vCountSameBatch_st_naive((Mx&)A,o,B)); }
  else if(op=="clamp"){ C.consts={}; C.prep=src; C.get=[&]{ return dump(A); }; const real_t lo=real_t(a["lo"]),hi=real_t(a["hi"]); VAR(M.evClamp(A,lo,hi)); VAR(M.evClamp_st(A,lo,hi)); VAR(M.evClamp_mt(A,lo,hi)); }
  else if(op=="onecompl"){ C.prep=[&]{ src(); dst(r,c,db,false); }; VAR(M.evOneCompl(A,D)); VAR(M.evOneCompl_st(A,D)); VAR(M.evOneCompl_mt(A,D)); }
  else { fprintf(stderr,"unknown op %s\n",op.c_str()); exit(3); }
  fin(a); }); }
