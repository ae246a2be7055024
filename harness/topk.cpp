// k best values per column over a sequence of batches, and their aggregation over the batches
#include "vp_math.h"
template<template<class>class O> struct Run{ typedef math::mcwFindKOrdered_hlpr<real_t,O> H; typename H::hlprmtx_t h; typename H::Aggregator ag; };
int main(int argc,char**argv){ std::cout.setstate(std::ios::failbit); using namespace vp; im(); typedef math::mcwFindKOrdered_hlpr_base<real_t> HB;
 Run<math::Order_Biggest>*r0=0; Run<math::Order_Smallest>*r1=0; Run<math::Order_BiggestDistinct>*r2=0; Run<math::Order_SmallestDistinct>*r3=0; long kind=0,k=1,c=1,nb=0;
 auto ev=[&](double v)->long{ return std::fabs(v)>1e30? (v>0?99:-99) : encS(v); };
 auto work=[&](Args&a,auto&R){ typedef typename std::decay_t<decltype(R)>::H H; Mx A; A.set_batchInRow(a["bir"]); shape(A,a["r"],c,a["b"],a["bir"]); fill(A,a.v("x"));
   if(nb==0 && R.h.empty()) R.h.resize(HB::hlprmtx_size_for(vec_len_t(k),vec_len_t(c)),math::smatrix_td::tag_noBias());
   auto before=dump(A); switch(kind){ case 0: im().mcwFindKBiggest(A,R.h,nb>0); break; case 1: im().mcwFindKSmallest(A,R.h,nb>0); break; case 2: im().mcwFindKBiggestDistinct(A,R.h,nb>0); break; default: im().mcwFindKSmallestDistinct(A,R.h,nb>0); }
   J j=a.ev(); std::vector<long> V,I; for(long q=0;q<c;++q){ auto p=R.h.colDataAsVec(vec_len_t(q)); auto pv=H::get_cache_ptr_from_column_ptr(p,vec_len_t(k)); auto pi=H::get_idxs_ptr_from_column_ptr(p,vec_len_t(k)); for(long t=0;t<k;++t){ V.push_back(ev(pv[t])); I.push_back(pi[t]); } }
   bool ok=R.ag.aggregate(R.h,nb); ++nb; Mx vals; bool ok2=R.ag.export_values(vals); auto bu=R.ag.batches_in_use(nb); std::vector<long> E; std::vector<std::string> F;
   for(long b=0;b<nb;++b) R.ag.for_batchIdx(b,[&](auto cc,auto rr,auto v,auto i){ F.push_back(jarr(std::vector<long>{b,(long)cc,(long)rr,ev(v),(long)i})); return true; });
   std::vector<long> bl; for(bool q:bu) bl.push_back(q); for(double d:dump(vals)) E.push_back(ev(d));
   j.arr("V",V).arr("I",I).i("ok",ok&&ok2).arr("E",E).arr("bu",bl).raw("F",jlist(F)).i("un",before==dump(A)); emit(j.end()); };
 return drive(argc,argv,[&](Args&a){
  if(a.op=="reset"){ delete r0; delete r1; delete r2; delete r3; r0=new Run<math::Order_Biggest>; r1=new Run<math::Order_Smallest>; r2=new Run<math::Order_BiggestDistinct>; r3=new Run<math::Order_SmallestDistinct>; kind=a["kind"]; k=a["k"]; c=a["c"]; nb=0; emit(a.ev().end()); }
  else if(a.op=="restart"){ nb=0; emit(a.ev().end()); }
  else if(a.op=="batch"){ if(kind==0) work(a,*r0); else if(kind==1) work(a,*r1); else if(kind==2) work(a,*r2); else work(a,*r3); }
  else { fprintf(stderr,"unknown op\n"); exit(3); } }); }
