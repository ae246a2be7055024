// shared by the math-kernel harnesses: every kernel is run in each of the forms the library offers
// (dispatching entry point, single- and multi-threaded, row- and column-wise) on its own copy of the same input
#pragma once
#include "vp_alloc.h"
#include "vp_io.h"
#include "nntl/math.h"
#include "nntl/interfaces.h"
#include "nntl/nntl.h"
#include <functional>
#ifndef REALT
#define REALT double
#endif
using namespace nntl;
typedef REALT real_t;
typedef dt_interfaces<real_t> DI;
typedef DI::iMath_t iMath_t;
typedef math::smatrix<real_t> Mx; typedef math::smatrix_deform<real_t> MxD;
namespace vp{
 inline iMath_t& im(){ static iMath_t* p=[]{ auto q=new iMath_t; q->preinit(1<<20); q->init(); return q; }(); return *p; }
 // v*S rounded to an integer, if it is one to the precision of real_t
 inline long encS(double v,double S=1){ double d=v*S; if(d!=d) return 77777777; if(std::fabs(d)>2e9) return d>0?77777778:-77777778; double q=std::floor(d+.5); double tol= sizeof(real_t)==4? 2e-2:1e-5; if(std::fabs(d-q)>tol) return 66666666; return (long)q; }
 inline long rnd(double v,double S){ double d=v*S; if(d!=d) return 77777777; if(std::fabs(d)>2e9) return d>0?77777778:-77777778; return std::lround(d); }
 template<class M> void fill(M&m,const std::vector<long>&x,double D=1){ size_t k=0; const auto R=m.rows_no_bias(),C=m.cols_no_bias(); for(vec_len_t c=0;c<C;++c) for(vec_len_t r=0;r<R;++r) m.set(r,c,typename M::value_type(x.at(k++)/D)); if(k!=x.size()){ fprintf(stderr,"wrong data size\n"); exit(3);} }
 template<class M> void shape(M&m,long r,long c,bool b,bool bir=false){ m.clear(); m.set_batchInRow(bir); if(b) m.will_emulate_biases(); else m.dont_emulate_biases(); if(bir) { m.resize(vec_len_t(r+(b?0:0)),vec_len_t(c)); } else m.resize(vec_len_t(r),vec_len_t(c)); }
 template<class M> std::vector<double> dump(const M&m){ std::vector<double> o; for(numel_cnt_t i=0;i<m.numel();++i) o.push_back((double)m.data()[i]); return o; }
 struct Ctx{ std::function<void()> prep; std::function<std::vector<double>()> get; std::vector<std::function<bool()>> same; double S=1; bool round=false; bool un=true; std::vector<std::string> outs; std::vector<long> oksz;
  std::vector<std::pair<Mx*,std::vector<double>>> cst; std::vector<Mx*> consts;
  template<class F> auto go(F&f,int)->decltype(f(im()),void()){ prep(); cst.clear(); for(auto p:consts) cst.emplace_back(p,dump(*p)); f(im()); for(auto&q:cst) if(dump(*q.first)!=q.second) un=false; std::vector<long> o; for(double d:get()) o.push_back(round?rnd(d,S):encS(d,S)); outs.push_back(jarr(o)); }
  template<class F> void go(F&,...){}
 };
 inline Ctx& ctx(){ static Ctx*c=nullptr; if(!c) c=new Ctx; return *c; }
 inline void fin(const Args&a){ J j=a.ev(); j.raw("o",jlist(ctx().outs)).i("un",ctx().un); emit(j.end()); }
}
#define VAR(...) do{ auto f_=[&](auto& M)->decltype((void)(__VA_ARGS__)){ __VA_ARGS__; }; vp::ctx().go(f_,0); }while(0)
