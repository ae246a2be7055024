// optimizers: gradient transformations with their running state
#include "vp_math.h"
#define O3(N,...) do{ VAR(M.N(__VA_ARGS__)); VAR(M.N##_st(__VA_ARGS__)); VAR(M.N##_mt(__VA_ARGS__)); }while(0)
int main(int argc,char**argv){ std::cout.setstate(std::ios::failbit); using namespace vp; im();
 return drive(argc,argv,[&](Args&a){ if(a.op=="reset"){ emit(a.ev().end()); return; }
  Ctx& C=ctx(); C=Ctx(); Mx W,F,G; const std::string&op=a.op; typedef real_t R;
  auto g=[&](const char*n){ return a.has(n)?a[n]:0; }; const long r=g("r"),c=g("c"),d=g("d"),d2=g("d2"),p1=g("p1"),p2=g("p2");
  const R lr=R(g("l")/8.),e8=R(1/8.),em=R(d/4.),em2=R(d2/4.); R b1=0,b2=0;
  C.round=true; C.S=4096;
  auto ld=[&](Mx&m,const char*n,double D){ shape(m,r,c,false); fill(m,a.v(n),D); };
  auto cat=[&](std::initializer_list<Mx*> l,bool bb1=false,bool bb2=false){ std::vector<double> o; for(auto p:l) for(double v:dump(*p)) o.push_back(v); if(bb1) o.push_back(b1); if(bb2) o.push_back(b2); return o; };
  if(op=="hinton"){ C.prep=[&]{ ld(W,"x",1); ld(F,"y",d); }; C.get=[&]{ return cat({&W,&F}); }; O3(RMSProp_Hinton,W,F,lr,em,e8); }
  else if(op=="graves"){ C.prep=[&]{ ld(W,"x",1); ld(F,"y",d); ld(G,"z",d); }; C.get=[&]{ return cat({&W,&F,&G}); }; O3(RMSProp_Graves,W,F,G,lr,em,R(1/4.)); }
  else if(op=="rprop"){ C.prep=[&]{ ld(W,"x",1); }; C.get=[&]{ return cat({&W}); }; O3(RProp,W,lr); }
  else if(op=="modprop"){ C.prep=[&]{ ld(W,"x",1); ld(F,"y",d); }; C.get=[&]{ return cat({&W,&F}); }; O3(ModProp,W,F,lr,em,e8); }
  else if(op=="adam"){ C.prep=[&]{ ld(W,"x",1); ld(F,"y",d); ld(G,"z",d2); b1=R(p1/(2.*d)); b2=R(p2/(4.*d2)); }; C.get=[&]{ return cat({&W,&F,&G},1,1); }; O3(Adam,W,F,G,b1,b2,lr,em,em2,e8); }
  else if(op=="adamax"){ C.prep=[&]{ ld(W,"x",1); ld(F,"y",d); ld(G,"z",d2); b1=R(p1/(2.*d)); }; C.get=[&]{ return cat({&W,&F,&G},1); }; O3(AdaMax,W,F,G,b1,lr,em,em2,e8); }
  else if(op=="rnadam"){ const long E=4*d2-p2; const R ga=R(g("ga")/4.); C.prep=[&]{ ld(W,"x",1); ld(F,"y",1); ld(G,"z",E?E:1); b1=R(p1/(2.*d)); b2=R(p2/(4.*d2)); }; C.get=[&]{ return cat({&W,&F,&G},1,1); }; O3(RNadam,W,F,G,b1,b2,lr,em,em2,ga,e8); }
  else if(op=="ilr"){ C.round=false; C.S=32; const R de=R(g("de")/4.),in=R(g("in")/4.),lo=R(g("lo")/8.),hi=R(g("hi")/8.); C.consts={&F}; C.prep=[&]{ ld(W,"x",1); ld(F,"y",1); ld(G,"z",8); }; C.get=[&]{ return cat({&W,&G}); };
    VAR(M.apply_ILR(W,F,G,de,in,lo,hi)); VAR(M.apply_ILR_st_naive(W,F,G,de,in,lo,hi)); VAR(M.apply_ILR_mt_naive(W,F,G,de,in,lo,hi)); VAR(M.apply_ILR_st_vec(W,F,G,de,in,lo,hi)); VAR(M.apply_ILR_mt_vec(W,F,G,de,in,lo,hi)); }
  else { fprintf(stderr,"unknown op %s\n",op.c_str()); exit(3); }
  fin(a); }); }
