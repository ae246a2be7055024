// networks saved into and restored from an archive kept in memory; the archive is the caller's side of the library's saving/loading interface
#include "vp_alloc.h"
#include "vp_io.h"
#ifndef REALT
#define REALT double
#endif
#include "nntl/math.h"
#include "nntl/interfaces.h"
#include "nntl/nntl.h"
#include "nntl/weights_init.h"
#include <csignal>
#include <functional>
#include <random>
#include <set>
#include <unistd.h>
bool std::type_info::operator==(const std::type_info&o)const noexcept{ return std::strcmp(name(),o.name())==0; }
using namespace nntl;
typedef REALT real_t; typedef math::smatrix<real_t> Mx; typedef math::smatrix_deform<real_t> MxD; typedef std::vector<long> L;
// values are named by numbers: the same contents always get the same number, 0 is an empty matrix
static std::map<std::vector<double>,long> TAB; static long idof(std::vector<double> v){ for(auto&x:v) if(x!=x) x=1e300; auto i=TAB.find(v); if(i!=TAB.end()) return i->second; long n=(long)TAB.size()+1; TAB[v]=n; return n; }
static long idv(double x){ return idof({x}); }
template<class T> static long idm(const math::smatrix<T>&m){ if(m.empty()||!m.numel()) return 0; std::vector<double> v{(double)m.rows(),(double)m.cols_no_bias(),0}; for(size_t i=0;i<(size_t)m.rows()*m.cols_no_bias();++i) v.push_back(m.data()[i]); return idof(v); }
struct Ent{ std::string p,n; bool mat; std::vector<double> d; long r=0,c=0,id=0; };
typedef std::vector<Ent> Ents; struct Slot{ Ents e; std::set<std::string> st; L w; };
typedef utils::binary_options<serialization::CommonOptions> BO;
struct OA : serialization::simple_archive<OA,true>, BO{ Slot*s; std::vector<std::string> stk; std::string nm; bool err=false; OA(Slot*q):s(q){ s->e.clear(); s->st.clear(); }
 std::string path()const{ std::string r; for(auto&x:stk) r+=(r.empty()?"":"/")+x; return r; } bool success()const{ return !err; } void mark_invalid_var(){ err=true; } const char* get_last_error_str()const{ return err?"error":"ok"; }
 void put(Ent e){ e.p=path(); e.n=nm; if(nm.empty()) err=true; nm.clear(); s->e.push_back(e); }
 template<class T> OA& operator<<(const ::boost::serialization::nvp<T>&t){ nm=t.name(); return *this<<t.const_value(); }
 template<class T> OA& operator<<(const serialization::named_struct<T>&t){ stk.push_back(t.name()); if(!s->st.insert(path()).second) err=true; *this<<t.const_value(); stk.pop_back(); return *this; }
 template<class T> OA& operator<<(const math::smatrix<T>&m){ Ent e; e.mat=true; e.r=m.rows(); e.c=m.cols_no_bias(); e.id=idm(m); for(size_t i=0;i<(size_t)e.r*e.c;++i) e.d.push_back(m.data()[i]); put(e); return *this; }
 template<class T> OA& operator<<(const math::smatrix_deform<T>&m){ return *this<<static_cast<const math::smatrix<T>&>(m); }
 template<class T> std::enable_if_t<std::is_arithmetic<T>::value,OA&> operator<<(const T&v){ Ent e; e.mat=false; e.d={(double)v}; e.id=idv((double)v); put(e); return *this; }
 template<class T> std::enable_if_t<!std::is_arithmetic<T>::value,OA&> operator<<(const T&t){ ::boost::serialization::serialize_adl(*this,const_cast<T&>(t),::boost::serialization::version<T>::value); return *this; }
 template<class T> OA& operator&(const T&t){ return *this<<t; } };
struct IA : serialization::simple_archive<IA,false>, BO{ Slot*s; std::vector<std::string> stk; std::string nm; bool err=false; IA(Slot*q):s(q){}
 std::string path()const{ std::string r; for(auto&x:stk) r+=(r.empty()?"":"/")+x; return r; } bool success()const{ return !err; } void mark_invalid_var(){ err=true; } const char* get_last_error_str()const{ return err?"error":"ok"; }
 Ent* get(bool mat){ for(auto&e:s->e) if(e.p==path()&&e.n==nm){ nm.clear(); if(e.mat!=mat) break; return &e; } nm.clear(); err=true; return nullptr; }
 template<class T> IA& operator>>(::boost::serialization::nvp<T>&t){ if(err) return *this; nm=t.name(); return *this>>t.value(); }
 template<class T> IA& operator>>(serialization::named_struct<T>&t){ if(err) return *this; stk.push_back(t.name()); if(!s->st.count(path())) err=true; else *this>>t.value(); stk.pop_back(); return *this; }
 template<class T> IA& operator>>(math::smatrix<T>&m){ if(auto*e=get(true)){ m.clear(); m.dont_emulate_biases(); if(!e->r||!e->c) return *this; m.resize((vec_len_t)e->r,(vec_len_t)e->c); for(size_t i=0;i<e->d.size();++i) m.data()[i]=(T)e->d[i]; } return *this; }
 template<class T> IA& operator>>(math::smatrix_deform<T>&m){ *this>>static_cast<math::smatrix<T>&>(m); if(!err) m.update_on_hidden_resize(); return *this; }
 template<class T> std::enable_if_t<std::is_arithmetic<T>::value,IA&> operator>>(T&v){ if(auto*e=get(false)) v=(T)e->d[0]; return *this; }
 template<class T> std::enable_if_t<!std::is_arithmetic<T>::value,IA&> operator>>(T&t){ ::boost::serialization::serialize_adl(*this,t,::boost::serialization::version<T>::value); return *this; }
 template<class T> IA& operator&(T&&t){ return *this>>t; } };
struct Insp : public inspector::_impl::_base<real_t>{}; struct I : d_int_nI<real_t>{ typedef Insp iInspect_t; }; typedef grad_works<I> GWk; typedef weights_init::Xavier<> WI; typedef layer_input<I> In; typedef layer_identity<I> Id; typedef LIG<500000,I> Gate;
typedef activation::sigm<real_t,WI> AS; typedef activation::softsign<real_t,1000000,1000000,WI> AT; typedef activation::selu<real_t> AE; typedef AlphaDropout<real_t> ADO;
typedef layer_fully_connected<AS,GWk> FS; typedef layer_fully_connected<AT,GWk> FT; typedef LFC_DO<AT,GWk,Dropout<real_t>> FD; typedef LFC_DO<AT,GWk,ADO> FA; typedef layer_output<activation::sigm_quad_loss<real_t,WI>,GWk> Out;
static int cur; static I::iMath_t& im(){ static I::iMath_t* m[2]; if(!m[cur]) m[cur]=new I::iMath_t(); return *m[cur]; } static I::iRng_t& rg(){ static I::iRng_t* r[2]; if(!r[cur]){ r[cur]=new I::iRng_t(); r[cur]->init_ithreads(im().ithreads(),1); } return *r[cur]; }   // one for each network: deinitializing a network releases what its math object holds
struct Leaf{ std::function<Mx&()> w; std::function<bool(Mx&,bool)> set; std::function<void(const L&,std::vector<long>&)> cfg; }; struct DP{ std::function<void(double)> set; std::function<double()> get; };
typedef inmem_train_data<real_t,real_t> TD;
struct Net{ std::vector<Leaf> lf; std::vector<DP> dp; std::vector<std::function<const Mx&()>> ac; virtual ~Net(){} virtual void save(OA&)=0; virtual void load(IA&)=0; virtual int fprop(const Mx&)=0; virtual int train(TD&,int)=0; virtual void deinit()=0; virtual void clamp(double,double)=0; virtual void unclamp()=0; virtual long inw()=0; virtual const Mx& out()=0; long arch=0,k=0; };
struct NObs : public i_training_observer<real_t>{ template<class T,class C> bool init(numel_cnt_t e,T&td,const C&cd)noexcept{ return true; } void deinit()noexcept{} void report_results_begin(const data_set_id_t d,const numel_cnt_t n)noexcept{}
 template<class Y,class C> void report_results(const numel_cnt_t b,const Mx&a,const math::smatrix<Y>&y,const C&cd)noexcept{} void report_results_end(const real_t l)noexcept{}
 template<class T> void on_training_start(const T&td,vec_len_t bs,vec_len_t mf,numel_cnt_t np)noexcept{} void on_training_fragment_end(const numel_cnt_t e,const real_t tr,const real_t te,const std::chrono::nanoseconds&t)noexcept{} void on_training_end(const std::chrono::nanoseconds&t)noexcept{} };
template<class D> struct NB : Net{
 template<class T> void leaf(T&l){ lf.push_back({[&l]()->Mx&{ return l.get_weights(); },[&l](Mx&m,bool mv){ return mv? l.set_weights(std::move(m)) : l.set_weights((const Mx&)m); },
   [&l](const L&c,std::vector<long>&hp){ auto&g=l.get_gradWorks(); typedef std::decay_t<decltype(g)> G; static const typename G::GradType T8[]={G::ClassicalConstant,G::RMSProp_Hinton,G::RMSProp_Graves,G::ModProp,G::Adam,G::AdaMax,G::Nadam,G::Radam};
     g.set_type(T8[c[0]]); double b=c[4]; real_t lr=real_t(.01+b*.001),mo=real_t(c[1]?.5+b*.002:0),b1=real_t(.8+b*.003),b2=real_t(.7+b*.004),ns=real_t(1e-4+b*1e-6),mn=real_t(90+b); g.learning_rate(lr).beta1(b1).beta2(b2).numeric_stabilizer(ns).max_norm2(mn); if(c[5]) g.nesterov_momentum(mo); else g.momentum(mo);
     if(c[2]) g.set_ILR(real_t(.5),real_t(1.5),real_t(.75),real_t(1.25)); else g.clear_ILR(); g.applyILRToMomentum(!!c[3]); real_t ld=real_t(c[6]?.5+b*.004:1); g.LRDropoutPercentActive(ld);
     for(double v:{(double)lr,(double)mo,(double)b1,(double)b2,(double)ns,(double)mn,(double)ld}) hp.push_back(idv(v)); }}); act(l); }
 template<class T> void drop(T&l){ dp.push_back({[&l](double p){ l.dropoutPercentActive(real_t(p)); },[&l]{ return (double)static_cast<const nntl::_impl::_dropout_base<real_t>&>(l).dropoutPercentActive(); }}); } template<class T> void act(T&l){ ac.push_back([&l]()->const Mx&{ return l.get_activations(); }); }
 void save(OA&a)override{ a<<((D*)this)->nn; } void load(IA&a)override{ a>>((D*)this)->nn; } int fprop(const Mx&x)override{ return (int)((D*)this)->nn.fprop(x); } void deinit()override{ ((D*)this)->nn.deinit(); } long inw()override{ return (long)((D*)this)->in.get_neurons_cnt(); } const Mx& out()override{ return ((D*)this)->o.get_activations(); }
 int train(TD&td,int ep)override{ nnet_train_opts<real_t,NObs> o(ep,false); o.batchSize(4); o.ImmediatelyDeinit(false); return (int)((D*)this)->nn.train(td,o); } void clamp(double lo,double hi)override{ ((D*)this)->o.restrict_dL_dZ(real_t(lo),real_t(hi)); } void unclamp()override{ ((D*)this)->o.drop_dL_dZ_restriction(); } };
static Insp& ins(){ static Insp i; return i; }
#define NN_ lp,&ins(),&im(),&rg()
// the leaves, dropouts and activations are listed in the order the specification names them
struct A0 : NB<A0>{ In in; FS a; FD b; Out o; typedef layers<In,FS,FD,Out> LP; LP lp; nnet<LP> nn; A0(int k):in("data",5),a("first",4+k),b(3),o("res",2),lp(in,a,b,o),nn(NN_){ act(in); leaf(a); leaf(b); drop(b); leaf(o); } };
struct A1 : NB<A1>{ In in; FD a; Id d; typedef LPH<PHL<FD>,PHL<Id>> H; H h; Out o; typedef layers<In,H,Out> LP; LP lp; nnet<LP> nn; A1(int k):in(5),a("same",4+k),d("same"),h("side",make_PHL(a,0,3),make_PHL(d,3,2)),o(2),lp(in,h,o),nn(NN_){ act(in); leaf(a); drop(a); act(d); leaf(o); } };
struct A2 : NB<A2>{ In in; FS t1; LPT<FS> t; FA b; typedef LPV<LPT<FS>,FA> V; V v; Out o; typedef layers<In,V,Out> LP; LP lp; nnet<LP> nn; A2(int k):in(6),t1("w",2),t("tiles",t1,2+k),b(3),v("stack",t,b),o(2),lp(in,v,o),nn(NN_){ act(in); act(t); leaf(t1); leaf(b); drop(b); leaf(o); } };
struct A3 : NB<A3>{ In in; FT u; Gate gt; FS f; FT g; typedef LPHO<false,PHL<Gate>,PHL<FS>,PHL<FT>> H; H h; Out o; typedef layers<In,FT,H,Out> LP; LP lp; nnet<LP> nn; A3(int k):in(4),u(6),gt("gate"),f(2+k),g(3),h("opt",make_PHL(gt,0,2),make_PHL(f,2,2),make_PHL(g,4,2)),o("last",2),lp(in,u,h,o),nn(NN_){ act(in); leaf(u); act(gt); leaf(f); leaf(g); leaf(o); } };
struct A4 : NB<A4>{ In in; FA a; FD f; FS g; typedef LPV<FD,FS> V; V v; FS e; typedef LPH_DO<Dropout<real_t>,PHL<V>,PHL<FS>> H; H h; Out o; typedef layers<In,FA,H,Out> LP; LP lp; nnet<LP> nn; A4(int k):in(3),a("al",4),f(2+k),g(3),v(f,g),e(2),h("hd",std::make_tuple(make_PHL(v,0,2),make_PHL(e,2,2))),o(2),lp(in,a,h,o),nn(NN_){ act(in); leaf(a); drop(a); leaf(f); drop(f); leaf(g); leaf(e); drop(h); leaf(o); } };
static Net* mk(long a,long k){ Net*n= a==0?(Net*)new A0(k): a==1?(Net*)new A1(k): a==2?(Net*)new A2(k): a==3?(Net*)new A3(k): (Net*)new A4(k); n->arch=a; n->k=k; return n; }
static void fillx(MxD&x,long n,long w,unsigned s){ std::mt19937 g(s); std::normal_distribution<double> d(0,1); x.will_emulate_biases(); x.resize(n,w); for(int r=0;r<n;++r) for(int c=0;c<w;++c) x.set(r,c,real_t(d(g))); x.set_biases(); }
static void crash(int){ vp::emit("{\"op\":\"crash\"}"); _exit(0); }
int main(int argc,char**argv){ signal(SIGSEGV,crash); signal(SIGABRT,crash); signal(SIGFPE,crash); std::cout.setstate(std::ios::failbit); std::unique_ptr<Net> N[2]; Slot S[3]; MxD X[2]; std::unique_ptr<TD> T[2]; unsigned seed=1;
 return vp::drive(argc,argv,[&](vp::Args&a){ auto j=a.ev(); long i=a.has("n")?a["n"]:0; cur=(int)i;
  auto opts=[&](BO&o,const L&v){ o.turn_off_all_options(); static const serialization::CommonOptions q[]={serialization::serialize_weights,serialization::serialize_activations,serialization::serialize_data_x,serialization::serialize_training_parameters,serialization::serialize_grad_works,serialization::serialize_grad_works_state,serialization::serialize_dropout_mask,serialization::serialize_gating_mask}; for(int z=0;z<8;++z) o.m_binary_options.set(q[z],!!v[z]); };
  if(a.op=="net"){ if(N[i]) N[i]->deinit(); N[i].reset(mk(a["arch"],a["k"])); rg().seed((int)(seed=(unsigned)a["s"])); L hp; std::vector<std::string> hs; const auto&c=a.v("cfg"); for(size_t z=0;z<N[i]->lf.size();++z){ std::vector<long> h; L cc(c.begin(),c.end()); cc[4]+=(long)z; cc[0]=(cc[0]+z)%8; N[i]->lf[z].cfg(cc,h); hs.push_back(vp::jarr(h)); } j.raw("hp",vp::jlist(hs)).arr("num",L{idv(0),idv(1),idv(2),idv(3)}); L dp; const auto&d=a.v("dp"); for(size_t z=0;z<N[i]->dp.size();++z){ if(d[z]) N[i]->dp[z].set(d[z]/100.); dp.push_back(idv(N[i]->dp[z].get())); } j.arr("dpi",dp); }
  else if(a.op=="drop"){ N[i]->dp[a["d"]-1].set(a["p"]/100.); j.i("pi",idv(real_t(a["p"]/100.))); }
  else if(a.op=="clamp"){ real_t lo=real_t(-a["lo"]/8.),hi=real_t(a["hi"]/8.); if(a["lo"]) N[i]->clamp(lo,hi); else N[i]->unclamp(); j.i("li",idv(lo)).i("ui",idv(hi)); }
  else if(a.op=="fprop"){ X[i].clear(); fillx(X[i],a["rows"],N[i]->inw(),(unsigned)a["xs"]); j.i("ret",N[i]->fprop(X[i])).i("out",idm(N[i]->out())); }
  else if(a.op=="train"){ MxD x[2],y[2]; for(int d=0;d<2;++d){ fillx(x[d],8,N[i]->inw(),++seed); std::mt19937 g(seed); y[d].resize(8,2); for(int r=0;r<8;++r) for(int c=0;c<2;++c) y[d].set(r,c,real_t((g()%100)/100.)); } if(T[i]) T[i]->deinit4all(); std::unique_ptr<TD> old(std::move(T[i])); T[i].reset(new TD); T[i]->absorb(std::move(x[0]),std::move(y[0]),std::move(x[1]),std::move(y[1])); j.i("ret",N[i]->train(*T[i],2)); }
  else if(a.op=="deinit"){ N[i]->deinit(); }
  else if(a.op=="setw"){ auto&l=N[i]->lf[a["l"]-1]; Mx m; if(a["r"]&&a["c"]){ m.resize(a["r"],a["c"]); std::mt19937 g((unsigned)a["ws"]); for(int z=0;z<(int)m.numel();++z) m.data()[z]=real_t((int)(g()%2001)-1000)/1000; } long id=idm(m); j.i("id",id); j.i("ok",l.set(m,a["mv"])).i("left",idm(m)); }
  else if(a.op=="save"){ L ac; if(a["ini"]) for(auto&f:N[i]->ac) ac.push_back(idm(f())); OA o(&S[a["slot"]]); opts(o,a.v("o")); N[i]->save(o); S[a["slot"]].w.clear(); for(auto&l:N[i]->lf) S[a["slot"]].w.push_back(idm(l.w())); j.i("ok",!o.err).arr("ac",ac); std::vector<std::string> es; std::set<std::string> nm; long dup=0; for(auto&e:o.s->e){ vp::J q; q.str("p",e.p).i("m",e.mat).i("r",e.r).i("c",e.c).i("v",e.id); es.push_back(q.end()); if(!nm.insert(e.p+"|"+e.n).second) ++dup; } j.raw("es",vp::jlist(es)).i("dup",dup); es.clear(); for(auto&s:o.s->st) es.push_back("\""+s+"\""); j.raw("st",vp::jlist(es)); }
  else if(a.op=="harm"){ auto&s=S[a["slot"]]; long done=0, id=s.w[a["l"]-1]; j.i("id",id); std::string p; for(auto it=s.e.begin();it!=s.e.end();++it) if(it->mat&&it->r&&it->id==id){ done=1; long k=a["kind"]; if(k==0){ s.e.erase(it); } else if(k==1){ std::swap(it->r,it->c); } else if(k==2){ it->c++; it->d.resize(it->r*it->c,1); } else if(k==3){ it->r--; it->d.resize(it->r*it->c); } else if(k==4){ it->mat=false; it->d.resize(1); } else { it->r=0; it->c=0; it->d.clear(); } break; } j.i("done",done); }
  else if(a.op=="load"){ IA o(&S[a["slot"]]); opts(o,a.v("o")); N[i]->load(o); j.i("ok",!o.err); L d; for(auto&z:N[i]->dp) d.push_back(idv(z.get())); j.arr("dpi",d); }
  else if(a.op=="data"){ TD t,u; MxD x[2],y[2]; L w; for(int d=0;d<2;++d){ fillx(x[d],a["rows"]+d,a["xw"],++seed); fillx(y[d],a["rows"]+d,a["yw"],++seed); MxD q; q.resize(a["rows"]+d,a["yw"]); for(int r=0;r<(int)q.rows();++r) for(int c=0;c<(int)q.cols();++c) q.set(r,c,y[d].get(r,c)); y[d]=std::move(q); w.push_back(idm(x[d])); w.push_back(idm(y[d])); }
    t.absorb(std::move(x[0]),std::move(y[0]),std::move(x[1]),std::move(y[1])); OA o(&S[2]); o.turn_on_all_options(); o<<t; j.i("ok",!o.err).arr("dw",w); std::vector<std::string> es; for(auto&e:o.s->e){ vp::J q; q.str("n",e.n).str("p",e.p).i("v",e.id); es.push_back(q.end()); } j.raw("es",vp::jlist(es)); 
    inmem_train_data_stor<real_t,real_t> b; IA q(&S[2]); q.turn_on_all_options(); q>>b; j.i("ok2",!q.err).arr("b",L{idm(b.X_mutable(0)),idm(b.Y_mutable(0)),idm(b.X_mutable(1)),idm(b.Y_mutable(1))}).arr("k",L{idm(t.X(0)),idm(t.Y(0)),idm(t.X(1)),idm(t.Y(1))}); }
  else { fprintf(stderr,"unknown op\n"); exit(3); }
  if(N[i]){ L w; for(auto&l:N[i]->lf) w.push_back(idm(l.w())); j.arr("w",w); } else j.arr("w",L{});
  vp::emit(j.end()); }); }
