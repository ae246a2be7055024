// networks of every kind of layer: values of a forward pass and of the weights after one training step
#include "vp_alloc.h"
#include "vp_io.h"
#include "nntl/math.h"
#include "nntl/interfaces.h"
#include "nntl/nntl.h"
#include "nntl/weights_init.h"
#include <functional>
using namespace nntl;
#ifndef REALT
#define REALT double
#endif
typedef REALT real_t; typedef math::smatrix<real_t> Mx; typedef math::smatrix_deform<real_t> MxD;
typedef std::vector<long> L;
static const long S=4;                                             // values are recorded in units of 1/S (derivatives: 1/64)
static long q(double v,double s){ return std::lround(v*s); }
static std::string mj(const Mx&m,double s,bool bias=false){ std::vector<std::string> rows; int C=(int)(bias?m.cols():m.cols_no_bias()); for(int r=0;r<(int)m.rows();++r){ L o; for(int c=0;c<C;++c) o.push_back(q(m.data()[r+(size_t)c*m.rows()],s)); rows.push_back(vp::jarr(o)); } return vp::jlist(rows); }
struct Insp : public inspector::_impl::_base<real_t>{
#ifdef DROP
 mutable std::vector<long> stk; mutable long last=-1; mutable std::function<void(const Mx&)> onX,onY; mutable std::function<void(long,const Mx&)> onM;
 void fprop_begin(const layer_index_t i,const Mx&a,const bool b)const noexcept{ stk.push_back((long)i); } void fprop_end(const Mx&a)const noexcept{ last=stk.back(); stk.pop_back(); }
 void train_preFprop(const Mx&x)const noexcept{ if(onX) onX(x); } void train_preBprop(const Mx&y)const noexcept{ if(onY) onY(y); } void fprop_postDropout(const Mx&a,const Mx&m)const noexcept{ if(onM) onM(last,m); }
#endif
};
struct I : public d_int_nI<real_t>{ typedef Insp iInspect_t; };
typedef weights_init::XavierFour WI; typedef grad_works<I> GWk;
typedef layer_fully_connected<activation::relu<real_t,WI>,GWk> FR; typedef layer_fully_connected<activation::identity<real_t,WI>,GWk> FI; typedef layer_fully_connected<activation::leaky_relu<real_t,200,WI>,GWk> FL;
typedef layer_output<activation::identity_quad_loss<real_t,WI>,GWk> Out; typedef layer_input<I> In; typedef layer_identity<I> Id; typedef LIG<500000,I> Gate;
struct Leaf{ std::function<Mx&()> w; std::function<bool(const Mx&)> set; std::function<void(int l2,double lr,int upd)> cfg; int n; std::function<int()> inc; };
typedef std::function<const Mx&()> Act; typedef inmem_train_data<real_t,real_t> TD;
static I::iMath_t*im; static I::iRng_t*rgn; static I::iInspect_t*insp;
struct XL{ std::function<void(double)> p; std::function<void(int,int)> pen; std::function<long()> idx; };
struct B{ std::vector<XL> xs; std::vector<Leaf> lf; std::vector<Act> tops; virtual ~B(){} virtual int train(TD&td,int bs,int ep,std::vector<double>&loss,int mf)=0; virtual int fprop(const Mx&x)=0; virtual void deinit()=0; virtual int inw()=0; virtual int outw()=0; virtual long clamp(int lo,int hi)=0; virtual long nlay()=0;
 template<class T> void leaf(T&l){ lf.push_back({[&l]()->Mx&{ return l.get_weights(); },[&l](const Mx&m){ return l.set_weights(m); },[&l](int l2,double lr,int upd){ l.get_gradWorks().learning_rate(real_t(lr)).L2(real_t(l2)); l._setUpdateWeights(!!upd); },(int)l.get_neurons_cnt(),[&l](){ return (int)l.get_incoming_neurons_cnt(); }}); }
 template<class T> static long ix(T&l){ return (long)l.get_layer_idx(); }
 template<class T> void xd(T&l){ xs.push_back({[&l](double p){ l.dropoutPercentActive(real_t(p)); },nullptr,[&l](){ return ix(l); }}); }                 // dropout only
 template<class T> void xp(T&l){ xs.push_back({nullptr,[&l](int a,int b){ l.template addendum<0>().scale(real_t(a)); l.template addendum<1>().scale(real_t(b)); },[&l](){ return ix(l); }}); }   // penalties only
 template<class T> void xb(T&l){ xs.push_back({[&l](double p){ l.dropoutPercentActive(real_t(p)); },[&l](int a,int b){ l.template addendum<0>().scale(real_t(a)); l.template addendum<1>().scale(real_t(b)); },[&l](){ return ix(l); }}); }
 template<class T> void top(T&l){ tops.push_back([&l]()->const Mx&{ return l.get_activations(); }); } };
struct Obs : public i_training_observer<real_t>{ std::vector<double>*loss=nullptr;
 template<class T,class C> bool init(numel_cnt_t e,T&td,const C&cd)noexcept{ return true; } void deinit()noexcept{} void report_results_begin(const data_set_id_t d,const numel_cnt_t n)noexcept{}
 template<class Y,class C> void report_results(const numel_cnt_t b,const Mx&a,const math::smatrix<Y>&y,const C&cd)noexcept{} void report_results_end(const real_t l)noexcept{ if(loss) loss->push_back(l); }
 template<class T> void on_training_start(const T&td,vec_len_t bs,vec_len_t mf,numel_cnt_t np)noexcept{} void on_training_fragment_end(const numel_cnt_t e,const real_t tr,const real_t te,const std::chrono::nanoseconds&t)noexcept{} void on_training_end(const std::chrono::nanoseconds&t)noexcept{} };
template<class LP> struct Run{ LP lp; nnet<LP> nn; template<class...A> Run(A&...a):lp(a...),nn(lp,insp,im,rgn){} };
template<class D> struct NB : B{
 int train(TD&td,int bs,int ep,std::vector<double>&loss,int mf)override{ nnet_train_opts<real_t,Obs> o(ep,false); o.batchSize(bs); if(bs) o.maxFpropSize(mf); o.observer().loss=&loss; o.ImmediatelyDeinit(false).calcFullLossValue(true); return (int)((D*)this)->r->nn.train(td,o); }
 int fprop(const Mx&x)override{ return (int)((D*)this)->r->nn.fprop(x); } void deinit()override{ ((D*)this)->r->nn.deinit(); } int inw()override{ return ((D*)this)->in.get_neurons_cnt(); } int outw()override{ return ((D*)this)->o.get_neurons_cnt(); }
 long clamp(int lo,int hi)override{ ((D*)this)->o.restrict_dL_dZ(real_t(lo),real_t(hi)); return 1; } long nlay()override{ return (long)((D*)this)->r->lp.total_layers(); } };
#define NET(N,LPT,...) std::unique_ptr<Run<LPT>> r; void fin(){ r.reset(new Run<LPT>(__VA_ARGS__)); }
// widths a,b,c; output width y
#ifdef DROP
static const char*const NM="p";
namespace LA=loss_addendum; typedef std::tuple<LA::L1<real_t>,LA::L2<real_t>> P0; typedef std::tuple<LA::L1<real_t,true>,LA::L2<real_t,true>> PF; typedef std::tuple<LA::L1<real_t,false,true>,LA::L2<real_t,true,true>> PN;
typedef activation::relu<real_t,WI> AR; typedef activation::identity<real_t,WI> AI; typedef activation::leaky_relu<real_t,200,WI> AL; typedef Dropout<real_t> DO; typedef AlphaDropout<real_t,2000000000,1000000000> ADa; typedef AlphaDropout<real_t,1000000000,1000000000,1000000> ADb;
typedef LFC_DO<AR,GWk,DO> RD; typedef LFC_DO<AL,GWk,DO> LD; typedef LFC_PA_DO<P0,AI,GWk,DO> IPD; typedef LFC_PA<PF,AL,GWk> LPF; typedef LFC_PA_DO<PN,AR,GWk,DO> RPN; typedef LFC_DO<AL,GWk,ADa> LAa; typedef LFC_DO<AI,GWk,ADb> IAb; typedef LFC_PA_DO<PF,AL,GWk,ADa> LPAa;
struct N0 : NB<N0>{ In in; RD f; Out o; typedef layers<In,RD,Out> LP; NET(N0,LP,in,f,o) N0(int a,int b,int c,int y):in(a),f(b),o(y){ fin(); leaf(f); leaf(o); xd(f); top(f); top(o); } };
struct N1 : NB<N1>{ In in; LD f; IPD g; Out o; typedef layers<In,LD,IPD,Out> LP; NET(N1,LP,in,f,g,o) N1(int a,int b,int c,int y):in(a),f(b),g(c),o(y){ fin(); leaf(f); leaf(g); leaf(o); xd(f); xb(g); top(f); top(g); top(o); } };
struct N2 : NB<N2>{ In in; LPF f; RPN g; Out o; typedef layers<In,LPF,RPN,Out> LP; NET(N2,LP,in,f,g,o) N2(int a,int b,int c,int y):in(a),f(b),g(c),o(y){ fin(); leaf(f); leaf(g); leaf(o); xp(f); xb(g); top(f); top(g); top(o); } };
struct N3 : NB<N3>{ In in; FI u; LAa f; IAb g; Out o; typedef layers<In,FI,LAa,IAb,Out> LP; NET(N3,LP,in,u,f,g,o) N3(int a,int b,int c,int y):in(a),u(b),f(c),g(b),o(y){ fin(); leaf(u); leaf(f); leaf(g); leaf(o); xd(f); xd(g); top(u); top(f); top(g); top(o); } };
// dropout over a horizontal pack with a dropout inside it
struct N4 : NB<N4>{ In in; FL u; RD f; FI g; typedef LPH_DO<DO,PHL<RD>,PHL<FI>> H; H h; Out o; typedef layers<In,FL,H,Out> LP; NET(N4,LP,in,u,h,o) N4(int a,int b,int c,int y):in(a),u(b+1),f(c),g(b),h(NM,std::make_tuple(make_PHL(f,0,b),make_PHL(g,1,b))),o(y){ fin(); leaf(u); leaf(f); leaf(g); leaf(o); xd(f); xd(h); top(u); top(h); top(o); } };
// penalized horizontal pack
struct N5 : NB<N5>{ In in; FR u; RD f; Id g; typedef LPH_PA<PF,PHL<RD>,PHL<Id>> H; H h; Out o; typedef layers<In,FR,H,Out> LP; NET(N5,LP,in,u,h,o) N5(int a,int b,int c,int y):in(a),u(b+1),f(c),g(),h(NM,std::make_tuple(make_PHL(f,0,b),make_PHL(g,1,b))),o(y){ fin(); leaf(u); leaf(f); leaf(o); xd(f); xp(h); top(u); top(h); top(o); } };
// tiles of layers with dropout and penalties
struct N6 : NB<N6>{ In in; FI u; IPD f; LPT<IPD> t; Out o; typedef layers<In,FI,LPT<IPD>,Out> LP; NET(N6,LP,in,u,t,o) N6(int a,int b,int c,int y):in(a),u(2*b),f(c),t(f,2),o(y){ fin(); leaf(u); leaf(f); leaf(o); xb(f); top(u); top(t); top(o); } };
// optional data: dropout and penalties over the whole pack and inside it
template<bool NP> struct N7 : NB<N7<NP>>{ In in; Gate gt; RD f; LD g; typedef LPHO_PA_DO<std::conditional_t<NP,PF,P0>,DO,NP,PHL<Gate>,PHL<RD>,PHL<LD>> H; H h; Out o; typedef layers<In,H,Out> LP; NET(N7,LP,this->in,h,o)
 N7(int a,int b,int c,int y):in(2+2*a),gt(),f(b),g(c),h(NM,std::make_tuple(make_PHL(gt,0,2),make_PHL(f,2,a),make_PHL(g,2+a,a))),o(y){ fin(); this->leaf(f); this->leaf(g); this->leaf(o); this->xd(f); this->xd(g); this->xb(h); this->top(h); this->top(o); } };
struct N9 : NB<N9>{ In in; FR u; Gate gt; LPF f; IAb g; typedef LPHO<false,PHL<Gate>,PHL<LPF>,PHL<IAb>> H; H h; Out o; typedef layers<In,FR,H,Out> LP; NET(N9,LP,in,u,h,o)
 N9(int a,int b,int c,int y):in(a),u(2+b+1),gt(),f(b),g(c),h(make_PHL(gt,0,2),make_PHL(f,2,1),make_PHL(g,3,b)),o(y){ fin(); leaf(u); leaf(f); leaf(g); leaf(o); xp(f); xd(g); top(u); top(h); top(o); } };
struct N10 : NB<N10>{ In in; LD f; LPAa g; LPV<LD,LPAa> v; Out o; typedef layers<In,LPV<LD,LPAa>,Out> LP; NET(N10,LP,in,v,o) N10(int a,int b,int c,int y):in(a),f(b),g(c),v(f,g),o(y){ fin(); leaf(f); leaf(g); leaf(o); xd(f); xb(g); top(v); top(o); } };
static B*mk(int t,int a,int b,int c,int y){ switch(t){ case 0:return new N0(a,b,c,y); case 1:return new N1(a,b,c,y); case 2:return new N2(a,b,c,y); case 3:return new N3(a,b,c,y); case 4:return new N4(a,b,c,y); case 5:return new N5(a,b,c,y); case 6:return new N6(a,b,c,y); case 7:return new N7<false>(a,b,c,y); case 8:return new N7<true>(a,b,c,y); case 9:return new N9(a,b,c,y); case 10:return new N10(a,b,c,y); } return nullptr; }
static bool gated(int t){ return t==7||t==8; }
#else
static bool gated(int t){ return t==9||t==10; }
struct N0 : NB<N0>{ In in; FR f; Out o; typedef layers<In,FR,Out> LP; NET(N0,LP,in,f,o) N0(int a,int b,int c,int y):in(a),f(b,real_t(1)),o(y,real_t(1)){ fin(); leaf(f); leaf(o); top(f); top(o); } };
struct N1 : NB<N1>{ In in; FL f; FI g; Out o; typedef layers<In,FL,FI,Out> LP; NET(N1,LP,in,f,g,o) N1(int a,int b,int c,int y):in(a),f(b),g(c),o(y){ fin(); leaf(f); leaf(g); leaf(o); top(f); top(g); top(o); } };
struct N2 : NB<N2>{ In in; FR f; FL g; LPV<FR,FL> v; Out o; typedef layers<In,LPV<FR,FL>,Out> LP; NET(N2,LP,in,v,o) N2(int a,int b,int c,int y):in(a),f(b),g(c),v(f,g),o(y){ fin(); leaf(f); leaf(g); leaf(o); top(v); top(o); } };
// horizontal pack over the input: columns [0,a) and [a,2a)
struct N3 : NB<N3>{ In in; FR f; FI g; typedef LPH<PHL<FR>,PHL<FI>> H; H h; Out o; typedef layers<In,H,Out> LP; NET(N3,LP,in,h,o) N3(int a,int b,int c,int y):in(2*a),f(b),g(c),h(make_PHL(f,0,a),make_PHL(g,a,a)),o(y){ fin(); leaf(f); leaf(g); leaf(o); top(h); top(o); } };
// over a hidden layer of b+1 neurons, overlapping fields [0,b) and [1,b+1), the second one an identity layer
struct N4 : NB<N4>{ In in; FL u; FR f; Id g; typedef LPH<PHL<FR>,PHL<Id>> H; H h; Out o; typedef layers<In,FL,H,Out> LP; NET(N4,LP,in,u,h,o) N4(int a,int b,int c,int y):in(a),u(b+1),f(c),g(),h(make_PHL(f,0,b),make_PHL(g,1,b)),o(y){ fin(); leaf(u); leaf(f); leaf(o); top(u); top(h); top(o); } };
// vertical pack inside a horizontal one, three fields
struct N5 : NB<N5>{ In in; FI u; FR f; FL g; LPV<FR,FL> v; FI w; Id d; typedef LPH<PHL<LPV<FR,FL>>,PHL<FI>,PHL<Id>> H; H h; Out o; typedef layers<In,FI,H,Out> LP; NET(N5,LP,in,u,h,o)
 N5(int a,int b,int c,int y):in(a),u(b+1),f(c),g(b),v(f,g),w(c),d(),h(make_PHL(v,0,b),make_PHL(w,0,b+1),make_PHL(d,b,1)),o(y){ fin(); leaf(u); leaf(f); leaf(g); leaf(w); leaf(o); top(u); top(h); top(o); } };
// tiles: over the input (2 tiles) and over a hidden layer (3 tiles of a vertical pack)
struct N6 : NB<N6>{ In in; FR f; LPT<FR> t; Out o; typedef layers<In,LPT<FR>,Out> LP; NET(N6,LP,in,t,o) N6(int a,int b,int c,int y):in(2*a),f(b),t(f,2),o(y){ fin(); leaf(f); leaf(o); top(t); top(o); } };
struct N7 : NB<N7>{ In in; FI u; FR f; FL g; LPV<FR,FL> v; LPT<LPV<FR,FL>> t; Out o; typedef layers<In,FI,LPT<LPV<FR,FL>>,Out> LP; NET(N7,LP,in,u,t,o) N7(int a,int b,int c,int y):in(a),u(3*b),f(c),g(b),v(f,g),t(v,3),o(y){ fin(); leaf(u); leaf(f); leaf(g); leaf(o); top(u); top(t); top(o); } };
struct N8 : NB<N8>{ In in; FL u; FR f; LPT<FR> t; Out o; typedef layers<In,FL,LPT<FR>,Out> LP; NET(N8,LP,in,u,t,o) N8(int a,int b,int c,int y):in(a),u(2*b),f(c),t(f,2),o(y){ fin(); leaf(u); leaf(f); leaf(o); top(u); top(t); top(o); } };
// optional data: two gates in the first two columns, fields of a and a+1 columns
template<bool NP> struct N9 : NB<N9<NP>>{ In in; Gate gt; FR f; FI g1; FL g2; LPV<FI,FL> v; typedef LPHO<NP,PHL<Gate>,PHL<FR>,PHL<LPV<FI,FL>>> H; H h; Out o; typedef layers<In,H,Out> LP; NET(N9,LP,this->in,h,o)
 N9(int a,int b,int c,int y):in(2+2*a+1),gt(),f(b),g1(c),g2(b),v(g1,g2),h(make_PHL(gt,0,2),make_PHL(f,2,a),make_PHL(v,2+a,a+1)),o(y){ fin(); this->leaf(f); this->leaf(g1); this->leaf(g2); this->leaf(o); this->top(h); this->top(o); } };
// the same over a hidden layer (gates computed by it)
struct N11 : NB<N11>{ In in; FR u; Gate gt; FR f; FI g; typedef LPHO<false,PHL<Gate>,PHL<FR>,PHL<FI>> H; H h; Out o; typedef layers<In,FR,H,Out> LP; NET(N11,LP,in,u,h,o)
 N11(int a,int b,int c,int y):in(a),u(2+b+1),gt(),f(b),g(c),h(make_PHL(gt,0,2),make_PHL(f,2,1),make_PHL(g,3,b)),o(y){ fin(); leaf(u); leaf(f); leaf(g); leaf(o); top(u); top(h); top(o); } };
// deep nesting: vertical [ horizontal [ tile, identity ], fc ]
struct N12 : NB<N12>{ In in; FI u; FR f; LPT<FR> t; Id d; typedef LPH<PHL<LPT<FR>>,PHL<Id>> H; H h; FL g; LPV<H,FL> v; Out o; typedef layers<In,FI,LPV<H,FL>,Out> LP; NET(N12,LP,in,u,v,o)
 N12(int a,int b,int c,int y):in(a),u(2*b+1),f(c),t(f,2),d(),h(make_PHL(t,0,2*b),make_PHL(d,2*b,1)),g(b),v(h,g),o(y){ fin(); leaf(u); leaf(f); leaf(g); leaf(o); top(u); top(v); top(o); } };
// two layers below the optional pack
struct N13 : NB<N13>{ In in; FI w; FR u; Gate gt; FR f; FI g; typedef LPHO<true,PHL<Gate>,PHL<FR>,PHL<FI>> H; H h; Out o; typedef layers<In,FI,FR,H,Out> LP; NET(N13,LP,in,w,u,h,o)
 N13(int a,int b,int c,int y):in(a),w(b),u(2+b+1),gt(),f(b),g(c),h(make_PHL(gt,0,2),make_PHL(f,2,1),make_PHL(g,3,b)),o(y){ fin(); leaf(w); leaf(u); leaf(f); leaf(g); leaf(o); top(w); top(u); top(h); top(o); } };
// horizontal [ vertical [ fc, tile ], optional [ gate, fc, horizontal [ fc, identity ] ] ] over two layers
struct N14 : NB<N14>{ In in; FL w; FI u; FI f; FR t1; LPT<FR> t; typedef LPV<FI,LPT<FR>> V; V v; Gate gt; FR g; FI k; Id d; typedef LPH<PHL<FI>,PHL<Id>> H2; H2 h2; typedef LPHO<false,PHL<Gate>,PHL<FR>,PHL<H2>> O; O op; typedef LPH<PHL<V>,PHL<O>> H; H h; Out o; typedef layers<In,FL,FI,H,Out> LP; NET(N14,LP,in,w,u,h,o)
 N14(int a,int b,int c,int y):in(a),w(b),u(2+b+2),f(2*c),t1(1),t(t1,2),v(f,t),gt(),g(c),k(1),d(),h2(make_PHL(k,0,b),make_PHL(d,b,1)),op(make_PHL(gt,0,2),make_PHL(g,2,1),make_PHL(h2,3,b+1)),h(make_PHL(v,1,b),make_PHL(op,0,2+b+2)),o(y)
 { fin(); leaf(w); leaf(u); leaf(f); leaf(t1); leaf(g); leaf(k); leaf(o); top(w); top(u); top(h); top(o); } };
static B*mk(int t,int a,int b,int c,int y){ switch(t){ case 0:return new N0(a,b,c,y); case 1:return new N1(a,b,c,y); case 2:return new N2(a,b,c,y); case 3:return new N3(a,b,c,y); case 4:return new N4(a,b,c,y); case 5:return new N5(a,b,c,y); case 6:return new N6(a,b,c,y); case 7:return new N7(a,b,c,y);
 case 8:return new N8(a,b,c,y); case 9:return new N9<false>(a,b,c,y); case 10:return new N9<true>(a,b,c,y); case 11:return new N11(a,b,c,y); case 12:return new N12(a,b,c,y); case 13:return new N13(a,b,c,y); case 14:return new N14(a,b,c,y); } return nullptr; }
#endif
static unsigned long long rs; static int rnd(int lo,int hi){ rs=rs*6364136223846793005ull+1442695040888963407ull; return lo+(int)((rs>>33)%(unsigned)(hi-lo+1)); }
static void fillx(MxD&x,int n,int w,int t,int mag){ x.will_emulate_biases(); x.resize(n,w); for(int i=0;i<n;++i) for(int c=0;c<w;++c) x.set(i,c,real_t(gated(t)&&c<2?rnd(0,1):rnd(-mag,mag))); x.set_biases(); }
int main(int argc,char**argv){ using namespace vp; static I::iMath_t im_; static I::iRng_t rng_; static I::iInspect_t insp_; im=&im_; rgn=&rng_; insp=&insp_; std::cout.setstate(std::ios::failbit);
 if(I::iRng_t::is_multithreaded) rng_.init_ithreads(im_.ithreads()); rng_.seed64(5); std::unique_ptr<B> n; int T=0; long FZ=0,LL=0;
 return drive(argc,argv,[&](Args&a){ J j=a.ev();
  if(a.op=="reset"){ if(n) n->deinit(); T=a["t"]; FZ=0; LL=0; n.reset(mk(T,a["a"],a["b"],a["c"],a["y"])); L in; for(auto&l:n->lf) in.push_back(l.inc()); j.i("inw",n->inw()).raw("incs",jarr(in)); }
  else if(a.op=="weights"){ rs=a["seed"]*7919ull+13; for(int k=0;k<5;++k) rnd(0,1); std::vector<std::string> W; bool ok=true; for(auto&l:n->lf){ Mx m(l.n,l.inc()+1); int nb=m.numel()-m.rows(); for(int i=0;i<m.numel();++i) m.data()[i]=real_t(!a["par"]?rnd(-a["mag"],a["mag"]):i<nb?2*rnd(-1,1):2*rnd(0,1)-1); /* par: even weights, odd biases: hardly ever at a kink */ W.push_back(mj(m,1,true)); ok=l.set(m)&&ok; } j.i("ok",ok).raw("W",jlist(W)); }
#ifdef DROP
  else if(a.op=="cfg"){ bool ch=false; static std::vector<long> old; std::vector<long> nw; auto&p=a.v("ps"); auto&l1=a.v("l1"); auto&l2=a.v("l2"); L h; for(size_t k=0;k<n->xs.size();++k){ auto&x=n->xs[k]; if(x.p && !a["re"]) x.p(.625); if(x.p) x.p(p[k]==0?1.:p[k]==1?.5:p[k]==2?.25:0.); h.push_back((x.p?1:0)+(x.pen?2:0)); nw.push_back(l1[k]); nw.push_back(l2[k]); }
    if(nw!=old||a["re"]) n->deinit(); old=nw; for(size_t k=0;k<n->xs.size();++k) if(n->xs[k].pen) n->xs[k].pen(l1[k],l2[k]); j.raw("has",jarr(h)); }
#endif
  else if(a.op=="fprop"){ rs=a["seed"]*104729ull+17; MxD x; fillx(x,a["n"],n->inw(),T,a["mag"]); j.raw("X",mj(x,1)); j.i("ret",n->fprop(x)); std::vector<std::string> A; for(auto&t:n->tops) A.push_back(mj(t(),S)); j.raw("A",jlist(A)); std::vector<std::string> W; for(auto&l:n->lf) W.push_back(mj(l.w(),1,true)); j.raw("W2",jlist(W)); }
  else if(a.op=="step"){ rs=a["seed"]*104729ull+17; MxD x[2],y[2]; int cnt[2]={(int)a["n"],(int)a["n2"]}; for(int d=0;d<2;++d){ fillx(x[d],cnt[d],n->inw(),T,a["mag"]); y[d].resize(cnt[d],n->outw()); for(int i=0;i<y[d].numel();++i) y[d].data()[i]=real_t(rnd(-3,3)); }
    j.raw("X",mj(x[0],1)).raw("Y",mj(y[0],1)).raw("XT",mj(x[1],1)).raw("YT",mj(y[1],1)); double lr=std::ldexp(1.,-(int)a["lr"]); std::vector<std::vector<real_t>> w0; if(a["re"]||a["frz"]!=FZ||a["l2"]!=LL) n->deinit(); FZ=a["frz"]; LL=a["l2"]; /* freezing and switching regularizers on take effect at initialization */ for(size_t k=0;k<n->lf.size();++k) n->lf[k].cfg(a["l2"],lr,!((a["frz"]>>k)&1)); if(a["clamp"]) n->clamp(-a["clamp"],a["clamp"]); else n->clamp(0,0);
    for(auto&l:n->lf){ auto&m=l.w(); w0.emplace_back(m.data(),m.data()+m.numel()); } std::vector<std::string> BT;
#ifdef DROP
    std::vector<std::string> M; std::string BX; insp->onX=[&](const Mx&x){ BX=mj(x,1); M.assign(n->xs.size(),"[]"); }; insp->onM=[&](long li,const Mx&m){ bool f=false; for(size_t k=0;k<n->xs.size();++k) if(n->xs[k].idx()==li){ M[k]=mj(m,1); f=true; } if(!f){ fprintf(stderr,"mask of an unknown layer\n"); exit(3); } };
    insp->onY=[&](const Mx&y){ std::vector<std::string> A; for(auto&t:n->tops) A.push_back(mj(t(),S)); J b; b.raw("X",BX).raw("Y",mj(y,1)).raw("M",jlist(M)).raw("A",jlist(A)); BT.push_back(b.end()); };
#endif
    TD td; td.absorb(std::move(x[0]),std::move(y[0]),std::move(x[1]),std::move(y[1])); std::vector<double> loss; j.i("ret",n->train(td,a["bs"],a["ep"],loss,std::max(cnt[0],cnt[1])));
    
#ifdef DROP
    insp->onX=nullptr; insp->onM=nullptr; insp->onY=nullptr; j.raw("B",jlist(BT));
#endif
    L ls; for(double v:loss) ls.push_back(q(v,16)); j.raw("loss",jarr(ls)); std::vector<std::string> D; for(size_t k=0;k<n->lf.size();++k){ Mx&m=n->lf[k].w(); MxD d; d.resize(m.rows(),m.cols()); for(int i=0;i<m.numel();++i){ d.data()[i]=real_t(((double)w0[k][i]-(double)m.data()[i])/lr); } D.push_back(mj(d,64,true)); } j.raw("D",jlist(D)); 
    for(size_t k=0;k<n->lf.size();++k){ Mx&m=n->lf[k].w(); for(int i=0;i<m.numel();++i) m.data()[i]=w0[k][i]; } }
  else { fprintf(stderr,"unknown op\n"); exit(3); }
  emit(j.end()); }); }
