// loading of binary and JSON data files: the harness writes the described file into a scratch directory and loads it
#include <cstdlib>
#include <new>
static bool g_on=false, g_busy=false; static void* g_tab[8192]; static int g_n=0; static long g_mfail=-1;
extern "C" void* __real_malloc(size_t); extern "C" void __real_free(void*);
static void g_add(void*p){ if(g_on&&!g_busy&&p&&g_n<8192) g_tab[g_n++]=p; } static void g_del(void*p){ if(p) for(int i=g_n-1;i>=0;--i) if(g_tab[i]==p){ g_tab[i]=g_tab[--g_n]; break; } }
extern "C" void* __wrap_malloc(size_t n){ if(g_on&&g_mfail>=0&&g_mfail--==0) return nullptr; void*p=__real_malloc(n); g_add(p); return p; }
extern "C" void __wrap_free(void*p){ g_del(p); __real_free(p); }
void* operator new(size_t n){ void*p=__real_malloc(n?n:1); if(!p) throw std::bad_alloc(); g_add(p); return p; } void operator delete(void*p)noexcept{ g_del(p); __real_free(p); } void operator delete(void*p,size_t)noexcept{ g_del(p); __real_free(p); }
void* operator new[](size_t n){ return operator new(n); } void operator delete[](void*p)noexcept{ operator delete(p); } void operator delete[](void*p,size_t)noexcept{ operator delete(p); }
#include "vp_alloc.h"
#include "vp_io.h"
#include <unistd.h>
#include <fcntl.h>
#include "nntl/math.h"
#include "nntl/interfaces.h"
#include "nntl/nntl.h"
#include "nntl/_supp/io/binfile.h"
#include "nntl/_supp/io/jsonreader.h"
using namespace nntl; using namespace vp;
#ifndef REALT
#define REALT double
#endif
typedef REALT real_t; typedef math::smatrix<real_t> Mx; typedef math::smatrix_deform<real_t> MxD; typedef inmem_train_data<real_t,real_t> TD; typedef seq_data<real_t> SD; typedef std::vector<long> L;
struct Acc : SD{ static auto& stor(SD&s){ return s.*(&Acc::m_seqStor); } };
static std::string PATH; static double div_=4;
// a loaded matrix: rows, columns, bias emulation, layout flag, then its elements column by column in the units of the script
static std::string mx(const Mx&m){ L v{(long)m.rows(),(long)m.cols(),m.emulatesBiases(),m.bBatchInRow()}; if(m.empty()||!m.data()) v={0,0,0,0}; else for(long c=0;c<(long)m.cols();++c) for(long r=0;r<(long)m.rows();++r){ real_t x=m.get(r,c); long k=c==(long)m.cols()-1&&m.emulatesBiases()? enc(x) : x!=x?77777:std::isinf(x)?(x>0?77778:-77778): std::lround(double(x)*div_); 
   if(!(c==(long)m.cols()-1&&m.emulatesBiases()) && x==x && !std::isinf(x) && x!=real_t(k/div_)) k=66666; v.push_back(k); } return jarr(v); }
static double val(long v){ return v==77777?std::nan(""): v==77778?INFINITY: v==-77778?-INFINITY: v/4.; }
static const char* NM[]={"train_x","train_y","test_x","test_y","train_xx","TRAIN_X","","abcdefghijklmno","c","x1","c0","c1","c2","c3","c4","c5"};
static std::string binText(const Args&a){ std::string s; auto put=[&](auto x){ s.append((const char*)&x,sizeof(x)); };
 s+=a["sig"]?"ltnX":"nntl"; put((uint16_t)a["ver"]); put((uint16_t)a["nf"]); put((uint16_t)a["nc"]); for(long c:a.v("cls")) put((uint16_t)c);
 const L&nm=a.v("nm"),&ro=a.v("ro"),&co=a.v("co"),&ty=a.v("ty"),&v=a.v("v"); size_t q=0; for(size_t i=0;i<nm.size();++i){ put((uint32_t)ro[i]); put((uint32_t)co[i]); char n[16]={0}; memcpy(n,NM[nm[i]],strlen(NM[nm[i]])); s.append(n,15); put((uint8_t)ty[i]);
  for(long k=0;k<ro[i]*co[i];++k,++q) if(ty[i]==0) put(val(v[q])); else put((float)val(v[q])); } if(a["cut"]>=0) s.resize(std::min<size_t>(s.size(),a["cut"])); return s; }
static std::string num(long v,int f){ char b[64]; if(f%5==4) snprintf(b,64,v?"%ld00000000000000000000000000000e-30":"%ld.0",v); else if(f%4==0&&v%10==0) snprintf(b,64,"%ld",v/10); else if(f%4==1) snprintf(b,64,"%.3f",v/10.); else if(f%4==2) snprintf(b,64,"%lde-1",v); else snprintf(b,64,"%.1f",v/10.); return b; }
static std::string jsonText(const Args&a){ const L&nm=a.v("nm"),&ro=a.v("ro"),&co=a.v("co"),&ty=a.v("ty"),&v=a.v("v"); size_t q=0; std::string s=a["root"]==0?"{":"["; const char*sp=a["sp"]?" \n":""; bool f=true; if(a["root"]==2) return "17";
 for(size_t i=0;i<nm.size();++i){ if(!f) s+=","; f=false; s+=sp; if(a["root"]==0){ s+="\""; s+=NM[nm[i]]; s+="\":"; s+=sp; } long t=ty[i], n=ro[i]*co[i]; auto row=[&](long c,long len){ std::string r="["; for(long k=0;k<len;++k){ if(k) r+=","; r+=sp; r+=num(v[q+c*ro[i]+k],(int)(q+c+k)); } return r+"]"; };
  if(t==1){ s+="["; for(long k=0;k<n;++k){ if(k) s+=","; s+=num(v[q+k],(int)k); } s+="]"; } else if(t==2) s+="[]"; else if(t==3) s+="3"; else if(t==6) s+="[1,\"2\",3]"; else if(t==7) s+="[[],[]]"; else if(t==8) s+="\"abc\""; else if(t==9) s+="[[1,2],[3,null]]"; else if(t==10) s+="{\"a\":[1]}"; else if(t==11) s+="[1,[2],3]"; else if(t==12) s+="null";
  else { s+="["; for(long c=0;c<co[i];++c){ if(c) s+=","; s+=sp; if(t==5&&c==co[i]-1) s+="5"; else s+=row(c,t==4&&c==co[i]-1?ro[i]-1:ro[i]); } s+="]"; } q+=n; }
 s+=sp; s+=a["root"]==0?"}":"]"; if(a["cut"]>=0) s.resize(std::min<size_t>(s.size()-1,a["cut"])); return s; }
#define IDX(...) { const E t[]={__VA_ARGS__}; for(long i=0;i<(long)(sizeof(t)/sizeof(*t));++i) if(t[i]==e) return i; return 99; }
static long idx(nntl_supp::_binfile_errs::ErrorCode e){ typedef nntl_supp::_binfile_errs E_; typedef E_::ErrorCode E; IDX(E_::Success,E_::FailedToOpenFile,E_::FailedToReadHeader,E_::FailedToReadSeqClassHeader,E_::WrongHeaderSignature,E_::UnsupportedFormatVersion,E_::WrongElementsCount,E_::InvalidSeqClassCount,E_::InvalidSeqClassElement,E_::FailedToReadFieldEntry,E_::UnsupportedIncorrectDataType,E_::FailedToAllocateMemoryForDataConvertion,E_::InvalidDataSize,E_::FailedToReadData,E_::UnknownFieldName,E_::FieldHasBeenRead,E_::FailedToMakeTDOutOfReadData,E_::FailedToPreallocateSeqData,E_::FailedToChangeFilePtr,E_::FailedToParseClassId,E_::IncoherentSeqClassCount,E_::IncoherentMetaAndContent,E_::MemoryAllocationFailed) }
static long idx(nntl_supp::_jsonreader_errs::ErrorCode e){ typedef nntl_supp::_jsonreader_errs E_; typedef E_::ErrorCode E; IDX(E_::Success,E_::FailedToOpenFile,E_::FailedToParseJson,E_::RootIsNotAnObject,E_::NoTrainX,E_::NoTrainY,E_::NoTestX,E_::NoTestY,E_::InvalidTrainX,E_::InvalidTrainY,E_::InvalidTestX,E_::InvalidTestY,E_::MismatchingDataLength,E_::MemoryAllocationFailed) }
static long fdn(){ int f=open("/dev/null",O_RDONLY); close(f); return f; }
template<class R,class D,class F> static void load1(const Args&a,J&j,F&&out){ long fd=fdn(); long live=vp::g_live.load(); g_n=0; g_mfail=a["fm"]-1; long code,le,mt; std::string es; std::vector<std::string> ms; ms.reserve(40);
 { g_on=true; { R rd; D dest; if(a["bias"]){ if constexpr(std::is_base_of<Mx,D>::value) if(a.op=="bin") dest.will_emulate_biases(); }
   vp::g_fail_at=a["fa"]-1; const char*pn=a["miss"]?"/nonexistent_dir/x":PATH.c_str();
   if constexpr(std::is_same<R,nntl_supp::jsonreader>::value){ rd.m_readBufSize=a["rb"]; code=idx(rd.read(pn,dest,a["bias"]!=0)); } else code=idx(rd.read(pn,dest));
   vp::g_fail_at=-1; g_mfail=-1; g_busy=true; le=idx(rd.get_last_error()); es=rd.get_last_error_str(); if(code==0) out(dest,ms); else if constexpr(std::is_same<D,TD>::value) j.i("empty",dest.empty()); g_busy=false; }
   g_on=false; }
 j.i("ret",code); j.i("le",le); j.i("msg",!es.empty()&&es!="Unknown code."); j.i("leak",g_n+vp::g_live.load()-live); j.i("badfree",vp::g_bad_free); j.i("fd",fdn()-fd); std::string s="["; for(size_t i=0;i<ms.size();++i) s+=(i?",":"")+ms[i]; j.raw("ms",s+"]"); }
// the first load warms up whatever is allocated once; the second is judged
template<class R,class D,class F> static void load(const Args&a,J&j,F&&out){ J w; load1<R,D>(a,w,out); load1<R,D>(a,j,out); }
template<class R> static void td(const Args&a,J&j){ load<R,TD>(a,j,[](TD&d,std::vector<std::string>&m){ m.push_back(mx(d.train_x())); m.push_back(mx(d.train_y())); m.push_back(mx(d.test_x())); m.push_back(mx(d.test_y())); }); }
int main(int argc,char**argv){ char dir[]="/tmp/vp_files_XXXXXX"; if(!mkdtemp(dir)) return 3; PATH=std::string(dir)+"/f.bin";
 int r=drive(argc,argv,[&](Args&a){ J j=a.ev(); div_=a.op=="bin"?4:10; { std::string s=a.op=="bin"?binText(a):jsonText(a); FILE*f=fopen(PATH.c_str(),"wb"); fwrite(s.data(),1,s.size(),f); fclose(f); }
  auto one=[](const Mx&d,std::vector<std::string>&m){ m.push_back(mx(d)); };
  if(a.op=="bin"){ typedef nntl_supp::binfile R; long k=a["kind"]; if(k==0) load<R,Mx>(a,j,one); else if(k==1) load<R,MxD>(a,j,one); else if(k==2) td<R>(a,j);
   else load<R,SD>(a,j,[](SD&d,std::vector<std::string>&m){ L c; for(auto x:d.get_class_seq_count()) c.push_back(x); c.push_back(d.empty()); m.push_back(jarr(c)); for(auto&s:Acc::stor(d)) for(auto&x:s) m.push_back(mx(x)); }); }
  else if(a.op=="json"){ typedef nntl_supp::jsonreader R; if(a["kind"]) load<R,Mx>(a,j,one); else td<R>(a,j); } else { fprintf(stderr,"unknown op\n"); exit(3); }
  emit(j.end()); });
 unlink(PATH.c_str()); rmdir(dir); return r; }
