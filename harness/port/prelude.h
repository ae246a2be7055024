#pragma once
#include <cmath>
#include <cstring>
#include <cstdint>
#include <cstdlib>
#include <ctime>
#include <climits>
#include <array>
#include <vector>
#include <string>
#include <memory>
#include <functional>
#include <algorithm>
#include <numeric>
#include <iostream>
#include <random>
#include <thread>
#include <atomic>
#include <mm_malloc.h>
#define _DN_FLUSH 0x01000000
#define _DN_SAVE 0
#define _MCW_DN 0x03000000
#define _MCW_RC 0x300
#define _RC_CHOP 0x300
#define _CW_DEFAULT 0
#define _MCW_EM 0x8001f
inline int _controlfp_s(unsigned*c,unsigned n,unsigned m){ static thread_local unsigned w=0; w=(w&~m)|(n&m); if(c)*c=w; return 0;}

#define printf_s printf
namespace nntl{namespace threads{namespace _impl{struct win_srwlock; struct win_condition_var;}}}
#define STDCOUT(args) ::std::cout << args
#define STDCOUTL(args) STDCOUT(args) << ::std::endl
#define NOMINMAX
#define _USE_MATH_DEFINES
#define NNTL_FP_ROUND_TO_ZERO 0
#define NNTL_MATLAB_AVAILABLE 0
#define NNTL_S_(x) #x
#define STRING(x) NNTL_S_(x)
#define __emulu(a,b) ((unsigned long long)(unsigned)(a)*(unsigned)(b))

template<class A,class B> struct vp_dep{typedef A type;};
#include <cstdio>
#include <cstdarg>
#include <cerrno>
inline int sprintf_s(char*b,size_t n,const char*f,...){va_list a;va_start(a,f);int r=vsnprintf(b,n,f,a);va_end(a);return r;}
template<size_t N,class...A> inline int sprintf_s(char(&b)[N],const char*f,A...a){return snprintf(b,N,f,a...);}
inline int strcpy_s(char*b,size_t n,const char*s){ if(strlen(s)+1>n){ if(n)b[0]=0; return ERANGE;} strcpy(b,s); return 0;}
typedef int errno_t;
inline int fopen_s(FILE**f,const char*n,const char*m){*f=fopen(n,m); return *f?0:errno;}
inline size_t fread_s(void*b,size_t bs,size_t es,size_t c,FILE*f){ if(es&&c>bs/es) {return 0;} return fread(b,es,c,f);}
inline int rand_s(unsigned*p){ static std::atomic<unsigned> s{12345}; *p=s.fetch_add(2654435761u)*747796405u; return 0;}
#define sscanf_s sscanf
#define _ftelli64 ftell
#define _fseeki64 fseek
