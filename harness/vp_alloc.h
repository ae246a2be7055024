// allocation shim: every aligned allocation the library makes goes through here, is
// filled with a recognisable pattern and counted, so that leaks are observable
#pragma once
#include <cstdlib>
#include <cstring>
#include <atomic>
#include <set>
#include <mutex>
namespace vp{
 inline std::atomic<long> g_live{0}; inline std::atomic<long> g_live_bytes{0};
 inline std::mutex g_mx; inline std::set<void*>& ptrs(){ static std::set<void*>* p=new std::set<void*>; return *p; }
 inline bool g_bad_free=false;
 // failure injection: when >=0, counts down and the allocation that reaches 0 fails
 inline std::atomic<long> g_fail_at{-1};
 inline void* amalloc(size_t n,size_t a){
  if(g_fail_at.load()>=0){ if(g_fail_at.fetch_sub(1)==0) return nullptr; }
  if(a<sizeof(void*)) a=sizeof(void*);
  void*p=nullptr; if(posix_memalign(&p,a,n?n:1)) return nullptr;
  memset(p,0xC3,n); std::lock_guard<std::mutex> g(g_mx); ptrs().insert(p); ++g_live; return p; }
 inline void afree(void*p){ if(!p) return; { std::lock_guard<std::mutex> g(g_mx); if(!ptrs().erase(p)) g_bad_free=true; } --g_live; free(p); }
}
#define _aligned_malloc ::vp::amalloc
#define _aligned_free ::vp::afree
