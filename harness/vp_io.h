// small helpers shared by the harnesses: reading scripts, printing ndjson
#pragma once
#include <cstdio>
#include <cmath>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <fstream>
namespace vp{
 template<class T> long enc(T v){ double d=(double)v; if(d!=d) return 77777; if(std::isinf(d)) return d>0?77778:-77778;
   if(std::fabs(d)>1e6) return 55555; if(d!=std::floor(d)) return 66666; return (long)d; }
 template<class T> double dec(long v){ return v==77777? std::nan("") : (double)v; }
 struct J{ std::string s; bool first=true; 
  J(){ s="{"; }
  J& k(const char*n){ if(!first) s+=","; first=false; s+="\""; s+=n; s+="\":"; return *this; }
  J& i(const char*n,long v){ k(n); s+=std::to_string(v); return *this; }
  J& b(const char*n,bool v){ k(n); s+=v?"true":"false"; return *this; }
  J& str(const char*n,const std::string&v){ k(n); s+="\""; for(char c:v){ if(c=='"'||c=='\\') s+='\\'; if((unsigned char)c<32) {s+=' ';continue;} s+=c;} s+="\""; return *this; }
  J& raw(const char*n,const std::string&v){ k(n); s+=v; return *this; }
  template<class V> J& arr(const char*n,const V&v){ k(n); s+="["; bool f=true; for(auto e:v){ if(!f) s+=","; f=false; s+=std::to_string((long)e);} s+="]"; return *this; }
  std::string end(){ return s+"}"; }
 };
 inline FILE*& out(){ static FILE*f=stdout; return f; }
 inline void emit(const std::string&s){ fputs(s.c_str(),out()); fputc('\n',out()); fflush(out()); }
 template<class V> std::string jarr(const V&v){ std::string s="["; bool f=true; for(auto e:v){ if(!f) s+=","; f=false; s+=std::to_string((long)e);} return s+"]"; }
 inline std::string jlist(const std::vector<std::string>&v){ std::string s="["; bool f=true; for(auto&e:v){ if(!f) s+=","; f=false; s+=e;} return s+"]"; }
}
#include <map>
namespace vp{
 // "op k=v k=v..." script lines; the event repeats the operation and its arguments
 struct Args{ std::string op; std::vector<std::pair<std::string,long>> kv; std::map<std::string,std::vector<long>> vec;
  explicit Args(const std::string&l){ std::istringstream is(l); is>>op; std::string t; while(is>>t){ auto e=t.find('='); std::string k=t.substr(0,e), v=t.substr(e+1);
    if(v.size()&&v[0]=='['){ std::vector<long> r; std::istringstream vs(v.substr(1)); std::string x; while(std::getline(vs,x,',')){ if(x.size()&&x[0]!=']') r.push_back(std::stol(x)); } vec[k]=r; }
    else kv.emplace_back(k,std::stol(v)); } }
  long operator[](const char*k)const{ for(auto&p:kv) if(p.first==k) return p.second; fprintf(stderr,"no argument %s in %s\n",k,op.c_str()); exit(3); }
  bool has(const char*k)const{ for(auto&p:kv) if(p.first==k) return true; return false; }
  const std::vector<long>& v(const char*k)const{ auto i=vec.find(k); if(i==vec.end()){ fprintf(stderr,"no vector %s in %s\n",k,op.c_str()); exit(3);} return i->second; }
  J ev()const{ J j; j.str("op",op); for(auto&p:kv) j.i(p.first.c_str(),p.second); for(auto&p:vec) j.arr(p.first.c_str(),p.second); return j; } };
 template<class F> int drive(int argc,char**argv,F&&f){ std::ifstream in(argv[1]); out()=fopen(argv[2],"w"); std::string l; while(std::getline(in,l)){ if(l.empty()) continue; Args a(l); f(a); } return 0; }
}
