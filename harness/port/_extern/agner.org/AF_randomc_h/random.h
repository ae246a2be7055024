#pragma once
#include <cstdint>
namespace AFog {
 static constexpr int GEN_ERROR = (int)0x80000000;
 struct CRandomBase {
  uint64_t s;
  CRandomBase(int seed=0){ RandomInit(seed);}
  void RandomInit(int seed){ s = ((uint64_t)(uint32_t)seed+0x51ull)*0xD1342543DE82EF95ull; s ^= s>>29; s *= 0xBF58476D1CE4E5B9ull; s ^= s>>32; for(int i=0;i<4;++i) BRandom(); }
  void RandomInitByArray(int const seeds[], int NumSeeds){ s=0x853c49e6748fea9bull; for(int i=0;i<NumSeeds;++i){ s^=(uint32_t)seeds[i]; BRandom(); BRandom(); } }
  uint32_t BRandom(){ s += 0x9E3779B97F4A7C15ull; uint64_t z=s; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return (uint32_t)((z^(z>>31))>>32);}
  double Random(){ return BRandom()*(1./4294967296.);}
  float FRandom(){ return (BRandom()>>8)*(1.f/16777216.f);}
  int IRandom(int mn,int mx){ if(mx<mn) return GEN_ERROR; return mn+(int)(((uint64_t)BRandom()*((uint64_t)((int64_t)mx-mn)+1))>>32);}
  int IRandomX(int mn,int mx){ return IRandom(mn,mx);}
  template<typename T> T FPRandom();
 };
 template<> inline double CRandomBase::FPRandom<double>(){return Random();}
 template<> inline float CRandomBase::FPRandom<float>(){return FRandom();}
 struct CRandomSFMT0:CRandomBase{using CRandomBase::CRandomBase;};
 struct CRandomSFMT1:CRandomBase{using CRandomBase::CRandomBase;};
 struct CRandomMersenne:CRandomBase{using CRandomBase::CRandomBase;};
 struct CRandomMother:CRandomBase{using CRandomBase::CRandomBase;};
 template<typename T> struct has_FRandom{static constexpr bool value=true;};
}
