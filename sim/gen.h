// Seeded plan generation shared by the scenarios.
#pragma once
#include "sim.h"
struct OpW { int op, w; };
std::vector<OpW> weights(const char* spec);        // "B_NEW 2 B_APP_C 5 ..."
struct Gen {
  Rng r; Plan p; Model m; int nreg=5; bool wild=false, ascii=false, newlineOk=true; int maxText=3000; char cur='D'; int faultPctD=8, faultPctP=2, uncaughtPct=6; int skipPct=2, nullPct=4; bool big=false, huge=false, hugeArr=false, allTypes=false;   // big: now and then, texts and arrays of thousands of elements
 
  std::vector<OpW> ops; int opTotal=0; std::function<void(Gen&)> setup; std::vector<int> arrTypes; int textKinds=0; bool noFaults=false;
  Gen(const char* prop,uint64_t seed);
  void use(const char* spec){ ops=weights(spec); opTotal=0; for(auto& o:ops) opTotal+=o.w; }
  int pickOp(){ int64_t x=r.below(opTotal); for(auto& o:ops){ x-=o.w; if(x<0) return o.op; } return ops[0].op; }
  wchar_t ch(); std::wstring text(int maxLen); void makeLits(int n,bool numeric=false); int lit(const std::wstring&);
  int64_t idx(int64_t L); int64_t cnt(int64_t rem); int64_t size(int64_t L); int64_t val64(); int64_t dblBits(); int64_t sglBits(); int64_t ticks();
  int live(int kind); int64_t liveObj(); int64_t lenOf(char c,int64_t reg,bool bytes);
  void args(Op& o); void ints(Op& o);
  bool add(Op o,bool faults=true,int out=-1);       // false: rejected
  bool step();                                      // one random operation
  void op(int code,std::initializer_list<int64_t> a,int out=-1);   // a chosen operation, never faulted
  void host(int h,int64_t a=0,int64_t b=0,int64_t c=0,int64_t d=0);
  void beginRun(int setupFail=0); void endRun();
  void shape(int total);                            // segments of direct calls and runs filled with random operations
  void segment(int n);
  Zone zone(); int64_t clockValue();
};
int64_t D(double d);
