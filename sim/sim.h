// Deterministic simulator: shared declarations.
#pragma once
#include "api.h"
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cwchar>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
enum DT { NullT, ObjectT, BooleanT, CharT, SByteT, ByteT, Int16T, UInt16T, Int32T, UInt32T, Int64T, UInt64T, SingleT, DoubleT, DecimalT, DateTimeT, TimeSpanT, StringT, DT_N };
extern const int DTSize[DT_N];
extern const char* const opNames[OP_COUNT];
extern const char* const opSigs[OP_COUNT];

struct Rng {                                       // splitmix64: every random choice of a seed comes from here
  uint64_t s; explicit Rng(uint64_t x):s(x*0x9E3779B97F4A7C15ull+0x1234567) { next(); next(); }
  uint64_t next(){ uint64_t z=(s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
  int64_t below(int64_t n){ return n<=0?0:(int64_t)(next()%(uint64_t)n); }
  int64_t range(int64_t a,int64_t b){ return a+below(b-a+1); }
  bool chance(int pct){ return below(100)<pct; }
  template<class T> const T& pick(const std::vector<T>& v){ return v[below((int64_t)v.size())]; }
};

// One step of a plan. t: 'D' direct call by the host, 'R' run begins, 'P' statement of the running program, 'E' program returns, 'H' host action.
enum HostAct { H_CLKSET, H_CLKADV, H_CLKJUMP, H_CLKSTEP, H_TZ, H_OUT, H_PRINT, H_FLUSH, H_BUFW, H_GLOBW, H_GLOBD, H_GARB, H_RUNS, H_COUNT };
extern const char* const hostNames[H_COUNT];
struct Step { char t='D'; Op op{}; int out=-1; int h=0; int64_t ha[4]{}; };
// A POSIX rule (has: with daylight saving), preceded by explicit changes if tr is not empty (those zones come from a zone file)
struct Zone { int64_t std=0,dst=0; int has=0; int sm=0,sw=0,sd=0; int64_t st=0; int em=0,ew=0,ed=0; int64_t et=0; struct Tr { int64_t at,off; int dst; }; int64_t first=0; std::vector<Tr> tr;
  std::string rule() const; std::string tz() const; std::string file() const; std::vector<int64_t> offsets() const; };
struct Plan {
  std::string prop, variant; uint64_t seed=0;
  std::map<std::string,int64_t> cfg;
  std::vector<std::wstring> lits; std::vector<int64_t> bufs; std::vector<Zone> zones; std::vector<Step> steps;
  int64_t get(const char* k,int64_t d=0) const { auto i=cfg.find(k); return i==cfg.end()?d:i->second; }
  std::string print() const; static bool parse(const std::string&,Plan&);
};
std::string describeStep(const Step&);
static const int64_t SLOT=0x5A00000000000000ll;     // value argument meaning "what slot i recorded"

// ---- results shared between the processes of one worker
struct Rec { int32_t step, code, kind; uint64_t hash; };
struct Shared {
  int state;            // 0 running, 1 held, 2 violation, 3 harness error
  int step, code;       // progress
  char cls[160], msg[6000];
  uint64_t logHash; int nontrivial; uint32_t execs;
  int64_t aux[16];      // scenario-specific results of an execution
  uint32_t nrec; Rec rec[60000];
  uint32_t outLen; char out[400000];
};
enum FaultKind { FK_NEW_POOL, FK_NEW_HEAP, FK_MALLOC, FK_SETUP_MALLOC, FK_REAL_EXHAUST, FK_EXC_ESCAPE, FK_EXC_CAUGHT, FK_FOREIGN, FK_OOM_ESCAPE, FK_OUT_FULL, FK_OUT_CLOSED, FK_OUT_SHORT, FK_OUT_BLOCKED,
  FK_CLK_BACK, FK_CLK_FWD, FK_CLK_STALL, FK_CLK_MIDREAD, FK_TZ, FK_GARBAGE, FK_HOSTWRITE, FK_UNENC, FK_COUNT };
extern const char* const faultNames[FK_COUNT];
struct Global {         // totals of the whole check, in shared memory
  std::atomic<uint64_t> seeds, execs, steps, ops, nontriv, detPairs, runs, refusals, simNs, distinct, states;
  std::atomic<uint64_t> faults[FK_COUNT], kinds[8], opCount[256];
  std::atomic<int> stop;
  std::atomic<uint64_t> bitmap[1<<16];            // 4M bits: distinct situations
  std::atomic<uint64_t> hashes[1<<20];            // distinct event logs
};
extern Global* G; extern Shared* SH; extern volatile uint64_t watchSeq; extern volatile int watchSim;
void feature(uint64_t h);                          // count a distinct situation
inline uint64_t mix(uint64_t a,uint64_t b){ a^=b+0x9E3779B97F4A7C15ull+(a<<6)+(a>>2); a*=0xff51afd7ed558ccdull; return a^(a>>32); }
uint64_t hashBytes(const void*,size_t,uint64_t seed=1469598103934665603ull);
[[noreturn]] void violate(const std::string& cls,const char* fmt,...) __attribute__((format(printf,2,3)));
[[noreturn]] void harness(const char* fmt,...) __attribute__((format(printf,1,2)));
void fault(FaultKind k,uint64_t n=1);

// ---- the simulated world
struct Observer {
  virtual ~Observer(){}
  virtual void before(const Step&,const Op&){}
  virtual void after(const Step&,const Op&,const Res&,bool refused){}
  virtual void host(const Step&){}
  virtual void runBegin(int){}
  virtual void runEnd(int rc,int lastKind){}        // rc 1: an exception came out of Run; lastKind: how the program's last statement ended (K_OK: program returned)
  virtual void clockRead(int64_t){}
};
struct Alloc { size_t n; bool live; bool pool; int run; };
struct World {
  const LibApi* lib=nullptr; const Plan* plan=nullptr; Observer* obs=nullptr;
  bool asan=false; int64_t memSize=0;              // MEMORY_SIZE the variant was built with
  // allocation
  char* pool=nullptr; size_t poolSize=0; bool poolFresh=false; bool inRun=false, inOp=false; int runNo=0;
  int opAllocs=0; bool opRefused=false; int64_t totalAllocs=0; int injStep=-1; int64_t mallocsThisRun=0, mallocsAfterFirst=0; bool poolAsked=false;
  std::map<char*,Alloc> blocks; std::map<char*,int> zeros; std::map<char*,size_t> heap; bool guard=true; int64_t heapLive=0;
  const Op* cur=nullptr; Step* curStep=nullptr; bool failNext=false; bool setupFail=false, stickyOn=false; int opEndKind=K_OK; bool anyRefused=false;
  uint64_t gseed=1; int gmode=1;
  // clock
  int64_t now=0, adv=0, jump=0; std::vector<int64_t> reads; int64_t readStart=0;
  // output
  int outFd=-1; std::string expectBytes; int outMode=0;
  int64_t slots[64]; std::vector<Res> dummy;
  size_t pos=0; uint64_t log=1469598103934665603ull; int doneOps=0;
  std::vector<std::pair<char*,int64_t>> bufMem; std::vector<const wchar_t*> litMem;
  void execute(const Plan&,Observer&);
  void hostStep(const Step&);
  bool poolMode() const { return poolAsked; }
};
extern World W;
bool worldInit(const char* lib,bool asan,int64_t memSize);
std::string readOut();                              // everything the output device accepted so far
std::string wstr(const std::wstring&);              // printable
int64_t zoneOffset(const Zone&,int64_t utcSec,int* isdst=nullptr);

// ---- reference model
struct MObj; typedef std::shared_ptr<MObj> MP;
struct MMem { std::vector<uint8_t> b; };
struct MObj { int kind=0; std::wstring text; int64_t maxcap=0x7fffffff; int type=0; int rank=1; int64_t d[3]{}; int64_t total=0; std::shared_ptr<MMem> mem; std::vector<MP> refs; bool wrapped=false;
  MP str; int64_t pos=-1; int btype=-1; int64_t bits=0; int usr=0; MP other; };   // usr: an object of the program's own class, 1 + what it does; -1: not known
// What an operation must do. exc: must raise a library exception; excToo: may; any: result unspecified; big: too big to succeed; adopt: the new state is read back
struct Exp { bool skip=false, exc=false, excToo=false, any=false, big=false, adopt=false; bool useV=false, useText=false; std::vector<int64_t> v; std::wstring text; std::function<void()> commit; const char* why=""; int adA=-1; int64_t adX=0, grow=0; bool slow=false; std::vector<MP> touch; };   // adA: element adX of array register adA is read back
struct Model {
  MP S[NULLR+1],B[NULLR+1],A[NULLR+1],E[NULLR+1],O[NULLR+1];  // S[NULLR], A[NULLR]: empty, for the calls that take a null reference as that
  std::vector<std::wstring> lits; std::vector<std::shared_ptr<MMem>> bufs; std::shared_ptr<MMem> glob; int64_t globD=0;
  void reset(const Plan&); void forget();
  MP obj(int64_t code) const;
  typedef std::map<MP,std::wstring> Over;           // what builders hold after the program's own ToString methods have run
  int call(const MP&,std::wstring&,Over&) const;    // ToString: 0 gives a text, 1 raises, 2 not known
  void reach(const MP&,std::vector<MP>&) const;     // builders such a call may change
  bool expect(const Op&,Exp&);                      // false: operation not modelled
  void host(const Plan&,const Step&);
};
enum { KS=1, KB=2, KA=4, KE=8, KO=16 };
struct ModelObserver : Observer {                   // compares every operation and every live object with the model
  Model m; const Plan* p; Exp cur; bool modelled=false, watchBufs=false; std::function<bool(int)> focus; int always; int checked=0;
  ModelObserver(const Plan& pl,std::function<bool(int)> f,int alw);
  void before(const Step&,const Op&) override; void after(const Step&,const Op&,const Res&,bool) override; void host(const Step&) override; void runBegin(int) override; void runEnd(int,int) override;
  std::string diff(int kind,int i,std::string& cls); void compareAll(const std::string& when,int kinds,uint64_t adoptMask); void adopt(int kind,int i); void checkBufs(const std::string&);
};
// ---- scenarios
struct Scenario { const char* id; const char* desc; Plan (*gen)(uint64_t seed,int tier); void (*judge)(const Plan&); const char* variants; };
const Scenario* findScenario(const std::string&);
extern const std::vector<Scenario> scenarios;
void runChild(const Plan&,int regionIdx,void (*body)(const Plan&));   // executes body in a forked child with its own Shared region
Shared* region(int i);
