// The simulated world: platform heap, run allocator interposition, clock, output device, host memory; and plan execution.
#include "sim.h"
#include <alloca.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <locale.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
extern "C" { void __asan_poison_memory_region(void const volatile*,size_t) __attribute__((weak)); void __asan_unpoison_memory_region(void const volatile*,size_t) __attribute__((weak)); }
World W; Global* G; Shared* SH;
const int DTSize[DT_N]={0,8,1,4,1,1,2,2,4,4,8,8,4,8,8,8,8,8};
const char* const opNames[OP_COUNT]={
#define OP(n,s) #n,
#include "ops.def"
#undef OP
};
const char* const opSigs[OP_COUNT]={
#define OP(n,s) s,
#include "ops.def"
#undef OP
};
const char* const hostNames[H_COUNT]={"clkset","clkadv","clkjump","clkstep","tz","out","print","flush","bufw","globw","globd","garb","runs"};
const char* const faultNames[FK_COUNT]={"pool_allocation_refused","heap_allocation_refused","platform_malloc_refused","working_memory_refused","real_exhaustion","exception_escaped_run","exception_caught","foreign_exception_escaped",
 "out_of_memory_ended_run","output_device_full","output_descriptor_closed","output_short_write","output_would_block","clock_set_back","clock_jumped_forward","clock_stalled","clock_moved_during_call","zone_changed","residue_refilled","host_wrote_shared_memory","unencodable_character"};
uint64_t hashBytes(const void* p,size_t n,uint64_t h){ const uint8_t* b=(const uint8_t*)p; for(size_t i=0;i<n;++i){ h^=b[i]; h*=1099511628211ull; } return h; }
void feature(uint64_t h){ h=mix(h,77); uint64_t b=h&((1ull<<22)-1); uint64_t bit=1ull<<(b&63); if(!(G->bitmap[b>>6].load(std::memory_order_relaxed)&bit)) if(!(G->bitmap[b>>6].fetch_or(bit)&bit)) G->states++; }
void violate(const std::string& cls,const char* fmt,...){
  va_list ap; va_start(ap,fmt); vsnprintf(SH->msg,sizeof SH->msg,fmt,ap); va_end(ap); snprintf(SH->cls,sizeof SH->cls,"%s",cls.c_str()); SH->state=2; _exit(0);
}
void harness(const char* fmt,...){ va_list ap; va_start(ap,fmt); vsnprintf(SH->msg,sizeof SH->msg,fmt,ap); va_end(ap); SH->state=3; _exit(0); }
void fault(FaultKind k,uint64_t n){ G->faults[k]+=n; }

// ------------------------------------------------------------------ residue
static void fillGarbage(uint8_t* p,size_t n){
  switch(W.gmode){
  case 0: memset(p,0,n); return;
  case 2: memset(p,0xFF,n); return;
  case 3: memset(p,0x41,n); return;
  case 4: { int32_t x=7; for(size_t i=0;i+4<=n;i+=4) memcpy(p+i,&x,4); return; }
  case 5: { double x=1234.5; for(size_t i=0;i+8<=n;i+=8) memcpy(p+i,&x,8); return; }
  default: { uint64_t s=W.gseed*0x9E3779B97F4A7C15ull+1; size_t i=0; for(;i+8<=n;i+=8){ s^=s<<13; s^=s>>7; s^=s<<17; memcpy(p+i,&s,8); } for(;i<n;++i) p[i]=(uint8_t)(s>>(i&7)*8); return; } }
}
static void __attribute__((noinline)) h_dirty(){
  size_t n=12288; volatile uint8_t* p=(volatile uint8_t*)alloca(n);
  fillGarbage((uint8_t*)p,n); __asm__ volatile("" :: "r"(p) : "memory");
  static const int left[]={0,ERANGE,EINVAL,ENOMEM,EAGAIN,EINTR,EILSEQ}; errno=W.gmode==0?0:W.gmode==2?ERANGE:W.gmode>2?EINVAL:left[W.gseed%7];      // what earlier calls left in errno
}
static void h_residue(void* p,size_t n){ fillGarbage((uint8_t*)p,n); }
// ------------------------------------------------------------------ platform heap
static const size_t MLIMIT=64u<<20;
static void* h_malloc(size_t n){
  World& w=W; bool setup=w.inRun&&!w.inOp;
  if(w.inRun){ if(w.poolAsked) w.mallocsAfterFirst++; w.mallocsThisRun++; }
  bool refuse=n>MLIMIT; if(w.failNext){ refuse=true; }
  if(setup&&w.setupFail){ refuse=true; fault(FK_SETUP_MALLOC); }
  if(!w.inOp&&!w.inRun) ; 
  if(refuse){ w.opRefused=true; w.anyRefused=true; G->refusals++; errno=ENOMEM; return nullptr; }
  char* p;
  if(w.asan){ p=(char*)malloc(n); if(!p) harness("simulator out of memory"); fillGarbage((uint8_t*)p,n); }
  else { char* q=(char*)malloc(n+48); if(!q) harness("simulator out of memory"); memset(q,0x5C,24); memcpy(q,&n,8); p=q+32; memset(q+8,0x5C,24); fillGarbage((uint8_t*)p,n); memset(p+n,0x5C,16); }
  w.heap[p]=n; w.heapLive+=n;
  if(setup&&!w.pool){ w.pool=p; w.poolSize=n; w.poolAsked=true; w.poolFresh=true; }
  return p;
}
static void checkCanary(char* p,size_t n){ if(W.asan) return; for(int i=8;i<32;++i) if((uint8_t)(p-32)[i]!=0x5C) violate("heap-corruption","memory before a platform block of %zu bytes was overwritten",n); for(int i=0;i<16;++i) if((uint8_t)p[n+i]!=0x5C) violate("heap-corruption","memory after a platform block of %zu bytes was overwritten",n); }
static void h_free(void* v){
  if(!v) return; char* p=(char*)v; auto it=W.heap.find(p);
  if(it==W.heap.end()) violate("bad-free","the library returned to the platform memory it did not get from it, or returned it twice");
  checkCanary(p,it->second); if(p==W.pool){ W.pool=nullptr; W.poolAsked=false; }
  W.heapLive-=it->second; size_t n=it->second; W.heap.erase(it); if(W.asan) free(p); else { memset(p,0xDD,n); free(p-32); }
}
static void* h_calloc(size_t a,size_t b){ if(b&&a>SIZE_MAX/b) return nullptr; void* p=h_malloc(a*b); if(p) memset(p,0,a*b); return p; }
static void* h_realloc(void* p,size_t n){ if(!p) return h_malloc(n); auto it=W.heap.find((char*)p); if(it==W.heap.end()) violate("bad-free","realloc of foreign memory"); size_t o=it->second; void* q=h_malloc(n); if(!q) return nullptr; memcpy(q,p,o<n?o:n); h_free(p); return q; }
// ------------------------------------------------------------------ run allocator
static inline uint8_t* shadow(const void* p){ return (uint8_t*)(((uintptr_t)p>>3)+0x7fff8000ull); }
static std::vector<uint8_t> savedShadow;
static void rawCopy(void* d,const void* s,size_t n){ __asm__ volatile("rep movsb":"+D"(d),"+S"(s),"+c"(n)::"memory"); }   // not intercepted
static bool checkAlloc(){ return W.plan&&W.plan->get("allocchk",0)!=0; }
static void* h_new(size_t n,void* (*real)(size_t)){
  World& w=W; w.opAllocs++; w.totalAllocs++; bool inj=false;
  const Op* o=w.cur;
  if(o&&o->failAt>0&&(w.opAllocs==o->failAt||(o->failSticky&&w.opAllocs>o->failAt))) inj=true;
  int64_t gf=w.plan->get("failAll",0); if(gf>0){ if(w.totalAllocs==gf){ inj=true; if(w.plan->get("failAllSticky",0)) w.stickyOn=true; } else if(w.stickyOn) inj=true; }
  if(inj&&w.injStep<0) w.injStep=SH->step;
  bool pm=w.pool!=nullptr; size_t ask=n; bool grow=w.guard&&w.asan&&pm&&n<(1u<<30); if(grow) ask=n+32;
  bool shad=w.asan&&pm; size_t sb=w.poolSize>>3;
  if(shad){ savedShadow.resize(sb); rawCopy(savedShadow.data(),shadow(w.pool),sb); __asan_unpoison_memory_region(w.pool,w.poolSize); }
  if(inj){ if(pm) ask=0x7ffffff0; else w.failNext=true; fault(pm?FK_NEW_POOL:FK_NEW_HEAP); }
  void* v=nullptr; bool threw=false; size_t heapBefore=w.heap.size();
  try { v=real(ask); } catch(...) { threw=true; w.failNext=false; w.opRefused=true; w.anyRefused=true; G->refusals++; if(shad) rawCopy(shadow(w.pool),savedShadow.data(),sb); throw; }
  (void)threw; w.failNext=false;
  bool notZero=false; size_t nzAt=0; if(v&&checkAlloc()&&(!pm||((char*)v>=w.pool&&(char*)v+n<=w.pool+w.poolSize))) for(size_t i=0;i<n;++i) if(((volatile char*)v)[i]){ notZero=true; nzAt=i; break; }   // while the pool is readable
  if(shad){ if(w.poolFresh){ __asan_poison_memory_region(w.pool,w.poolSize); } else rawCopy(shadow(w.pool),savedShadow.data(),sb); }
  w.poolFresh=false;
  if(!v){ w.opRefused=true; w.anyRefused=true; G->refusals++; if(!inj) fault(FK_REAL_EXHAUST); if(inj&&0) (void)heapBefore; 
    if(checkAlloc()&&!inj&&pm){ // refused: could the budget not hold it?
      char* end=w.pool; for(auto& b:w.blocks) if(b.second.pool) end=std::max(end,b.first+b.second.n);
      uint64_t used=(uint64_t)(end-w.pool+7)&~7ull; if(n<=(size_t)w.memSize&&used+((n+7)&~(size_t)7)<=(uint64_t)w.memSize) violate("refused-early","a request of %zu bytes was refused although only %llu of the %lld bytes of the budget were handed out",n,(unsigned long long)used,(long long)w.memSize); }
    if(checkAlloc()&&!inj&&!pm&&n<=MLIMIT) violate("refused-early","before the first run a request of %zu bytes was refused although the platform did not refuse",n);
    return nullptr; }
  if(inj) { // the real allocator granted an impossible request
    if(checkAlloc()) violate("granted-too-much","a request of %zu bytes was granted",ask); else harness("refusal could not be injected"); }
  char* p=(char*)v;
  if(checkAlloc()){
    if((uintptr_t)p%8) violate("misaligned","block of %zu bytes at an address that is %d modulo 8",n,(int)((uintptr_t)p%8));
    if(pm&&(p<w.pool||n>w.poolSize||p+n>w.pool+w.memSize)) { bool heapBlk=w.heap.count(p)!=0; violate("outside-budget","block of %zu bytes at offset %lld ends beyond the budget of %lld bytes%s",n,(long long)(p-w.pool),(long long)w.memSize,heapBlk?" (from the platform heap)":""); }
    if(!pm){ auto it=w.heap.upper_bound(p); if(it==w.heap.begin()) violate("outside-budget","block of %zu bytes is not platform memory",n); --it; if(p<it->first||p+n>it->first+it->second) violate("outside-budget","a request of %zu bytes got only %lld bytes of platform memory",n,(long long)(it->first+it->second-p)); }
    if(notZero) violate("not-zeroed","byte %zu of a block of %zu bytes was not zero when handed out",nzAt,n);
    if(n) for(auto it=w.blocks.begin();it!=w.blocks.end();++it){ auto& b=*it; if(!b.second.pool&&!b.second.live) continue; if(b.second.pool!=pm) continue; if(b.first<p+n&&p<b.first+b.second.n) violate("overlap","block of %zu bytes shares memory with a block of %zu bytes handed out before in this run%s",n,b.second.n,b.second.live?"":" (deleted since)"); }
  }
  if(shad&&p>=w.pool&&p+n<=w.pool+w.poolSize) __asan_unpoison_memory_region(p,n);
  if(n==0&&pm){ w.zeros[p]++; return v; }          // an empty block has no byte of its own: its address may be that of the next block
  w.blocks[p]=Alloc{n,true,pm,w.runNo};
  return v;
}
static void h_delete(void* v,void (*real)(void*)){
  World& w=W; if(!v){ real(v); return; }
  char* p=(char*)v; auto zi=w.zeros.find(p); if(zi!=w.zeros.end()&&zi->second>0){ zi->second--; real(v); return; }
  auto it=w.blocks.find(p);
  if(it==w.blocks.end()) { bool buf=false; for(auto& b:w.bufMem) if(p>=b.first-64&&p<=b.first+b.second) buf=true; char* ad=(char*)w.lib->arrayData(); if(ad&&p>=ad&&p<ad+16) buf=true;
    violate("bad-free",buf?"memory owned by the platform was released by the library":"memory that was never handed out was released"); }
  if(!it->second.live) violate("bad-free","a block was released twice");
  bool pool=it->second.pool; size_t n=it->second.n;
  if(pool){ real(v); it->second.live=false; if(w.asan&&w.pool&&p>=w.pool&&p+n<=w.pool+w.poolSize) __asan_poison_memory_region(p,n); }
  else { bool was=w.heap.count(p)!=0; it->second.live=false; real(v); if(was&&w.heap.count(p)) { /* kept by the library: memory of before the first run */ } w.blocks.erase(p); }
}
// ------------------------------------------------------------------ clock
static int64_t h_now(int which){
  World& w=W; (void)which; int64_t v=w.now; w.reads.push_back(v); if(w.obs) w.obs->clockRead(v);
  if(w.reads.size()>1&&(w.adv||w.jump)) fault(FK_CLK_MIDREAD);
  if(w.jump){ fault(w.jump<0?FK_CLK_BACK:FK_CLK_FWD); int64_t t; if(!__builtin_add_overflow(w.now,w.jump,&t)) w.now=t; w.jump=0; } else { int64_t t; if(!__builtin_add_overflow(w.now,w.adv,&t)) w.now=t; }
  if(w.adv==0) fault(FK_CLK_STALL); G->simNs+=(uint64_t)(w.adv>0?w.adv:0);
  return v;
}
// ------------------------------------------------------------------ program pull
static Op resolved;
static void resolve(const Step& s,Op& o){ o=s.op; const char* sig=opSigs[o.code]; for(int i=0;sig[i];++i) if((sig[i]=='u'||sig[i]=='l')&&(((uint64_t)o.a[i])>>32)==((uint64_t)SLOT>>32)) o.a[i]=W.slots[o.a[i]&63]; }
static bool emptyRun=false; static bool nextCalled=false;
static int h_next(Op* o){
  World& w=W; nextCalled=true; if(emptyRun) return 0;
  if(w.opEndKind!=K_OK) violate("continued","the program went on after its statement %s had ended with an exception that it did not catch",opNames[SH->code]);
  while(w.pos<w.plan->steps.size()){
    const Step& s=w.plan->steps[w.pos];
    if(s.t=='E') return 0;
    if(s.t=='R') return 0;                            // a run inside a run: treat as the program's end
    SH->step=(int)w.pos; ++w.pos;
    if(s.t=='H'){ w.hostStep(s); continue; }
    w.curStep=const_cast<Step*>(&s); resolve(s,resolved); *o=resolved; return 1;
  }
  return 0;
}
static void h_begin(const Op* o){
  watchSim=1; watchSeq++; World& w=W; SH->code=o->code; w.cur=o; w.opAllocs=0; w.opRefused=false; w.reads.clear(); w.readStart=w.now; w.opEndKind=K_ESCAPED;
  w.obs->before(*w.curStep,*o); w.inOp=true; w.cur=o; w.opAllocs=0; w.opRefused=false; w.opEndKind=K_ESCAPED; watchSeq++; watchSim=0;
}
static void logRes(const Op* o,const Res* r){
  World& w=W; uint64_t h=hashBytes(r->v,sizeof(int64_t)*r->nv,(uint64_t)r->kind*31+r->nv); if(r->hasText) h=hashBytes(r->text,sizeof(wchar_t)*(r->textLen<MAXTEXT?r->textLen:MAXTEXT-1),h); h=hashBytes(r->exc,strlen(r->exc),h);
  if(SH->nrec<sizeof SH->rec/sizeof SH->rec[0]) SH->rec[SH->nrec++]=Rec{SH->step,o->code,r->kind,h};
  w.log=mix(w.log,h*131+o->code);
}
static void h_done(const Op* o,const Res* r){
  watchSeq++; watchSim=1; World& w=W; w.inOp=false; w.cur=nullptr; w.doneOps++; G->ops++; G->kinds[r->kind]++; G->opCount[o->code]++;
  bool direct=w.curStep->t=='D'; bool escape=!direct&&(r->kind==K_OOM||r->kind==K_FOREIGN||(r->kind==K_EXC&&!o->caught));
  w.opEndKind=escape?r->kind:K_OK;
  if(r->kind==K_EXC) fault(escape?FK_EXC_ESCAPE:FK_EXC_CAUGHT); if(escape&&r->kind==K_FOREIGN) fault(FK_FOREIGN); if(escape&&r->kind==K_OOM) fault(FK_OOM_ESCAPE);
  if(r->kind!=K_SKIP) feature(mix((uint64_t)o->code*16+r->kind,(w.pool?2:0)+(w.opRefused?1:0)));
  logRes(o,r);
  if(w.curStep->out>=0&&r->kind==K_OK&&r->nv>0) w.slots[w.curStep->out&63]=r->v[0];
  w.obs->after(*w.curStep,*o,*r,w.opRefused);
  watchSeq++; watchSim=0;
}
static const wchar_t emptyLit[1]={0};
static const wchar_t* h_lit(int i){ if(i<0||i>=(int)W.litMem.size()) return emptyLit; return W.litMem[i]; }
static void* h_buf(int i,int64_t* n){ if(W.bufMem.empty()) { *n=0; return nullptr; } auto& b=W.bufMem[(size_t)i%W.bufMem.size()]; *n=b.second; return b.first; }
static void* h_scratch(size_t n){ if(W.asan) return malloc(n); char* q=(char*)malloc(n+64); memcpy(q,&n,8); memset(q+8,0x5C,24); memset(q+32+n,0x5C,32); return q+32; }
static void h_scratchFree(void* v){ if(W.asan){ free(v); return; } char* q=(char*)v-32; size_t n; memcpy(&n,q,8); for(int i=0;i<32;++i) if((i>=8&&(uint8_t)q[i]!=0x5C)||(uint8_t)q[32+n+i]!=0x5C) violate("overrun","memory outside a buffer of %zu bytes passed to the library was overwritten",n); free(q); }
static const HostApi host={h_malloc,h_free,h_calloc,h_realloc,h_new,h_delete,h_now,h_next,h_begin,h_done,h_lit,h_buf,h_scratch,h_scratchFree,h_dirty,h_residue};

bool worldInit(const char* so,bool asan,int64_t memSize){
  W.asan=asan; W.memSize=memSize;
  void* d=dlopen(so,RTLD_NOW|RTLD_LOCAL); if(!d){ fprintf(stderr,"dlopen: %s\n",dlerror()); return false; }
  ad_entry_t e=(ad_entry_t)dlsym(d,"ad_entry"); if(!e) return false; W.lib=e(); return true;
}
// ------------------------------------------------------------------ output device
static int fullFd=-1,pipeFd[2]={-1,-1}; static size_t pipeFill=0;
std::string readOut(){ std::string s; off_t n=lseek(W.outFd,0,SEEK_END); s.resize((size_t)n); if(n&&pread(W.outFd,&s[0],(size_t)n,0)!=n) harness("cannot read the output back"); return s; }
static void limitSize(rlim_t n){ struct rlimit r; getrlimit(RLIMIT_FSIZE,&r); r.rlim_cur=n; setrlimit(RLIMIT_FSIZE,&r); }
static void setOutput(int mode,int64_t arg){
  if(W.outMode==0) fflush(stdout);
  // leave the old mode
  if(W.outMode==3) limitSize(RLIM_INFINITY);
  if(W.outMode==4){ int fl=fcntl(pipeFd[0],F_GETFL); fcntl(pipeFd[0],F_SETFL,fl|O_NONBLOCK); std::string got; char b[4096]; ssize_t k; while((k=read(pipeFd[0],b,sizeof b))>0) got.append(b,k); if(got.size()>pipeFill&&write(W.outFd,got.data()+pipeFill,got.size()-pipeFill)<0) harness("write"); }
  W.outMode=mode;
  switch(mode){
  case 0: dup2(W.outFd,1); fflush(stdout); break;
  case 1: dup2(fullFd,1); break;
  case 2: close(1); break;
  case 3: dup2(W.outFd,1); limitSize((rlim_t)lseek(W.outFd,0,SEEK_END)+(rlim_t)arg); break;
  case 4: { if(pipeFd[0]<0){ if(pipe(pipeFd)) harness("pipe"); pipeFd[0]=fcntl(pipeFd[0],F_DUPFD,200); pipeFd[1]=fcntl(pipeFd[1],F_DUPFD,200); fcntl(pipeFd[1],F_SETPIPE_SZ,4096); fcntl(pipeFd[1],F_SETFL,O_NONBLOCK); }
      char b[4096]; memset(b,'#',sizeof b); pipeFill=(size_t)(4096-(arg<0?0:arg>4096?4096:arg)); size_t left=pipeFill; while(left){ ssize_t k=write(pipeFd[1],b,left); if(k<=0) break; left-=(size_t)k; } pipeFill-=left; dup2(pipeFd[1],1); } break;
  }
}
// zone files are files in memory: nothing is left behind
static std::map<size_t,int> zoneFds;
static void setZone(size_t i){
  const Zone& z=W.plan->zones[i]; if(z.tr.empty()){ setenv("TZ",z.rule().c_str(),1); return; }
  if(!zoneFds.count(i)){ int f=memfd_create("zone",0); int g=fcntl(f,F_DUPFD,220+(int)i); close(f); std::string s=z.file(); if(g<0||write(g,s.data(),s.size())!=(ssize_t)s.size()) harness("zone file"); zoneFds[i]=g; }
  char b[60]; snprintf(b,sizeof b,":/proc/self/fd/%d",zoneFds[i]); setenv("TZ",b,1);
}
void World::hostStep(const Step& s){
  const int64_t* a=s.ha; G->steps++;
  switch(s.h){
  case H_CLKSET: if(a[0]<now) fault(FK_CLK_BACK); now=a[0]; break;
  case H_CLKADV: adv=a[0]; break;
  case H_CLKJUMP: jump=a[0]; break;
  case H_CLKSTEP: if(a[0]<0) fault(FK_CLK_BACK); else { fault(FK_CLK_FWD); G->simNs+=(uint64_t)a[0]; } { int64_t t; if(!__builtin_add_overflow(now,a[0],&t)) now=t; } break;
  case H_TZ: if(a[0]>=0&&a[0]<(int64_t)plan->zones.size()) { setZone((size_t)a[0]); fault(FK_TZ); } break;
  case H_OUT: setOutput((int)a[0],a[1]); break;
  case H_PRINT: printf("host %lld\n",(long long)a[0]); break;
  case H_FLUSH: fflush(stdout); break;
  case H_BUFW: if(!bufMem.empty()){ auto& b=bufMem[(size_t)a[0]%bufMem.size()]; Rng r((uint64_t)a[3]); for(int64_t i=0;i<a[2];++i){ int64_t o=a[1]+i; uint8_t v=(uint8_t)r.next(); if(o>=0&&o<b.second) b.first[o]=(char)v; } fault(FK_HOSTWRITE); } break;
  case H_GLOBW: { int32_t* d=lib->arrayData(); if(d&&a[0]>=0&&a[0]<4) d[a[0]]=(int32_t)a[1]; fault(FK_HOSTWRITE); } break;
  case H_GLOBD: { double* d=lib->doubleData(); if(d) memcpy(d,&a[0],8); fault(FK_HOSTWRITE); } break;
  case H_GARB: gseed=(uint64_t)a[0]; gmode=(int)a[1]; fault(FK_GARBAGE); break;
  case H_RUNS: if(!inRun) { emptyRun=true; for(int64_t i=0;i<a[0];++i){ inRun=true; inOp=false; runNo++; mallocsThisRun=0; if(asan&&pool) __asan_unpoison_memory_region(pool,poolSize); poolFresh=true; watchSeq++; watchSim=0; int rc=lib->run(); watchSim=1; inRun=false; if(rc) violate("empty-run","an empty run let an exception through"); for(auto it=blocks.begin();it!=blocks.end();) if(it->second.pool) it=blocks.erase(it); else ++it; } emptyRun=false; lib->forget(); G->runs+=(uint64_t)a[0]; } break;
  }
  obs->host(s);
}
static std::pair<char*,int64_t> guarded(int64_t n,bool ro,const void* init,int64_t at=-1){      // at: where the memory starts, modulo 16; -1: as near to the unreadable page as alignment to 8 allows
  long ps=4096; int64_t r=at<0?(n+7)&~7ll:((n+15)&~15ll)+16-(at&15); int64_t pages=(r+64+ps-1)/ps+1; char* m=(char*)mmap(nullptr,(size_t)(pages*ps),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); if(m==MAP_FAILED) harness("mmap");
  mprotect(m+(pages-1)*ps,(size_t)ps,PROT_NONE); char* p=m+(pages-1)*ps-r; memset(m,0x5C,(size_t)((pages-1)*ps)); if(init) memcpy(p,init,(size_t)n); else memset(p,0,(size_t)n);
  if(ro) mprotect(m,(size_t)((pages-1)*ps),PROT_READ);
  return {p,n};
}
void World::execute(const Plan& pl,Observer& o){
  plan=&pl; obs=&o; SH->nrec=0; SH->outLen=0; SH->nontrivial=0;
  signal(SIGXFSZ,SIG_IGN); signal(SIGPIPE,SIG_IGN);
  if(outFd<0){ int f=memfd_create("out",0); outFd=fcntl(f,F_DUPFD,210); close(f); fcntl(outFd,F_SETFL,O_APPEND|O_RDWR); int g=open("/dev/full",O_WRONLY); fullFd=fcntl(g,F_DUPFD,211); close(g); }
  dup2(outFd,1);
  setlocale(LC_ALL,"C"); if(pl.get("locale")) if(!setlocale(LC_ALL,"C.UTF-8")) setlocale(LC_ALL,"C.utf8");
  setvbuf(stdout,nullptr,pl.get("bufmode")==0?_IOFBF:pl.get("bufmode")==1?_IOLBF:_IONBF,pl.get("bufmode")==2?0:(size_t)pl.get("bufsize",4096));
  if(pl.zones.empty()) setenv("TZ","UTC0",1); else setZone(0);
  now=pl.get("clock",1700000000000000000ll); adv=pl.get("clkadv",0); jump=0; gseed=(uint64_t)pl.get("gseed",1); gmode=(int)pl.get("gmode",1); guard=pl.get("guard",1)!=0; memset(slots,0,sizeof slots);
  for(auto& l:pl.lits) litMem.push_back((const wchar_t*)guarded((int64_t)(l.size()+1)*4,true,l.c_str()).first);
  for(auto n:pl.bufs) bufMem.push_back(guarded(n,false,nullptr,pl.get("bufat",-1)));
  if(!lib->init(&host)) harness("the seams could not be installed");
  static Res res; pos=0;
  while(pos<pl.steps.size()){
    const Step& s=pl.steps[pos]; SH->step=(int)pos; ++pos; G->steps++;
    if(s.t=='H'){ hostStep(s); continue; }
    if(s.t=='E') continue;
    if(s.t=='R'){
      inRun=true; inOp=false; runNo++; mallocsThisRun=0; G->runs++; opEndKind=K_OK; setupFail=s.op.failAt>0; curStep=const_cast<Step*>(&s); nextCalled=false; opRefused=false;
      lib->forget(); zeros.clear(); for(auto it=blocks.begin();it!=blocks.end();) if(it->second.pool) it=blocks.erase(it); else ++it;
      if(asan&&pool) __asan_unpoison_memory_region(pool,poolSize);
      poolFresh=true; obs->runBegin(runNo); int before=(int)pos; (void)before;
      watchSeq++; watchSim=0; int rc=lib->run(); watchSeq++; watchSim=1; inRun=false; inOp=false; stickyOn=false; cur=nullptr; int k=opEndKind; if(!nextCalled) k=K_OOM; setupFail=false;
      SH->code=-1; log=mix(log,(uint64_t)(rc*16+k)+0x9000);
      if(k!=K_OK){ while(pos<pl.steps.size()&&pl.steps[pos].t!='E'&&pl.steps[pos].t!='R') ++pos; }
      obs->runEnd(rc,k); lib->forget();
      continue;
    }
    curStep=const_cast<Step*>(&s); Op op; resolve(s,op); lib->exec(&op,&res); watchSim=1; stickyOn=false; if(opEndKind==K_ESCAPED) violate("escaped","an exception came out of a call in an unexpected way");
  }
  if(outMode) setOutput(0,0);
  fflush(stdout);
  for(auto& h:heap) checkCanary(h.first,h.second);
  for(auto& b:bufMem){ for(int i=1;i<=64;++i) if((uint8_t)b.first[-i]!=0x5C) violate("platform-overrun","memory %d bytes before an exposed platform array was overwritten",i); for(int64_t i=b.second;((uintptr_t)(b.first+i)&4095)!=0;++i) if((uint8_t)b.first[i]!=0x5C) violate("platform-overrun","memory after an exposed platform array was overwritten"); }
  SH->logHash=log;
}
// ------------------------------------------------------------------ zones
static int64_t days(int64_t y,int m,int d){ y-=m<=2; int64_t era=(y>=0?y:y-399)/400; unsigned yoe=(unsigned)(y-era*400); unsigned doy=(153*(m+(m>2?-3:9))+2)/5+d-1; unsigned doe=yoe*365+yoe/4-yoe/100+doy; return era*146097+(int64_t)doe-719468; }
static int64_t yearOf(int64_t sec){ int64_t z=(sec>=0?sec:sec-86399)/86400+719468; int64_t era=(z>=0?z:z-146096)/146097; unsigned doe=(unsigned)(z-era*146097); unsigned yoe=(doe-doe/1460+doe/36524-doe/146096)/365; int64_t y=(int64_t)yoe+era*400; unsigned doy=doe-(365*yoe+yoe/4-yoe/100); unsigned mp=(5*doy+2)/153; return y+(mp<10?0:1); }
static int64_t ruleDay(int64_t y,int m,int w,int d){ int64_t f=days(y,m,1); int dow=(int)(((f+4)%7+7)%7); int64_t r=f+((d-dow+7)%7)+(w-1)*7; int64_t nx=m==12?days(y+1,1,1):days(y,m+1,1); while(r>=nx) r-=7; return r; }
int64_t zoneOffset(const Zone& z,int64_t utc,int* isdst){
  if(!z.tr.empty()&&(utc<z.tr.back().at||!z.has)){ int64_t off=z.first; int d=0; for(auto& t:z.tr) if(utc>=t.at){ off=t.off; d=t.dst; } if(isdst) *isdst=d; return off; }
  int d=0; if(z.has){ int64_t y=yearOf(utc); int64_t s=ruleDay(y,z.sm,z.sw,z.sd)*86400+z.st-z.std, e=ruleDay(y,z.em,z.ew,z.ed)*86400+z.et-z.dst; d=s<e?(utc>=s&&utc<e):(utc>=s||utc<e); }
  if(isdst) *isdst=d; return d?z.dst:z.std;
}
std::vector<int64_t> Zone::offsets() const { std::vector<int64_t> v; auto add=[&](int64_t o){ for(auto x:v) if(x==o) return; v.push_back(o); }; if(tr.empty()||has) add(std); if(has) add(dst); if(!tr.empty()) add(first); for(auto& t:tr) add(t.off); return v; }
std::string Zone::file() const {    // TZif, version 2
  std::string s; auto be=[&](int64_t v,int n){ for(int i=n-1;i>=0;--i) s+=(char)(v>>(8*i)); };
  auto head=[&](int64_t times,int64_t types,int64_t chars){ s+="TZif2"; s.append(15,'\0'); be(0,4); be(0,4); be(0,4); be(times,4); be(types,4); be(chars,4); };
  head(0,1,4); be(0,4); be(0,1); be(0,1); s.append("UTC\0",4);
  head((int64_t)tr.size(),(int64_t)tr.size()+1,8); for(auto& t:tr) be(t.at,8); for(size_t i=0;i<tr.size();++i) be((int64_t)i+1,1); be(first,4); be(0,1); be(0,1); for(auto& t:tr){ be(t.off,4); be(t.dst,1); be(t.dst?4:0,1); } s.append("AAA\0BBB\0",8);
  s+="\n"+(has?rule():std::string())+"\n"; return s;
}
static std::string hms(int64_t s,bool off){ char b[40]; int64_t a=s<0?-s:s; snprintf(b,sizeof b,"%s%lld:%02lld:%02lld",s<0?"-":"",(long long)(a/3600),(long long)(a/60%60),(long long)(a%60)); (void)off; return b; }
std::string Zone::rule() const { std::string r="AAA"+hms(-std,true); if(has){ char b[80]; r+="BBB"+hms(-dst,true); snprintf(b,sizeof b,",M%d.%d.%d/%s,M%d.%d.%d/",sm,sw,sd,hms(st,false).c_str(),em,ew,ed); r+=b; r+=hms(et,false); } return r; }
std::string Zone::tz() const { if(tr.empty()) return rule(); std::string r="file zone "+hms(first,false); char b[80]; for(auto& t:tr){ snprintf(b,sizeof b,", from %lld ",(long long)t.at); r+=b+hms(t.off,false)+(t.dst?" dst":""); } return r+(has?", then "+rule():std::string()); }
