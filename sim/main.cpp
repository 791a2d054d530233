// The simulator's executable: seeded search, minimisation, replay.
#include "sim.h"
#include <algorithm>
#include <fcntl.h>
#include <fstream>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#ifdef __SANITIZE_ADDRESS__
static const bool ASAN=true;
extern "C" const char* __asan_default_options(){ return "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:detect_odr_violation=0:exitcode=99:quarantine_size_mb=4:malloc_context_size=6:handle_abort=0:handle_sigfpe=1:handle_sigill=1:detect_container_overflow=0:max_malloc_fill_size=0:symbolize=0:alloc_dealloc_mismatch=0"; }
#else
static const bool ASAN=false;
#endif
extern const std::vector<Scenario> modelScenarios,runScenarios,timeScenarios,wildScenarios;
static const std::vector<const std::vector<Scenario>*> groups={&runScenarios,&timeScenarios,&modelScenarios,&wildScenarios};
const Scenario* findScenario(const std::string& id){ for(auto g:groups) for(auto& s:*g) if(id==s.id) return &s; return nullptr; }
struct Variant { std::string name; bool asan; int64_t mem; const LibApi* lib; };
static std::vector<Variant> variants;
static void useVariant(const Variant& v){ W.lib=v.lib; W.asan=v.asan; W.memSize=v.mem; }
static double nowS(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
// ---- regions
static Shared* regions[8]; static int errFd=-1;
Shared* region(int i){ return regions[i]; }
static void* shared(size_t n){ void* p=mmap(nullptr,n,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); if(p==MAP_FAILED){ perror("mmap"); exit(3); } return p; }
static void makeRegions(){ for(auto& r:regions) r=(Shared*)shared(sizeof(Shared)); int f=memfd_create("err",0); errFd=fcntl(f,F_DUPFD,220); close(f); fcntl(errFd,F_SETFL,O_APPEND|O_RDWR); }
static void clearRegion(Shared* s){ s->state=0; s->step=-1; s->code=-1; s->cls[0]=s->msg[0]=0; s->logHash=0; s->nontrivial=0; s->nrec=0; s->outLen=0; memset(s->aux,0,sizeof s->aux); }
static int cpuLimit=5;
volatile uint64_t watchSeq=0; volatile int watchSim=1;
// once per second of processor time: a call of the library may take cpuLimit of them, the simulator's own work between two calls four times as many
// (it may call accessors of the library), and a whole execution so many that only an oversized plan reaches the end (which is then no verdict)
static void watch(int){
  static uint64_t last=0; static int same=0,total=0; 
  if(watchSeq!=last){ last=watchSeq; same=0; } else ++same;
  if(same>=(watchSim?4*cpuLimit:cpuLimit)){ signal(SIGPROF,SIG_DFL); raise(SIGPROF); sigset_t m; sigemptyset(&m); sigaddset(&m,SIGPROF); sigprocmask(SIG_UNBLOCK,&m,nullptr); }
  if(++total>=10*cpuLimit){ signal(SIGALRM,SIG_DFL); raise(SIGALRM); }
}
static void childSetup(){
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=watch; sa.sa_flags=SA_RESTART|SA_ONSTACK; sigaction(SIGPROF,&sa,nullptr); static char alt[65536]; stack_t ss; memset(&ss,0,sizeof ss); ss.ss_sp=alt; ss.ss_size=sizeof alt; if(!ASAN) sigaltstack(&ss,nullptr);
  dup2(errFd,2); struct itimerval it={{1,0},{1,0}}; setitimer(ITIMER_PROF,&it,nullptr); alarm(240); struct rlimit c={0,0}; setrlimit(RLIMIT_CORE,&c);
  if(!ASAN){ struct rlimit a={3ull<<30,3ull<<30}; setrlimit(RLIMIT_AS,&a); }
}
static std::string opName(int c){ return c>=0&&c<OP_COUNT?opNames[c]:"Run"; }
// puts what an execution that did not report normally did into the region; false: it reported normally
static bool classify(int st,Shared* s){
  if(WIFEXITED(st)&&WEXITSTATUS(st)==0&&s->state!=0) return false;
  std::string err; off_t n=lseek(errFd,0,SEEK_END); if(n>200000) n=200000; err.resize((size_t)n); if(n&&pread(errFd,&err[0],(size_t)n,0)<0) err.clear();
  std::string cls,msg; int code=s->code;
  size_t a=err.find("ERROR: AddressSanitizer: ");
  if(a!=std::string::npos){ size_t b=a+25,e=err.find_first_of(" \n:",b); std::string type=err.substr(b,e-b); if(type=="attempting"||type=="stack-overflow"||type=="SEGV"){} cls="asan:"+type+":"+opName(code); msg="AddressSanitizer: "+err.substr(b,err.find('\n',b)-b); size_t k=err.find(" of size ",b); if(k!=std::string::npos&&k-b<600){ size_t l=err.rfind('\n',k); msg+="; "+err.substr(l+1,std::min<size_t>(err.find('\n',k),k+20)-l-1); } }
  else if(WIFSIGNALED(st)){ int g=WTERMSIG(st); if(g==SIGPROF||g==SIGVTALRM){ cls="hang:"+opName(code); msg="the call did not return within "+std::to_string(cpuLimit)+" s of processor time"; } else if(g==SIGALRM){ s->state=3; snprintf(s->msg,sizeof s->msg,"wall-clock limit"); return true; } else if(g==SIGKILL){ s->state=3; snprintf(s->msg,sizeof s->msg,"killed (memory limit of the sandbox?)"); return true; } else { cls="signal:"+std::to_string(g)+":"+opName(code); msg=std::string("the process was killed by signal ")+std::to_string(g)+" ("+strsignal(g)+")"; if(err.find("terminate called")!=std::string::npos) msg+="; "+err.substr(err.find("terminate called"),100); } }
  else { cls="exit:"+opName(code); msg="the process ended itself with status "+std::to_string(WEXITSTATUS(st)); }
  msg+=" in "+opName(code)+", step "+std::to_string(s->step);
  s->state=2; snprintf(s->cls,sizeof s->cls,"%s",cls.c_str()); snprintf(s->msg,sizeof s->msg,"%s",msg.c_str()); return true;
}
static int waitFor(pid_t p){ int st; while(waitpid(p,&st,0)<0) if(errno!=EINTR) return -1; return st; }
void runChild(const Plan& p,int ri,void (*body)(const Plan&)){
  Shared* r=region(ri); clearRegion(r); if(ftruncate(errFd,0)) {} 
  pid_t c=fork(); if(c<0) harness("fork"); 
  if(c==0){ childSetup(); SH=r; body(p); SH->state=1; _exit(0); }
  int st=waitFor(c); classify(st,r); G->execs++;
  if(r->state==2){ SH->step=r->step; SH->code=r->code; memcpy(SH->cls,r->cls,sizeof r->cls); memcpy(SH->msg,r->msg,sizeof r->msg); SH->nontrivial=r->nontrivial;
    if(p.get("failAll")){ SH->aux[7]=p.get("failAll"); SH->aux[8]=p.get("failAllSticky"); } SH->state=2; _exit(0); }
  if(r->state!=1) harness("inner execution: %s",r->msg);
}
// one execution of a plan; result in region 0
static void execPlan(const Scenario& s,const Plan* plan,uint64_t seed,int tier,const Variant& v){
  Shared* r=regions[0]; clearRegion(r); if(ftruncate(errFd,0)) {}
  pid_t c=fork(); if(c<0){ r->state=3; snprintf(r->msg,sizeof r->msg,"fork failed"); return; }
  if(c==0){ childSetup(); SH=r; useVariant(v); if(plan) s.judge(*plan); else { Plan p=s.gen(seed,tier); p.variant=v.name; s.judge(p); } SH->state=1; _exit(0); }
  int st=waitFor(c); classify(st,r); G->execs++;
}
static Plan genPlan(const Scenario& s,uint64_t seed,int tier,const Variant& v){ SH=regions[7]; useVariant(v); Plan p=s.gen(seed,tier); p.variant=v.name; return p; }
// ---- findings of a search
struct Found { char cls[160]; char msg[1200]; uint64_t seed; int variant; uint64_t count; int64_t fa,fs; };
struct FoundTable { std::atomic<int> lock; int n; Found f[300]; std::atomic<uint64_t> harnessErrors; char harnessMsg[400]; std::atomic<uint64_t> nondet; std::atomic<uint64_t> next; };
static FoundTable* FT;
static void addFound(Shared* s,uint64_t seed,int vi){
  while(FT->lock.exchange(1)) usleep(50); int i=0; for(;i<FT->n;++i) if(!strcmp(FT->f[i].cls,s->cls)) break;
  if(i<300){ if(i==FT->n){ Found& f=FT->f[i]; snprintf(f.cls,sizeof f.cls,"%s",s->cls); snprintf(f.msg,sizeof f.msg,"%s",s->msg); f.seed=seed; f.variant=vi; f.count=0; f.fa=s->aux[7]; f.fs=s->aux[8]; FT->n++; } FT->f[i].count++; }
  FT->lock=0;
}
static std::set<std::string> ignored;                // classes listed as known findings
static uint64_t seedOf(uint64_t base,uint64_t i){ return mix(mix(base,i*2+(ASAN?1:0)),0x5151)&0x3fffffffffffffffull; }
static void worker(const Scenario& s,uint64_t base,int tier,double deadline,bool all,uint64_t maxSeeds,const std::vector<int>& vs){
  makeRegions();
  while(nowS()<deadline&&!G->stop){
    uint64_t i=FT->next++; if(maxSeeds&&i>=maxSeeds) break; uint64_t seed=seedOf(base,i); int vi=vs[i%vs.size()];
    execPlan(s,nullptr,seed,tier,variants[(size_t)vi]); Shared* r=regions[0]; G->seeds++;
    if(r->state==3){ FT->harnessErrors++; snprintf(FT->harnessMsg,sizeof FT->harnessMsg,"seed %llu variant %s: %s",(unsigned long long)seed,variants[(size_t)vi].name.c_str(),r->msg); continue; }
    if(r->state==2){ if(ignored.count(r->cls)) { G->nontriv++; addFound(r,seed,vi); continue; } addFound(r,seed,vi); if(!all){ G->stop=1; break; } continue; }
    if(r->nontrivial>0) G->nontriv++;
    uint64_t h=r->logHash|1; for(uint64_t k=mix(h,3)&((1<<20)-1),n=0;n<64;++n,k=(k+1)&((1<<20)-1)){ uint64_t z=0; if(G->hashes[k].load()==h) break; if(G->hashes[k].compare_exchange_strong(z,h)){ G->distinct++; break; } if(z==h) break; }
    if(i%32==7){ uint64_t h1=r->logHash; execPlan(s,nullptr,seed,tier,variants[(size_t)vi]); G->detPairs++; if(r->state!=1||r->logHash!=h1){ FT->nondet++; snprintf(FT->harnessMsg,sizeof FT->harnessMsg,"seed %llu variant %s is not repeatable",(unsigned long long)seed,variants[(size_t)vi].name.c_str()); } }
  }
  _exit(0);
}
// ---- minimisation
static void normalise(Plan& p){
  std::vector<Step> o; bool in=false;
  for(auto& s:p.steps){ if(s.t=='R'){ if(in){ Step e; e.t='E'; o.push_back(e); } in=true; o.push_back(s); } else if(s.t=='E'){ if(in) o.push_back(s); in=false; } else if(s.t=='P'){ if(in) o.push_back(s); } else if(s.t=='D'){ if(!in) o.push_back(s); } else o.push_back(s); }
  p.steps=o;
}
static bool reproduces(const Scenario& s,const Plan& p,const Variant& v,const std::string& cls){ execPlan(s,&p,0,0,v); return regions[0]->state==2&&cls==regions[0]->cls; }
static Plan minimise(const Scenario& s,Plan best,const Variant& v,const std::string& cls,double deadline){
  auto test=[&](Plan q){ if(nowS()>deadline) return false; normalise(q); if(!reproduces(s,q,v,cls)) return false; best=q; return true; };
  { Plan q=best; normalise(q); if(q.steps.size()!=best.steps.size()) test(q); }
  // nothing after the violating step matters, most often
  { Plan q=best; int st=regions[0]->step; if(st>=0&&st+1<(int)q.steps.size()){ q.steps.resize((size_t)st+1); test(q); } }
  for(int round=0;round<3;++round){ bool changed=false;
    for(size_t chunk=std::max<size_t>(1,best.steps.size()/2);;){ 
      for(size_t at=0;at<best.steps.size()&&nowS()<deadline;){ Plan q=best; size_t n=std::min(chunk,q.steps.size()-at); bool keepR=false; (void)keepR; q.steps.erase(q.steps.begin()+(long)at,q.steps.begin()+(long)(at+n)); if(test(q)) changed=true; else at+=chunk; }
      if(chunk==1) break; chunk/=2; if(chunk<1) chunk=1; }
    // whole runs: drop the brackets' content pair
    for(size_t i=0;i<best.steps.size()&&nowS()<deadline;++i) if(best.steps[i].t=='R'){ Plan q=best; size_t j=i; while(j<q.steps.size()&&q.steps[j].t!='E') ++j; q.steps.erase(q.steps.begin()+(long)i,q.steps.begin()+(long)std::min(j+1,q.steps.size())); if(test(q)){ changed=true; --i; } }
    if(round==0||changed){
      for(size_t i=0;i<best.steps.size()&&nowS()<deadline;++i){ Step& s0=best.steps[i];
        if(s0.op.failAt){ Plan q=best; q.steps[i].op.failAt=0; q.steps[i].op.failSticky=0; if(!test(q)&&best.steps[i].op.failSticky){ q=best; q.steps[i].op.failSticky=0; test(q); } }
        if(best.steps[i].t=='H'){ if(best.steps[i].h==H_RUNS){ for(int64_t v2:{1,2,8,128}) if(v2<best.steps[i].ha[0]){ Plan q=best; q.steps[i].ha[0]=v2; if(test(q)) break; } } continue; }
        if(best.steps[i].t!='D'&&best.steps[i].t!='P') continue; if(best.steps[i].op.code==OP_A_WRAP) continue;
        const char* sig=opSigs[best.steps[i].op.code]; for(int k=0;sig[k];++k) if(strchr("ilzuc",sig[k])){ int64_t x=best.steps[i].op.a[k]; if(((uint64_t)x>>32)==((uint64_t)SLOT>>32)) continue; for(int64_t y:{(int64_t)0,(int64_t)1,(int64_t)2,(int64_t)-1,x/2}){ if(sig[k]=='c'&&y<=0) continue; if(y==x||(x>=0&&y<0)||llabs(y)>llabs(x)) continue; Plan q=best; q.steps[i].op.a[k]=y; if(test(q)){ changed=true; break; } } } }
      for(size_t i=0;i<best.lits.size()&&nowS()<deadline;++i) while(!best.lits[i].empty()&&nowS()<deadline){ Plan q=best; size_t n=q.lits[i].size(); q.lits[i].resize(n/2); if(test(q)) continue; q=best; q.lits[i].erase(0,(n+1)/2); if(test(q)) continue; q=best; q.lits[i].pop_back(); if(test(q)) continue; break; }
    }
    if(!changed) break; }
  { std::set<int64_t> used; for(auto& st:best.steps) if(st.t!='H'&&st.t!='R'&&st.t!='E'){ const char* sig=opSigs[st.op.code]; for(int k=0;sig[k];++k) if(sig[k]=='t') used.insert(st.op.a[k]); } Plan q=best; for(size_t i=0;i<q.lits.size();++i) if(!used.count((int64_t)i)) q.lits[i].clear(); while(!q.lits.empty()&&q.lits.back().empty()&&!used.count((int64_t)q.lits.size()-1)) q.lits.pop_back(); test(q); }
  for(const char* k:{"gmode","locale","bufmode","guard"}) if(best.cfg.count(k)){ Plan q=best; q.cfg.erase(k); test(q); }
  return best;
}
static std::string jstr(const std::string& s){ std::string r="\""; char b[8]; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=(char)c; } else if(c<32||c>126){ snprintf(b,8,"\\u%04x",c); r+=b; } else r+=(char)c; } return r+"\""; }
static int usage(){ fprintf(stderr,"usage: sim run --prop ID --lib name:mem:path ... --seed N --tier quick|thorough --secs S --workers W --out FILE --replays DIR [--all] [--max N] [--ignore CLASS]...\n       sim replay FILE --lib ...\n       sim gen --prop ID --lib ... --seed N\n"); return 3; }
int main(int argc,char** argv){
  if(!getenv("SIM_NOASLR_DONE")){ setenv("SIM_NOASLR_DONE","1",1); int pr=personality(0xffffffff); if(pr!=-1&&!(pr&ADDR_NO_RANDOMIZE)&&personality((unsigned long)pr|ADDR_NO_RANDOMIZE)!=-1) execv("/proc/self/exe",argv); }
  if(argc<2) return usage();
  std::string cmd=argv[1],prop,file,out,repDir="/tmp"; uint64_t seed=1,maxSeeds=0; int tier=0,workers=4; double secs=20,shrinkS=60; bool all=false; 
  for(int i=2;i<argc;++i){ std::string a=argv[i]; auto val=[&]{ return std::string(i+1<argc?argv[++i]:""); };
    if(a=="--prop") prop=val(); else if(a=="--seed") seed=strtoull(val().c_str(),nullptr,10); else if(a=="--tier") tier=val()=="thorough"; else if(a=="--secs") secs=atof(val().c_str()); else if(a=="--workers") workers=atoi(val().c_str()); else if(a=="--out") out=val(); else if(a=="--replays") repDir=val(); else if(a=="--all") all=true; else if(a=="--max") maxSeeds=strtoull(val().c_str(),nullptr,10); else if(a=="--ignore") ignored.insert(val()); else if(a=="--cpu") cpuLimit=atoi(val().c_str()); else if(a=="--shrink") shrinkS=atof(val().c_str());
    else if(a=="--lib"){ std::string l=val(); size_t c1=l.find(':'),c2=l.find(':',c1+1); if(c2==std::string::npos) return usage(); variants.push_back({l.substr(0,c1),ASAN,atoll(l.substr(c1+1,c2-c1-1).c_str()),nullptr}); if(!worldInit(l.substr(c2+1).c_str(),ASAN,0)) return 3; variants.back().lib=W.lib; }
    else file=a; }
  if(ASAN) cpuLimit*=3;
  G=(Global*)shared(sizeof(Global)); FT=(FoundTable*)shared(sizeof(FoundTable)); makeRegions(); SH=regions[7];
  if(variants.empty()) return usage();
  if(cmd=="gen"){ const Scenario* s=findScenario(prop); if(!s) return usage(); Plan p=genPlan(*s,seed,tier,variants[0]); fputs(p.print().c_str(),stdout); return 0; }
  if(cmd=="replay"){
    std::ifstream in(file); std::stringstream ss; ss<<in.rdbuf(); Plan p; if(!in||!Plan::parse(ss.str(),p)){ fprintf(stderr,"cannot read %s\n",file.c_str()); return 3; } const Scenario* s=findScenario(p.prop); if(!s) return usage();
    const Variant* v=&variants[0]; bool ok=false; for(auto& x:variants) if(x.name==p.variant){ v=&x; ok=true; } if(!ok&&!p.variant.empty()){ fprintf(stderr,"variant %s is not loaded\n",p.variant.c_str()); return 3; }
    execPlan(*s,&p,0,tier,*v); Shared* r=regions[0]; if(r->state==2){ printf("%s\n%s\n",r->cls,r->msg); printf("loghash %016llx\n",(unsigned long long)r->logHash); printf("VIOLATION property=%s replay=%s\n",p.prop.c_str(),file.c_str()); return 1; }
    if(r->state==3){ fprintf(stderr,"harness: %s\n",r->msg); return 3; } printf("held: loghash %016llx\n",(unsigned long long)r->logHash); return 0; }
  if(cmd!="run") return usage();
  const Scenario* s=findScenario(prop); if(!s) return usage();
  std::vector<int> vs; { std::istringstream in(s->variants); std::string n; while(in>>n) for(size_t i=0;i<variants.size();++i) if(variants[i].name==n) vs.push_back((int)i); } if(vs.empty()){ fprintf(stderr,"no variant\n"); return 3; }
  double t0=nowS(); std::vector<pid_t> ws; for(int i=0;i<workers;++i){ pid_t c=fork(); if(c==0) worker(*s,seed,tier,t0+secs,all,maxSeeds,vs); ws.push_back(c); } for(auto c:ws) waitFor(c); double wall=nowS()-t0;
  int rc=0; std::string viol; uint64_t unrep=0;
  if(all){ std::vector<Found*> fs; for(int i=0;i<FT->n;++i) fs.push_back(&FT->f[i]); std::sort(fs.begin(),fs.end(),[](Found*a,Found*b){ return a->count>b->count; }); for(auto f:fs) printf("%6llu  %-40s seed %llu %s\n        %s\n",(unsigned long long)f->count,f->cls,(unsigned long long)f->seed,variants[(size_t)f->variant].name.c_str(),f->msg); }
  std::string found="[";
  for(int i=0;i<FT->n;++i){ Found& f=FT->f[i]; bool ig=ignored.count(f.cls)>0; if(i) found+=","; found+="{\"class\":"+jstr(f.cls)+",\"count\":"+std::to_string(f.count)+",\"known\":"+(ig?"true":"false")+",\"message\":"+jstr(f.msg)+"}"; if(ig||all||rc==1) continue;
    const Variant& v=variants[(size_t)f.variant]; Plan p=genPlan(*s,f.seed,tier,v); if(f.fa){ Plan q=p; q.cfg["failAll"]=f.fa; q.cfg["failAllSticky"]=f.fs; if(reproduces(*s,q,v,f.cls)) p=q; }
    bool rep=false; for(int t=0;t<4&&!rep;++t) rep=reproduces(*s,p,v,f.cls); if(!rep){ ++unrep; fprintf(stderr,"not reproducible: %s (seed %llu, %s) %s\n",f.cls,(unsigned long long)f.seed,v.name.c_str(),f.msg); continue; }
    size_t n0=p.steps.size(); Plan m=minimise(*s,p,v,f.cls,nowS()+shrinkS); std::string path=repDir+"/"+prop+"-"+std::to_string(f.seed)+".plan";
    auto write=[&](const Plan& q){ std::ofstream o(path); o<<"# "<<f.cls<<"\n"; o<<q.print(); }; write(m);
    // the file itself, in two fresh executions
    std::string log; bool ok=true; for(int t=0;t<2;++t){ std::ifstream in(path); std::stringstream ss; ss<<in.rdbuf(); Plan q; if(!Plan::parse(ss.str(),q)||!reproduces(*s,q,v,f.cls)) ok=false; }
    if(!ok){ m=p; write(m); ok=reproduces(*s,p,v,f.cls); } std::string msg=regions[0]->msg;
    if(!ok){ ++unrep; fprintf(stderr,"replay file does not reproduce: %s\n",f.cls); continue; }
    viol="{\"class\":"+jstr(f.cls)+",\"message\":"+jstr(msg)+",\"seed\":"+std::to_string(f.seed)+",\"variant\":"+jstr(v.name)+",\"steps\":"+std::to_string(m.steps.size())+",\"steps_before\":"+std::to_string(n0)+",\"replay\":"+jstr(path)+"}";
    printf("%s: %s\n  %s\n  seed %llu, variant %s, %zu steps (of %zu)\n",prop.c_str(),f.cls,msg.c_str(),(unsigned long long)f.seed,v.name.c_str(),m.steps.size(),n0); { std::string t=m.print(); size_t lines=0; for(size_t k=0,e;k<t.size()&&lines<60;k=e+1,++lines){ e=t.find('\n',k); printf("    %s\n",t.substr(k,e-k).c_str()); } }
    printf("VIOLATION property=%s replay=%s\n",prop.c_str(),path.c_str()); fflush(stdout); rc=1; }
  found+="]";
  std::ostringstream o; o<<"{\"prop\":"<<jstr(prop)<<",\"asan\":"<<(ASAN?"true":"false")<<",\"wall_s\":"<<wall<<",\"seeds\":"<<G->seeds<<",\"execs\":"<<G->execs<<",\"steps\":"<<G->steps<<",\"ops\":"<<G->ops<<",\"runs\":"<<G->runs<<",\"nontrivial\":"<<G->nontriv<<",\"distinct\":"<<G->distinct<<",\"states\":"<<G->states<<",\"refusals\":"<<G->refusals<<",\"sim_ns\":"<<G->simNs<<",\"det_pairs\":"<<G->detPairs<<",\"nondeterministic\":"<<FT->nondet<<",\"harness_errors\":"<<FT->harnessErrors<<",\"harness_message\":"<<jstr(FT->harnessMsg)<<",\"unreproducible\":"<<unrep<<",\"faults\":{";
  for(int i=0;i<FK_COUNT;++i) o<<(i?",":"")<<jstr(faultNames[i])<<":"<<G->faults[i]; o<<"},\"kinds\":{"; static const char* const kn[]={"value","library_exception","out_of_memory","foreign","skipped"}; for(int i=0;i<5;++i) o<<(i?",":"")<<jstr(kn[i])<<":"<<G->kinds[i]; o<<"},\"op_counts\":{"; bool first=true; for(int i=0;i<OP_COUNT;++i) if(G->opCount[i]){ o<<(first?"":",")<<jstr(opNames[i])<<":"<<G->opCount[i]; first=false; } o<<"},\"samples\":["; 
  for(int i=0;i<3;++i){ uint64_t sd=seedOf(seed,(uint64_t)i); const Variant& v=variants[(size_t)vs[(size_t)i%vs.size()]]; Plan p=genPlan(*s,sd,tier,v); std::string t; int n=0; for(auto& st:p.steps){ if(++n>12) break; t+=describeStep(st)+"; "; } o<<(i?",":"")<<jstr("seed "+std::to_string(sd)+" variant "+v.name+" ("+std::to_string(p.steps.size())+" steps): "+t+"..."); }
  o<<"],\"found\":"<<found<<",\"violation\":"<<(viol.empty()?"null":viol)<<"}\n";
  if(!out.empty()){ std::ofstream f(out); f<<o.str(); } else fputs(o.str().c_str(),stdout);
  return rc;
}
