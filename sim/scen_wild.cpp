// C15: twins that may differ only in residue, layout and history. C16: any call sequence, refusals and exceptions everywhere.
#include "gen.h"
static const char* const ALL="S_* 6 B_* 6 A_* 5 F_* 5 V_* 5 E_* 3 O_* 5 P_* 10 C_* 3 M_* 3 N_* 2 D_* 4 T_* 4 S_DEL 1 B_DEL 1 A_DEL 1 E_DEL 1 O_DEL 1 S_FMT 3 B_FMT 3 O_FMT 6 S_LIT 14 B_NEWS 6 A_NEW 10 A_ADDRSET 8 A_ADDRSETO 5 O_BOX 12 O_TOSTR 6 S_REPEAT 3 D_STR 5 T_STR 5 B_APP_S0 6 ";
static void start(Gen& g){ for(int i=0;i<3;++i) g.op(OP_S_LIT,{i,g.r.below((int64_t)g.p.lits.size())}); g.op(OP_B_NEWS,{0,g.r.below(3)}); g.op(OP_A_NEW,{0,g.r.chance(60)?CharT:ByteT,g.r.range(0,6),-1,-1}); g.op(OP_A_NEW,{1,g.r.chance(50)?ObjectT:StringT,g.r.range(1,5),-1,-1}); static const int vt[]={BooleanT,CharT,SByteT,ByteT,Int16T,UInt16T,Int32T,UInt32T,Int64T,UInt64T,SingleT,DoubleT,DateTimeT,TimeSpanT}; for(int i=0;i<2;++i){ int t=vt[g.r.below(14)]; g.op(OP_O_BOX,{i,t,t==DoubleT?g.dblBits():t==SingleT?g.sglBits():t==DateTimeT?g.ticks():g.val64()}); } }
// ---------------------------------------------------------------- C15
static size_t marker(const Plan& p){ for(size_t i=p.steps.size();i>0;--i) if(p.steps[i-1].t=='H'&&p.steps[i-1].h==H_RUNS&&p.steps[i-1].ha[0]==0) return i-1; return p.steps.size(); }
// the history ends with the beginning of the judged part, done with values that are nearly those: what was kept of one value must not show up in the next
static void echo(Gen& g){
  size_t mk=marker(g.p),n=g.p.steps.size()-mk-1; if(!n) return; size_t k=g.r.chance(50)?n:(size_t)g.r.range(1,(int64_t)n); int pct=g.r.chance(50)?15:60; std::vector<Step> e; bool in=false;
  for(size_t i=0;i<k;++i){ Step s=g.p.steps[mk+1+i]; if(s.t=='R') in=true; if(s.t=='E') in=false;
    if(s.t=='D'||s.t=='P'){ const char* sig=opSigs[s.op.code]; for(int j=0;sig[j];++j){ int64_t& a=s.op.a[j]; if(!g.r.chance(pct)) continue; switch(sig[j]){
      case 'l': case 'u': { uint64_t x=(uint64_t)a; switch(g.r.below(7)){ case 0: x+=1; break; case 1: x-=1; break; case 2: x+=864000000000ull*(uint64_t)g.r.range(1,400); break; case 3: x-=864000000000ull*(uint64_t)g.r.range(1,400); break; case 4: x^=1ull<<g.r.below(64); break; case 5: x=0-x; break; default: x+=10000000ull*(uint64_t)g.r.range(-100,100); } a=(int64_t)x; } break;
      case 'd': if(g.r.chance(50)) a^=1ll<<g.r.below(64); else { double v; memcpy(&v,&a,8); v+=g.r.chance(50)?1:-1; a=D(v); } break;
      case 'f': a=(int32_t)((uint32_t)a^1u<<g.r.below(32)); break;
      case 'c': if(a>1&&a<0xD000) a+=g.r.chance(50)?1:-1; break;
      case 't': if(a>=0&&a<(int64_t)g.p.lits.size()){ std::wstring t=g.p.lits[(size_t)a]; if(!t.empty()){ size_t at=g.r.chance(60)?t.size()-1:(size_t)g.r.below((int64_t)t.size()); wchar_t c=t[at]; t[at]=c>=L'0'&&c<=L'9'?L'0'+(c-L'0'+1)%10:c==L'a'?L'b':L'a'; a=(int64_t)g.p.lits.size(); g.p.lits.push_back(t); } } break; } } }
    e.push_back(s); }
  if(in){ Step s; s.t='E'; e.push_back(s); }
  g.p.steps.insert(g.p.steps.begin()+(long)mk,e.begin(),e.end());
}
static Plan genC15(uint64_t seed,int tier){
  Gen g("C15",seed); g.wild=true; g.makeLits(10,true); g.p.cfg["locale"]=g.r.below(2); g.p.zones.push_back(g.zone()); g.m.reset(g.p); g.use((std::string(ALL)+"A_WRAP 0 A_DATA 0 ").c_str()); g.p.cfg["gmode"]=1; g.uncaughtPct=0;
  g.p.cfg["clock"]=g.clockValue();
  // history: anything, with failures
  g.faultPctD=12; g.faultPctP=6; int h=(int)g.r.range(0,tier?60:25); start(g); for(int i=0;i<h;++i) g.step();
  if(g.r.chance(40)){ g.beginRun(); start(g); g.uncaughtPct=10; for(int i=0;i<h;++i) g.step(); g.endRun(); g.uncaughtPct=0; }
  g.host(H_RUNS,0);
  g.noFaults=true; int n=(int)g.r.range(8,tier?120:45); bool run=g.r.chance(25); if(run) g.beginRun(); start(g); for(int i=0;i<n;++i) g.step(); if(run) g.endRun();
  if(g.r.chance(45)) echo(g);
  return g.p;
}
static void bodyPlain(const Plan& p){ Observer o; W.execute(p,o); }
static void judgeC15(const Plan& p){
  size_t mk=marker(p); if(mk>=p.steps.size()) return; Plan base=p; base.steps.assign(p.steps.begin()+(long)mk+1,p.steps.end());
  runChild(base,1,bodyPlain); Shared* a=region(1); uint64_t lh=a->logHash; SH->nontrivial=(int)a->nrec; int only=(int)p.get("twin",-1);
  for(int t=0;t<6;++t){ if(only>=0&&t!=only) continue;
    Plan q=base; size_t off=0; const char* what="";
    switch(t){
    case 0: q.cfg["gmode"]=0; what="dead memory zeroed instead of filled at random"; break;
    case 1: q.cfg["gmode"]=2+(int64_t)(p.seed%4); what="dead memory filled with another pattern"; break;
    case 2: q.cfg["gseed"]=p.get("gseed")^0x5555; q.cfg["clock"]=p.get("clock")+15552000ll*1000000000*((p.seed&1)?1:-1)/((p.seed&2)?1:3); what="other random residue and another time on the clock"; break;
    case 3: { Step s; s.t='H'; s.h=H_RUNS; s.ha[0]=1; q.steps.insert(q.steps.begin(),s); off=1; what="memory from the run's pool instead of the platform heap"; } break;
    case 4: q=p; off=mk+1; what="other calls came before"; break;
    default: { q=p; Step s; s.t='H'; s.h=H_RUNS; s.ha[0]=2; q.steps.insert(q.steps.begin(),s); q.cfg["gmode"]=2; off=mk+2; what="other calls came before, memory from the run's pool"; } }
    runChild(q,2,bodyPlain); Shared* b=region(2); lh=mix(lh,b->logHash);
    size_t i=0,j=0; while(j<b->nrec&&b->rec[j].step<(int)off) ++j;
    for(;i<a->nrec&&j<b->nrec;++i,++j){ const Rec&x=a->rec[i],&y=b->rec[j]; if(x.kind==K_OOM||y.kind==K_OOM) break;
      if(x.step+(int)off!=y.step||x.kind!=y.kind||x.hash!=y.hash){ SH->step=x.step+(int)mk+1; violate(std::string("differs:")+opNames[x.code],"%s gives another result (%s) when only this changes: %s",describeStep(base.steps[(size_t)x.step]).c_str(),x.kind!=y.kind?"ends in another way":"another value",what); } }
    feature(mix(1500+(uint64_t)t,(uint64_t)std::min<size_t>(i,60))); }
  SH->logHash=lh;
}
// ---------------------------------------------------------------- C16
static Plan genC16(uint64_t seed,int tier){
  Gen g("C16",seed); g.wild=true; g.makeLits(10,true); g.p.cfg["locale"]=g.r.below(2); int nz=(int)g.r.range(1,3); for(int i=0;i<nz;++i) g.p.zones.push_back(g.zone()); g.p.cfg["clock"]=g.r.chance(80)?g.clockValue():(int64_t)(g.r.next()>>1)*(g.r.chance(50)?1:-1); g.p.bufs={64,g.r.range(1,100)}; g.m.reset(g.p);
  g.p.cfg["bufmode"]=g.r.below(3); int k=(int)g.r.below(6); std::string w=ALL; w+="K_* 1 X_SEND 5 X_DOUBLE 1 X_THROW 1 X_THROWNEST 1 X_MARK 1 ";
  if(k==1) w+="S_* 30 S_LIT 60 "; else if(k==2) w+="B_* 30 "; else if(k==3) w+="A_* 25 F_* 25 V_* 25 "; else if(k==4) w+="O_* 25 P_* 40 D_* 15 T_* 15 M_* 10 O_BOX 60 ";
  g.use(w.c_str()); g.faultPctD=10; g.faultPctP=5; g.uncaughtPct=4; g.maxText=g.r.chance(10)?30000:2500;
  int n=(int)g.r.range(10,tier?300:110);
  if(g.r.chance(30)) g.host(H_RUNS,1);
  while(n>0){ int c=(int)std::min<int64_t>(n,g.r.range(5,60)); bool run=g.r.chance(45); if(run) g.beginRun(g.r.chance(3)?1:0); if(g.r.chance(95)) start(g); for(int i=0;i<c;++i){ if(g.r.chance(4)) g.host(H_GARB,(int64_t)(g.r.next()&0xffffff),g.r.below(6)); if(g.r.chance(2)) g.host(H_TZ,g.r.below(nz)); if(g.r.chance(2)) g.host(H_BUFW,0,0,64,(int64_t)(g.r.next()&0xffff)); g.step(); } if(run) g.endRun(); n-=c; }
  return g.p;
}
struct WildObserver : Observer {
  void after(const Step&,const Op& o,const Res& r,bool refused) override { if(r.kind!=K_SKIP) SH->nontrivial++;
    if(r.kind==K_FOREIGN&&o.code!=OP_X_FOREIGN) violate(std::string("foreign:")+opNames[o.code],"%s raised something that is neither a library nor an out-of-memory exception",opNames[o.code]);
    if(r.kind==K_OOM&&!refused) violate(std::string("false-oom:")+opNames[o.code],"%s reported that memory ran out although no request was refused",opNames[o.code]);
    feature(mix((uint64_t)o.code*8+r.kind,mix(hashBytes(r.exc,strlen(r.exc)),(uint64_t)(r.nv*4+r.hasText*2+refused)))); }
  void runEnd(int rc,int k) override { if(rc&&k!=K_FOREIGN) violate("escape","an exception came out of Run"); }
};
static void judgeC16(const Plan& p){ WildObserver o; W.execute(p,o); static wchar_t b[70000]; static uint8_t bb[1<<20]; int c,m,t,d[4]; for(int i=0;i<NREG;++i){ W.lib->inspS(i,b,70000,&c); W.lib->inspB(i,b,70000,&c,&m); W.lib->inspA(i,&t,d,bb,sizeof bb); } }
extern const std::vector<Scenario> wildScenarios;
const std::vector<Scenario> wildScenarios={{"C15","no dependence on leftovers",genC15,judgeC15,"plain8m asanbig plain asan"},{"C16","no crash, hang or escape",genC16,judgeC16,"asanbig plain asan plain4k"}};
