// C01-C05: runs, memory, exceptions and messages.
#include "gen.h"
#include <algorithm>
static std::string enc(const wchar_t* t,int n,bool utf8,bool& bad){ std::string s; bad=false; for(int i=0;i<n;++i){ uint32_t c=(uint32_t)t[i]; if(c<0x80) s+=(char)c; else if(!utf8||c>0x10FFFF||(c>=0xD800&&c<0xE000)){ bad=true; s+='\xFF'; } else if(c<0x800){ s+=(char)(0xC0|c>>6); s+=(char)(0x80|(c&63)); } else if(c<0x10000){ s+=(char)(0xE0|c>>12); s+=(char)(0x80|(c>>6&63)); s+=(char)(0x80|(c&63)); } else { s+=(char)(0xF0|c>>18); s+=(char)(0x80|(c>>12&63)); s+=(char)(0x80|(c>>6&63)); s+=(char)(0x80|(c&63)); } } return s; }
std::string clip(const std::string& s,size_t at){ std::string r; size_t a=at>40?at-40:0; for(size_t i=a;i<s.size()&&i<at+60;++i){ unsigned char c=(unsigned char)s[i]; char b[8]; if(c=='\n') r+="\\n"; else if(c<32||c>126){ snprintf(b,8,"\\x%02x",c); r+=b; } else r+=(char)c; } return r; }
// What the output device must show. Pieces are exact bytes ('\xFF' stands for one character that cannot be encoded: up to 8 bytes, no
// newline), a line of any text, or what was sent while the device failed (any subsequence of it).
struct Piece { int kind; std::string s; const char* what; };     // 0 exact, 1 one non-empty line, 2 one line, 3 lossy
struct OutObserver : Observer {
  std::vector<Piece> want; Observer* inner=nullptr; bool utf8=false; bool sendMustSucceed=true; bool foreignOk=true; bool window=false, cut=false; /* cut: a text longer than a result can carry; what follows is not judged */ std::string excText; bool excHas=false, excLong=false; int thrown=0; std::wstring thrownText; /* 1: the program throws an exception with this text, 2: with none */ int step=0;
  int keptAs=0; std::wstring keptText; std::string keptType; bool keptNested=false; int keptBase=0;    // the exception the program caught last: 1 with this text, 2 with none
  int hitStep=-1;     // step at which memory was first refused
  explicit OutObserver(const Plan& p){ utf8=p.get("locale")!=0; }
  void put(int k,std::string s,const char* what){ if(cut) return; if(window){ if(k==1||k==2) s="\xFE"; k=3; } if(!want.empty()&&want.back().kind==k&&(k==0||k==3)){ want.back().s+=s; return; } want.push_back({k,s,what}); }
  void before(const Step& s,const Op& o) override { if(inner) inner->before(s,o);
    thrown=0; int reg=-1; if(o.code==OP_X_THROW){ if(o.a[0]==1) thrown=2; else if(o.a[0]==0||o.a[0]>14) reg=(int)o.a[1]; } else if(o.code==OP_X_THROWNEST){ if(o.a[1]&1) reg=(int)o.a[2]; else thrown=2; }
    if(o.code==OP_X_RETHROW&&keptAs){ thrown=keptAs; thrownText=keptText; }
    if(reg>=0&&reg<NREG){ static wchar_t b[MAXTEXT]; int c=1; int n=W.lib->inspS(reg,b,MAXTEXT,&c); if(n>=0&&n<MAXTEXT){ thrown=1; thrownText.assign(b,(size_t)n); } } }
  void after(const Step& s,const Op& o,const Res& r,bool refused) override {
    if(refused&&hitStep<0) hitStep=SH->step;
    if(r.user>1&&!refused) violate("user-exception",r.user==2?"an exception that the program's own method raised inside a call was replaced by another":"an exception that the program's own method raised inside a call vanished");
    if(o.code==OP_X_SEND&&r.kind!=K_SKIP){ SH->nontrivial++;
      if(r.kind==K_OK) { int nt=1; static wchar_t b[200000]; int n=W.lib->inspS((int)o.a[0],b,200000,&nt); if(n<0||n>200000) harness("message too long"); bool bad; std::string t=enc(b,n,utf8,bad); if(bad) fault(FK_UNENC); put(0,t+"\n","message"); }
      else if(sendMustSucceed&&!refused) violate("send:"+std::to_string(r.kind),"sending a message ended with %s (%s) instead of returning",r.kind==K_EXC?"an exception":r.kind==K_OOM?"out of memory":"a foreign exception",r.exc); }
    if(r.kind==K_EXC){ bool bad; excHas=r.hasText; excLong=r.hasText&&r.textLen>MAXTEXT-1; excText=r.hasText?enc(r.text,std::min(r.textLen,(int)MAXTEXT-1),utf8,bad):"";
      if(thrown==1){ if(!r.hasText||r.textLen!=(int)thrownText.size()||wmemcmp(r.text,thrownText.data(),thrownText.size())) violate("text","the exception thrown with the text \"%s\" carries the text \"%s\"",clip(enc(thrownText.data(),(int)thrownText.size(),utf8,bad),0).c_str(),r.hasText?clip(excText,0).c_str():"(none)"); }
      if(thrown==2&&r.hasText&&!refused) violate("text","the exception thrown without a text carries the text \"%s\"",clip(excText,0).c_str());
      bool nested=o.code==OP_X_THROWNEST, made=nested||(o.code==OP_X_THROW&&!refused), again=o.code==OP_X_RETHROW&&keptAs&&!refused;
      if(again&&keptType!=r.exc) violate("type","the exception that was caught, kept and thrown again is another one");
      if((made||again)&&!refused&&r.nv>=3){ bool nest=made?nested:keptNested; int64_t base=nest; if(r.v[0]!=nest) violate("cause",nest?"the exception created with a cause does not carry that cause":"an exception created without a cause carries one"); if(r.v[1]!=base) violate("root-cause","the first exception of a chain of causes is not reported as such"); if(nest&&r.v[2]!=1) violate("cause","the cause of an exception no longer has its text or type"); }
      if(o.caught||s.t=='D'){ keptNested=again?keptNested:nested; keptType=r.exc; bool fit=r.textLen<MAXTEXT; keptAs=!fit?0:r.hasText?1:2; if(fit&&r.hasText) keptText.assign(r.text,(size_t)r.textLen); if(!made&&!again) { keptNested=false; if(r.nv>=1&&r.v[0]) keptAs=0; } }
    }
    if(inner) inner->after(s,o,r,refused); }
  void host(const Step& s) override { if(s.h==H_RUNS) keptAs=0; if(s.h==H_PRINT){ char b[64]; snprintf(b,64,"host %lld\n",(long long)s.ha[0]); put(0,b,"host text"); } if(s.h==H_OUT) { if(s.ha[0]!=0&&!window){ window=true; want.push_back({3,"",""}); } else if(s.ha[0]==0&&window){ window=false; want.push_back({0,"","text"}); } }
    if(inner) inner->host(s); }
  void runBegin(int n) override { keptAs=0; if(inner) inner->runBegin(n); }
  void runEnd(int rc,int k) override {
    SH->nontrivial++; keptAs=0;
    if(rc&&k!=K_FOREIGN) violate("escape","an exception came out of Run after the program %s",k==K_OK?"had ended normally":k==K_OOM?"had run out of memory":"had ended with a library exception");
    if(k==K_EXC){ if(excHas&&excLong){ put(0,excText,"report of the exception"); cut=true; } else if(excHas) put(0,excText+"\n","report of the exception"); else put(2,"","report of the exception"); }
    else if(k==K_OOM){ put(1,"","report that memory ran out"); if(hitStep<0) hitStep=SH->step; }
    else if(k==K_FOREIGN&&!rc) put(2,"","report of a foreign exception");
    if(inner) inner->runEnd(rc,k); }
  void clockRead(int64_t v) override { if(inner) inner->clockRead(v); }
  // matches one exact piece at position; returns length or -1
  static int64_t exact(const std::string& o,size_t at,const std::string& s){ if(s.find('\xFF')==std::string::npos) return o.compare(at,s.size(),s)==0?(int64_t)s.size():-1; 
    // characters without an encoding: 0-8 bytes each
    std::vector<size_t> st={at}; for(char c:s){ std::vector<size_t> nx; for(size_t q:st){ if(c!='\xFF'){ if(q<o.size()&&o[q]==c) nx.push_back(q+1); } else for(size_t k=0;k<=8&&q+k<=o.size();++k){ if(k&&o[q+k-1]=='\n') break; nx.push_back(q+k); } } std::sort(nx.begin(),nx.end()); nx.erase(std::unique(nx.begin(),nx.end()),nx.end()); st=nx; if(st.empty()) return -1; } return (int64_t)(st.back()-at); }
  void finish(){
    std::string o=readOut(); SH->outLen=(uint32_t)std::min(o.size(),sizeof SH->out); memcpy(SH->out,o.data(),SH->outLen);
    std::string key; char msg[700]; int64_t steps=0;
    auto bad=[&](const char* k){ key=k; return false; };
    // does the output from at on match the pieces from i on? where a window ends is tried at every place the text after it could begin
    std::function<bool(size_t,size_t)> match=[&](size_t i,size_t at)->bool {
      for(;i<want.size();++i){ const Piece& w=want[i];
        if(w.kind==0){ int64_t n=exact(o,at,w.s); if(n<0){ size_t d=0; while(at+d<o.size()&&d<w.s.size()&&o[at+d]==w.s[d]) ++d; snprintf(msg,sizeof msg,"at byte %zu the output must go on with \"%s\" (%s) and shows \"%s\"",at+d,clip(w.s,d).c_str(),w.what,clip(o,at+d).c_str()); return bad("output"); } at+=(size_t)n; }
        else if(w.kind==1||w.kind==2){ size_t e=o.find('\n',at); if(e==std::string::npos||(w.kind==1&&e==at)){ snprintf(msg,sizeof msg,"at byte %zu the output must have a line (%s) and shows \"%s\"",at,w.what,clip(o,at).c_str()); return bad(w.kind==1?"no-report":"output"); } at=e+1; }
        else {
          std::string ws=w.s; int report=0; const char* what=""; size_t j=i+1;      // reports sent right after the recovery: their text is not prescribed, so where the window ends is not known either
          while(j<want.size()&&((want[j].kind==0&&want[j].s.empty())||want[j].kind==1||want[j].kind==2||want[j].kind==3)){ if(want[j].kind==3) ws+=want[j].s; else if(want[j].kind){ ws+='\xFE'; report=want[j].kind; what=want[j].what; } ++j; }
          bool tail=report&&want[j-1].kind!=3, next=j<want.size()&&want[j].kind==0;
          auto window=[&](size_t end)->bool {
            if(tail&&(end==at||o[end-1]!='\n'||(report==1&&(end-at<2||o[end-2]=='\n')))){ snprintf(msg,sizeof msg,"after the output had recovered there is no line (%s): \"%s\"",what,clip(o,at).c_str()); return bad("no-report"); }
            size_t k=0; for(size_t q=at;q<end;++q){ while(k<ws.size()&&ws[k]!=o[q]&&ws[k]!='\xFE'&&!(ws[k]=='\xFF'&&o[q]!='\n')) ++k; if(k==ws.size()){ snprintf(msg,sizeof msg,"while the output failed the device received \"%s\" at byte %zu, which repeats or reorders what was sent: \"%s\"",clip(o,q).c_str(),q,clip(w.s,0).c_str()); return bad("window"); } if((ws[k]!='\xFE'&&ws[k]!='\xFF')||o[q]=='\n') ++k; }      // \xFE: a report whose text is not prescribed
            return true; };
          if(!next){ if(!window(o.size())) return false; at=o.size(); i=j-1; continue; }
          bool found=false; std::string k1; char m1[sizeof msg];
          for(size_t q=at;q<=o.size();++q) if(exact(o,q,want[j].s)>=0){ if(window(q)&&match(j,q)) return true; if(!found){ k1=key; memcpy(m1,msg,sizeof msg); found=true; } if(++steps>400) break; }
          if(found){ key=k1; memcpy(msg,m1,sizeof msg); return false; }
          snprintf(msg,sizeof msg,"after the output had recovered the text \"%s\" is missing; the device shows \"%s\"",clip(want[j].s,0).c_str(),clip(o,at).c_str()); return bad("lost-after-recovery"); } }
      if(at!=o.size()&&!cut){ snprintf(msg,sizeof msg,"after byte %zu the output has extra text \"%s\"",at,clip(o,at).c_str()); return bad("extra-output"); }
      return true; };
    if(!match(0,0)) violate(key,"%s",msg);
  }
};
// ---------------------------------------------------------------- mixed program statements
static const char* const MIX="S_LIT 8 S_CONCAT2 4 S_CONCAT3 2 S_SUBSTR 3 S_INSERT 2 S_REPS 3 S_PADL 2 S_UPPER 2 S_TOCHARS 2 S_JOIN_S 1 S_TRIM 1 S_FROMARR 2 S_SPLIT 0 B_NEW 2 B_NEWS 3 B_APP_S0 5 B_APP_V 3 B_APP_CN 3 B_INS_S 3 B_REMOVE 2 B_SETLEN 1 B_REPS 3 B_TOSTR 4 B_LINE_S 1 B_DEL 1 A_NEW 5 A_ADDRSET 3 A_ADDRSETO 2 A_COPYI 2 A_GETV 3 A_SETV 1 F_COPY 1 V_GET 2 V_STR0 1 E_GET 2 E_NEXT 2 E_CUR 2 O_BOX 4 O_USR 2 B_APP_O 2 S_CONCAT_A 1 O_TOSTR 3 D_STR 1 T_STR 1 C_TOSTR 1 S_DEL 2 A_DEL 1 ";
static std::vector<OpW> mix(const std::string& extra){ std::string s=MIX; size_t k=s.find("S_SPLIT 0 "); s.erase(k,10); return weights((s+extra).c_str()); }
static void setOps(Gen& g,const std::string& extra){ g.ops=mix(extra); g.opTotal=0; for(auto& o:g.ops) g.opTotal+=o.w; }
static void base(Gen& g){ g.op(OP_S_LIT,{0,0}); g.op(OP_S_LIT,{1,1}); g.op(OP_B_NEWS,{0,0}); g.op(OP_A_NEW,{0,Int32T,3,-1,-1}); }
static void lits(Gen& g,bool ascii){ g.ascii=ascii; g.textKinds=1; g.maxText=std::min(g.maxText,5900); for(int i=0;i<8;++i){ std::wstring t; int64_t n=g.r.chance(15)?g.r.range(80,250):g.r.range(0,14); if(g.big&&i<5&&g.r.chance(50)) n=g.r.range(250,2500); for(int64_t j=0;j<n;++j){ wchar_t c=g.ch(); t+=c?c:L'a'; } wchar_t b[40]; swprintf(b,40,L"m%d:",i); g.p.lits.push_back((g.r.chance(80)?b:L"")+t); } g.m.reset(g.p); }

// ---------------------------------------------------------------- C01
static void send(Gen& g,int reg){ Op o{}; o.code=OP_X_SEND; o.a[0]=reg; Step s; s.t=g.cur; s.op=o; s.op.caught=1; g.p.steps.push_back(s); }
static Plan genC01(uint64_t seed,int tier){
  Gen g("C01",seed); g.wild=true; lits(g,true); g.p.cfg["locale"]=g.r.below(2); g.nreg=4; setOps(g,"X_SEND 9 K_UTC 1 K_NOW 1 D_LOCAL 1 D_DST 1 X_NEW 2 X_DELRAW 1");
  g.p.zones.push_back(Zone()); for(int i=0;i<2;++i) g.p.zones.push_back(g.zone()); g.faultPctP=3; g.uncaughtPct=12;
  int hist=(int)g.r.range(1,tier?10:6);
  for(int i=0;i<hist;++i){
    int64_t k=g.r.below(100);
    if(g.r.chance(10)) g.host(H_TZ,g.r.below(3)); if(g.r.chance(10)) g.host(H_CLKSTEP,g.r.range(-5,5)*1000000000ll);
    if(k<10){ for(int j=(int)g.r.range(1,8);j>0;--j){ if(j==1) base(g); g.step(); } continue; }                            // direct calls of the host
    if(k<16){ g.host(H_RUNS,g.r.chance(80)?g.r.range(1,40):g.r.chance(tier?60:94)?g.r.range(200,5000):g.r.range(65500,70000)); continue; }
    if(k<22){ g.beginRun(1); base(g); send(g,0); g.endRun(); continue; }               // working memory refused
    g.beginRun(); base(g); int n=(int)g.r.range(0,18); for(int j=0;j<n;++j) g.step();
    k=g.r.below(100); Step s; s.t='P';
    if(k<20){ s.op.code=OP_X_THROW; s.op.a[0]=g.r.below(16); g.p.steps.push_back(s); }
    else if(k<30){ s.op.code=OP_X_FOREIGN; g.p.steps.push_back(s); }
    else if(k<45){ s.op.code=OP_X_CAP; s.op.a[0]=g.r.below(2); s.op.caught=1; g.p.steps.push_back(s); for(int j=0;j<3;++j){ s.op.code=OP_S_CONCAT2; s.op.a[0]=0; s.op.a[1]=0; s.op.a[2]=1; g.p.steps.push_back(s); } }   // uses up everything
    else if(k<60){ s.op.code=OP_A_NEW; s.op.a[0]=0; s.op.a[1]=Int64T; s.op.a[2]=g.r.range(1000,2000000); s.op.a[3]=s.op.a[4]=-1; s.op.caught=1; g.p.steps.push_back(s); }
    else if(k<70){ s.op.code=OP_S_CONCAT2; s.op.a[0]=0; s.op.a[1]=0; s.op.a[2]=1; s.op.failAt=(int)g.r.range(1,3); s.op.failSticky=1; g.p.steps.push_back(s); }
    g.endRun();
  }
  // the probe: the program whose run must not depend on any of this
  g.noFaults=true; g.uncaughtPct=15; g.beginRun(); g.host(H_TZ,g.r.below(3)); g.host(H_CLKSET,g.clockValue()); g.host(H_GARB,7,g.r.below(4)); base(g); send(g,0);
  int n=(int)g.r.range(3,20); for(int j=0;j<n;++j) g.step();
  int64_t k=g.r.below(100);
  if(k<70){ Step s; s.t='P'; s.op.code=OP_X_CAP; s.op.a[0]=g.r.below(2); s.op.caught=1; g.p.steps.push_back(s); }
  else if(k<80){ Step s; s.t='P'; s.op.code=OP_X_THROW; s.op.a[0]=g.r.below(16); g.p.steps.push_back(s); }
  send(g,0); g.endRun();
  return g.p;
}
static size_t probeStart(const Plan& p){ size_t r=p.steps.size(); for(size_t i=0;i<p.steps.size();++i) if(p.steps[i].t=='R') r=i; return r; }
struct ProbeObserver : OutObserver { int runs=0,target; int64_t outAt=0; ProbeObserver(const Plan& p,int t):OutObserver(p),target(t){}
  void runBegin(int) override { ++runs; if(runs==target){ fflush(stdout); outAt=(int64_t)readOut().size(); } }
  void runEnd(int rc,int k) override { if(runs==target){ fflush(stdout); SH->aux[0]=rc*16+k; SH->aux[1]=outAt; SH->aux[2]=(int64_t)readOut().size(); }  } };
static void bodyC01(const Plan& p){ int runs=0; for(auto& s:p.steps) if(s.t=='R') ++runs; ProbeObserver o(p,runs); o.sendMustSucceed=false; W.execute(p,o); std::string t=readOut(); t=(int64_t)t.size()>=o.outAt?t.substr((size_t)o.outAt,(size_t)std::max<int64_t>(0,SH->aux[2]-o.outAt)):std::string(); SH->outLen=(uint32_t)std::min(t.size(),sizeof SH->out); memcpy(SH->out,t.data(),SH->outLen); SH->aux[3]=W.mallocsAfterFirst; }
static void judgeC01(const Plan& p){
  size_t ps=probeStart(p); if(ps>=p.steps.size()) return; Plan q=p; q.steps.assign(p.steps.begin()+(long)ps,p.steps.end());
  runChild(p,1,bodyC01); runChild(q,2,bodyC01); Shared*a=region(1),*b=region(2); SH->logHash=mix(a->logHash,b->logHash);
  if(a->aux[3]) violate("asked-again","the platform was asked for memory %lld more times by runs after the first",(long long)a->aux[3]);
  std::vector<Rec> x,y; for(uint32_t i=0;i<a->nrec;++i) if(a->rec[i].step>=(int)ps) x.push_back(a->rec[i]); for(uint32_t i=0;i<b->nrec;++i) y.push_back(b->rec[i]);
  SH->nontrivial=(int)y.size();
  for(size_t i=0;i<x.size()&&i<y.size();++i) if(x[i].code!=y[i].code||x[i].kind!=y[i].kind||x[i].hash!=y[i].hash) { SH->step=x[i].step; violate(std::string("differs:")+opNames[x[i].code],"statement %d of the program (%s) gives another result after the earlier runs than in a first run%s",y[i].step,describeStep(p.steps[(size_t)x[i].step]).c_str(),x[i].code==OP_X_CAP?": it can obtain another amount of memory":x[i].kind!=y[i].kind?": it ends in another way":""); }
  if(x.size()!=y.size()) violate("differs:statements","the program executed %zu statements after the earlier runs and %zu in a first run",x.size(),y.size());
  if(a->aux[0]!=b->aux[0]) violate("differs:end","the run ended differently after the earlier runs (%lld, %lld)",(long long)a->aux[0],(long long)b->aux[0]);
  std::string ao(a->out,a->outLen),bo(b->out,b->outLen);
  if(ao!=bo){ size_t d=0; while(d<ao.size()&&d<bo.size()&&ao[d]==bo[d]) ++d; violate("differs:output","the program's output after the earlier runs is \"%s\" where a first run shows \"%s\"",clip(ao,d).c_str(),clip(bo,d).c_str()); }
}
// ---------------------------------------------------------------- C02
static Plan genC02(uint64_t seed,int tier){
  Gen g("C02",seed); g.wild=true; lits(g,true); g.p.cfg["allocchk"]=1; g.p.cfg["guard"]=0; g.nreg=4; setOps(g,"X_DELRAW 12 X_FILL 25"); g.uncaughtPct=0; g.faultPctP=0; g.faultPctD=3;
  int64_t mem=W.memSize; int segs=(int)g.r.range(1,tier?6:4);
  auto newSize=[&](int64_t& left)->int64_t{ int64_t k=g.r.below(100); if(k<30) return g.r.range(0,40); if(k<45) return g.r.range(0,std::max<int64_t>(1,mem/8)); if(k<65) return left+g.r.range(-20,12); if(k<72) return left; if(k<78) return mem+g.r.range(-9,9); if(k<84) return 0; 
      static const uint64_t huge[]={0x7fffffffull,0x80000000ull,0xfffffff8ull,0xfffffff9ull,0xffffffffull,0x100000000ull,0x100000001ull,0x100000008ull,0x1ffffffffull,0x7fffffffffffffffull,0x8000000000000000ull,0xfffffffffffffff0ull,0xfffffffffffffff8ull,0xfffffffffffffff9ull,0xffffffffffffffffull,0x200000010ull}; if(k<94) return (int64_t)huge[g.r.below(16)]; if(k<97) return (int64_t)(((uint64_t)g.r.range(1,7)<<32)+(uint64_t)g.r.below(2000)); return (int64_t)g.r.next(); };
  for(int s=0;s<segs;++s){
    bool run=g.r.chance(75); if(run) g.beginRun(); else if(s==0||g.r.chance(50)) ; 
    int64_t left=mem; std::vector<int64_t> sz(NRAW,-1);
    if(g.r.chance(50)) base(g);
    int n=(int)g.r.range(5,tier?90:50);
    if(g.big&&g.r.chance(60)) for(int i=(int)g.r.range(300,2000);i>0;--i){ Op o{}; o.code=OP_X_NEW; o.a[0]=g.r.below(NRAW)+NRAW; o.a[1]=g.r.range(0,9); Step st; st.t=g.cur; st.op=o; st.op.caught=1; g.p.steps.push_back(st); if(i%50==0) g.op(OP_X_FILL,{g.r.below(NRAW)}); }
    for(int i=0;i<n;++i){ int64_t k=g.r.below(100);
      if(k<55){ int64_t z=newSize(left); if((uint64_t)z<(uint64_t)mem+100&&!run&&s==0&&z>(1<<20)) z=1<<20; if(z<0&&0) z=0; Op o{}; o.code=OP_X_NEW; o.a[0]=g.r.below(NRAW)+NRAW; o.a[1]=z; Step st; st.t=g.cur; st.op=o; st.op.caught=1; if(g.cur=='D'&&g.r.chance(5)) st.op.failAt=1; g.p.steps.push_back(st); int64_t need=(z+7)&~7ll; if(z>=0&&z<=left&&need<=left) left-=need; }
      else if(k<72){ Op o{}; o.code=OP_X_FILL; o.a[0]=g.r.below(NRAW); g.op(OP_X_FILL,{g.r.below(NRAW)}); }
      else if(k<82) g.op(OP_X_DELRAW,{g.r.below(NRAW)});
      else g.step(); }
    if(run) g.endRun();
  }
  return g.p;
}
struct MemObserver : Observer { void after(const Step&,const Op& o,const Res& r,bool) override { if(r.kind!=K_SKIP) SH->nontrivial++; feature(mix((uint64_t)(r.kind*7+(o.code==OP_X_NEW)),(uint64_t)(W.blocks.size()>20?20:W.blocks.size()))); if(o.code==OP_X_FILL&&r.kind==K_OK){ } }
  void runEnd(int rc,int k) override { if(rc&&k!=K_FOREIGN) violate("escape","an exception came out of Run"); } };
static void judgeC02(const Plan& p){ MemObserver o; W.execute(p,o); }
// ---------------------------------------------------------------- C03
static Plan genC03(uint64_t seed,int tier){
  Gen g("C03",seed); g.wild=true; lits(g,true); g.nreg=4; setOps(g,"X_SEND 14 X_THROW 1 P_PARSE 1 P_TRY 1 S_JOIN_C 1 S_CONCAT5 1 S_TRIMA 1 B_INS_O 1"); g.noFaults=true; g.uncaughtPct=3; g.p.cfg["bufmode"]=g.r.below(3);
  int segs=(int)g.r.range(1,3); if(g.r.chance(25)){ base(g); for(int j=(int)g.r.range(1,10);j>0;--j) g.step(); }
  for(int i=0;i<segs;++i){
    if(g.r.chance(20)) g.host(H_PRINT,i);
    g.beginRun(g.r.chance(6)?1:0); base(g); send(g,0); int n=(int)g.r.range(2,tier?25:14); for(int j=0;j<n;++j) g.step(); if(g.r.chance(50)) send(g,1); if(g.r.chance(10)){ Op o{}; o.code=OP_X_THROW; o.a[0]=g.r.below(15); Step s; s.t='P'; s.op=o; g.p.steps.push_back(s); } if(g.r.chance(12)){ Step s; s.t='P'; s.op.code=OP_X_CAP; s.op.a[0]=1; s.op.caught=1; g.p.steps.push_back(s); s.op.code=OP_A_NEW; s.op.a[0]=1; s.op.a[1]=ByteT; s.op.a[2]=100; s.op.a[3]=s.op.a[4]=-1; g.p.steps.push_back(s); } g.endRun();
    if(g.r.chance(25)){ base(g); for(int j=(int)g.r.range(1,8);j>0;--j) g.step(); }
  }
  if(g.r.chance(50)) g.host(H_RUNS,1);
  g.beginRun(); base(g); send(g,0); for(int j=0;j<3;++j) g.step(); send(g,1); g.endRun();
  g.p.cfg["sweep"]=tier?400:45;
  return g.p;
}
// after a direct call was refused memory, every object can still be read and strings still say the same
struct ContainObserver : OutObserver { uint64_t hs[NREG]; int ls[NREG]; ContainObserver(const Plan& p):OutObserver(p){}
  static uint64_t hashS(int i,int& n){ static wchar_t b[70000]; int nt; n=W.lib->inspS(i,b,70000,&nt); return n<0?0:hashBytes(b,(size_t)std::min(n,70000)*4); }
  void before(const Step& s,const Op& o) override { OutObserver::before(s,o); if(s.t=='D') for(int i=0;i<NREG;++i) hs[i]=hashS(i,ls[i]); }
  void after(const Step& s,const Op& o,const Res& r,bool ref) override { OutObserver::after(s,o,r,ref);
    if(ref&&s.t=='D'){ SH->nontrivial++;
      if(r.kind==K_OK){ const char* sig=opSigs[o.code]; bool makes=sig[0]=='S'||sig[0]=='B'||sig[0]=='A'||sig[0]=='E'||sig[0]=='O'; if(makes&&o.failAt==1&&0) violate("ignored","x"); }
      else if(r.kind==K_FOREIGN) violate(std::string("foreign:")+opNames[o.code],"%s, refused memory, raised something that is neither a library nor an out-of-memory exception",opNames[o.code]);
      if(r.kind!=K_OK) for(int i=0;i<NREG;++i){ int n; uint64_t h=hashS(i,n); if(n!=ls[i]||h!=hs[i]) violate(std::string("damaged:")+opNames[o.code],"%s was refused memory and string %d changed (length %d, was %d)",opNames[o.code],i,n,ls[i]); }
      static wchar_t b[70000]; static uint8_t bb[1<<20]; int c,mx,t,d[4]; for(int i=0;i<NREG;++i){ int n=W.lib->inspB(i,b,70000,&c,&mx); if(n>c&&n>=0) violate(std::string("damaged:")+opNames[o.code],"%s was refused memory and builder %d now has length %d beyond its capacity %d",opNames[o.code],i,n,c); if(n==-2) violate(std::string("damaged:")+opNames[o.code],"%s was refused memory and builder %d now has a negative length",opNames[o.code],i); W.lib->inspA(i,&t,d,bb,sizeof bb); } }
  } };
static void bodyC03(const Plan& p){ ContainObserver o(p); W.execute(p,o); o.finish(); SH->aux[0]=W.totalAllocs; SH->aux[1]=W.injStep; }
static void judgeC03(const Plan& p){
  auto one=[&](const Plan& q,int reg){ runChild(q,reg,bodyC03); };
  if(p.get("failAll")){ // a single point, as in a minimised replay
    Plan q=p; q.cfg.erase("failAll"); q.cfg.erase("failAllSticky"); one(q,1); 
  } else { one(p,1); }
  Shared* b=region(1); int64_t n=b->aux[0]; uint64_t lh=b->logHash; int nt=b->nontrivial;
  std::vector<std::pair<int64_t,int>> pts; if(p.get("failAll")) pts.push_back({p.get("failAll"),(int)p.get("failAllSticky")}); else { int64_t lim=p.get("sweep",45); Rng r(p.seed*977+3); if(n*2<=lim) for(int64_t k=1;k<=n;++k) for(int s=0;s<2;++s) pts.push_back({k,s}); else for(int64_t i=0;i<lim;++i) pts.push_back({1+r.below(n),(int)r.below(2)}); }
  for(auto& pt:pts){
    Plan q=p; q.cfg["failAll"]=pt.first; q.cfg["failAllSticky"]=pt.second; one(q,2); Shared* f=region(2); lh=mix(lh,f->logHash); nt+=f->nontrivial; int hit=(int)f->aux[1]; if(hit<0) continue;
    int rs=-1,re=-1; for(int i=0;i<(int)p.steps.size();++i){ if(p.steps[(size_t)i].t=='R'){ rs=i; re=(int)p.steps.size(); for(int j=i+1;j<(int)p.steps.size();++j) if(p.steps[(size_t)j].t=='E'||p.steps[(size_t)j].t=='R'){ re=j; break; } if(hit>=rs&&hit<=re) break; rs=-1; re=-1; } }
    std::map<int,Rec> want; for(uint32_t i=0;i<b->nrec;++i) want[b->rec[i].step]=b->rec[i]; std::map<int,Rec> got; for(uint32_t i=0;i<f->nrec;++i) got[f->rec[i].step]=f->rec[i];
    bool in=false; for(int i=0;i<(int)p.steps.size();++i){ if(p.steps[(size_t)i].t=='R') in=true; if(p.steps[(size_t)i].t=='E') in=false; if(i==hit) continue; bool before=i<hit; if(!before&&(!in||(i>=rs&&i<=re))) continue; auto w=want.find(i),g=got.find(i); if(w==want.end()&&g==got.end()) continue; SH->step=i;
      if(w==want.end()||g==got.end()||w->second.kind!=g->second.kind||w->second.hash!=g->second.hash) { snprintf(SH->out,sizeof SH->out,"cfg failAll %lld\ncfg failAllSticky %d\n",(long long)pt.first,pt.second); SH->outLen=(uint32_t)strlen(SH->out); SH->aux[7]=pt.first; SH->aux[8]=pt.second; violate(std::string("later-run:")+opNames[p.steps[(size_t)i].op.code],"memory was refused at allocation %lld%s (step %d); step %d (%s) of a %s run then does not do what it does without the refusal",(long long)pt.first,pt.second?" and from then on":"",hit,i,describeStep(p.steps[(size_t)i]).c_str(),before?"previous":"later"); } }
  }
  SH->logHash=lh; SH->nontrivial=nt;
}
// ---------------------------------------------------------------- C04
static Plan genC04(uint64_t seed,int tier){
  Gen g("C04",seed); g.wild=true; lits(g,true); g.nreg=4; setOps(g,"X_SEND 14 X_THROW 3 X_THROWNEST 3 X_RETHROW 4 P_PARSE 3 D_CTOR 2 M_ROUND3 1 M_DIVREM 1 S_GETCH 3 A_GETLEN 2 B_GETCH 2 O_CMP 1 C_CLASSS 1 A_ADDRGET 2 A_COPY 2 O_AS 1 S_CONCAT_A 2 S_JOIN_C 2 S_JOIN_S 3 B_APP_O 3 B_INS_O 3 A_IDXOF 2 O_EQS 2"); g.faultPctP=0; g.faultPctD=0; g.uncaughtPct=20; bool own=g.r.chance(40); g.p.cfg["bufmode"]=g.r.below(3); g.p.cfg["bufsize"]=g.r.chance(30)?g.r.range(16,200):4096; g.p.cfg["locale"]=g.r.below(2);
  if(g.r.chance(20)) g.p.lits[1]=L""; g.m.reset(g.p);
  int segs=(int)g.r.range(1,tier?6:4);
  for(int i=0;i<segs;++i){
    if(g.r.chance(40)) g.host(H_PRINT,i); if(g.r.chance(10)){ base(g); for(int j=(int)g.r.range(1,6);j>0;--j) g.step(); }
    g.beginRun(); if(g.r.chance(92)) base(g); if(own&&g.r.chance(75)){ int k=(int)g.r.below(14); g.op(OP_O_USR,{0,2,g.r.below((int64_t)g.p.lits.size()),RK_S*64}); g.op(OP_O_USR,{1,k,g.r.below((int64_t)g.p.lits.size()),k==4||k==5||k==8?RK_B*64:k==3||k>8?RK_O*64:RK_S*64}); g.op(OP_A_NEW,{1,ObjectT,g.r.range(1,4),-1,-1}); for(int j=(int)g.r.range(1,3);j>0;--j) g.op(OP_A_ADDRSETO,{1,g.r.below(4),-1,-1,g.r.chance(70)?RK_O*64+g.r.below(2):RK_S*64}); } int n=(int)g.r.range(0,12); for(int j=0;j<n;++j) g.step();
    if(g.r.chance(60)){ Step s; s.t='P'; s.op.code=g.r.chance(80)?OP_X_THROW:OP_X_THROWNEST; s.op.a[0]=g.r.chance(50)?0:g.r.below(16); s.op.a[1]=s.op.code==OP_X_THROW?g.r.below(2):g.r.below(4); s.op.a[2]=g.r.below(2); s.op.caught=g.r.chance(20); g.p.steps.push_back(s); }
    if(g.r.chance(60)) send(g,(int)g.r.below(2)); if(g.r.chance(40)) g.step();
    g.endRun(); if(g.r.chance(30)) g.host(H_PRINT,100+i);
  }
  return g.p;
}
static void judgeC04(const Plan& p){ OutObserver o(p); ModelObserver mo(p,[](int){ return false; },KS|KA); struct Wrap: ModelObserver { using ModelObserver::ModelObserver; void runEnd(int,int) override { m.forget(); } } w(p,[](int){ return false; },KS|KA); w.m.reset(p); o.inner=&w; W.execute(p,o); o.finish(); }
// ---------------------------------------------------------------- C05
static Plan genC05(uint64_t seed,int tier){
  Gen g("C05",seed); g.wild=true; g.textKinds=1; int nl=(int)g.r.range(6,14); g.p.cfg["locale"]=g.r.below(2); bool plainText=g.r.chance(40);
  for(int i=0;i<nl;++i){ wchar_t b[40]; swprintf(b,40,L"<%d:",i); std::wstring t=b; int64_t k=g.r.below(100); int64_t n=k<60?g.r.below(20):k<85?g.r.range(20,120):g.r.range(120,900); if(g.big&&g.r.chance(35)) n=g.r.range(900,5800); for(int64_t j=0;j<n;++j){ int64_t q=g.r.below(200); t+=!plainText&&q<6?(wchar_t)0xE9:!plainText&&q<9?(wchar_t)0x20AC:!plainText&&q<10?(wchar_t)0xD800:!plainText&&q<11?(wchar_t)0x1F600:q<13?L'%':(wchar_t)(L'a'+g.r.below(26)); } g.p.lits.push_back(t+L">"); }
  if(g.r.chance(30)) g.p.lits.push_back(L""); g.p.lits.push_back(L"%s%n%ls%d"); g.m.reset(g.p);
  g.p.cfg["bufmode"]=g.r.below(3); static const int bs[]={16,64,128,200,512,1024,4096}; g.p.cfg["bufsize"]=bs[g.r.below(7)]; g.nreg=5; setOps(g,"S_LIT 20 X_SEND 60"); g.maxText=5900; g.faultPctP=0; g.faultPctD=0; g.uncaughtPct=0;
  int windows=g.r.chance(60)?(int)g.r.range(1,3):0; int mode=0; int64_t pr=1000; int uniq=0; bool lengthy=g.big&&g.r.chance(60);
  if(lengthy){ static const int64_t len[]={8190,8192,16383,16384,32760,32768,65530,65536,66400}; g.op(OP_S_REPEAT,{5,g.r.chance(70)||!g.p.cfg["locale"]?(int64_t)(L'a'+g.r.below(26)):0x20AC,g.r.chance(50)?len[g.r.below(9)]:g.r.range(5900,70000)}); g.op(OP_S_LIT,{0,g.r.below((int64_t)g.p.lits.size())}); g.op(OP_S_CONCAT2,{5,5,0}); }   // a message of tens of thousands of characters, made by the host
  auto act=[&](int n){ for(int i=0;i<n;++i){ int64_t k=g.r.below(100);
      if(k<15){ g.host(H_PRINT,pr++); } else if(k<18) g.host(H_FLUSH);
      else if(k<26&&windows>0&&!mode){ --windows; mode=(int)g.r.range(1,4); static const int sh[]={0,1,5,17,63,64,100,500,4000}; g.host(H_OUT,mode,sh[g.r.below(9)]); }
      else if(k<40&&mode){ mode=0; g.host(H_OUT,0); wchar_t b[40]; swprintf(b,40,L"after-recovery-%d",++uniq); int l=g.lit(b); g.op(OP_S_LIT,{4,l}); send(g,4); }
      else if(lengthy&&k>92) send(g,5);
      else if(k<48) { int reg=(int)g.r.below(4); g.op(OP_S_REPEAT,{reg,g.r.chance(85)?(int64_t)(L'a'+g.r.below(26)):0,g.r.range(1,20)}); send(g,reg); }
      else if(k<75){ int reg=(int)g.r.below(4); g.op(OP_S_LIT,{reg,g.r.below((int64_t)g.p.lits.size())}); send(g,reg); }
      else g.step(); } };
  int segs=(int)g.r.range(1,tier?5:3); for(int i=0;i<segs;++i){ if(g.r.chance(20)) act((int)g.r.range(1,6)); g.beginRun(); g.op(OP_S_LIT,{0,0}); act((int)g.r.range(2,25)); if(g.big&&!mode&&g.r.chance(50)){ int b=(int)g.r.range(100,900); for(int j=0;j<b;++j){ if(j%7==0) g.op(OP_S_LIT,{0,g.r.below((int64_t)g.p.lits.size())}); send(g,(int)g.r.below(1)); } } if(g.r.chance(15)&&!plainText){ Step s; s.t='P'; s.op.code=OP_X_THROW; s.op.a[0]=0; s.op.a[1]=0; g.p.steps.push_back(s); } g.endRun(); }
  return g.p;
}
static void judgeC05(const Plan& p){ struct Wrap: ModelObserver { using ModelObserver::ModelObserver; void runEnd(int,int) override { m.forget(); } } w(p,[](int){ return false; },KS|KA|KB); w.m.reset(p); OutObserver o(p); o.inner=&w; W.execute(p,o); o.finish(); }
extern const std::vector<Scenario> runScenarios;
const std::vector<Scenario> runScenarios={
 {"C01","runs start afresh",genC01,judgeC01,"asan plain plain4k asanbig"},{"C02","memory grants",genC02,judgeC02,"plain plain1k plain4k plain64k plain8m asan"},{"C03","out of memory is contained",genC03,judgeC03,"asan plain4k asanbig plain"},
 {"C04","escaping exceptions",genC04,judgeC04,"asanbig plain asan"},{"C05","messages",genC05,judgeC05,"plain asanbig"}};
