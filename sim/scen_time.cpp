// C06-C09: the wall clock and the time zone.
#include "gen.h"
#include <cmath>
static const int64_t EPOCH=621355968000000000ll, DAY=864000000000ll, MAXT=3155378975999999999ll;   // ticks
static int64_t fdiv(int64_t a,int64_t b){ int64_t q=a/b; if(a%b&&((a<0)!=(b<0))) --q; return q; }
struct TimeObserver : Observer {
  const Plan& p; int zone=0; struct Iv { int64_t a,b; };
  explicit TimeObserver(const Plan& q):p(q){}
  const Zone& z() const { static Zone utc; return p.zones.empty()?utc:p.zones[(size_t)zone]; }
  void host(const Step& s) override { if(s.h==H_TZ&&s.ha[0]>=0&&s.ha[0]<(int64_t)p.zones.size()) zone=(int)s.ha[0]; }
  // what the platform clock showed between the start and the end of the call
  std::vector<Iv> shown() const { std::vector<int64_t> v=W.reads; v.push_back(W.now); std::vector<Iv> r; r.push_back({W.readStart,W.readStart}); for(size_t i=0;i+1<v.size();++i){ if(v[i+1]-v[i]==W.adv&&W.adv>=0) r.push_back({v[i],v[i+1]}); else { r.push_back({v[i],v[i]}); r.push_back({v[i+1],v[i+1]}); } } return r; }
  std::string show(const std::vector<Iv>& v) const { std::string s; char b[100]; int64_t lo=v[0].a,hi=v[0].b; for(auto& i:v){ lo=std::min(lo,i.a); hi=std::max(hi,i.b); } snprintf(b,100,"%lld..%lld ns",(long long)lo,(long long)hi); return b; }
  // the instants whose local time is l (seconds since 1970)
  int utcOf(int64_t l,int64_t* out,int* dst) const { int n=0; for(int64_t off:z().offsets()){ int d; int64_t u=l-off; if(n<8&&zoneOffset(z(),u,&d)==off){ out[n]=u; dst[n]=d; ++n; } } return n; }
  bool zoneKnown(int64_t sec) const { if(!z().tr.empty()&&(!z().has||sec<253402300800ll-4*86400)) return true; return !z().has||(sec>=365ll*86400+2*86400&&sec<253402300800ll-4*86400); }   // libc applies rules of daylight saving from 1970 on
  virtual void check(const Op&,const Res&){}
  void after(const Step&,const Op& o,const Res& r,bool refused) override { if(refused) return; check(o,r); }
  void needOk(const Op& o,const Res& r){ if(r.kind!=K_OK) violate(std::string("fails:")+opNames[o.code],"%s %lld ended with %s",opNames[o.code],(long long)o.a[0],r.kind==K_EXC?r.exc:"no result"); SH->nontrivial++; }
};
struct C06 : TimeObserver { using TimeObserver::TimeObserver;
  void check(const Op& o,const Res& r) override {
    if(o.code!=OP_K_UTC&&o.code!=OP_K_NOW&&o.code!=OP_K_TODAY) return; needOk(o,r); auto iv=shown(); int64_t t=r.v[0];
    feature(mix((uint64_t)o.code,mix((uint64_t)(z().has*8+(W.adv>0)*2+(W.reads.size()>1)),(uint64_t)(iv.size()>9?9:iv.size())))); feature(mix(99,(uint64_t)(z().std/900)*2+(uint64_t)zoneOffset(z(),fdiv(W.readStart,1000000000))));
    if(o.code==OP_K_TODAY){ int64_t lo=INT64_MAX,hi=INT64_MIN; for(auto& i:iv) for(int64_t c:{i.a,i.b}){ int64_t s=fdiv(c,1000000000); int64_t d=fdiv(s+zoneOffset(z(),s),86400); lo=std::min(lo,d); hi=std::max(hi,d); }
      int64_t d=fdiv(t-EPOCH,DAY); bool ok=(t-EPOCH)%DAY==0&&d>=lo&&d<=hi; if(ok&&W.adv==0){ ok=false; for(auto& i:iv) for(int64_t c:{i.a,i.b}){ int64_t s=fdiv(c,1000000000); if(fdiv(s+zoneOffset(z(),s),86400)==d) ok=true; } }
      if(!ok) violate("today","today's date is %lld ticks (day %lld) while the local date during the call was day %lld to %lld; zone %s",(long long)t,(long long)d,(long long)lo,(long long)hi,z().tz().c_str()); return; }
    int64_t ms=fdiv(t-EPOCH,10000); bool ok=false; bool local=o.code==OP_K_NOW; std::vector<int64_t> offs={0}; if(local) offs=z().offsets();
    for(int64_t off:offs){ int64_t a=ms*1000000-off*1000000000; if(local&&zoneOffset(z(),fdiv(a,1000000000))!=off) continue; for(auto& i:iv) if(a<=i.b&&a+999999>=i.a) ok=true; }
    if(!ok) violate(local?"local-reading":"utc-reading","the %s time read is %lld ms since 1970; during the call the platform clock showed %s%s%s",local?"local":"UTC",(long long)ms,show(iv).c_str(),local?" in zone ":"",local?z().tz().c_str():""); }
};
struct C07 : TimeObserver { using TimeObserver::TimeObserver;
  void check(const Op& o,const Res& r) override {
    if(o.code!=OP_D_LOCAL&&o.code!=OP_D_UTC) return; int64_t t=o.a[0]; if(t<2*DAY||t>MAXT-2*DAY) return; int64_t sec=fdiv(t-EPOCH,10000000); if(!zoneKnown(sec)) return;
    if(o.code==OP_D_LOCAL){ needOk(o,r); int64_t off=zoneOffset(z(),sec); feature(mix(7,mix((uint64_t)off,(uint64_t)(sec/86400/30%24)))); if(r.v[0]!=t+off*10000000) violate("to-local","UTC %lld ticks becomes local %lld: offset %lld s applied, zone %s has %lld s at that instant (clock at %lld s)",(long long)t,(long long)r.v[0],(long long)((r.v[0]-t)/10000000),z().tz().c_str(),(long long)off,(long long)fdiv(W.now,1000000000)); }
    else { int64_t u[8]; int d[8]; int n=utcOf(sec,u,d); needOk(o,r);
      if(n!=1){ // a local time that occurs twice or not at all: one of the offsets the zone has around it
        int64_t got=fdiv(t-r.v[0],10000000); bool ok=false; if(n>1){ for(int i=0;i<n;++i) if(r.v[0]==t-(sec-u[i])*10000000) ok=true; } else { for(int h=-40;h<=40;++h) if(zoneOffset(z(),sec+h*3600)==got&&(t-r.v[0])%10000000==0) ok=true; } if(!ok) violate("to-utc-ambiguous","local %lld ticks (which occurs %d times) becomes UTC %lld: offset %lld s applied; zone %s",(long long)t,n,(long long)r.v[0],(long long)got,z().tz().c_str()); return; } int64_t want=t-(sec-u[0])*10000000; feature(mix(8,mix((uint64_t)(sec-u[0]),(uint64_t)(sec/86400/30%24)))); if(r.v[0]!=want) violate("to-utc","local %lld ticks becomes UTC %lld: offset %lld s applied, zone %s has %lld s at that local time (clock at %lld s)",(long long)t,(long long)r.v[0],(long long)((t-r.v[0])/10000000),z().tz().c_str(),(long long)(sec-u[0]),(long long)fdiv(W.now,1000000000)); } }
};
struct C08 : TimeObserver { using TimeObserver::TimeObserver;
  void check(const Op& o,const Res& r) override {
    if(o.code!=OP_D_DST) return; int64_t t=o.a[0]; if(t<2*DAY||t>MAXT-2*DAY) return; int64_t sec=fdiv(t-EPOCH,10000000); if(!zoneKnown(sec)) return; int64_t u[8]; int d[8]; int n=utcOf(sec,u,d); if(n!=1) return; needOk(o,r);
    feature(mix(9,mix((uint64_t)(d[0]*64+W.gmode),(uint64_t)(sec/86400/15%25)+(uint64_t)z().std)));
    if((r.v[0]!=0)!=(d[0]!=0)) violate("dst","local %lld ticks is reported %s daylight saving; zone %s is %s it then (clock at %lld s)",(long long)t,r.v[0]?"in":"outside",z().tz().c_str(),d[0]?"in":"outside",(long long)fdiv(W.now,1000000000)); }
};
struct C09 : TimeObserver { using TimeObserver::TimeObserver;
  struct Reading { bool known=false; int64_t lo=0,hi=0; bool dl=false; } sl[64];       // ns on the platform clock (a reading), or a deadline
  static bool cmp(int64_t sel,int64_t x,int64_t y,int64_t got,bool& known){ known=true; switch(sel){ case 0: case 1: return (got<0?-1:got>0?1:0)==(x<y?-1:x>y?1:0); case 2: case 3: case 9: return (got!=0)==(x==y); case 4: return (got!=0)==(x>y); case 5: return (got!=0)==(x>=y); case 6: return (got!=0)==(x!=y); case 7: return (got!=0)==(x<y); case 8: return (got!=0)==(x<=y); } known=false; return true; }
  void after(const Step& s,const Op& o,const Res& r,bool refused) override { if(refused) return;
    const int64_t* raw=s.op.a; auto slot=[&](int i){ return ((uint64_t)raw[i]>>32)==((uint64_t)SLOT>>32)?(int)(raw[i]&63):-1; };
    if(s.out>=0&&r.kind==K_OK) sl[s.out&63]=Reading();
    switch(o.code){
    case OP_K_UTC: { needOk(o,r); auto iv=shown(); int64_t lo=iv[0].a,hi=iv[0].b; for(auto& i:iv){ lo=std::min(lo,i.a); hi=std::max(hi,i.b); } int64_t ns=(r.v[0]-EPOCH)*100; if(s.out>=0) sl[s.out&63]={true,lo,hi,false}; if(ns<=lo-1000000||ns>hi) violate("reading","a reading of %lld ns while the platform clock showed %lld..%lld",(long long)ns,(long long)lo,(long long)hi); } break;
    case OP_D_SUBD: { needOk(o,r); int a=slot(0),b=slot(1); for(int k=0;k<2;++k){ if(r.v[k]!=o.a[0]-o.a[1]) violate("difference","the difference of readings %lld and %lld is %lld ticks instead of %lld",(long long)o.a[0],(long long)o.a[1],(long long)r.v[k],(long long)(o.a[0]-o.a[1]));
        if(a>=0&&b>=0&&sl[a].known&&sl[b].known){ int64_t e=r.v[k]*100; int64_t lo=sl[a].lo-sl[b].hi-1000000,hi=sl[a].hi-sl[b].lo+1000000; if(e<=lo||e>=hi) violate("elapsed","the elapsed time computed is %lld ns, the platform clock showed %lld ns between the readings",(long long)e,(long long)(sl[a].lo-sl[b].lo)); feature(mix(11,(uint64_t)(e<0)*100+(uint64_t)std::log2(1.0+std::fabs((double)e)))); } } } break;
    case OP_T_TOT: { needOk(o,r); static const double per[]={864000000000.0,36000000000.0,10000.0,600000000.0,10000000.0}; double want=(double)((long double)o.a[1]/(long double)per[o.a[0]]),got; memcpy(&got,&r.v[0],8); double tol=std::fabs(want)*1e-12+1e-15; if(!(std::fabs(got-want)<=tol)) violate("total","a span of %lld ticks totals %.17g %s instead of %.17g",(long long)o.a[1],got,o.a[0]==0?"days":o.a[0]==1?"hours":o.a[0]==2?"milliseconds":o.a[0]==3?"minutes":"seconds",want); } break;
    case OP_D_CMP: case OP_T_CMP: { needOk(o,r); bool known; if(!cmp(o.a[0],o.a[1],o.a[2],r.v[0],known)) violate("compare","comparison %lld of %lld and %lld gives %lld",(long long)o.a[0],(long long)o.a[1],(long long)o.a[2],(long long)r.v[0]); (void)known; feature(mix(12,(uint64_t)(o.a[0]*4+(o.a[1]<o.a[2])*2+(o.a[1]==o.a[2])))); } break;
    case OP_D_ADD: { static const double ms[]={86400000,3600000,1,60000,1000}; double d; memcpy(&d,&o.a[2],8); double dm=d*ms[o.a[0]]; int64_t im=(int64_t)llround(dm); if(std::fabs(dm-(double)im)>1e-6||o.a[1]<0||o.a[1]>MAXT) break; int64_t want=o.a[1]+im*10000; if(want<0||want>MAXT) break; needOk(o,r); if(r.v[0]!=want) violate("deadline","the deadline %.17g %s after %lld is %lld instead of %lld",d,o.a[0]==0?"days":o.a[0]==1?"hours":o.a[0]==2?"milliseconds":o.a[0]==3?"minutes":"seconds",(long long)o.a[1],(long long)r.v[0],(long long)want); } break;
    case OP_D_ADDT: case OP_D_ADDTS: case OP_D_SUBTS: { __int128 w=(__int128)o.a[0]+(o.code==OP_D_SUBTS?-(__int128)o.a[1]:(__int128)o.a[1]); if(w<0||w>MAXT||o.a[0]<0||o.a[0]>MAXT) break; needOk(o,r); for(int k=0;k<r.nv;++k) if(r.v[k]!=(int64_t)w) violate("deadline","%s of %lld and %lld ticks gives %lld",opNames[o.code],(long long)o.a[0],(long long)o.a[1],(long long)r.v[k]); } break;
    case OP_T_BIN: { if(o.a[0]>3) break; __int128 w=(__int128)o.a[1]+((o.a[0]&1)?-(__int128)o.a[2]:(__int128)o.a[2]); if(w>INT64_MAX||w<INT64_MIN) break; needOk(o,r); if(r.v[0]!=(int64_t)w) violate("span-sum","spans %lld and %lld combined give %lld",(long long)o.a[1],(long long)o.a[2],(long long)r.v[0]); } break;
    default: break; } }
};
// ---------------------------------------------------------------- generation
static void rawStep(Gen& g,int code,std::initializer_list<int64_t> a,int out=-1){ Step s; s.t=g.cur; s.op.code=code; int i=0; for(auto x:a) s.op.a[i++]=x; s.op.caught=1; s.out=out; g.p.steps.push_back(s); }
static void zones(Gen& g,int n){ for(int i=0;i<n;++i) g.p.zones.push_back(g.zone()); }
static int64_t transition(Gen& g,const Zone& z,int64_t y){ // an instant near a change of daylight saving
  if(!z.tr.empty()&&(!z.has||g.r.chance(60))) return z.tr[(size_t)g.r.below((int64_t)z.tr.size())].at;
  int64_t base=(int64_t)((y-1970)*365.2425*86400); int64_t a=base,prev=zoneOffset(z,a); for(int k=0;k<367*24;++k){ int64_t b=a+3600; int64_t o=zoneOffset(z,b); if(o!=prev&&g.r.chance(50)){ while(b-a>1){ int64_t m=(a+b)/2; if(zoneOffset(z,m)==prev) a=m; else b=m; } return b; } prev=o; a=b; } return a; }
// a date-time (ticks) worth converting in that zone; local: the value will be read as local time
static int64_t instant(Gen& g,const Zone& z){
  int64_t k=g.r.below(100); int64_t s;
  if((z.has||!z.tr.empty())&&k<35){ s=transition(g,z,g.r.chance(70)?g.r.range(1990,2040):g.r.range(1972,2500)); static const int64_t d[]={0,-1,1,3600,-3600,7200,-7200,86400,-86400,1800}; s+=d[g.r.below(10)]; if(g.r.chance(60)){ auto of=z.offsets(); s+=of[(size_t)g.r.below((int64_t)of.size())]; } if(g.r.chance(40)) s+=g.r.range(-5000,5000); }
  else if(k<55){ s=g.r.range(0,2000000000ll); }
  else if(k<75){ s=g.r.range(z.has&&z.tr.empty()?400*86400ll:-62135596800ll+3*86400,253402300800ll-5*86400); }
  else if(k<90){ int64_t d=g.r.range(400,60000); static const int64_t tod[]={0,86399,1,3600,82800,43200,19800,70000}; s=d*86400+tod[g.r.below(8)]; }
  else s=z.has&&z.tr.empty()?g.r.range(400*86400ll,4102444800ll):g.r.range(-62135596800ll+3*86400,0);
  return EPOCH+s*10000000+(g.r.chance(60)?0:g.r.below(10000000));
}
static void clockNoise(Gen& g,int nz){
  int64_t k=g.r.below(100);
  if(k<25) g.host(H_TZ,g.r.below(nz)); else if(k<45) g.host(H_CLKSET,g.clockValue()); else if(k<60){ static const int64_t st[]={1,999999,1000000,500000000,1000000000,3600000000000ll,86400000000000ll,-1,-1000000,-1000000000,-3600000000000ll,-86400000000000ll,15552000000000000ll,-15552000000000000ll}; g.host(H_CLKSTEP,st[g.r.below(14)]); }
  else if(k<75) g.host(H_GARB,(int64_t)(g.r.next()&0xffffff),g.r.below(6)); else if(k<85) rawStep(g,OP_K_NOW,{}); else if(k<90) rawStep(g,OP_D_DST,{instant(g,g.p.zones[(size_t)g.r.below(nz)])}); else if(k<95) rawStep(g,OP_D_LOCAL,{g.ticks()}); else rawStep(g,OP_K_TODAY,{});
}
static void shapeRuns(Gen& g,int n,const std::function<void()>& one){ while(n>0){ int k=(int)std::min<int64_t>(n,g.r.range(3,25)); bool run=g.r.chance(60); if(run) g.beginRun(); for(int i=0;i<k;++i) one(); if(run) g.endRun(); n-=k; } }
static Plan genC06(uint64_t seed,int tier){
  Gen g("C06",seed); int nz=(int)g.r.range(1,4); zones(g,nz); g.p.cfg["clock"]=g.clockValue(); int zone=0;
  auto tz=[&]{ zone=(int)g.r.below(nz); g.host(H_TZ,zone); };
  shapeRuns(g,(int)g.r.range(10,tier?200:70),[&]{
    int64_t k=g.r.below(100);
    if(k<10) tz(); else if(k<25){ int64_t c=g.clockValue(); const Zone& z=g.p.zones[(size_t)zone]; int64_t q=g.r.below(100); if(q<25&&(z.has||!z.tr.empty())){ int64_t at=transition(g,z,g.r.range(1972,2250)); if(at>365ll*86400&&at<9151000000ll) c=at*1000000000+(g.r.chance(50)?-1-g.r.below(2000000000):g.r.below(2000000)); } else if(q<55){ int64_t s=c/1000000000; s=s-(s+zoneOffset(z,s))%86400; c=s*1000000000+(g.r.chance(60)?-1-g.r.below(3000000):g.r.below(3000000)); } g.host(H_CLKSET,c); }
    else if(k<38){ static const int64_t ad[]={0,0,1,100,999999,1000000,300000000,999999999,1000000000,60000000000ll,7200000000000ll,43200000000000ll}; g.host(H_CLKADV,ad[g.r.below(12)]); }
    else if(k<50){ static const int64_t ju[]={-1,-1000000,-1000000000,-3600000000000ll,-86400000000000ll,1000000,1000000000,86400000000000ll,31536000000000000ll,-500000000}; g.host(H_CLKJUMP,ju[g.r.below(10)]); rawStep(g,(int)(OP_K_UTC+g.r.below(3)),{}); }
    else if(k<55) g.host(H_CLKSTEP,g.r.range(-100,100)*g.r.range(1,1000000000)); else if(k<60) g.host(H_GARB,(int64_t)(g.r.next()&0xffffff),g.r.below(6));
    else if(k<65) rawStep(g,g.r.chance(50)?OP_D_LOCAL:OP_D_UTC,{instant(g,g.p.zones[(size_t)zone])}); else if(k<68) rawStep(g,OP_D_DST,{instant(g,g.p.zones[(size_t)zone])});
    else rawStep(g,(int)(k<80?OP_K_UTC:k<92?OP_K_NOW:OP_K_TODAY),{}); });
  return g.p;
}
static Plan conv(const char* id,uint64_t seed,int tier,bool dst){
  Gen g(id,seed); int nz=(int)g.r.range(1,4); zones(g,nz); g.p.cfg["clock"]=g.clockValue(); int zone=0;
  shapeRuns(g,(int)g.r.range(10,tier?200:70),[&]{
    int64_t k=g.r.below(100);
    if(k<12){ zone=(int)g.r.below(nz); g.host(H_TZ,zone); } else if(k<32){ size_t n=g.p.steps.size(); clockNoise(g,nz); for(size_t i=n;i<g.p.steps.size();++i) if(g.p.steps[i].t=='H'&&g.p.steps[i].h==H_TZ) zone=(int)g.p.steps[i].ha[0]; }
    else if(dst){ rawStep(g,OP_D_DST,{instant(g,g.p.zones[(size_t)zone])}); if(g.r.chance(30)) g.p.steps.push_back(g.p.steps.back()); }
    else { int64_t t=instant(g,g.p.zones[(size_t)zone]); int64_t q=g.r.below(10); if(q<4) rawStep(g,OP_D_LOCAL,{t}); else if(q<8) rawStep(g,OP_D_UTC,{t}); else { int s=(int)g.r.below(60); rawStep(g,OP_D_LOCAL,{t},s); rawStep(g,OP_D_UTC,{SLOT|s}); } } });
  return g.p;
}
static Plan genC07(uint64_t s,int t){ return conv("C07",s,t,false); }
static Plan genC08(uint64_t s,int t){ return conv("C08",s,t,true); }
static Plan genC09(uint64_t seed,int tier){
  Gen g("C09",seed); int nz=(int)g.r.range(1,3); zones(g,nz); g.p.cfg["clock"]=g.clockValue()/2+500000000000000000ll; int have=0; int nslot=0;
  auto read=[&]()->int64_t{ int s=nslot++%40; rawStep(g,OP_K_UTC,{},s); have=std::max(have,s+1); return SLOT|s; };
  auto delta=[&]()->int64_t{ int64_t k=g.r.below(100); int64_t sgn=g.r.chance(30)?-1:1; if(k<25) return sgn*g.r.below(3000000); if(k<40) return sgn*1000000*g.r.range(0,5); if(k<60) return sgn*(int64_t)(g.r.next()%10000000000ull); if(k<80) return sgn*(int64_t)(g.r.next()%864000000000000ull); return sgn*(int64_t)(g.r.next()%(uint64_t)150000000000000000ll)/ (1+g.r.below(1000)); };
  shapeRuns(g,(int)g.r.range(8,tier?120:40),[&]{
    int64_t k=g.r.below(100); if(have==0) read();
    auto any=[&]{ return SLOT|g.r.below(have); };
    if(k<20){ g.host(H_CLKSTEP,delta()); read(); }
    else if(k<45){ int64_t a=any(),b=any(); int d=(int)(40+g.r.below(10)); rawStep(g,OP_D_SUBD,{a,b},d); rawStep(g,OP_T_TOT,{g.r.below(5),SLOT|d}); if(g.r.chance(30)) rawStep(g,OP_T_CMP,{g.r.below(9),SLOT|d,g.r.chance(50)?0:SLOT|d}); if(g.r.chance(20)) rawStep(g,OP_T_BIN,{g.r.below(4),SLOT|d,delta()/100}); }
    else if(k<60) rawStep(g,OP_D_CMP,{g.r.below(10),any(),any()});
    else if(k<66) { static const int64_t ad[]={0,0,1,1000000,333333}; g.host(H_CLKADV,ad[g.r.below(5)]); }
    else if(k<72) clockNoise(g,nz);
    else { // wait for a deadline
      int64_t a=read(); int d=50+(int)g.r.below(10); int64_t ms; int64_t q=g.r.below(8); int64_t m; int64_t sub=g.r.chance(40)?g.r.range(-9999,9999):0;
      switch(q){ case 0: m=g.r.range(-3,400); ms=m*21600000; rawStep(g,OP_D_ADD,{0,a,D(m/4.0)},d); break; case 1: m=g.r.range(-10,500); ms=m*900000; rawStep(g,OP_D_ADD,{1,a,D(m/4.0)},d); break; case 2: case 3: ms=g.r.chance(50)?g.r.range(0,5000):g.r.range(-100000,100000000); rawStep(g,OP_D_ADD,{2,a,D((double)ms)},d); break; case 4: m=g.r.range(0,3000); ms=m*15000; rawStep(g,OP_D_ADD,{3,a,D(m/4.0)},d); break; case 5: m=g.r.range(0,40000); ms=m*125; rawStep(g,OP_D_ADD,{4,a,D(m/8.0)},d); break;
        case 6: ms=g.r.range(-50,100000); rawStep(g,OP_D_ADDT,{a,ms*10000+sub},d); break; default: ms=g.r.range(-50,100000000); rawStep(g,g.r.chance(70)?OP_D_ADDTS:OP_D_SUBTS,{a,ms*10000+sub},d); }
      int64_t gone=0; for(int j=0;j<4;++j){ int64_t left=ms*1000000-gone; int64_t st=g.r.chance(40)?left:g.r.chance(50)?left/2:g.r.chance(50)?left+(g.r.chance(50)?1000000:-1000000)*g.r.below(3):delta()/1000; gone+=st; g.host(H_CLKSTEP,st); int64_t b=read(); rawStep(g,OP_D_CMP,{g.r.below(10),b,SLOT|d}); rawStep(g,OP_D_CMP,{5,b,SLOT|d}); } } });
  return g.p;
}
static void j6(const Plan& p){ C06 o(p); W.execute(p,o); } static void j7(const Plan& p){ C07 o(p); W.execute(p,o); } static void j8(const Plan& p){ C08 o(p); W.execute(p,o); } static void j9(const Plan& p){ C09 o(p); W.execute(p,o); }
extern const std::vector<Scenario> timeScenarios;
const std::vector<Scenario> timeScenarios={{"C06","clock readings",genC06,j6,"plain"},{"C07","zone conversion",genC07,j7,"plain asan"},{"C08","daylight-saving flag",genC08,j8,"plain asan"},{"C09","elapsed time and deadlines",genC09,j9,"plain"}};
