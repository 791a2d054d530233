// C10-C14, C17: every operation and every live object against the reference model.
#include "gen.h"
static int baseSteps(Gen& g,int tier){ return (int)(g.r.chance(15)?g.r.range(80,tier?400:160):g.r.range(12,60)); }
static void common(Gen& g){ g.p.cfg["locale"]=g.r.below(2); if(g.r.chance(40)){ static const int at[]={0,8,4,12,4,12,2,6,10,14,1,7}; g.p.cfg["bufat"]=at[g.r.below(12)]; } g.m.reset(g.p); }   // the platform's memory starts at any address its elements can have
static bool pre(int c,const char* p){ return strncmp(opNames[c],p,strlen(p))==0; }
static void charArr(Gen& g,int reg,int len){ g.op(OP_A_NEW,{reg,CharT,len,-1,-1}); for(int i=0;i<len&&i<12;++i){ wchar_t c=g.ch(); g.op(OP_A_ADDRSET,{reg,i,-1,-1,c}); } }
static void more(Gen& g,const char* w){ for(auto& x:weights(w)){ bool f=false; for(auto& o:g.ops) if(o.op==x.op){ g.opTotal+=x.w-o.w; o.w=x.w; f=true; } if(!f){ g.ops.push_back(x); g.opTotal+=x.w; } } }
static int someLit(Gen& g){ return (int)g.r.below((int64_t)g.p.lits.size()); }

// objects of the program's own classes, and an array that holds some of them
static void ownObjects(Gen& g,int arr){
  auto one=[&](int r){ int k=(int)g.r.below(14); int b=(int)g.r.below(3); g.op(OP_O_USR,{r,k,g.r.below((int64_t)g.p.lits.size()),k==4||k==5||k==8?RK_B*64+b:k==3||k>8?(g.r.chance(60)?RK_O*64+g.r.below(3):RK_S*64+g.r.below(4)):RK_S*64}); };
  for(int i=0;i<3;++i) one(i); int n=(int)g.r.range(2,5); g.op(OP_A_NEW,{arr,ObjectT,n,-1,-1}); for(int j=0;j<n;++j) if(g.r.chance(85)) g.op(OP_A_ADDRSETO,{arr,j,-1,-1,g.r.chance(75)?RK_O*64+g.r.below(3):RK_S*64+g.r.below(4)});
}
static Plan genC10(uint64_t seed,int tier){
  Gen g("C10",seed); g.makeLits(8); common(g);
  g.use("B_NEW 2 B_NEWC 3 B_NEWCM 5 B_NEWS 4 B_NEWSC 2 B_NEWSS 3 B_LEN 1 B_CAP 1 B_MAX 1 B_GETCH 4 B_SETCH 4 B_SETCAP 5 B_SETLEN 7 B_APP_C 6 B_APP_CN 6 B_APP_S0 8 B_APP_S 6 B_APP_A0 3 B_APP_A 5 B_APP_O 3 B_APP_V 4 B_LINE 2 B_LINE_S 3 B_CLEAR 2 B_ENSURE 4 B_EQ 3 B_INS_V 4 B_INS_S 8 B_INS_A 6 B_INS_O 3 B_REMOVE 8 B_REPC 3 B_REPCR 4 B_REPS 5 B_REPSR 5 B_TOSTR 4 B_TOSTRR 5 B_FMT 2 B_DEL 1 S_LIT 4 S_FROMARR 1 S_REPEAT 1 S_CONCAT2 1 S_SUBSTR 1 A_NEW 1 A_ADDRSET 3 O_BOX 2 S_DEL 1"); bool own=g.r.chance(35); if(own) more(g,"O_USR 8 B_APP_O 14 B_INS_O 12 S_CONCAT3 3 S_CONCAT_A 2 A_ADDRSETO 4");
  g.arrTypes={CharT,CharT,CharT,Int32T,ByteT}; if(g.r.chance(20)) g.arrTypes.push_back(ObjectT);
  g.setup=[own](Gen& g){ for(int i=0;i<3;++i) g.op(OP_S_LIT,{i,someLit(g)}); charArr(g,0,(int)g.r.range(0,9)); g.op(OP_O_BOX,{0,Int32T,g.val64()}); g.op(OP_B_NEW,{0}); if(g.r.chance(50)) g.op(OP_B_NEWCM,{1,g.r.below(20),g.r.range(20,g.big?6000:300)}); if(g.r.chance(60)) g.op(OP_B_NEWS,{2,g.r.below(3)}); if(own) ownObjects(g,1); };
  g.faultPctD=12; g.faultPctP=4; g.shape(baseSteps(g,tier)); return g.p;
}
static Plan genC11(uint64_t seed,int tier){
  Gen g("C11",seed); g.makeLits(12); common(g);
  g.use("S_* 4 S_FMT 1 S_EMPTY 1 S_REPEAT 3 S_LIT 5 S_LITSUB 4 S_DEL 2 S_IDX_S2 7 S_IDX_C2 6 S_LIDX_S 7 S_LIDX_C 6 S_CMPI 6 S_CONTAINS 6 S_ENDS 6 S_STARTS 6 S_REPS 6 S_SUBSTR 6 S_REMOVE 5 S_JOIN_S 5 S_JOIN_C 4 A_NEW 4 A_ADDRSET 6 A_ADDRSETO 12 B_NEWS 2 B_NEWSS 2 B_APP_S0 3 B_APP_CN 3 B_APP_S 2 B_INS_S 2 B_TOSTR 5 B_TOSTRR 6 B_SETCH 3 B_REPC 4 B_REPS 2 B_REMOVE 2 B_CLEAR 2 B_SETLEN 2 B_DEL 1 A_CLEAR 1 O_BOX 3 O_OBJ 1 E_NEW 1 E_NEXT 1"); bool own=g.r.chance(35); if(own) more(g,"O_USR 14 S_CONCAT1 8 S_CONCAT2 10 S_CONCAT3 10 S_CONCAT5 8 S_CONCAT7 8 S_CONCAT_A 12 S_JOIN_S 12 S_JOIN_C 10 B_APP_O 4");
  g.arrTypes={CharT,CharT,CharT,StringT,StringT,ObjectT,ObjectT,Int32T};
  g.setup=[own](Gen& g){ for(int i=0;i<4;++i) g.op(OP_S_LIT,{i,someLit(g)}); charArr(g,0,(int)g.r.range(0,6)); g.op(OP_A_NEW,{1,g.r.chance(50)?StringT:ObjectT,g.r.range(0,5),-1,-1}); g.op(OP_O_BOX,{0,g.r.chance(50)?Int32T:BooleanT,g.val64()}); if(own||g.r.chance(50)) g.op(OP_B_NEWS,{0,0}); if(own) ownObjects(g,1); };
  g.faultPctD=8; g.shape(baseSteps(g,tier)); return g.p;
}
// arrays of more than 65535 bytes with something in them everywhere, cleared, copied and searched in one call
static void hugeArrays(Gen& g,int t){
  int es=DTSize[t]; if(t==StringT||t==ObjectT) return; int64_t n=(65536+g.r.range(-64,40000))/es+g.r.below(40); g.op(OP_A_NEW,{0,t,n,-1,-1}); g.op(OP_A_NEW,{1,t,n+g.r.range(-20,20),-1,-1}); MP a=g.m.A[0],b=g.m.A[1]; if(!a||!b) return; int64_t m=std::min(a->total,b->total);
  int64_t seed=g.r.range(1,std::min<int64_t>(n,200)); for(int64_t i=0;i<seed&&i<24;++i) g.op(OP_A_ADDRSET,{0,i,-1,-1,t==DateTimeT?g.ticks():g.val64()|1});
  for(int64_t have=std::min<int64_t>(seed,24);have<m;have*=2) g.op(OP_A_COPYI,{0,0,0,have,std::min(have,a->total-have)});      // spread by doubling
  auto near=[&](int64_t l){ return g.r.chance(50)?(int64_t)0:g.r.below(std::min<int64_t>(l,30)); };
  for(int k=(int)g.r.range(2,5);k>0;--k){ int64_t s=near(m),d=near(m); switch(g.r.below(6)){
    case 0: case 1: g.op(OP_A_CLEAR,{g.r.below(2),s,m-s-near(m-s)}); break;
    case 2: g.op(OP_A_COPY,{0,1,m-near(m)}); break; case 3: g.op(OP_A_COPYI,{0,s,1,d,m-std::max(s,d)}); break; case 4: g.op(OP_A_COPYI,{0,s,0,d,a->total-std::max(s,d)}); break;
    default: g.op(OP_F_COPY,{0,s*es,1,d*es,(m-std::max(s,d))*es}); } }
}
static Plan genC12(uint64_t seed,int tier){
  Gen g("C12",seed); g.hugeArr=true; g.makeLits(5); common(g); g.p.bufs={g.big?12000:200}; g.m.reset(g.p);
  g.use("A_NEW 6 A_LEN 1 A_RANK 1 A_GETLEN 3 A_LB 2 A_UB 2 A_ADDRGET 8 A_ADDRSET 12 A_ADDRSETO 8 A_CLEAR 6 A_COPY 8 A_COPYI 12 A_CCOPY 4 A_COPYTO 6 A_GETV 6 A_GETVA 3 A_SETV 8 A_SETVA 3 A_IDXOF0 2 A_IDXOF 4 A_INIT 3 A_WRAP 3 A_DEL 1 O_BOX 6 O_OBJ 1 O_USR 2 S_LIT 3 S_TOCHARS 1 S_DEL 1");
  g.setup=[](Gen& g){ static const int vt[]={BooleanT,CharT,SByteT,ByteT,Int16T,UInt16T,Int32T,UInt32T,Int64T,UInt64T,SingleT,DoubleT,DateTimeT,TimeSpanT,StringT,ObjectT}; int t=vt[g.r.below(16)]; g.arrTypes={t,t,vt[g.r.below(16)],Int32T}; for(int i=0;i<2;++i) g.op(OP_S_LIT,{i,someLit(g)}); for(int i=0;i<2;++i) g.op(OP_A_NEW,{i,t,g.big?g.r.range(100,1500):g.r.range(1,12),-1,-1}); if(g.r.chance(50)) g.op(OP_A_NEW,{2,t,g.r.range(1,4),g.r.range(1,4),g.r.chance(50)?-1:g.r.range(1,3)}); g.op(OP_A_NEW,{3,Int32T,g.r.range(1,3),-1,-1}); if(t!=StringT&&t!=ObjectT){ g.op(OP_O_BOX,{0,t,t==DateTimeT?g.ticks():t==CharT?(int64_t)g.ch():g.val64()}); for(int a=0;a<2;++a) for(int i=0;i<6;++i) g.op(OP_A_ADDRSET,{a,i,-1,-1,t==DateTimeT?g.ticks():g.val64()}); } else { g.op(OP_O_BOX,{0,Int32T,g.val64()}); for(int i=0;i<4;++i) g.op(OP_A_ADDRSETO,{0,i,-1,-1,i&1}); }
    g.host(H_BUFW,0,0,g.p.bufs[0],(int64_t)(g.r.next()&0xffff)); if(g.huge) hugeArrays(g,t); };
  g.shape(baseSteps(g,tier)); return g.p;
}
static Plan genC13(uint64_t seed,int tier){
  Gen g("C13",seed); g.hugeArr=true; g.makeLits(4); common(g); g.p.bufs={g.r.range(8,g.big?5000:100),g.r.range(1,40)}; g.m.reset(g.p);
  g.use("F_COPY 14 F_LEN 3 F_GET 12 F_SET 12 V_GET 8 V_TO 14 V_STR0 3 V_STR 6 V_D2L 1 V_L2D 1 A_NEW 4 A_ADDRSET 6 A_ADDRGET 3 A_COPYI 1 A_CLEAR 1 A_DEL 1 A_WRAP 4");
  g.setup=[](Gen& g){ g.arrTypes.clear(); g.op(OP_S_LIT,{0,0}); g.op(OP_A_NEW,{0,ByteT,g.big?g.r.range(200,4000):g.r.range(0,30),-1,-1}); static const int vt[]={BooleanT,CharT,SByteT,Int16T,UInt16T,Int32T,UInt32T,Int64T,UInt64T,SingleT,DoubleT}; g.op(OP_A_NEW,{1,vt[g.r.below(11)],g.r.range(0,10),-1,-1}); g.op(OP_A_NEW,{2,vt[g.r.below(11)],g.r.range(1,10),-1,-1}); if(g.r.chance(30)) g.op(OP_A_NEW,{3,g.r.chance(50)?StringT:Int32T,2,g.r.chance(50)?2:-1,-1}); for(int i=0;i<12;++i) g.op(OP_F_SET,{0,i,g.r.below(256)}); for(int i=0;i<6;++i) g.op(OP_F_SET,{2,i,g.r.below(256)}); if(g.huge) hugeArrays(g,vt[g.r.below(11)]); };
  g.shape(baseSteps(g,tier)); return g.p;
}
static Plan genC14(uint64_t seed,int tier){
  Gen g("C14",seed); g.hugeArr=true; g.makeLits(3); common(g); int nb=(int)g.r.range(1,3); for(int i=0;i<nb;++i) g.p.bufs.push_back(g.r.chance(30)?g.r.range(1,9):g.r.range(8,160)); if(g.big) g.p.bufs[0]=g.r.range(1000,9000); g.m.reset(g.p);
  g.use("A_WRAP 8 A_DATA 4 A_ADDRGET 7 A_ADDRSET 12 A_CLEAR 5 A_COPY 6 A_COPYI 10 A_CCOPY 2 A_COPYTO 5 A_GETV 5 A_SETV 8 A_IDXOF 1 A_INIT 3 A_DEL 8 F_COPY 9 F_LEN 1 F_GET 5 F_SET 10 V_TO 3 V_STR 1 X_DOUBLE 5 A_NEW 2 O_BOX 4 X_THROW 1 S_TOCHARS 1 S_COPYTO 2 A_LEN 1");
  g.setup=[](Gen& g){ g.arrTypes.clear(); g.op(OP_S_LIT,{0,someLit(g)}); g.op(OP_O_BOX,{0,Int32T,g.val64()}); g.op(OP_O_BOX,{1,ByteT,g.val64()}); if(g.r.chance(70)) g.op(OP_A_DATA,{0}); Op o{}; for(int i=1;i<3;++i){ o.code=OP_A_WRAP; g.args(o); o.a[0]=i; g.add(o,false); } g.op(OP_A_NEW,{3,ByteT,g.r.range(1,20),-1,-1}); };
  int total=baseSteps(g,tier);
  auto hostW=[&]{ int64_t k=g.r.below(10); if(k<5){ int64_t b=g.r.below(nb); int64_t n=g.p.bufs[(size_t)b]; int64_t o=g.r.below(n); g.host(H_BUFW,b,o,g.r.range(1,n-o),(int64_t)(g.r.next()&0xffffff)); } else if(k<8) g.host(H_GLOBW,g.r.below(4),g.val64()); else g.host(H_GLOBD,g.dblBits()); };
  auto seg=[&](int n){ g.setup(g); for(int i=0;i<n;++i){ if(g.r.chance(25)) hostW(); g.step(); } };
  bool heap=g.r.chance(35); if(heap) seg(total); else while(total>0){ int n=(int)std::min<int64_t>(total,g.r.range(4,25)); if(g.r.chance(25)) seg(n); else { g.beginRun(); seg(n); if(g.r.chance(20)){ Op o{}; o.code=OP_X_THROW; o.a[0]=g.r.below(15); Step s; s.t='P'; s.op=o; g.p.steps.push_back(s); } g.endRun(); } if(g.r.chance(60)) hostW(); total-=n; }
  return g.p;
}
static Plan genC17(uint64_t seed,int tier){
  Gen g("C17",seed); g.makeLits(6); common(g);
  g.use("E_NEW 6 E_GET 6 E_CUR 14 E_NEXT 26 E_ADV 6 E_RESET 5 E_DEL 1 S_LIT 3 S_CONCAT2 2 S_UPPER 1 S_REPC 1 S_TOCHARS 1 S_INSERT 1 A_ADDRSET 2 B_NEWS 1 B_APP_S0 1 B_SETCH 1 B_TOSTR 1 S_DEL 1 S_FROMARR 2");
  g.nreg=6; g.setup=[](Gen& g){ for(int i=0;i<3;++i) g.op(OP_S_LIT,{i,someLit(g)}); charArr(g,0,(int)g.r.range(0,4)); g.op(OP_B_NEWS,{0,0}); for(int i=0;i<3;++i) g.op(OP_E_GET,{i,g.r.below(3)});
    if(g.huge){ g.op(OP_S_REPEAT,{3,g.ch(),g.r.range(32760,66400)}); g.op(OP_S_CONCAT2,{3,3,g.r.below(3)}); g.op(g.r.chance(50)?OP_E_GET:OP_E_NEW,{3,3}); int64_t L=g.m.S[3]?(int64_t)g.m.S[3]->text.size():0; for(int64_t n=g.r.chance(70)?L:g.r.below(L+1);n>0;n-=5999){ g.op(OP_E_ADV,{3,n>5999?5999:n+g.r.range(-2,2)}); } g.op(OP_E_CUR,{3}); } };   // positions far past 32767 and 65535
  for(auto& l:g.p.lits) if(l.size()>9&&!g.big&&g.r.chance(80)) l.resize((size_t)g.r.range(0,6)); g.m.reset(g.p);
  g.faultPctD=10; g.faultPctP=4; g.shape(baseSteps(g,tier)); return g.p;
}
static Plan genC24(uint64_t seed,int tier){
  Gen g("C24",seed); g.allTypes=true; g.makeLits(5); common(g); g.p.bufs={g.r.range(8,100)}; g.m.reset(g.p);
  g.use("O_BOX 14 O_OBJ 2 O_USR 5 O_AS 7 O_CMP 3 O_CMPV 3 O_EQ 6 O_EQV 3 O_EQS 4 O_TOSTR 8 O_DT 6 O_FMT 3 O_RAW 4 O_DEL 4 A_NEW 3 A_WRAP 2 A_ADDRSET 8 A_ADDRSETO 12 A_GETV 16 A_GETVA 3 A_SETV 12 A_SETVA 2 A_ADDRGET 6 A_COPYI 4 A_COPYTO 2 A_CLEAR 2 A_INIT 1 A_IDXOF 4 A_IDXOF0 2 S_LIT 3 S_CONCAT1 1 S_CONCAT3 2 S_CONCAT_A 2 S_JOIN_S 1 B_NEWS 1 B_APP_O 3 B_APP_V 1 B_INS_O 2 P_PARSE 2 P_TRY 2 D_ADDTS 1 D_STR 1 T_STR 1 A_DEL 1 S_DEL 1");
  g.setup=[](Gen& g){ static const int vt[]={BooleanT,CharT,SByteT,ByteT,Int16T,UInt16T,Int32T,UInt32T,Int64T,UInt64T,SingleT,DoubleT,DateTimeT,TimeSpanT}; int t=vt[g.r.below(14)]; g.arrTypes={t,t,vt[g.r.below(14)],ObjectT,ObjectT,StringT,Int32T};
    for(int i=0;i<2;++i) g.op(OP_S_LIT,{i,someLit(g)}); auto box=[&](int r,int b){ g.op(OP_O_BOX,{r,b,b==DoubleT?g.dblBits():b==SingleT?g.sglBits():b==DateTimeT?g.ticks():b==CharT?(int64_t)g.ch():g.val64()}); };
    box(0,t); box(1,t); box(2,vt[g.r.below(14)]); g.op(OP_A_NEW,{0,t,g.r.range(1,6),-1,-1}); g.op(OP_A_NEW,{1,ObjectT,g.r.range(1,6),-1,-1}); if(g.r.chance(50)) g.op(OP_A_NEW,{2,ObjectT,g.r.range(1,3),g.r.range(1,3),-1}); if(g.r.chance(50)) g.op(OP_A_NEW,{3,t,g.r.range(1,3),g.r.range(1,3),2}); g.op(OP_B_NEWS,{0,0}); g.host(H_BUFW,0,0,g.p.bufs[0],(int64_t)(g.r.next()&0xffff)); };
  g.faultPctD=10; g.faultPctP=4; g.shape(baseSteps(g,tier)); return g.p;
}
static void judgeModel(const Plan& p){
  std::string id=p.prop; std::function<bool(int)> f; int always=0; bool wb=false;
  if(id=="C10"){ f=[](int c){ return pre(c,"B_"); }; always=KS|KB; } else if(id=="C11"){ f=[](int c){ return pre(c,"S_"); }; always=KS; }
  else if(id=="C12"){ f=[](int c){ return pre(c,"A_"); }; always=KA; } else if(id=="C13"){ f=[](int c){ return pre(c,"F_")||pre(c,"V_"); }; }
  else if(id=="C24"){ f=[](int c){ return pre(c,"O_")||pre(c,"A_"); }; always=KA|KO; }
  else if(id=="C14"){ f=[](int c){ return pre(c,"A_")||pre(c,"F_")||c==OP_X_DOUBLE; }; always=KA; wb=true; } else { f=[](int c){ return pre(c,"E_"); }; }
  ModelObserver o(p,f,always); o.watchBufs=wb; o.m.reset(p); W.execute(p,o);
}
extern const std::vector<Scenario> modelScenarios;
const std::vector<Scenario> modelScenarios={
 {"C10","string builders",genC10,judgeModel,"asanbig plain plain4k asan"},{"C11","strings",genC11,judgeModel,"asanbig plain asan"},{"C12","arrays",genC12,judgeModel,"asanbig plain asan"},
 {"C13","byte views",genC13,judgeModel,"asanbig plain asan"},{"C14","platform data",genC14,judgeModel,"asanbig plain plain4k asan"},{"C24","boxed values and references",genC24,judgeModel,"asanbig plain plain4k asan"},{"C17","enumerators",genC17,judgeModel,"asanbig plain plain4k asan"}};
