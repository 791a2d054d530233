#include "gen.h"
#include <sstream>
#include <cmath>
int64_t D(double d){ int64_t b; memcpy(&b,&d,8); return b; }
std::vector<OpW> weights(const char* spec){ static std::map<std::string,int> names; if(names.empty()) for(int i=0;i<OP_COUNT;++i) names[opNames[i]]=i; std::vector<OpW> v; std::istringstream in(spec); std::string n; int w; while(in>>n>>w){
    if(n.size()>1&&n.back()=='*'){ for(int i=0;i<OP_COUNT;++i) if(std::string(opNames[i]).compare(0,n.size()-1,n,0,n.size()-1)==0) v.push_back({i,w}); continue; }
    if(!names.count(n)) harness("unknown operation %s in a weight table",n.c_str()); bool found=false; for(auto& o:v) if(o.op==names[n]){ o.w=w; found=true; } if(!found) v.push_back({names[n],w}); } return v; }
Gen::Gen(const char* prop,uint64_t seed):r(seed*0x51ED270Bull+hashBytes(prop,strlen(prop))){ p.prop=prop; p.seed=seed; p.cfg["gseed"]=(int64_t)(r.next()&0xffffffff); p.cfg["gmode"]=r.chance(70)?1:r.below(6); big=mix(seed,hashBytes(prop,strlen(prop)))%20==0; huge=big&&mix(seed,99)%(strcmp(prop,"C17")?4:2)==0; if(big) maxText=huge?66500:9000; }
wchar_t Gen::ch(){
  static const wchar_t base[]=L"aaaabbbAABBcC x \t,.-0"; int n=(int)wcslen(base);
  if(!ascii){ int64_t k=r.below(100); if(k<3) return 0xE9; if(k<5) return 0x20AC; if(k<6) return 0xC9; if(wild&&k<9){ static const wchar_t odd[]={1,0x7f,0x85,0xA0,0xFFFF,0x10FFFF,0x8000,0x2028,0x1F600,0x110000,-1,10,13}; return odd[r.below(13)]; } }
  int64_t z=r.below(100); if(z<2){ static const wchar_t pun[]=L"%%%s{}\\\"'/:;<>~_+*"; return pun[r.below(18)]; }
  if(!ascii&&z<4){ static const wchar_t far[]={0x141,0x161,0x160,0x10061,0x10041,0x1F600,0xF600,0x80,0x7F,0xFF,0x100,0x8000,0xFFFF,0x2061,0x2041,0x3B1,0x391,0x1E9E}; return far[r.below(18)]; }   // equal in their low bytes to others, or at the edges of narrower types
  if(textKinds==0&&!ascii&&r.below(150)==0) return 0;
  return base[r.below(n)];
}
std::wstring Gen::text(int maxLen){
  int64_t n; int64_t k=r.below(100); if(k<8) n=0; else if(k<25) n=1; else if(k<80) n=r.range(2,12); else if(k<95) n=r.range(10,60); else n=r.range(100,300);
  if(big){ k=r.below(100); if(k<30) n=r.range(200,1100); else if(k<45) n=r.range(1000,5000); }
  if(n>maxLen) n=maxLen; std::wstring s; int64_t style=r.below(6);
  if(style==0){ wchar_t c=ch(); s.assign((size_t)n,c?c:L'a'); }
  else if(style==1){ static const wchar_t two[]=L"ab"; for(int64_t i=0;i<n;++i) s+=two[r.below(2)]; }
  else for(int64_t i=0;i<n;++i){ wchar_t c=ch(); s+=c?c:L'b'; }
  if(style==2){ s=L" \t"+s+L"  "; }
  return s;
}
static const wchar_t* const numeric[]={L"0",L"1",L"-1",L"123",L"-128",L"127",L"128",L"255",L"256",L"-129",L"32767",L"32768",L"65535",L"65536",L"2147483647",L"2147483648",L"-2147483648",L"-2147483649",L"4294967295",L"4294967296",L"9223372036854775807",L"9223372036854775808",
 L"18446744073709551615",L"18446744073709551616",L"99999999999999999999999",L" 12 ",L"12x",L"x12",L"+5",L"--5",L"1.5",L"-1.5e10",L"1e400",L"-1e400",L"1e",L".",L"NaN",L"Infinity",L"True",L"False",L"true",L" false ",L"Tru",L"TrueX",L"1:2:3",L"1.2:3:4",L"1.2:3:4.5",L"1.2.3:4:5.6",L"-1.23:59:59.9999999",
 L"10675199.02:48:05.4775807",L"10675199.02:48:05.4775808",L"-10675199.02:48:05.4775808",L"25:00:00",L"1:60:00",L"::::::",L"1:2:3:4:5:6:7:8",L"1.2.3.4.5.6",L"1:2:3.12345678",L"-",L"+",L"1,000",L"0x10",L"1/2/2003",L"12345678901234567890123456789012345678901234567890",L"-.",L"1..2",L":",L".:",L"3.4028236e38",L"1e-320"};
void Gen::makeLits(int n,bool num){
  for(int i=0;i<n;++i){
    if(num&&r.chance(50)){ std::wstring s=numeric[r.below((int64_t)(sizeof numeric/sizeof*numeric))]; if(r.chance(30)&&!s.empty()){ int64_t k=r.below((int64_t)s.size()); static const wchar_t mut[]=L"0123456789.:-+eE xX"; if(r.chance(50)) s[(size_t)k]=mut[r.below(19)]; else s.insert((size_t)k,1,mut[r.below(19)]); } p.lits.push_back(s); continue; }
    if(i>1&&r.chance(30)){ std::wstring o=p.lits[(size_t)r.below((int64_t)p.lits.size())]; if(!o.empty()){ int64_t a=r.below((int64_t)o.size()),l=r.range(1,(int64_t)o.size()-a); o=o.substr((size_t)a,(size_t)l); if(r.chance(25)&&!o.empty()) o[(size_t)r.below((int64_t)o.size())]=ch()|0; for(auto& c:o) if(!c) c=L'a'; } p.lits.push_back(o); }
    else p.lits.push_back(text(big?5000:300));
  }
}
int Gen::lit(const std::wstring& s){ for(size_t i=0;i<p.lits.size();++i) if(p.lits[i]==s) return (int)i; p.lits.push_back(s); m.lits=p.lits; return (int)p.lits.size()-1; }
int64_t Gen::idx(int64_t L){ int64_t k=r.below(1000);
  if(k<720) return r.below(L+1); if(k<800) return L; if(k<850) return L-1; if(k<890) return L+1; if(k<925) return -1; if(k<945) return -2; if(k<960) return L+r.below(300); if(k<968) return 0x7fffffff; if(k<978) return 0x7fffffff-r.below(20); if(k<984) return INT32_MIN; if(k<988) return INT32_MIN+r.below(10); if(k<992) return 0x40000000; return (int32_t)r.next(); }
int64_t Gen::cnt(int64_t rem){ int64_t k=r.below(1000); if(rem<0) rem=0;
  if(k<620) return r.below(rem+1); if(k<720) return rem; if(k<780) return 0; if(k<850) return rem+1; if(k<885) return -1; if(k<910) return -2; if(k<925) return rem+r.below(300); if(k<950) return 0x7fffffff; if(k<972) return 0x7fffffff-r.below(20); if(k<980) return INT32_MIN; if(k<986) return INT32_MIN+r.below(10); if(k<990) return 0x40000000; if(k<994) return 0x20000000; return (int32_t)r.next(); }
int64_t Gen::size(int64_t L){ int64_t k=r.below(1000); static const int edge[]={126,127,128,129,130,254,255,256,257,258,383,384,385,511,512,513};
  static const int bigEdge[]={1022,1023,1024,1025,1026,1535,1536,2047,2048,2049,2303,4094,4095,4096,4097,4098}; static const int hugeEdge[]={32766,32767,32768,32769,32900,65534,65535,65536,65537,65600,40000}; if(huge&&r.chance(15)) return hugeEdge[r.below(11)]; if(big&&r.chance(25)) return r.chance(60)?bigEdge[r.below(16)]:r.range(300,5000);
  if(k<350) return r.below(17); if(k<550) return L+r.range(-3,6); if(k<720) return edge[r.below(16)]; if(k<780) return r.below(200); if(k<860) return L*2+r.below(3); if(k<900) return -1; if(k<920) return -2-r.below(10); if(k<930) return 1000; if(k<955) return 0x7fffffff; if(k<975) return 0x7fffffff-r.below(300); if(k<982) return INT32_MIN; if(k<990) return (1<<24)+1+r.below(1<<26); return 0x40000000+r.below(100); }
int64_t Gen::val64(){ int64_t k=r.below(100); static const int64_t e[]={0,1,-1,127,128,-128,255,256,32767,32768,-32768,65535,65536,0x7fffffff,0x80000000ll,-0x80000000ll,0xffffffffll,INT64_MAX,INT64_MIN,INT64_MAX-1,0x8000,0xE9,0xD800,1000,24,60}; if(k<45) return e[r.below(26)]; if(k<70) return r.range(-20,300); if(k<85) return (int32_t)r.next(); return (int64_t)r.next(); }
int64_t Gen::dblBits(){ int64_t k=r.below(100); static const double e[]={0.0,-0.0,1,-1,0.5,-0.5,1.5,2.5,1e308,-1e308,1e-308,5e-324,2147483647.0,2147483648.0,-2147483649.0,9.2233720368547758e18,1.8446744073709552e19,1e10,123.456,1e15,1e16,1e-5,0.1,86400000,1e12,922337203685477.5,-922337203685477.5,3652059,100000}; if(k<55) return D(e[r.below(29)]); if(k<60) return 0x7ff0000000000000ll; if(k<64) return (int64_t)0xfff0000000000000ull; if(k<68) return 0x7ff8000000000000ll; if(k<90) return D((double)r.range(-100000,100000)/16.0); return (int64_t)r.next(); }
int64_t Gen::sglBits(){ float f; int64_t k=r.below(10); if(k<2) return (int32_t)r.next(); static const float e[]={0,-0.0f,1,-1,0.5f,3.4e38f,1e-40f,2147483648.0f,16777216.0f,INFINITY,-INFINITY,NAN}; f=k<7?e[r.below(12)]:(float)r.range(-1000,1000)/8; int32_t b; memcpy(&b,&f,4); return b; }
int64_t Gen::ticks(){ const int64_t MAX=3155378975999999999ll; int64_t k=r.below(100); if(k<5) return 0; if(k<10) return MAX; if(k<13) return MAX+1; if(k<16) return (int64_t)r.next(); if(k<30) return r.below(MAX/864000000000ll)*864000000000ll; return (int64_t)(r.next()%(uint64_t)MAX); }
int Gen::live(int k){ if(r.chance(skipPct)) return (int)r.below(nreg); const MP* a=k==RK_S?m.S:k==RK_B?m.B:k==RK_A?m.A:k==RK_E?m.E:m.O; int c[NREG],n=0; for(int i=0;i<NREG;++i) if(a[i]) c[n++]=i; return n?c[r.below(n)]:(int)r.below(nreg); }
int64_t Gen::liveObj(){ int64_t k=r.below(100); int kind=k<55?RK_S:k<68?RK_B:RK_O; if(wild&&k>=90) kind=k<96?RK_A:RK_E; if(kind==RK_B){ bool any=false; for(auto& b:m.B) if(b) any=true; if(!any) kind=RK_S; } if(kind==RK_O){ bool any=false; for(auto& b:m.O) if(b) any=true; if(!any) kind=RK_S; } return kind*64+live(kind); }
int64_t Gen::lenOf(char c,int64_t g,bool bytes){ MP q; switch(c){ case 's':q=m.S[g];break; case 'b':q=m.B[g];break; case 'a':q=m.A[g]; if(q) return bytes?q->total*DTSize[q->type]:q->total; return 4; case 't': return g<(int64_t)p.lits.size()?(int64_t)p.lits[(size_t)g].size():0; } return q?(int64_t)q->text.size():4; }
void Gen::args(Op& o){
  const char* sig=opSigs[o.code]; std::string nm=opNames[o.code];
  for(int i=0;sig[i];++i){ int64_t& a=o.a[i]; switch(sig[i]){
    case 'S':case 'B':case 'A':case 'E':case 'O': a=r.below(nreg); break;
    case 's': a=live(RK_S); break; case 'b': a=live(RK_B); break; case 'a': a=live(RK_A); break; case 'e': a=live(RK_E); break; case 'o': a=liveObj(); break;
    case 't': a=r.below((int64_t)p.lits.size()); break; case 'c': a=ch(); if(r.chance(2)) a=0; break; case 'h': a=r.below((int64_t)std::max<size_t>(1,p.bufs.size())); break;
    case 'l': a=val64(); break; case 'd': a=dblBits(); break; case 'f': a=sglBits(); break; case 'u': a=ticks(); break; case 'z': a=size(64); break; case 'n': a=r.below(2); break;
    case 'k': { static const int vt[]={BooleanT,CharT,SByteT,ByteT,Int16T,UInt16T,Int32T,UInt32T,Int64T,UInt64T,SingleT,DoubleT,DateTimeT,TimeSpanT};
        if(nm[0]=='A'){ if(!arrTypes.empty()&&r.chance(90)) a=arrTypes[(size_t)r.below((int64_t)arrTypes.size())]; else a=o.code==OP_A_NEW&&r.chance(25)?(r.chance(50)?StringT:ObjectT):vt[r.below(14)]; if(o.code==OP_A_NEW&&wild&&r.chance(2)) a=DecimalT; if(o.code==OP_A_WRAP){ int64_t at=p.get("bufat",0); int64_t al=at>0?at&-at:8; if(a==StringT||a==ObjectT||a==DecimalT) a=vt[r.below(14)]; while(DTSize[a]>al) a=vt[r.below(14)]; } }
        else if(o.code==OP_B_APP_V||o.code==OP_B_INS_V) a=vt[r.below(wild?12:10)];
        else if(nm[0]=='V'){ static const int bt[]={BooleanT,CharT,Int16T,UInt16T,Int32T,UInt32T,Int64T,UInt64T,SingleT,DoubleT}; a=bt[r.below(10)]; }
        else if(nm[0]=='M'){ static const int mt[]={SByteT,ByteT,Int16T,UInt16T,Int32T,UInt32T,Int64T,UInt64T,SingleT,DoubleT}; a=mt[r.below(10)]; }
        else a=vt[r.below(wild||allTypes?14:10)]; } break;
    case 'i': a=0; break; } }
  // values that depend on the chosen type
  if(o.code==OP_O_BOX||o.code==OP_O_CMPV||o.code==OP_O_EQV||o.code==OP_B_APP_V||o.code==OP_B_INS_V||o.code==OP_V_GET){ int ki=0; while(sig[ki]!='k') ++ki; int64_t& v=o.a[ki+1]; switch(o.a[ki]){ case DoubleT: v=dblBits(); break; case SingleT: v=sglBits(); break; case CharT: v=o.code==OP_V_GET?(r.chance(50)?val64()&0xffff:ch()):ch(); break; case DateTimeT: v=ticks(); break; } }
  if(allTypes&&(o.code==OP_O_BOX||o.code==OP_O_CMPV||o.code==OP_O_EQV)&&r.chance(o.code==OP_O_BOX?40:75)){ MP q=m.obj(o.code==OP_O_BOX?RK_O*64+r.below(5):o.a[0]); if(q&&q->kind==RK_O&&q->btype!=ObjectT&&!(q->btype==BooleanT&&(q->bits&~1ll))){ // nearly the same value as another box
      o.a[1]=q->btype; int64_t x=q->bits; int k=(int)r.below(10); switch(q->btype){ case BooleanT: x=r.below(2); break; case DateTimeT: if(k<6&&x>0&&x<3155378975999999999ll) x+=k<3?1:k<6?-1:0; break; case CharT: if(k<6&&x>1&&x<0xD000) x+=k<3?1:-1; break;
        default: if(k<3) x=(int64_t)((uint64_t)x+1); else if(k<6) x=(int64_t)((uint64_t)x-1); else if(k<8) x^=1ll<<r.below(q->btype==SingleT||q->btype==Int32T||q->btype==UInt32T?32:q->btype==Int16T||q->btype==UInt16T?16:q->btype==SByteT||q->btype==ByteT?8:64); }
      o.a[2]=x; } }
  if((o.code==OP_O_CMPV||o.code==OP_O_EQV)&&r.chance(85)){ MP q=m.obj(o.a[0]); if(q&&q->kind==RK_O&&q->btype!=ObjectT) o.a[1]=q->btype; }
  if(nm[0]=='M'&&(o.code==OP_M_MINMAX||o.code==OP_M_CLAMP||o.code==OP_M_ABS||o.code==OP_M_SIGN)){ int ki=0; while(sig[ki]!='k') ++ki; for(int j=ki+1;sig[j]=='l';++j){ if(o.a[ki]==DoubleT) o.a[j]=dblBits(); else if(o.a[ki]==SingleT) o.a[j]=sglBits(); } }
  ints(o);
  if(r.chance(nullPct)){ int c[8],n=0; for(int i=0;sig[i];++i) if(strchr("sbao",sig[i])&&nullOk(o.code,i)) c[n++]=i; if(n){ o.a[c[r.below(n)]]=NULLR; if(n>1&&r.chance(15)) o.a[c[r.below(n)]]=NULLR; } }
}
void Gen::ints(Op& o){
  const char* sig=opSigs[o.code]; int64_t* a=o.a; bool bytes=opNames[o.code][0]=='F';
  auto L=[&](int i){ return lenOf(sig[i],a[i],bytes); };
  auto dim3=[&](int at,int arr){ MP q=m.A[a[arr]]; int rk=q?q->rank:1; for(int j=0;j<3;++j){ int64_t d=q&&j<rk?q->d[j]:0; if(j<rk){ a[at+j]=idx(d); if(a[at+j]==d&&d>0&&r.chance(80)) a[at+j]=r.below(d); } else a[at+j]=r.chance(93)?-1:r.chance(50)?0:r.chance(50)?-2:idx(3); } };
  switch(o.code){
  case OP_S_REPEAT: a[2]=size(8); return;
  case OP_S_IDX_C1: case OP_S_IDX_C2: case OP_S_IDX_S1: case OP_S_IDX_S2: case OP_S_IDXANY1: case OP_S_IDXANY2: a[2]=idx(L(0)); if(sig[3]) a[3]=cnt(L(0)-a[2]); return;
  case OP_S_LIDX_C1: case OP_S_LIDX_C: case OP_S_LIDX_S1: case OP_S_LIDX_S: case OP_S_LIDXANY: a[2]=idx(L(0)-1); if(sig[3]) a[3]=cnt(a[2]<0?L(0):a[2]+1); return;
  case OP_S_PADL: case OP_S_PADR: a[2]=size(L(1)); return;
  case OP_S_FMT: case OP_B_FMT: a[1]=L(0)+r.range(-2,4); if(r.chance(20)) a[1]=r.range(0,400); return;
  case OP_O_OBJ: a[1]=r.chance(60)?0:r.below(16); return;
  case OP_O_USR: { a[1]=r.below(14); int k=(int)a[1]; if(k==4||k==5||k==8) a[3]=RK_B*64+live(RK_B); else if((k==3||k>8)&&a[3]/64!=RK_S&&a[3]/64!=RK_O) a[3]=RK_S*64+live(RK_S); return; }
  case OP_O_DT: { a[0]=r.below(16); for(int t=0;t<10;++t){ MP q=m.obj(a[1]); if(q&&q->kind==RK_O&&(q->btype==DateTimeT||q->btype==TimeSpanT)) break; a[1]=RK_O*64+r.below(NREG); } if(r.chance(60)) a[2]=r.range(-5000,5000); } return;
  case OP_O_FMT: a[1]=r.chance(60)?r.range(1,40):r.range(0,300); return;
  case OP_B_NEWC: case OP_B_SETCAP: case OP_B_SETLEN: case OP_B_ENSURE: a[1]=size(sig[0]=='b'?L(0):100); return;
  case OP_B_NEWCM: a[1]=size(20); a[2]=r.chance(70)?std::max<int64_t>(1,a[1]+r.range(-1,40)):size(40); if(r.chance(60)){ a[2]=r.range(1,200); a[1]=r.below(a[2]+1); } if(r.chance(3)) a[1]=a[2]=r.range(-1,0); return;
  case OP_B_NEWSC: a[2]=size(L(1)); return;
  case OP_B_NEWSS: a[2]=idx(L(1)); a[3]=cnt(L(1)-a[2]); a[4]=size(L(1)); return;
  case OP_B_APP_CN: a[2]=size(r.chance(50)?20:L(0)); return;
  case OP_B_INS_V: case OP_B_INS_O: a[1]=idx(L(0)); return;
  case OP_B_INS_S: a[1]=idx(L(0)); a[3]=r.chance(80)?r.below(5):cnt(6); if(big&&r.chance(30)) a[3]=r.range(5,600); return;
  case OP_B_REPCR: case OP_B_REPSR: a[3]=idx(L(0)); a[4]=cnt(L(0)-a[3]); return;
  case OP_A_NEW: case OP_A_WRAP: { int b=o.code==OP_A_WRAP?3:2; int64_t rk=r.below(100); int rank=rk<65?1:rk<85?2:3; for(int j=0;j<3;++j){ if(j<rank){ a[b+j]=rank==1?(r.chance(10)?0:r.range(1,24)):r.range(0,5); if(big&&r.chance(50)) a[b+j]=rank==1?r.range(200,3000):rank==2?r.range(10,60):r.range(4,16); if(huge&&hugeArr&&j==0&&rank==1&&r.chance(30)) a[b]=r.range(32700,66000); } else a[b+j]=-1; }
      if(r.chance(6)){ int j=(int)r.below(3); static const int64_t bad[]={-1,-2,INT32_MIN,0x7fffffff,0x40000000,0x10000,0x20000000,65536}; a[b+j]=bad[r.below(8)]; if(r.chance(40)) a[b+(j+1)%3]=bad[r.below(8)]; }
      if(o.code==OP_A_NEW){ auto cnt=[&]{ double t=1; for(int j=0;j<3;++j) if(a[b+j]>=0) t*=(double)a[b+j]; return t; }; for(int j=0;j<3;++j) if(cnt()>500000&&cnt()<2e9&&a[b+j]>24) a[b+j]=r.range(1,24); }   // too large to look at after every step
      if(o.code==OP_A_WRAP&&!p.bufs.empty()){ int64_t cap=p.bufs[(size_t)a[1]%p.bufs.size()]/std::max(1,DTSize[a[2]]); if(cap<1) cap=0; int64_t t=1; for(int j=0;j<3;++j){ if(a[b+j]<0) { a[b+j]=-1; continue; } } if(a[b]<0) a[b]=0; if(rank==1||a[b+1]<0){ a[b+1]=a[b+2]=-1; if(a[b]>cap||r.chance(30)) a[b]=cap; } else { for(int j=0;j<3;++j) if(a[b+j]>=0) t*=a[b+j]; if(t>cap||t<0){ a[b]=cap; a[b+1]=a[b+2]=-1; } } } } return;
  case OP_A_GETLEN: case OP_A_LB: case OP_A_UB: a[1]=r.chance(80)?r.below(4):idx(2); return;
  case OP_A_ADDRGET: case OP_A_ADDRSET: case OP_A_ADDRSETO: dim3(1,0); return;
  case OP_A_GETV: dim3(2,1); return;
  case OP_A_SETV: dim3(2,1); return;
  case OP_A_COPY: { int64_t x=L(0),y=L(1); a[2]=cnt(r.chance(70)?std::min(x,y):x); } return;
  case OP_A_COPYTO: { int64_t x=L(0),y=L(1); a[2]=r.chance(60)&&y>=x?r.below(y-x+1):idx(y); } return;
  case OP_A_COPYI: case OP_A_CCOPY: case OP_F_COPY: { int64_t x=L(0),y=L(2); a[1]=idx(x); a[3]=idx(y); int64_t rem=std::min(a[1]>=0&&a[1]<=x?x-a[1]:x,a[3]>=0&&a[3]<=y?y-a[3]:y); a[4]=cnt(r.chance(80)?rem:x-a[1]); } return;
  case OP_A_IDXOF: a[2]=idx(L(0)); a[3]=cnt(L(0)-a[2]); return;
  case OP_F_GET: case OP_F_SET: a[1]=idx(L(0)); if(a[1]==L(0)&&L(0)>0&&r.chance(60)) a[1]=r.below(L(0)); if(o.code==OP_F_SET) a[2]=r.below(256); return;
  case OP_V_TO: a[2]=idx(std::max<int64_t>(0,L(1)-(r.chance(50)?r.below(9):8))); return;
  case OP_C_CLASSS: a[0]=r.below(11); a[2]=idx(L(1)); return;
  case OP_S_COPYTO: { a[1]=idx(L(0)); a[3]=idx(L(2)); int64_t rem=std::min(L(0)-a[1],L(2)-a[3]); a[4]=cnt(rem); } return;
  case OP_S_CMPI: case OP_S_CMPORDI: { a[1]=idx(L(0)); a[3]=idx(L(2)); a[4]=r.chance(60)?r.below(8):cnt(std::max(L(0)-a[1],L(2)-a[3])); } return;
  case OP_M_ROUND: case OP_M_ROUND3: a[1]=r.chance(70)?r.below(16):idx(15); if(o.code==OP_M_ROUND3) a[2]=r.chance(90)?r.below(5):r.range(-1,9); return;
  case OP_M_SCALEB: a[1]=idx(100); return;
  case OP_M_BIGMUL: a[0]=val64(); a[1]=val64(); return;
  case OP_M_D1: a[0]=r.below(27); return; case OP_M_D2: a[0]=r.below(10); return; case OP_N_CLASS: case OP_N_SCLASS: a[0]=r.below(8); return;
  case OP_C_CLASS: a[0]=r.below(13); return;
  case OP_D_CTOR: a[0]=r.chance(85)?r.range(1,9999):idx(9999); a[1]=r.chance(85)?r.range(1,12):idx(12); a[2]=r.chance(85)?r.range(1,31):idx(31); a[3]=r.chance(85)?r.range(-1,23):idx(24); a[4]=r.chance(90)?r.below(60):idx(60); a[5]=r.chance(90)?r.below(60):idx(60); a[6]=r.chance(90)?r.below(1000):idx(1000); return;
  case OP_D_PART: a[0]=r.below(12); return; case OP_D_ADD: a[0]=r.below(5); return; case OP_D_ADDM: case OP_D_ADDY: a[1]=r.chance(70)?r.range(-30,30):idx(120000); return; case OP_D_CMP: a[0]=r.below(10); return;
  case OP_D_DIM: a[0]=r.chance(80)?r.range(1,9999):idx(9999); a[1]=r.chance(80)?r.range(1,12):idx(12); return; case OP_D_LEAP: a[0]=r.chance(80)?r.range(1,9999):idx(9999); return;
  case OP_T_CTOR3: case OP_T_CTOR5: for(int j=0;sig[j];++j) a[j]=r.chance(80)?r.range(-30,100):idx(1000); return;
  case OP_T_PART: a[0]=r.below(6); return; case OP_T_TOT: a[0]=r.below(5); return; case OP_T_BIN: a[0]=r.below(6); return; case OP_T_FROM: a[0]=r.below(5); return; case OP_T_MULDIV: a[0]=r.below(5); return; case OP_T_UN: a[0]=r.below(4); return; case OP_T_CMP: a[0]=r.below(10); return;
  case OP_E_ADV: { MP q=m.E[a[0]]; int64_t L=q&&q->str?(int64_t)q->str->text.size():4; a[1]=huge&&r.chance(60)?5999:r.chance(40)?L+r.range(-2,3):r.chance(50)?r.below(L+2):r.range(0,4); } return;
  case OP_X_THROW: case OP_X_THROWNEST: a[0]=r.below(15); if(o.code==OP_X_THROWNEST) a[1]=r.below(4); return;
  case OP_X_NEW: a[0]=r.below(NRAW); return;
  case OP_X_DELRAW: case OP_X_FILL: a[0]=r.below(NRAW); return;
  }
  int c=-1; bool have=false; int64_t last=0;
  for(int i=0;sig[i];++i){ if(strchr("sbat",sig[i])){ c=i; have=false; } else if(sig[i]=='i'){ int64_t l=c>=0?L(c):5; if(!have){ a[i]=last=idx(l); have=true; } else a[i]=cnt(l-last); } }
}
bool Gen::add(Op o,bool faults,int out){
  if(o.code==OP_A_INIT){ int64_t at=p.get("bufat",0),al=at>0?at&-at:8; MP q=m.A[o.a[0]&15]; if(q&&DTSize[q->type]>al) return false; }
  Exp e; bool mod=m.expect(o,e);
  if(!wild){ if(((e.any&&e.adA<0)||e.adopt||!mod)&&r.below(100)>=(mod?0:100)) return false; if(e.skip&&!r.chance(15)) return false; if(e.big&&!r.chance(cur=='D'?50:8)) return false; }
  else { if(e.skip&&!r.chance(10)) return false; if(e.big&&!r.chance(cur=='D'?40:6)) return false; }
  if(e.useText&&(int)e.text.size()>maxText) return false; if(e.slow||(e.grow>maxText*(int64_t)4&&!e.big&&r.chance(90))) return false;
  Step s; s.t=cur; s.op=o; s.out=out; bool failed=false;
  if(cur=='P') s.op.caught=!r.chance(uncaughtPct);
  if(faults&&!noFaults&&r.chance(cur=='D'?faultPctD:faultPctP)){ s.op.failAt=r.chance(60)?1:(int)r.range(2,4); s.op.failSticky=r.chance(30); failed=r.chance(50); }
  p.steps.push_back(s);
  if(!e.exc&&!e.skip&&!e.big&&!failed){
    if(e.commit&&!e.any) e.commit();
    else if(e.any||e.adopt||!mod){ const char* sig=opSigs[o.code]; for(int i=0;sig[i];++i){ if(sig[i]=='S'){ auto q=std::make_shared<MObj>(); q->text=L"?????"; m.S[o.a[i]]=q; } else if(sig[i]=='O'){ auto q=std::make_shared<MObj>(); q->kind=RK_O; q->btype=Int32T; m.O[o.a[i]]=q; } } }
    // keep texts small
    const char* sig=opSigs[o.code]; for(int i=0;sig[i];++i) if(sig[i]=='b'&&o.a[i]<NREG){ MP q=m.B[o.a[i]]; if(q&&(int)q->text.size()>maxText&&o.code!=OP_B_CLEAR){ Op c{}; c.code=OP_B_CLEAR; c.a[0]=o.a[i]; add(c,false); } }
  }
  return true;
}
bool Gen::step(){ for(int t=0;t<12;++t){ Op o{}; o.code=pickOp(); args(o); if(add(o)) return true; } return false; }
void Gen::op(int code,std::initializer_list<int64_t> a,int out){ Op o{}; o.code=code; int i=0; for(auto x:a) o.a[i++]=x; bool w=wild; int rr=uncaughtPct; uncaughtPct=0; wild=true; Exp e; m.expect(o,e); Step s; s.t=cur; s.op=o; s.out=out; s.op.caught=1; p.steps.push_back(s); if(!e.exc&&!e.skip&&!e.big&&e.commit&&!e.any) e.commit(); wild=w; uncaughtPct=rr; }
void Gen::host(int h,int64_t a,int64_t b,int64_t c,int64_t d){ Step s; s.t='H'; s.h=h; s.ha[0]=a; s.ha[1]=b; s.ha[2]=c; s.ha[3]=d; p.steps.push_back(s); m.host(p,s); if(h==H_RUNS&&cur=='D') m.forget(); }
void Gen::beginRun(int f){ Step s; s.t='R'; s.op.failAt=f; p.steps.push_back(s); cur='P'; m.forget(); }
void Gen::endRun(){ Step s; s.t='E'; p.steps.push_back(s); cur='D'; m.forget(); }
void Gen::segment(int n){ if(setup) setup(*this); for(int i=0;i<n;++i){ if(r.chance(3)) host(H_GARB,(int64_t)(r.next()&0xffffff),r.chance(60)?1:r.below(6)); step(); } }
void Gen::shape(int total){
  int64_t k=r.below(100);
  if(k<35){ segment(total); return; }
  if(k<50){ host(H_RUNS,r.range(1,3)); segment(total); return; }
  while(total>0){ int n=(int)std::min<int64_t>(total,r.range(4,40)); if(r.chance(25)){ segment(n); } else { beginRun(); segment(n); endRun(); } total-=n; }
}
Zone Gen::zone(){
  Zone z; static const int off[]={0,3600,-18000,19800,20700,-34200,50400,-43200,34200,49500,-12600,28800,-7200,1800,-1800,-36000,43200,45900};
  z.std=off[r.below(18)]; if(r.chance(15)) z.std=r.range(-14*60,14*60)*60; if(r.chance(12)) z.std+=r.range(-59,59); if(r.chance(60)){ z.has=1; z.dst=z.std+(r.chance(85)?3600:r.chance(50)?1800:7200); bool south=r.chance(40);
    int m1=(int)r.range(3,5),m2=(int)r.range(9,11); if(r.chance(20)){ m1=(int)r.range(1,6); m2=(int)r.range(7,12); } z.sm=south?m2:m1; z.em=south?m1:m2; z.sw=(int)r.range(1,5); z.ew=(int)r.range(1,5); z.sd=(int)r.below(7); z.ed=(int)r.below(7); z.st=r.chance(70)?7200:r.range(0,23)*3600; z.et=r.chance(70)?(r.chance(50)?7200:10800):r.range(0,23)*3600; }
  if(r.chance(35)){ // a history of changes: local mean time, new offsets, summers by decree, jumps over the date line
    Zone q=z; z.first=r.chance(50)?r.range(-14*3600,14*3600):z.std; int n=(int)r.range(1,9); int64_t at=r.chance(50)?r.range(-2840140800ll,0):r.chance(30)?r.range(-50000000000ll,-2840140800ll):r.range(0,1000000000); int64_t cur=z.first; int dst=0;
    for(int i=0;i<n;++i){ int64_t k=r.below(100); if(dst&&k<60){ cur-=3600; dst=0; } else if(k<45){ cur+=3600; dst=1; } else if(k<50) dst=!dst; else if(k<60&&std::abs(cur)>9*3600) { cur+=cur<0?86400:-86400; dst=0; } else if(k<75) { cur=r.range(-14*4,14*4)*900; dst=r.chance(15); } else if(k<85){ cur=r.range(-14*3600,14*3600); dst=0; } else if(k<92){ cur+=r.range(-7200,7200); dst=r.chance(40); } else { cur=z.std; dst=0; }
      if(cur>15*3600) cur-=3600; if(cur<-15*3600) cur+=3600; z.tr.push_back({at,cur,dst}); int64_t gap=r.chance(15)?r.range(5,9)*86400:r.chance(50)?r.range(30*86400,300*86400):r.range(86400*300,86400*365*20ll); if(r.chance(15)) gap=gap/3600*3600; at+=gap; }
    if(z.has){ bool ok=false; for(int i=0;i<30&&!ok;++i){ at=std::max<int64_t>(at,400*86400)+r.range(0,200)*86400+r.below(86400); int d0,d1; int64_t o=zoneOffset(q,at,&d0); ok=true; for(int h=-6*24;h<=6*24;++h) if(zoneOffset(q,at+h*3600,&d1)!=o||d1!=d0) ok=false; if(ok) z.tr.push_back({at,o,d0}); } if(!ok) return q; } }
  return z;
}
int64_t Gen::clockValue(){ // ns since 1970, 1971..2260
  int64_t lo=365ll*86400,hi=9151000000ll; int64_t s=r.range(lo,hi); int64_t k=r.below(100); int64_t ns=r.below(1000000000);
  if(k<20) s=s/86400*86400+(r.chance(50)?86399:0); else if(k<30) s=s/3600*3600+(r.chance(50)?3599:0); else if(k<60) s=1600000000+r.below(200000000); else if(k<64){ s=r.chance(50)?2147483647:2147483648ll; } else if(k<68) s=4294967295ll+r.below(3);
  if(r.chance(40)) ns=r.chance(50)?999999999-r.below(3000000):r.below(3000000); if(r.chance(15)) ns=ns/1000000*1000000;
  return s*1000000000+ns;
}
