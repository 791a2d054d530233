// Reference model: strings as immutable character sequences, builders as mutable ones, arrays as typed byte images or lists of references,
// enumerators as (string, position). Semantics are those of the .NET classes where the repository's own tests do not say otherwise.
#include "sim.h"
#include <wctype.h>
typedef std::wstring WS;
static MP mk(int kind){ auto p=std::make_shared<MObj>(); p->kind=kind; return p; }
static bool isRefT(int t){ return t==ObjectT||t==StringT||t==DecimalT||t==NullT; }
static const int64_t BIG=1<<24;
static int eqThrow;      // the comparison asks an object of the program that raises: 1 must, 2 may
void Model::reset(const Plan& p){ lits=p.lits; bufs.clear(); S[NULLR]=mk(RK_S); A[NULLR]=mk(RK_A); A[NULLR]->type=CharT; A[NULLR]->mem=std::make_shared<MMem>(); for(auto n:p.bufs){ auto m=std::make_shared<MMem>(); m->b.assign((size_t)n,0); bufs.push_back(m); }
  glob=std::make_shared<MMem>(); glob->b.assign(16,0); int32_t* d=W.lib?W.lib->arrayData():nullptr; if(d) memcpy(glob->b.data(),d,16); double* q=W.lib?W.lib->doubleData():nullptr; if(q) memcpy(&globD,q,8); forget(); }
void Model::forget(){ for(int i=0;i<NREG;++i) S[i]=B[i]=A[i]=E[i]=O[i]=nullptr; }
void Model::host(const Plan& p,const Step& s){ (void)p;
  if(s.h==H_BUFW&&!bufs.empty()){ auto& b=bufs[(size_t)s.ha[0]%bufs.size()]->b; Rng r((uint64_t)s.ha[3]); for(int64_t i=0;i<s.ha[2];++i){ int64_t o=s.ha[1]+i; uint8_t v=(uint8_t)r.next(); if(o>=0&&o<(int64_t)b.size()) b[(size_t)o]=v; } }
  else if(s.h==H_GLOBW){ if(s.ha[0]>=0&&s.ha[0]<4){ int32_t x=(int32_t)s.ha[1]; memcpy(&glob->b[(size_t)s.ha[0]*4],&x,4); } }
  else if(s.h==H_GLOBD) globD=s.ha[0]; }
MP Model::obj(int64_t c) const { int k=(int)(c/64),i=(int)(c%64); if(i<0||i>=NREG) return nullptr; switch(k){ case RK_S:return S[i]; case RK_B:return B[i]; case RK_A:return A[i]; case RK_E:return E[i]; case RK_O:return O[i]; } return nullptr; }
static WS fmtV(int t,int64_t x,bool& ok){
  ok=true; wchar_t b[64]; b[0]=0;
  switch(t){ case BooleanT:return (x&1)?L"True":L"False"; case CharT:return WS(1,(wchar_t)x); case SByteT:swprintf(b,64,L"%d",(int)(int8_t)x);break; case ByteT:swprintf(b,64,L"%d",(int)(uint8_t)x);break; case Int16T:swprintf(b,64,L"%d",(int)(int16_t)x);break;
    case UInt16T:swprintf(b,64,L"%d",(int)(uint16_t)x);break; case Int32T:swprintf(b,64,L"%d",(int)(int32_t)x);break; case UInt32T:swprintf(b,64,L"%u",(unsigned)x);break; case Int64T:swprintf(b,64,L"%lld",(long long)x);break; case UInt64T:swprintf(b,64,L"%llu",(unsigned long long)x);break;
    default: ok=false; }
  return b;
}
int Model::call(const MP& o,WS& t,Over& ov) const {
  t.clear(); if(!o) return 0;
  if(o->usr<0) return 2;
  auto cur=[&](const MP& b)->WS{ auto q=ov.find(b); return q==ov.end()?b->text:q->second; };
  switch(o->kind){ case RK_S: t=o->text; return 0; case RK_B: t=cur(o); return 0;
  case RK_O: { if(o->btype==BooleanT&&(o->bits&~1ll)) return 2; if(o->btype!=ObjectT){ bool ok; t=fmtV(o->btype,o->bits,ok); return ok?0:2; } if(!o->usr){ t=L"Object"; return 0; }
    t=o->text; switch(o->usr-1){
    case 2: return 1; case 3: case 9: case 10: case 11: { WS u; int r=call(o->other,u,ov); if(r) return r; if(o->usr-1==9) t+=L"+"; else if(o->usr-1==11) t+=o->text; t+=u; } break;
    case 4: case 8: { if(o->other->usr<0) return 2; WS b=cur(o->other); b=o->usr-1==4?b+t:t+b; if((int64_t)b.size()>o->other->maxcap) return 1; if(b.size()>BIG) return 2; ov[o->other]=b; } break;
    case 5: if(o->other->usr<0) return 2; ov[o->other]=L""; break;
    case 6: t=L"7"+t+L"|"; break; }
    return t.size()>BIG?2:0; } }
  return 2;
}
void Model::reach(const MP& o,std::vector<MP>& v) const { if(!o||o->kind!=RK_O||o->usr<=0||!o->other) return; if(o->usr-1==3||(o->usr-1>8&&o->usr-1<12)) reach(o->other,v); else if(o->usr-1==4||o->usr-1==5||o->usr-1==8) v.push_back(o->other); }
static int sgn(int64_t x){ return x<0?-1:x>0?1:0; }
static int cmpText(const WS& a,const WS& b,bool ic,bool ord){
  size_t n=a.size()<b.size()?a.size():b.size();
  for(size_t i=0;i<n;++i){ wchar_t x=a[i],y=b[i]; if(ic){ x=(wchar_t)towlower((wint_t)x); y=(wchar_t)towlower((wint_t)y); } if(x==y) continue;
    if(!ic&&!ord){ if(iswupper((wint_t)x)&&iswlower((wint_t)y)) return 1; if(iswlower((wint_t)x)&&iswupper((wint_t)y)) return -1; }
    return x<y?-1:1; }
  return sgn((int64_t)a.size()-(int64_t)b.size());
}
static int64_t find(const WS& s,const WS& v,int64_t from,int64_t end){ for(int64_t i=from;i+(int64_t)v.size()<=end;++i) if(s.compare((size_t)i,v.size(),v)==0) return i; return -1; }
static const wchar_t WSP[]={9,0xA,0xB,0xC,0xD,0x20,0xA0,0x2000,0x2001,0x2002,0x2003,0x2004,0x2005,0x2006,0x2007,0x2008,0x2009,0x200A,0x200B,0x3000,0xFEFF,0};
static WS chars(const MP& a){ WS r; int64_t n=a->total; for(int64_t i=0;i<n;++i){ wchar_t c; memcpy(&c,&a->mem->b[(size_t)i*4],4); r+=c; } return r; }
static WS trim(const WS& s,const WS& set,bool l,bool r){ size_t a=0,b=s.size(); if(l) while(a<b&&set.find(s[a])!=WS::npos) ++a; if(r) while(b>a&&set.find(s[b-1])!=WS::npos) --b; return s.substr(a,b-a); }
static int64_t ldB(int t,const uint8_t* p){ int64_t x=0; switch(t){ case BooleanT:case ByteT:return *p; case SByteT:return (int8_t)*p; case Int16T:{int16_t y;memcpy(&y,p,2);return y;} case UInt16T:{uint16_t y;memcpy(&y,p,2);return y;} case CharT:case Int32T:{int32_t y;memcpy(&y,p,4);return y;} case UInt32T:case SingleT:{uint32_t y;memcpy(&y,p,4);return y;} default: memcpy(&x,p,8); } return x; }
static void stB(int t,uint8_t* p,int64_t x){ switch(t){ case BooleanT:*p=x&1;break; case SByteT:case ByteT:*p=(uint8_t)x;break; case Int16T:case UInt16T:{uint16_t y=(uint16_t)x;memcpy(p,&y,2);}break; case CharT:case Int32T:case UInt32T:case SingleT:{uint32_t y=(uint32_t)x;memcpy(p,&y,4);}break; default: memcpy(p,&x,8); } }
static int64_t canonV(int t,int64_t raw){ // how the adapter reports an element read as its own type
  if(t==SingleT){ float f; int32_t i=(int32_t)raw; memcpy(&f,&i,4); return f!=f?0x7fc00000:i; } if(t==DoubleT){ double d; memcpy(&d,&raw,8); return d!=d?0x7ff8000000000000ll:raw; } return raw; }
// the value of a box of type s as type d, if that type can represent it (fractions dropped); false: not judged
static bool conv(int s,int64_t b,int d,int64_t& out){
  if(s==DateTimeT||s==TimeSpanT||d==DateTimeT||d==TimeSpanT||s==ObjectT||d==ObjectT||s==StringT||d==StringT) return false;
  bool fl=false; double f=0; __int128 n=0;
  switch(s){ case BooleanT: if(b&~1ll) return false; n=b; break; case SByteT: n=(int8_t)b; break; case ByteT: n=(uint8_t)b; break; case Int16T: n=(int16_t)b; break; case UInt16T: n=(uint16_t)b; break; case Int32T: n=(int32_t)b; break; case UInt32T: n=(uint32_t)b; break; case CharT: n=(int32_t)b; if(n<0||n>0xFFFF) return false; break;
    case Int64T: n=b; break; case UInt64T: n=(uint64_t)b; break; case SingleT: { int32_t i=(int32_t)b; float g; memcpy(&g,&i,4); f=g; fl=true; } break; case DoubleT: memcpy(&f,&b,8); fl=true; break; default: return false; }
  if(d==SingleT||d==DoubleT){ if(!fl){ f=(double)n; if((__int128)f!=n) return false; } else if(f!=f) return false; if(d==SingleT){ float g=(float)f; if((double)g!=f) return false; int32_t i; memcpy(&i,&g,4); out=canonV(SingleT,i); } else memcpy(&out,&f,8); return true; }
  if(d==BooleanT){ out=fl?f!=0:n!=0; return true; }
  if(fl){ if(!(f>-9e18&&f<9e18)) return false; n=(__int128)f; }
  __int128 lo,hi; switch(d){ case SByteT: lo=-128; hi=127; break; case ByteT: lo=0; hi=255; break; case Int16T: lo=-32768; hi=32767; break; case UInt16T: case CharT: lo=0; hi=65535; break; case Int32T: lo=INT32_MIN; hi=INT32_MAX; break; case UInt32T: lo=0; hi=UINT32_MAX; break; case Int64T: lo=INT64_MIN; hi=INT64_MAX; break; case UInt64T: lo=0; hi=UINT64_MAX; break; default: return false; }
  if(n<lo||n>hi) return false; out=(int64_t)n; return true; }
static bool boxEq(const MP& a,const MP& b,bool& known){ known=true; eqThrow=0; if((a&&a->usr<0)||(b&&b->usr<0)){ known=false; return false; }
  if(a&&a->kind==RK_O&&a->usr>0){ if(a->usr-1==2){ eqThrow=a==b||!b?2:1; return a==b; } return b&&b->kind==RK_O&&b->usr>0&&a->text==b->text; }
  for(auto z:{a,b}) if(z&&z->kind==RK_O&&z->btype==BooleanT&&(z->bits&~1ll)){ known=false; return false; } if(a==b) return true; if(!a||!b) return false; if(a->kind==RK_S) return b->kind==RK_S&&a->text==b->text; if(a->kind!=RK_O) return false; if(a->btype==ObjectT) return false;
  if(b->kind!=RK_O||a->btype!=b->btype) return false; if(a->btype==SingleT){ float u,v; memcpy(&u,&a->bits,4); memcpy(&v,&b->bits,4); return u==v||(u!=u&&v!=v); } if(a->btype==DoubleT){ double u,v; memcpy(&u,&a->bits,8); memcpy(&v,&b->bits,8); return u==v||(u!=u&&v!=v); } bool ok; WS x=fmtV(a->btype,a->bits,ok),y=fmtV(b->btype,b->bits,ok); if(ok) return x==y; return a->bits==b->bits; }
// flat index of (i,j,k): -1 outside; loose set when unused indexes are negative but not -1
static int64_t flat(const MP& a,int32_t i,int32_t j,int32_t k,bool& loose){ loose=false; int r=a->rank; if(r<2){ if(j>=0||k>=0) return -1; if(j<-1||k<-1) loose=true; } else if(r<3){ if(k>=0) return -1; if(k<-1) loose=true; }
  if(i<0||i>=a->d[0]) return -1; if(r>1&&(j<0||j>=a->d[1])) return -1; if(r>2&&(k<0||k>=a->d[2])) return -1;
  int64_t x=i; if(r>1) x=x*a->d[1]+j; if(r>2) x=x*a->d[2]+k; return x; }

// the indexes an array holds; false when one is too large for an index
static bool indexes(const MP& q,int32_t* ix){ for(int i=0;i<q->total;++i){ int64_t y=0; memcpy(&y,&q->mem->b[(size_t)(i*(q->type==Int64T?8:4))],q->type==Int64T?8:4); if(q->type==Int64T&&y!=(int32_t)y) return false; ix[i]=(int32_t)y; } return true; }

bool Model::expect(const Op& o,Exp& e){
  const int64_t* p=o.a; e=Exp(); Model* M=this;
  auto I=[&](int i){ return (int64_t)(int32_t)p[i]; };
  // sources missing: skip
  const char* sig=opSigs[o.code];
  int nulls=0; for(int i=0;sig[i];++i){ MP q; bool src=true; if(strchr("sbaeo",sig[i])&&p[i]==NULLR){ if(!nullOk(o.code,i)){ e.skip=true; return true; } nulls|=1<<i; continue; } switch(sig[i]){ case 's':q=S[p[i]];break; case 'b':q=B[p[i]];break; case 'a':q=A[p[i]];break; case 'e':q=E[p[i]];break; case 'o':q=obj(p[i]);break; default:src=false; } if(src&&!q){ e.skip=true; return true; } }
  auto ok=[&](std::initializer_list<int64_t> v){ e.useV=true; e.v=v; };
  auto X=[&](const char* why){ e.exc=true; e.why=why; };
  auto str=[&](int r,const WS& t){ e.useText=true; e.text=t; if((int64_t)t.size()>BIG) e.big=true; auto q=mk(RK_S); q->text=t; e.commit=[M,r,q]{ M->S[r]=q; }; };
  auto strBig=[&](){ e.big=true; };
  auto over=[&](const Over& ov){ if(ov.empty()||e.exc) return; for(auto& x:ov) if((int64_t)x.second.size()>e.grow) e.grow=(int64_t)x.second.size(); auto c=e.commit; Over w=ov; e.commit=[w,c]{ for(auto& x:w) x.first->text=x.second; if(c) c(); }; };   // first what the objects did, then the call itself
  auto setB=[&](const MP& b,const WS& t){ if((int64_t)t.size()>b->maxcap){ X("the text would exceed the maximum capacity"); return; } ok({1}); e.grow=(int64_t)t.size(); if(e.grow>BIG){ e.big=true; return; } MP bb=b; WS tt=t; e.commit=[bb,tt]{ bb->text=tt; }; };
  auto insB=[&](const MP& b,int64_t at,const WS& v){ WS t=b->text; t.insert((size_t)at,v); setB(b,t); };
  // (start,count) with -1 meaning "to the end"; returns false when the expectation is already an exception
  auto dflt=[&](int64_t L,int64_t& start,int64_t& cnt)->bool{ if(start<0||start>L){ X("start outside"); return false; } if(cnt<0){ if(cnt<-1) e.excToo=true; cnt=L-start; } if(cnt>L-start){ X("count outside"); return false; } return true; };
  // (start,count) whose default count is the whole length
  auto whole=[&](int64_t L,int64_t& start,int64_t& cnt)->bool{ if(cnt<0){ if(cnt<-1||start>0) e.excToo=true; if(start<0||start>L){ X("start outside"); return false; } cnt=L-start; return true; } if(start<0||start>L||cnt>L-start){ X("range outside"); return false; } return true; };
  auto charArr=[&](const MP& a,bool allowEmptyLoose)->bool{ if(a->rank!=1||a->type!=CharT){ if(allowEmptyLoose&&a->total==0){ e.excToo=true; return true; } X("not a character array"); return false; } return true; };
  #define SS(i) (S[p[i]]->text)
  #define CNT(s) ((int64_t)(s).size())
  if(nulls) switch(o.code){
  case OP_S_FROMARR: if(I(2)>0||I(3)>0) e.excToo=true; str((int)p[0],L""); return true;
  case OP_S_CMPTO_S: case OP_S_CMPTO_O: ok({1}); return true;
  case OP_S_CONCAT1: case OP_S_CONCAT2: case OP_S_CONCAT3: case OP_S_CONCAT5: case OP_S_CONCAT7: if(nulls&2) e.excToo=true; break;
  case OP_S_EQ_S: case OP_S_EQ_O: case OP_B_EQ: ok({0}); return true;
  case OP_S_EQ_SO: case OP_S_EQ_OS: if(nulls==3) e.any=true; else ok({0}); return true;
  case OP_S_EQ_SS: ok({nulls==3}); return true;
  case OP_S_NE: ok({nulls!=3}); return true;
  case OP_S_ISEMPTY: case OP_S_ISWS: ok({1}); return true;
  case OP_S_REPS: if(nulls&4){ X("null search text"); return true; } break;
  case OP_B_REPS: case OP_B_REPSR: if(nulls&2){ X("null search text"); return true; } break;
  case OP_S_TRIMA: case OP_S_TRIMS: case OP_S_TRIME: case OP_B_NEWS: case OP_B_NEWSC: case OP_B_NEWSS: break;
  case OP_B_APP_A0: ok({1}); return true;
  case OP_B_APP_A: if(I(2)>0||I(3)>0) e.excToo=true; ok({1}); return true;
  case OP_B_INS_A: if(I(1)<0||I(1)>(int64_t)B[p[0]]->text.size()){ X("index outside"); return true; } if(I(3)>0||I(4)>0) e.excToo=true; ok({1}); return true;
  case OP_A_IDXOF0: case OP_A_IDXOF: if(nulls&1){ X("null array"); return true; } break;
  case OP_A_ADDRSETO: break;
  case OP_A_SETV: case OP_A_SETVA: if(nulls&4){ X("null indexes"); return true; } e.excToo=true; break;
  case OP_V_TO: { int t=(int)p[0]; bool k=t==BooleanT||t==CharT||t==Int16T||t==UInt16T||t==Int32T||t==UInt32T||t==SingleT||t==Int64T||t==UInt64T||t==DoubleT; if(!k){ e.skip=true; return true; } X("null array"); return true; }
  case OP_O_CMP: case OP_O_EQ: case OP_O_EQS: case OP_P_PARSE: case OP_P_TRY: case OP_P_TRYI: case OP_C_CLASSS: case OP_D_CMPO: break;
  default: X("null reference"); return true;
  }
  switch(o.code){
  case OP_S_LIT: { WS t=p[1]>=0&&p[1]<(int64_t)lits.size()?lits[(size_t)p[1]]:WS(); str((int)p[0],WS(t.c_str())); return true; }
  case OP_S_LITSUB: { WS t=p[1]>=0&&p[1]<(int64_t)lits.size()?lits[(size_t)p[1]]:WS(); t=WS(t.c_str()); int64_t s=I(2),n=I(3); if(s<0||s>CNT(t)){ X("start outside"); return true; } if(n<0){ n=CNT(t)-s; if(I(3)<-1||s>0) e.excToo=true; } if(n>CNT(t)-s){ e.skip=true; return true; } str((int)p[0],t.substr((size_t)s,(size_t)n)); return true; }
  case OP_S_FROMARR: { MP a=A[p[1]]; int64_t s=I(2),n=I(3); if(a->rank!=1||a->type!=CharT){ if(n==0||a->total==0){ e.excToo=true; str((int)p[0],L""); return true; } X("not a character array"); return true; }
      if(s<0){ if(s<-1) e.excToo=true; s=0; } if(n==0){ if(s>a->total) e.excToo=true; str((int)p[0],L""); return true; } if(!whole(a->total,s,n)){ if(a->total==0&&I(3)<0){ e.exc=false; e.excToo=true; str((int)p[0],L""); } return true; } str((int)p[0],chars(a).substr((size_t)s,(size_t)n)); return true; }
  case OP_S_REPEAT: { int64_t n=I(2); if(n<0){ X("negative count"); return true; } if(n>BIG){ strBig(); return true; } str((int)p[0],WS((size_t)n,(wchar_t)(int32_t)p[1])); return true; }
  case OP_S_EMPTY: str((int)p[0],L""); return true;
  case OP_S_GETCH: { int64_t i=I(1); if(i<0||i>=CNT(SS(0))) X("index outside"); else ok({SS(0)[(size_t)i]}); return true; }
  case OP_S_LEN: ok({CNT(SS(0))}); return true;
  case OP_S_CMP: ok({cmpText(SS(0),SS(1),p[2]!=0,false)}); return true;
  case OP_S_CMPORD: ok({cmpText(SS(0),SS(1),false,true)}); return true;
  case OP_S_CMPI: case OP_S_CMPORDI: { int64_t i=I(1),j=I(3),n=I(4); const WS&a=SS(0),&b=SS(2); bool bad=i<0||i>CNT(a)||j<0||j>CNT(b)||n<0; if(bad){ X("index outside"); if(n==0) { e.exc=false; e.excToo=true; ok({0}); } return true; } bool ordi=o.code==OP_S_CMPORDI; ok({cmpText(a.substr((size_t)i,(size_t)n),b.substr((size_t)j,(size_t)n),!ordi&&p[5]!=0,ordi)}); return true; }
  case OP_S_CMPTO_S: ok({cmpText(SS(0),SS(1),false,false)}); return true;
  case OP_S_CMPTO_O: { MP q=obj(p[1]); if(q->kind!=RK_S) X("not a string"); else ok({cmpText(SS(0),q->text,false,false)}); return true; }
  case OP_S_CONCAT_A: case OP_S_JOIN_C: case OP_S_JOIN_S: { MP a=A[o.code==OP_S_CONCAT_A?p[1]:p[2]]; WS sep=o.code==OP_S_JOIN_C?WS(1,(wchar_t)(int32_t)p[1]):o.code==OP_S_JOIN_S?SS(1):WS(); int64_t s=0,n=a->total;
      if(a->rank!=1||(a->type!=ObjectT&&a->type!=StringT)){ if(a->total==0){ e.excToo=true; str((int)p[0],L""); return true; } X("not an array of objects"); return true; }
      if(o.code!=OP_S_CONCAT_A){ s=I(3); n=I(4); if(a->total==0){ if(s!=0||n>0||n<-1) e.excToo=true; str((int)p[0],L""); return true; } if(!dflt(a->total,s,n)) return true; }
      Over ov; for(int64_t i=0;i<n;++i) reach(a->refs[(size_t)(s+i)],e.touch); WS r; for(int64_t i=0;i<n;++i){ if(i) r+=sep; WS t; int c=call(a->refs[(size_t)(s+i)],t,ov); if(c==1){ X("ToString raised an exception"); return true; } if(c){ e.any=true; e.adopt=true; return true; } r+=t; if(CNT(r)>BIG){ strBig(); e.slow=true; return true; } } str((int)p[0],r); over(ov); return true; }
  case OP_S_CONCAT1: case OP_S_CONCAT2: case OP_S_CONCAT3: case OP_S_CONCAT5: case OP_S_CONCAT7: { Over ov; for(int i=1;sig[i];++i) reach(obj(p[i]),e.touch); WS r; for(int i=1;sig[i];++i){ WS t; int c=call(obj(p[i]),t,ov); if(c==1){ X("ToString raised an exception"); return true; } if(c){ e.any=true; e.adopt=true; return true; } r+=t; } str((int)p[0],r); over(ov); return true; }
  case OP_S_CONTAINS: ok({find(SS(0),SS(1),0,CNT(SS(0)))>=0}); return true;
  case OP_S_COPY: case OP_S_TOSTR: str((int)p[0],SS(1)); return true;
  case OP_S_COPYTO: { MP a=A[p[2]]; int64_t i=I(1),d=I(3),n=I(4); if(!charArr(a,false)) return true; const WS& t=SS(0); if(n<0||i<0||i>CNT(t)||n>CNT(t)-i||d<0||d>a->total||n>a->total-d){ X("range outside"); return true; } ok({}); WS sub=t.substr((size_t)i,(size_t)n); e.commit=[a,d,sub]{ if(sub.size()) memcpy(&a->mem->b[(size_t)d*4],sub.data(),sub.size()*4); }; return true; }
  case OP_S_ENDS: { const WS&a=SS(0),&b=SS(1); ok({b.size()<=a.size()&&a.compare(a.size()-b.size(),b.size(),b)==0}); return true; }
  case OP_S_ENDSC: ok({!SS(0).empty()&&SS(0).back()==(wchar_t)(int32_t)p[1]}); return true;
  case OP_S_STARTS: { const WS&a=SS(0),&b=SS(1); ok({b.size()<=a.size()&&a.compare(0,b.size(),b)==0}); return true; }
  case OP_S_EQ_S: case OP_S_EQ_SS: ok({SS(0)==SS(1)}); return true;
  case OP_S_NE: ok({SS(0)!=SS(1)}); return true;
  case OP_S_EQ_O: case OP_S_EQ_SO: { MP q=obj(p[1]); ok({q->kind==RK_S&&q->text==SS(0)}); return true; }
  case OP_S_EQ_OS: { MP q=obj(p[0]); ok({q->kind==RK_S&&q->text==SS(1)}); return true; }
  case OP_S_IDX_C: case OP_S_IDX_C1: case OP_S_IDX_C2: { const WS& t=SS(0); int64_t L=CNT(t),s=o.code==OP_S_IDX_C?0:I(2),n=o.code==OP_S_IDX_C2?I(3):L-s; if(s<0||s>L||n<0||n>L-s){ X("range outside"); return true; } int64_t r=-1; for(int64_t i=s;i<s+n;++i) if(t[(size_t)i]==(wchar_t)(int32_t)p[1]){ r=i; break; } ok({r}); return true; }
  case OP_S_IDX_S: case OP_S_IDX_S1: case OP_S_IDX_S2: { const WS& t=SS(0); const WS& v=SS(1); int64_t L=CNT(t),s=o.code==OP_S_IDX_S?0:I(2),n=o.code==OP_S_IDX_S2?I(3):L-s; if(s<0||s>L||n<0||n>L-s){ X("range outside"); return true; } ok({find(t,v,s,s+n)}); return true; }
  case OP_S_IDXANY: case OP_S_IDXANY1: case OP_S_IDXANY2: { const WS& t=SS(0); MP a=A[p[1]]; int64_t L=CNT(t),s=o.code==OP_S_IDXANY?0:I(2),n=o.code==OP_S_IDXANY2?I(3):L-s; if(s<0||s>L||n<0||n>L-s){ X("range outside"); return true; } if(!charArr(a,false)) return true; WS set=chars(a); int64_t r=-1; for(int64_t i=s;i<s+n;++i) if(set.find(t[(size_t)i])!=WS::npos){ r=i; break; } ok({r}); return true; }
  case OP_S_INSERT: { int64_t i=I(2); if(i<0||i>CNT(SS(1))){ X("index outside"); return true; } WS t=SS(1); t.insert((size_t)i,SS(3)); str((int)p[0],t); return true; }
  case OP_S_ISEMPTY: ok({SS(0).empty()}); return true;
  case OP_S_ISWS: { bool w=true,odd=false; for(wchar_t c:SS(0)){ if(c>=127||c<0) odd=true; else if(!iswspace((wint_t)c)) w=false; } if(w&&odd) e.any=true; else ok({w}); return true; }
  case OP_S_LIDX_C0: case OP_S_LIDX_C1: case OP_S_LIDX_C: case OP_S_LIDX_S0: case OP_S_LIDX_S1: case OP_S_LIDX_S: case OP_S_LIDXANY0: case OP_S_LIDXANY: {
      const WS& t=SS(0); int64_t L=CNT(t),s=-1,n=-1; bool str_=o.code==OP_S_LIDX_S0||o.code==OP_S_LIDX_S1||o.code==OP_S_LIDX_S, any=o.code==OP_S_LIDXANY0||o.code==OP_S_LIDXANY;
      if(o.code==OP_S_LIDX_C1||o.code==OP_S_LIDX_S1) s=I(2); if(o.code==OP_S_LIDX_C||o.code==OP_S_LIDX_S||o.code==OP_S_LIDXANY){ s=I(2); n=I(3); }
      WS set; if(any){ if(!charArr(A[p[1]],false)) return true; set=chars(A[p[1]]); } if(str_&&SS(1).empty()){ e.any=true; return true; }
      if(L==0){ e.excToo=true; if(s<=0&&n<=0) { e.excToo=(s<-1||n<-1||s==0||n==0); } ok({-1}); return true; }
      if(s<0){ if(s<-1) e.excToo=true; s=L-1; } if(s>L){ X("start outside"); return true; } if(s==L){ if(str_) e.any=true; else X("start outside"); return true; }
      if(n<0){ if(n<-1) e.excToo=true; n=s+1; } if(n>s+1){ X("count outside"); return true; }
      int64_t r=-1,lo=s-n+1; if(str_){ const WS& v=SS(1); for(int64_t i=s-CNT(v)+1;i>=lo;--i) if(t.compare((size_t)i,v.size(),v)==0){ r=i; break; } } else for(int64_t i=s;i>=lo;--i) if(any?set.find(t[(size_t)i])!=WS::npos:t[(size_t)i]==(wchar_t)(int32_t)p[1]){ r=i; break; }
      ok({r}); return true; }
  case OP_S_PADL: case OP_S_PADR: { int64_t w=I(2); const WS& t=SS(1); if(w<0){ X("negative width"); return true; } if(w>BIG){ strBig(); return true; } WS pad((size_t)(w>CNT(t)?w-CNT(t):0),(wchar_t)(int32_t)p[3]); str((int)p[0],o.code==OP_S_PADL?pad+t:t+pad); return true; }
  case OP_S_REMOVE1: case OP_S_REMOVE: { const WS& t=SS(1); int64_t L=CNT(t),i=I(2),n=o.code==OP_S_REMOVE?I(3):-1; if(i==L&&n<0) e.excToo=true; if(!dflt(L,i,n)) return true; WS r=t; r.erase((size_t)i,(size_t)n); str((int)p[0],r); return true; }
  case OP_S_REPC: { WS r=SS(1); for(auto& c:r) if(c==(wchar_t)(int32_t)p[2]) c=(wchar_t)(int32_t)p[3]; str((int)p[0],r); return true; }
  case OP_S_REPS: { const WS&t=SS(1),&a=SS(2),&b=SS(3); if(a.empty()){ X("empty search"); return true; } WS r; size_t i=0; while(i<t.size()){ if(t.compare(i,a.size(),a)==0){ r+=b; i+=a.size(); if(CNT(r)>BIG){ strBig(); e.slow=true; return true; } } else r+=t[i++]; } str((int)p[0],r); return true; }
  case OP_S_SUBSTR1: case OP_S_SUBSTR: { const WS& t=SS(1); int64_t i=I(2),n=o.code==OP_S_SUBSTR?I(3):-1; if(!dflt(CNT(t),i,n)) return true; str((int)p[0],t.substr((size_t)i,(size_t)n)); return true; }
  case OP_S_TOCHARS: { const WS& t=SS(1); int64_t i=I(2),n=I(3); if(!dflt(CNT(t),i,n)) return true; MP a=mk(RK_A); a->type=CharT; a->rank=1; a->d[0]=a->total=n; a->mem=std::make_shared<MMem>(); a->mem->b.assign((size_t)n*4,0); if(n) memcpy(a->mem->b.data(),t.data()+i,(size_t)n*4); ok({n}); int r=(int)p[0]; e.commit=[M,r,a]{ M->A[r]=a; }; return true; }
  case OP_S_LOWER: case OP_S_LOWERI: { WS r=SS(1); for(auto& c:r) c=(wchar_t)towlower((wint_t)c); str((int)p[0],r); return true; }
  case OP_S_UPPER: case OP_S_UPPERI: { WS r=SS(1); for(auto& c:r) c=(wchar_t)towupper((wint_t)c); str((int)p[0],r); return true; }
  case OP_S_TRIM: str((int)p[0],trim(SS(1),WSP,true,true)); return true;
  case OP_S_TRIMS0: str((int)p[0],trim(SS(1),WSP,true,false)); return true;
  case OP_S_TRIME0: str((int)p[0],trim(SS(1),WSP,false,true)); return true;
  case OP_S_TRIMA: case OP_S_TRIMS: case OP_S_TRIME: { MP a=A[p[2]]; WS set=WSP; if(a->total>0){ if(!charArr(a,false)) return true; set=chars(a); } else if(a->rank!=1||a->type!=CharT) e.excToo=true; str((int)p[0],trim(SS(1),set,o.code!=OP_S_TRIME,o.code!=OP_S_TRIMS)); return true; }
  case OP_S_FMT: case OP_B_FMT: { const WS& t=o.code==OP_S_FMT?SS(0):B[p[0]]->text; int64_t n=p[1]<1?1:p[1]>400?400:p[1]; if(n<CNT(t)){ X("buffer too small"); return true; } if(n==CNT(t)) e.excToo=true; ok({CNT(t)}); e.useText=true; e.text=t; return true; }
  case OP_S_DEL: { int r=(int)p[0]; e.commit=[M,r]{ M->S[r]=nullptr; }; return true; }
  // ---- builders
  case OP_B_NEW: case OP_B_NEWC: case OP_B_NEWCM: case OP_B_NEWS: case OP_B_NEWSC: case OP_B_NEWSS: {
      MP b=mk(RK_B); int r=(int)p[0]; e.commit=[M,r,b]{ M->B[r]=b; };
      if(o.code==OP_B_NEWC||o.code==OP_B_NEWCM){ int64_t c=I(1),m=o.code==OP_B_NEWCM?I(2):0x7fffffff; if(c<0||m<1||c>m){ X("capacity outside"); return true; } b->maxcap=m; if(c>BIG) e.big=true; return true; }
      if(o.code==OP_B_NEW) return true;
      int64_t s=0,n=CNT(SS(1)),c=0; if(o.code==OP_B_NEWSC) c=I(2); if(o.code==OP_B_NEWSS){ s=I(2); n=I(3); c=I(4); } if(c<0||n<0||s<0||s>CNT(SS(1))||n>CNT(SS(1))-s){ X("range outside"); return true; } b->text=SS(1).substr((size_t)s,(size_t)n); if(c>BIG) e.big=true; return true; }
  case OP_B_LEN: ok({CNT(B[p[0]]->text)}); return true;
  case OP_B_CAP: ok({1}); return true;
  case OP_B_MAX: ok({B[p[0]]->maxcap}); return true;
  case OP_B_GETCH: { int64_t i=I(1); const WS& t=B[p[0]]->text; if(i<0||i>=CNT(t)) X("index outside"); else ok({t[(size_t)i]}); return true; }
  case OP_B_SETCH: { int64_t i=I(1); MP b=B[p[0]]; if(i<0||i>=CNT(b->text)){ X("index outside"); return true; } wchar_t c=(wchar_t)(int32_t)p[2]; e.commit=[b,i,c]{ b->text[(size_t)i]=c; }; return true; }
  case OP_B_SETCAP: { int64_t n=I(1); MP b=B[p[0]]; if(n<0||n>b->maxcap||n<CNT(b->text)){ X("capacity outside"); return true; } if(n>BIG) e.big=true; ok({}); return true; }
  case OP_B_SETLEN: { int64_t n=I(1); MP b=B[p[0]]; if(n<0||n>b->maxcap){ X("length outside"); return true; } if(n>BIG){ e.big=true; return true; } e.commit=[b,n]{ b->text.resize((size_t)n,L'\0'); }; return true; }
  case OP_B_APP_C: insB(B[p[0]],CNT(B[p[0]]->text),WS(1,(wchar_t)(int32_t)p[1])); return true;
  case OP_B_APP_CN: { int64_t n=I(2); MP b=B[p[0]]; if(n<0){ X("negative count"); return true; } if(n+CNT(b->text)>b->maxcap){ X("maximum capacity"); return true; } if(n>BIG){ e.big=true; return true; } insB(b,CNT(b->text),WS((size_t)n,(wchar_t)(int32_t)p[1])); return true; }
  case OP_B_APP_S0: insB(B[p[0]],CNT(B[p[0]]->text),SS(1)); return true;
  case OP_B_APP_S: { int64_t s=I(2),n=I(3); if(!whole(CNT(SS(1)),s,n)) return true; insB(B[p[0]],CNT(B[p[0]]->text),SS(1).substr((size_t)s,(size_t)n)); return true; }
  case OP_B_APP_A0: case OP_B_APP_A: case OP_B_INS_A: { bool ins=o.code==OP_B_INS_A; MP b=B[p[0]]; MP a=A[ins?p[2]:p[1]]; int64_t at=ins?I(1):CNT(b->text),s=-1,n=-1; if(o.code==OP_B_APP_A){ s=I(2); n=I(3); } if(ins){ s=I(3); n=I(4); }
      bool badAt=at<0||at>CNT(b->text); bool empty=n==0||(a->total==0&&n<0);
      if(empty){ if(badAt||s>a->total||s>0||a->type!=CharT||a->rank!=1||n<-1||s<-1) e.excToo=true; ok({1}); return true; }
      if(badAt){ X("index outside"); return true; } if(a->rank!=1||a->type!=CharT){ X("not a character array"); return true; }
      if(s<0){ if(s<-1) e.excToo=true; s=0; } bool et=e.excToo; if(!whole(a->total,s,n)) return true; e.excToo|=et; if(n==0) e.excToo=true; insB(b,at,chars(a).substr((size_t)s,(size_t)n)); return true; }
  case OP_B_APP_O: case OP_B_INS_O: { bool ins=o.code==OP_B_INS_O; MP b=B[p[0]]; MP q=obj(ins?p[2]:p[1]); reach(q,e.touch); int64_t at=ins?I(1):CNT(b->text); bool pre=at<0||at>CNT(b->text); if(pre){ if(e.touch.empty()) X("index outside"); else { e.any=true; e.adopt=true; } return true; } Over ov; WS t; int c=call(q,t,ov); if(c==1){ X("ToString raised an exception"); return true; } if(c){ e.any=true; e.adopt=true; return true; }
      if(ov.empty()){ if(pre) X("index outside"); else insB(b,at,t); return true; } WS w=ov.count(b)?ov[b]:b->text; if(!ins) at=CNT(w); if(at<0||at>CNT(w)){ X("index outside"); return true; } if(pre) e.excToo=true; w.insert((size_t)at,t); setB(b,w); ov.erase(b); over(ov); return true; }   // the object is asked for its text first
  case OP_B_APP_V: case OP_B_INS_V: { bool ins=o.code==OP_B_INS_V; MP b=B[p[0]]; int64_t at=ins?I(1):CNT(b->text); if(at<0||at>CNT(b->text)){ X("index outside"); return true; } bool k; WS t=fmtV((int)(ins?p[2]:p[1]),ins?p[3]:p[2],k); if(!k){ e.any=true; e.adopt=true; return true; } insB(b,at,t); return true; }
  case OP_B_LINE: insB(B[p[0]],CNT(B[p[0]]->text),L"\r\n"); return true;
  case OP_B_LINE_S: insB(B[p[0]],CNT(B[p[0]]->text),SS(1)+L"\r\n"); return true;
  case OP_B_CLEAR: setB(B[p[0]],L""); return true;
  case OP_B_ENSURE: { int64_t n=I(1); if(n<0||n>B[p[0]]->maxcap){ X("capacity outside"); return true; } if(n>BIG) e.big=true; ok({1}); return true; }
  case OP_B_EQ: { MP x=B[p[0]],y=B[p[1]]; if(x==y) ok({1}); else if(x->maxcap!=y->maxcap||x->text!=y->text) ok({0}); else e.any=true; return true; }   // equal texts may still differ in capacity
  case OP_B_INS_S: { MP b=B[p[0]]; int64_t at=I(1),n=I(3); const WS& v=SS(2); if(at<0||at>CNT(b->text)||n<0){ X("range outside"); return true; } if(n*CNT(v)+CNT(b->text)>b->maxcap){ X("maximum capacity"); return true; } if(n*CNT(v)>BIG){ e.big=true; return true; } WS t; for(int64_t i=0;i<n&&!v.empty();++i) t+=v; insB(b,at,t); return true; }
  case OP_B_REMOVE: { MP b=B[p[0]]; int64_t s=I(1),n=I(2),L=CNT(b->text); if(s<0||n<0||s>L||n>L-s){ X("range outside"); return true; } WS t=b->text; t.erase((size_t)s,(size_t)n); setB(b,t); return true; }
  case OP_B_REPC: case OP_B_REPCR: { MP b=B[p[0]]; int64_t L=CNT(b->text),s=0,n=L; if(o.code==OP_B_REPCR){ s=I(3); n=I(4); } if(s<0||s>L||n<0||n>L-s){ X("range outside"); return true; } WS t=b->text; for(int64_t i=s;i<s+n;++i) if(t[(size_t)i]==(wchar_t)(int32_t)p[1]) t[(size_t)i]=(wchar_t)(int32_t)p[2]; setB(b,t); return true; }
  case OP_B_REPS: case OP_B_REPSR: { MP b=B[p[0]]; int64_t L=CNT(b->text),s=0,n=L; if(o.code==OP_B_REPSR){ s=I(3); n=I(4); } const WS&a=SS(1),&r=SS(2); if(s<0||s>L||n<0||n>L-s||a.empty()){ X("range outside or empty search"); return true; }
      const WS& t=b->text; WS q=t.substr(0,(size_t)s); int64_t i=s,end=s+n; while(i<end){ if(i+CNT(a)<=end&&t.compare((size_t)i,a.size(),a)==0){ q+=r; i+=CNT(a); if(CNT(q)>BIG){ e.slow=e.big=true; return true; } } else q+=t[(size_t)i++]; } q+=t.substr((size_t)end); setB(b,q); return true; }
  case OP_B_TOSTR: str((int)p[0],B[p[1]]->text); return true;
  case OP_B_TOSTRR: { const WS& t=B[p[1]]->text; int64_t s=I(2),n=I(3),L=CNT(t); if(s<0||s>L||n<0||n>L-s){ X("range outside"); return true; } if(s==L) e.excToo=true; str((int)p[0],t.substr((size_t)s,(size_t)n)); return true; }
  case OP_B_DEL: { int r=(int)p[0]; e.commit=[M,r]{ M->B[r]=nullptr; }; return true; }
  // ---- arrays
  case OP_A_NEW: case OP_A_WRAP: case OP_A_DATA: {
      MP a=mk(RK_A); int r=(int)p[0]; int64_t d1,d2,d3; e.commit=[M,r,a]{ M->A[r]=a; };
      if(o.code==OP_A_DATA){ a->type=Int32T; a->rank=1; a->d[0]=a->total=4; a->mem=glob; a->wrapped=true; return true; }
      int q=o.code==OP_A_WRAP?2:1; a->type=(int)p[q]; d1=I(q+1); d2=I(q+2); d3=I(q+3); if(a->type<=NullT||a->type>=DT_N||a->type==DecimalT){ e.any=true; e.adopt=true; e.commit=nullptr; return true; }
      if(d1<0||d2<-1||d3<-1){ X("negative dimension"); return true; } if(d2==-1&&d3!=-1){ e.any=true; e.adopt=true; e.commit=nullptr; return true; }
      a->rank=1+(d2!=-1)+(d3!=-1); a->d[0]=d1; a->d[1]=d2; a->d[2]=d3; __int128 tot=d1; if(d2>=0) tot*=d2; if(d3>=0) tot*=d3; if(tot>0x7fffffff){ X("impossible size"); e.big=true; e.commit=nullptr; return true; } if(tot*DTSize[a->type]>0x7fffffff||(d2>0&&d1*d2>BIG)||(tot==0&&(d1>BIG||d2>BIG||d3>BIG))) e.excToo=true; /* a size no block can have, or an empty array with a huge dimension */ if(tot*DTSize[a->type]>BIG*4){ e.big=true; e.commit=nullptr; return true; }
      a->total=(int64_t)tot;
      if(o.code==OP_A_WRAP){ a->wrapped=true; if(bufs.empty()){ e.any=true; e.commit=nullptr; return true; } a->mem=bufs[(size_t)p[1]%bufs.size()]; if(isRefT(a->type)||a->total*DTSize[a->type]>(int64_t)a->mem->b.size()) harness("plan wraps more than the platform memory"); return true; }
      if(isRefT(a->type)) a->refs.resize((size_t)a->total); else { a->mem=std::make_shared<MMem>(); a->mem->b.assign((size_t)(a->total*DTSize[a->type]),0); } return true; }
  case OP_A_LEN: ok({A[p[0]]->total}); return true;
  case OP_A_RANK: ok({A[p[0]]->rank}); return true;
  case OP_A_GETLEN: case OP_A_LB: case OP_A_UB: { int64_t r=I(1); MP a=A[p[0]]; if(r<0||r>=a->rank) X("no such dimension"); else ok({o.code==OP_A_GETLEN?a->d[r]:o.code==OP_A_LB?0:a->d[r]-1}); return true; }
  case OP_A_ADDRGET: { MP a=A[p[0]]; bool l; int64_t x=flat(a,(int32_t)p[1],(int32_t)p[2],(int32_t)p[3],l); if(x<0){ X("index outside"); return true; } e.excToo=l; if(isRefT(a->type)){ MP q=a->refs[(size_t)x]; if(!q) ok({-1}); else { e.useV=false; if(q->kind==RK_S){ e.useText=true; e.text=q->text; ok({StringT}); } else if(q->kind==RK_O) ok({q->btype}); } } else ok({ldB(a->type,&a->mem->b[(size_t)(x*DTSize[a->type])])}); return true; }
  case OP_A_ADDRSET: { MP a=A[p[0]]; if(isRefT(a->type)){ e.skip=true; return true; } bool l; int64_t x=flat(a,(int32_t)p[1],(int32_t)p[2],(int32_t)p[3],l); if(x<0){ X("index outside"); return true; } e.excToo=l; int64_t v=p[4]; e.commit=[a,x,v]{ stB(a->type,&a->mem->b[(size_t)(x*DTSize[a->type])],v); }; return true; }
  case OP_A_ADDRSETO: { MP a=A[p[0]],z=obj(p[4]); if(!isRefT(a->type)||a->type==DecimalT||(a->type==StringT&&z&&z->kind!=RK_S)||z==a){ e.skip=true; return true; } bool l; int64_t x=flat(a,(int32_t)p[1],(int32_t)p[2],(int32_t)p[3],l); if(x<0){ X("index outside"); return true; } e.excToo=l; e.commit=[a,x,z]{ a->refs[(size_t)x]=z; }; return true; }
  case OP_A_CLEAR: { MP a=A[p[0]]; int64_t s=I(1),n=I(2); if(a->rank!=1||s<0||n<0||s>a->total||n>a->total-s){ X("range outside"); return true; } e.commit=[a,s,n]{ if(isRefT(a->type)) for(int64_t i=s;i<s+n;++i) a->refs[(size_t)i]=nullptr; else if(n) memset(&a->mem->b[(size_t)(s*DTSize[a->type])],0,(size_t)(n*DTSize[a->type])); }; return true; }
  case OP_A_COPY: case OP_A_COPYI: case OP_A_CCOPY: case OP_A_COPYTO: { MP a,b; int64_t s=0,d=0,n; if(o.code==OP_A_COPY){ a=A[p[0]]; b=A[p[1]]; n=I(2); } else if(o.code==OP_A_COPYTO){ a=A[p[0]]; b=A[p[1]]; d=I(2); n=a->total; if(b->rank!=1){ X("rank"); return true; } } else { a=A[p[0]]; s=I(1); b=A[p[2]]; d=I(3); n=I(4); }
      if(n<0||s<0||d<0||s>a->total||n>a->total-s||d>b->total||n>b->total-d){ X("range outside"); return true; } if(a->rank!=b->rank){ X("rank"); return true; } if(a->type!=b->type){ X("element type"); return true; }
      e.commit=[a,b,s,d,n]{ int z=DTSize[a->type]; if(isRefT(a->type)){ std::vector<MP> t(a->refs.begin()+s,a->refs.begin()+s+n); std::copy(t.begin(),t.end(),b->refs.begin()+d); } else if(n) { std::vector<uint8_t> t(a->mem->b.begin()+s*z,a->mem->b.begin()+(s+n)*z); std::copy(t.begin(),t.end(),b->mem->b.begin()+d*z); } }; return true; }
  case OP_A_GETV: case OP_A_GETVA: { MP a=A[p[1]]; int32_t ix[3]={-1,-1,-1}; bool l,loose=false; if(o.code==OP_A_GETV) for(int i=0;i<3;++i) ix[i]=(int32_t)p[2+i]; else { MP q=A[p[2]]; if(q->rank!=1||q->total>3){ X("indexes"); return true; } if(q->total==0){ e.excToo=true; ok({-1}); return true; } if(q->type!=Int32T&&q->type!=Int64T){ X("indexes of another type"); return true; } if(q->total!=a->rank) loose=true; if(!indexes(q,ix)){ X("index outside"); return true; } }
      int64_t x=flat(a,ix[0],ix[1],ix[2],l); if(x<0){ X("index outside"); return true; } e.excToo=l||loose;
      if(isRefT(a->type)){ MP q=a->refs[(size_t)x]; if(!q) ok({-1}); else if(q->kind==RK_S){ e.useText=true; e.text=q->text; ok({StringT}); } else if(q->kind==RK_O) ok({q->btype}); return true; }
      int64_t raw=ldB(a->type,&a->mem->b[(size_t)(x*DTSize[a->type])]); if(!(a->type==BooleanT&&(raw&~1ll))) ok({a->type,canonV(a->type,raw)}); MP b=mk(RK_O); b->btype=a->type; b->bits=raw; int r=(int)p[0]; e.commit=[M,r,b]{ M->O[r]=b; }; return true; }
  case OP_A_SETV: case OP_A_SETVA: { MP z=obj(p[0]),a=A[p[1]]; int32_t ix[3]={-1,-1,-1}; bool l,loose=false; if(o.code==OP_A_SETV) for(int i=0;i<3;++i) ix[i]=(int32_t)p[2+i]; else { MP q=A[p[2]]; if(z==a&&a->type!=StringT){ e.skip=true; return true; } if(q->rank!=1||q->total>3){ X("indexes"); return true; } if(q->total==0){ e.excToo=true; return true; } if(q->type!=Int32T&&q->type!=Int64T){ X("indexes of another type"); return true; } if(q->total!=a->rank) loose=true; if(!indexes(q,ix)){ X("index outside"); return true; } }
      if(z==a&&a->type!=StringT){ e.skip=true; return true; } if(a->type==StringT&&z&&z->kind!=RK_S){ X("not a string"); return true; } int64_t x=flat(a,ix[0],ix[1],ix[2],l); if(x<0){ X("index outside"); return true; } e.excToo|=l||loose;
      if(isRefT(a->type)){ e.commit=[a,x,z]{ a->refs[(size_t)x]=z; }; return true; }
      if(!z||z->kind!=RK_O||z->btype==ObjectT){ X("not a value"); return true; } { int64_t y; if(z->btype!=a->type&&conv(z->btype,z->bits,a->type,y)){ e.excToo=true; MP mm=a; int ty=a->type; size_t at=(size_t)(x*DTSize[ty]); e.commit=[mm,ty,at,y]{ stB(ty,&mm->mem->b[at],y); }; return true; } } if(z->btype!=a->type||(a->type==BooleanT&&(z->bits&~1ll))){ e.any=true; e.adA=(int)p[1]; e.adX=x; return true; }   // a conversion: only this element may change
      int64_t v=z->bits; e.commit=[a,x,v]{ stB(a->type,&a->mem->b[(size_t)(x*DTSize[a->type])],v); }; return true; }
  case OP_A_IDXOF0: case OP_A_IDXOF: { MP a=A[p[0]],z=obj(p[1]); int64_t s=0,n=-1; if(o.code==OP_A_IDXOF){ s=I(2); n=I(3); } if(a->rank!=1||(a->type!=ObjectT&&a->type!=StringT)){ X("not an array of objects"); return true; } if(!dflt(a->total,s,n)) return true; int64_t r=-1; for(int64_t i=s;i<s+n;++i){ MP q=a->refs[(size_t)i]; if(!q){ if(z) continue; r=i; break; } bool k, same=boxEq(q,z,k); if(eqThrow==1){ X("Equals raised an exception"); return true; } if(eqThrow) e.excToo=true; if(same){ r=i; break; } if(!k){ e.any=true; return true; } } ok({r}); return true; }
  case OP_A_INIT: { MP a=A[p[0]]; if(isRefT(a->type)||bufs.empty()){ e.skip=true; return true; } auto q=bufs[(size_t)p[1]%bufs.size()]; int64_t n=a->total*DTSize[a->type]; if(n>(int64_t)q->b.size()){ e.skip=true; return true; } ok({1}); e.commit=[a,q,n]{ std::vector<uint8_t> t(q->b.begin(),q->b.begin()+n); std::copy(t.begin(),t.end(),a->mem->b.begin()); }; return true; }
  case OP_A_DEL: { int r=(int)p[0]; e.commit=[M,r]{ M->A[r]=nullptr; }; return true; }
  // ---- byte views
  case OP_F_COPY: case OP_F_LEN: case OP_F_GET: case OP_F_SET: { auto prim=[&](const MP& a)->bool{ if(a->type==DecimalT){ e.any=true; e.adopt=true; return false; } if(a->rank!=1||a->type==ObjectT||a->type==StringT||a->type==NullT){ X("not a one-dimensional array of values"); return false; } if(a->type==DateTimeT||a->type==TimeSpanT) e.excToo=true; return true; };
      MP a=A[p[0]]; 
      if(o.code==OP_F_COPY){ MP b=A[p[2]]; if(!prim(a)||!prim(b)) return true; int64_t s=I(1),d=I(3),n=I(4),la=a->total*DTSize[a->type],lb=b->total*DTSize[b->type]; if(n<0||s<0||d<0||s>la||n>la-s||d>lb||n>lb-d){ X("range outside"); return true; } e.commit=[a,b,s,d,n]{ std::vector<uint8_t> t(a->mem->b.begin()+s,a->mem->b.begin()+s+n); std::copy(t.begin(),t.end(),b->mem->b.begin()+d); }; return true; }
      if(!prim(a)) return true; int64_t n=a->total*DTSize[a->type]; if(o.code==OP_F_LEN){ ok({n}); return true; } int64_t i=I(1); if(i<0||i>=n){ X("index outside"); return true; }
      if(o.code==OP_F_GET) ok({a->mem->b[(size_t)i]}); else { uint8_t v=(uint8_t)p[2]; e.commit=[a,i,v]{ a->mem->b[(size_t)i]=v; }; } return true; }
  case OP_V_GET: { int t=(int)p[1]; int n=0; switch(t){ case BooleanT:n=1;break; case CharT:case Int16T:case UInt16T:n=2;break; case Int32T:case UInt32T:case SingleT:n=4;break; case Int64T:case UInt64T:case DoubleT:n=8;break; default:e.skip=true; return true; }
      uint64_t x=(uint64_t)p[2]; if(t==BooleanT) x&=1; MP a=mk(RK_A); a->type=ByteT; a->rank=1; a->d[0]=a->total=n; a->mem=std::make_shared<MMem>(); e.useV=true; e.v={n}; for(int i=0;i<n;++i){ a->mem->b.push_back((uint8_t)(x>>(8*i))); if(i<7) e.v.push_back(a->mem->b[(size_t)i]); } int r=(int)p[0]; e.commit=[M,r,a]{ M->A[r]=a; }; return true; }
  case OP_V_TO: { MP a=A[p[1]]; int t=(int)p[0]; if(a->type!=ByteT){ e.skip=true; return true; } int n=0; switch(t){ case BooleanT:n=1;break; case CharT:case Int16T:case UInt16T:n=2;break; case Int32T:case UInt32T:case SingleT:n=4;break; case Int64T:case UInt64T:case DoubleT:n=8;break; default:e.skip=true; return true; }
      int64_t i=I(2); if(a->rank!=1||i<0||i>a->total-n){ X("range outside"); return true; } const uint8_t* q=&a->mem->b[(size_t)i]; int64_t x; if(t==BooleanT) x=*q!=0; else if(t==CharT){ uint16_t y; memcpy(&y,q,2); x=y; } else x=canonV(t,ldB(t,q)); ok({x}); return true; }
  case OP_V_STR0: case OP_V_STR: { MP a=A[p[1]]; int64_t s=0,n=-1,L=a->total; if(a->type!=ByteT){ e.skip=true; return true; } if(o.code==OP_V_STR){ s=I(2); n=I(3); } if(a->rank!=1){ if(n==0||L==0){ e.any=true; e.adopt=true; return true; } X("rank"); return true; }
      if(L==0){ if(s!=0){ X("start outside"); if(s==0) e.exc=false; return true; } if(n>0||n<-1) e.excToo=true; str((int)p[0],L""); return true; } if(s>=L||s<0){ X("start outside"); return true; } if(n<-1){ X("negative length"); e.exc=false; e.excToo=true; n=L-s; } if(n==-1) n=L-s; if(n>L-s){ X("length outside"); return true; }
      WS r; static const wchar_t* hx=L"0123456789ABCDEF"; for(int64_t i=0;i<n;++i){ if(i) r+=L'-'; uint8_t c=a->mem->b[(size_t)(s+i)]; r+=hx[c>>4]; r+=hx[c&15]; } str((int)p[0],r); return true; }
  case OP_V_D2L: case OP_V_L2D: ok({canonV(o.code==OP_V_L2D?DoubleT:Int64T,p[0])}); return true;
  // ---- enumerators
  case OP_E_NEW: case OP_E_GET: { MP q=mk(RK_E); q->str=S[p[1]]; int r=(int)p[0]; e.commit=[M,r,q]{ M->E[r]=q; }; return true; }
  case OP_E_CUR: { MP q=E[p[0]]; if(q->pos<0||q->pos>=CNT(q->str->text)) X("no current character"); else ok({q->str->text[(size_t)q->pos]}); return true; }
  case OP_E_NEXT: { MP q=E[p[0]]; int64_t L=CNT(q->str->text),n=q->pos<L?q->pos+1:L; ok({n<L}); e.commit=[q,n]{ q->pos=n; }; return true; }
  case OP_E_ADV: { MP q=E[p[0]]; const WS& t=q->str->text; int64_t L=CNT(t),m=I(1)<0?0:I(1)>MAXTEXT-1?MAXTEXT-1:I(1),at=q->pos,n=0; WS r; while(n<m&&at<L){ ++at; if(at<L){ r+=t[(size_t)at]; ++n; } else break; } ok({n}); e.useText=true; e.text=r; e.commit=[q,at]{ q->pos=at; }; return true; }
  case OP_E_RESET: { MP q=E[p[0]]; e.commit=[q]{ q->pos=-1; }; return true; }
  case OP_E_DEL: { int r=(int)p[0]; e.commit=[M,r]{ M->E[r]=nullptr; }; return true; }
  // ---- boxes (state only)
  case OP_O_BOX: { MP q=mk(RK_O); q->btype=(int)p[1]; q->bits=p[2]; if(q->btype==BooleanT) q->bits&=1; else { uint8_t t[8]; if(DTSize[q->btype]>0&&!isRefT(q->btype)){ stB(q->btype,t,q->bits); q->bits=ldB(q->btype,t); } else { e.skip=true; return true; } } int r=(int)p[0]; e.commit=[M,r,q]{ M->O[r]=q; }; if(q->btype==DateTimeT&&(uint64_t)q->bits>3155378975999999999ull) e.excToo=true; return true; }
  case OP_O_OBJ: { MP q=mk(RK_O); q->btype=ObjectT; int r=(int)p[0]; e.commit=[M,r,q]{ M->O[r]=q; }; return true; }
  case OP_O_USR: { int h=(int)p[1],k=(int)(p[3]/64); if(p[1]<0||p[1]>13||((h==3||h>8)&&k!=RK_S&&k!=RK_O)||((h==4||h==5||h==8)&&k!=RK_B)){ e.skip=true; return true; } MP q=mk(RK_O); q->btype=ObjectT; q->usr=h+1; q->text=p[2]>=0&&p[2]<(int64_t)lits.size()?WS(lits[(size_t)p[2]].c_str()):WS(); if(h==3||h==4||h==5||h>=8) q->other=obj(p[3]); int r=(int)p[0]; e.commit=[M,r,q]{ M->O[r]=q; }; return true; }
  case OP_O_DEL: { if(p[0]/64!=RK_O){ e.skip=true; return true; } int r=(int)(p[0]%64); e.commit=[M,r]{ M->O[r]=nullptr; }; return true; }
  case OP_O_DT: { MP q=obj(p[1]); if(q->kind==RK_S||q->kind==RK_B||(q->kind==RK_O&&q->btype!=DateTimeT&&q->btype!=TimeSpanT)){ e.skip=true; return true; } break; }
  case OP_O_RAW: { MP q=obj(p[0]); if(q->kind==RK_S) ok({StringT}); else if(q->kind==RK_O) ok({q->btype}); else break; return true; }
  case OP_O_AS: { MP q=obj(p[0]); if(q->kind!=RK_O||q->btype==ObjectT||(q->btype==BooleanT&&(q->bits&~1ll))) break; if(q->btype==(int)p[1]){ ok({canonV(q->btype,q->bits)}); return true; } int64_t y; if(!conv(q->btype,q->bits,(int)p[1],y)) break; e.excToo=true; ok({y}); return true; }
  case OP_O_EQ: case OP_O_EQS: { MP x=obj(p[0]),y=obj(p[1]); if(o.code==OP_O_EQS&&(!x||!y)){ if(x&&x->usr==3) e.excToo=true; ok({!x&&!y}); return true; } if((x->kind!=RK_S&&x->kind!=RK_O)||(y&&y->kind!=RK_S&&y->kind!=RK_O)) break; bool k; bool r=boxEq(x,y,k); if(!k) break; if(eqThrow==1||(eqThrow&&o.code==OP_O_EQ)){ X("Equals raised an exception"); return true; } if(eqThrow) e.excToo=true; ok({r}); return true; }
  case OP_O_EQV: { MP x=obj(p[0]); if(x->kind!=RK_O||x->btype!=(int)p[1]||x->btype==ObjectT||x->btype==BooleanT||(x->btype==DateTimeT&&(uint64_t)p[2]>3155378975999999999ull)) break; MP y=mk(RK_O); y->btype=x->btype; uint8_t t[8]; stB(y->btype,t,p[2]); y->bits=ldB(y->btype,t); bool k; bool r=boxEq(x,y,k); if(!k) break; ok({r}); return true; }
  case OP_O_TOSTR: { WS t; MP q=obj(p[1]); Over ov; reach(q,e.touch); int c=call(q,t,ov); if(c==2||(q->kind==RK_O&&q->btype==BooleanT&&(q->bits&~1ll))) break; if(c){ X("ToString raised an exception"); return true; } str((int)p[0],t); over(ov); return true; }
  case OP_X_DOUBLE: { double d; memcpy(&d,&globD,8); ok({canonV(DoubleT,globD)}); return true; }
  case OP_X_SEND: return true;
  }
  e.any=true; e.adopt=true; return false;
}
// ------------------------------------------------------------------ comparing observer
ModelObserver::ModelObserver(const Plan& pl,std::function<bool(int)> f,int alw):p(&pl),focus(f),always(alw){}
static std::string opText(const Op& o){ Step s; s.t='P'; s.op=o; return describeStep(s).substr(2); }
static wchar_t wb[70000]; static uint8_t bb[1<<20];
static WS take(int n){ return WS(wb,(size_t)(n<0?0:n>70000?70000:n)); }
void ModelObserver::before(const Step&,const Op& o){ if(!m.glob) m.reset(*p); modelled=m.expect(o,cur); if(o.code==OP_B_SETCAP&&!cur.skip&&!cur.exc){ int c=0,x=0; W.lib->inspB((int)o.a[0],wb,1,&c,&x); if((int32_t)o.a[1]<c) cur.excToo=true; } }   // making it smaller is a request the library may refuse
void ModelObserver::runBegin(int){ if(!m.glob) m.reset(*p); m.forget(); }
void ModelObserver::runEnd(int rc,int){ if(rc) violate("escape","an exception came out of Run"); m.forget(); if(watchBufs) checkBufs("after a run ended"); }
void ModelObserver::host(const Step& s){ if(!m.glob) m.reset(*p); m.host(*p,s); if(s.h==H_RUNS&&!W.inRun) m.forget(); }
void ModelObserver::checkBufs(const std::string& when){
  for(size_t i=0;i<W.bufMem.size()&&i<m.bufs.size();++i) for(int64_t j=0;j<W.bufMem[i].second;++j) if((uint8_t)W.bufMem[i].first[j]!=m.bufs[i]->b[(size_t)j]) violate("platform-data","%s: byte %lld of platform memory %zu is %d and must be %d",when.c_str(),(long long)j,i,(uint8_t)W.bufMem[i].first[j],m.bufs[i]->b[(size_t)j]);
  int32_t* d=W.lib->arrayData(); if(d) for(int i=0;i<4;++i){ int32_t x; memcpy(&x,&m.glob->b[(size_t)i*4],4); if(d[i]!=x) violate("platform-data","%s: element %d of the platform's exposed array is %d and must be %d",when.c_str(),i,d[i],x); }
}
void ModelObserver::adopt(int k,int i){
  if(k==RK_S){ int nt=1; int n=W.lib->inspS(i,wb,70000,&nt); if(n==-1){ m.S[i]=nullptr; return; } auto q=mk(RK_S); q->text=take(n); m.S[i]=q; }
  else if(k==RK_B){ int c,x; int n=W.lib->inspB(i,wb,70000,&c,&x); if(n==-1){ m.B[i]=nullptr; return; } MP q=m.B[i]?m.B[i]:mk(RK_B); q->text=take(n); q->maxcap=x; m.B[i]=q; }
  else if(k==RK_O){ int64_t x=0; int n=W.lib->inspO(i,&x); if(n<0){ m.O[i]=nullptr; return; } if(n==ObjectT&&m.O[i]&&m.O[i]->btype==ObjectT) return; auto q=mk(RK_O); if(n==ObjectT) q->usr=-1; q->btype=n; q->bits=x; m.O[i]=q; }
  else if(k==RK_A){ int t,d[4]; int n=W.lib->inspA(i,&t,d,bb,sizeof bb); if(n==-1||n<0){ m.A[i]=nullptr; return; } MP q=m.A[i]&&m.A[i]->wrapped?m.A[i]:mk(RK_A); q->type=t; q->rank=d[0]; for(int j=0;j<3;++j) q->d[j]=d[j+1]; q->total=n;
    if(isRefT(t)){ q->refs.assign((size_t)n,nullptr); for(int j=0;j<n;++j){ int r=W.lib->inspAText(i,j,wb,70000); if(r>=0){ q->refs[(size_t)j]=mk(RK_S); q->refs[(size_t)j]->text=take(r); } else if(r==-3){ q->refs[(size_t)j]=mk(RK_A); q->refs[(size_t)j]->usr=-1; } } }
    else { if(!q->mem) q->mem=std::make_shared<MMem>(); size_t len=(size_t)n*(size_t)DTSize[t]; if(!q->wrapped) q->mem->b.assign(bb,bb+(len>sizeof bb?sizeof bb:len)); } m.A[i]=q; }
}
static bool sameText(int n,const WS& x){ return n==(int)x.size()&&take(n)==x.substr(0,70000); }
static std::string fmtS(const char* f,...){ char b[5000]; va_list ap; va_start(ap,f); vsnprintf(b,sizeof b,f,ap); va_end(ap); return b; }
// what differs between the live object in a register and the model: empty when nothing does
std::string ModelObserver::diff(int kind,int i,std::string& cls){
  if(kind==RK_S){ int nt=1; int n=W.lib->inspS(i,wb,70000,&nt); MP q=m.S[i]; cls="state:string"; if(n==-1&&!q) return ""; if(n==-1||!q) return fmtS("string register %d %s",i,q?"lost its object":"appeared");
    if(!sameText(n,q->text)) return fmtS("string %d reads \"%s\" (length %d) and must read \"%s\" (length %d)",i,wstr(take(n)).substr(0,300).c_str(),n,wstr(q->text).substr(0,300).c_str(),(int)q->text.size()); if(!nt) return fmtS("string %d is no longer terminated",i); return ""; }
  if(kind==RK_B){ int c=0,x=0; int n=W.lib->inspB(i,wb,70000,&c,&x); MP q=m.B[i]; cls="state:builder"; if(n==-1&&!q) return ""; if(n==-1||!q) return fmtS("builder register %d %s",i,q?"lost its object":"appeared");
    if(!sameText(n,q->text)) return fmtS("builder %d reads \"%s\" (length %d) and must read \"%s\" (length %d)",i,wstr(take(n)).substr(0,300).c_str(),n,wstr(q->text).substr(0,300).c_str(),(int)q->text.size());
    cls="state:builder-capacity"; if(x!=q->maxcap) return fmtS("builder %d has maximum capacity %d instead of %lld",i,x,(long long)q->maxcap); if(c<n||c>x) return fmtS("builder %d has length %d, capacity %d, maximum capacity %d",i,n,c,x); return ""; }
  if(kind==RK_O){ int64_t x=0; int n=W.lib->inspO(i,&x); MP q=m.O[i]; cls="state:box"; if(n==-1&&!q) return ""; if(n==-1||!q) return fmtS("box register %d %s",i,q?"lost its object":"appeared");
    if(n!=q->btype) return fmtS("box %d has type %d and must have type %d",i,n,q->btype); if(n==ObjectT||(n==BooleanT&&(q->bits&~1ll))) return ""; if(canonV(n,x)!=canonV(n,q->bits)) return fmtS("box %d of type %d holds %lld and must hold %lld",i,n,(long long)canonV(n,x),(long long)canonV(n,q->bits)); return ""; }
  int t=0,d[4]; int n=W.lib->inspA(i,&t,d,bb,sizeof bb); MP q=m.A[i]; cls="state:array"; if(n==-1&&!q) return ""; if(n==-1||!q) return fmtS("array register %d %s",i,q?"lost its object":"appeared");
  bool bad=n!=q->total||t!=q->type||d[0]!=q->rank; for(int j=0;j<q->rank&&!bad;++j) if(d[j+1]!=q->d[j]) bad=true; if(bad) return fmtS("array %d has type %d, rank %d, dimensions %d %d %d, %d elements; must have type %d, rank %d, dimensions %lld %lld %lld",i,t,d[0],d[1],d[2],d[3],n,q->type,q->rank,(long long)q->d[0],(long long)q->d[1],(long long)q->d[2]);
  if(isRefT(t)){ for(int j=0;j<n;++j){ int r=W.lib->inspAText(i,j,wb,70000); MP z=q->refs[(size_t)j]; bool ok=z?(z->kind==RK_S?(r>=0&&sameText(r,z->text)):r==-3):r==-1; if(!ok) return fmtS("element %d of array %d is wrong (%s)",j,i,r==-1?"null":r>=0?wstr(take(r)).substr(0,200).c_str():"another object");
      if(z&&(always&KO)) for(int k=0;k<5;++k) for(int j2=0;j2<NREG;++j2) if(m.obj(k*64+j2)==z&&W.lib->refIs(i,j,k*64+j2)!=1){ cls="identity"; return fmtS("element %d of array %d is no longer the object in register %d of kind %d that was stored there",j,i,j2,k); } } return ""; }
  size_t len=(size_t)n*(size_t)DTSize[t]; if(len>sizeof bb) len=sizeof bb; for(size_t j=0;j<len;++j) if(bb[j]!=q->mem->b[j]) return fmtS("byte %zu of array %d (element %zu) is %d and must be %d",j,i,j/(size_t)DTSize[t],bb[j],q->mem->b[j]);
  return "";
}
void ModelObserver::compareAll(const std::string& when,int kinds,uint64_t adoptMask){
  for(int k=0;k<5;++k) if(k!=RK_E&&kinds>>k&1) for(int i=0;i<NREG;++i){ if(adoptMask>>(k*NREG+i)&1) continue; std::string cls,d=diff(k,i,cls); if(!d.empty()) violate(cls,"%s: %s",when.c_str(),d.c_str()); }
}
void ModelObserver::after(const Step&,const Op& o,const Res& r,bool refused){
  bool f=focus(o.code); const char* sig=opSigs[o.code]; std::string ot=opText(o); uint64_t dests=0,fresh=0;
  for(int i=0;sig[i];++i){ int k=-1; switch(sig[i]){ case 'S':k=RK_S;break; case 'B':k=RK_B;break; case 'A':k=RK_A;break; case 'b': k=RK_B; break; case 'a': k=RK_A; break; case 'O': if(always&KO) k=RK_O; break; } if(k>=0&&o.a[i]<NREG){ dests|=1ull<<(k*NREG+o.a[i]); if(sig[i]<'a'&&(!modelled||cur.any||cur.adopt)&&r.kind==K_OK) fresh|=1ull<<(k*NREG+o.a[i]); } }
  bool lost=r.kind!=K_OK||!cur.commit||cur.any||cur.adopt||cur.big; uint64_t touched=0;       // what the program's own methods changed before the call ended in another way
  if(modelled) for(auto& q:cur.touch){ int at=-1; for(int i=0;i<NREG;++i) if(m.B[i]==q) at=i; if(at>=0){ touched|=1ull<<(RK_B*NREG+at); if(lost&&r.kind!=K_SKIP) adopt(RK_B,at); } else if(lost&&r.kind!=K_SKIP) q->usr=-1; }
  if(r.user>1&&!refused) violate("user-exception:"+std::string(opNames[o.code]),"%s: an exception that the program's own method raised inside this call %s",ot.c_str(),r.user==2?"was replaced by another":"vanished");
  bool okExpected=!cur.exc&&!cur.skip; uint64_t adoptMask=lost?touched:0; std::string name=opNames[o.code];
  if(f&&modelled){
    SH->nontrivial++; checked++;
    if((r.kind==K_SKIP)!=cur.skip) { if(cur.skip||r.kind==K_SKIP) harness("%s: model and library disagree about which objects exist (%d)",ot.c_str(),r.kind); }
    if(r.kind==K_FOREIGN) violate("foreign:"+name,"%s raised a C++ exception that is not a library exception",ot.c_str());
    if(r.kind==K_OOM&&!refused&&!cur.big) violate("oom:"+name,"%s reported out of memory although no memory was refused",ot.c_str());
    if(r.kind==K_EXC&&!refused&&!cur.exc&&!cur.excToo&&!cur.any&&!cur.big) violate("exception:"+name,"%s raised %s and must succeed%s%s",ot.c_str(),r.exc,cur.useText?" with text ":"",cur.useText?wstr(cur.text).substr(0,300).c_str():"");
    if(r.kind==K_OK){
      if(cur.exc) violate("no-exception:"+name,"%s must raise a library exception (%s) and succeeded with value %lld",ot.c_str(),cur.why,(long long)(r.nv?r.v[0]:0));
      if(!cur.any&&cur.useV){ if(r.nv!=(int)cur.v.size()) { if(!(r.nv==0&&cur.v.empty())) violate("value:"+name,"%s returned %d values, expected %d",ot.c_str(),r.nv,(int)cur.v.size()); } for(size_t i=0;i<cur.v.size();++i) if(r.v[i]!=cur.v[i]) violate("value:"+name,"%s returned %lld and must return %lld",ot.c_str(),(long long)r.v[i],(long long)cur.v[i]); }
      if(!cur.any&&cur.useText){ WS t(r.text,(size_t)(r.textLen<MAXTEXT?r.textLen:MAXTEXT-1)); WS x=cur.text.substr(0,MAXTEXT-1); if(!r.hasText||r.textLen!=(int)cur.text.size()||t!=x) violate("value:"+name,"%s returned \"%s\" (length %d) and must return \"%s\" (length %d)",ot.c_str(),wstr(t).substr(0,400).c_str(),r.textLen,wstr(cur.text).substr(0,400).c_str(),(int)cur.text.size()); }
    }
    (void)okExpected;
    if(r.kind==K_OK&&cur.commit) cur.commit();
    if(r.kind==K_OK&&cur.adA>=0){ MP q=m.A[cur.adA]; int t,d[4]; int n=W.lib->inspA(cur.adA,&t,d,bb,sizeof bb); int z=DTSize[q->type]; if(n>cur.adX&&(size_t)((cur.adX+1)*z)<=sizeof bb&&t==q->type) memcpy(&q->mem->b[(size_t)(cur.adX*z)],bb+cur.adX*z,(size_t)z); }
    if(r.kind==K_OK&&(cur.adopt||cur.big)) adoptMask|=dests;
    for(int k=0;k<5;++k) for(int i=0;i<NREG;++i) if(adoptMask>>(k*NREG+i)&1) adopt(k,i);
    if(r.kind!=K_SKIP) compareAll("after "+ot,KS|KB|KA|(always&KO),adoptMask);
  } else {
    dests|=touched;
    if(r.kind==K_OK&&modelled&&cur.commit&&!cur.exc) cur.commit();
    for(int i=0;i<NREG;++i){ if(fresh>>(RK_S*NREG+i)&1) m.S[i]=nullptr; if(fresh>>(RK_O*NREG+i)&1) m.O[i]=nullptr; }   // O and E registers follow the model
    int kinds=always; 
    if(r.kind!=K_SKIP) compareAll("after "+ot,kinds,dests);
    for(int k=0;k<5;++k) if(k!=RK_E&&(k!=RK_O||(always&KO))) for(int i=0;i<NREG;++i) if((dests>>(k*NREG+i)&1)||!(kinds>>k&1)){ std::string c; if((fresh>>(k*NREG+i)&1)||!diff(k,i,c).empty()) adopt(k,i); }
  }
  if(watchBufs&&r.kind!=K_SKIP) checkBufs("after "+ot);
}
