// Performs simulator operations on the real library, the way translated code does. Built into a shared object together with the
// library's own sources. It only uses the library's public classes.
#include <DotnetTypes.h>
#include <DotNetLibrarySupport.h>
#include <typeinfo>
#include <cwchar>
#include <cstring>
#include <cmath>
#include "api.h"
using namespace DotnetLibrary;
using namespace DotnetLibrarySupport;
extern "C" const HostApi* g_hostApi;
extern "C" int seams_install();
extern Int32 arrayData[] __attribute__((weak));
extern Double doubleData __attribute__((weak));
namespace {
String* S[NREG]; StringBuilder* B[NREG]; Array* A[NREG]; CharEnumerator* E[NREG]; Object* O[NREG];
char* RAW[NRAW]; int64_t RAWN[NRAW];
const char* const argSigs[OP_COUNT]={
#define OP(n,s) s,
#include "ops.def"
#undef OP
};
struct Skip {};
struct ForeignError { int code; };
Res* R;
Object* obj(int64_t code) {
  if(code==NULLR) return nullptr;
  int k=(int)(code/64), i=(int)(code%64); Object* p=nullptr;
  if(i<0||i>=NREG) throw Skip();
  switch(k){ case RK_S:p=S[i];break; case RK_B:p=B[i];break; case RK_A:p=A[i];break; case RK_E:p=E[i];break; case RK_O:p=O[i];break; }
  if(!p) throw Skip();
  return p;
}
void v(int64_t x){ if(R->nv<8) R->v[R->nv++]=x; }
void vd(double d){ int64_t b; if(d!=d) d=NAN; memcpy(&b,&d,8); if(d!=d) b=0x7ff8000000000000LL; v(b); }
void vf(float f){ int32_t b; memcpy(&b,&f,4); if(f!=f) b=0x7fc00000; v(b); }
double dbl(int64_t b){ double d; memcpy(&d,&b,8); return d; }
float sgl(int64_t b){ int32_t i=(int32_t)b; float f; memcpy(&f,&i,4); return f; }
void text(const wchar_t* p,int n){ if(n<0)n=0; R->hasText=1; R->textLen=n; if(n>MAXTEXT-1)n=MAXTEXT-1; memcpy(R->text,p,n*sizeof(wchar_t)); R->text[n]=0; }
void putS(int64_t r,String* s){ S[r]=s; if(s) text(s->get_Buffer(),s->get_Length()); else { v(-99); } }
void sgn(int x){ v(x<0?-1:x>0?1:0); }
int64_t ld(DataType t,const void* p){
  int64_t x=0;
  switch(t){ case BooleanType: x=*(const uint8_t*)p; break; case SByteType: x=*(const int8_t*)p; break; case ByteType: x=*(const uint8_t*)p; break;
  case Int16Type: {int16_t y; memcpy(&y,p,2); x=y;} break; case UInt16Type: {uint16_t y; memcpy(&y,p,2); x=y;} break;
  case CharType: case Int32Type: {int32_t y; memcpy(&y,p,4); x=y;} break; case UInt32Type: case SingleType: {uint32_t y; memcpy(&y,p,4); x=y;} break;
  default: memcpy(&x,p,8); }
  return x;
}
void st(DataType t,void* p,int64_t x){
  switch(t){ case BooleanType: {uint8_t y=(x&1); memcpy(p,&y,1);} break; case SByteType: case ByteType: {uint8_t y=(uint8_t)x; memcpy(p,&y,1);} break;
  case Int16Type: case UInt16Type: {uint16_t y=(uint16_t)x; memcpy(p,&y,2);} break;
  case CharType: case Int32Type: case UInt32Type: case SingleType: {uint32_t y=(uint32_t)x; memcpy(p,&y,4);} break; default: memcpy(p,&x,8); }
}
bool isRef(DataType t){ return t==ObjectType||t==StringType||t==DecimalType||t==NullType; }
Object* box(int64_t k,int64_t x,bool dflt=false){      // dflt: through the other constructors
  switch(k){
  case BooleanType: return new BooleanValue((x&1)!=0); case CharType: return new CharValue((Char)x); case SByteType: return new SByteValue((SByte)x);
  case ByteType: return new ByteValue((Byte)x); case Int16Type: return new Int16Value((Int16)x); case UInt16Type: return new UInt16Value((UInt16)x);
  case Int32Type: return new Int32Value((Int32)x); case UInt32Type: return new UInt32Value((UInt32)x); case Int64Type: return new Int64Value(x);
  case UInt64Type: return new UInt64Value((UInt64)x); case SingleType: return new SingleValue(sgl(x)); case DoubleType: return new DoubleValue(dbl(x));
  case DateTimeType: if(x==0&&dflt) return new DateTimeValue(); return new DateTimeValue(DateTime((UInt64)x)); case TimeSpanType: if(x==0&&dflt) return new TimeSpanValue(); if(dflt) return new TimeSpanValue((UInt64)x); return new TimeSpanValue(TimeSpan((Int64)x)); }
  throw Skip();
}
void as(Object* o,int64_t k){
  switch(k){
  case BooleanType: v(o->get_AsBoolean()); break; case CharType: v(o->get_AsChar()); break; case SByteType: v(o->get_AsSByte()); break; case ByteType: v(o->get_AsByte()); break;
  case Int16Type: v(o->get_AsInt16()); break; case UInt16Type: v(o->get_AsUInt16()); break; case Int32Type: v(o->get_AsInt32()); break; case UInt32Type: v(o->get_AsUInt32()); break;
  case Int64Type: v(o->get_AsInt64()); break; case UInt64Type: v((int64_t)o->get_AsUInt64()); break; case SingleType: vf(o->get_AsSingle()); break; case DoubleType: vd(o->get_AsDouble()); break;
  case DateTimeType: v((int64_t)o->get_AsDateTime().value); break; case TimeSpanType: v(o->get_AsTimeSpan().value); break; default: throw Skip(); }
}
int cmpObj(Object* a,Object* b){
  switch(a->GetRawDataType()){
  case BooleanType: return ((BooleanValue*)a)->CompareTo(b); case CharType: return ((CharValue*)a)->CompareTo(b); case SByteType: return ((SByteValue*)a)->CompareTo(b);
  case ByteType: return ((ByteValue*)a)->CompareTo(b); case Int16Type: return ((Int16Value*)a)->CompareTo(b); case UInt16Type: return ((UInt16Value*)a)->CompareTo(b);
  case Int32Type: return ((Int32Value*)a)->CompareTo(b); case UInt32Type: return ((UInt32Value*)a)->CompareTo(b); case Int64Type: return ((Int64Value*)a)->CompareTo(b);
  case UInt64Type: return ((UInt64Value*)a)->CompareTo(b); case SingleType: return ((SingleValue*)a)->CompareTo(b); case DoubleType: return ((DoubleValue*)a)->CompareTo(b);
  case DateTimeType: return ((DateTimeValue*)a)->CompareTo(b); case TimeSpanType: return ((TimeSpanValue*)a)->CompareTo(b); case StringType: return ((String*)a)->CompareTo(b);
  default: throw Skip(); }
}
int cmpVal(Object* a,int64_t k,int64_t x){
  if(a->GetRawDataType()!=k) throw Skip();
  switch(k){
  case BooleanType: return ((BooleanValue*)a)->CompareTo((Boolean)((x&1)!=0)); case CharType: return ((CharValue*)a)->CompareTo((Char)x); case SByteType: return ((SByteValue*)a)->CompareTo((SByte)x);
  case ByteType: return ((ByteValue*)a)->CompareTo((Byte)x); case Int16Type: return ((Int16Value*)a)->CompareTo((Int16)x); case UInt16Type: return ((UInt16Value*)a)->CompareTo((UInt16)x);
  case Int32Type: return ((Int32Value*)a)->CompareTo((Int32)x); case UInt32Type: return ((UInt32Value*)a)->CompareTo((UInt32)x); case Int64Type: return ((Int64Value*)a)->CompareTo((Int64)x);
  case UInt64Type: return ((UInt64Value*)a)->CompareTo((UInt64)x); case SingleType: return ((SingleValue*)a)->CompareTo(sgl(x)); case DoubleType: return ((DoubleValue*)a)->CompareTo(dbl(x));
  case DateTimeType: return ((DateTimeValue*)a)->CompareTo(DateTime((UInt64)x)); case TimeSpanType: return ((TimeSpanValue*)a)->CompareTo(TimeSpan((Int64)x));
  default: throw Skip(); }
}
bool eqVal(Object* a,int64_t k,int64_t x){
  if(a->GetRawDataType()!=k) throw Skip();
  switch(k){
  case BooleanType: return ((BooleanValue*)a)->Equals((Boolean)((x&1)!=0)); case CharType: return ((CharValue*)a)->Equals((Char)x); case SByteType: return ((SByteValue*)a)->Equals((SByte)x);
  case ByteType: return ((ByteValue*)a)->Equals((Byte)x); case Int16Type: return ((Int16Value*)a)->Equals((Int16)x); case UInt16Type: return ((UInt16Value*)a)->Equals((UInt16)x);
  case Int32Type: return ((Int32Value*)a)->Equals((Int32)x); case UInt32Type: return ((UInt32Value*)a)->Equals((UInt32)x); case Int64Type: return ((Int64Value*)a)->Equals((Int64)x);
  case UInt64Type: return ((UInt64Value*)a)->Equals((UInt64)x); case SingleType: return ((SingleValue*)a)->Equals(sgl(x)); case DoubleType: return ((DoubleValue*)a)->Equals(dbl(x));
  case DateTimeType: return ((DateTimeValue*)a)->Equals(DateTime((UInt64)x)); case TimeSpanType: return ((TimeSpanValue*)a)->Equals(TimeSpan((Int64)x));
  default: throw Skip(); }
}
void parse(int64_t k,String* s){
  switch(k){
  case BooleanType: v(BooleanValue::Parse(s)); break; case CharType: v(CharValue::Parse(s)); break; case SByteType: v(SByteValue::Parse(s)); break; case ByteType: v(ByteValue::Parse(s)); break;
  case Int16Type: v(Int16Value::Parse(s)); break; case UInt16Type: v(UInt16Value::Parse(s)); break; case Int32Type: v(Int32Value::Parse(s)); break; case UInt32Type: v(UInt32Value::Parse(s)); break;
  case Int64Type: v(Int64Value::Parse(s)); break; case UInt64Type: v((int64_t)UInt64Value::Parse(s)); break; case SingleType: vf(SingleValue::Parse(s)); break; case DoubleType: vd(DoubleValue::Parse(s)); break;
  case TimeSpanType: v(TimeSpanValue::Parse(s).value); break; default: throw Skip(); }
}
template<class T> struct Out { T x; Out(){ g_hostApi->h_residue((void*)&x,sizeof(T)); } };   // a variable passed as "out": translated programs declare it without a value
void tryParse(int64_t k,String* s){
  switch(k){
#define TP(T,C) { Out<T> o; bool ok=C::TryParse(s,o.x); v(ok); v((int64_t)o.x); } break;
  case CharType: TP(Char,CharValue) case SByteType: TP(SByte,SByteValue) case ByteType: TP(Byte,ByteValue) case Int16Type: TP(Int16,Int16Value) case UInt16Type: TP(UInt16,UInt16Value)
  case Int32Type: TP(Int32,Int32Value) case UInt32Type: TP(UInt32,UInt32Value) case Int64Type: TP(Int64,Int64Value) case UInt64Type: TP(UInt64,UInt64Value)
  case SingleType: { Out<Single> o; bool ok=SingleValue::TryParse(s,o.x); v(ok); vf(o.x); } break;
  case DoubleType: { Out<Double> o; bool ok=DoubleValue::TryParse(s,o.x); v(ok); vd(o.x); } break;
  case TimeSpanType: { if(!s) throw Skip(); Out<TimeSpan> o; bool ok=TimeSpanValue::TryParse(s,o.x); v(ok); v(o.x.value); } break;
  default: throw Skip(); }
}
// A class of the program: what its objects do when the library asks them for their text or compares them is up to the program.
Exception* userThrown;
class ProgramException : public Exception { public: Int32 code; ProgramException(String* m):Exception(m),code(1234567) {} };
class Custom : public Object { public: int how; String* text; Object* other; Custom* next; static Custom* all;
  Custom(int h,String* t,Object* o):how(h),text(t),other(o),next(all) { all=this; }
  void raise() { Exception* e=new ProgramException(text); userThrown=e; throw e; }
  virtual String* ToString() {
    switch(how){
    case 0: return String::Copy(text); case 1: return text; case 2: raise(); return nullptr;
    case 3: return String::Concat(text,other);
    case 4: ((StringBuilder*)other)->Append(text); return text;
    case 5: ((StringBuilder*)other)->set_Length(0); return text;
    case 6: { StringBuilder b; b.Append(text); b.Append((Char)L'|'); b.Insert(0,(Int32)7); return b.ToString(); }
    case 7: try { text->Substring(text->get_Length()+1); } catch(Exception*) {} return text->Substring(0);
    case 8: ((StringBuilder*)other)->Insert(0,text); return text;
    default: { Array* v=new Array(ObjectType,2); *(Object**)v->Address(0)=text; *(Object**)v->Address(1)=other; return how==9?String::Join((Char)L'+',v):how==10?String::Concat(v):how==11?String::Join(text,v):how==12?String::Concat(String::Join(text,v,1,0),text):String::Concat(String::Join((Char)L'+',v,1,0),text); } }
  }
  virtual Boolean Equals(Object* o) { if(how==2) raise(); Custom* c=dynamic_cast<Custom*>(o); return c!=nullptr&&String::CompareOrdinal(text,c->text)==0; }
};
Custom* Custom::all;
Exception* kept; Exception* cause; Exception* root; String* causeText;      // the exception caught last; what the last one thrown was created with
bool referenced(void* p,int skipKind,int skipIdx){  // may some other register, array or enumerator still use this object?
  for(int i=0;i<NREG;++i){ if(!(skipKind==RK_S&&skipIdx==i)&&S[i]==p) return true; if(!(skipKind==RK_B&&skipIdx==i)&&B[i]==p) return true; if(!(skipKind==RK_A&&skipIdx==i)&&A[i]==p) return true;
    if(!(skipKind==RK_E&&skipIdx==i)&&(void*)E[i]==p) return true; if(!(skipKind==RK_O&&skipIdx==i)&&O[i]==p) return true; }
  for(Custom* c=Custom::all;c;c=c->next) if(c->text==p||c->other==p) return true;
  return false;
}
bool pinned[NREG]; String* eStr[NREG];
void notePinned(Object*){}
void fmt(Object* o,int64_t n){  // FormatString into a caller buffer of n characters, exactly sized so that overruns are seen
  if(n<1) n=1; if(n>400) n=400;
  Char* buf=(Char*)g_hostApi->h_scratch((size_t)n*sizeof(Char));
  g_hostApi->h_residue(buf,(size_t)n*sizeof(Char));
  Int32 len=0;
  try { len=o->FormatString(buf,(Int32)n); } catch(...) { g_hostApi->h_scratchFree(buf); throw; }
  v(len); if(len>=0&&len<=n) text(buf,len);
  g_hostApi->h_scratchFree(buf);
}
Array* a(int64_t r){ if(r==NULLR) return nullptr; if(!A[r]) throw Skip(); return A[r]; }
String* s(int64_t r){ if(r==NULLR) return nullptr; if(!S[r]) throw Skip(); return S[r]; }
StringBuilder* b(int64_t r){ if(r==NULLR) return nullptr; if(!B[r]) throw Skip(); return B[r]; }
CharEnumerator* e(int64_t r){ if(!E[r]) throw Skip(); return E[r]; }
Exception* makeEx(int64_t n,String* msg,Exception* inner){
  switch(n){
  case 0: return new Exception(msg); case 1: return new Exception(); case 2: return new IndexOutOfRangeException(); case 3: return new ArgumentNullException(); case 4: return new RankException();
  case 5: return new ArgumentOutOfRangeException(); case 6: return new ArgumentException(); case 7: return new NotImplementedException(); case 8: return new InvalidCastException();
  case 9: return new InvalidOperationException(); case 10: return new FormatException(); case 11: return new OverflowException(); case 12: return new ThrowMinMaxException();
  case 13: return new ArithmeticException(); case 14: return new DivideByZeroException(); default: return new Exception(msg,inner); }
}
// throws a library exception by its own type, as translated code does
void throwEx(int64_t n,String* msg){
  switch(n){
  case 2: throw new IndexOutOfRangeException(); case 3: throw new ArgumentNullException(); case 4: throw new RankException(); case 5: throw new ArgumentOutOfRangeException();
  case 6: throw new ArgumentException(); case 7: throw new NotImplementedException(); case 8: throw new InvalidCastException(); case 9: throw new InvalidOperationException();
  case 10: throw new FormatException(); case 11: throw new OverflowException(); case 12: throw new ThrowMinMaxException(); case 13: throw new ArithmeticException(); case 14: throw new DivideByZeroException();
  case 1: throw new Exception(); case 15: throw new ProgramException(msg); default: throw new Exception(msg); }
}
TranslatorSupport* g_support=nullptr; DataAccess* g_access=nullptr;
alignas(16) char supMem[sizeof(TranslatorSupport)]; alignas(16) char accMem[sizeof(DataAccess)];
Int32 I(int64_t x){ return (Int32)x; }
const wchar_t* lit(int64_t i){ return g_hostApi->h_lit((int)i); }

// Calls leave out trailing arguments that have the documented default, as translated programs do.
void* at(Array* x,const int64_t* p){ return I(p[1])!=-1?(I(p[2])!=-1?x->Address(I(p[0]),I(p[1]),I(p[2])):x->Address(I(p[0]),I(p[1]))):I(p[2])!=-1?x->Address(I(p[0]),I(p[1]),I(p[2])):x->Address(I(p[0])); }
#define DEF2(f,d1,d2,a1,a2,...) ((a2)!=(d2)?f(__VA_ARGS__,a1,a2):(a1)!=(d1)?f(__VA_ARGS__,a1):f(__VA_ARGS__))
void execOp(const Op& o){
  const int64_t* p=o.a;
  for(int i=0;argSigs[o.code][i];++i) if(p[i]==NULLR&&strchr("sbaeo",argSigs[o.code][i])&&!nullOk(o.code,i)) throw Skip();
  switch(o.code){
  // ---------------- strings
  case OP_S_LIT: putS(p[0],new String(lit(p[1]))); break;
  case OP_S_LITSUB: if(p[2]>=0&&I(p[2])>=0&&(size_t)I(p[2])<=wcslen(lit(p[1]))&&I(p[3])>0&&(size_t)I(p[3])>wcslen(lit(p[1]))-(size_t)I(p[2])) throw Skip(); putS(p[0],I(p[3])==-1?new String(lit(p[1]),I(p[2])):new String(lit(p[1]),I(p[2]),I(p[3]))); break;
  case OP_S_FROMARR: { Array* x=a(p[1]); putS(p[0],DEF2(new String,0,-1,I(p[2]),I(p[3]),x)); } break;
  case OP_S_REPEAT: putS(p[0],new String((Char)p[1],I(p[2]))); break;
  case OP_S_EMPTY: putS(p[0],String::Empty); break;
  case OP_S_GETCH: v((p[0]^p[1])&1?*s(p[0])->Address(I(p[1])):s(p[0])->get_Chars(I(p[1]))); break;
  case OP_S_LEN: v(s(p[0])->get_Length()); break;
  case OP_S_CMP: { String*x=s(p[0]),*y=s(p[1]); sgn(p[2]?String::Compare(x,y,true):String::Compare(x,y)); }; break;
  case OP_S_CMPI: sgn(String::Compare(s(p[0]),I(p[1]),s(p[2]),I(p[3]),I(p[4]),p[5]!=0)); break;
  case OP_S_CMPORD: sgn(String::CompareOrdinal(s(p[0]),s(p[1]))); break;
  case OP_S_CMPORDI: sgn(String::CompareOrdinal(s(p[0]),I(p[1]),s(p[2]),I(p[3]),I(p[4]))); break;
  case OP_S_CMPTO_S: sgn(s(p[0])->CompareTo(s(p[1]))); break;
  case OP_S_CMPTO_O: sgn(s(p[0])->CompareTo(obj(p[1]))); break;
  case OP_S_CONCAT_A: { Array* x=a(p[1]); putS(p[0],String::Concat(x)); } break;
  case OP_S_CONCAT1: { Object* x=obj(p[1]); putS(p[0],String::Concat(x)); } break;
  case OP_S_CONCAT2: { Object*x=obj(p[1]),*y=obj(p[2]); putS(p[0],String::Concat(x,y)); } break;
  case OP_S_CONCAT3: { Object*x=obj(p[1]),*y=obj(p[2]),*z=obj(p[3]); putS(p[0],String::Concat(x,y,z)); } break;
  case OP_S_CONCAT5: { Object*x=obj(p[1]),*y=obj(p[2]),*z=obj(p[3]),*w=obj(p[4]),*u=obj(p[5]); putS(p[0],String::Concat(x,y,z,w,u)); } break;
  case OP_S_CONCAT7: { Object*x=obj(p[1]),*y=obj(p[2]),*z=obj(p[3]),*w=obj(p[4]),*u=obj(p[5]),*t=obj(p[6]),*q=obj(p[7]); putS(p[0],String::Concat(x,y,z,w,u,t,q)); } break;
  case OP_S_CONTAINS: { String*x=s(p[0]),*y=s(p[1]); v(x->Contains(y)); } break;
  case OP_S_COPY: putS(p[0],String::Copy(s(p[1]))); break;
  case OP_S_COPYTO: { String*x=s(p[0]); Array*y=a(p[2]); x->CopyTo(I(p[1]),y,I(p[3]),I(p[4])); } break;
  case OP_S_ENDS: { String*x=s(p[0]),*y=s(p[1]); v(x->EndsWith(y)); } break;
  case OP_S_ENDSC: v(s(p[0])->EndsWith((Char)p[1])); break;
  case OP_S_STARTS: { String*x=s(p[0]),*y=s(p[1]); v(x->StartsWith(y)); } break;
  case OP_S_EQ_S: { String*x=s(p[0]),*y=s(p[1]); v(x->Equals(y)); } break;
  case OP_S_EQ_O: { String*x=s(p[0]); Object*y=obj(p[1]); v(x->Equals(y)); } break;
  case OP_S_EQ_SO: { String*x=s(p[0]); Object*y=obj(p[1]); v(String::Equals(x,y)); } break;
  case OP_S_EQ_OS: { Object*x=obj(p[0]); String*y=s(p[1]); v(String::Equals(x,y)); } break;
  case OP_S_EQ_SS: { String*x=s(p[0]),*y=s(p[1]); v(String::Equals(x,y)); } break;
  case OP_S_NE: { String*x=s(p[0]),*y=s(p[1]); v(String::op_Inequality(x,y)); } break;
  case OP_S_IDX_C: v(s(p[0])->IndexOf((Char)p[1])); break;
  case OP_S_IDX_C1: v(s(p[0])->IndexOf((Char)p[1],I(p[2]))); break;
  case OP_S_IDX_C2: v(s(p[0])->IndexOf((Char)p[1],I(p[2]),I(p[3]))); break;
  case OP_S_IDX_S: { String*x=s(p[0]),*y=s(p[1]); v(x->IndexOf(y)); } break;
  case OP_S_IDX_S1: { String*x=s(p[0]),*y=s(p[1]); v(x->IndexOf(y,I(p[2]))); } break;
  case OP_S_IDX_S2: { String*x=s(p[0]),*y=s(p[1]); v(x->IndexOf(y,I(p[2]),I(p[3]))); } break;
  case OP_S_IDXANY: { String*x=s(p[0]); Array*y=a(p[1]); v(x->IndexOfAny(y)); } break;
  case OP_S_IDXANY1: { String*x=s(p[0]); Array*y=a(p[1]); v(x->IndexOfAny(y,I(p[2]))); } break;
  case OP_S_IDXANY2: { String*x=s(p[0]); Array*y=a(p[1]); v(x->IndexOfAny(y,I(p[2]),I(p[3]))); } break;
  case OP_S_INSERT: { String*x=s(p[1]),*y=s(p[3]); putS(p[0],x->Insert(I(p[2]),y)); } break;
  case OP_S_ISEMPTY: v(String::IsNullOrEmpty(s(p[0]))); break;
  case OP_S_ISWS: v(String::IsNullOrWhiteSpace(s(p[0]))); break;
  case OP_S_JOIN_C: { Array*y=a(p[2]); putS(p[0],DEF2(String::Join,0,-1,I(p[3]),I(p[4]),(Char)p[1],y)); } break;
  case OP_S_JOIN_S: { String*x=s(p[1]); Array*y=a(p[2]); putS(p[0],DEF2(String::Join,0,-1,I(p[3]),I(p[4]),x,y)); } break;
  case OP_S_LIDX_C0: v(s(p[0])->LastIndexOf((Char)p[1])); break;
  case OP_S_LIDX_C1: v(s(p[0])->LastIndexOf((Char)p[1],I(p[2]))); break;
  case OP_S_LIDX_C: v(s(p[0])->LastIndexOf((Char)p[1],I(p[2]),I(p[3]))); break;
  case OP_S_LIDX_S0: { String*x=s(p[0]),*y=s(p[1]); v(x->LastIndexOf(y)); } break;
  case OP_S_LIDX_S1: { String*x=s(p[0]),*y=s(p[1]); v(x->LastIndexOf(y,I(p[2]))); } break;
  case OP_S_LIDX_S: { String*x=s(p[0]),*y=s(p[1]); v(x->LastIndexOf(y,I(p[2]),I(p[3]))); } break;
  case OP_S_LIDXANY0: { String*x=s(p[0]); Array*y=a(p[1]); v(x->LastIndexOfAny(y)); } break;
  case OP_S_LIDXANY: { String*x=s(p[0]); Array*y=a(p[1]); v(x->LastIndexOfAny(y,I(p[2]),I(p[3]))); } break;
  case OP_S_PADL: putS(p[0],s(p[1])->PadLeft(I(p[2]),(Char)p[3])); break;
  case OP_S_PADR: putS(p[0],s(p[1])->PadRight(I(p[2]),(Char)p[3])); break;
  case OP_S_REMOVE1: putS(p[0],s(p[1])->Remove(I(p[2]))); break;
  case OP_S_REMOVE: putS(p[0],s(p[1])->Remove(I(p[2]),I(p[3]))); break;
  case OP_S_REPC: putS(p[0],s(p[1])->Replace((Char)p[2],(Char)p[3])); break;
  case OP_S_REPS: { String*x=s(p[1]),*y=s(p[2]),*z=s(p[3]); putS(p[0],x->Replace(y,z)); } break;
  case OP_S_SUBSTR1: putS(p[0],s(p[1])->Substring(I(p[2]))); break;
  case OP_S_SUBSTR: putS(p[0],s(p[1])->Substring(I(p[2]),I(p[3]))); break;
  case OP_S_TOCHARS: { String* t=s(p[1]); Array* x=I(p[3])!=-1?t->ToCharArray(I(p[2]),I(p[3])):I(p[2])!=0?t->ToCharArray(I(p[2])):t->ToCharArray(); A[p[0]]=x; v(x->get_Length()); } break;
  case OP_S_LOWER: putS(p[0],s(p[1])->ToLower()); break;
  case OP_S_LOWERI: putS(p[0],s(p[1])->ToLowerInvariant()); break;
  case OP_S_UPPER: putS(p[0],s(p[1])->ToUpper()); break;
  case OP_S_UPPERI: putS(p[0],s(p[1])->ToUpperInvariant()); break;
  case OP_S_TOSTR: putS(p[0],s(p[1])->ToString()); break;
  case OP_S_TRIM: putS(p[0],s(p[1])->Trim()); break;
  case OP_S_TRIMA: { String*x=s(p[1]); Array*y=a(p[2]); putS(p[0],x->Trim(y)); } break;
  case OP_S_TRIMS: { String*x=s(p[1]); Array*y=a(p[2]); putS(p[0],x->TrimStart(y)); } break;
  case OP_S_TRIME: { String*x=s(p[1]); Array*y=a(p[2]); putS(p[0],x->TrimEnd(y)); } break;
  case OP_S_TRIMS0: putS(p[0],s(p[1])->TrimStart(nullptr)); break;
  case OP_S_TRIME0: putS(p[0],s(p[1])->TrimEnd(nullptr)); break;
  case OP_S_FMT: fmt(s(p[0]),p[1]); break;
  case OP_S_DEL: { String* x=s(p[0]); S[p[0]]=nullptr; bool del=!referenced(x,-1,-1)&&x!=String::Empty&&x!=BooleanValue::TrueString&&x!=BooleanValue::FalseString;
      for(int i=0;i<NREG;++i) { if(E[i]&&eStr[i]==x) del=false; if(A[i]&&isRef(A[i]->GetElementType())) del=false; }
      if(kept&&kept->get_Message()==x) del=false; if(del) delete x; } break;
  // ---------------- builders
  case OP_B_NEW: B[p[0]]=new StringBuilder(); break;
  case OP_B_NEWC: B[p[0]]=new StringBuilder(I(p[1])); break;
  case OP_B_NEWCM: B[p[0]]=new StringBuilder(I(p[1]),I(p[2])); break;
  case OP_B_NEWS: { String*x=s(p[1]); B[p[0]]=new StringBuilder(x); } break;
  case OP_B_NEWSC: { String*x=s(p[1]); B[p[0]]=new StringBuilder(x,I(p[2])); } break;
  case OP_B_NEWSS: { String*x=s(p[1]); B[p[0]]=new StringBuilder(x,I(p[2]),I(p[3]),I(p[4])); } break;
  case OP_B_LEN: v(b(p[0])->get_Length()); break;
  case OP_B_CAP: v(b(p[0])->get_Capacity()>=b(p[0])->get_Length()); break;
  case OP_B_MAX: v(b(p[0])->get_MaxCapacity()); break;
  case OP_B_GETCH: v((p[0]^p[1])&1?*b(p[0])->Address(I(p[1])):b(p[0])->get_Chars(I(p[1]))); break;
  case OP_B_SETCH: if((p[0]^p[1])&1) *b(p[0])->Address(I(p[1]))=(Char)p[2]; else b(p[0])->set_Chars(I(p[1]),(Char)p[2]); break;
  case OP_B_SETCAP: b(p[0])->set_Capacity(I(p[1])); break;
  case OP_B_SETLEN: b(p[0])->set_Length(I(p[1])); break;
#define CHAIN(x) { StringBuilder* q=(x); v(q==b(p[0])); }
  case OP_B_APP_C: CHAIN(b(p[0])->Append((Char)p[1])) break;
  case OP_B_APP_CN: CHAIN(b(p[0])->Append((Char)p[1],I(p[2]))) break;
  case OP_B_APP_S0: { String*x=s(p[1]); CHAIN(b(p[0])->Append(x)) } break;
  case OP_B_APP_S: { String*x=s(p[1]); CHAIN(DEF2(b(p[0])->Append,0,-1,I(p[2]),I(p[3]),x)) } break;
  case OP_B_APP_A0: { Array*x=a(p[1]); CHAIN(b(p[0])->Append(x)) } break;
  case OP_B_APP_A: { Array*x=a(p[1]); CHAIN(DEF2(b(p[0])->Append,-1,-1,I(p[2]),I(p[3]),x)) } break;
  case OP_B_APP_O: { Object*x=obj(p[1]); CHAIN(b(p[0])->Append(x)) } break;
  case OP_B_APP_V: { StringBuilder*q=b(p[0]); StringBuilder* w=nullptr; int64_t x=p[2];
    switch(p[1]){ case BooleanType: w=q->Append((Boolean)((x&1)!=0)); break; case ByteType: w=q->Append((Byte)x); break; case SByteType: w=q->Append((SByte)x); break; case Int16Type: w=q->Append((Int16)x); break;
    case UInt16Type: w=q->Append((UInt16)x); break; case Int32Type: w=q->Append((Int32)x); break; case UInt32Type: w=q->Append((UInt32)x); break; case Int64Type: w=q->Append((Int64)x); break;
    case UInt64Type: w=q->Append((UInt64)x); break; case SingleType: w=q->Append(sgl(x)); break; case DoubleType: w=q->Append(dbl(x)); break; case CharType: w=q->Append((Char)x); break; default: throw Skip(); }
    v(w==q); } break;
  case OP_B_LINE: CHAIN(b(p[0])->AppendLine()) break;
  case OP_B_LINE_S: { String*x=s(p[1]); CHAIN(b(p[0])->AppendLine(x)) } break;
  case OP_B_CLEAR: CHAIN(b(p[0])->Clear()) break;
  case OP_B_ENSURE: v(b(p[0])->EnsureCapacity(I(p[1]))>=I(p[1])); break;
  case OP_B_EQ: { StringBuilder*x=b(p[0]),*y=b(p[1]); v(x->Equals(y)); } break;
  case OP_B_INS_V: { StringBuilder*q=b(p[0]); StringBuilder* w=nullptr; int64_t x=p[3]; Int32 i=I(p[1]);
    switch(p[2]){ case BooleanType: w=q->Insert(i,(Boolean)((x&1)!=0)); break; case ByteType: w=q->Insert(i,(Byte)x); break; case SByteType: w=q->Insert(i,(SByte)x); break; case Int16Type: w=q->Insert(i,(Int16)x); break;
    case UInt16Type: w=q->Insert(i,(UInt16)x); break; case Int32Type: w=q->Insert(i,(Int32)x); break; case UInt32Type: w=q->Insert(i,(UInt32)x); break; case Int64Type: w=q->Insert(i,(Int64)x); break;
    case UInt64Type: w=q->Insert(i,(UInt64)x); break; case SingleType: w=q->Insert(i,sgl(x)); break; case DoubleType: w=q->Insert(i,dbl(x)); break; case CharType: w=q->Insert(i,(Char)x); break; default: throw Skip(); }
    v(w==q); } break;
  case OP_B_INS_S: { String*x=s(p[2]); CHAIN(I(p[3])==1?b(p[0])->Insert(I(p[1]),x):b(p[0])->Insert(I(p[1]),x,I(p[3]))) } break;
  case OP_B_INS_A: { Array*x=a(p[2]); CHAIN(DEF2(b(p[0])->Insert,-1,-1,I(p[3]),I(p[4]),I(p[1]),x)) } break;
  case OP_B_INS_O: { Object*x=obj(p[2]); CHAIN(b(p[0])->Insert(I(p[1]),x)) } break;
  case OP_B_REMOVE: CHAIN(b(p[0])->Remove(I(p[1]),I(p[2]))) break;
  case OP_B_REPC: CHAIN(b(p[0])->Replace((Char)p[1],(Char)p[2])) break;
  case OP_B_REPCR: CHAIN(b(p[0])->Replace((Char)p[1],(Char)p[2],I(p[3]),I(p[4]))) break;
  case OP_B_REPS: { String*x=s(p[1]),*y=s(p[2]); CHAIN(b(p[0])->Replace(x,y)) } break;
  case OP_B_REPSR: { String*x=s(p[1]),*y=s(p[2]); CHAIN(b(p[0])->Replace(x,y,I(p[3]),I(p[4]))) } break;
  case OP_B_TOSTR: putS(p[0],b(p[1])->ToString()); break;
  case OP_B_TOSTRR: putS(p[0],b(p[1])->ToString(I(p[2]),I(p[3]))); break;
  case OP_B_FMT: fmt(b(p[0]),p[1]); break;
  case OP_B_DEL: { StringBuilder* x=b(p[0]); B[p[0]]=nullptr; bool del=!referenced(x,-1,-1); for(int i=0;i<NREG;++i) if(A[i]&&isRef(A[i]->GetElementType())) del=false; if(del) delete x; } break;
  // ---------------- arrays
  case OP_A_NEW: A[p[0]]=DEF2(new Array,-1,-1,I(p[3]),I(p[4]),(DataType)p[1],I(p[2])); break;
  case OP_A_WRAP: { int64_t n; void* q=g_hostApi->h_buf((int)p[1],&n); A[p[0]]=DEF2(new Array,-1,-1,I(p[4]),I(p[5]),q,(DataType)p[2],I(p[3])); } break;
  case OP_A_DATA: A[p[0]]=g_access->get_ArrayData(); break;
  case OP_A_LEN: v(a(p[0])->get_Length()); break;
  case OP_A_RANK: v(a(p[0])->get_Rank()); break;
  case OP_A_GETLEN: v(a(p[0])->GetLength(I(p[1]))); break;
  case OP_A_LB: v(a(p[0])->GetLowerBound(I(p[1]))); break;
  case OP_A_UB: v(a(p[0])->GetUpperBound(I(p[1]))); break;
  case OP_A_ADDRGET: { Array*x=a(p[0]); void* q=at(x,p+1); DataType t=x->GetElementType(); 
      if(t==DecimalType){ v(*(Object**)q?-2:-1); break; }     // the library never looks into them, and bytes may have been stored
      if(isRef(t)){ Object* z=*(Object**)q; if(!z) v(-1); else { v(z->GetRawDataType()); if(z->GetRawDataType()==StringType) text(((String*)z)->get_Buffer(),((String*)z)->get_Length()); } } else v(ld(t,q)); } break;
  case OP_A_ADDRSET: { Array*x=a(p[0]); if(isRef(x->GetElementType())) throw Skip(); void* q=at(x,p+1); st(x->GetElementType(),q,p[4]); } break;
  case OP_A_ADDRSETO: { Array*x=a(p[0]); if(!isRef(x->GetElementType())||x->GetElementType()==DecimalType) throw Skip(); Object* z=obj(p[4]); if(x->GetElementType()==StringType&&z&&z->GetRawDataType()!=StringType) throw Skip(); if(z==(Object*)x) throw Skip(); void* q=at(x,p+1); *(Object**)q=z; } break;
  case OP_A_CLEAR: Array::Clear(a(p[0]),I(p[1]),I(p[2])); break;
  case OP_A_COPY: { Array*x=a(p[0]),*y=a(p[1]); Array::Copy(x,y,I(p[2])); } break;
  case OP_A_COPYI: { Array*x=a(p[0]),*y=a(p[2]); Array::Copy(x,I(p[1]),y,I(p[3]),I(p[4])); } break;
  case OP_A_CCOPY: { Array*x=a(p[0]),*y=a(p[2]); Array::ConstrainedCopy(x,I(p[1]),y,I(p[3]),I(p[4])); } break;
  case OP_A_COPYTO: { Array*x=a(p[0]),*y=a(p[1]); x->CopyTo(y,I(p[2])); } break;
  case OP_A_GETV: { Array*x=a(p[1]); Object* z=DEF2(x->GetValue,-1,-1,I(p[3]),I(p[4]),I(p[2])); 
      if(!z) v(-1); else { DataType t=z->GetRawDataType(); v(t); if(!isRef(x->GetElementType())) { O[p[0]]=z; as(z,x->GetElementType()); } else if(t==StringType) text(((String*)z)->get_Buffer(),((String*)z)->get_Length()); } } break;
  case OP_A_GETVA: { Array*x=a(p[1]),*y=a(p[2]); Object* z=x->GetValue(y); if(!z) v(-1); else { DataType t=z->GetRawDataType(); v(t); if(!isRef(x->GetElementType())) { O[p[0]]=z; as(z,x->GetElementType()); } else if(t==StringType) text(((String*)z)->get_Buffer(),((String*)z)->get_Length()); } } break;
  case OP_A_SETV: { Object*z=obj(p[0]); Array*x=a(p[1]); if(z==(Object*)x&&x->GetElementType()!=StringType) throw Skip(); if(I(p[4])!=-1) x->SetValue(z,I(p[2]),I(p[3]),I(p[4])); else if(I(p[3])!=-1) x->SetValue(z,I(p[2]),I(p[3])); else x->SetValue(z,I(p[2])); } break;
  case OP_A_SETVA: { Object*z=obj(p[0]); Array*x=a(p[1]),*y=a(p[2]); if(y&&z==(Object*)x&&x->GetElementType()!=StringType) throw Skip(); x->SetValue(z,y); } break;
  case OP_A_IDXOF0: { Array*x=a(p[0]); Object*z=obj(p[1]); v(Array::IndexOf(x,z)); } break;
  case OP_A_IDXOF: { Array*x=a(p[0]); Object*z=obj(p[1]); v(DEF2(Array::IndexOf,0,-1,I(p[2]),I(p[3]),x,z)); } break;
  case OP_A_INIT: { Array*x=a(p[0]); if(isRef(x->GetElementType())) throw Skip(); int64_t n; void* q=g_hostApi->h_buf((int)p[1],&n); if((int64_t)x->get_Length()*DataTypeSize[x->GetElementType()]>n) throw Skip(); v(x->Initialize(q)==x); } break;
  case OP_A_DEL: { Array* x=a(p[0]); A[p[0]]=nullptr; bool del=!referenced(x,-1,-1); for(int i=0;i<NREG;++i) if(A[i]&&isRef(A[i]->GetElementType())) del=false; if(del) delete x; } break;
  // ---------------- byte views
  case OP_F_COPY: { Array*x=a(p[0]),*y=a(p[2]); Buffer::BlockCopy(x,I(p[1]),y,I(p[3]),I(p[4])); } break;
  case OP_F_LEN: v(Buffer::ByteLength(a(p[0]))); break;
  case OP_F_GET: v(Buffer::GetByte(a(p[0]),I(p[1]))); break;
  case OP_F_SET: Buffer::SetByte(a(p[0]),I(p[1]),(Byte)p[2]); break;
  case OP_V_GET: { Array* x=nullptr; int64_t y=p[2]; switch(p[1]){ case BooleanType: x=BitConverter::GetBytes((Boolean)((y&1)!=0)); break; case CharType: x=BitConverter::GetBytes((Char)y); break; case Int16Type: x=BitConverter::GetBytes((Int16)y); break;
      case UInt16Type: x=BitConverter::GetBytes((UInt16)y); break; case Int32Type: x=BitConverter::GetBytes((Int32)y); break; case UInt32Type: x=BitConverter::GetBytes((UInt32)y); break; case Int64Type: x=BitConverter::GetBytes((Int64)y); break;
      case UInt64Type: x=BitConverter::GetBytes((UInt64)y); break; case SingleType: x=BitConverter::GetBytes(sgl(y)); break; case DoubleType: x=BitConverter::GetBytes(dbl(y)); break; default: throw Skip(); }
      A[p[0]]=x; v(x->get_Length()); for(int i=0;i<x->get_Length()&&i<7;++i) v(*(Byte*)x->Address(i)); } break;
  case OP_V_TO: { Array* x=a(p[1]); if(x&&x->GetElementType()!=ByteType) throw Skip(); Int32 i=I(p[2]); switch(p[0]){ case BooleanType: v(BitConverter::ToBoolean(x,i)); break; case CharType: v(BitConverter::ToChar(x,i)); break; case Int16Type: v(BitConverter::ToInt16(x,i)); break;
      case UInt16Type: v(BitConverter::ToUInt16(x,i)); break; case Int32Type: v(BitConverter::ToInt32(x,i)); break; case UInt32Type: v(BitConverter::ToUInt32(x,i)); break; case Int64Type: v(BitConverter::ToInt64(x,i)); break;
      case UInt64Type: v((int64_t)BitConverter::ToUInt64(x,i)); break; case SingleType: vf(BitConverter::ToSingle(x,i)); break; case DoubleType: vd(BitConverter::ToDouble(x,i)); break; default: throw Skip(); } } break;
  case OP_V_STR0: { Array*x=a(p[1]); if(x&&x->GetElementType()!=ByteType) throw Skip(); putS(p[0],BitConverter::ToString(x)); } break;
  case OP_V_STR: { Array*x=a(p[1]); if(x&&x->GetElementType()!=ByteType) throw Skip(); putS(p[0],DEF2(BitConverter::ToString,0,-1,I(p[2]),I(p[3]),x)); } break;
  case OP_V_D2L: v(BitConverter::DoubleToInt64Bits(dbl(p[0]))); break;
  case OP_V_L2D: vd(BitConverter::Int64BitsToDouble(p[0])); break;
  // ---------------- enumerators
  case OP_E_NEW: { String*x=s(p[1]); E[p[0]]=new CharEnumerator(x); eStr[p[0]]=x; } break;
  case OP_E_GET: { String*x=s(p[1]); E[p[0]]=x->GetEnumerator(); eStr[p[0]]=x; } break;
  case OP_E_CUR: v(e(p[0])->get_Current()); break;
  case OP_E_ADV: { static wchar_t t[MAXTEXT]; int n=0,m=(int)p[1]; if(m>MAXTEXT-1) m=MAXTEXT-1; CharEnumerator* q=e(p[0]); while(n<m&&q->MoveNext()){ t[n++]=q->get_Current(); } v(n); text(t,n); } break;   // any number of steps
  case OP_E_NEXT: v(e(p[0])->MoveNext()); break;
  case OP_E_RESET: e(p[0])->Reset(); break;
  case OP_E_DEL: { CharEnumerator*x=e(p[0]); E[p[0]]=nullptr; bool del=true; for(int i=0;i<NREG;++i) if(A[i]&&isRef(A[i]->GetElementType())) del=false; if(del) delete x; } break;
  // ---------------- boxed values
  case OP_O_BOX: O[p[0]]=box(p[1],p[2],p[0]&1); break;
  case OP_O_OBJ: O[p[0]]=p[1]>0&&p[1]<16?(Object*)makeEx(p[1],nullptr,nullptr):new Object(); break;   // exceptions are objects too
  case OP_O_USR: { int h=(int)p[1]; Object* x=obj(p[3]); int k=(int)(p[3]/64); if(p[1]<0||p[1]>13||((h==3||h>8)&&k!=RK_S&&k!=RK_O)||((h==4||h==5||h==8)&&k!=RK_B)) throw Skip(); String* t=new String(lit(p[2])); O[p[0]]=new Custom(h,t,h!=3&&h!=4&&h!=5&&h<8?nullptr:x); } break;
  case OP_O_AS: as(obj(p[0]),p[1]); break;
  case OP_O_CMP: { Object*x=obj(p[0]),*y=obj(p[1]); sgn(cmpObj(x,y)); } break;
  case OP_O_CMPV: sgn(cmpVal(obj(p[0]),p[1],p[2])); break;
  case OP_O_EQ: { Object*x=obj(p[0]),*y=obj(p[1]); v(x->Equals(y)); } break;
  case OP_O_EQV: v(eqVal(obj(p[0]),p[1],p[2])); break;
  case OP_O_EQS: { Object*x=obj(p[0]),*y=obj(p[1]); v(Object::Equals(x,y)); } break;
  case OP_O_DT: { Object*x=obj(p[1]); int64_t q=p[2]; if(x->GetRawDataType()==DateTimeType){ DateTimeValue& d=*(DateTimeValue*)x; double f=(double)(q%100000)/4; switch(p[0]){ case 0:v((int64_t)d.AddDays(f).value);break; case 1:v((int64_t)d.AddHours(f).value);break; case 2:v((int64_t)d.AddMilliseconds((double)(q%10000000000ll)).value);break;
      case 3:v((int64_t)d.AddMinutes(f).value);break; case 4:v((int64_t)d.AddSeconds(f).value);break; case 5:v((int64_t)d.AddMonths((Int32)(q%1000)).value);break; case 6:v((int64_t)d.AddYears((Int32)(q%100)).value);break; case 7:v((int64_t)d.AddTicks(q).value);break; case 8:v((int64_t)d.Add(TimeSpan((Int64)q)).value);break;
      case 9:v((int64_t)d.Subtract(TimeSpan((Int64)q)).value);break; case 10:v(d.Subtract(DateTime((UInt64)q)).value);break; case 11:v((int64_t)d.ToLocalTime().value);break; case 12:v((int64_t)d.ToUniversalTime().value);break; case 13:v(d.IsDaylightSavingTime());break;
      case 14:v((int64_t)d.get_Date().value);v(d.get_TimeOfDay().value);break; default:v(d.get_Year());v(d.get_Month());v(d.get_Day());v(d.get_DayOfYear());v(d.get_DayOfWeek());v(d.get_Hour());v(d.get_Millisecond()); } }
    else if(x->GetRawDataType()==TimeSpanType){ TimeSpanValue& t=*(TimeSpanValue*)x; double f=(double)(q%100000)/4; switch(p[0]){ case 0:v(t.Add(TimeSpan((Int64)q)).value);break; case 1:v(t.Subtract(TimeSpan((Int64)q)).value);break; case 2:v(t.Negate().value);break; case 3:v(t.Duration().value);break; case 4:v(t.Multiply(f).value);break;
      case 5:v(t.Divide(f).value);break; case 6:vd(t.Divide(TimeSpan((Int64)q)));break; case 7:v(t.get_Days());v(t.get_Hours());v(t.get_Minutes());v(t.get_Seconds());v(t.get_Milliseconds());break; default:vd(t.get_TotalDays());vd(t.get_TotalHours());vd(t.get_TotalMinutes());vd(t.get_TotalSeconds());vd(t.get_TotalMilliseconds()); } }
    else throw Skip(); } break;
  case OP_O_TOSTR: { Object*x=obj(p[1]); putS(p[0],x->ToString()); } break;
  case OP_O_FMT: fmt(obj(p[0]),p[1]); break;
  case OP_O_RAW: v(obj(p[0])->GetRawDataType()); break;
  case OP_O_DEL: { int k=(int)(p[0]/64),i=(int)(p[0]%64); if(k!=RK_O) throw Skip(); Object*x=obj(p[0]); O[i]=nullptr; bool del=!referenced(x,-1,-1)&&!dynamic_cast<Custom*>(x); for(int j=0;j<NREG;++j) if(A[j]&&isRef(A[j]->GetElementType())) del=false; if(del) delete x; } break;
  case OP_P_PARSE: parse(p[0],s(p[1])); break;
  case OP_P_TRY: tryParse(p[0],s(p[1])); break;
  case OP_P_TRYI: { String*x=s(p[1]); switch(p[0]){ case SingleType: { Out<Single> o; bool ok=SingleValue::TryParseInternal(x,o.x); v(ok); vf(o.x); } break; case DoubleType: { Out<Double> o; bool ok=DoubleValue::TryParseInternal(x,o.x); v(ok); vd(o.x); } break;
      case UInt64Type: { Out<UInt64> u; Out<Int32> g; bool ok=UInt64Value::TryParseInternal(x,u.x,g.x); v(ok); v((int64_t)u.x); v(g.x); } break; default: throw Skip(); } } break;
  case OP_C_CLASS: { Char c=(Char)p[1]; switch(p[0]){ case 0:v(CharValue::IsControl(c));break; case 1:v(CharValue::IsDigit(c));break; case 2:v(CharValue::IsLetter(c));break; case 3:v(CharValue::IsLetterOrDigit(c));break; case 4:v(CharValue::IsLower(c));break;
      case 5:v(CharValue::IsNumber(c));break; case 6:v(CharValue::IsPunctuation(c));break; case 7:v(CharValue::IsSeparator(c));break; case 8:v(CharValue::IsUpper(c));break; case 9:v(CharValue::IsWhiteSpace(c));break; case 10:vd(CharValue::GetNumericValue(c));break;
      case 11:v(CharValue::ToLower(c));break; default:v(CharValue::ToUpper(c)); } } break;
  case OP_C_CLASSS: { String*x=s(p[1]); Int32 i=I(p[2]); switch(p[0]){ case 0:v(CharValue::IsControl(x,i));break; case 1:v(CharValue::IsDigit(x,i));break; case 2:v(CharValue::IsLetter(x,i));break; case 3:v(CharValue::IsLetterOrDigit(x,i));break; case 4:v(CharValue::IsLower(x,i));break;
      case 5:v(CharValue::IsNumber(x,i));break; case 6:v(CharValue::IsPunctuation(x,i));break; case 7:v(CharValue::IsSeparator(x,i));break; case 8:v(CharValue::IsUpper(x,i));break; case 9:v(CharValue::IsWhiteSpace(x,i));break; default:vd(CharValue::GetNumericValue(x,i)); } } break;
  case OP_C_TOSTR: putS(p[0],CharValue::ToString((Char)p[1])); break;
  // ---------------- math
  case OP_M_D1: { double d=dbl(p[1]); switch(p[0]){ case 0:vd(Math::Abs(d));break; case 1:vd(Math::Acos(d));break; case 2:vd(Math::Acosh(d));break; case 3:vd(Math::Asin(d));break; case 4:vd(Math::Asinh(d));break; case 5:vd(Math::Atan(d));break; case 6:vd(Math::Atanh(d));break;
      case 7:vd(Math::BitDecrement(d));break; case 8:vd(Math::BitIncrement(d));break; case 9:vd(Math::Cbrt(d));break; case 10:vd(Math::Ceiling(d));break; case 11:vd(Math::Cos(d));break; case 12:vd(Math::Cosh(d));break; case 13:vd(Math::Exp(d));break;
      case 14:vd(Math::Floor(d));break; case 15:v(Math::ILogB(d));break; case 16:vd(Math::Log(d));break; case 17:vd(Math::Log10(d));break; case 18:vd(Math::Log2(d));break; case 19:vd(Math::Round(d));break; case 20:v(Math::Sign(d));break; case 21:vd(Math::Sin(d));break;
      case 22:vd(Math::Sinh(d));break; case 23:vd(Math::Sqrt(d));break; case 24:vd(Math::Tan(d));break; case 25:vd(Math::Tanh(d));break; default:vd(Math::Truncate(d)); } } break;
  case OP_M_D2: { double x=dbl(p[1]),y=dbl(p[2]); switch(p[0]){ case 0:vd(Math::Atan2(x,y));break; case 1:vd(Math::CopySign(x,y));break; case 2:vd(Math::Divide(x,y));break; case 3:vd(Math::IEEERemainder(x,y));break; case 4:vd(Math::Log(x,y));break;
      case 5:vd(Math::MaxMagnitude(x,y));break; case 6:vd(Math::MinMagnitude(x,y));break; case 7: vd(Math::Max(x,y)); break; case 8: vd(Math::Min(x,y)); break; default:vd(Math::Pow(x,y)); } } break;
  case OP_M_ROUND: vd(Math::Round(dbl(p[0]),I(p[1]))); break;
  case OP_M_ROUND3: vd(Math::Round(dbl(p[0]),I(p[1]),(MidpointRounding)p[2])); break;
  case OP_M_FMA: vd(Math::FusedMultiplyAdd(dbl(p[0]),dbl(p[1]),dbl(p[2]))); break;
  case OP_M_SCALEB: vd(Math::ScaleB(dbl(p[0]),I(p[1]))); break;
  case OP_M_ABS: switch(p[0]){ case Int16Type: vd(Math::Abs((Int16)p[1])); break; case Int32Type: vd(Math::Abs((Int32)p[1])); break; case Int64Type: vd(Math::Abs((Int64)p[1])); break; case SByteType: vd(Math::Abs((SByte)p[1])); break; case SingleType: vd(Math::Abs(sgl(p[1]))); break; default: throw Skip(); } break;
  case OP_M_SIGN: switch(p[0]){ case Int16Type: v(Math::Sign((Int16)p[1])); break; case Int32Type: v(Math::Sign((Int32)p[1])); break; case Int64Type: v(Math::Sign((Int64)p[1])); break; case SByteType: v(Math::Sign((SByte)p[1])); break; case SingleType: v(Math::Sign(sgl(p[1]))); break; default: throw Skip(); } break;
#define MM(k,T) case k: if(p[0]) v((int64_t)Math::Max((T)p[2],(T)p[3])); else v((int64_t)Math::Min((T)p[2],(T)p[3])); break;
  case OP_M_MINMAX: switch(p[1]){ MM(ByteType,Byte) MM(SByteType,SByte) MM(Int16Type,Int16) MM(UInt16Type,UInt16) MM(Int32Type,Int32) MM(UInt32Type,UInt32) MM(Int64Type,Int64) MM(UInt64Type,UInt64)
      case SingleType: vf(p[0]?Math::Max(sgl(p[2]),sgl(p[3])):Math::Min(sgl(p[2]),sgl(p[3]))); break; default: throw Skip(); } break;
#define CL(k,T) case k: v((int64_t)Math::Clamp((T)p[1],(T)p[2],(T)p[3])); break;
  case OP_M_CLAMP: switch(p[0]){ CL(ByteType,Byte) CL(SByteType,SByte) CL(Int16Type,Int16) CL(UInt16Type,UInt16) CL(Int32Type,Int32) CL(UInt32Type,UInt32) CL(Int64Type,Int64) CL(UInt64Type,UInt64)
      case SingleType: vf(Math::Clamp(sgl(p[1]),sgl(p[2]),sgl(p[3]))); break; case DoubleType: vd(Math::Clamp(dbl(p[1]),dbl(p[2]),dbl(p[3]))); break; default: throw Skip(); } break;
  case OP_M_DIV: v(Math::Divide((Int64)p[0],(Int64)p[1])); break;
  case OP_M_DIVREM: if(p[0]) { Out<Int64> rem; v(Math::DivRem((Int64)p[1],(Int64)p[2],rem.x)); v(rem.x); } else { Out<Int32> rem; v(Math::DivRem((Int32)p[1],(Int32)p[2],rem.x)); v(rem.x); } break;
  case OP_M_BIGMUL: v(Math::BigMul(I(p[0]),I(p[1]))); break;
  case OP_N_CLASS: { double d=dbl(p[1]); switch(p[0]){ case 0:v(DoubleValue::IsFinite(d));break; case 1:v(DoubleValue::IsInfinity(d));break; case 2:v(DoubleValue::IsNaN(d));break; case 3:v(DoubleValue::IsNegative(d));break; case 4:v(DoubleValue::IsNegativeInfinity(d));break;
      case 5:v(DoubleValue::IsNormal(d));break; case 6:v(DoubleValue::IsPositiveInfinity(d));break; default:v(DoubleValue::IsSubnormal(d)); } } break;
  case OP_N_SCLASS: { float d=sgl(p[1]); switch(p[0]){ case 0:v(SingleValue::IsFinite(d));break; case 1:v(SingleValue::IsInfinity(d));break; case 2:v(SingleValue::IsNaN(d));break; case 3:v(SingleValue::IsNegative(d));break; case 4:v(SingleValue::IsNegativeInfinity(d));break;
      case 5:v(SingleValue::IsNormal(d));break; case 6:v(SingleValue::IsPositiveInfinity(d));break; default:v(SingleValue::IsSubnormal(d)); } } break;
  case OP_N_MOD: vd(DoubleValue::Modulus(dbl(p[0]),dbl(p[1]))); break;
  case OP_N_SMOD: vf(SingleValue::Modulus(sgl(p[0]),sgl(p[1]))); break;
  // ---------------- date-times and spans
  case OP_D_CTOR: v((int64_t)(I(p[6])?DateTime(I(p[0]),I(p[1]),I(p[2]),I(p[3]),I(p[4]),I(p[5]),I(p[6])):I(p[5])?DateTime(I(p[0]),I(p[1]),I(p[2]),I(p[3]),I(p[4]),I(p[5])):I(p[4])?DateTime(I(p[0]),I(p[1]),I(p[2]),I(p[3]),I(p[4])):I(p[3])?DateTime(I(p[0]),I(p[1]),I(p[2]),I(p[3])):DateTime(I(p[0]),I(p[1]),I(p[2]))).value); break;
#define DV(x) DateTimeValue d_(DateTime((UInt64)(x)));
  case OP_D_PART: { DV(p[1]) switch(p[0]){ case 0:v((int64_t)d_.get_Date().value);break; case 1:v(d_.get_Day());break; case 2:v(d_.get_DayOfWeek());break; case 3:v(d_.get_DayOfYear());break; case 4:v(d_.get_Hour());break; case 5:v(d_.get_Millisecond());break;
      case 6:v(d_.get_Minute());break; case 7:v(d_.get_Month());break; case 8:v(d_.get_Second());break; case 9:v(d_.get_Ticks());break; case 10:v(d_.get_TimeOfDay().value);break; default:v(d_.get_Year()); } } break;
  case OP_D_ADD: { DV(p[1]) double d=dbl(p[2]); switch(p[0]){ case 0:v((int64_t)d_.AddDays(d).value);break; case 1:v((int64_t)d_.AddHours(d).value);break; case 2:v((int64_t)d_.AddMilliseconds(d).value);break; case 3:v((int64_t)d_.AddMinutes(d).value);break; default:v((int64_t)d_.AddSeconds(d).value); } } break;
  case OP_D_ADDM: { DV(p[0]) v((int64_t)d_.AddMonths(I(p[1])).value); } break;
  case OP_D_ADDY: { DV(p[0]) v((int64_t)d_.AddYears(I(p[1])).value); } break;
  case OP_D_ADDT: { DV(p[0]) v((int64_t)d_.AddTicks(p[1]).value); } break;
  case OP_D_ADDTS: { DV(p[0]) v((int64_t)d_.Add(TimeSpan((Int64)p[1])).value); v((int64_t)DateTimeValue::op_Addition(DateTime((UInt64)p[0]),TimeSpan((Int64)p[1])).value); } break;
  case OP_D_SUBD: { DV(p[0]) v(d_.Subtract(DateTime((UInt64)p[1])).value); v(DateTimeValue::op_Subtraction(DateTime((UInt64)p[0]),DateTime((UInt64)p[1])).value); } break;
  case OP_D_SUBTS: { DV(p[0]) v((int64_t)d_.Subtract(TimeSpan((Int64)p[1])).value); v((int64_t)DateTimeValue::op_Subtraction(DateTime((UInt64)p[0]),TimeSpan((Int64)p[1])).value); } break;
  case OP_D_CMP: { DateTime x((UInt64)p[1]),y((UInt64)p[2]); switch(p[0]){ case 0:v(DateTimeValue::Compare(x,y));break; case 1:v(DateTimeValue(x).CompareTo(y));break; case 2:v(DateTimeValue(x).Equals(y));break; case 3:v(DateTimeValue::op_Equality(x,y));break; case 4:v(DateTimeValue::op_GreaterThan(x,y));break;
      case 5:v(DateTimeValue::op_GreaterThanOrEqual(x,y));break; case 6:v(DateTimeValue::op_Inequality(x,y));break; case 7:v(DateTimeValue::op_LessThan(x,y));break; case 9:v(DateTimeValue::Equals(x,y));break; default:v(DateTimeValue::op_LessThanOrEqual(x,y)); } } break;
  case OP_D_CMPO: { DV(p[0]) v(d_.CompareTo(obj(p[1]))); v(d_.Equals(obj(p[1]))); } break;
  case OP_D_LOCAL: { DV(p[0]) v((int64_t)d_.ToLocalTime().value); } break;
  case OP_D_UTC: { DV(p[0]) v((int64_t)d_.ToUniversalTime().value); } break;
  case OP_D_DST: { DV(p[0]) v(d_.IsDaylightSavingTime()); } break;
  case OP_D_STR: { DV(p[1]) putS(p[0],d_.ToString()); } break;
  case OP_D_DIM: v(DateTimeValue::DaysInMonth(I(p[0]),I(p[1]))); break;
  case OP_D_LEAP: v(DateTimeValue::IsLeapYear(I(p[0]))); break;
  case OP_T_CTOR3: v(TimeSpan(I(p[0]),I(p[1]),I(p[2])).value); break;
  case OP_T_CTOR5: v((I(p[4])?TimeSpan(I(p[0]),I(p[1]),I(p[2]),I(p[3]),I(p[4])):TimeSpan(I(p[0]),I(p[1]),I(p[2]),I(p[3]))).value); break;
#define TV(x) TimeSpanValue t_(TimeSpan((Int64)(x)));
  case OP_T_PART: { TV(p[1]) switch(p[0]){ case 0:v(t_.get_Days());break; case 1:v(t_.get_Hours());break; case 2:v(t_.get_Milliseconds());break; case 3:v(t_.get_Minutes());break; case 4:v(t_.get_Seconds());break; default:v(t_.get_Ticks()); } } break;
  case OP_T_TOT: { TV(p[1]) switch(p[0]){ case 0:vd(t_.get_TotalDays());break; case 1:vd(t_.get_TotalHours());break; case 2:vd(t_.get_TotalMilliseconds());break; case 3:vd(t_.get_TotalMinutes());break; default:vd(t_.get_TotalSeconds()); } } break;
  case OP_T_BIN: { TV(p[1]) TimeSpan y((Int64)p[2]); switch(p[0]){ case 0:v(t_.Add(y).value);break; case 1:v(t_.Subtract(y).value);break; case 2:v(TimeSpanValue::op_Addition(TimeSpan((Int64)p[1]),y).value);break; case 3:v(TimeSpanValue::op_Subtraction(TimeSpan((Int64)p[1]),y).value);break; case 5:vd(TimeSpanValue::op_Division(TimeSpan((Int64)p[1]),y));break; default:vd(t_.Divide(y)); } } break;
  case OP_T_FROM: { double d=dbl(p[1]); switch(p[0]){ case 0:v(TimeSpanValue::FromDays(d).value);break; case 1:v(TimeSpanValue::FromHours(d).value);break; case 2:v(TimeSpanValue::FromMilliseconds(d).value);break; case 3:v(TimeSpanValue::FromMinutes(d).value);break; default:v(TimeSpanValue::FromSeconds(d).value); } } break;
  case OP_T_MULDIV: { TV(p[1]) double d=dbl(p[2]); switch(p[0]){ case 0:v(t_.Multiply(d).value);break; case 1:v(t_.Divide(d).value);break; case 2:v(TimeSpanValue::op_Multiply(TimeSpan((Int64)p[1]),d).value);break; case 4:v(TimeSpanValue::op_Multiply(d,TimeSpan((Int64)p[1])).value);break; default:v(TimeSpanValue::op_Division(TimeSpan((Int64)p[1]),d).value); } } break;
  case OP_T_UN: { TV(p[1]) switch(p[0]){ case 0:v(t_.Duration().value);break; case 1:v(t_.Negate().value);break; case 2:v(TimeSpanValue::op_UnaryNegation(TimeSpan((Int64)p[1])).value);break; default:v(TimeSpanValue::op_UnaryPlus(TimeSpan((Int64)p[1])).value); } } break;
  case OP_T_CMP: { TimeSpan x((Int64)p[1]),y((Int64)p[2]); switch(p[0]){ case 0:v(TimeSpanValue::Compare(x,y));break; case 1:v(TimeSpanValue(x).CompareTo(y));break; case 2:v(TimeSpanValue(x).Equals(y));break; case 3:v(TimeSpanValue::op_Equality(x,y));break; case 4:v(TimeSpanValue::op_GreaterThan(x,y));break;
      case 5:v(TimeSpanValue::op_GreaterThanOrEqual(x,y));break; case 6:v(TimeSpanValue::op_Inequality(x,y));break; case 7:v(TimeSpanValue::op_LessThan(x,y));break; case 9:v(TimeSpanValue::Equals(x,y));break; default:v(TimeSpanValue::op_LessThanOrEqual(x,y)); } } break;
  case OP_T_STR: { TV(p[1]) putS(p[0],t_.ToString()); } break;
  case OP_K_UTC: v((int64_t)DateTimeValue::get_UtcNow().value); break;
  case OP_K_NOW: v((int64_t)DateTimeValue::get_Now().value); break;
  case OP_K_TODAY: v((int64_t)DateTimeValue::get_Today().value); break;
  // ---------------- platform and program
  case OP_X_SEND: g_support->Send(s(p[0])); break;
  case OP_X_DOUBLE: vd(g_access->get_DoubleData()); break;
  case OP_X_THROW: throwEx(p[0],s(p[1])); break;
  case OP_X_THROWNEST: { String* m=s(p[2]); root=cause=makeEx(p[0],m,nullptr); causeText=cause->get_Message(); if(p[1]&2) cause=new Exception(m,root); throw new Exception(p[1]&1?m:nullptr,cause); } break;
  case OP_X_RETHROW: if(!kept) throw Skip(); throw kept; break;
  case OP_X_FOREIGN: { ForeignError f; f.code=7; throw f; } break;
  case OP_X_NEW: { int64_t i=p[0]%NRAW; RAW[i]=nullptr; char* q=nullptr; if(p[0]<NRAW) q=(char*)::operator new[]((size_t)p[1]); else try { q=(char*)::operator new[]((size_t)p[1]); } catch(std::bad_alloc&) {} catch(Exception*) {} RAW[i]=q; RAWN[i]=p[1]; v(q!=nullptr); } break;
  case OP_X_DELRAW: { char* q=RAW[p[0]%NRAW]; if(!q) throw Skip(); RAW[p[0]%NRAW]=nullptr; delete[] q; } break;
  case OP_X_FILL: { char* q=RAW[p[0]%NRAW]; if(!q) throw Skip(); int64_t n=RAWN[p[0]%NRAW]; if(n>0&&n<(1<<24)) memset(q,0xA5,(size_t)n); } break;
  case OP_X_CAP: { int64_t total=0; size_t step=p[0]?4096:64; int refusals=0; while(total<(64<<20)&&refusals<64){ bool ok=false; try { char* q=(char*)::operator new[](step); ok=(q!=nullptr); } catch(std::bad_alloc&) {} catch(Exception*) {} if(ok) total+=step; else { ++refusals; if(step<8) break; if(step==8) step=5; else { step/=2; if(step<8) step=8; } } } v(total); } break;
  case OP_X_MARK: v(p[0]); break;
  default: throw Skip();
  }
}
void begin(const Op* o,Res* r){ R=r; r->kind=K_ESCAPED; r->nv=0; r->hasText=0; r->textLen=0; r->exc[0]=0; r->excMsg=0; r->user=0; userThrown=nullptr; g_hostApi->h_begin(o); if(g_hostApi->h_dirty) g_hostApi->h_dirty(); }
void describe(Exception* ex,Res* r){ const char* n=typeid(*ex).name(); strncpy(r->exc,n,sizeof(r->exc)-1); r->exc[sizeof(r->exc)-1]=0; String* m=ex->get_Message(); r->excMsg=m!=nullptr; if(m) text(m->get_Buffer(),m->get_Length()); else r->hasText=0;
  Exception* in=ex->get_InnerException(); Exception* bs=ex->GetBaseException(); v(in==nullptr?0:in==cause?1:2); v(bs==nullptr?9:bs==ex?0:bs==root?1:2); v(in==nullptr?0:root->get_Message()==causeText&&typeid(*bs)==typeid(*root)); }
void perform(const Op* o,Res* r,bool caught){   // caught: the program has a catch (Exception) around the statement
  begin(o,r);
  try { execOp(*o); r->kind=K_OK; if(userThrown) r->user=3; }
  catch(Skip&) { r->kind=K_SKIP; r->nv=0; r->hasText=0; }
  catch(Exception* ex) { r->kind=K_EXC; r->nv=0; if(userThrown) r->user=ex==userThrown?1:2; describe(ex,r); if(caught) kept=ex; if(!caught) { g_hostApi->h_done(o,r); throw; } }
  catch(std::bad_alloc&) { r->kind=K_OOM; r->nv=0; r->hasText=0; g_hostApi->h_done(o,r); throw; }
  catch(...) { r->kind=K_FOREIGN; r->nv=0; r->hasText=0; g_hostApi->h_done(o,r); throw; }
  g_hostApi->h_done(o,r);
}
Res runRes;
class Program : public DataAccess { public: virtual void RunCode() { Op o; while(g_hostApi->h_next(&o)) perform(&o,&runRes,o.caught!=0); } };
alignas(16) char progMem[sizeof(Program)];

void ad_forget(){ Custom::all=nullptr; kept=cause=root=nullptr; causeText=nullptr; memset(S,0,sizeof S); memset(B,0,sizeof B); memset(A,0,sizeof A); memset(E,0,sizeof E); memset(O,0,sizeof O); memset(RAW,0,sizeof RAW); memset(eStr,0,sizeof eStr); }
void* place(size_t,void* p){ return p; }
int ad_init(const HostApi* h){ ad_forget(); if(!seams_install()) return 0; g_hostApi=h; g_support=::new((void*)supMem) TranslatorSupport(); g_access=::new((void*)accMem) DataAccess(); return 1; }
void ad_exec(const Op* o,Res* r){ try { perform(o,r,true); } catch(...) {} }
int ad_run(){ Program* pr=::new((void*)progMem) Program(); try { pr->Run(); } catch(...) { return 1; } return 0; }
int ad_inspS(int r,wchar_t* out,int max,int* nt){ String* x=S[r]; if(!x) return -1; int n=x->get_Length(); const wchar_t* q=x->get_Buffer(); if(n<0) return -2; if(!q) return n==0?0:-3; int m=n<max?n:max; for(int i=0;i<m;++i) out[i]=q[i]; *nt=q[n]==0; return n; }
int ad_inspB(int r,wchar_t* out,int max,int* cap,int* mx){ StringBuilder* x=B[r]; if(!x) return -1; int n=x->get_Length(); *cap=x->get_Capacity(); *mx=x->get_MaxCapacity(); if(n<0) return -2; int m=n<max?n:max; for(int i=0;i<m;++i) out[i]=x->get_Chars(i); return n; }
int ad_inspA(int r,int* type,int* dims,uint8_t* out,int max){ Array* x=A[r]; if(!x) return -1; int n=x->get_Length(); *type=x->GetElementType(); int rk=x->get_Rank(); dims[0]=rk; for(int i=0;i<3;++i) dims[i+1]=i<rk?x->GetLength(i):-1; if(n<=0) return n; int sz=DataTypeSize[*type]; if(sz==0) return n; const uint8_t* q=(const uint8_t*)x->Address(0,rk>1?0:-1,rk>2?0:-1); int m=n*sz<max?n*sz:max; memcpy(out,q,m); return n; }
int ad_inspAText(int r,int i,wchar_t* out,int max){ Array* x=A[r]; if(!x||!isRef(x->GetElementType())) return -2; if(x->GetElementType()==DecimalType) return ((Object**)x->Address(0,x->get_Rank()>1?0:-1,x->get_Rank()>2?0:-1))[i]?-3:-1; Object* z=((Object**)x->Address(0,x->get_Rank()>1?0:-1,x->get_Rank()>2?0:-1))[i]; if(!z) return -1; if(z->GetRawDataType()!=StringType) return -3; String* y=(String*)z; int n=y->get_Length(); int m=n<max?n:max; for(int j=0;j<m;++j) out[j]=y->get_Buffer()[j]; return n; }
int ad_inspO(int r,int64_t* bits){ Object* x=O[r]; *bits=0; if(!x) return -1; int t=x->GetRawDataType(); try { switch(t){
  case BooleanType: *bits=x->get_AsBoolean(); break; case CharType: *bits=x->get_AsChar(); break; case SByteType: *bits=x->get_AsSByte(); break; case ByteType: *bits=x->get_AsByte(); break;
  case Int16Type: *bits=x->get_AsInt16(); break; case UInt16Type: *bits=x->get_AsUInt16(); break; case Int32Type: *bits=x->get_AsInt32(); break; case UInt32Type: *bits=x->get_AsUInt32(); break;
  case Int64Type: *bits=x->get_AsInt64(); break; case UInt64Type: *bits=(int64_t)x->get_AsUInt64(); break; case SingleType: { Single f=x->get_AsSingle(); int32_t i; memcpy(&i,&f,4); *bits=i; } break;
  case DoubleType: { Double d=x->get_AsDouble(); memcpy(bits,&d,8); } break; case DateTimeType: *bits=(int64_t)x->get_AsDateTime().value; break; case TimeSpanType: *bits=x->get_AsTimeSpan().value; break; default: ; } } catch(...) { return -4; } return t; }
int ad_refIs(int r,int i,int rk){ Array* x=A[r]; if(!x||!isRef(x->GetElementType())) return -1; try { return ((Object**)x->Address(0,x->get_Rank()>1?0:-1,x->get_Rank()>2?0:-1))[i]==obj(rk); } catch(...) { return -1; } }
int32_t* ad_arrayData(){ if(&arrayData[0]) return arrayData; return nullptr; }
double* ad_doubleData(){ if(&doubleData) return &doubleData; return nullptr; }
int ad_same(int x,int y){ try { return obj(x)==obj(y); } catch(...) { return 0; } }
const LibApi api={ad_init,ad_exec,ad_run,ad_inspS,ad_inspB,ad_inspA,ad_inspAText,ad_inspO,ad_refIs,ad_forget,ad_arrayData,ad_doubleData,ad_same};
}
extern "C" const LibApi* ad_entry(){ return &api; }
