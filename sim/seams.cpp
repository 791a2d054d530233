// Seams. Link time (-Wl,--wrap): platform heap and clock of the code under test go to the simulator. Load time: the two run-allocator
// functions, compiled with room for a jump at their entry (-fpatchable-function-entry), are detoured to the simulator, which calls the
// real ones behind the jump.
#include "api.h"
#include <sys/time.h>
#include <errno.h>
#include <stdlib.h>
#include <new>
#include <chrono>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
void* my_operator_new_replacement(size_t);
void my_operator_delete_replacement(void*);
extern "C" const HostApi* g_hostApi;
const HostApi* g_hostApi=nullptr;
extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t,size_t); void* __real_realloc(void*,size_t);
void* __wrap_malloc(size_t n){ return g_hostApi?g_hostApi->h_malloc(n):__real_malloc(n); }
void  __wrap_free(void* p){ if(g_hostApi) g_hostApi->h_free(p); else __real_free(p); }
void* __wrap_calloc(size_t a,size_t b){ return g_hostApi?g_hostApi->h_calloc(a,b):__real_calloc(a,b); }
void* __wrap_realloc(void* p,size_t n){ return g_hostApi?g_hostApi->h_realloc(p,n):__real_realloc(p,n); }
static int64_t now_ns(int w){ return g_hostApi?g_hostApi->h_now(w):0; }
time_t __wrap_time(time_t* t){ int64_t n=now_ns(0); int64_t s=n/1000000000; if(n%1000000000<0) --s; if(t)*t=s; return s; }
static void split(int64_t n,int64_t*s,int64_t*ns){ *s=n/1000000000; *ns=n%1000000000; if(*ns<0){*ns+=1000000000;--*s;} }
int __wrap_clock_gettime(clockid_t id, struct timespec* ts){ int64_t s,ns; int64_t n=now_ns(id==CLOCK_REALTIME||id==CLOCK_REALTIME_COARSE?0:1); if(id==CLOCK_REALTIME_COARSE||id==CLOCK_MONOTONIC_COARSE){ int64_t q=n%4000000; n-=q<0?q+4000000:q; } /* the coarse clocks stand still between ticks */ split(n,&s,&ns); ts->tv_sec=s; ts->tv_nsec=ns; return 0; }
int __wrap_timespec_get(struct timespec* ts,int base){ __wrap_clock_gettime(CLOCK_REALTIME,ts); return base; }
int __wrap_gettimeofday(struct timeval* tv, void*){ int64_t s,ns; split(now_ns(0),&s,&ns); tv->tv_sec=s; tv->tv_usec=ns/1000; return 0; }
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv(){ return now_ns(0); }
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv(){ return now_ns(1); }
}
namespace {
typedef void* (*newfn)(size_t); typedef void (*delfn)(void*);
newfn realNew; delfn realDel;
void* detourNew(size_t n){ return g_hostApi?g_hostApi->h_new(n,realNew):realNew(n); }
void detourDel(void* p){ if(g_hostApi) g_hostApi->h_delete(p,realDel); else realDel(p); }
bool detour(unsigned char* f,void* to){
  for(int i=0;i<16;++i) if(f[i]!=0x90) return false;
  long ps=sysconf(_SC_PAGESIZE); uintptr_t b=(uintptr_t)f/ps*ps;
  if(mprotect((void*)b,2*ps,PROT_READ|PROT_WRITE|PROT_EXEC)) return false;
  f[0]=0x48; f[1]=0xb8; memcpy(f+2,&to,8); f[10]=0xff; f[11]=0xe0;   // mov rax,to; jmp rax
  mprotect((void*)b,2*ps,PROT_READ|PROT_EXEC);
  return true;
}
}
extern "C" int seams_install(){
  unsigned char* n=(unsigned char*)(newfn)&my_operator_new_replacement; unsigned char* d=(unsigned char*)(delfn)&my_operator_delete_replacement;
  realNew=(newfn)(void*)(n+12); realDel=(delfn)(void*)(d+12);
  return detour(n,(void*)&detourNew)&&detour(d,(void*)&detourDel);
}
// nothrow and sized forms, should the code under test come to use them, stay on the run allocator
void* operator new(size_t n,const std::nothrow_t&) noexcept { try { return my_operator_new_replacement(n);} catch(...) { return nullptr; } }
void* operator new[](size_t n,const std::nothrow_t&) noexcept { try { return my_operator_new_replacement(n);} catch(...) { return nullptr; } }
#ifdef __SANITIZE_ADDRESS__
// Wide-character functions of the C library that the address sanitizer does not intercept: their reads and writes of the code's memory
// are checked here, against the same rules as the code's own.
#include <stdarg.h>
#include <wchar.h>
extern "C" {
void* __asan_region_is_poisoned(void*,size_t);
static void touch(const void* p,size_t n){ if(!n) return; int e=errno; if(void* b=__asan_region_is_poisoned((void*)p,n)) { volatile char c=*(volatile char*)b; (void)c; } errno=e; }
static void touchStr(const wchar_t* s,size_t max){ int e=errno; size_t n=0; while(n<max&&((const volatile wchar_t*)s)[n]) ++n; errno=e; }
static void touchW(const wchar_t* s,size_t n){ touch(s,n*sizeof(wchar_t)); }
int __real___vswprintf_chk(wchar_t*,size_t,int,size_t,const wchar_t*,va_list); int __real_vswprintf(wchar_t*,size_t,const wchar_t*,va_list);
int __wrap_vswprintf(wchar_t* s,size_t n,const wchar_t* f,va_list a){ touchStr(f,(size_t)-1); int r=__real_vswprintf(s,n,f,a); if(n) touchW(s,r>=0?(size_t)r+1:n); return r; }
int __wrap___vswprintf_chk(wchar_t* s,size_t n,int fl,size_t sl,const wchar_t* f,va_list a){ touchStr(f,(size_t)-1); int r=__real___vswprintf_chk(s,n,fl,sl,f,a); if(n) touchW(s,r>=0?(size_t)r+1:n); return r; }
int __wrap_swprintf(wchar_t* s,size_t n,const wchar_t* f,...){ va_list a; va_start(a,f); int r=__wrap_vswprintf(s,n,f,a); va_end(a); return r; }
int __wrap___swprintf_chk(wchar_t* s,size_t n,int fl,size_t sl,const wchar_t* f,...){ va_list a; va_start(a,f); int r=__wrap___vswprintf_chk(s,n,fl,sl,f,a); va_end(a); return r; }
int __wrap___isoc23_swscanf(const wchar_t* s,const wchar_t* f,...){ touchStr(s,(size_t)-1); va_list a; va_start(a,f); int r=vswscanf(s,f,a); va_end(a); return r; }
int __wrap___isoc99_swscanf(const wchar_t* s,const wchar_t* f,...){ touchStr(s,(size_t)-1); va_list a; va_start(a,f); int r=vswscanf(s,f,a); va_end(a); return r; }
int __wrap_swscanf(const wchar_t* s,const wchar_t* f,...){ touchStr(s,(size_t)-1); va_list a; va_start(a,f); int r=vswscanf(s,f,a); va_end(a); return r; }
#define NUM1(ret,name) ret __real_##name(const wchar_t*,wchar_t**); ret __wrap_##name(const wchar_t* s,wchar_t** e){ touchStr(s,(size_t)-1); return __real_##name(s,e); }
#define NUM2(ret,name) ret __real_##name(const wchar_t*,wchar_t**,int); ret __wrap_##name(const wchar_t* s,wchar_t** e,int b){ touchStr(s,(size_t)-1); return __real_##name(s,e,b); }
NUM1(double,wcstod) NUM1(float,wcstof) NUM1(long double,wcstold)
NUM2(long,wcstol) NUM2(long long,wcstoll) NUM2(unsigned long,wcstoul) NUM2(unsigned long long,wcstoull)
NUM2(long,__isoc23_wcstol) NUM2(long long,__isoc23_wcstoll) NUM2(unsigned long,__isoc23_wcstoul) NUM2(unsigned long long,__isoc23_wcstoull)
wchar_t* __real_wmemcpy(wchar_t*,const wchar_t*,size_t); wchar_t* __real_wmemmove(wchar_t*,const wchar_t*,size_t); wchar_t* __real_wmemset(wchar_t*,wchar_t,size_t); int __real_wmemcmp(const wchar_t*,const wchar_t*,size_t);
wchar_t* __wrap_wmemcpy(wchar_t* d,const wchar_t* s,size_t n){ touchW(s,n); touchW(d,n); return __real_wmemcpy(d,s,n); }
wchar_t* __wrap___wmemcpy_chk(wchar_t* d,const wchar_t* s,size_t n,size_t){ return __wrap_wmemcpy(d,s,n); }
wchar_t* __wrap_wmemmove(wchar_t* d,const wchar_t* s,size_t n){ touchW(s,n); touchW(d,n); return __real_wmemmove(d,s,n); }
wchar_t* __wrap___wmemmove_chk(wchar_t* d,const wchar_t* s,size_t n,size_t){ return __wrap_wmemmove(d,s,n); }
wchar_t* __wrap_wmemset(wchar_t* d,wchar_t c,size_t n){ touchW(d,n); return __real_wmemset(d,c,n); }
wchar_t* __wrap___wmemset_chk(wchar_t* d,wchar_t c,size_t n,size_t){ return __wrap_wmemset(d,c,n); }
int __wrap_wmemcmp(const wchar_t* a,const wchar_t* b,size_t n){ touchW(a,n); touchW(b,n); return __real_wmemcmp(a,b,n); }
wchar_t* __wrap_wmemchr(const wchar_t* s,wchar_t c,size_t n){ for(size_t i=0;i<n;++i) if(((const volatile wchar_t*)s)[i]==c) return (wchar_t*)s+i; return nullptr; }
wchar_t* __wrap_wcscpy(wchar_t* d,const wchar_t* s){ size_t n=wcslen(s)+1; touchW(d,n); return __real_wmemmove(d,s,n); }
wchar_t* __wrap___wcscpy_chk(wchar_t* d,const wchar_t* s,size_t){ return __wrap_wcscpy(d,s); }
wchar_t* __wrap_wcpcpy(wchar_t* d,const wchar_t* s){ size_t n=wcslen(s); __wrap_wcscpy(d,s); return d+n; }
wchar_t* __wrap_wcsncpy(wchar_t* d,const wchar_t* s,size_t n){ touchStr(s,n); touchW(d,n); size_t i=0; for(;i<n&&s[i];++i) d[i]=s[i]; for(;i<n;++i) d[i]=0; return d; }
wchar_t* __wrap___wcsncpy_chk(wchar_t* d,const wchar_t* s,size_t n,size_t){ return __wrap_wcsncpy(d,s,n); }
int __wrap_wcsncmp(const wchar_t* a,const wchar_t* b,size_t n){ for(size_t i=0;i<n;++i){ wchar_t x=((const volatile wchar_t*)a)[i],y=((const volatile wchar_t*)b)[i]; if(x!=y) return x<y?-1:1; if(!x) break; } return 0; }
int __wrap_wcscmp(const wchar_t* a,const wchar_t* b){ return __wrap_wcsncmp(a,b,(size_t)-1); }
#define STR2(ret,name) ret __real_##name(const wchar_t*,const wchar_t*); ret __wrap_##name(const wchar_t* a,const wchar_t* b){ touchStr(a,(size_t)-1); touchStr(b,(size_t)-1); return __real_##name(a,b); }
STR2(int,wcscoll) STR2(int,wcscasecmp) STR2(size_t,wcsspn) STR2(size_t,wcscspn)
wchar_t* __wrap_wcschr(const wchar_t* s,wchar_t c){ for(;;++s){ wchar_t x=*(const volatile wchar_t*)s; if(x==c) return (wchar_t*)s; if(!x) return nullptr; } }
wchar_t* __wrap_wcsrchr(const wchar_t* s,wchar_t c){ const wchar_t* r=nullptr; for(;;++s){ wchar_t x=*(const volatile wchar_t*)s; if(x==c) r=s; if(!x) return (wchar_t*)r; } }
wchar_t* __real_wcsstr(const wchar_t*,const wchar_t*); wchar_t* __wrap_wcsstr(const wchar_t* a,const wchar_t* b){ touchStr(a,(size_t)-1); touchStr(b,(size_t)-1); return __real_wcsstr(a,b); }
}
#endif
