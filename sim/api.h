// C interface between the simulator executable and the shared object that holds the library under test.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <time.h>
enum OpCode {
#define OP(n,s) OP_##n,
#include "ops.def"
#undef OP
  OP_COUNT
};
enum { K_OK=0, K_EXC=1, K_OOM=2, K_FOREIGN=3, K_SKIP=4, K_ESCAPED=5 };
enum { NREG=12, NRAW=64, MAXTEXT=6000, NULLR=15 };        // register NULLR in an argument position that permits it is a null reference
enum { RK_S=0, RK_B=1, RK_A=2, RK_E=3, RK_O=4 };   // register kinds for 'o' arguments: kind*64+index
// argument positions where the library checks for (or gives a meaning to) a null reference
static inline int nullOk(int op,int pos){
  switch(op*8+pos){
#define N1(o,p) case OP_##o*8+p:
  N1(S_FROMARR,1) N1(S_CMPTO_S,1) N1(S_CMPTO_O,1) N1(S_CONCAT_A,1) N1(S_CONCAT1,1) N1(S_CONCAT2,1) N1(S_CONCAT2,2) N1(S_CONCAT3,1) N1(S_CONCAT3,2) N1(S_CONCAT3,3)
  N1(S_CONCAT5,1) N1(S_CONCAT5,2) N1(S_CONCAT5,3) N1(S_CONCAT5,4) N1(S_CONCAT5,5) N1(S_CONCAT7,2) N1(S_CONCAT7,3) N1(S_CONCAT7,4) N1(S_CONCAT7,5) N1(S_CONCAT7,6) N1(S_CONCAT7,7)
  N1(S_COPY,1) N1(S_COPYTO,2) N1(S_ENDS,1) N1(S_STARTS,1) N1(S_EQ_S,1) N1(S_EQ_O,1) N1(S_EQ_SO,0) N1(S_EQ_SO,1) N1(S_EQ_OS,0) N1(S_EQ_OS,1) N1(S_EQ_SS,0) N1(S_EQ_SS,1) N1(S_NE,0) N1(S_NE,1)
  N1(S_IDX_S,1) N1(S_IDX_S1,1) N1(S_IDX_S2,1) N1(S_IDXANY,1) N1(S_IDXANY1,1) N1(S_IDXANY2,1) N1(S_INSERT,3) N1(S_ISEMPTY,0) N1(S_ISWS,0) N1(S_JOIN_C,2) N1(S_JOIN_S,2)
  N1(S_LIDX_S0,1) N1(S_LIDX_S1,1) N1(S_LIDX_S,1) N1(S_LIDXANY0,1) N1(S_LIDXANY,1) N1(S_REPS,2) N1(S_REPS,3) N1(S_TRIMA,2) N1(S_TRIMS,2) N1(S_TRIME,2)
  N1(B_NEWS,1) N1(B_NEWSC,1) N1(B_NEWSS,1) N1(B_APP_A0,1) N1(B_APP_A,1) N1(B_EQ,1) N1(B_INS_A,2) N1(B_REPS,1) N1(B_REPS,2) N1(B_REPSR,1) N1(B_REPSR,2)
  N1(A_ADDRSETO,4) N1(A_CLEAR,0) N1(A_COPY,0) N1(A_COPY,1) N1(A_COPYI,0) N1(A_COPYI,2) N1(A_CCOPY,0) N1(A_CCOPY,2) N1(A_COPYTO,1) N1(A_GETVA,2) N1(A_SETV,0) N1(A_SETVA,0) N1(A_SETVA,2)
  N1(A_IDXOF0,0) N1(A_IDXOF0,1) N1(A_IDXOF,0) N1(A_IDXOF,1) N1(F_COPY,0) N1(F_COPY,2) N1(F_LEN,0) N1(F_GET,0) N1(F_SET,0) N1(V_TO,1) N1(V_STR0,1) N1(V_STR,1)
  N1(O_CMP,1) N1(O_EQ,1) N1(O_EQS,0) N1(O_EQS,1) N1(P_PARSE,1) N1(P_TRY,1) N1(P_TRYI,1) N1(C_CLASSS,1) N1(D_CMPO,1)
#undef N1
    return 1; }
  return 0;
}
struct Op { int32_t code; int64_t a[8]; int32_t failAt; int32_t failSticky; int32_t caught; };
struct Res { int32_t kind; int32_t nv; int64_t v[8]; int32_t hasText; int32_t textLen; wchar_t text[MAXTEXT];
             char exc[96]; int32_t excMsg;
             int32_t user; };   // an exception the program itself raised inside this call: 1 came out, 2 another came out instead, 3 it vanished
// what the simulator provides to the library under test
struct HostApi {
  void* (*h_malloc)(size_t); void (*h_free)(void*); void* (*h_calloc)(size_t,size_t); void* (*h_realloc)(void*,size_t);
  void* (*h_new)(size_t, void* (*real)(size_t)); void (*h_delete)(void*, void (*real)(void*));
  int64_t (*h_now)(int which);                 // one clock read, in ns since 1970
  int (*h_next)(Op*);                          // program asks for its next step; 0 = program finished
  void (*h_begin)(const Op*); void (*h_done)(const Op*, const Res*);
  const wchar_t* (*h_lit)(int); void* (*h_buf)(int,int64_t* size);
  void* (*h_scratch)(size_t); void (*h_scratchFree)(void*);   // the simulator's own memory, with guards, not counted
  void (*h_dirty)(void);                       // fill the dead stack below with garbage
  void (*h_residue)(void*,size_t);             // what a variable holds before anything is written to it
};
// what the shared object provides
struct LibApi {
  int (*init)(const HostApi*);              // 0 = seams could not be installed
  void (*exec)(const Op*, Res*);               // direct call, outside any run
  int  (*run)(void);                           // one run; 0 = returned, 1 = an exception came out of Run
  int  (*inspS)(int r, wchar_t* out, int max, int* nulterm);
  int  (*inspB)(int r, wchar_t* out, int max, int* cap, int* maxcap);
  int  (*inspA)(int r, int* type, int* dims, uint8_t* out, int max);
  int  (*inspAText)(int r, int i, wchar_t* out, int max);
  int  (*inspO)(int r, int64_t* bits);         // type of the boxed value, and its value
  int  (*refIs)(int a, int i, int rk);         // does element i of array a refer to the object in that register?
  void (*forget)(void);                        // drop all registers (a run's objects are gone)
  int32_t* (*arrayData)(void); double* (*doubleData)(void);
  int (*sameObj)(int rk1, int rk2);
};
typedef const LibApi* (*ad_entry_t)(void);
