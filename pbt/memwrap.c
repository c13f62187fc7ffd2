// Allocation bookkeeping and fault injection for code linked with --wrap=malloc,calloc,realloc,free
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "memwrap.h"
extern void*__real_malloc(size_t); extern void*__real_calloc(size_t,size_t); extern void*__real_realloc(void*,size_t); extern void __real_free(void*);
_Thread_local struct mw mw;
static int slot(void*p){ uintptr_t h=((uintptr_t)p>>4)*0x9E3779B97F4A7C15ull; return (int)(h>>(64-MW_BITS)); }
static void add(void*p){ if(mw.live>MW_N/2) return; int i=slot(p); while(mw.tab[i]) i=(i+1)&(MW_N-1); mw.tab[i]=p; mw.live++; }
static int del(void*p){ if(!mw.live||!p) return 0; int i=slot(p); while(mw.tab[i]&&mw.tab[i]!=p) i=(i+1)&(MW_N-1); if(!mw.tab[i]) return 0; mw.tab[i]=0; mw.live--; for(int j=(i+1)&(MW_N-1);mw.tab[j];j=(j+1)&(MW_N-1)){ void*q=mw.tab[j]; mw.tab[j]=0; int k=slot(q); while(mw.tab[k]) k=(k+1)&(MW_N-1); mw.tab[k]=q; } return 1; }
static int deny(void){ mw.count++; if(mw.fail_at&&(mw.count==mw.fail_at||(mw.fail_rest&&mw.count>mw.fail_at))){ mw.failed++; return 1; } return 0; }
static void fill(unsigned char*p,size_t n){ unsigned s=mw.pattern; if(!s) return; if(s==1) memset(p,0xFF,n); else for(size_t i=0;i<n;i++){ s=s*1103515245u+12345u; p[i]=s>>16; } }
void*__wrap_malloc(size_t n){ if(!mw.on) return __real_malloc(n); if(deny()) return 0; void*p=__real_malloc(n?n:1); if(p){ fill(p,n); add(p); } return p; }
void*__wrap_calloc(size_t a,size_t b){ if(!mw.on) return __real_calloc(a,b); if(deny()) return 0; void*p=__real_calloc(a?a:1,b?b:1); if(p) add(p); return p; }
void*__wrap_realloc(void*o,size_t n){ if(!mw.on) return __real_realloc(o,n); if(deny()) return 0; int t=del(o); void*p=__real_realloc(o,n?n:1); if(p) add(p); else if(t) add(o); return p; }
void __wrap_free(void*p){ if(mw.live) del(p); __real_free(p); }
void*mw_plain_malloc(size_t n){ return __real_malloc(n); } void*mw_plain_calloc(size_t a,size_t b){ return __real_calloc(a,b); } void*mw_plain_realloc(void*p,size_t n){ return __real_realloc(p,n); } void mw_plain_free(void*p){ __real_free(p); }
