#pragma once
#define MW_BITS 14
#define MW_N (1<<MW_BITS)
struct mw { int on; unsigned long count,fail_at,failed; int fail_rest; unsigned pattern; int live; void*tab[MW_N]; };
#ifdef __cplusplus
extern "C" thread_local struct mw mw;
#else
extern _Thread_local struct mw mw;
#endif
