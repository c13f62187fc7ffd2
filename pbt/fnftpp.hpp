#pragma once
#include <complex>
#include <cmath>
#include <cfloat>
#include <cstdint>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <cerrno>
extern "C" {
#include "complex.h"
}
#pragma push_macro("__cplusplus")
#undef __cplusplus
#define restrict __restrict
#define UINT FNFT_UINT
#define INT FNFT_INT
#define REAL FNFT_REAL
#define COMPLEX FNFT_COMPLEX
#define manakov_discretization_t fnft_manakov_discretization_t
extern "C" {
#include "fnft.h"
#include "fnft_nsev.h"
#include "fnft_nsep.h"
#include "fnft_nsev_inverse.h"
#include "fnft_kdvv.h"
#include "fnft_manakovv.h"
#include "fnft_errwarn.h"
#include "fnft_version.h"
#include "fnft__misc.h"
#include "fnft__poly_fmult.h"
#include "fnft__poly_chirpz.h"
#include "fnft__poly_eval.h"
#include "fnft__poly_roots_fasteigen.h"
#include "fnft__poly_roots_fftgridsearch.h"
#include "fnft__poly_specfact.h"
#include "fnft__akns_fscatter.h"
#include "fnft__akns_scatter.h"
#include "fnft__nse_fscatter.h"
#include "fnft__nse_scatter.h"
#include "fnft__nse_finvscatter.h"
#include "fnft__nse_discretization.h"
#include "fnft__kdv_fscatter.h"
#include "fnft__kdv_scatter.h"
#include "fnft__kdv_finvscatter.h"
#include "fnft__kdv_discretization.h"
#include "fnft__manakov_fscatter.h"
#include "fnft__manakov_scatter.h"
#include "fnft__manakov_discretization.h"
}
#pragma pop_macro("__cplusplus")
#undef complex
#undef I
#undef UINT
#undef INT
#undef REAL
#undef COMPLEX
#undef manakov_discretization_t
typedef std::complex<double> cd;
typedef std::complex<long double> cl;
typedef long double ld;
static inline FNFT_COMPLEX* F(cd*p){ return (FNFT_COMPLEX*)p; }
static inline const FNFT_COMPLEX* F(const cd*p){ return (const FNFT_COMPLEX*)p; }
static inline FNFT_COMPLEX FC(cd x){ FNFT_COMPLEX r; __real__ r=x.real(); __imag__ r=x.imag(); return r; }
static inline cd CF(FNFT_COMPLEX x){ return cd(__real__ x,__imag__ x); }
