#pragma once
#include "fnftpp.hpp"
extern "C" { int shim_fft(FNFT_UINT n,const FNFT_COMPLEX*in,FNFT_COMPLEX*out,int inv,int reuse); FNFT_UINT shim_fftlen(FNFT_UINT n); int shim_fft_bad(int which); void shim_csinc(const FNFT_COMPLEX*z,FNFT_COMPLEX*s,FNFT_COMPLEX*d); void shim_matmult(FNFT_UINT n,FNFT_UINT m,FNFT_UINT p,FNFT_COMPLEX*A,FNFT_COMPLEX*B,FNFT_COMPLEX*out); void shim_mult2(FNFT_COMPLEX*U,FNFT_COMPLEX*T); void shim_mult4(FNFT_COMPLEX*U,FNFT_COMPLEX*T); double shim_legendre(FNFT_UINT n,double x); int shim_normalize(FNFT_UINT n,FNFT_COMPLEX*v); }
