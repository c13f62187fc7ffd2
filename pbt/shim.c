// C-side access to the library's inline helpers
#include "fnft__fft_wrapper.h"
#include "fnft__misc.h"
#include "fnft__errwarn.h"
typedef FNFT_COMPLEX C;
int shim_fft(FNFT_UINT n,const C*in,C*out,int inv,int reuse){ fnft__fft_wrapper_plan_t p=fnft__fft_wrapper_safe_plan_init(); C*a=fnft__fft_wrapper_malloc(n*sizeof(C)),*b=fnft__fft_wrapper_malloc(n*sizeof(C)); int rc=fnft__fft_wrapper_create_plan(&p,n,a,b,inv); for(int k=0;!rc&&k<=reuse;k++){ for(FNFT_UINT i=0;i<n;i++) a[i]=in[i]; rc=fnft__fft_wrapper_execute_plan(p,a,b); } for(FNFT_UINT i=0;!rc&&i<n;i++) out[i]=b[i]; fnft__fft_wrapper_destroy_plan(&p); fnft__fft_wrapper_destroy_plan(&p); fnft__fft_wrapper_free(a); fnft__fft_wrapper_free(b); return rc; }
FNFT_UINT shim_fftlen(FNFT_UINT n){ return fnft__fft_wrapper_next_fft_length(n); }
int shim_fft_bad(int which){ fnft__fft_wrapper_plan_t p=fnft__fft_wrapper_safe_plan_init(); C a[4],b[4]; int rc; if(which==0) return fnft__fft_wrapper_create_plan(NULL,4,a,b,1); if(which==1) rc=fnft__fft_wrapper_create_plan(&p,0,a,b,1); else if(which==2) rc=fnft__fft_wrapper_create_plan(&p,4,a,b,0); else return fnft__fft_wrapper_execute_plan(p,a,b); return rc; }
void shim_csinc(const C*z,C*s,C*d){ *s=fnft__misc_CSINC(*z); *d=fnft__misc_CSINC_derivative(*z); }
void shim_matmult(FNFT_UINT n,FNFT_UINT m,FNFT_UINT p,C*A,C*B,C*out){ fnft__misc_matrix_mult(n,m,p,A,B,out); }
void shim_mult2(C*U,C*T){ fnft__misc_mat_mult_2x2(U,T); }
void shim_mult4(C*U,C*T){ fnft__misc_mat_mult_4x4(U,T); }
double shim_legendre(FNFT_UINT n,double x){ return fnft__misc_legendre_poly(n,x); }
int shim_normalize(FNFT_UINT n,C*v){ return fnft__misc_normalize_vector(n,v); }
