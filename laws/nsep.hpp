// helpers for the periodic NSE laws
#pragma once
#include "nse_bs.hpp"
namespace np {
using std::vector; using pbt::Case; using api::Nsep;
typedef fnft_nse_discretization_t D_t;
static thread_local int warned_conv=0, warned_full=0;
inline int hook(const char*fmt,...){ va_list ap; va_start(ap,fmt); char b[2000]; vsnprintf(b,sizeof b,fmt,ap); va_end(ap); if(strstr(b,"did not converge")) warned_conv++; if(strstr(b,"Returning as many")) warned_full++; return 0; }
inline void hook_init(){ fnft_errwarn_setprintf(hook); }
struct HookReg { HookReg(){ pbt::worker_init=hook_init; } };
struct Mono { int disc; vector<cd> q; double eps; int kappa; ref::M2 M(cl l)const{ ref::M2 H; ref::nse_transfer((D_t)disc,q,eps,kappa,l,H); return H; } cl tr(cl l)const{ auto H=M(l); return H[0]+H[3]; } cl b(cl l)const{ return M(l)[1]; } };
// discretizations supported by the fast methods of fnft_nsep
inline int fastdisc(Case&c,int maxdeg=1000){ int d; do d=(int)c.draw(21); while(ref::is_slow(d)||ref::degree(d)>maxdeg); return d; }
// periodic potential from a few harmonics
struct Trig { vector<cd> c; vector<int> k; double L,t0; cd operator()(double t)const{ cd s=0; for(size_t i=0;i<c.size();i++) s+=c[i]*std::polar(1.0,2*M_PI*k[i]*(t-t0)/L); return s; } double amp()const{ double a=0; for(auto&x:c) a+=std::abs(x); return a; } };
inline Trig trig(Case&c,double T0,double L,double maxAL){ Trig t; t.L=L; t.t0=T0; int n=1+(int)c.draw(3); double a=maxAL/L*c.real(0.05,1)/n; for(int i=0;i<n;i++){ t.k.push_back((int)c.range(0,4)-2); t.c.push_back(std::polar(a*c.real(0.2,1),c.real(0,6.283))); } return t; }
inline vector<cd> samp(const Trig&f,const double*T,size_t D){ vector<cd> q(D); for(size_t i=0;i<D;i++) q[i]=f(T[0]+(T[1]-T[0])*i/D); return q; }
inline size_t p2(Case&c,int lo,int hi){ return (size_t)1<<c.range(lo,hi); }
}
