// helpers for the discrete NSE spectrum
#pragma once
#include "api.hpp"
namespace nb {
using std::vector;
typedef fnft_nse_discretization_t D_t;
// discretization used by Newton's method and for the norming constants
inline int base_disc(int d){ if(ref::is_slow(d)) return d; return d>=fnft_nse_discretization_4SPLIT4A&&d<=fnft_nse_discretization_4SPLIT4B? fnft_nse_discretization_CF4_2: fnft_nse_discretization_BO; }
struct Afun { int disc; const vector<cd>&q; const double*T; int kappa=1; cl operator()(cl l)const{ return ref::nse_ab((D_t)disc,q,T,kappa,l).a; } };
template<class Fn> cl deriv(const Fn&f,cl l,ld r){ cl s=0; for(int k=0;k<8;k++){ cl e=std::exp(ref::J*(ref::PI*k/4)); s+=f(l+r*e)/e; } return s/(8*r); }
// Newton/secant polish in long double; returns false if it does not settle near the start
template<class Fn> bool polish(const Fn&f,cl&l,ld maxmove,ld r=1e-4L){ cl x=l; for(int it=0;it<30;it++){ cl d=deriv(f,x,r); if(std::abs(d)==0) return false; cl st=f(x)/d; x-=st; if(!(std::abs(x-l)<=maxmove)) return false; if(std::abs(st)<1e-15L*(1+std::abs(x))){ l=x; return true; } } return false; }
// number of zeros in the rectangle by the argument principle; -1 if a zero is too close to the contour
template<class Fn> int winding(const Fn&f,double x0,double x1,double y0,double y1,double h,double tiny){
    ld total=0; bool bad=false; auto seg=[&](auto&&self,cl za,cl fa,cl zb,cl fb,int depth)->void{ if(bad) return; if(std::abs(fb)<tiny){ bad=true; return; } ld da=std::arg(fb/fa); if(depth>=1&&fabsl(da)<0.7L&&std::abs(fb)<6*std::abs(fa)&&std::abs(fa)<6*std::abs(fb)){ total+=da; return; } if(depth>14){ bad=true; return; } cl zm=(za+zb)/(ld)2; cl fm=f(zm); if(std::abs(fm)<tiny){ bad=true; return; } if(depth==0&&fabsl(da)<0.7L){ ld d1=std::arg(fm/fa),d2=std::arg(fb/fm); if(fabsl(d1+d2-da)<1e-6L&&fabsl(d1)<0.7L&&fabsl(d2)<0.7L){ total+=da; return; } } self(self,za,fa,zm,fm,depth+1); self(self,zm,fm,zb,fb,depth+1); };
    cl cor[5]={cl(x0,y0),cl(x1,y0),cl(x1,y1),cl(x0,y1),cl(x0,y0)}; cl fz=f(cor[0]); if(std::abs(fz)<tiny) return -1; cl z=cor[0];
    for(int e=0;e<4&&!bad;e++){ ld len=std::abs(cor[e+1]-cor[e]); int n=std::max(2,(int)ceill(len/h)); for(int k=1;k<=n&&!bad;k++){ cl zn=cor[e]+(cor[e+1]-cor[e])*((ld)k/n); cl fn=f(zn); seg(seg,z,fz,zn,fn,0); z=zn; fz=fn; } }
    if(bad) return -1; ld w=total/(2*ref::PI); if(fabsl(w-roundl(w))>0.05L) return -1; return (int)roundl(w); }
inline double l2(const vector<cd>&q,double eps){ double s=0; for(auto&x:q) s+=std::norm(x)*eps; return s; }
}
