// Independent reference computations (long double), written from the mathematical definitions.
#pragma once
#include "fnftpp.hpp"
#include <vector>
#include <array>
#include <functional>
#include <algorithm>

namespace ref {
using std::vector;
typedef std::array<cl,4> M2;   // row major
static const ld PI=3.14159265358979323846264338327950288L;
static const cl J(0,1);
inline M2 mul(const M2&a,const M2&b){ return { a[0]*b[0]+a[1]*b[2], a[0]*b[1]+a[1]*b[3], a[2]*b[0]+a[3]*b[2], a[2]*b[1]+a[3]*b[3] }; }
inline M2 add(const M2&a,const M2&b,cl s=1){ return {a[0]+s*b[0],a[1]+s*b[1],a[2]+s*b[2],a[3]+s*b[3]}; }
inline M2 scale(const M2&a,cl s){ return {a[0]*s,a[1]*s,a[2]*s,a[3]*s}; }
inline M2 eye(){ return {1,0,0,1}; }
// sinh(k)/k
inline cl sinhc(cl k){ if(std::abs(k)<0.05L){ cl x=k*k, t=1,s=1; for(int n=1;n<14;n++){ t*=x/(ld)((2*n)*(2*n+1)); s+=t; } return s; } return std::sinh(k)/k; }
// exp of a traceless 2x2 matrix [[a,b],[c,-a]]
inline M2 expm0(cl a,cl b,cl c){ cl k=std::sqrt(a*a+b*c); cl ch=std::cosh(k), s=sinhc(k); return {ch+s*a, s*b, s*c, ch-s*a}; }

// --- exponential splittings of exp(h*([-i l,0;0,i l]+[0,q;r,0])), from the literature
enum Scheme { MODAL,S1A,S1B,S2A,S2B,S2S,S3A,S3B,S3S,S4A,S4B,S5A,S5B,S6A,S6B,S7A,S7B,S8A,S8B, EXACT };
struct Split { cl l,q,r; ld h; M2 eA(ld f)const{ cl e=std::exp(-J*l*h*f); return {e,0,0,(cl)1/e}; } M2 eB(ld f)const{ return expm0(0,q*(h*f),r*(h*f)); } };
// symmetric n-fold Strang: (e^{A/2n} e^{B/n} e^{A/2n})^n  (swap exchanges the roles)
inline M2 strang(const Split&s,int n,bool swap){ ld f=1.0L/n; auto X=[&](ld g){return swap? s.eB(g):s.eA(g);}; auto Y=[&](ld g){return swap? s.eA(g):s.eB(g);}; M2 st=mul(mul(X(f/2),Y(f)),X(f/2)); M2 r=eye(); for(int i=0;i<n;i++) r=mul(r,st); return r; }
// one-sided n-fold composition used by the odd-order schemes: X(1/n) Y(2/n) X(2/n) ... Y(1/n)
Scheme scheme(int d);
M2 split_step(Scheme sc,cl l,cl q,cl r,ld h);

// Fourier (trigonometric) interpolation of D equispaced samples, shifted by `shift` samples
vector<cl> trig_shift(const vector<cl>&q,ld shift);

struct AB { cl a,b; };
// scattering data of q for the NSE-type problem with r=-kappa*conj(q) and the named discretization
struct Steps { vector<cl> q,r; vector<ld> hq; };   // generic list of exponential substeps
extern thread_local double g_prefix; // largest entry of any partial product since last reset
bool nse_transfer(fnft_nse_discretization_t disc,const vector<cd>&q,double eps,int kappa,cl lambda,M2&out);
void nse_steps(fnft_nse_discretization_t disc,const vector<cd>&q,ld eps,int kappa,cl lambda,vector<M2>&S); // per-step matrices, first step first
AB nse_ab(fnft_nse_discretization_t disc,const vector<cd>&q,const double T[2],int kappa,cl lambda);

// error amplification of the polynomial form: largest prefix product over a full period of the discrete frequency
double cond(fnft_nse_discretization_t disc,const vector<cd>&q,double eps,int kappa);
// accurate solution of the continuous ZS problem for an analytic potential, window [t0,t1]
typedef std::function<cd(double)> Fun;
void zs_true(const Fun&q,double t0,double t1,int N,int kappa,const vector<cd>&lam,vector<cd>&a,vector<cd>&b);
bool is_slow(int d); int order(int d); const char*name(int d);
int degree(int d);   // polynomial degree per sample used by the fast discretizations (0 for slow ones), documentation value
// KdV (disc 0..27 with r=-1, 28..55 with q=-1)
void kdv_transfer(int disc,const vector<cd>&q,double eps,cl xi,M2&S); void kdv_steps(int disc,const vector<cd>&q,ld eps,cl xi,vector<M2>&S); AB kdv_ab(int disc,const vector<cd>&q,const double T[2],cl xi); double kdv_cond(int disc,const vector<cd>&q,double eps); const char*kdv_name(int d);
typedef std::function<double(double)> RFun; void kdv_true(const RFun&q,double t0,double t1,int N,const vector<cd>&xi,vector<cd>&a,vector<cd>&b);
// Manakov system v_t=[[-il,q1,q2],[-k q1*,il,0],[-k q2*,0,il]]v, disc = fnft_manakov_discretization_t
typedef std::array<cl,9> M3; struct AB3 { cl a,b1,b2; };
void mana_steps(int disc,const vector<cd>&q1,const vector<cd>&q2,ld eps,int kappa,cl lambda,vector<M3>&S); M3 mana_transfer(int disc,const vector<cd>&q1,const vector<cd>&q2,ld eps,int kappa,cl lambda);
AB3 mana_ab(int disc,const vector<cd>&q1,const vector<cd>&q2,const double T[2],int kappa,cl lambda); double mana_cond(int disc,const vector<cd>&q1,const vector<cd>&q2,double eps,int kappa); const char*mana_name(int d); int mana_degree(int d); int mana_up(int d); int mana_order(int d); bool mana_slow(int d);
void mana_true(const Fun&q1,const Fun&q2,double t0,double t1,int N,int kappa,const vector<cd>&lam,vector<cd>&a,vector<cd>&b1,vector<cd>&b2);
}
