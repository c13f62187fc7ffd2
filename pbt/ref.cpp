#include "ref.hpp"
namespace ref {
static M2 odd2(const Split&s,int n,bool swap){ auto X=[&](ld g){return swap? s.eB(g):s.eA(g);}; auto Y=[&](ld g){return swap? s.eA(g):s.eB(g);}; M2 r=eye(); int m=(n+1)/2; for(int i=0;i<m;i++){ ld fx=(i==0?1.0L:2.0L)/n, fy=(i==m-1?1.0L:2.0L)/n; r=mul(mul(r,X(fx)),Y(fy)); } return r; }
static M2 comb(std::initializer_list<std::pair<ld,M2>> l){ M2 r={0,0,0,0}; for(auto&p:l) r=add(r,p.second,p.first); return r; }
M2 split_step(Scheme sc,cl l,cl q,cl r,ld h){
    Split s{l,q,r,h};
    switch(sc){
    case MODAL: { cl Q=q*h,R=r*h; cl d=std::sqrt((cl)1-Q*R); cl e=std::exp(-J*l*h); return {e/d,Q/d,R/d,(cl)1/e/d}; }
    case S1A: return odd2(s,1,false);
    case S1B: return odd2(s,1,true);
    case S2A: return strang(s,1,false);
    case S2B: return strang(s,1,true);
    case S2S: return comb({{0.5L,odd2(s,1,false)},{0.5L,odd2(s,1,true)}});
    case S3A: case S3B: return comb({{9.0L/8,odd2(s,3,sc==S3B)},{-1.0L/8,odd2(s,1,sc==S3B)}});
    case S3S: return comb({{2.0L/3,strang(s,1,false)},{2.0L/3,strang(s,1,true)},{-1.0L/6,odd2(s,1,false)},{-1.0L/6,odd2(s,1,true)}});
    case S4A: case S4B: return comb({{4.0L/3,strang(s,2,sc==S4B)},{-1.0L/3,strang(s,1,sc==S4B)}});
    case S5A: case S5B: return comb({{625.0L/384,odd2(s,5,sc==S5B)},{-81.0L/128,odd2(s,3,sc==S5B)},{1.0L/192,odd2(s,1,sc==S5B)}});
    case S6A: case S6B: return comb({{81.0L/40,strang(s,3,sc==S6B)},{-16.0L/15,strang(s,2,sc==S6B)},{1.0L/24,strang(s,1,sc==S6B)}});
    case S7A: case S7B: return comb({{117649.0L/46080,odd2(s,7,sc==S7B)},{-15625.0L/9216,odd2(s,5,sc==S7B)},{729.0L/5120,odd2(s,3,sc==S7B)},{-1.0L/9216,odd2(s,1,sc==S7B)}});
    case S8A: case S8B: return comb({{1024.0L/315,strang(s,4,sc==S8B)},{-729.0L/280,strang(s,3,sc==S8B)},{16.0L/45,strang(s,2,sc==S8B)},{-1.0L/360,strang(s,1,sc==S8B)}});
    case EXACT: return expm0(-J*l*h,q*h,r*h);
    }
    return eye();
}
vector<cl> trig_shift(const vector<cl>&q,ld shift){
    size_t D=q.size(); vector<cl> X(D),y(D); vector<cl> w(D); for(size_t k=0;k<D;k++) w[k]=std::exp(-J*(2*PI*(ld)k/(ld)D));
    for(size_t k=0;k<D;k++){ cl s=0; for(size_t n=0;n<D;n++) s+=q[n]*w[(k*n)%D]; X[k]=s; }
    for(size_t k=0;k<D;k++){ ld f= k<(D+1)/2? (ld)k: (ld)k-(ld)D; X[k]*=std::exp(J*(2*PI*f*shift/(ld)D)); }
    for(size_t n=0;n<D;n++){ cl s=0; for(size_t k=0;k<D;k++) s+=X[k]*std::conj(w[(k*n)%D]); y[n]=s/(ld)D; }
    return y;
}
struct Row { const char*n; Scheme sc; int deg, up, ord; };
static const Row rows[28]={ {"2SPLIT2_MODAL",MODAL,1,1,2},{"BO",EXACT,0,1,2},{"2SPLIT1A",S1A,1,1,2},{"2SPLIT1B",S1B,1,1,2},{"2SPLIT2A",S2A,1,1,2},{"2SPLIT2B",S2B,1,1,2},{"2SPLIT2S",S2S,1,1,2},{"2SPLIT3A",S3A,3,1,2},{"2SPLIT3B",S3B,3,1,2},{"2SPLIT3S",S3S,2,1,2},{"2SPLIT4A",S4A,4,1,2},{"2SPLIT4B",S4B,2,1,2},{"2SPLIT5A",S5A,15,1,2},{"2SPLIT5B",S5B,15,1,2},{"2SPLIT6A",S6A,12,1,2},{"2SPLIT6B",S6B,6,1,2},{"2SPLIT7A",S7A,105,1,2},{"2SPLIT7B",S7B,105,1,2},{"2SPLIT8A",S8A,24,1,2},{"2SPLIT8B",S8B,12,1,2},{"4SPLIT4A",S4A,4,2,4},{"4SPLIT4B",S4B,2,2,4},{"CF4_2",EXACT,0,2,4},{"CF4_3",EXACT,0,3,4},{"CF5_3",EXACT,0,3,5},{"CF6_4",EXACT,0,4,6},{"ES4",EXACT,0,3,4},{"TES4",EXACT,0,3,4} };
const char*name(int d){ return rows[d].n; } int order(int d){ return rows[d].ord; } int degree(int d){ return rows[d].deg*rows[d].up; } bool is_slow(int d){ return rows[d].deg==0; }
Scheme scheme(int d){ return rows[d].sc; }
// CF weights: substep i uses sum_m w[i][m]*A(t_m) over Gauss-Legendre nodes
static vector<vector<cl>> cf_weights(int d){
    const ld s15=std::sqrt(15.0L);
    if(d==fnft_nse_discretization_CF4_2||d==fnft_nse_discretization_4SPLIT4A||d==fnft_nse_discretization_4SPLIT4B){ ld x=1/std::sqrt(3.0L); return {{(0.5L+x)/2,(0.5L-x)/2},{(0.5L-x)/2,(0.5L+x)/2}}; }
    if(d==fnft_nse_discretization_CF4_3){ // Blanes & Moan optimized CF4 with 3 exponentials, Legendre moments integrated by Gauss quadrature
        ld f[3][3]={{11.0L/40,20.0L/87,7.0L/50},{9.0L/20,0,-7.0L/25},{11.0L/40,-20.0L/87,7.0L/50}}; ld wm[3]={5.0L/18,4.0L/9,5.0L/18}; ld xm[3]={std::sqrt(0.6L),0,-std::sqrt(0.6L)};
        vector<vector<cl>> w(3,vector<cl>(3)); for(int i=0;i<3;i++) for(int m=0;m<3;m++){ ld x=xm[m]; ld P[3]={1,x,(3*x*x-1)/2}; ld s=0; for(int n=0;n<3;n++) s+=(2*n+1)*P[n]*f[i][n]; w[i][m]=s*wm[m]; } return w; }
    if(d==fnft_nse_discretization_CF5_3){ cl a((145+37*s15)/900,(5+3*s15)/300), b(-1.0L/45,1.0L/15), c((145-37*s15)/900,(5-3*s15)/300), e(-2.0L/45,-s15/50); return {{a,b,c},{e,22.0L/45,std::conj(e)},{std::conj(c),std::conj(b),std::conj(a)}}; }
    if(d==fnft_nse_discretization_CF6_4){ cl a(0.245985577298764L,0.038734389227165L),b(-0.046806149832549L,0.012442141491185L),c(0.010894359342569L,-0.004575808769067L),e(0.062868370946917L,-0.048761268117765L),f(0.269028372054771L,-0.012442141491185L),g(-0.041970529810473L,0.014602687659668L); return {{a,b,c},{e,f,g},{g,f,e},{c,b,a}}; }
    return {};
}
thread_local double g_prefix=1;
static inline void track(const M2&H){ for(auto&x:H){ double v=(double)std::abs(x); if(v>g_prefix) g_prefix=v; } }
// mode 0: NSE (q=x, r=-kappa conj x); 1: KdV with r=-1 (q=x); 2: KdV with q=-1 (r=x)
struct Map { int mode; ld kp; cl q(cl x)const{ return mode==2?cl(-1):x; } cl r(cl x)const{ return mode==0? kp*std::conj(x): mode==1? cl(-1): x; } cl dq(cl x)const{ return mode==2?cl(0):x; } cl dr(cl x)const{ return mode==0? kp*std::conj(x): mode==1? cl(0): x; } };
template<class CB> static void for_steps(fnft_nse_discretization_t disc,const vector<cd>&qd,ld eps,Map mp,cl lambda,CB cb){
    size_t D=qd.size(); static thread_local vector<cl> q; q.resize(D); for(size_t i=0;i<D;i++) q[i]=cl(qd[i].real(),qd[i].imag()); ld h=eps; int d=disc;
    Scheme sc=rows[d].sc;
    if(rows[d].up==1){ for(size_t n=0;n<D;n++) cb(split_step(sc,lambda,mp.q(q[n]),mp.r(q[n]),h)); return; }
    auto w=cf_weights(d);
    if(!w.empty()){
        size_t m=w[0].size(); ld x= m==2? std::sqrt(3.0L)/6 : std::sqrt(15.0L)/10; static thread_local vector<cl> last; static thread_local vector<vector<cl>> nodes; static thread_local ld lastx=0;
        if(last!=q||lastx!=x){ nodes.clear(); nodes.push_back(trig_shift(q,-x)); if(m==3) nodes.push_back(q); nodes.push_back(trig_shift(q,x)); last=q; lastx=x; }
        for(size_t n=0;n<D;n++) for(auto&wi:w){ cl s=0,qq=0,rr=0; for(size_t k=0;k<m;k++){ s+=wi[k]; qq+=wi[k]*mp.q(nodes[k][n]); rr+=wi[k]*mp.r(nodes[k][n]); }
            M2 U; if(sc==EXACT) U=expm0(-J*lambda*h*s,qq*h,rr*h); else U=split_step(sc,lambda,qq/s,rr/s,h*s.real()); cb(U); }
        return; }
    // ES4 / TES4: fourth-order Magnus with central differences (zero outside the window)
    for(size_t n=0;n<D;n++){ cl qm=n?q[n-1]:0, qp=n+1<D?q[n+1]:0; cl d1=(qp-qm)/(2*h), d2=(qp-(ld)2*q[n]+qm)/(h*h); cl q0=mp.q(q[n]),q1=mp.dq(d1),q2=mp.dq(d2),r0=mp.r(q[n]),r1=mp.dr(d1),r2=mp.dr(d2);
        if(disc==fnft_nse_discretization_ES4){ // Omega = h A + h^3/24 A'' - h^3/12 [A,A'],  A=[-il,q;r,il]
            cl A0=-J*lambda; // [A,A'] = A A' - A' A
            cl c11=q0*r1-q1*r0, c12=(cl)2*A0*q1, c21=-(cl)2*A0*r1; ld h3=h*h*h; 
            cb(expm0(h*A0-h3/12*c11, h*q0+h3/24*q2-h3/12*c12, h*r0+h3/24*r2-h3/12*c21));
        } else { ld h2=h*h,h3=h2*h; M2 L=expm0(0,h2/12*q1+h3/48*q2,h2/12*r1+h3/48*r2), R=expm0(0,-h2/12*q1+h3/48*q2,-h2/12*r1+h3/48*r2); cb(mul(L,mul(expm0(-J*lambda*h,q0*h,r0*h),R))); }
    }
}
bool nse_transfer(fnft_nse_discretization_t disc,const vector<cd>&q,double eps,int kappa,cl lambda,M2&H){ H=eye(); for_steps(disc,q,eps,Map{0,(ld)-kappa},lambda,[&](const M2&U){ H=mul(U,H); track(H); }); return true; }
void nse_steps(fnft_nse_discretization_t disc,const vector<cd>&q,ld eps,int kappa,cl lambda,vector<M2>&S){ S.clear(); for_steps(disc,q,eps,Map{0,(ld)-kappa},lambda,[&](const M2&U){ S.push_back(U); }); }
AB nse_ab(fnft_nse_discretization_t disc,const vector<cd>&q,const double T[2],int kappa,cl lambda){
    ld eps=((ld)T[1]-(ld)T[0])/(ld)(q.size()-1); M2 H; nse_transfer(disc,q,(double)eps,kappa,lambda,H); ld t0=T[0]-eps/2,t1=T[1]+eps/2;
    return { H[0]*std::exp(J*lambda*(t1-t0)), H[2]*std::exp(-J*lambda*(t1+t0)) };
}
// KdV: transfer matrix in the basis psi = alpha exp(-i xi t) + beta exp(i xi t), and per-step matrices in that basis
static M2 toS(const M2&H,cl xi,bool vanilla){ M2 P=vanilla? M2{2.0L*J*xi,0,1,1}: M2{1,1,0,-2.0L*J*xi}; cl d=P[0]*P[3]-P[1]*P[2]; M2 Pi={P[3]/d,-P[1]/d,-P[2]/d,P[0]/d}; return mul(Pi,mul(H,P)); }
void kdv_transfer(int disc,const vector<cd>&q,double eps,cl xi,M2&S){ M2 H=eye(); bool van=disc<28; for_steps((fnft_nse_discretization_t)(disc%28),q,eps,Map{van?1:2,0},xi,[&](const M2&U){ H=mul(U,H); track(H); }); S=toS(H,xi,van); }
void kdv_steps(int disc,const vector<cd>&q,ld eps,cl xi,vector<M2>&S){ S.clear(); bool van=disc<28; for_steps((fnft_nse_discretization_t)(disc%28),q,eps,Map{van?1:2,0},xi,[&](const M2&U){ S.push_back(toS(U,xi,van)); }); }
AB kdv_ab(int disc,const vector<cd>&q,const double T[2],cl xi){ ld eps=((ld)T[1]-(ld)T[0])/(ld)(q.size()-1); M2 H; kdv_transfer(disc,q,(double)eps,xi,H); ld t0=T[0]-eps/2,t1=T[1]+eps/2; return { H[0]*std::exp(J*xi*(t1-t0)), H[2]*std::exp(-J*xi*(t1+t0)) }; }
double kdv_cond(int disc,const vector<cd>&q,double eps){
    int d=disc%28; double m=1; int dg=std::max(1,rows[d].deg); ld h=eps/rows[d].up; if(!rows[d].deg) return 1; Map mp{disc<28?1:2,0};
    for(int k=0;k<dg;k++) for(ld off: {0.0L,0.03L,0.5L}){ ld xi=PI/h*(k+off); M2 H=eye(); cl lam(xi,0); bool have=false; M2 S; cl prev; for(size_t n=0;n<q.size();n++){ cl qq(q[n].real(),q[n].imag()); if(!have||qq!=prev){ S=split_step(rows[d].sc,lam,mp.q(qq),mp.r(qq),h); have=true; prev=qq; } for(int u=0;u<rows[d].up;u++) H=mul(S,H); ld v=0; for(auto&x:H) v=std::max(v,std::abs(x)); m=std::max(m,(double)v);} }
    return m; }
const char*kdv_name(int d){ static char b[56][40]; if(!b[d][0]) snprintf(b[d],40,"%s%s",rows[d%28].n,d<28?"_VANILLA":""); return b[d]; }
double cond(fnft_nse_discretization_t disc,const vector<cd>&q,double eps,int kappa){
    int d=disc; double m=1; int dg=std::max(1,rows[d].deg); ld h=eps/rows[d].up; if(!rows[d].deg) return 1;
    // splittings resonate where the partial flows of the linear part are +-identity, i.e. near xi*h = pi*m
    for(int k=0;k<dg;k++) for(ld off: {0.0L,0.03L,0.5L}){ ld xi=PI/h*(k+off); M2 H=eye(); cl lam(xi,0); bool have=false; M2 S; cl prev; for(size_t n=0;n<q.size();n++){ cl qq(q[n].real(),q[n].imag()); if(!have||qq!=prev){ S=split_step(rows[d].sc,lam,qq,-(ld)kappa*std::conj(qq),h); have=true; prev=qq; } for(int u=0;u<rows[d].up;u++) H=mul(S,H); ld v=0; for(auto&x:H) v=std::max(v,std::abs(x)); m=std::max(m,(double)v);} }
    return m; }
// --- continuous problem: CF4 with Gauss nodes, Richardson-extrapolated to order 6
static void zs_cf4(const Fun&q,double t0,double t1,int N,int kappa,const vector<cd>&lam,vector<std::array<cd,2>>&out){
    double h=(t1-t0)/N; const double x=sqrt(3.0)/6,w1=0.5+1/sqrt(3.0),w2=0.5-1/sqrt(3.0); out.assign(lam.size(),{cd(1),cd(0)}); 
    auto stp=[&](cd qq,cd rr,double hh,cd l,std::array<cd,2>&v){ cd k2=qq*rr-l*l; cd k=std::sqrt(k2)*hh; cd ch=std::cosh(k),sh=std::abs(k)<1e-3? hh*(1.0+k*k/6.0+k*k*k*k/120.0): hh*std::sinh(k)/k; cd il(-l.imag(),l.real()); cd a=(ch-il*sh)*v[0]+qq*sh*v[1]; cd b=rr*sh*v[0]+(ch+il*sh)*v[1]; v={a,b}; };
    for(int n=0;n<N;n++){ double tc=t0+(n+0.5)*h; cd qa=q(tc-x*h),qb=q(tc+x*h); cd q1=w1*qa+w2*qb,q2=w2*qa+w1*qb; double kp=-kappa; cd r1=kp*std::conj(q1),r2=kp*std::conj(q2); for(size_t i=0;i<lam.size();i++){ stp(q1,r1,h/2,lam[i],out[i]); stp(q2,r2,h/2,lam[i],out[i]); } }
}
void zs_true(const Fun&q,double t0,double t1,int N,int kappa,const vector<cd>&lam,vector<cd>&a,vector<cd>&b){
    vector<std::array<cd,2>> A,B; zs_cf4(q,t0,t1,N,kappa,lam,A); zs_cf4(q,t0,t1,2*N,kappa,lam,B); a.resize(lam.size()); b.resize(lam.size()); cd I(0,1);
    for(size_t i=0;i<lam.size();i++){ cd x=(16.0*B[i][0]-A[i][0])/15.0, y=(16.0*B[i][1]-A[i][1])/15.0; a[i]=x*std::exp(I*lam[i]*(t1-t0)); b[i]=y*std::exp(-I*lam[i]*(t1+t0)); }
}
// --- continuous Schroedinger problem psi''+(q+xi^2)psi=0 by sixth-order extrapolated CF4 on (psi,psi')
static void kdv_cf4(const RFun&q,double t0,double t1,int N,const vector<cd>&xi,vector<std::array<cd,2>>&out){
    double h=(t1-t0)/N; const double x=sqrt(3.0)/6,w1=0.5+1/sqrt(3.0),w2=0.5-1/sqrt(3.0); cd I(0,1); out.resize(xi.size()); for(size_t i=0;i<xi.size();i++) out[i]={1.0,-I*xi[i]};
    auto stp=[&](double qq,double hh,cd l,std::array<cd,2>&v){ cd k2=-(qq+l*l); cd k=std::sqrt(k2)*hh; cd ch=std::cosh(k),sh=std::abs(k)<1e-3? hh*(1.0+k*k/6.0+k*k*k*k/120.0): hh*std::sinh(k)/k; cd a=ch*v[0]+sh*v[1]; cd b=k2*sh*v[0]+ch*v[1]; v={a,b}; };
    for(int n=0;n<N;n++){ double tc=t0+(n+0.5)*h; double qa=q(tc-x*h),qb=q(tc+x*h); double q1=w1*qa+w2*qb,q2=w2*qa+w1*qb; for(size_t i=0;i<xi.size();i++){ stp(q1,h/2,xi[i],out[i]); stp(q2,h/2,xi[i],out[i]); } }
}
void kdv_true(const RFun&q,double t0,double t1,int N,const vector<cd>&xi,vector<cd>&a,vector<cd>&b){
    vector<std::array<cd,2>> A,B; kdv_cf4(q,t0,t1,N,xi,A); kdv_cf4(q,t0,t1,2*N,xi,B); a.resize(xi.size()); b.resize(xi.size()); cd I(0,1);
    for(size_t i=0;i<xi.size();i++){ cd p=(16.0*B[i][0]-A[i][0])/15.0, d=(16.0*B[i][1]-A[i][1])/15.0; cd al=(p-d/(I*xi[i]))/2.0, be=(p+d/(I*xi[i]))/2.0; a[i]=al*std::exp(I*xi[i]*(t1-t0)); b[i]=be*std::exp(-I*xi[i]*(t1+t0)); }
}
// --- Manakov: every flow with constant (q1,q2) acts as the 2x2 NSE flow with |q| in the plane spanned by e0 and conj(q)/|q|
struct MRow { const char*n; Scheme sc; int deg,up,ord; };
static const MRow mrows[13]={ {"2SPLIT3A",S3A,6,1,2},{"2SPLIT3B",S3B,6,1,2},{"2SPLIT4A",S4A,8,1,2},{"2SPLIT4B",S4B,4,1,2},{"2SPLIT6B",S6B,12,1,2},{"4SPLIT4A",S4A,8,2,4},{"4SPLIT4B",S4B,4,2,4},{"4SPLIT6B",S6B,12,2,4},{"FTES4_4A",S4A,8,1,4},{"FTES4_4B",S4B,4,1,4},{"FTES4_suzuki",EXACT,14,1,4},{"CF4_2",EXACT,0,2,4},{"BO",EXACT,0,1,2} };
const char*mana_name(int d){ return mrows[d].n; } int mana_degree(int d){ return mrows[d].deg; } int mana_up(int d){ return mrows[d].up; } int mana_order(int d){ return mrows[d].ord; } bool mana_slow(int d){ return !mrows[d].deg; }
static M3 mul3(const M3&a,const M3&b){ M3 c; for(int i=0;i<3;i++) for(int j=0;j<3;j++){ cl s=0; for(int k=0;k<3;k++) s+=a[3*i+k]*b[3*k+j]; c[3*i+j]=s; } return c; }
static M3 eye3(){ return {1,0,0,0,1,0,0,0,1}; }
// embeds the 2x2 matrix computed by f(n) for the amplitude n=|q|; other: factor on the orthogonal complement
template<class F> static M3 embed(cl q1,cl q2,cl other,F f){ ld n=std::sqrt(std::norm(q1)+std::norm(q2)); cl v1=1,v2=0; if(n>0){ v1=std::conj(q1)/n; v2=std::conj(q2)/n; } M2 U=f(n); cl w1=std::conj(v1),w2=std::conj(v2); cl d=U[3]-other; return { U[0],U[1]*w1,U[1]*w2, U[2]*v1,d*v1*w1+other,d*v1*w2, U[2]*v2,d*v2*w1,d*v2*w2+other }; }
static M3 mflow(Scheme sc,cl l,cl q1,cl q2,int kappa,ld h){ return embed(q1,q2,std::exp(J*l*h),[&](ld n){ return split_step(sc,l,n,-(ld)kappa*n,h); }); }
static M3 expB(cl s1,cl s2,int kappa){ return embed(s1,s2,1,[&](ld n){ return expm0(0,n,-(ld)kappa*n); }); }
void mana_steps(int d,const vector<cd>&p1,const vector<cd>&p2,ld eps,int kappa,cl l,vector<M3>&S){
    size_t D=p1.size(); static thread_local vector<cl> q1,q2; q1.resize(D); q2.resize(D); for(size_t i=0;i<D;i++){ q1[i]=cl(p1[i].real(),p1[i].imag()); q2[i]=cl(p2[i].real(),p2[i].imag()); } S.clear(); auto&R=mrows[d];
    if(R.up==2){ static thread_local vector<cl> l1,l2; static thread_local vector<vector<cl>> nd; const ld x=std::sqrt(3.0L)/6; if(l1!=q1||l2!=q2){ nd={trig_shift(q1,0.5L-x),trig_shift(q1,0.5L+x),trig_shift(q2,0.5L-x),trig_shift(q2,0.5L+x)}; l1=q1; l2=q2; }
        ld a=0.5L+2*x,b=0.5L-2*x; for(size_t n=0;n<D;n++) for(int k=0;k<2;k++){ ld u=k?b:a,w=k?a:b; S.push_back(mflow(R.sc,l,u*nd[0][n]+w*nd[1][n],u*nd[2][n]+w*nd[3][n],kappa,eps/2)); } return; }
    bool ft=d>=8&&d<=10; for(size_t n=0;n<D;n++){ if(!ft){ S.push_back(mflow(R.sc,l,q1[n],q2[n],kappa,eps)); continue; }
        auto dd=[&](const vector<cl>&q,cl&f,cl&s){ cl qm=q[n?n-1:0],qp=q[n+1<D?n+1:D-1]; f=(qp-qm)*eps/24.0L; s=(qp-(ld)2*q[n]+qm)*eps/48.0L; }; cl f1,s1,f2,s2; dd(q1,f1,s1); dd(q2,f2,s2); M3 E1=expB(f1+s1,f2+s2,kappa),E2=expB(s1-f1,s2-f2,kappa),M;
        if(d==10){ cl ee=std::exp(J*l*eps/3.0L); auto A=[&](int p)->M3{ cl z=1; for(int i=0;i<std::abs(p);i++) z*=ee; if(p<0) z=(cl)1/z; return {(cl)1/z,0,0,0,z,0,0,0,z}; }; auto B=[&](ld f){ return expB(q1[n]*(f*eps),q2[n]*(f*eps),kappa); }; M3 m=B(7.0L/48); for(auto&x:{A(1),B(3.0L/8),A(-1),B(-1.0L/48),A(3),B(-1.0L/48),A(-1),B(3.0L/8),A(1),B(7.0L/48)}) m=mul3(m,x); M=m; }
        else M=mflow(R.sc,l,q1[n],q2[n],kappa,eps);
        S.push_back(mul3(E1,mul3(M,E2))); }
}
M3 mana_transfer(int d,const vector<cd>&q1,const vector<cd>&q2,ld eps,int kappa,cl l){ static thread_local vector<M3> S; mana_steps(d,q1,q2,eps,kappa,l,S); M3 H=eye3(); for(auto&U:S){ H=mul3(U,H); for(auto&x:H){ double v=(double)std::abs(x); if(v>g_prefix) g_prefix=v; } } return H; }
AB3 mana_ab(int d,const vector<cd>&q1,const vector<cd>&q2,const double T[2],int kappa,cl l){ ld eps=((ld)T[1]-(ld)T[0])/(ld)(q1.size()-1); M3 H=mana_transfer(d,q1,q2,eps,kappa,l); ld t0=T[0]-eps/2,t1=T[1]+eps/2; if(mrows[d].up==2){ t0=T[0]; t1=T[1]+eps; } cl p=std::exp(J*l*(t1-t0)),m=std::exp(-J*l*(t1+t0)); return { H[0]*p,H[3]*m,H[6]*m }; }
double mana_cond(int d,const vector<cd>&q1,const vector<cd>&q2,double eps,int kappa){ double m=1; int dg=mrows[d].deg; if(!dg) return 1; double sv=g_prefix; for(int k=0;k<dg;k++) for(ld off:{0.0L,0.03L,0.5L}){ ld h=d==10? eps/3.0L: eps*2.0L/(dg*mrows[d].up); g_prefix=1; mana_transfer(d,q1,q2,eps,kappa,cl(2*PI/h*((k+off)/dg),0)); m=std::max(m,g_prefix); } g_prefix=sv; return m; }
void mana_true(const Fun&f1,const Fun&f2,double t0,double t1,int N,int kappa,const vector<cd>&lam,vector<cd>&a,vector<cd>&b1,vector<cd>&b2){
    auto sol=[&](int N,vector<std::array<cd,3>>&out){ double h=(t1-t0)/N; const double x=sqrt(3.0)/6,w1=0.5+1/sqrt(3.0),w2=0.5-1/sqrt(3.0); out.assign(lam.size(),{cd(1),cd(0),cd(0)}); cd I(0,1);
        auto stp=[&](cd u,cd w,double hh,cd l,std::array<cd,3>&v){ double n2=std::norm(u)+std::norm(w); cd e=std::exp(I*l*hh); if(n2==0){ v={v[0]/e,v[1]*e,v[2]*e}; return; } double n=sqrt(n2); cd k=std::sqrt(-kappa*n2-l*l)*hh,ch=std::cosh(k),sh=std::abs(k)<1e-3? hh*(1.0+k*k/6.0+k*k*k*k/120.0): hh*std::sinh(k)/k; cd p=(u*v[1]+w*v[2])/n; cd o1=v[1]-p*std::conj(u)/n,o2=v[2]-p*std::conj(w)/n; cd A=(ch-I*l*sh)*v[0]+n*sh*p,P=-(double)kappa*n*sh*v[0]+(ch+I*l*sh)*p; v={A,P*std::conj(u)/n+o1*e,P*std::conj(w)/n+o2*e}; };
        for(int i=0;i<N;i++){ double tc=t0+(i+0.5)*h; cd a1=f1(tc-x*h),c1=f1(tc+x*h),a2=f2(tc-x*h),c2=f2(tc+x*h); for(size_t j=0;j<lam.size();j++){ stp(w1*a1+w2*c1,w1*a2+w2*c2,h/2,lam[j],out[j]); stp(w2*a1+w1*c1,w2*a2+w1*c2,h/2,lam[j],out[j]); } } };
    vector<std::array<cd,3>> A,B; sol(N,A); sol(2*N,B); a.resize(lam.size()); b1=b2=a; cd I(0,1); for(size_t i=0;i<lam.size();i++){ cd v[3]; for(int k=0;k<3;k++) v[k]=(16.0*B[i][k]-A[i][k])/15.0; cd p=std::exp(I*lam[i]*(t1-t0)),m=std::exp(-I*lam[i]*(t1+t0)); a[i]=v[0]*p; b1[i]=v[1]*m; b2[i]=v[2]*m; }
}
}
