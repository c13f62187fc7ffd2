// C17: polynomial root finders and spectral factorization
#include "api.hpp"
#include "shim.hpp"
using namespace pbt; using std::vector;
static api::QuietReg qr;
static const double EPS=2.2e-16;
static cl L(cd x){ return cl(x.real(),x.imag()); }
static cd D_(cl x){ return cd((double)x.real(),(double)x.imag()); }
typedef vector<cl> P;
static P mulroot(const P&a,cl r){ P o(a.size()+1,cl(0)); for(size_t i=0;i<a.size();i++){ o[i]+=a[i]; o[i+1]-=r*a[i]; } return o; }
static cl ev(const P&p,cl z){ cl v=0; for(auto&x:p) v=v*z+x; return v; }
static ld n2(const P&p){ ld s=0; for(auto&x:p) s+=std::norm(x); return sqrtl(s); }
// rebuild prod(z-r_i) in long double, Leja-like ordering is not needed at these degrees when large roots enter as 1-z/r
static P rebuild(const vector<cd>&r){ vector<cd> s=r; std::sort(s.begin(),s.end(),[](cd a,cd b){ return std::abs(a)<std::abs(b); }); P p={cl(1)}; // big roots: (1-z/r), small ones: (z-r)
    // interleave by angle bits for stability
    vector<cd> t; size_t n=s.size(); for(size_t k=0;k<n;k++) t.push_back(s[k]); std::sort(t.begin(),t.end(),[](cd a,cd b){ return std::arg(a)<std::arg(b); }); vector<cd> u; size_t step=1; while(step*step<n) step++; for(size_t o=0;o<step;o++) for(size_t k=o;k<n;k+=step) u.push_back(t[k]);
    for(auto x:u){ if(std::isinf(x.real())||std::isinf(x.imag())){ P o(p.size()+1,cl(0)); for(size_t i=0;i<p.size();i++) o[i+1]=p[i]; p=o; continue; } if(std::abs(x)<=1) p=mulroot(p,L(x)); else { P o(p.size()+1,cl(0)); cl ir=(cl)1/L(x); for(size_t i=0;i<p.size();i++){ o[i]+=-ir*p[i]; o[i+1]+=p[i]; } p=o; } ld m=0; for(auto&y:p) m=std::max(m,std::abs(y)); for(auto&y:p) y/=m; }
    return p; }
LAW("C17",all_roots_with_small_backward_error,40000,800000,"degree at least three"){
    size_t deg=c.chance(0.15)?c.draw(2):3+c.draw(c.chance(0.2)?120:24); int kind=(int)c.draw(5); size_t lead=c.chance(0.15)?c.draw(3):0,trail=c.chance(0.15)?c.draw(3):0; if(lead+trail>deg) c.discard(); size_t d=deg-lead-trail; P w(d+1); double spread=c.chance(0.3)?c.real(0,12):1;
    switch(kind){ case 0: for(auto&x:w) x=cl(c.sreal(1),c.sreal(1)); break; case 1: for(auto&x:w) x=L(std::polar(c.logreal(pow(10,-spread),1),c.real(0,6.28))); break; case 2: for(auto&x:w) x=cl((double)c.range(-3,3),c.chance(0.3)?(double)c.range(-2,2):0); break;
      case 3: { P p={cl(1)}; for(size_t i=0;i<d;i++) p=mulroot(p,std::polar(1.0L,(ld)c.real(0,6.2831853))); w=p; break; }
      case 4: { for(size_t i=0;i<=d/2;i++){ w[i]=cl(c.sreal(1),c.sreal(1)); w[d-i]=std::conj(w[i]); } if(d%2==0) w[d/2]=w[d/2].real(); break; }
      default: { double rho=c.logreal(0.05,20); for(size_t i=0;i<=d;i++) w[i]=cl(c.sreal(1),c.sreal(1))*(ld)pow(rho,(double)i*std::min(1.0,12.0/(d+1))); } }
    double scale=c.chance(0.3)?pow(10.0,c.sreal(100)):1; vector<cd> p(deg+1,cd(0)); for(size_t i=0;i<=d;i++) p[lead+i]=D_(w[i]*(ld)scale); if(p[lead]==0.0||p[lead+d]==0.0){ if(kind!=2) c.discard(); }
    size_t l0=0; while(l0<deg&&p[l0]==0.0) l0++; bool zero=true; for(auto&x:p) zero&=x==0.0; if(zero) c.discard(); ld nn=0,mx=0; for(auto&x:p){ mx=std::max<ld>(mx,std::abs(L(x))); } P pn; for(auto&x:p) pn.push_back(L(x)/mx); nn=n2(pn); ld lc=std::abs(pn[l0]); size_t t0=0; while(t0<deg-l0&&p[deg-t0]==0.0) t0++; ld tc=std::abs(pn[deg-t0]);
    c.info("deg=%zu kind=%d leading zeros=%zu trailing zeros=%zu scale=%g p={",deg,kind,l0,t0,scale); for(size_t i=0;i<p.size()&&i<9;i++) c.info("%.17g%+.17gi ",p[i].real(),p[i].imag()); c.info("}"); c.label(strf("kind%d",kind)); if(l0) c.label("leading zeros"); if(t0) c.label("trailing zeros"); if(lc<1e-6) c.label("small leading coefficient");
    vector<cd> r(deg+2,api::SENT); auto p0=p; int rc=fnft__poly_roots_fasteigen(deg,F(p.data()),F(r.data())); if(rc) c.fail("error code %d",rc); if(p!=p0) c.fail("coefficients were modified"); if(r[deg+1]!=api::SENT) c.fail("wrote beyond deg+1 entries"); r.resize(deg); if(deg>=3) c.nontrivial();
    size_t ninf=0,nz=0; for(size_t i=0;i<deg;i++){ if(r[i]==api::SENT) c.fail("root %zu was not written",i); if(std::isnan(r[i].real())||std::isnan(r[i].imag())) c.fail("root %zu is NaN",i); bool inf=std::isinf(r[i].real())||std::isinf(r[i].imag()); if(inf){ ninf++; if(i<deg-l0) c.fail("root %zu is infinite, but only %zu leading coefficients are zero",i,l0); } nz+=r[i]==0.0; } if(ninf!=l0) c.fail("%zu infinite roots for %zu vanishing leading coefficients",ninf,l0); if(nz<t0) c.fail("%zu roots are zero although %zu trailing coefficients are",nz,t0);
    if(kind==1&&spread>3&&d>40) return; // coefficients over many orders of magnitude: only a weaker backward error is claimed below
    P b=rebuild(r); // best scalar fit
    cl num=0; ld den=0; for(size_t i=0;i<=deg;i++){ num+=std::conj(b[i])*pn[i]; den+=std::norm(b[i]); } cl s=num/den; ld e=0; for(size_t i=0;i<=deg;i++) e+=std::norm(pn[i]-s*b[i]); e=sqrtl(e)/nn; ld K=nn/std::max(lc,1e-30L); ld tol=EPS*300*(1+deg)*std::max(1.0L,K); c.label(strf("slack %d",e>0?(int)floor(log10((double)(e/tol))):-99)); if(tol<0.1L&&!(e<=tol)) c.fail("polynomial with the returned roots differs from the input by %.3Lg relative (tolerance %.3Lg, |leading|/norm=%.3Lg, trailing %.3Lg)",e,tol,lc/nn,tc/nn);
}
struct Circ { P p; vector<double> th; vector<ld> ph; };
static double wrap(double a){ while(a>M_PI) a-=2*M_PI; while(a<-M_PI) a+=2*M_PI; return a; }
// unit-circle roots with pairwise separation >= sep, plus other roots away from the circle
static bool angles(Case&c,size_t n,double sep,vector<double>&th){ for(size_t i=0;i<n;i++){ bool ok=false; for(int t=0;t<8&&!ok;t++){ double a=c.sreal(M_PI); ok=true; for(auto x:th) ok&=fabs(wrap(a-x))>=sep; if(ok) th.push_back(a); } } return !th.empty(); }
LAW("C17",paraherm_gridsearch_returns_exactly_the_roots_on_the_arc,40000,800000,"at least one root on the arc"){
    size_t m=1+c.draw(8); size_t M=(size_t)c.logreal(4,3000); double a0=c.chance(0.3)?-M_PI:c.sreal(M_PI),len=c.chance(0.3)?2*M_PI:c.real(0.2,2*M_PI); double PHI[2]={a0,a0+len}; double eps=len/(M-1); double sep=2.5*eps; if(sep>1) c.discard(); vector<double> th; if(!angles(c,2*m,sep,th)) c.discard(); if(th.size()%2) th.pop_back(); size_t npair=c.draw(3); if(th.empty()&&!npair) c.discard(); P p={cl(1)}; ld ph=0; for(auto x:th){ p=mulroot(p,std::polar(1.0L,(ld)x)); ph+=x/2; } vector<cl> off; for(size_t i=0;i<npair;i++){ double rho=c.real(0.2,0.9),al=c.sreal(M_PI); cl r=std::polar((ld)rho,(ld)al); p=mulroot(p,r); p=mulroot(p,(cl)1/std::conj(r)); ph+=al; off.push_back(r); }
    size_t deg=p.size()-1; cl u=std::polar((ld)c.logreal(1e-3,1e3),-ph); vector<cd> pd(deg+1); P q; ld nrm=0; for(size_t i=0;i<=deg;i++){ pd[i]=D_(p[i]*u); q.push_back(L(pd[i])); nrm+=std::abs(q[i]); }
    c.info("deg=%zu M=%zu PHI=[%.17g,%.17g] roots on the circle at",deg,M,PHI[0],PHI[1]); for(auto x:th) c.info(" %.9g",x); auto f=[&](double t){ return (ev(q,std::polar(1.0L,(ld)t))*std::polar(1.0L,-(ld)t*(ld)(deg/2))).real(); };
    vector<double> in; for(auto x:th){ double k=0; for(int j=-3;j<=3;j++){ double y=x+2*M_PI*j; if(y>PHI[0]-1e-9&&y<PHI[1]+1e-9){ double fr=(y-PHI[0])/eps; if(fabs(fr-round(fr))<1e-3||fr<1e-3||fr>M-1-1e-3) c.discard(); in.push_back(y); } } double h=1e-4*std::min(eps,0.05); ld der=fabsl(f(x+h)-f(x-h))/(2*h); if(EPS*20*(deg+log2((double)M))*nrm>1e-3L*der*eps) c.discard(); }
    // between roots the function must stay above rounding at the grid points next to no root: guaranteed by the separation
    vector<cd> r(M+1,api::SENT); FNFT_UINT Mn=M; int rc=fnft__poly_roots_fftgridsearch_paraherm(deg,F(pd.data()),&Mn,PHI,F(r.data())); if(rc) c.fail("error code %d",rc); if(r[M]!=api::SENT) c.fail("wrote beyond M entries"); if(!in.empty()) c.nontrivial(); c.label(in.size()==th.size()?"all on the arc":in.empty()?"none on the arc":"some on the arc"); std::sort(in.begin(),in.end());
    if(Mn!=in.size()) c.fail("%zu roots returned, %zu lie on the arc",(size_t)Mn,in.size()); vector<double> got; for(size_t i=0;i<Mn;i++){ if(!(fabs(std::abs(r[i])-1)<1e-12)) c.fail("result %zu has modulus %.15g",i,std::abs(r[i])); }
    for(size_t i=0;i<Mn;i++){ double best=9; size_t bj=0; for(size_t j=0;j<in.size();j++){ double e=fabs(wrap(std::arg(r[i])-in[j])); if(e<best) best=e,bj=j; } (void)bj; if(!(best<=eps*1.0001)) c.fail("result %zu at angle %.9g is %.3g grid steps from the closest root",i,std::arg(r[i]),best/eps); }
    for(auto y:in){ double best=9; for(size_t i=0;i<Mn;i++) best=std::min(best,fabs(wrap(std::arg(r[i])-y))); double lo=PHI[0]+floor((y-PHI[0])/eps)*eps; ld d1=1e300,d2=0; for(int k=0;k<=4;k++){ double t=lo+k*eps/4,h=eps/64; ld g1=(f(t+h)-f(t-h))/(2*h),g2=(f(t+h)-2*f(t)+f(t-h))/(h*(ld)h); d1=std::min(d1,fabsl(g1)); d2=std::max(d2,fabsl(g2)); } double tol=std::min((double)(eps*eps/8*d2/d1)*1.6+1e-3*eps,1.0001*eps); if(!(best<=tol)) c.fail("root at angle %.12g is missed by %.3g (grid step %.3g, second-order bound %.3g)",y,best,eps,tol); }
}
LAW("C17",gridsearch_returns_the_isolated_roots_on_the_arc,30000,500000,"at least one root on the arc"){
    size_t M=(size_t)c.logreal(16,3000); double a0=c.chance(0.3)?-M_PI:c.sreal(M_PI),len=c.real(0.2,2*M_PI); double PHI[2]={a0,a0+len}; double eps=len/(M-1); double sep=12*eps; if(sep>0.8) c.discard(); vector<double> th; if(!angles(c,1+c.draw(7),sep,th)) c.discard(); size_t no=c.draw(5); P p={cl(1)}; for(auto x:th) p=mulroot(p,std::polar(1.0L,(ld)x)); for(size_t i=0;i<no;i++){ double g=c.real(0,1); double rho=c.chance(0.5)?(1+sep)*(1+g):std::max(0.0,1-sep)*(1-g); p=mulroot(p,std::polar((ld)rho,(ld)c.sreal(M_PI))); } size_t deg=p.size()-1; if(deg<2) c.discard(); cl u=std::polar((ld)c.logreal(1e-3,1e3),(ld)c.sreal(3)); P q; vector<cd> pd; ld nrm=0; for(auto&x:p){ pd.push_back(D_(x*u)); q.push_back(L(pd.back())); nrm+=std::abs(q.back()); }
    c.info("deg=%zu M=%zu PHI=[%.17g,%.17g] roots on the circle at",deg,M,PHI[0],PHI[1]); for(auto x:th) c.info(" %.9g",x); vector<double> in,may; for(auto x:th){ P dq; for(size_t i=0;i<deg;i++) dq.push_back(q[i]*(ld)(deg-i)); if(EPS*20*(deg+log2((double)M))*nrm>1e-3L*std::abs(ev(dq,std::polar(1.0L,(ld)x)))*eps) c.discard(); for(int j=-3;j<=3;j++){ double y=x+2*M_PI*j; if(y>PHI[0]+eps*0.6&&y<PHI[1]-0.6*eps) in.push_back(y); else if(y>PHI[0]-2*eps&&y<PHI[1]+2*eps) may.push_back(y); } }
    vector<cd> r(M+1,api::SENT); FNFT_UINT Mn=M; int rc=fnft__poly_roots_fftgridsearch(deg,F(pd.data()),&Mn,PHI,F(r.data())); if(rc) c.fail("error code %d",rc); if(r[M]!=api::SENT) c.fail("wrote beyond M entries"); if(!in.empty()) c.nontrivial(); c.label(in.size()==th.size()?"all on the arc":in.empty()?"none on the arc":"some on the arc"); if(Mn<in.size()||Mn>in.size()+may.size()) { bool tie=false; for(auto y:in){ double fr=(y-PHI[0])/eps-0.5; tie|=fabs(fr-round(fr))<0.05; } if(!(tie&&Mn>=in.size()&&Mn<=2*in.size()+may.size())) c.fail("%zu roots returned, %zu lie on the arc (%zu at its ends)",(size_t)Mn,in.size(),may.size()); }
    auto near=[&](cd z){ double b=9; for(auto x:th) b=std::min(b,std::abs(z-std::polar(1.0,x))); return b; }; for(size_t i=0;i<Mn;i++) if(!(near(r[i])<=0.35*eps)) c.fail("result %zu, %.12g%+.12gi, is %.3g grid steps from the closest root",i,r[i].real(),r[i].imag(),near(r[i])/eps); for(auto y:in){ double b=9; for(size_t i=0;i<Mn;i++) b=std::min(b,std::abs(r[i]-std::polar(1.0,y))); if(!(b<=0.35*eps)) c.fail("root at angle %.12g is missed by %.3g grid steps",y,b/eps); }
}
static void fft2(vector<cd>&a){ size_t n=a.size(); for(size_t i=1,j=0;i<n;i++){ size_t b=n>>1; for(;j&b;b>>=1) j^=b; j^=b; if(i<j) std::swap(a[i],a[j]); } for(size_t l=2;l<=n;l<<=1){ vector<cd> w(l/2); for(size_t k=0;k<l/2;k++) w[k]=std::polar(1.0,-2*M_PI*k/l); for(size_t i=0;i<n;i+=l) for(size_t k=0;k<l/2;k++){ cd u=a[i+k],v=a[i+k+l/2]*w[k]; a[i+k]=u+v; a[i+k+l/2]=u-v; } } }
LAW("C17",spectral_factor_has_the_magnitude_and_its_zeros_on_one_side,30000,500000,"degree at least one and aliasing below 1e-6"){
    size_t deg=1+c.draw(c.chance(0.2)?60:12); size_t ov=(size_t)c.logreal(2,200); int kappa=(int)c.range(-1,1); int kind=(int)c.draw(2); double sc=c.logreal(0.01,5); vector<cd> p(deg+1); if(kind==0) for(auto&x:p) x=cd(c.sreal(1),c.sreal(1)); else if(kind==1){ double rho=c.real(0.4,1); for(size_t i=0;i<=deg;i++) p[i]=cd(c.sreal(1),c.sreal(1))*pow(rho,(double)i); } else { P w={cl(1)}; for(size_t i=0;i<deg;i++){ double g=c.real(0.05,0.8); w=mulroot(w,std::polar((ld)(c.chance(0.5)?1+g:1-g),(ld)c.sreal(M_PI))); } for(size_t i=0;i<=deg;i++) p[i]=D_(w[i]); } double n1=0; for(auto&x:p) n1+=std::abs(x); if(n1==0) c.discard(); if(kappa) for(auto&x:p) x*=(kappa>0? std::min(sc,0.95): sc)/n1*(kappa<0?3:1);
    size_t M=shim_fftlen((deg+1)*ov); size_t N=4096; while(N<8*M) N*=2; vector<cd> v(N,cd(0)); for(size_t i=0;i<=deg;i++) v[i]=p[i]; fft2(v); vector<double> mag(N); double mn=1e300,mx=0; for(size_t i=0;i<N;i++){ double a=std::norm(v[i]); double m= kappa==0?a: kappa>0?1-a: 1+a; if(!(m>1e-12)) c.discard(); mag[i]=sqrt(m); mn=std::min(mn,mag[i]); mx=std::max(mx,mag[i]); } vector<cd> x(N); for(size_t i=0;i<N;i++) x[i]=log(mag[i]); fft2(x); double tail=0; for(size_t k=M/2-1;k<=N/2;k++) tail+=2*std::abs(x[k])/N; double cl1=0; for(size_t k=1;k<=N/2;k++) cl1+=2*std::abs(x[k])/N;
    c.info("deg=%zu oversampling=%zu kappa=%d kind=%d M=%zu min|H|=%.3g max|H|=%.3g aliasing=%.3g p0=%g%+gi",deg,ov,kappa,kind,M,mn,mx,tail,p[0].real(),p[0].imag()); vector<cd> r(deg+2,api::SENT); auto p0=p; int rc=fnft__poly_specfact(deg,F(p.data()),F(r.data()),ov,kappa); if(rc) c.fail("error code %d",rc); if(p!=p0) c.fail("coefficients were modified"); if(r[deg+1]!=api::SENT) c.fail("wrote beyond deg+1 entries"); r.resize(deg+1); for(auto&y:r) if(!(std::isfinite(y.real())&&std::isfinite(y.imag()))) c.fail("result is not finite"); double tol=mx*(4*tail*sqrt((double)deg+2)+EPS*(200+60*cl1)*sqrt((double)(deg+1))); if(kappa>0) tol+=EPS*100*(deg+1)/mn; if(kappa==0) tol+=EPS*100*(deg+1)*n1/mn*mx; if(tail<1e-6) c.nontrivial(); c.label(kappa==0?"plain":kappa>0?"1-|P|^2":"1+|P|^2"); if(tol>0.3*mn) return;
    // magnitude on the circle (on the fine grid)
    vector<cd> h(N,cd(0)); for(size_t i=0;i<=deg;i++) h[i]=r[i]; fft2(h); double worst=0; size_t wi=0; for(size_t i=0;i<N;i++){ double e=fabs(std::abs(h[i])-mag[i]); if(e>worst) worst=e,wi=i; } c.label(strf("slack %d",worst>0?(int)floor(log10(worst/tol)):-99)); if(!(worst<=tol)) c.fail("magnitude %.12g at point %zu/%zu of the unit circle, should be %.12g (error %.3g, tolerance %.3g)",std::abs(h[wi]),wi,N,mag[wi],worst,tol);
    // coefficients are given from the highest power (as everywhere in the library) or lowest: all zeros must lie on one side, so the phase winding is 0 or deg
    double turn=0; for(size_t i=0;i<N;i++) turn+=std::arg(h[(i+1)%N]/h[i]); int wn=(int)lround(-turn/(2*M_PI)); c.label(strf("winding %s",wn==(int)deg?"deg":wn==0?"0":"mixed")); if(wn!=(int)deg) c.fail("the factor has %d of its %zu zeros on the wrong side of the unit circle",(int)deg-wn,deg);
}
