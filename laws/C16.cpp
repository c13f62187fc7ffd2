// C16: fast polynomial and Fourier arithmetic equals the direct computation
#include "api.hpp"
#include "shim.hpp"
using namespace pbt; using std::vector;
static api::QuietReg qr;
static const double EPS=2.2e-16;
static cl L(cd x){ return cl(x.real(),x.imag()); }
static cd coef(Case&c,int kind){ switch(kind){ case 0: return cd(1+c.draw(3),0); case 1: return cd(c.sreal(1),c.sreal(1)); case 2: return std::polar(c.logreal(1e-9,1e3),c.real(0,6.28)); case 3: return c.chance(0.6)?cd(0):cd(c.sreal(2),c.sreal(2)); default: return std::polar(1.0,c.real(0,6.28)); } }
typedef vector<cl> P;
static P mulp(const P&a,const P&b){ P r(a.size()+b.size()-1,cl(0)); for(size_t i=0;i<a.size();i++) for(size_t j=0;j<b.size();j++) r[i+j]+=a[i]*b[j]; return r; }
static ld n1(const P&a){ ld s=0; for(auto&x:a) s+=std::abs(x); return s; }
// products of n m x m matrix polynomials of degree deg: m=1 scalar
static void fmult_law(Case&c,int m){
    size_t deg=c.chance(0.15)?0:1+c.draw(c.chance(0.2)?24:5); size_t n=2+c.draw(c.chance(0.3)?30:9); if(m==3&&n>14) n=14; while((deg*n)>160) n=n/2+1; int kind=(int)c.draw(4); bool norm=c.chance(0.5); bool wide=norm&&c.chance(0.4);
    size_t N= m==1?fnft__poly_fmult_numel(deg,n): m==2? fnft__poly_fmult2x2_numel(deg,n): fnft__poly_fmult3x3_numel(deg,n); vector<cd> p(N+3,cd(0)); size_t mm=m*m; vector<vector<P>> f(n,vector<P>(mm,P(deg+1)));
    for(size_t e=0;e<mm;e++) for(size_t i=0;i<n;i++){ for(size_t k=0;k<=deg;k++){ f[i][e][k]=L(coef(c,kind)); } }
    vector<int> sc(n,0); if(wide) for(auto&x:sc) x=(int)c.range(-200,200); vector<ld> nrm(n,0); ld lognorm=0; for(size_t i=0;i<n;i++){ ld s=ldexpl(1.0L,sc[i]); for(auto&q:f[i]) for(auto&x:q){ x*=s; } for(auto&q:f[i]) nrm[i]+=n1(q); lognorm+=log2l(nrm[i]); }
    for(size_t e=0;e<mm;e++) for(size_t i=0;i<n;i++) for(size_t k=0;k<=deg;k++) p[(e*n+i)*(deg+1)+k]=cd((double)f[i][e][k].real(),(double)f[i][e][k].imag()); for(size_t i=N;i<p.size();i++) p[i]=api::SENT;
    c.info("%dx%d n=%zu deg=%zu coefficients=%d normalized=%d wide=%d",m,m,n,deg,kind,norm,wide); if(lognorm<-1e4) c.discard(); // a factor vanishes identically
    if(!norm&&(lognorm>900||lognorm<-900)) c.discard(); c.label(norm?"normalized":"plain"); if((n&(n-1))!=0) c.label("padded"); if(wide) c.label("wide");
    FNFT_UINT d=deg; FNFT_INT W=12345; size_t rl=mm*(N/mm/(deg+1)/2)*(2*deg+1); vector<cd> r(std::max(N,rl)+3,api::SENT); int rc= m==1? fnft__poly_fmult(&d,n,F(p.data()),norm?&W:NULL): m==2? fnft__poly_fmult2x2(&d,n,F(p.data()),F(r.data()),norm?&W:NULL): fnft__poly_fmult3x3(&d,n,F(p.data()),F(r.data()),norm?&W:NULL);
    if(rc) c.fail("error code %d",rc); if(d!=deg*n) c.fail("reported degree %zu instead of %zu",(size_t)d,deg*n); for(size_t i=N;i<p.size();i++) if(p[i]!=api::SENT) c.fail("wrote beyond the input buffer"); if(m>1) for(size_t i=rl;i<r.size();i++) if(r[i]!=api::SENT) c.fail("wrote beyond the result buffer");
    const vector<cd>&out= m==1?p:r; vector<P> acc=f[0]; for(size_t i=1;i<n;i++){ vector<P> t(mm,P()); for(int a=0;a<m;a++) for(int b=0;b<m;b++){ P s; for(int k=0;k<m;k++){ P q=mulp(acc[a*m+k],f[i][k*m+b]); if(s.empty()) s=q; else for(size_t j=0;j<q.size();j++) s[j]+=q[j]; } t[a*m+b]=s; } acc=t; }
    ld mx=0; for(auto&q:acc) for(auto&x:q) mx=std::max(mx,std::abs(x)); ld tot=exp2l(lognorm); ld tol=EPS*tot*(8+6*log2((double)(deg*n+2)))*2; if(mx>20*tol&&deg>0) c.nontrivial(); ld s=norm?ldexpl(1.0L,W):1.0L; ld worst=0; for(size_t e=0;e<mm;e++) for(size_t k=0;k<=deg*n;k++){ cl x=L(out[e*(deg*n+1)+k])*s; ld er=std::abs(x-acc[e][k]); worst=std::max(worst,er); if(!(er<=tol)) c.fail("entry %zu, coefficient %zu: %.15Lg%+.15Lgi, direct product %.15Lg%+.15Lgi (error %.3Lg, product of norms %.3Lg)",e,k,x.real(),x.imag(),acc[e][k].real(),acc[e][k].imag(),er,tot); }
    if(norm&&mx>20*tol&&n==2){ ld v=0; for(size_t i=0;i<mm*(deg*n+1);i++) v=std::max<ld>(v,std::abs(out[i])); if(!(v>0.9999L&&v<2.0001L)) c.fail("largest normalized coefficient is %.6Lg",v); }
    c.label(strf("slack%d",worst>0?(int)floor(log10((double)(worst/tol))):-99));
}
LAW("C16",poly_product_scalar,40000,3000000,"degree at least one and product above rounding"){ fmult_law(c,1); }
LAW("C16",poly_product_2x2,40000,3000000,"degree at least one and product above rounding"){ fmult_law(c,2); }
LAW("C16",poly_product_3x3,20000,1500000,"degree at least one and product above rounding"){ fmult_law(c,3); }
LAW("C16",fft_is_the_dft,30000,2000000,"length at least two, input not zero"){
    size_t want=c.chance(0.2)?1+c.draw(2000):1+c.draw(130); size_t n=c.chance(0.3)?want:shim_fftlen(want); if(n<want) c.fail("next FFT length after %zu is %zu",want,n); if(n>2*want) c.fail("next FFT length after %zu is %zu, more than double",want,n); size_t again=shim_fftlen(shim_fftlen(want)); if(again!=shim_fftlen(want)) c.fail("valid FFT length %zu is not a fixed point (%zu)",shim_fftlen(want),again); int kind=(int)c.draw(5); vector<cd> x(n); for(auto&v:x) v= kind==5? (c.chance(0.1)?cd(1,-2):cd(0)): coef(c,kind); int inv=c.chance(0.5)?1:-1,reuse=(int)c.draw(2); c.info("n=%zu inverse=%d coefficients=%d reuse=%d",n,inv,kind,reuse); vector<cd> y(n),z(n); if(shim_fft(n,F(x.data()),F(y.data()),inv,reuse)) c.fail("FFT failed"); double s1=0; for(auto&v:x) s1+=std::abs(v); if(n>1&&s1>0) c.nontrivial();
    vector<cl> w(n); for(size_t k=0;k<n;k++) w[k]=std::exp(ref::J*(2*ref::PI*inv*(ld)k/(ld)n)); double tol=EPS*s1*(6+4*log2((double)n)+ (n>300&&c.chance(0)?0:0)) + EPS*s1*0.1*sqrt((double)n); size_t stepk=n>400?1+n/97:1; for(size_t k=0;k<n;k+=stepk){ cl s=0; for(size_t j=0;j<n;j++) s+=L(x[j])*w[(j*k)%n]; double e=(double)std::abs(s-L(y[k])); if(!(e<=tol)) c.fail("bin %zu: %.15g%+.15gi, definition gives %.15Lg%+.15Lgi (error %.3g, tol %.3g)",k,y[k].real(),y[k].imag(),s.real(),s.imag(),e,tol); }
    if(shim_fft(n,F(y.data()),F(z.data()),-inv,0)) c.fail("inverse failed"); for(size_t k=0;k<n;k++) if(!(std::abs(z[k]/(double)n-x[k])<=2*tol)) c.fail("inverse FFT of FFT differs at %zu by %.3g",k,std::abs(z[k]/(double)n-x[k]));
}
LAW("C16",chirp_transform_evaluates_the_polynomial,40000,2500000,"degree at least one and several points"){
    size_t deg=c.chance(0.1)?0:c.draw(c.chance(0.2)?400:60),M=1+c.draw(c.chance(0.2)?300:40); int kind=(int)c.draw(4); vector<cd> p(deg+1); for(auto&x:p) x=coef(c,kind); double nn=std::max<double>(deg+1,M); double wa=c.chance(0.3)?c.sreal(M_PI):c.sreal(4*M_PI/nn); double wr=c.chance(0.5)?c.sreal(1.0)/(nn*nn):0; double aa=c.sreal(M_PI),ar=c.chance(0.4)?c.sreal(4.0)/(deg+1):0; cd A=std::polar(exp(ar),aa),W=std::polar(exp(wr),wa); c.info("deg=%zu M=%zu A=%g%+gi W=%g%+gi kind=%d",deg,M,A.real(),A.imag(),W.real(),W.imag(),kind); vector<cd> r(M+2,api::SENT); auto p0=p; if(fnft__poly_chirpz(deg,F(p.data()),FC(A),FC(W),M,F(r.data()))) c.fail("failed"); if(p!=p0) c.fail("coefficients were modified"); if(r[M]!=api::SENT) c.fail("wrote beyond the result"); if(deg>0&&M>1) c.nontrivial();
    double grow=exp(fabs(ar)*deg+fabs(wr)*nn*nn); double s1=0; for(auto&x:p) s1+=std::abs(x); double tol=s1*grow*grow*(EPS*(40+8*log2(nn))+EPS*1.5*(fabs(wa)*nn*nn+(M_PI)*nn)); cl lA=L(A),lW=L(W); for(size_t k=0;k<M;k++){ cl z=(cl)1/(lA*std::exp(-std::log(lW)*(ld)k)); cl v=0; for(size_t j=0;j<=deg;j++) v=v*z+L(p[j]); double e=(double)std::abs(v-L(r[k])); if(!(e<=tol)) c.fail("point %zu: %.15g%+.15gi, polynomial is %.15Lg%+.15Lgi (error %.3g, tol %.3g)",k,r[k].real(),r[k].imag(),v.real(),v.imag(),e,tol); }
}
LAW("C16",evaluation_of_polynomial_and_derivative,60000,4000000,"degree at least one"){
    size_t deg=c.chance(0.15)?0:1+c.draw(c.chance(0.2)?200:20); int kind=(int)c.draw(4); vector<cd> p(deg+1); for(auto&x:p) x=coef(c,kind); size_t n=1+c.draw(4); double big=std::min(30.0,600.0/(deg+1)); vector<cd> z(n); for(auto&x:z){ int k=(int)c.draw(3); x= k==0? cd(0): k==1? std::polar(1.0,c.real(0,6.28)): k==2? std::polar(exp(c.sreal(big)),c.real(0,6.28)): cd(c.sreal(1.5),c.sreal(1.5)); } c.info("deg=%zu kind=%d z0=%g%+gi",deg,kind,z[0].real(),z[0].imag()); if(deg>0) c.nontrivial(); vector<cd> a=z,b=z,d(n+1,api::SENT); if(fnft__poly_eval(deg,F(p.data()),n,F(a.data()))||fnft__poly_evalderiv(deg,F(p.data()),n,F(b.data()),F(d.data()))) c.fail("failed"); if(d[n]!=api::SENT) c.fail("wrote beyond the result");
    for(size_t i=0;i<n;i++){ cl v=0,dv=0,zz=L(z[i]); ld s=0,ds=0,az=std::abs(zz); for(size_t j=0;j<=deg;j++){ dv=dv*zz+v; ds=ds*az+s; v=v*zz+L(p[j]); s=s*az+std::abs(L(p[j])); } ld t=EPS*(6.0L*deg+8+2*deg*fabsl(log(az>0?az:1))); auto chk=[&](const char*w,cd x,cl y,ld tol){ ld e=std::abs(L(x)-y); if(!(e<=tol)) c.fail("%s at z=%.15g%+.15gi: %.15g%+.15gi, should be %.15Lg%+.15Lgi (error %.3Lg, tol %.3Lg)",w,z[i].real(),z[i].imag(),x.real(),x.imag(),y.real(),y.imag(),e,tol); }; chk("value",a[i],v,s*t+1e-300L); chk("value with derivative",b[i],v,s*t+1e-300L); chk("derivative",d[i],dv,(ds+ (az>1? deg*s/az: 0))*t*2+1e-300L); }
}
