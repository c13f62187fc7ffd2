// C11: inverse NSE transform adds exactly the requested bound states
#include "nse_bs.hpp"
using namespace pbt; using namespace api; using namespace nb; using std::vector;
static QuietReg qr;
// closed-form multi-soliton from the residues: q = -2i conj(sum c_k w_k), solved as a linear system in long double
static bool solve(vector<cl> A,vector<cl> b,vector<cl>&x){ int n=(int)b.size(); for(int i=0;i<n;i++){ int p=i; for(int j=i;j<n;j++) if(std::abs(A[j*n+i])>std::abs(A[p*n+i])) p=j; if(std::abs(A[p*n+i])==0) return false; if(p!=i){ for(int k=0;k<n;k++) std::swap(A[p*n+k],A[i*n+k]); std::swap(b[p],b[i]); } for(int j=i+1;j<n;j++){ cl f=A[j*n+i]/A[i*n+i]; for(int k=i;k<n;k++) A[j*n+k]-=f*A[i*n+k]; b[j]-=f*b[i]; } } x.assign(n,0); for(int i=n-1;i>=0;i--){ cl s=b[i]; for(int k=i+1;k<n;k++) s-=A[i*n+k]*x[k]; x[i]=s/A[i*n+i]; } return true; }
static cl aprime(const vector<cl>&l,size_t k){ cl r=(cl)1/(l[k]-std::conj(l[k])); for(size_t j=0;j<l.size();j++) if(j!=k) r*=(l[k]-l[j])/(l[k]-std::conj(l[j])); return r; }
static cl soliton(const vector<cl>&l,const vector<cl>&b,ld t){ int K=(int)l.size(); vector<cl> lc(K); for(int k=0;k<K;k++) lc[k]=std::log(b[k]/aprime(l,k))+2.0L*ref::J*l[k]*t;
    // unknowns: U_k=c_k u_k, W_k=c_k w_k (both scaled by min(1,1/|c_k|)); conj(W_j) = conj(c_j)(1+sum U_k/(l_j*-l_k)); conj(U_j) = -conj(c_j) sum W_k/(l_j*-l_k)
    vector<cl> A(4*K*K,0),r(2*K,0),x; for(int j=0;j<K;j++){ ld mag=lc[j].real(); cl c,one; if(mag>0){ c=std::exp(cl(0,lc[j].imag())); one=std::exp(-mag); } else { c=std::exp(lc[j]); one=1; } cl lj=std::conj(l[j]); // W_j = c (1+sum conj(U_k)/(l_j-l_k*)),  unknown vector: (conj U, W)
        int w=K+j,u=j; A[w*2*K+w]+=one; for(int k=0;k<K;k++) A[w*2*K+k]-=c/(l[j]-std::conj(l[k])); r[w]=c; A[u*2*K+u]+=one; for(int k=0;k<K;k++) A[u*2*K+K+k]+=std::conj(c)/(lj-l[k]); } if(!solve(A,r,x)) return cl(NAN,NAN); cl s=0; for(int k=0;k<K;k++) s+=x[K+k]; return -2.0L*ref::J*std::conj(s); }
static void states(Case&c,int K,double sc,vector<cd>&l,vector<cd>&b,double bmag){ for(int k=0;k<K;k++){ cd x; bool ok; int tries=0; do { double im=sc*(k&&c.chance(0.25)? l[c.draw(k-1)].imag()/sc: c.real(0.3,2)), re=sc*(k&&c.chance(0.3)? l[c.draw(k-1)].real()/sc: c.sreal(1.5)); x=cd(re,im); ok=true; for(auto&y:l) if(std::abs(x-y)<0.25*sc) ok=false; if(++tries>20) c.discard(); } while(!ok); l.push_back(x); b.push_back(std::polar(c.chance(0.5)?c.logreal(1/bmag,bmag):1.0,c.real(0,6.283))); } }
static void show(Case&c,const vector<cd>&l,const vector<cd>&b){ for(size_t k=0;k<l.size();k++) c.info(" {lambda=%.12g%+.12gi b=%.9g%+.9gi}",l[k].real(),l[k].imag(),b[k].real(),b[k].imag()); }
static cd C(cl x){ return cd((double)x.real(),(double)x.imag()); }
LAW("C11",nse_inverse_multisoliton_is_closed_form,60000,4000000,"soliton visible in the window"){
    int K=(int)c.range(1,5); double sc=c.logreal(0.3,3); vector<cd> l,b; states(c,K,sc,l,b,30); Inv v; v.D=(size_t)1<<c.range(1,7); double w=c.logreal(1,40)/sc, m=0; switch(c.draw(3)){ case 0: break; case 1: m=c.sreal(w); break; case 2: m=-w*c.real(0.5,3); break; default: m=w*c.real(0.5,3); } if(c.chance(0.05)) m*=c.logreal(1,300); v.T[0]=m-w/2; v.T[1]=m+w/2; // solitons follow the window in half of the cases
    double mv=c.chance(0.5)?m:0; if(mv) for(int k=0;k<K;k++){ double ex=2*l[k].imag()*fabs(mv); if(ex>600) c.discard(); b[k]*=std::exp(cd(0,-2)*l[k]*mv); } vector<cl> ll,bb; for(int k=0;k<K;k++){ ll.push_back(cl(l[k].real(),l[k].imag())); bb.push_back(cl(b[k].real(),b[k].imag())); } bool res=c.chance(0.4); v.B=l; v.N=b; if(res){ v.o.discspec_type=fnft_nsev_inverse_dstype_RESIDUES; for(int k=0;k<K;k++) v.N[k]=C(bb[k]/aprime(ll,k)); } else if(c.chance(0.2)) v.have_opts=false; else v.o.contspec_inversion_method=c.pick({fnft_nsev_inverse_csmethod_DEFAULT,fnft_nsev_inverse_csmethod_TFMATRIX_CONTAINS_REFL_COEFF});
    for(auto&x:v.N) if(!std::isfinite(std::abs(x))||std::abs(x)<1e-300||std::abs(x)>1e300) c.discard(); c.info("D=%zu T=[%.17g,%.17g] %s",v.D,v.T[0],v.T[1],res?"residues":"norming constants"); show(c,l,b); c.label(strf("K%d",K)); if(v.run()) c.fail("error %d for valid input",v.rc); double amp=0; for(auto&x:l) amp+=2*x.imag(); double eps=(v.T[1]-v.T[0])/(v.D-1); bool vis=false;
    for(size_t n=0;n<v.D;n++){ double t=v.T[0]+eps*n; cl x=soliton(ll,bb,t); if(!std::isfinite((double)std::abs(x))) continue; double e=(double)std::abs(x-cl(v.q[n].real(),v.q[n].imag())); if(std::abs(x)>0.05*amp) vis=true; double tt=fabs(t)*(std::abs(l[0])+5*sc); double tol=amp*(3e-8+1e-13*tt); if(!(e<=tol)) c.fail("q[%zu] at t=%.12g is %.12g%+.12gi, closed form %.12Lg%+.12Lgi, error %.3g (allowed %.3g)",n,t,v.q[n].real(),v.q[n].imag(),x.real(),x.imag(),e,tol); } if(vis) c.nontrivial(); for(size_t i=v.D;i<v.D+2;i++) if(v.q[i]!=SENT) c.fail("wrote beyond the signal");
}
// bound states on top of a seed potential or a continuous spectrum
static cl bmatch(const vector<cd>&q,const double*T,cl l){ size_t D=q.size(); ld eps=((ld)T[1]-T[0])/(D-1); vector<ref::M2> S; ref::nse_steps(fnft_nse_discretization_BO,q,eps,1,l,S); size_t N=S.size(); ld t0=T[0]-eps/2,t1=T[1]+eps/2; vector<cl> f1(N+1),f2(N+1); f1[0]=std::exp(-ref::J*l*t0); f2[0]=0; for(size_t n=0;n<N;n++){ f1[n+1]=S[n][0]*f1[n]+S[n][1]*f2[n]; f2[n+1]=S[n][2]*f1[n]+S[n][3]*f2[n]; } cl p1=0,p2=std::exp(ref::J*l*t1),b=0; ld mis=1e99L; for(size_t n=N;n-->1;){ const ref::M2&M=S[n]; cl d=M[0]*M[3]-M[1]*M[2]; cl u1=(M[3]*p1-M[1]*p2)/d,u2=(M[0]*p2-M[2]*p1)/d; p1=u1;p2=u2; cl b0=f1[n]/p1,b1=f2[n]/p2; ld m=std::abs(std::log(b1/b0)); if(m<mis){ mis=m; b=b0; } } return b; }
struct Gs { double A,tau,w,om; };
LAW("C11",nse_inverse_adds_bound_states_to_seed_or_contspec,1000,60000,"error at the coarse grid between 1e-4 and 10 percent"){
    int kind=(int)c.draw(2); int K=(int)c.range(1,3); vector<cd> l,b; states(c,K,0.7,l,b,6); double shift=kind==2?0:(c.chance(0.5)?c.sreal(6):0); if(shift) for(int k=0;k<K;k++) b[k]*=std::exp(cd(0,-2)*l[k]*shift); double immin=9; for(auto&x:l) immin=std::min(immin,x.imag()); int n=(int)c.range(1,2); vector<Gs> g; for(int i=0;i<n;i++){ Gs x; x.w=c.real(1,2); x.tau=shift+c.sreal(1); x.om=c.sreal(1); x.A=c.real(0.2,1)*(kind==1?0.8:0.6)/n/x.w/std::sqrt(M_PI); g.push_back(x); }
    // in the spectral domain use the same pulses with B(tau)=A/2 at tau=2t
    auto seed=[&](double t){ cd s=0; for(auto&p:g) s+=p.A*std::exp(-(t-p.tau)*(t-p.tau)/p.w/p.w)*std::polar(1.0,p.om*t); return s; }; auto spec=[&](double x){ cd s=0; for(auto&p:g) s+=p.A*p.w*std::sqrt(M_PI)*std::exp(-(2*x-p.om)*(2*x-p.om)*p.w*p.w/4)*std::polar(1.0,-(2*x-p.om)*p.tau); return s; };
    double H=9/immin+6+ (std::log(6.0)+2)/immin; Inv v; v.T[0]=shift-H*c.real(0.9,1); v.T[1]=shift+H*c.real(0.9,1); size_t D=256; double smax=2.0; for(auto&x:l) smax=std::max(smax,2*std::abs(x)); while((v.T[1]-v.T[0])/(D-1)*smax>0.35) D*=2; if(D>1024) c.discard(); if(std::max(fabs(v.T[0]),fabs(v.T[1]))*2*2.1>60) c.label("long");
    v.o.discretization=c.chance(0.5)?fnft_nse_discretization_2SPLIT2_MODAL:fnft_nse_discretization_2SPLIT2A; bool bxi=kind==2&&c.chance(0.5); bool res=kind>=1&&c.chance(0.4); c.info("%s D=%zu T=[%.17g,%.17g] disc=%s%s",kind==0?"seed":kind==1?"reflection coefficient":bxi?"b(xi)":"reflection coefficient (symmetric window)",D,v.T[0],v.T[1],ref::name(v.o.discretization),res?" residues":""); show(c,l,b); for(auto&x:g) c.info(" {A=%g tau=%g w=%g om=%g}",x.A,x.tau,x.w,x.om); c.label(kind==0?"seed":bxi?"b":"refl"); double e[2];
    vector<cl> ll; for(auto&x:l) ll.push_back(cl(x.real(),x.imag())); vector<cd> N=b; if(res){ v.o.discspec_type=fnft_nsev_inverse_dstype_RESIDUES; for(int j=0;j<K;j++){ cl la=0; for(int i=-1500;i<=1500;i++){ double x=0.01*i; cd z=spec(x); ld y=bxi?log1pl(-std::norm(z)):-log1pl(std::norm(z)); la+=y/((ld)x-ll[j]); } la*=0.01L/(2*ref::PI)/ref::J; N[j]=C(cl(b[j].real(),b[j].imag())/(aprime(ll,j)*std::exp(la))); } }
    vector<cd> q; for(int k=0;k<2;k++){ v.D=D<<k; size_t M=2*v.D; double eps=(v.T[1]-v.T[0])/(v.D-1); v.B=l; v.N=N; v.seed.clear(); v.C.clear(); vector<cd> sd(v.D); for(size_t i=0;i<v.D;i++) sd[i]=seed(v.T[0]+i*eps); if(kind==0){ v.seed=sd; v.o.contspec_inversion_method=fnft_nsev_inverse_csmethod_USE_SEED_POTENTIAL_INSTEAD; v.noXI=true; } else { v.grid(M); v.C.resize(M); for(size_t i=0;i<M;i++) v.C[i]=spec(v.XI[0]+i*(v.XI[1]-v.XI[0])/(M-1)); v.o.contspec_type=bxi?fnft_nsev_inverse_cstype_B_OF_XI:fnft_nsev_inverse_cstype_REFLECTION_COEFFICIENT; }
        if(v.run()) c.fail("error %d for valid input",v.rc); q.assign(v.q.begin(),v.q.begin()+v.D); e[k]=0; Afun f{fnft_nse_discretization_BO,q,v.T}; auto upd=[&](cl d){ double x=(double)std::abs(d); e[k]=std::max(e[k],std::isfinite(x)?x:1e9); };
        for(int j=0;j<K;j++){ cl x=ll[j]; if(!polish(f,x,0.3L)){ upd(0.99); continue; } upd(x-ll[j]); cl bb=bmatch(q,v.T,x); cl bw=cl(b[j].real(),b[j].imag()); upd(bb/bw*std::exp(2.0L*ref::J*(x-ll[j])*(ld)shift)-1.0L); }
        for(int j=0;j<6;j++){ double xi=-1.9+0.7*j; auto x=ref::nse_ab(fnft_nse_discretization_BO,q,v.T,1,cl(xi,0)); if(kind){ cd z=spec(xi); cl y=bxi?x.b:x.b/x.a; upd(y-cl(z.real(),z.imag())); } else { auto y=ref::nse_ab(fnft_nse_discretization_BO,sd,v.T,1,cl(xi,0)); cl bl=1; for(auto&z:ll) bl*=((ld)xi-z)/((ld)xi-std::conj(z)); upd(x.a-y.a*bl); upd(x.b-y.b); } } }
    c.label(strf("e%d",(int)floor(log10(e[0])))); if(e[0]>1e-4&&e[0]<0.1) c.nontrivial(); if(!(e[0]<0.25)) { if(!(e[1]<0.6*e[0])) c.fail("spectrum of the result is off by %.3g with D=%zu, %.3g with D=%zu",e[0],D,e[1],2*D); return; } if(!(e[1]<=std::max(3e-5,0.36*e[0]))) c.fail("error of the spectrum %.4g with D=%zu, %.4g with D=%zu: does not converge at second order",e[0],D,e[1],2*D);
}
// the result does not depend on the order in which the bound states are listed; duplicates are rejected wherever they are
LAW("C11",nse_inverse_order_of_bound_states_is_irrelevant,12000,800000,"at least two bound states and not the identity permutation"){
    int K=(int)c.range(2,5); vector<cd> l,b; states(c,K,1,l,b,5); Inv v; v.D=(size_t)1<<c.range(2,7); v.T[1]=c.real(1,7); v.T[0]=-c.real(1,7); int kind=(int)c.draw(2); if(c.chance(0.5)) v.o.discspec_type=fnft_nsev_inverse_dstype_RESIDUES; v.B=l; v.N=b; double m=(v.T[0]+v.T[1])/2; if(kind==1){ v.seed.resize(v.D); for(size_t i=0;i<v.D;i++){ double t=v.T[0]+(v.T[1]-v.T[0])*i/(v.D-1); v.seed[i]=std::polar(0.4*std::exp(-(t-m)*(t-m)),t); } v.o.contspec_inversion_method=fnft_nsev_inverse_csmethod_USE_SEED_POTENTIAL_INSTEAD; v.noXI=true; } else if(kind==2){ size_t M=2*v.D; v.grid(M); v.C.resize(M); for(size_t i=0;i<M;i++){ double x=v.XI[0]+(v.XI[1]-v.XI[0])*i/(M-1); v.C[i]=std::polar(0.5*std::exp(-x*x),-2*x*m); } }
    bool dup=c.chance(0.2); if(dup){ size_t i=c.draw(K-1),j=c.draw(K); v.B.insert(v.B.begin()+j,l[i]); v.N.insert(v.N.begin()+j,b[i]*(c.chance(0.5)?1.0:0.5)); } c.info("kind=%d D=%zu T=[%g,%g] %s",kind,v.D,v.T[0],v.T[1],dup?"with duplicate":""); show(c,v.B,v.N); v.run(); if(dup){ c.nontrivial(); c.label("duplicate"); if(!v.rc) c.fail("a duplicate bound state was accepted"); return; } if(v.rc) c.fail("error %d for valid input",v.rc);
    Inv w=v; vector<int> p(K); for(int i=0;i<K;i++) p[i]=i; for(int i=K-1;i>0;i--) std::swap(p[i],p[c.draw(i)]); bool id=true; for(int i=0;i<K;i++){ if(p[i]!=i) id=false; w.B[i]=v.B[p[i]]; w.N[i]=v.N[p[i]]; } if(!id) c.nontrivial(); if(w.run()) c.fail("error %d after reordering",w.rc); double amp=0; for(auto&x:l) amp+=2*x.imag(); c.label(strf("kind%d",kind)); for(size_t n=0;n<v.D;n++){ double e=std::abs(v.q[n]-w.q[n]); if(!(e<=1e-7*amp)) c.fail("q[%zu] depends on the order: %.12g%+.12gi and %.12g%+.12gi",n,v.q[n].real(),v.q[n].imag(),w.q[n].real(),w.q[n].imag()); }
}
// tiny changes of a bound state cause tiny changes of the signal (includes seeds for which the matrix exponent is singular)
LAW("C11",nse_inverse_seed_is_continuous_in_the_bound_state,4000,300000,"a sample has modulus equal to the imaginary part of a purely imaginary bound state"){
    Inv v; v.D=(size_t)1<<c.range(2,7); double A=c.pick({0.5,1.0,0.25,2.0}); v.T[1]=c.real(1,4)/A; v.T[0]=-c.real(1,4)/A; v.seed.assign(v.D,0); size_t a=c.draw(v.D-1),b=a+c.draw(v.D-1-a); for(size_t i=a;i<=b;i++) v.seed[i]=A*c.pick({cd(1,0),cd(-1,0),cd(0,1),cd(0,-1)}); v.noXI=true; v.o.contspec_inversion_method=fnft_nsev_inverse_csmethod_USE_SEED_POTENTIAL_INSTEAD; v.B={cd(0,A)}; v.N={std::polar(c.real(0.3,3),c.real(0,6.283))}; c.nontrivial(); c.info("D=%zu T=[%g,%g] lambda=%gi b=%g%+gi seed=%g on samples %zu..%zu",v.D,v.T[0],v.T[1],A,v.N[0].real(),v.N[0].imag(),A,a,b);
    Inv w=v; double d=1e-8*A; w.B[0]+=std::polar(d,c.real(0,6.283)); if(v.run()||w.run()) c.fail("error %d/%d",v.rc,w.rc); for(size_t n=0;n<v.D;n++){ double e=std::abs(v.q[n]-w.q[n]); if(!(e<=2e-4*A)) c.fail("q[%zu]=%.12g%+.12gi for %gi, but %.12g%+.12gi if the bound state changes by %.1g",n,v.q[n].real(),v.q[n].imag(),A,w.q[n].real(),w.q[n].imag(),d); }
}
