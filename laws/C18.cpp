// C18: transfer matrices from fast, slow and inverse scattering
#include "api.hpp"
#include "shim.hpp"
using namespace pbt; using namespace ref; using std::vector;
static api::QuietReg qr;
static const double EPS=2.2e-16;
static cl L(cd x){ return cl(x.real(),x.imag()); }
struct Pre { FNFT_COMPLEX*q=nullptr,*r=nullptr; FNFT_UINT Dsub=0,fl[2]; ~Pre(){ free(q); free(r); } };
// value at z of polynomial number k (coefficients in descending order) and the sum of absolute terms
static cl pev(const vector<cd>&h,size_t k,size_t deg,cl z,ld&s){ cl v=0; s=0; ld az=std::abs(z); for(size_t i=0;i<=deg;i++){ cl x=L(h[k*(deg+1)+i]); v=v*z+x; s=s*az+std::abs(x); } return v; }
static double mx(const M2&a){ ld v=0; for(auto&x:a) v=std::max(v,std::abs(x)); return (double)v; }
// sup over a sample of the unit circle of (largest prefix product)*(largest suffix product): rounding of the tree of polynomial products
template<class St> static double amp2(St steps,double eps,int deg,int up){ double m=1; ld h=(ld)eps/up; for(int k=0;k<std::max(1,deg);k++) for(ld off:{0.0L,0.02L,0.25L,0.5L,0.77L}){ vector<M2> S; steps(cl(PI/h*(k+off),0),S); M2 p=eye(),s=eye(); double a=1,b=1; for(auto&x:S){ p=mul(x,p); a=std::max(a,mx(p)); } for(size_t i=S.size();i--;){ s=mul(s,S[i]); b=std::max(b,mx(s)); } m=std::max(m,a*b); } return m; }
static vector<int> fastd(){ vector<int> v; for(int d=0;d<28;d++) if(!is_slow(d)) v.push_back(d); return v; }
// transfer polynomials of NSE and KdV, all four entries, at arbitrary complex z
static void fast_law(Case&c,bool kdv){
    static vector<int> fd=fastd(); int bd=c.pick(fd); int van=kdv?(int)c.draw(1):0; int disc=kdv?(van?bd:bd+28):bd; bool up=degree(bd)!=0&&(bd==fnft_nse_discretization_4SPLIT4A||bd==fnft_nse_discretization_4SPLIT4B); int upf=up?2:1; size_t D=gen::len(c,up?2:2,degree(bd)>24?10:degree(bd)>8?24:70); double eps=c.logreal(0.01,2); int kappa=c.chance(0.5)?-1:1; double a=c.logreal(0.01,1.0)/std::max(1.0,D/12.0); if(kdv) a=a*a; double amp= kdv? a/(eps*eps): a/eps; if(bd==0&&!kdv) amp=std::min(amp,0.8/eps); std::string kind; auto q=gen::samples(c,D,amp,&kind); if(kdv) for(auto&x:q) x=x.real(); bool norm=c.chance(0.5);
    c.info("%s D=%zu eps=%g kappa=%d normalized=%d kind=%s q=%s",kdv?kdv_name(disc):name(bd),D,eps,kappa,norm,kind.c_str(),gen::show(q).c_str()); c.label(kdv?kdv_name(disc):name(bd)); auto q0=q;
    Pre p; p.Dsub=D; int rc= kdv? fnft__kdv_discretization_preprocess_signal(D,F(q.data()),eps,kappa,&p.Dsub,&p.q,&p.r,p.fl,(fnft_kdv_discretization_t)disc): fnft__nse_discretization_preprocess_signal(D,F(q.data()),eps,kappa,&p.Dsub,&p.q,&p.r,p.fl,(fnft_nse_discretization_t)bd); if(rc) c.fail("preprocessing: error %d",rc); if(p.Dsub!=D||p.fl[0]!=0||p.fl[1]!=D-1) c.fail("preprocessing reports %zu samples [%zu,%zu]",(size_t)p.Dsub,(size_t)p.fl[0],(size_t)p.fl[1]); size_t De=D*upf; size_t deg1=degree(bd)/upf; 
    size_t ne= kdv? fnft__kdv_fscatter_numel(De,(fnft_kdv_discretization_t)disc): fnft__nse_fscatter_numel(De,(fnft_nse_discretization_t)bd); if(ne<4*(deg1*De+1)) c.fail("%zu entries reserved for 4 polynomials of degree %zu",ne,deg1*De); vector<cd> h(ne+2,api::SENT); FNFT_UINT deg=0; FNFT_INT W=0; rc= kdv? fnft__kdv_fscatter(De,p.q,p.r,eps,kappa,F(h.data()),&deg,norm?&W:NULL,(fnft_kdv_discretization_t)disc): fnft__nse_fscatter(De,p.q,p.r,eps,F(h.data()),&deg,norm?&W:NULL,(fnft_nse_discretization_t)bd); if(rc) c.fail("error code %d",rc); if(h[ne]!=api::SENT||h[ne+1]!=api::SENT) c.fail("wrote beyond the reserved entries"); if(deg!=deg1*De) c.fail("degree %zu, expected %zu",(size_t)deg,deg1*De);
    auto st=[&](cl l,vector<M2>&S){ if(kdv) { S.clear(); kdv_steps(disc,q0,eps,l,S); } else nse_steps((fnft_nse_discretization_t)bd,q0,eps,kappa,l,S); }; bool nz=false; for(auto&x:q0) nz|=x!=0.0; if(nz) c.nontrivial(); ld sc=norm?ldexpl(1,W):1;
    // steps in the representation of the discretization (KdV steps are reported in the physical basis: undo it)
    auto raw=[&](cl l){ M2 H=eye(); vector<M2> S; st(l,S); for(auto&x:S) H=mul(x,H); auto modal=[&](M2 X){ if(bd==0||bd==fnft_nse_discretization_2SPLIT2A){ X[1]*=std::exp(J*l*(ld)eps); X[2]*=std::exp(-J*l*(ld)eps); } return X; }; if(!kdv) return modal(H); M2 P=van? M2{(ld)2*J*l,0,1,1}: M2{1,1,0,(ld)-2*J*l}; cl d=P[0]*P[3]-P[1]*P[2]; M2 Pi={P[3]/d,-P[1]/d,-P[2]/d,P[0]/d}; return modal(mul(P,mul(H,Pi))); };
    double am=amp2([&](cl l,vector<M2>&S){ if(!kdv){ st(l,S); return; } S.clear(); for(size_t n=0;n<D;n++){ cl Q=van?L(q0[n]):cl(-1),R=van?cl(-1):L(q0[n]); for(int u=0;u<upf;u++) S.push_back(split_step(scheme(bd),l,Q,R,(ld)eps/upf)); } },eps,(int)deg1,upf); if(am>1e9) c.discard();
    for(int t=0;t<3;t++){ double per=M_PI*deg1*upf/eps; double x=c.sreal(per), y= c.chance(0.5)?0: c.sreal(2.0/(D*eps))*c.real(0,1); if(kdv&&fabs(x)<0.05/eps) x+=0.1/eps; cl l(x,y); cl z=std::exp((ld)2*J*l*(ld)eps/(ld)(deg1*upf)); cd zz(x,y); rc= kdv? fnft__kdv_discretization_lambda_to_z(1,eps,F(&zz),(fnft_kdv_discretization_t)disc): fnft__nse_discretization_lambda_to_z(1,eps,F(&zz),(fnft_nse_discretization_t)bd); if(rc||std::abs(zz-cd((double)z.real(),(double)z.imag()))>1e-13*(1+fabs(x)*eps)*std::abs(zz)) c.fail("lambda_to_z(%g%+gi)=%.15g%+.15gi",x,y,zz.real(),zz.imag());
        M2 H=raw(l); cl ph=std::exp(-J*l*(ld)eps*(ld)D); for(size_t k=0;k<4;k++){ ld s; cl v=pev(h,k,deg,z,s)*ph*sc; s*=sc*std::abs(ph); ld sh=kdv?std::max(eps,1/eps):1; ld tol=EPS*((10+deg)*s+ 40*(1+log2((double)deg+1))*am*(kdv?sh:1)*(deg+1)*exp(fabs(y)*eps*D))+1e-17L*mx(H)*(1+std::abs(x)*eps*D); ld er=std::abs(v-H[k]); if(!(er<=tol)) c.fail("entry %zu at lambda=%.12g%+.12gi: %.12Lg%+.12Lgi, product of the steps %.12Lg%+.12Lgi (error %.3Lg, tolerance %.3Lg, amplification %.3g)",k,x,y,v.real(),v.imag(),H[k].real(),H[k].imag(),er,tol,am); c.label(strf("slack%d",er>0?(int)floor(log10((double)(er/tol))):-99)); } }
}
LAW("C18",nse_transfer_polynomial_is_the_product_of_the_steps,14000,500000,"signal not identically zero"){ fast_law(c,false); }
LAW("C18",kdv_transfer_polynomial_is_the_product_of_the_steps,14000,500000,"signal not identically zero"){ fast_law(c,true); }
LAW("C18",manakov_transfer_polynomial_is_the_product_of_the_steps,14000,300000,"signal not identically zero"){
    vector<int> fd; for(int d=0;d<12;d++) if(!mana_slow(d)&&mana_degree(d)>0&&std::string(mana_name(d)).find("FTES4_4B")==std::string::npos) fd.push_back(d); int disc=c.pick(fd); int upf=mana_up(disc); size_t D=gen::len(c,upf>1?2:2,mana_degree(disc)>8?12:40); double eps=c.logreal(0.01,2),a=c.logreal(0.01,1)/std::max(1.0,D/12.0),amp=a/eps; int kappa=c.chance(0.5)?-1:1; std::string kind,k2; auto q1=gen::samples(c,D,amp,&kind),q2=gen::samples(c,D,amp*c.real(0,1),&k2); bool norm=c.chance(0.5); c.info("%s D=%zu eps=%g kappa=%d normalized=%d kinds=%s,%s q1=%s q2=%s",mana_name(disc),D,eps,kappa,norm,kind.c_str(),k2.c_str(),gen::show(q1).c_str(),gen::show(q2).c_str()); c.label(mana_name(disc));
    struct P2 { FNFT_COMPLEX*a=0,*b=0; FNFT_UINT Dsub=0,fl[2]; ~P2(){ free(a); free(b);} } p; p.Dsub=D; auto dd=(fnft_manakov_discretization_t)disc; int rc=fnft__manakov_discretization_preprocess_signal(D,F(q1.data()),F(q2.data()),eps,&p.Dsub,&p.a,&p.b,p.fl,dd); if(rc) c.fail("preprocessing: error %d",rc); size_t De=D*upf; size_t degs=mana_degree(disc); size_t ne=fnft__manakov_fscatter_numel(De,dd); vector<cd> h(ne+2,api::SENT); FNFT_UINT deg=0; FNFT_INT W=0; rc=fnft__manakov_fscatter(De,p.a,p.b,kappa,eps,F(h.data()),&deg,norm?&W:NULL,dd); if(rc) c.fail("error code %d",rc); if(h[ne]!=api::SENT||h[ne+1]!=api::SENT) c.fail("wrote beyond the reserved entries"); if(deg!=degs*D&&deg!=degs*De) c.fail("degree %zu for %zu samples",(size_t)deg,D); if(9*(deg+1)>ne) c.fail("%zu entries reserved for 9 polynomials of degree %zu",ne,(size_t)deg);
    bool nz=false; for(auto&x:q1) nz|=x!=0.0; for(auto&x:q2) nz|=x!=0.0; if(nz) c.nontrivial(); ld sc=norm?ldexpl(1,W):1; double cond=mana_cond(disc,q1,q2,eps,kappa); if(cond>1e6) c.discard();
    for(int t=0;t<3;t++){ double per=M_PI*deg/(D*eps)*2; double x=c.sreal(per),y=c.chance(0.5)?0:c.sreal(2.0/(D*eps)); cl l(x,y); M3 H=mana_transfer(disc,q1,q2,eps,kappa,l); cd zz(x,y); rc=fnft__manakov_discretization_lambda_to_z(1,eps,F(&zz),dd); if(rc) c.fail("lambda_to_z: %d",rc); bool su=std::string(mana_name(disc)).find("suzuki")!=std::string::npos; cl z=std::exp(su? J*l*(ld)eps/(ld)3: (ld)2*J*l*(ld)eps*(ld)D/(ld)deg); if(std::abs(L(zz)-z)>1e-13L*(1+fabs(x)*eps)*std::abs(z)) c.fail("lambda_to_z(%g%+gi)=%.15g%+.15gi, expected %.15Lg%+.15Lgi",x,y,zz.real(),zz.imag(),z.real(),z.imag()); cl ph=std::exp(-std::log(z)*(ld)0.5*(ld)deg); if(su) ph=std::exp(-J*l*(ld)eps*(ld)deg/(ld)6); else ph=std::exp(-J*l*(ld)eps*(ld)D); double gy=su?7.0/6:1; for(size_t k=0;k<9;k++){ ld s; cl v=pev(h,k,deg,z,s)*ph*sc; s*=sc*std::abs(ph); ld hm=1; for(auto&e:H) hm=std::max(hm,std::abs(e)); ld tol=EPS*((10+deg)*s+60*(1+log2((double)deg+1))*cond*cond*(deg+1)*exp(fabs(y)*eps*D*gy))+1e-17L*hm*(1+fabs(x)*eps*D); ld er=std::abs(v-H[k]); if(!(er<=tol)) c.fail("entry %zu at lambda=%.12g%+.12gi: %.12Lg%+.12Lgi, product of the steps %.12Lg%+.12Lgi (error %.3Lg, tolerance %.3Lg)",k,x,y,v.real(),v.imag(),H[k].real(),H[k].imag(),er,tol); c.label(strf("slack%d",er>0?(int)floor(log10((double)(er/tol))):-99)); } }
}
// slow scattering matrices with derivatives and the bound state variant
static cd rnd(cl x){ return cd((double)x.real(),(double)x.imag()); }
static void slow_law(Case&c,bool kdv){
    static const int sl[]={fnft_nse_discretization_BO,fnft_nse_discretization_CF4_2,fnft_nse_discretization_CF4_3,fnft_nse_discretization_CF5_3,fnft_nse_discretization_CF6_4,fnft_nse_discretization_ES4,fnft_nse_discretization_TES4}; int bd=sl[c.draw(6)]; bool van=kdv&&c.chance(0.5); int disc=kdv?(van?bd:bd+28):bd; int upf=1; switch(bd){ case fnft_nse_discretization_CF4_2: upf=2; break; case fnft_nse_discretization_CF4_3: case fnft_nse_discretization_CF5_3: case fnft_nse_discretization_ES4: case fnft_nse_discretization_TES4: upf=3; break; case fnft_nse_discretization_CF6_4: upf=4; }
    size_t D=gen::len(c,3,60); double T[2]; gen::window(c,T); double eps=(T[1]-T[0])/(D-1); int kappa=c.chance(0.5)?-1:1; double a=c.logreal(0.05,8); double amp=kdv? std::min(a*a/(eps*D)/(eps*D)*4,1/(eps*eps)): std::min(a/(eps*D),1/eps); std::string kind; auto q=gen::samples(c,D,amp,&kind); if(kdv) for(auto&x:q) x=x.real(); bool norm=c.chance(0.5),deriv=c.chance(0.6); size_t K=1+c.draw(3); double len=eps*D; vector<cd> lam(K); for(auto&l:lam){ l=kdv? cd(c.logreal(0.2,20)/len*(c.chance(0.5)?1:-1),c.chance(0.5)?0:c.sreal(3)/len): c.chance(0.1)?cd(0,std::abs(q[0])): cd(c.sreal(1.0/eps),c.chance(0.4)?0:c.sreal(6)/len); if(kdv&&c.chance(0.3)) l=cd(0,c.logreal(0.3,6)/len); }
    c.info("%s D=%zu T=[%.17g,%.17g] kappa=%d normalized=%d derivative=%d kind=%s lambda0=%.17g%+.17gi q=%s",kdv?kdv_name(disc):name(bd),D,T[0],T[1],kappa,norm,deriv,kind.c_str(),lam[0].real(),lam[0].imag(),gen::show(q).c_str()); c.label(kdv?kdv_name(disc):name(bd)); Pre p; p.Dsub=D; int rc= kdv? fnft__kdv_discretization_preprocess_signal(D,F(q.data()),eps,kappa,&p.Dsub,&p.q,&p.r,p.fl,(fnft_kdv_discretization_t)disc): fnft__nse_discretization_preprocess_signal(D,F(q.data()),eps,kappa,&p.Dsub,&p.q,&p.r,p.fl,(fnft_nse_discretization_t)bd); if(rc) c.fail("preprocessing: error %d",rc); size_t De=D*upf;
    vector<cd> R(K*(deriv?8:4)+1,api::SENT); vector<FNFT_INT> W(K+1,77); rc= kdv? fnft__kdv_scatter_matrix(De,p.q,p.r,eps,kappa,K,F(lam.data()),F(R.data()),norm?W.data():NULL,(fnft_kdv_discretization_t)disc,deriv): fnft__nse_scatter_matrix(De,p.q,p.r,eps,kappa,K,F(lam.data()),F(R.data()),norm?W.data():NULL,(fnft_nse_discretization_t)bd,deriv); if(rc) c.fail("error code %d",rc); if(R.back()!=api::SENT||W[K]!=77) c.fail("wrote beyond the result"); bool nz=false; for(auto&x:q) nz|=x!=0.0; if(nz) c.nontrivial();
    auto tr=[&](cl l){ M2 H; if(kdv) kdv_transfer(disc,q,eps,l,H); else nse_transfer((fnft_nse_discretization_t)bd,q,eps,kappa,l,H); return H; };
    vector<std::array<M2,2>> ex(K); vector<ld> gr(K);
    for(size_t i=0;i<K;i++){ cl l=L(lam[i]); g_prefix=1; M2 H=tr(l); double pf=g_prefix; ld rad=std::min<ld>(0.25L/len,kdv?0.5L*std::abs(l):1); M2 d={0,0,0,0}; const int n=64; for(int k=0;k<n;k++){ cl w=std::exp(J*(2*PI*k/n)); M2 X=tr(l+rad*w); for(int e=0;e<4;e++) d[e]+=X[e]/w/rad/(ld)n; } ex[i]={H,d}; ld kf=kdv?(1+std::max(std::abs(l),1/std::abs(l))*1.0L+ (ld)std::abs(l)*std::abs(l)):1; gr[i]=std::max<ld>(pf,mx(H))*kf; if(pf>1e12) c.discard(); ld cplx=(bd==fnft_nse_discretization_CF5_3||bd==fnft_nse_discretization_CF6_4)?20:1; ld S=norm?ldexpl(1,W[i]):1;
        ld grow=gr[i]*exp(fabsl(l.imag())*len*0.5L); ld tol=EPS*60*(De+10)*grow*cplx*(1+eps*std::abs(l)); for(int e=0;e<4;e++){ cl v=L(R[i*(deriv?8:4)+e])*S; ld er=std::abs(v-H[e]); if(!(er<=tol)) c.fail("S%d%d at lambda=%.15g%+.15gi: %.12Lg%+.12Lgi, product of exponentials %.12Lg%+.12Lgi (error %.3Lg, tolerance %.3Lg)",e/2+1,e%2+1,lam[i].real(),lam[i].imag(),v.real(),v.imag(),H[e].real(),H[e].imag(),er,tol); if(deriv){ cl w=L(R[i*8+4+e])*S; ld td=tol*(len*40+ (kdv?10/std::abs(l):0))+1e-15L*grow/rad; er=std::abs(w-d[e]); if(!(er<=td)) c.fail("dS%d%d/dlambda at lambda=%.15g%+.15gi: %.12Lg%+.12Lgi, numerical derivative %.12Lg%+.12Lgi (error %.3Lg, tolerance %.3Lg)",e/2+1,e%2+1,lam[i].real(),lam[i].imag(),w.real(),w.imag(),d[e].real(),d[e].imag(),er,td); c.label(strf("slack%d",er>0?(int)floor(log10((double)(er/td))):-99)); } } }
    // bound state variant: a and a' (any lambda; KdV: on the imaginary axis where they are real/imaginary)
    bool ok=true; for(auto&l:lam) if(kdv?(l.real()!=0||l.imag()<=0):l.imag()<0) ok=false; if(!ok) return; c.label("bound_state_variant"); vector<cd> av(K),ap(K),bv(K); vector<FNFT_INT> Ws(K); bool skip=c.chance(0.6); rc= kdv? fnft__kdv_scatter_bound_states(De,p.q,p.r,T,K,F(lam.data()),F(av.data()),F(ap.data()),skip?NULL:F(bv.data()),norm?Ws.data():NULL,(fnft_kdv_discretization_t)disc,skip): fnft__nse_scatter_bound_states(De,p.q,p.r,T,K,F(lam.data()),F(av.data()),F(ap.data()),skip?NULL:F(bv.data()),norm?Ws.data():NULL,(fnft_nse_discretization_t)bd,skip); if(rc) c.fail("bound state variant: error code %d",rc);
    bool cplxw=bd==fnft_nse_discretization_CF5_3||bd==fnft_nse_discretization_CF6_4; if(kdv&&cplxw) return; ld ln=(ld)eps*D; for(size_t i=0;i<K;i++){ cl l=L(lam[i]); cl f=std::exp(J*l*ln); cl A=ex[i][0][0]*f,Ad=(ex[i][1][0]+J*ln*ex[i][0][0])*f; if(kdv){ A=A.real(); Ad=cl(0,Ad.imag()); } ld S=norm?ldexpl(1,Ws[i]):1; ld b=gr[i]*exp(fabsl(l.imag())*len*0.5L)*std::abs(f)*EPS*200*(De+10)*(1+eps*std::abs(l))*(1+fabs(T[0])*std::abs(lam[i])*0.1)*(cplxw?20:1); ld e1=std::abs(L(av[i])*S-A),e2=std::abs(L(ap[i])*S-Ad); ld t2=b*(len*40+(kdv?10/std::abs(l):0)+fabs(T[0])+fabs(T[1])); if(!(e1<=b)) c.fail("a(%.15g%+.15gi)=%.12g%+.12gi, transfer matrix gives %.12Lg%+.12Lgi (error %.3Lg, tolerance %.3Lg)",lam[i].real(),lam[i].imag(),av[i].real(),av[i].imag(),A.real()/S,A.imag()/S,e1,b); if(!(e2<=t2)) c.fail("a'(%.15g%+.15gi)=%.12g%+.12gi, transfer matrix gives %.12Lg%+.12Lgi (error %.3Lg, tolerance %.3Lg)",lam[i].real(),lam[i].imag(),ap[i].real(),ap[i].imag(),Ad.real()/S,Ad.imag()/S,e2,t2); }
}
LAW("C18",nse_scattering_matrix_and_derivative,8000,500000,"signal not identically zero"){ slow_law(c,false); }
LAW("C18",kdv_scattering_matrix_and_derivative,8000,500000,"signal not identically zero"){ slow_law(c,true); }
LAW("C18",manakov_scattering_matrix,40000,500000,"signal not identically zero"){
    vector<int> sd; for(int d=0;d<12;d++) if(mana_slow(d)) sd.push_back(d); int disc=c.pick(sd); int upf=mana_up(disc); size_t D=gen::len(c,upf>1?2:2,60); double eps=c.logreal(0.01,2),a=c.logreal(0.02,4),amp=std::min(a/(eps*D),1/eps); int kappa=c.chance(0.5)?-1:1; std::string kind,k2; auto q1=gen::samples(c,D,amp,&kind),q2=gen::samples(c,D,amp*c.real(0,1),&k2); double len=eps*D; size_t K=1+c.draw(3); vector<cd> lam(K); for(auto&l:lam) l=c.chance(0.1)?cd(0,std::abs(q1[0])): cd(c.sreal(1.5/eps),c.chance(0.5)?0:c.sreal(5)/len); c.info("%s D=%zu eps=%g kappa=%d kinds=%s,%s lambda0=%.17g%+.17gi q1=%s q2=%s",mana_name(disc),D,eps,kappa,kind.c_str(),k2.c_str(),lam[0].real(),lam[0].imag(),gen::show(q1).c_str(),gen::show(q2).c_str()); c.label(mana_name(disc));
    struct P2 { FNFT_COMPLEX*a=0,*b=0; FNFT_UINT Dsub=0,fl[2]; ~P2(){ free(a); free(b);} } p; p.Dsub=D; auto dd=(fnft_manakov_discretization_t)disc; int rc=fnft__manakov_discretization_preprocess_signal(D,F(q1.data()),F(q2.data()),eps,&p.Dsub,&p.a,&p.b,p.fl,dd); if(rc) c.fail("preprocessing: error %d",rc); size_t De=D*upf; vector<cd> R(9*K+1,api::SENT); rc=fnft__manakov_scatter_matrix(De,p.a,p.b,eps,K,F(lam.data()),kappa,F(R.data()),dd); if(rc) c.fail("error code %d",rc); if(R.back()!=api::SENT) c.fail("wrote beyond the result"); bool nz=false; for(auto&x:q1) nz|=x!=0.0; for(auto&x:q2) nz|=x!=0.0; if(nz) c.nontrivial();
    for(size_t i=0;i<K;i++){ g_prefix=1; M3 H=mana_transfer(disc,q1,q2,eps,kappa,L(lam[i])); ld hm=g_prefix; for(auto&e:H) hm=std::max(hm,std::abs(e)); if(hm>1e12) c.discard(); ld tol=EPS*200*(De+10)*hm*exp(fabs(lam[i].imag())*len)*(1+eps*std::abs(lam[i])); for(int e=0;e<9;e++){ cl v=L(R[9*i+e]); ld er=std::abs(v-H[e]); if(!(er<=tol)) c.fail("S%d%d at lambda=%.15g%+.15gi: %.12Lg%+.12Lgi, product of exponentials %.12Lg%+.12Lgi (error %.3Lg, tolerance %.3Lg)",e/3+1,e%3+1,lam[i].real(),lam[i].imag(),v.real(),v.imag(),H[e].real(),H[e].imag(),er,tol); c.label(strf("slack%d",er>0?(int)floor(log10((double)(er/tol))):-99)); } }
}
// layer peeling
LAW("C18",layer_peeling_recovers_the_samples,40000,900000,"signal not identically zero"){
    bool kdv=c.chance(0.3); int kappa=c.chance(0.5)?-1:1; int bd= !kdv&&c.chance(0.5)?fnft_nse_discretization_2SPLIT2A:fnft_nse_discretization_2SPLIT2_MODAL; int disc=kdv?bd+28:bd; size_t D=(size_t)1<<c.range(1,8); double eps=c.logreal(0.005,3); double Lt=c.logreal(0.01,1.5); double amp=kdv? Lt*Lt/(eps*D)/(eps*D): Lt/(eps*D); if(kappa<0||bd==0) amp=std::min(amp,0.6/eps); else amp=std::min(amp,1.2/eps); if(kdv) amp=std::min(amp,0.5/(eps*eps)); std::string kind; auto q=gen::samples(c,D,amp,&kind); if(kdv) for(auto&x:q) x=x.real();
    c.info("%s D=%zu eps=%g kappa=%d kind=%s q=%s",kdv?kdv_name(disc):name(bd),D,eps,kappa,kind.c_str(),gen::show(q).c_str()); c.label(kdv?kdv_name(disc):name(bd)); Pre p; p.Dsub=D; vector<cd> h; FNFT_UINT deg; vector<cd> o(D+1,api::SENT); int rc; if(kdv){ rc=fnft__kdv_discretization_preprocess_signal(D,F(q.data()),eps,kappa,&p.Dsub,&p.q,&p.r,p.fl,(fnft_kdv_discretization_t)disc); h.assign(fnft__kdv_fscatter_numel(D,(fnft_kdv_discretization_t)disc),0); vector<cd> one(D,cd(-1)); rc|=fnft__kdv_fscatter(D,F(one.data()),F(q.data()),eps,kappa,F(h.data()),&deg,NULL,(fnft_kdv_discretization_t)disc); if(rc) c.fail("forward: %d",rc); rc=fnft__kdv_finvscatter(deg,F(h.data()),F(o.data()),eps,(fnft_kdv_discretization_t)disc); }
    else { rc=fnft__nse_discretization_preprocess_signal(D,F(q.data()),eps,kappa,&p.Dsub,&p.q,&p.r,p.fl,(fnft_nse_discretization_t)bd); h.assign(fnft__nse_fscatter_numel(D,(fnft_nse_discretization_t)bd),0); rc|=fnft__nse_fscatter(D,p.q,p.r,eps,F(h.data()),&deg,NULL,(fnft_nse_discretization_t)bd); if(rc) c.fail("forward: %d",rc); rc=fnft__nse_finvscatter(deg,F(h.data()),F(o.data()),eps,kappa,(fnft_nse_discretization_t)bd); } if(rc) c.fail("error code %d",rc); if(o[D]!=api::SENT) c.fail("wrote beyond the samples"); bool nz=false; for(auto&x:q) nz|=x!=0.0; if(nz) c.nontrivial(); double sc=kdv?eps*eps:eps,e=0; for(size_t i=0;i<D;i++){ double d=std::abs(o[i]-q[i])*sc; if(!(d<1e9)) d=1e9; e=std::max(e,d); } c.label(strf("err%d",e>0?(int)floor(log10(e)):-99)); double tol=1e-12*D*(kdv?1+D*eps*0.05:1); if(!(e<=tol)) c.fail("recovered samples differ by %.3g (step-normalized; tolerance %.3g)",e,tol);
}
