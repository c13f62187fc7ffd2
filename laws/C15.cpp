// C15: Manakov bound states are the eigenvalues of the discretized problem
#include "nse_bs.hpp"
using namespace pbt; using namespace api; using namespace nb; using std::vector;
static QuietReg qr;
static const double PI=M_PI;
typedef fnft_manakov_discretization_t MD;
struct MA { int disc; const vector<cd>&q1,&q2; const double*T; cl operator()(cl l)const{ return ref::mana_ab(disc,q1,q2,T,1,l).a; } };
static int fastdisc(Case&c){ int d; do d=(int)c.draw(10); while(d==9); return d; }
static void show(Case&c,const Mana&n){ c.info("disc=%s kappa=%d D=%zu T=[%.17g,%.17g] Dsub=%zu filt=%d norm=%d cap=%zu q1=%s q2=%s",ref::mana_name(n.o.discretization),n.kappa,n.q1.size(),n.T[0],n.T[1],n.o.Dsub,n.o.bound_state_filtering,n.o.normalization_flag,n.cap,gen::show(n.q1).c_str(),gen::show(n.q2).c_str()); }
static int tdeg(int disc){ return ref::mana_degree(disc)*ref::mana_up(disc); }
static void maxcap(Mana&n){ n.cap=fnft_manakovv_max_K(n.q1.size(),&n.o); }
static void siggen(Case&c,Mana&n,int disc,size_t D,double&eps){ gen::window(c,n.T); eps=(n.T[1]-n.T[0])/(D-1); double amp=std::min((c.chance(0.25)?0.8:0.4)/eps,18.0/(D*eps)); int k=(int)c.draw(3); n.q1=gen::samples(c,D,amp); n.q2=gen::samples(c,D,amp); if(k==1) std::fill(n.q2.begin(),n.q2.end(),0.0); if(k==2) for(size_t i=0;i<D;i++) n.q2[i]=n.q1[i]*cd(0.6,-0.8); if(k==3) std::fill(n.q1.begin(),n.q1.end(),0.0); }
LAW("C15",manakov_bound_states_exact_and_complete,900,90000,"at least one zero inside the counted rectangle"){
    Mana n; int disc=fastdisc(c); n.o.discretization=(MD)disc; int dg=tdeg(disc); size_t sub=c.chance(0.3)?2+c.draw(2):1; size_t Ds=gen::len(c,ref::mana_up(disc)==2?2:2,std::max(5,std::min(70,500/dg))); double eps; siggen(c,n,disc,Ds*sub,eps); n.bs=true; n.o.bound_state_localization=c.chance(0.5)?fnft_manakovv_bsloc_FAST_EIGENVALUE:fnft_manakovv_bsloc_SUBSAMPLE_AND_REFINE; n.o.Dsub=Ds; n.o.bound_state_filtering=c.chance(0.5)?fnft_manakovv_bsfilt_BASIC:fnft_manakovv_bsfilt_FULL; n.o.normalization_flag=!c.chance(0.3); maxcap(n); show(c,n);
    vector<cd> p1,p2; for(size_t i=0;i<Ds*sub;i+=sub){ p1.push_back(n.q1[i]); p2.push_back(n.q2[i]); } double es=eps*sub; double T[2]={n.T[0],n.T[0]+(Ds-1)*es}; MA f{disc,p1,p2,T}; double cond=ref::mana_cond(disc,p1,p2,es,1); if(cond>1e4) c.discard(); if(n.run()) c.fail("error %d for valid input",n.rc); if(n.K>n.cap) c.fail("K=%zu exceeds the array length",n.K); c.label(ref::mana_name(disc)); c.label(sub>1?"subsampled":"all samples");
    double R=disc==10? PI/(es/3): PI*dg/2/es; R=std::min(R,3*PI/es); double E=l2(p1,es)+l2(p2,es); double x1=R*c.real(0.2,0.85),x0=-R*c.real(0.2,0.85); double y0=c.real(0.002,0.1)/(Ds*es),y1=0.25*E*1.4+2*y0; double ym=disc==10? 5.0/(Ds*es): dg/2.0*3/es; /* suzuki: negative substeps amplify rounding by exp(4/3 Im(lambda) Ds*es) */ if(y1>ym) y1=ym; if(y1<=1.5*y0) c.discard();
    size_t inside=0; for(size_t k=0;k<n.K;k++){ cd l=n.B[k]; if(!(l.imag()>=0)) c.fail("bound state %.10g%+.10gi in the lower half plane",l.real(),l.imag()); for(size_t j=0;j<k;j++) if(std::abs(n.B[j]-l)<1e-8) c.fail("bound state %.10g%+.10gi reported twice",l.real(),l.imag()); if(l.real()>x0&&l.real()<x1&&l.imag()>y0&&l.imag()<y1) inside++; if(fabs(l.real())>0.9*R||l.imag()>y1) continue; double v=(double)std::abs(f(cl(l.real(),l.imag()))); if(!(v<=3e-8*cond*dg)) c.fail("|a|=%.3g at the reported bound state %.10g%+.10gi (not an eigenvalue of the discretization)",v,l.real(),l.imag()); }
    int w=winding(f,x0,x1,y0,y1,0.6/(Ds*es),1e-7*cond*dg); if(w<0) c.discard(); c.label(strf("zeros=%d",w>5?5:w)); if(w>0) c.nontrivial(); if((size_t)w!=inside) c.fail("rectangle [%g,%g]x[%g,%g] contains %d zeros of a but %zu were reported (K=%zu)",x0,x1,y0,y1,w,inside,n.K);
}
// vector solitons with known eigenvalues
LAW("C15",manakov_sech_eigenvalues_converge,500,30000,"error at the finer step above rounding"){
    int disc=fastdisc(c); int Nb=(int)c.range(1,3); double A=Nb+c.real(-0.2,0.3),w=c.logreal(0.4,2.5),tau=c.sreal(2)*w,om=c.sreal(0.7)/w,ph=c.real(0,6.28),th=c.real(0,1.57),p2=c.real(0,6.28); double L=(14.0+fabs(tau/w))*w; double T[2]={tau-L,tau+L*c.real(0.9,1)}; bool def=c.chance(0.4); size_t D=(size_t)((T[1]-T[0])/(c.real(0.16,0.24)*w/(1+0.3*A)))+1; if(def) D=(size_t)((T[1]-T[0])/(c.real(0.02,0.03)*w/(1+0.3*A)))+1; if((def?sqrt((double)D)*log2((double)D):2.0*D)*tdeg(disc)>1500||D>3000) c.discard();
    auto f=[&](double t){ return std::polar(A/w/cosh((t-tau)/w),-2*om*t+ph); }; c.info("disc=%s A=%g w=%g tau=%g om=%g theta=%g T=[%g,%g] D=%zu default Dsub=%d",ref::mana_name(disc),A,w,tau,om,th,T[0],T[1],D,def); c.label(ref::mana_name(disc)); c.label(def?"default":"all samples"); vector<double> err[2]; int p=ref::mana_order(disc);
    for(int k=0;k<(def?1:2);k++){ Mana n; n.T[0]=T[0]; n.T[1]=T[1]; auto q=gen::sample(f,T,D<<k); for(auto&x:q){ n.q1.push_back(x*cos(th)); n.q2.push_back(x*std::polar(sin(th),p2)); } n.bs=true; n.o.discretization=(MD)disc; if(!def) n.o.Dsub=D<<k; maxcap(n); if(n.run()) c.fail("error %d",n.rc); for(int j=0;j<Nb;j++){ cd t(om,(A-0.5-j)/w); double b=1e9; for(size_t i=0;i<n.K;i++) b=std::min(b,std::abs(n.B[i]-t)); err[k].push_back(b*w); } }
    for(int j=0;j<Nb;j++){ if(A-0.5-j<0.35) continue; if(!(err[0][j]<=0.35)) c.fail("no bound state near eigenvalue %d, i%g (distance %.3g/width)",j,(A-0.5-j)/w,err[0][j]); if(def){ c.nontrivial(); continue; } if(err[1][j]>1e-7) c.nontrivial(); if(err[0][j]<0.1&&err[1][j]>std::max(2e-7,err[0][j]*pow(2.0,-(p-0.7)))) c.fail("eigenvalue %d: error %.3g with D samples, %.3g with 2D (order %.2f, documented %d)",j,err[0][j],err[1][j],log2(err[0][j]/err[1][j]),p); }
}
LAW("C15",manakov_counts_capacity_and_independence,1500,100000,"at least one bound state in the full call"){
    Mana n; int disc=fastdisc(c); n.o.discretization=(MD)disc; int dg=tdeg(disc); size_t D=gen::len(c,ref::mana_up(disc)==2?2:2,std::max(6,std::min(60,420/dg))); double eps; siggen(c,n,disc,D,eps); n.bs=true; n.o.bound_state_filtering=(fnft_manakovv_bsfilt_t)c.draw(2); n.o.bound_state_localization=(fnft_manakovv_bsloc_t)(c.chance(0.5)?0:2); n.o.Dsub=c.chance(0.5)?D:c.chance(0.3)?D+c.draw(5):D>3?0:D; maxcap(n); show(c,n); if(n.run()) c.fail("error %d for valid input",n.rc); c.label(ref::mana_name(disc)); c.label(strf("filter%d",n.o.bound_state_filtering)); if(n.K) c.nontrivial(); if(n.K>n.cap) c.fail("K=%zu exceeds max_K=%zu",n.K,n.cap); auto all=n.B; size_t K=n.K;
    for(size_t i=n.cap;i<n.B.size();i++) if(n.B[i]!=SENT) c.fail("wrote beyond the end of the bound state array");
    if(n.o.bound_state_filtering==fnft_manakovv_bsfilt_NONE&&n.o.Dsub>=D&&K!=n.cap) c.fail("unfiltered call reported %zu of %zu roots",K,n.cap);
    // the same with a short array
    Mana s=n; s.cap=c.draw(std::min<size_t>(K+1,40)); if(K>1&&c.chance(0.5)) s.cap=K-1; if(s.run()) c.fail("error %d with capacity %zu",s.rc,s.cap); if(s.K!=std::min(K,s.cap)) c.fail("%zu bound states exist, capacity %zu, but %zu were returned",K,s.cap,s.K); for(size_t k=0;k<s.K;k++){ bool ok=false; for(size_t j=0;j<K;j++) ok|=all[j]==s.B[k]||(std::isnan(std::abs(all[j]))&&std::isnan(std::abs(s.B[k]))); if(!ok) c.fail("entry %zu with capacity %zu is not one of the bound states of the full call",k,s.cap); } for(size_t i=s.cap;i<s.B.size();i++) if(s.B[i]!=SENT) c.fail("wrote beyond the capacity %zu",s.cap);
    // independent of the continuous spectrum
    Mana t=n; t.cs=true; t.M=1+c.draw(6); t.o.contspec_type=(fnft_manakovv_cstype_t)c.draw(2); if(t.run()) c.fail("error %d when the continuous spectrum is requested, too",t.rc); if(t.K!=K) c.fail("K=%zu, but %zu without the continuous spectrum",t.K,K); for(size_t k=0;k<K;k++) if(!(t.B[k]==all[k])&&!std::isnan(std::abs(all[k]))) c.fail("bound state %zu depends on whether the continuous spectrum is requested",k);
    Mana u=t; u.bs=false; u.cap=7; if(u.run()) c.fail("error %d without bound states",u.rc); if(u.K!=0) c.fail("K=%zu although no bound states were requested",u.K); for(size_t i=0;i<u.cslen();i++) if(!(u.C[i]==t.C[i])&&!std::isnan(std::abs(t.C[i]))) c.fail("continuous spectrum depends on whether bound states are requested");
    Mana d=n; d.kappa=-1; if(D>2&&c.chance(0.3)) d.o.discretization=c.pick({fnft_manakov_discretization_BO,fnft_manakov_discretization_CF4_2}); d.cs=c.chance(0.5); d.M=d.cs?5:0; if(d.run()) c.fail("error %d in the defocusing case",d.rc); if(d.K!=0) c.fail("K=%zu in the defocusing case",d.K); for(auto&x:d.B) if(x!=SENT) c.fail("bound state array written in the defocusing case");
}
LAW("C15",manakov_bound_states_match_the_scalar_equation,500,40000,"at least one bound state compared"){
    static const int map[5]={fnft_nse_discretization_2SPLIT3A,fnft_nse_discretization_2SPLIT3B,fnft_nse_discretization_2SPLIT4A,fnft_nse_discretization_2SPLIT4B,fnft_nse_discretization_2SPLIT6B}; Mana n; int disc=(int)c.draw(4); n.o.discretization=(MD)disc; size_t D=gen::len(c,2,std::min(80,700/tdeg(disc))); gen::window(c,n.T); double eps=(n.T[1]-n.T[0])/(D-1); auto q=gen::samples(c,D,std::min(0.5/eps,18.0/(D*eps))); double th=c.real(0,1.57),ph=c.real(0,6.28); for(auto&x:q){ n.q1.push_back(x*cos(th)); n.q2.push_back(x*std::polar(sin(th),ph)); } n.bs=true; n.o.Dsub=D; n.o.bound_state_filtering=fnft_manakovv_bsfilt_BASIC; maxcap(n); show(c,n); Nsev s; s.q=q; s.T[0]=n.T[0]; s.T[1]=n.T[1]; s.bs=true; s.o.discretization=(fnft_nse_discretization_t)map[disc]; s.o.bound_state_localization=fnft_nsev_bsloc_FAST_EIGENVALUE; s.o.bound_state_filtering=fnft_nsev_bsfilt_BASIC; s.maxcap();
    double cond=ref::mana_cond(disc,n.q1,n.q2,eps,1); if(cond>1e4) c.discard(); if(n.run()||s.run()) c.fail("error codes %d, %d",n.rc,s.rc); c.label(ref::mana_name(disc)); Afun f{map[disc],s.q,s.T}; double R=0.85*PI*std::min(1.0,ref::degree(map[disc])/2.0)/eps, ylo=0.05/(D*eps);
    auto sub=[&](const vector<cd>&A,size_t KA,const vector<cd>&B,size_t KB,const char*w1,const char*w2){ for(size_t k=0;k<KA;k++){ cd l=A[k]; if(fabs(l.real())>R||l.imag()<ylo||l.imag()>3/eps) continue; ld dv=std::abs(deriv(f,cl(l.real(),l.imag()),1e-3L/eps*0.1L)); double tol=1e-7/eps+1e-8*cond/(double)dv; if(!(tol<0.05/eps)) continue; double b=1e99; for(size_t j=0;j<KB;j++) b=std::min(b,std::abs(B[j]-l)); c.nontrivial(); if(!(b<=tol)) c.fail("bound state %.10g%+.10gi of the %s equation is missing for the %s equation (closest %.3g)",l.real(),l.imag(),w1,w2,b); } };
    sub(n.B,n.K,s.B,s.K,"Manakov","scalar"); sub(s.B,s.K,n.B,n.K,"scalar","Manakov");
}
