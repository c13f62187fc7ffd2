// C14: Manakov continuous spectrum is the scattering data of the given samples
#include "api.hpp"
using namespace pbt; using namespace api; using std::vector;
static QuietReg qr;
typedef fnft_manakov_discretization_t MD;
static int pickdisc(Case&c){ int d; do d=(int)c.draw(12); while(d==9); return d; }   // FTES4_4B is not offered by fnft_manakovv
static double xiat(const Mana&n,size_t i){ return n.XI[0]+(n.M>1? (n.XI[1]-n.XI[0])/(double)(n.M-1)*(double)i:0.0); }
static void xigrid(Case&c,double XI[2],double mx){ double s=c.logreal(0.05,mx); XI[0]=c.sreal(s); XI[1]=XI[0]+s*c.logreal(0.05,2); }
static void show(Case&c,const Mana&n){ c.info("disc=%s kappa=%d D=%zu T=[%.17g,%.17g] M=%zu XI=[%.17g,%.17g] cstype=%d norm=%d q1=%s q2=%s",ref::mana_name(n.o.discretization),n.kappa,n.q1.size(),n.T[0],n.T[1],n.M,n.XI[0],n.XI[1],n.o.contspec_type,n.o.normalization_flag,gen::show(n.q1).c_str(),gen::show(n.q2).c_str()); }
// random pair of sampled components
static void pairgen(Case&c,Mana&n,size_t D,double amp){ int k=(int)c.draw(4); n.q1=gen::samples(c,D,amp); n.q2=gen::samples(c,D,amp*(k==1?1e-3:1)); if(k==2) std::fill(n.q2.begin(),n.q2.end(),0.0); if(k==3) std::fill(n.q1.begin(),n.q1.end(),0.0); if(k==4) for(size_t i=0;i<D;i++) n.q2[i]=n.q1[i]*cd(0.6,-0.8); }
static void setup(Case&c,Mana&n,size_t maxD){ int disc=pickdisc(c); n.o.discretization=(MD)disc; size_t D=gen::len(c,ref::mana_up(disc)==2?2:2,maxD); gen::window(c,n.T); n.kappa=c.chance(0.5)?-1:1; double eps=(n.T[1]-n.T[0])/(D-1); double amp=std::min((c.chance(0.2)?1.2:0.4)/eps,c.logreal(0.2,12)/(D*eps)); pairgen(c,n,D,amp); n.cs=true; n.M=1+c.draw(9); xigrid(c,n.XI,3/eps); n.o.normalization_flag=!c.chance(0.3); n.o.contspec_type=(fnft_manakovv_cstype_t)c.draw(2); }
static bool nonzero(const Mana&n){ for(auto&x:n.q1) if(x!=0.0) return true; for(auto&x:n.q2) if(x!=0.0) return true; return false; }
LAW("C14",manakov_contspec_is_discretized_scattering,9000,400000,"signal not identically zero"){
    Mana n; setup(c,n,120); show(c,n); int disc=n.o.discretization; size_t D=n.q1.size(); double eps=(n.T[1]-n.T[0])/(D-1); if(n.run()) c.fail("returned error code %d for valid arguments",n.rc); c.label(ref::mana_name(disc)); c.label(n.kappa>0?"focusing":"defocusing"); if(nonzero(n)) c.nontrivial(); else c.label("zero");
    size_t M=n.M; ref::g_prefix=1; vector<ref::AB3> R(M); double scale=1; for(size_t i=0;i<M;i++){ R[i]=ref::mana_ab(disc,n.q1,n.q2,n.T,n.kappa,cl(xiat(n,i),0)); scale=std::max<double>({scale,(double)std::abs(R[i].a),(double)std::abs(R[i].b1),(double)std::abs(R[i].b2)}); }
    scale=std::max({scale,ref::mana_cond(disc,n.q1,n.q2,eps,n.kappa),ref::g_prefix}); if(!(scale<1e6)) c.discard(); double phase=std::max(fabs(n.XI[0]),fabs(n.XI[1]))*(fabs(n.T[0])+fabs(n.T[1])+eps*D); double tol=(5e-10+1e-14*phase)*scale;
    double worst=1e-9; auto cmp=[&](const char*what,size_t i,cd x,cl y,double t){ double e=(double)std::abs(cl(x.real(),x.imag())-y); worst=std::max(worst,e/t); if(!(e<=t)) c.fail("%s at xi=%.9g: library %.15g%+.15gi, reference %.15Lg%+.15Lgi, error %.3g > %.3g",what,xiat(n,i),x.real(),x.imag(),y.real(),y.imag(),e,t); };
    size_t o=0; int cst=n.o.contspec_type; if(cst!=fnft_manakovv_cstype_AB){ for(size_t i=0;i<M;i++){ double am=(double)std::abs(R[i].a); if(am<1e-3) continue; cl r1=R[i].b1/R[i].a,r2=R[i].b2/R[i].a; cmp("first reflection coefficient",i,n.C[i],r1,tol/am*(1+(double)std::abs(r1))); cmp("second reflection coefficient",i,n.C[M+i],r2,tol/am*(1+(double)std::abs(r2))); } o=2*M; }
    if(cst!=fnft_manakovv_cstype_REFLECTION_COEFFICIENT) for(size_t i=0;i<M;i++){ cmp("a",i,n.C[o+i],R[i].a,tol); cmp("b1",i,n.C[o+M+i],R[i].b1,tol); cmp("b2",i,n.C[o+2*M+i],R[i].b2,tol); }
    for(size_t i=n.cslen();i<n.C.size();i++) if(n.C[i]!=SENT) c.fail("wrote beyond the end of the spectrum array");
    c.label(strf("slack%d",(int)floor(log10(worst))));
}
LAW("C14",manakov_contspec_converges_at_documented_order,1200,50000,"error at the finer step above rounding, below 10 percent at the coarser"){
    Mana n; int disc=pickdisc(c); n.o.discretization=(MD)disc; n.kappa=c.chance(0.5)?-1:1; auto s1=gen::smooth(c,3.0,2,false,0.05,1.3),s2=gen::smooth(c,3.0,2,false,0.05,1.3); n.T[0]=std::min(s1.T0,s2.T0); n.T[1]=std::max(s1.T1,s2.T1); double S=std::max({s1.bw/2,s2.bw/2,std::hypot(s1.amp,s2.amp),1.0}); double X=c.real(0.5,1.0)*S; n.XI[0]=-X*c.real(0.1,1); n.XI[1]=X; n.M=8; n.cs=true; n.o.contspec_type=fnft_manakovv_cstype_AB;
    int p=ref::mana_order(disc); double e0=(p>=4?0.3:0.15)/S*c.real(0.7,1.3); size_t D=(size_t)((n.T[1]-n.T[0])/e0)+3; if(D>1200) c.discard(); vector<cd> lam(n.M),A,B1,B2; for(size_t i=0;i<n.M;i++) lam[i]=xiat(n,i); ref::Fun f1=[&](double t){return s1(t);},f2=[&](double t){return s2(t);}; double pad=e0; ref::mana_true(f1,f2,n.T[0]-pad,n.T[1]+pad,(int)((n.T[1]-n.T[0]+2*pad)*S*14)+50,n.kappa,lam,A,B1,B2);
    c.info("disc=%s kappa=%d D=%zu T=[%g,%g] XI=[%g,%g]",ref::mana_name(disc),n.kappa,D,n.T[0],n.T[1],n.XI[0],n.XI[1]); for(auto*s:{&s1,&s2}) for(auto&p:s->p) c.info(" {A=%g tau=%g w=%g om=%g kind=%d}",p.A,p.tau,p.w,p.om,p.kind);
    double err[3]; double sc=1; for(auto&x:A) sc=std::max(sc,std::abs(x)); for(auto&x:B1) sc=std::max(sc,std::abs(x)); for(auto&x:B2) sc=std::max(sc,std::abs(x)); size_t M=n.M; auto level=[&](int k){ n.q1=gen::sample(f1,n.T,D<<k); n.q2=gen::sample(f2,n.T,D<<k); if(n.run()) c.fail("error code %d",n.rc); err[k]=0; for(size_t i=0;i<M;i++) err[k]=std::max({err[k],std::abs(n.C[i]-A[i])/sc,std::abs(n.C[M+i]-B1[i])/sc,std::abs(n.C[2*M+i]-B2[i])/sc}); if(std::isnan(err[k])) c.fail("NaN in the continuous spectrum"); }; level(0); level(1);
    c.label(ref::mana_name(disc)); if(err[1]>1e-8&&err[0]<0.1) c.nontrivial(); if(err[0]>0.3) c.fail("error %.3g at D=%zu (step small against amplitude and bandwidth): does not approximate the true transform",err[0],D);
    if(err[0]<0.1&&err[1]>std::max(1e-8,err[0]*pow(2.0,-(p-0.7)))){ level(2); if(err[2]>std::max(1e-8,std::max(err[1]*pow(2.0,-(p-0.7)),err[0]*pow(2.0,-2*(p-0.7))))) c.fail("error %.4g with D samples, %.4g with 2D, %.4g with 4D: orders %.2f, %.2f, documented %d",err[0],err[1],err[2],log2(err[0]/err[1]),log2(err[1]/err[2]),p); c.label("cancellation"); }
}
LAW("C14",manakov_contspec_symmetries,6000,250000,"signal not identically zero"){
    Mana n; setup(c,n,150); n.o.contspec_type=fnft_manakovv_cstype_BOTH; show(c,n); int disc=n.o.discretization; size_t D=n.q1.size(),M=n.M; double eps=(n.T[1]-n.T[0])/(D-1); bool up=ref::mana_up(disc)==2; double cond=ref::mana_cond(disc,n.q1,n.q2,eps,n.kappa); if(cond>1e4) c.discard(); if(n.run()) c.fail("error code %d",n.rc); c.label(ref::mana_name(disc)); if(nonzero(n)) c.nontrivial();
    double scale=1; for(size_t i=0;i<3*M;i++) scale=std::max(scale,std::abs(n.C[2*M+i])); scale=std::max(scale,cond); double phase=std::max(fabs(n.XI[0]),fabs(n.XI[1]))*(fabs(n.T[0])+fabs(n.T[1])+eps*D); double tol=(1e-9+1e-14*phase)*scale*4; auto a=[&](const Mana&m,size_t i){return m.C[2*M+i];}; auto b1=[&](const Mana&m,size_t i){return m.C[3*M+i];}; auto b2=[&](const Mana&m,size_t i){return m.C[4*M+i];};
    for(size_t i=0;i<M;i++) if(std::abs(a(n,i))>1e-2) if(!(std::abs(n.C[i]*a(n,i)-b1(n,i))<=1e-11*scale)||!(std::abs(n.C[M+i]*a(n,i)-b2(n,i))<=1e-11*scale)) c.fail("reflection coefficients are not b1/a, b2/a at index %zu",i);
    // unimodularity for steps that are exact exponentials
    if(ref::mana_slow(disc)) for(size_t i=0;i<M;i++){ double u=std::norm(a(n,i))+n.kappa*(std::norm(b1(n,i))+std::norm(b2(n,i)))-1; if(!(fabs(u)<=tol*2*scale)) c.fail("|a|^2%+d(|b1|^2+|b2|^2)-1 = %.3g at xi=%g",n.kappa,u,xiat(n,i)); }
    // unitary mixing of the components: q -> Q q, b -> conj(Q) b
    double th=c.real(0,1.57),ph=c.real(0,6.28),ps=c.real(0,6.28); cd g=std::polar(1.0,c.real(0,6.28)); cd Q[4]={g*std::polar(cos(th),ph),g*std::polar(sin(th),ps),-g*std::polar(sin(th),-ps),g*std::polar(cos(th),-ph)}; Mana r=n; for(size_t i=0;i<D;i++){ r.q1[i]=Q[0]*n.q1[i]+Q[1]*n.q2[i]; r.q2[i]=Q[2]*n.q1[i]+Q[3]*n.q2[i]; } if(r.run()) c.fail("error code %d for the rotated signal",r.rc);
    for(size_t i=0;i<M;i++){ cd e1=std::conj(Q[0])*b1(n,i)+std::conj(Q[1])*b2(n,i),e2=std::conj(Q[2])*b1(n,i)+std::conj(Q[3])*b2(n,i); if(!(std::abs(a(r,i)-a(n,i))<=tol)) c.fail("a changes by %.3g under a unitary rotation of the components",std::abs(a(r,i)-a(n,i))); if(!(std::abs(b1(r,i)-e1)<=tol)||!(std::abs(b2(r,i)-e2)<=tol)) c.fail("b is not rotated with the components (errors %.3g, %.3g)",std::abs(b1(r,i)-e1),std::abs(b2(r,i)-e2)); }
    // translation in time
    double sh=c.sreal(5); Mana t=n; t.T[0]+=sh; t.T[1]+=sh; if(t.run()) c.fail("error code %d for the translated window",t.rc); double tt=tol+1e-14*fabs(sh)*std::max(fabs(n.XI[0]),fabs(n.XI[1]))*scale*8; for(size_t i=0;i<M;i++){ cd w=std::polar(1.0,-2*xiat(n,i)*sh); if(!(std::abs(a(t,i)-a(n,i))<=tt)||!(std::abs(b1(t,i)-w*b1(n,i))<=tt)||!(std::abs(b2(t,i)-w*b2(n,i))<=tt)) c.fail("translation by %g: a changes by %.3g, b1 by %.3g, b2 by %.3g beyond the phase",sh,std::abs(a(t,i)-a(n,i)),std::abs(b1(t,i)-w*b1(n,i)),std::abs(b2(t,i)-w*b2(n,i))); }
    // stretching time
    double st=c.logreal(0.2,5); Mana u=n; for(auto&x:u.q1) x/=st; for(auto&x:u.q2) x/=st; for(double*p:{&u.T[0],&u.T[1]}) *p*=st; for(double*p:{&u.XI[0],&u.XI[1]}) *p/=st; if(u.run()) c.fail("error code %d for the stretched signal",u.rc); for(size_t i=0;i<3*M;i++) if(!(std::abs(u.C[2*M+i]-n.C[2*M+i])<=tt)) c.fail("coefficient %zu changes by %.3g when time is stretched by %g",i,std::abs(u.C[2*M+i]-n.C[2*M+i]),st);
    (void)up;
}
// one component only: the scalar equation
LAW("C14",manakov_reduces_to_the_scalar_equation,4000,150000,"signal not identically zero"){
    Mana n; setup(c,n,150); static const int map[13]={fnft_nse_discretization_2SPLIT3A,fnft_nse_discretization_2SPLIT3B,fnft_nse_discretization_2SPLIT4A,fnft_nse_discretization_2SPLIT4B,fnft_nse_discretization_2SPLIT6B,fnft_nse_discretization_4SPLIT4A,fnft_nse_discretization_4SPLIT4B,-1,-1,-1,-1,fnft_nse_discretization_CF4_2,fnft_nse_discretization_BO}; int disc=n.o.discretization; if(map[disc]<0) c.discard(); bool up=ref::mana_up(disc)==2; n.o.contspec_type=fnft_manakovv_cstype_AB; size_t D=n.q1.size(),M=n.M; double eps=(n.T[1]-n.T[0])/(D-1);
    bool second=c.chance(0.5); vector<cd> q=n.q1; if(up){ auto s=gen::smooth(c,4.0,2,false,0.2,1.3); n.T[0]=s.T0; n.T[1]=s.T1; D=(size_t)((s.T1-s.T0)/(0.18/std::max({s.bw/2,s.amp,1.0})))+3; if(D>700) c.discard(); q=gen::sample([&](double t){return s(t);},n.T,D); eps=(n.T[1]-n.T[0])/(D-1); n.XI[0]=-1; n.XI[1]=c.real(0,2); }
    n.q1=n.q2=vector<cd>(D,0.0); (second?n.q2:n.q1)=q; show(c,n); Nsev s; s.q=q; s.T[0]=n.T[0]; s.T[1]=n.T[1]; s.XI[0]=n.XI[0]; s.XI[1]=n.XI[1]; s.M=M; s.cs=true; s.kappa=n.kappa; s.o.discretization=(fnft_nse_discretization_t)map[disc]; s.o.contspec_type=fnft_nsev_cstype_AB; double cond=ref::mana_cond(disc,n.q1,n.q2,eps,n.kappa); if(cond>1e4) c.discard(); if(n.run()||s.run()) c.fail("error codes %d, %d",n.rc,s.rc); c.label(ref::mana_name(disc)); if(nonzero(n)) c.nontrivial();
    double scale=cond; for(size_t i=0;i<2*M;i++) scale=std::max(scale,std::abs(s.C[i])); double phase=std::max(fabs(n.XI[0]),fabs(n.XI[1]))*(fabs(n.T[0])+fabs(n.T[1])+eps*D); double tol=(up?1e-6:1e-9+1e-14*phase)*scale*4; for(size_t i=0;i<M;i++){ cd b=n.C[(second?2:1)*M+i],z=n.C[(second?1:2)*M+i]; if(z!=0.0&&std::abs(z)>tol) c.fail("b of the vanishing component is %.3g",std::abs(z)); if(!(std::abs(n.C[i]-s.C[i])<=tol)) c.fail("a differs from the scalar transform by %.3g at xi=%g",std::abs(n.C[i]-s.C[i]),xiat(n,i)); if(!(std::abs(b-s.C[M+i])<=tol)) c.fail("b differs from the scalar transform by %.3g at xi=%g",std::abs(b-s.C[M+i]),xiat(n,i)); }
}
