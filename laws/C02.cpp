// C02: symmetries and conservation laws of the NSE spectrum
#include "api.hpp"
using namespace pbt; using namespace api; using std::vector;
static QuietReg qr;
static const double PI=M_PI;
static Nsev make(int disc,const vector<cd>&q,const double*T,size_t M,const double*XI,int kappa,bool norm){ Nsev s; s.q=q; s.T[0]=T[0]; s.T[1]=T[1]; s.M=M; s.XI[0]=XI[0]; s.XI[1]=XI[1]; s.kappa=kappa; s.o.discretization=(fnft_nse_discretization_t)disc; s.o.contspec_type=fnft_nsev_cstype_AB; s.o.normalization_flag=norm; s.cs=true; return s; }
static bool in(int d,std::initializer_list<int> l){ for(int x:l) if(x==d) return true; return false; }
enum { MODAL=fnft_nse_discretization_2SPLIT2_MODAL,BO=fnft_nse_discretization_BO,A1=fnft_nse_discretization_2SPLIT1A,B1=fnft_nse_discretization_2SPLIT1B,A2=fnft_nse_discretization_2SPLIT2A,B2=fnft_nse_discretization_2SPLIT2B,CF42=fnft_nse_discretization_CF4_2,CF43=fnft_nse_discretization_CF4_3,CF53=fnft_nse_discretization_CF5_3,CF64=fnft_nse_discretization_CF6_4,ES4=fnft_nse_discretization_ES4,TES4=fnft_nse_discretization_TES4 };
struct Gen { int disc,kappa; size_t D; double T[2],eps,XI[2]; size_t M; vector<cd> q; std::string kind; double cond; };
static Gen gen1(Case&c,std::initializer_list<int> only={}){
    Gen g; if(only.size()) g.disc=c.pick(vector<int>(only)); else g.disc=(int)c.draw(27); g.kappa=c.chance(0.5)?-1:1; bool up=g.disc>=fnft_nse_discretization_4SPLIT4A; size_t maxD=ref::degree(g.disc)>20?64:300; g.D=gen::len(c,up?3:2,maxD); gen::window(c,g.T); g.eps=(g.T[1]-g.T[0])/(g.D-1);
    double lim=c.chance(0.2)&&ref::degree(g.disc)<6?1.2:0.35; if(g.disc==MODAL&&g.kappa<0) lim=std::min(lim,0.8); double amp=std::min(lim/g.eps,(g.kappa<0?6.0:30.0)/(g.D*g.eps)); g.q=gen::samples(c,g.D,amp,&g.kind);
    g.M=2+c.draw(14); double span=c.logreal(0.1,30),ctr=c.sreal(10); g.XI[0]=ctr-span/2; g.XI[1]=ctr+span/2;
    c.info("disc=%s kappa=%d D=%zu T=[%.17g,%.17g] M=%zu XI=[%.17g,%.17g] kind=%s q=%s",ref::name(g.disc),g.kappa,g.D,g.T[0],g.T[1],g.M,g.XI[0],g.XI[1],g.kind.c_str(),gen::show(g.q).c_str());
    g.cond=ref::cond((fnft_nse_discretization_t)g.disc,g.q,g.eps,g.kappa); if(g.cond>1e6) c.discard(); c.label(ref::name(g.disc)); return g; }
LAW("C02",nse_unimodularity,6000,300000,"signal not identically zero"){
    Gen g=gen1(c,{MODAL,BO,A1,B1,A2,B2,CF42,CF43,ES4,TES4}); auto s=make(g.disc,g.q,g.T,g.M,g.XI,g.kappa,!c.chance(0.3)); if(s.run()) c.fail("error %d",s.rc); if(g.kind!="zero") c.nontrivial();
    for(size_t i=0;i<g.M;i++){ double A=std::norm(s.C[i]),B=std::norm(s.C[g.M+i]); double e=fabs(A+g.kappa*B-1); double tol=2e-8*std::max({1.0,A,B,g.cond*g.cond})+1e-12*g.D; if(!(e<=tol)) c.fail("|a|^2%+d|b|^2-1=%.3g at grid point %zu (|a|^2=%.6g)",g.kappa,e,i,A); }
}
// documented transformation rules of the spectrum under transformations of the signal
LAW("C02",nse_signal_transformations,9000,500000,"signal not identically zero"){
    enum{PHASE,SHIFT,DILATE,CONJ,REVERSE,FREQ,PAD,NTR}; int tr=(int)c.draw(NTR-1); static const char*tn[]={"phase","shift","dilate","conjugate","reverse","freqshift","zeropad"}; Gen g;
    if(tr==CONJ) g=gen1(c,{MODAL,BO,A1,B1,A2,B2,fnft_nse_discretization_2SPLIT2S,fnft_nse_discretization_2SPLIT3A,fnft_nse_discretization_2SPLIT3B,fnft_nse_discretization_2SPLIT3S,fnft_nse_discretization_2SPLIT4A,fnft_nse_discretization_2SPLIT4B,fnft_nse_discretization_2SPLIT5A,fnft_nse_discretization_2SPLIT6B,fnft_nse_discretization_2SPLIT8B,fnft_nse_discretization_4SPLIT4A,fnft_nse_discretization_4SPLIT4B,CF42,CF43,ES4,TES4});
    else if(tr==REVERSE) g=gen1(c,{MODAL,BO,A2,B2,CF42,fnft_nse_discretization_4SPLIT4A,fnft_nse_discretization_4SPLIT4B,fnft_nse_discretization_2SPLIT4A,fnft_nse_discretization_2SPLIT4B,ES4,TES4});
    else if(tr==FREQ) g=gen1(c,{MODAL,A1,B1,A2});
    else if(tr==PAD) g=gen1(c,{MODAL,BO,A1,B1,A2,B2,fnft_nse_discretization_2SPLIT4A,fnft_nse_discretization_2SPLIT4B,fnft_nse_discretization_2SPLIT6B,fnft_nse_discretization_2SPLIT8A});
    else g=gen1(c); 
    bool norm=!c.chance(0.3); if((tr==CONJ||tr==REVERSE)&&g.disc>=fnft_nse_discretization_4SPLIT4A&&g.disc<=CF64&&g.D%2==0){ // an even length has an unpaired Nyquist mode in the interpolation: use odd lengths
        g.D+=1; g.q.push_back(cd(0,0)); g.eps=(g.T[1]-g.T[0])/(g.D-1); g.cond=ref::cond((fnft_nse_discretization_t)g.disc,g.q,g.eps,g.kappa); if(g.cond>1e6) c.discard(); for(auto&x:g.q) if(std::abs(x)*g.eps>1.2) c.discard(); }
    auto s=make(g.disc,g.q,g.T,g.M,g.XI,g.kappa,norm); Gen h=g; std::function<cd(size_t)> fa,fb; auto xi=[&](size_t i){ return g.XI[0]+(g.XI[1]-g.XI[0])/(g.M-1)*i; }; vector<cd> out;
    auto A=[&](size_t i){return s.C[i];}; auto Bv=[&](size_t i){return s.C[g.M+i];}; double extra=0;
    switch(tr){
    case PHASE: { double p=c.real(0,6.283); c.info(" phase %g",p); for(auto&x:h.q) x*=std::polar(1.0,p); fa=A; fb=[=,&s](size_t i){return s.C[g.M+i]*std::polar(1.0,-p);}; break; }
    case SHIFT: { double t=c.sreal(20); c.info(" shift %g",t); h.T[0]+=t; h.T[1]+=t; extra=1e-14*fabs(t)/g.eps; fa=A; fb=[=,&s](size_t i){return s.C[g.M+i]*std::polar(1.0,-2*xi(i)*t);}; break; }
    case DILATE: { double k=c.logreal(0.1,10); c.info(" dilation %g",k); for(auto&x:h.q) x*=k; h.T[0]/=k; h.T[1]/=k; h.XI[0]*=k; h.XI[1]*=k; fa=A; fb=Bv; break; }
    case CONJ: for(auto&x:h.q) x=std::conj(x); h.XI[0]=-g.XI[1]; h.XI[1]=-g.XI[0]; fa=[=,&s](size_t i){return std::conj(s.C[g.M-1-i]);}; fb=[=,&s](size_t i){return std::conj(s.C[2*g.M-1-i]);}; break;
    case REVERSE: for(size_t i=0;i<g.D;i++) h.q[i]=std::conj(g.q[g.D-1-i]); h.T[0]=-g.T[1]; h.T[1]=-g.T[0]; fa=A; fb=[=,&s](size_t i){return std::conj(s.C[g.M+i]);}; break;
    case FREQ: { double w=c.sreal(5); c.info(" frequency %g",w); for(size_t i=0;i<g.D;i++) h.q[i]*=std::polar(1.0,-2*w*(g.T[0]+g.eps*i)); h.XI[0]+=w; h.XI[1]+=w; fa=A; double off= g.disc==A1? w*g.eps: g.disc==B1? -w*g.eps: 0; // one-sided splittings place the potential at a step's edge: a constant phase
        fb=[=,&s](size_t i){return s.C[g.M+i]*std::polar(1.0,off);}; break; }
    case PAD: { size_t l=c.draw(20),r=c.draw(20); c.info(" zeros %zu,%zu",l,r); h.q.insert(h.q.begin(),l,cd(0,0)); h.q.insert(h.q.end(),r,cd(0,0)); h.T[0]-=l*g.eps; h.T[1]+=r*g.eps; fa=A; fb=Bv; break; }
    }
    c.label(tn[tr]); if(s.run()) c.fail("error %d",s.rc); auto t=make(h.disc,h.q,h.T,h.M,h.XI,h.kappa,c.chance(0.5)); if(t.run()) c.fail("error %d after %s",t.rc,tn[tr]); if(g.kind!="zero") c.nontrivial();
    double sc=g.cond; for(size_t i=0;i<2*g.M;i++) sc=std::max({sc,std::abs(s.C[i]),std::abs(t.C[i])}); if(sc>1e8) c.discard(); double ph=std::max({fabs(g.XI[0]),fabs(g.XI[1]),fabs(h.XI[0]),fabs(h.XI[1])})*(fabs(g.T[0])+fabs(g.T[1])+fabs(h.T[0])+fabs(h.T[1])); double tol=(1e-8+3e-14*ph+extra)*sc;
    for(size_t i=0;i<g.M;i++){ cd ea=fa(i),eb=fb(i); double d1=std::abs(ea-t.C[i]),d2=std::abs(eb-t.C[g.M+i]); if(!(d1<=tol)) c.fail("%s: a differs by %.3g (tol %.2g) at grid point %zu",tn[tr],d1,tol,i); if(!(d2<=tol)) c.fail("%s: b differs by %.3g (tol %.2g) at grid point %zu",tn[tr],d2,tol,i); }
}
// nonlinear Parseval: signal energy = energy of continuous + discrete spectrum
LAW("C02",nse_energy_balance,500,20000,"energy above 1e-3"){
    int kappa=c.chance(0.4)?-1:1; auto s=gen::smooth(c,kappa<0?2.0:5.0); int disc=c.pick({(int)fnft_nse_discretization_4SPLIT4B,(int)fnft_nse_discretization_4SPLIT4A,(int)fnft_nse_discretization_2SPLIT4B,(int)fnft_nse_discretization_2SPLIT2A,(int)MODAL,(int)fnft_nse_discretization_2SPLIT2S,(int)fnft_nse_discretization_2SPLIT3A,(int)fnft_nse_discretization_2SPLIT6B,(int)B2,(int)fnft_nse_discretization_2SPLIT4A});
    double T[2]={s.T0,s.T1}; double S=std::max({s.bw/2,s.amp,1.0}); double e0=0.06/S; size_t D=(size_t)((T[1]-T[0])/e0)+2; if(D>1400) D=1400; double eps=(T[1]-T[0])/(D-1); if(eps*S>0.12) c.discard();
    double X=std::min(0.45*PI/eps,6*s.bw+4*s.amp); size_t M=(size_t)(2*X/ (0.35/(T[1]-T[0])*3.1))+64; double XI[2]={-X,X}; auto q=gen::sample([&](double t){return s(t);},T,D); 
    c.info("disc=%s kappa=%d D=%zu T=[%g,%g] M=%zu XI=+-%g pulses=%zu",ref::name(disc),kappa,D,T[0],T[1],M,X,s.p.size()); for(auto&p:s.p) c.info(" {A=%g tau=%g w=%g om=%g kind=%d}",p.A,p.tau,p.w,p.om,p.kind);
    auto n=make(disc,q,T,M,XI,kappa,true); n.bs=true; n.o.contspec_type=fnft_nsev_cstype_BOTH; n.o.bound_state_localization=c.chance(0.7)?fnft_nsev_bsloc_SUBSAMPLE_AND_REFINE:fnft_nsev_bsloc_FAST_EIGENVALUE; if(D>400) n.o.bound_state_localization=fnft_nsev_bsloc_SUBSAMPLE_AND_REFINE; n.maxcap(); if(n.run()) c.fail("error %d",n.rc);
    double E=0; for(auto&x:q) E+=std::norm(x)*eps; double Ec=0,lowest=1; double dx=(XI[1]-XI[0])/(M-1); double amin=1e9; for(size_t i=0;i<M;i++){ double r=std::norm(n.C[i]); double d= kappa>0? log1p(r): -log1p(-r); Ec+=d*dx/PI; amin=std::min(amin,std::abs(n.C[M+i])); } double Ed=0; for(size_t k=0;k<n.K;k++){ if(fabs(n.B[k].real())>X) continue; // artefacts of the discretization near its resonances
        Ed+=4*n.B[k].imag(); lowest=std::min(lowest,n.B[k].imag()); }
    if(kappa<0&&n.K!=0) c.fail("%zu bound states reported in the defocusing case",n.K);
    c.label(strf("K=%zu",n.K)); c.label(ref::name(disc)); if(E>1e-3) c.nontrivial();
    double tol=5e-3*E+1e-6+ (amin<0.1&&kappa>0? 4*dx:0); // an eigenvalue close to the real line makes the integrand sharp
    if(kappa>0&&amin<0.02) c.discard();
    if(!(fabs(E-Ec-Ed)<=tol)) c.fail("signal energy %.6g but continuous part %.6g + discrete part %.6g (K=%zu)",E,Ec,Ed,n.K);
}
// bound states and norming constants move with the signal
LAW("C02",nse_bound_states_transform,1200,60000,"at least one well-conditioned bound state"){
    auto s=gen::smooth(c,8.0); int disc=c.pick({(int)fnft_nse_discretization_2SPLIT4B,(int)fnft_nse_discretization_2SPLIT2A,(int)MODAL,(int)fnft_nse_discretization_4SPLIT4B,(int)fnft_nse_discretization_2SPLIT3A,(int)fnft_nse_discretization_4SPLIT4A,(int)fnft_nse_discretization_2SPLIT6B,(int)A1}); double T[2]={s.T0,s.T1}; double S=std::max({s.bw/2,s.amp,1.0}); size_t D=(size_t)((T[1]-T[0])/(0.15/S))+3; if(D>500) D=500; D|=1; double eps=(T[1]-T[0])/(D-1); if(eps*S>0.3) c.discard();
    auto q=gen::sample([&](double t){return s(t);},T,D); double XI[2]={-1,1}; c.info("disc=%s D=%zu T=[%g,%g]",ref::name(disc),D,T[0],T[1]); for(auto&p:s.p) c.info(" {A=%g tau=%g w=%g om=%g kind=%d}",p.A,p.tau,p.w,p.om,p.kind);
    auto mk=[&](const vector<cd>&qq,const double*TT){ auto n=make(disc,qq,TT,0,XI,1,true); n.cs=false; n.bs=n.nc=true; n.o.discspec_type=fnft_nsev_dstype_BOTH; n.o.bound_state_localization=fnft_nsev_bsloc_SUBSAMPLE_AND_REFINE; n.maxcap(); return n; };
    enum{PHASE,SHIFT,DILATE,REVERSE}; int tr=(int)c.draw(3); static const char*tn[]={"phase","shift","dilate","reverse"}; c.label(tn[tr]); auto n=mk(q,T); vector<cd> h=q; double TT[2]={T[0],T[1]}; double par=0;
    switch(tr){ case PHASE: par=c.real(0,6.283); for(auto&x:h) x*=std::polar(1.0,par); break; case SHIFT: par=c.sreal(3); TT[0]+=par; TT[1]+=par; break; case DILATE: par=c.logreal(0.2,5); for(auto&x:h) x*=par; TT[0]/=par; TT[1]/=par; break; default: for(size_t i=0;i<D;i++) h[i]=std::conj(q[D-1-i]); TT[0]=-T[1]; TT[1]=-T[0]; }
    c.info(" %s %g",tn[tr],par); auto m=mk(h,TT); if(n.run()) c.fail("error %d",n.rc); if(m.run()) c.fail("error %d after %s",m.rc,tn[tr]); c.label(strf("K=%zu",n.K)); cd I(0,1);
    for(size_t k=0;k<n.K;k++){ cd l=n.B[k]; cd b=n.N[k],r=n.N[n.K+k]; if(l.imag()<0.05||fabs(l.real())>0.6*PI/eps/2) continue; cd ap=b/r; double sens=std::abs(ap); cd l2= tr==DILATE? l*par: l; double bestd=1e9; size_t bi=0; for(size_t j=0;j<m.K;j++) if(std::abs(m.B[j]-l2)<bestd){ bestd=std::abs(m.B[j]-l2); bi=j; }
        double sep=1e9; for(size_t j=0;j<n.K;j++) if(j!=k) sep=std::min(sep,std::abs(n.B[j]-l)); if(sep<0.02||sens<0.02) continue; c.nontrivial(); double tolr=1e-7*(tr==DILATE?std::max(1.0,par):1); if(!(bestd<=tolr)) c.fail("%s: bound state %.10g%+.10gi has no counterpart (closest %.3g away, K=%zu vs %zu)",tn[tr],l2.real(),l2.imag(),bestd,n.K,m.K);
        cd eb=b,er=r; switch(tr){ case PHASE: eb=b*std::polar(1.0,-par); er=r*std::polar(1.0,-par); break; case SHIFT: eb=b*std::exp(-2.0*I*l*par); er=r*std::exp(-2.0*I*l*par); break; case DILATE: er=r*par; break; case REVERSE: eb=1.0/b; er=1.0/(b*ap); break; }
        double tol=1e-5;
        if(!(std::abs(m.N[bi]-eb)<=tol*std::abs(eb))) c.fail("%s: norming constant of %.6g%+.6gi is %.8g%+.8gi, expected %.8g%+.8gi",tn[tr],l.real(),l.imag(),m.N[bi].real(),m.N[bi].imag(),eb.real(),eb.imag());
        if(!(std::abs(m.N[m.K+bi]-er)<=10*tol*std::abs(er))) c.fail("%s: residue of %.6g%+.6gi is %.8g%+.8gi, expected %.8g%+.8gi",tn[tr],l.real(),l.imag(),m.N[m.K+bi].real(),m.N[m.K+bi].imag(),er.real(),er.imag());
    }
}
