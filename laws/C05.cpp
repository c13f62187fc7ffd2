// C05: norming constants and residues of the NSE bound states
#include "nse_bs.hpp"
using namespace pbt; using namespace api; using namespace nb; using std::vector; using ref::M2;
static QuietReg qr;
static const double PI=M_PI;
static void show(Case&c,const Nsev&n){ c.info("disc=%s D=%zu T=[%.17g,%.17g] loc=%d filt=%d type=%d q=%s",ref::name(n.o.discretization),n.q.size(),n.T[0],n.T[1],n.o.bound_state_localization,n.o.bound_state_filtering,n.o.discspec_type,gen::show(n.q).c_str()); }
// b at l by matching forward and backward solutions where both components agree best; a'(l)
struct BA { cl b,ap; ld mis; };
static BA refb(int bd,const vector<cd>&q,const double*T,cl l){
    size_t D=q.size(); ld eps=((ld)T[1]-T[0])/(D-1); vector<M2> S; ref::nse_steps((D_t)bd,q,eps,1,l,S); size_t N=S.size(); ld t0=T[0]-eps/2,t1=T[1]+eps/2; vector<cl> f1(N+1),f2(N+1); f1[0]=std::exp(-ref::J*l*t0); f2[0]=0; for(size_t n=0;n<N;n++){ f1[n+1]=S[n][0]*f1[n]+S[n][1]*f2[n]; f2[n+1]=S[n][2]*f1[n]+S[n][3]*f2[n]; }
    cl p1=0,p2=std::exp(ref::J*l*t1); BA r; r.mis=1e99L; r.b=0; auto chk=[&](size_t n){ cl b0=f1[n]/p1,b1=f2[n]/p2; ld m=0.5L*std::abs(std::log(b1/b0)); if(m<r.mis){ r.mis=m; r.b=b0; } }; for(size_t n=N;;n--){ if(n<N&&n>0) chk(n); if(!n) break; const M2&M=S[n-1]; cl d=M[0]*M[3]-M[1]*M[2]; cl u1=(M[3]*p1-M[1]*p2)/d,u2=(M[0]*p2-M[2]*p1)/d; p1=u1;p2=u2; }
    Afun f{bd,q,T}; r.ap=deriv(f,l,1e-3L/(1+std::abs(t1-t0)/10)); return r; }
static void signal(Case&c,Nsev&n,int&disc,double&eps,gen::Smooth&s,int maxdeg){
    disc=(int)c.draw(27); n.o.discretization=(D_t)disc; int dg=ref::degree(disc); s=gen::smooth(c,10.0,3,false,0.5,0.45); n.T[0]=s.T0; n.T[1]=s.T1; double S=std::max({s.bw/2,s.amp,1.0}); size_t D=(size_t)((s.T1-s.T0)/(c.real(0.1,0.3)/S))+3; if(D*std::max(dg,1)>(size_t)maxdeg&&dg) { disc=c.pick({11,20,3,0}); dg=ref::degree(disc); n.o.discretization=(D_t)disc; } if(D>400) c.discard(); eps=(s.T1-s.T0)/(D-1); n.q=gen::sample([&](double t){return s(t);},n.T,D); n.bs=n.nc=true; n.o.normalization_flag=!c.chance(0.35);
    bool slow=ref::is_slow(disc); int loc=slow?1:(int)c.draw(2); if(loc==0&&D*dg>(size_t)maxdeg) loc=2; n.o.bound_state_localization=(fnft_nsev_bsloc_t)loc; n.o.bound_state_filtering=loc==1?c.pick({fnft_nsev_bsfilt_FULL,fnft_nsev_bsfilt_NONE,fnft_nsev_bsfilt_BASIC}):c.pick({fnft_nsev_bsfilt_FULL,fnft_nsev_bsfilt_BASIC}); n.maxcap();
    if(loc==1){ Nsev h; h.q=n.q; h.T[0]=n.T[0]; h.T[1]=n.T[1]; h.bs=true; h.o.bound_state_filtering=fnft_nsev_bsfilt_FULL; h.maxcap(); if(h.run()) c.fail("finding guesses: error %d",h.rc); for(size_t k=0;k<h.K;k++) if(h.B[k].imag()>0.08&&fabs(h.B[k].real())<0.3*PI/eps) n.guess.push_back(h.B[k]+std::polar(1e-3,(double)k)); if(c.chance(0.5)) std::reverse(n.guess.begin(),n.guess.end()); n.cap=n.guess.size(); if(!n.cap) c.discard(); }
    for(auto&p:s.p) c.info(" {A=%g tau=%g w=%g om=%g kind=%d}",p.A,p.tau,p.w,p.om,p.kind);
}
LAW("C05",nse_norming_constants_and_residues_match_reference,1500,120000,"at least one well-conditioned bound state compared"){
    Nsev n; int disc; double eps; gen::Smooth s; signal(c,n,disc,eps,s,700); n.o.discspec_type=c.pick({fnft_nsev_dstype_NORMING_CONSTANTS,fnft_nsev_dstype_RESIDUES,fnft_nsev_dstype_BOTH}); n.o.contspec_type=c.pick({fnft_nsev_cstype_REFLECTION_COEFFICIENT,fnft_nsev_cstype_AB}); if(c.chance(0.2)){ n.cs=true; n.M=7; } show(c,n); if(n.run()){ if(n.rc==-FNFT_EC_DIV_BY_ZERO&&n.o.bound_state_filtering!=fnft_nsev_bsfilt_FULL) c.discard(); c.fail("error %d for valid input",n.rc); }
    int bd=base_disc(disc); Afun f{bd,n.q,n.T}; c.label(ref::name(disc)); c.label(strf("loc%d",n.o.bound_state_localization)); int seen=0; bool both=n.o.discspec_type==fnft_nsev_dstype_BOTH,res=n.o.discspec_type!=fnft_nsev_dstype_NORMING_CONSTANTS;
    for(size_t k=0;k<n.K&&seen<4;k++){ cd l0=n.B[k]; if(l0.imag()<0.06||fabs(l0.real())>0.4*PI/eps||l0.imag()>0.5/eps) continue; cl l(l0.real(),l0.imag()),lp=l; if(!polish(f,lp,0.05L)) continue; double d=(double)std::abs(lp-l); bool crowd=false; for(size_t j=0;j<n.K;j++) if(j!=k&&std::abs(n.B[j]-l0)<0.02+20*d) crowd=true; if(crowd) continue;
        BA r=refb(bd,n.q,n.T,lp); if(!(r.mis<1e-3)) continue; double rad=std::max(2*d,4e-15*(1+std::abs(l0))); double db=0,dr=0; cl rr=r.b/r.ap; for(int j=0;j<4;j++){ BA v=refb(bd,n.q,n.T,lp+std::polar<ld>(rad,PI/4+j*PI/2)); db=std::max(db,(double)std::abs(v.b-r.b)); dr=std::max(dr,(double)std::abs(v.b/v.ap-rr)); }
        double ab=(double)std::abs(r.b),ar=(double)std::abs(rr); if(!(db<0.02*ab)||!(dr<0.02*ar)) continue; seen++; double tb=1e-8*ab+6*db,tr=1e-8*ar+6*dr;
        auto cmp=[&](cd got,cl want,double tol,const char*what){ double e=(double)std::abs(cl(got.real(),got.imag())-want); if(!(e<=tol)) c.fail("%s %zu at %.12g%+.12gi is %.12g%+.12gi, expected %.12Lg%+.12Lgi (error %.3g, allowed %.3g)",what,k,l0.real(),l0.imag(),got.real(),got.imag(),want.real(),want.imag(),e,tol); };
        if(!res||both) cmp(n.N[k],r.b,tb,"norming constant"); if(res) cmp(n.N[both?n.K+k:k],rr,tr,"residue"); }
    if(seen) c.nontrivial(); c.label(strf("states=%d",seen)); for(size_t i=(both?2:1)*n.K;i<n.N.size();i++) if(n.N[i]!=SENT&&n.o.bound_state_localization!=2) c.fail("entry %zu beyond the %zu results was written",i,(both?2:1)*n.K);
}
// the three output types are views of the same numbers
LAW("C05",nse_output_types_agree,600,60000,"at least one bound state"){
    Nsev n; int disc; double eps; gen::Smooth s; signal(c,n,disc,eps,s,500); n.o.discspec_type=fnft_nsev_dstype_BOTH; show(c,n); if(n.run()){ if(n.rc==-FNFT_EC_DIV_BY_ZERO&&n.o.bound_state_filtering!=fnft_nsev_bsfilt_FULL) c.discard(); c.fail("error %d",n.rc); } Nsev b=n,r=n; b.o.discspec_type=fnft_nsev_dstype_NORMING_CONSTANTS; r.o.discspec_type=fnft_nsev_dstype_RESIDUES; if(b.run()||r.run()) c.fail("error %d/%d",b.rc,r.rc); if(n.K) c.nontrivial(); if(n.K!=b.K||n.K!=r.K) c.fail("number of bound states depends on the output type: %zu %zu %zu",n.K,b.K,r.K);
    auto same=[](cd x,cd y){ return x==y||(std::isnan(std::abs(x))&&std::isnan(std::abs(y)))||std::abs(x-y)<=1e-11*std::abs(x); };
    for(size_t k=0;k<n.K;k++){ if(!same(n.B[k],b.B[k])||!same(n.B[k],r.B[k])) c.fail("bound state %zu depends on the output type",k); if(!same(n.N[k],b.N[k])) c.fail("BOTH: entry %zu is not norming constant %zu",k,k); if(!same(n.N[n.K+k],r.N[k])) c.fail("BOTH: entry K+%zu is not residue %zu",k,k); }
}
// A/w sech((t-tau)/w) exp(-2i om t + i ph): eigenvalues, norming constants and residues are known in closed form
LAW("C05",nse_sech_norming_constants_converge,600,40000,"error at the coarse step between rounding and 10 percent"){
    int disc; do disc=(int)c.draw(27); while(ref::degree(disc)>24); int Nb=(int)c.range(1,3); double A=Nb+c.real(-0.05,0.3); double w=c.logreal(0.4,2.5), tau=c.sreal(1.5)*w, om=c.sreal(1.0)/w, ph=c.real(0,6.28); double L=(18.0+fabs(tau/w))*w; double T[2]={tau-L,tau+L*c.real(0.9,1)}; double h=c.real(0.12,0.2)*w/(1+0.4*A)/(1+0.5*fabs(om*w)); size_t D0=(size_t)((T[1]-T[0])/h)+1; auto f=[&](double t){ return std::polar(A/w/std::cosh((t-tau)/w),-2*om*t+ph); };
    bool slow=ref::is_slow(disc); int loc=slow?1:(int)c.draw(2); int order=ref::order(base_disc(disc)); if(loc==0){ if(ref::degree(disc)*D0*2>900) loc=1; else { int so=(disc==fnft_nse_discretization_2SPLIT1A||disc==fnft_nse_discretization_2SPLIT1B)?2:ref::order(disc); order=std::min(order,so); } } bool res=c.chance(0.5); c.info("disc=%s A=%g w=%g tau=%g om=%g T=[%g,%g] D=%zu loc=%d %s",ref::name(disc),A,w,tau,om,T[0],T[1],D0,loc,res?"residues":"norming constants"); c.label(ref::name(disc)); c.label(strf("loc%d",loc));
    vector<double> err[2]; for(int k=0;k<2;k++){ Nsev n; n.T[0]=T[0]; n.T[1]=T[1]; n.q=gen::sample(f,T,D0<<k); n.bs=n.nc=true; n.o.discspec_type=res?fnft_nsev_dstype_RESIDUES:fnft_nsev_dstype_NORMING_CONSTANTS; n.o.discretization=(D_t)disc; n.o.bound_state_localization=(fnft_nsev_bsloc_t)loc; if(loc==1){ for(int j=0;j<Nb;j++) n.guess.push_back(cd(om,(A-0.5-j)/w)+std::polar(0.03/w,1.0+j)); n.cap=Nb; } else n.maxcap(); if(n.run()) c.fail("error %d for valid input",n.rc);
        for(int j=0;j<Nb;j++){ double eta=A-0.5-j; cd l0(0,eta/w),t=cd(om,0)+l0; double b=1e9; size_t w0=0; for(size_t i=0;i<n.K;i++) if(std::abs(n.B[i]-t)<b){ b=std::abs(n.B[i]-t); w0=i; } if(b*w>0.2) c.fail("eigenvalue %d not found",j);
            cd want=std::exp(cd(0,-2)*l0*tau)*std::polar(1.0,-ph)*((j%2)?1.0:-1.0); if(res){ double g=exp(2*lgamma(A-j)-lgamma(2*A-j)+lgamma(j+1.0)); cd ap=cd(0,-1)*((j%2)?-1.0:1.0)*g*w; want/=ap; } err[k].push_back(std::abs(n.N[w0]-want)/std::abs(want)); } }
    for(int j=0;j<Nb;j++){ if(A-0.5-j<0.44) continue; if(!(err[0][j]<0.6)) { c.label("coarse"); continue; } if(err[0][j]<0.1&&err[1][j]>1e-8) c.nontrivial(); double fl=loc==0?0.02:1e-7; if(!(err[1][j]<=std::max(fl,err[0][j]*pow(2.0,-(order-0.7))))) c.fail("%s %d: relative error %.4g with %zu samples, %.4g with twice as many: order %.2f, documented %d",res?"residue":"norming constant",j,err[0][j],D0,err[1][j],log2(err[0][j]/err[1][j]),order); }
}
