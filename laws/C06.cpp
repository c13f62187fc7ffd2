// C06: Richardson extrapolation combines the solutions on the full and the halved grid, and nothing else changes
#include "nse_bs.hpp"
using namespace pbt; using namespace api; using std::vector;
static QuietReg qr;
struct Sub { size_t nskip,Dsub; double T[2]; double eps,epss; };
// the halved grid: every nskip-th sample, starting with the first
static Sub halved(size_t D,const double*T){ Sub s; s.eps=(T[1]-T[0])/(D-1); size_t want=std::max<size_t>(2,D/2); s.nskip=(size_t)std::floor((double)D/want+0.5); s.Dsub=(size_t)std::floor((double)D/s.nskip+0.5); s.T[0]=T[0]; s.T[1]=T[0]+s.eps*(double)((s.Dsub-1)*s.nskip); s.epss=s.eps*s.nskip; return s; }
static vector<cd> take(const vector<cd>&q,const Sub&s){ vector<cd> r(s.Dsub); for(size_t i=0;i<s.Dsub;i++) r[i]=q[i*s.nskip]; return r; }
struct Cmp { Case&c; double moved=0; 
  // x: extrapolated, f: full, h: halved
  void operator()(const char*what,size_t i,cd x,cd f,cd h,double s,double rel,double abs_){ cd w=(s*f-h)/(s-1); double d=std::abs(f-h); double tol=rel*d+abs_; if(!(std::abs(w)<1e100)) return; moved=std::max(moved,d/(s-1)/std::max(tol,1e-300)); double e=std::abs(x-w); if(!(e<=tol)) c.fail("%s %zu: extrapolated value %.13g%+.13gi, from the full grid %.13g%+.13gi, from the halved grid %.13g%+.13gi; expected %.13g%+.13gi (error %.3g, allowed %.3g)",what,i,x.real(),x.imag(),f.real(),f.imag(),h.real(),h.imag(),w.real(),w.imag(),e,tol); }
  void same(const char*what,size_t i,cd x,cd f){ if(!(std::abs(x-f)<=1e-11*std::abs(f))&&!(x==f)) c.fail("%s %zu: %.13g%+.13gi, without extrapolation %.13g%+.13gi; should be unchanged",what,i,x.real(),x.imag(),f.real(),f.imag()); } };
static double contmax(const vector<cd>&a){ double m=1; for(auto&x:a) if(x!=SENT&&std::abs(x)<1e60) m=std::max(m,std::abs(x)); return m; }
LAW("C06",nse_richardson_combines_full_and_halved_grid,2500,120000,"extrapolation changes a compared value visibly"){
    Nsev n; int disc=(int)c.draw(27); n.o.discretization=(nb::D_t)disc; bool up=disc>=fnft_nse_discretization_4SPLIT4A&&disc<=fnft_nse_discretization_4SPLIT4B; { std::string nm=ref::name(disc); if(nm.find("CF")!=std::string::npos) up=true; }
    n.kappa=c.chance(0.4)?-1:1; bool sm=up||c.chance(0.6); size_t D; gen::Smooth s; int dg=std::max(1,ref::degree(disc));
    if(sm){ s=gen::smooth(c,n.kappa<0?2.0:8.0,2,false,0.3,up?1:0.6); n.T[0]=s.T0; n.T[1]=s.T1; double S=std::max({s.bw/2,s.amp,1.0}); D=(size_t)((s.T1-s.T0)/(c.real(0.05,0.12)/S))+4; if(D*dg>3000) { disc=up?22:c.pick({3,11,4}); n.o.discretization=(nb::D_t)disc; dg=ref::degree(disc)<1?1:ref::degree(disc); } if(D>600) c.discard(); n.q=gen::sample([&](double t){return s(t);},n.T,D); }
    else { D=gen::len(c,2,160/ (dg>8?4:1)+4); if(D==2&&(disc>=20)) D=3; gen::window(c,n.T); double e=(n.T[1]-n.T[0])/(D-1); n.q=gen::samples(c,D,std::min(0.25/e,n.kappa<0?5.0/(D*e):9.0/(D*e))); }
    Sub sb=halved(D,n.T); double p=ref::order(disc), sc=std::pow(sb.epss/sb.eps,p);
    n.cs=!c.chance(0.25); n.M=n.cs?2+c.draw(8):0; double X=c.logreal(0.3,6); n.XI[0]=-X*c.real(0.2,1); n.XI[1]=X; if(n.cs&&c.chance(0.2)){ n.XI[1]=2/sb.epss; n.XI[0]=-n.XI[1]; }
    n.o.contspec_type=(fnft_nsev_cstype_t)c.draw(2); n.o.discspec_type=(fnft_nsev_dstype_t)c.draw(2); n.o.normalization_flag=!c.chance(0.3);
    bool slow=ref::is_slow(disc); n.bs=sm&&c.chance(0.7); int loc=slow?1:(int)c.draw(2); if(loc==0&&D*dg>900) loc=2; n.o.bound_state_localization=(fnft_nsev_bsloc_t)loc; n.o.bound_state_filtering=fnft_nsev_bsfilt_FULL;
    if(n.bs){ n.nc=!c.chance(0.25); n.maxcap(); if(loc==1&&n.kappa>0){ Nsev h; h.q=n.q; h.T[0]=n.T[0]; h.T[1]=n.T[1]; h.bs=true; h.maxcap(); if(h.run()) c.fail("guesses: error %d",h.rc); for(size_t k=0;k<h.K;k++) if(h.B[k].imag()>0.1&&fabs(h.B[k].real())<1.0/sb.epss) n.guess.push_back(h.B[k]); n.cap=n.guess.size(); } } if(!n.cs&&!n.bs) c.discard();
    c.info("disc=%s kappa=%d D=%zu T=[%.17g,%.17g] M=%zu XI=[%.17g,%.17g] cs=%d bs=%d nc=%d cstype=%d dstype=%d loc=%d norm=%d cap=%zu q=%s",ref::name(disc),n.kappa,D,n.T[0],n.T[1],n.M,n.XI[0],n.XI[1],n.cs,n.bs,n.nc,n.o.contspec_type,n.o.discspec_type,loc,n.o.normalization_flag,n.cap,gen::show(n.q).c_str());
    Nsev f=n; n.o.richardson_extrapolation_flag=1; if(f.run()){ if(f.rc==-FNFT_EC_DIV_BY_ZERO) c.discard(); c.fail("error %d without extrapolation",f.rc); } if(n.run()){ c.fail("error %d with extrapolation, none without",n.rc); }
    if(sb.nskip==1){ for(size_t k=0;k<n.cslen()&&n.cs;k++) if(!(n.C[k]==f.C[k])&&!(std::isnan(f.C[k].real())||std::isinf(std::abs(f.C[k])))) c.fail("two samples: entry %zu changed from %g%+gi to %g%+gi",k,f.C[k].real(),f.C[k].imag(),n.C[k].real(),n.C[k].imag()); c.label("D=2"); return; } Nsev h=f; h.q=take(f.q,sb); h.T[0]=sb.T[0]; h.T[1]=sb.T[1]; if(h.bs){ h.o.bound_state_localization=fnft_nsev_bsloc_NEWTON; h.guess.assign(f.B.begin(),f.B.begin()+(f.kappa>0?f.K:0)); h.cap=h.guess.size(); if(!h.cap&&n.kappa>0) h.bs=h.nc=false; } if(h.cs||h.bs) if(h.run()){ if(h.rc==-FNFT_EC_DIV_BY_ZERO) c.discard(); c.fail("error %d on the halved grid",h.rc); }
    c.label(ref::name(disc)); Cmp cm{c}; double amp=std::max(contmax(f.C),contmax(h.C)); double phase=(1+std::max(fabs(n.XI[0]),fabs(n.XI[1]))*(fabs(n.T[0])+fabs(n.T[1])+n.T[1]-n.T[0])); double at=1e-9*amp*amp+1e-12*phase*amp, rel=up?0.01:1e-6; if(up) at+=1e-7*amp;
    if(n.cs&&amp<1e4){ size_t o=0; for(size_t k=0;k<n.cslen();k++){ size_t i=k%n.M; double xi=n.XI[0]+(n.XI[1]-n.XI[0])*(double)i/(n.M-1); double lim=0.9*M_PI/(2*sb.epss); if(fabs(fabs(xi)-lim)<1e-9*lim) continue; if(fabs(xi)<lim) cm("continuous spectrum",k,n.C[k],f.C[k],h.C[k],sc,rel,at); else cm.same("continuous spectrum beyond the resolved band",k,n.C[k],f.C[k]); } (void)o; }
    if(n.bs){ if(n.K!=f.K) c.fail("%zu bound states with extrapolation, %zu without",n.K,f.K); if(n.kappa>0){ size_t hK=h.bs?h.K:0; bool res=n.o.discspec_type!=fnft_nsev_dstype_NORMING_CONSTANTS,both=n.o.discspec_type==fnft_nsev_dstype_BOTH; vector<int> used(hK,0); vector<int> m(n.K,-1);
        for(size_t k=0;k<n.K;k++){ double best=sb.eps,second=1e9; for(size_t j=0;j<hK;j++){ double d=std::abs(f.B[k]-h.B[j])/std::abs(f.B[k]); if(d<best){ second=best; best=d; m[k]=(int)j; } else second=std::min(second,d); } if(second<3*best+1e-9) m[k]=-2; if(m[k]>=0) used[m[k]]++; }
        for(size_t k=0;k<n.K;k++){ if(m[k]==-2||(m[k]>=0&&used[m[k]]>1)) continue; bool bad=f.B[k].imag()<0.06||std::abs(f.B[k].real())>0.4*M_PI/sb.epss; if(bad) continue; double b=std::abs(f.B[k]);
            if(m[k]<0){ cm.same("bound state without a partner",k,n.B[k],f.B[k]); } else cm("bound state",k,n.B[k],f.B[k],h.B[m[k]],sc,up?0.02:1e-3,1e-8*(1+b)*(up?30:1));
            if(n.nc){ size_t ro=both?n.K:0; if(!res||both) cm.same("norming constant",k,n.N[k],f.N[k]); if(res){ if(m[k]<0) cm.same("residue",k,n.N[ro+k],f.N[ro+k]); else if(both){ cd af=f.N[k]/f.N[n.K+k], ah=h.N[m[k]]/h.N[hK+m[k]], an=n.N[k]/n.N[n.K+k]; cm("derivative of a",k,an,af,ah,sc,up?0.05:0.01,1e-6*std::abs(af)); } } } }
        if(n.nc&&n.o.discspec_type==fnft_nsev_dstype_RESIDUES){ Nsev bb=n; bb.o.discspec_type=fnft_nsev_dstype_BOTH; if(bb.run()) c.fail("error %d for output type BOTH",bb.rc); for(size_t k=0;k<n.K&&k<bb.K;k++) cm.same("residue (compared with output type BOTH)",k,n.N[k],bb.N[bb.K+k]); } } else if(n.K) c.fail("bound states in the defocusing case"); }
    if(cm.moved>3) c.nontrivial(); c.label(strf("moved1e%d",(int)std::floor(std::log10(cm.moved+1e-9)))); if(n.bs&&n.K) c.label("with bound states");
}
LAW("C06",kdv_richardson_combines_full_and_halved_grid,6000,80000,"extrapolation changes a compared value visibly"){
    Kdvv n; int disc=(int)c.draw(55); n.o.discretization=(fnft_kdv_discretization_t)disc; int nd=disc%28; bool up=nd>=fnft_nse_discretization_4SPLIT4A&&nd<=fnft_nse_discretization_4SPLIT4B; { std::string nm=ref::name(nd); if(nm.find("CF")!=std::string::npos) up=true; } size_t D; int dg=std::max(1,ref::degree(nd));
    gen::Smooth s=gen::smooth(c,8.0,2,true,0.3,up?1:0.6); n.T[0]=s.T0; n.T[1]=s.T1; double S=std::max({s.bw/2,s.amp,1.0}); D=(size_t)((s.T1-s.T0)/(c.real(0.05,0.12)/S))+4; if(D*dg>3000||D>500) c.discard(); n.q=gen::sample([&](double t){return s(t);},n.T,D); if(!up&&c.chance(0.3)) for(auto&x:n.q) x*=c.real(0.8,1.2); 
    Sub sb=halved(D,n.T); double p=ref::order(nd), sc=std::pow(sb.epss/sb.eps,p); n.cs=!c.chance(0.25); n.M=n.cs?2+c.draw(8):0; double X=c.logreal(0.5,5); if(c.chance(0.5)){ n.XI[0]=X*c.real(0.1,0.8); n.XI[1]=X; } else { n.XI[0]=-X; n.XI[1]=-X*c.real(0.1,0.8); }
    if(n.cs&&c.chance(0.35)){ n.XI[1]=2/sb.epss; n.XI[0]=0.1*n.XI[1]; int w=(int)c.draw(2); if(w==1){ n.XI[0]=-n.XI[1]; n.XI[1]*=0.1; } else if(w==2) n.XI[0]=-n.XI[1]*c.real(0.8,1.2); }
    n.o.contspec_type=(fnft_kdvv_cstype_t)c.draw(2); n.o.discspec_type=(fnft_kdvv_dstype_t)c.draw(2); n.o.normalization_flag=!c.chance(0.3); n.bs=c.chance(0.7); n.o.bound_state_localization=c.chance(0.5)?fnft_kdvv_bsloc_NEWTON:fnft_kdvv_bsloc_GRIDSEARCH_AND_REFINE; n.o.grid_spacing=0.03; n.o.niter=20; n.cap=20; n.nc=n.bs&&!c.chance(0.25);
    if(n.bs&&n.o.bound_state_localization==fnft_kdvv_bsloc_NEWTON){ Kdvv g=n; g.cs=false; g.nc=false; g.M=0; g.o.bound_state_localization=fnft_kdvv_bsloc_GRIDSEARCH_AND_REFINE; if(g.run()) c.fail("guesses: error %d",g.rc); n.guess.assign(g.B.begin(),g.B.begin()+g.K); n.cap=g.K; } if(!n.cs&&!n.bs) c.discard();
    c.info("disc=%d (%s%s) D=%zu T=[%.17g,%.17g] M=%zu XI=[%.17g,%.17g] cs=%d bs=%d nc=%d cstype=%d dstype=%d loc=%d norm=%d cap=%zu q=%s",disc,ref::name(nd),disc<28?"_VANILLA":"",D,n.T[0],n.T[1],n.M,n.XI[0],n.XI[1],n.cs,n.bs,n.nc,n.o.contspec_type,n.o.discspec_type,n.o.bound_state_localization,n.o.normalization_flag,n.cap,gen::show(n.q).c_str()); for(auto&p:s.p) c.info(" {A=%g tau=%g w=%g kind=%d}",p.A,p.tau,p.w,p.kind);
    Kdvv f=n; n.o.richardson_extrapolation_flag=1; if(f.run()){ if(f.rc==-FNFT_EC_DIV_BY_ZERO) c.discard(); c.fail("error %d without extrapolation",f.rc); } if(n.run()) c.fail("error %d with extrapolation, none without",n.rc);
    Kdvv h=f; h.q=take(f.q,sb); h.T[0]=sb.T[0]; h.T[1]=sb.T[1]; if(h.bs){ h.o.bound_state_localization=fnft_kdvv_bsloc_NEWTON; h.guess.assign(f.B.begin(),f.B.begin()+f.K); h.cap=f.K; if(!h.cap) h.bs=h.nc=false; } if(h.cs||h.bs) if(h.run()){ if(h.rc==-FNFT_EC_DIV_BY_ZERO) c.discard(); c.fail("error %d on the halved grid",h.rc); }
    c.label(strf("%s%s",ref::name(nd),disc<28?"_V":"")); Cmp cm{c}; double amp=std::max(contmax(f.C),contmax(h.C)); double xm=std::max(fabs(n.XI[0]),fabs(n.XI[1])), xn=std::min(fabs(n.XI[0]),fabs(n.XI[1])); for(size_t i=0;i<n.M;i++) xn=std::min(xn,fabs(n.XI[0]+(n.XI[1]-n.XI[0])*(double)i/(n.M-1))); if(n.cs&&xn<1e-3) c.discard(); double phase=(1+xm*(fabs(n.T[0])+fabs(n.T[1])+n.T[1]-n.T[0])); double at=(1e-9*amp*amp+1e-12*phase*amp)*(1+1/xn), rel=up?0.02:1e-6; if(up) at+=1e-7*amp;
    if(n.cs&&amp<1e4) for(size_t k=0;k<n.cslen();k++){ size_t i=k%n.M; double xi=n.XI[0]+(n.XI[1]-n.XI[0])*(double)i/(n.M-1); double lim=0.9*M_PI/(2*sb.epss); if(fabs(fabs(xi)-lim)<1e-9*lim) continue; if(fabs(xi)<lim) cm("continuous spectrum",k,n.C[k],f.C[k],h.C[k],sc,rel,at); else cm.same("continuous spectrum beyond the resolved band",k,n.C[k],f.C[k]); }
    if(n.bs){ if(n.K!=f.K) c.fail("%zu bound states with extrapolation, %zu without",n.K,f.K); size_t hK=h.bs?h.K:0; bool res=n.o.discspec_type!=fnft_kdvv_dstype_NORMING_CONSTANTS,both=n.o.discspec_type==fnft_kdvv_dstype_BOTH; vector<int> m(n.K,-1),used(hK,0);
        for(size_t k=0;k<n.K;k++){ double best=sb.eps,second=1e9; for(size_t j=0;j<hK;j++){ double d=std::abs(f.B[k]-h.B[j])/std::abs(f.B[k]); if(d<best){ second=best; best=d; m[k]=(int)j; } else second=std::min(second,d); } if(second<3*best+1e-9) m[k]=-2; if(m[k]>=0) used[m[k]]++; }
        for(size_t k=0;k<n.K;k++){ if(m[k]==-2||(m[k]>=0&&used[m[k]]>1)||f.B[k].imag()<0.1) continue; double b=std::abs(f.B[k]); if(m[k]<0) cm.same("bound state without a partner",k,n.B[k],f.B[k]); else cm("bound state",k,n.B[k],f.B[k],h.B[m[k]],sc,up?0.02:1e-3,1e-8*(1+b)*(up?30:1));
            if(n.nc){ if(!res||both) cm.same("norming constant",k,n.N[k],f.N[k]); if(res&&both&&m[k]>=0){ cd af=f.N[k]/f.N[n.K+k], ah=h.N[m[k]]/h.N[hK+m[k]], an=n.N[k]/n.N[n.K+k]; cm("derivative of a",k,an,af,ah,sc,up?0.05:0.01,1e-6*std::abs(af)); } } }
        if(n.nc&&n.o.discspec_type==fnft_kdvv_dstype_RESIDUES){ Kdvv bb=n; bb.o.discspec_type=fnft_kdvv_dstype_BOTH; if(bb.run()) c.fail("error %d for output type BOTH",bb.rc); for(size_t k=0;k<n.K&&k<bb.K;k++) cm.same("residue (compared with output type BOTH)",k,n.N[k],bb.N[bb.K+k]); } }
    if(cm.moved>3) c.nontrivial(); if(n.bs&&n.K) c.label("with bound states");
}
LAW("C06",manakov_richardson_combines_full_and_halved_grid,800,40000,"extrapolation changes a compared value visibly"){
    Mana n; int disc; do disc=(int)c.draw(12); while(disc==fnft_manakov_discretization_FTES4_4B); n.o.discretization=(fnft_manakov_discretization_t)disc; bool up=(disc>=5&&disc<=7)||disc==11; static const int ord[]={2,2,2,2,2,4,4,4,4,4,4,4,2}; n.kappa=c.chance(0.4)?-1:1; bool sm=up||c.chance(0.5); size_t D; static const int dgs[]={6,6,8,4,12,8,4,12,8,8,14,1,1}; int dg=dgs[disc];
    if(sm){ gen::Smooth s=gen::smooth(c,n.kappa<0?1.5:5.0,2,false,0.3,up?1:0.6), s2=s; for(auto&p:s2.p){ p.A*=c.sreal(1.0); p.phi=c.real(0,6.28); } n.T[0]=s.T0; n.T[1]=s.T1; double S=std::max({s.bw/2,1.4*s.amp,1.0}); D=(size_t)((s.T1-s.T0)/(c.real(0.07,0.14)/S))+4; if(D*dg>2500||D>400) c.discard(); n.q1=gen::sample([&](double t){return s(t);},n.T,D); n.q2=gen::sample([&](double t){return s2(t);},n.T,D); if(c.chance(0.3)) std::swap(n.q1,n.q2); }
    else { D=gen::len(c,2,80); if(D==2&&((disc>=5&&disc<=7)||disc==11)) D=3; gen::window(c,n.T); double e=(n.T[1]-n.T[0])/(D-1); double am=std::min(0.2/e,4.0/(D*e)); n.q1=gen::samples(c,D,am); n.q2=gen::samples(c,D,am); }
    Sub sb=halved(D,n.T); double sc=std::pow(sb.epss/sb.eps,ord[disc]); n.cs=true; n.M=2+c.draw(8); double X=c.logreal(0.3,5); n.XI[0]=-X*c.real(0.2,1); n.XI[1]=X; if(c.chance(0.2)){ n.XI[1]=2/sb.epss; n.XI[0]=-n.XI[1]; } n.o.contspec_type=(fnft_manakovv_cstype_t)c.draw(2); n.o.normalization_flag=!c.chance(0.3); n.bs=disc<11&&c.chance(0.25); n.cap=n.bs?D*dg*2+10:0; if(n.bs) n.o.Dsub=40;
    c.info("disc=%d kappa=%d D=%zu T=[%.17g,%.17g] M=%zu XI=[%.17g,%.17g] bs=%d cstype=%d norm=%d q1=%s q2=%s",disc,n.kappa,D,n.T[0],n.T[1],n.M,n.XI[0],n.XI[1],n.bs,n.o.contspec_type,n.o.normalization_flag,gen::show(n.q1).c_str(),gen::show(n.q2).c_str());
    Mana f=n; n.o.richardson_extrapolation_flag=1; if(f.run()) c.fail("error %d without extrapolation",f.rc); if(n.run()) c.fail("error %d with extrapolation, none without",n.rc); if(sb.nskip==1){ for(size_t k=0;k<n.cslen();k++) if(!(n.C[k]==f.C[k])&&!(std::isnan(f.C[k].real())||std::isinf(std::abs(f.C[k])))) c.fail("two samples: entry %zu changed from %g%+gi to %g%+gi",k,f.C[k].real(),f.C[k].imag(),n.C[k].real(),n.C[k].imag()); c.label("D=2"); return; } Mana h=f; h.bs=false; h.q1=take(f.q1,sb); h.q2=take(f.q2,sb); h.T[0]=sb.T[0]; h.T[1]=sb.T[1]; if(h.run()) c.fail("error %d on the halved grid",h.rc);
    c.label(strf("disc%d",disc)); Cmp cm{c}; double amp=std::max(contmax(f.C),contmax(h.C)); double phase=(1+std::max(fabs(n.XI[0]),fabs(n.XI[1]))*(fabs(n.T[0])+fabs(n.T[1])+n.T[1]-n.T[0])); double at=1e-9*amp*amp+1e-12*phase*amp, rel=up?0.02:1e-6; if(up) at+=1e-7*amp; if(amp>1e4) c.discard();
    for(size_t k=0;k<n.cslen();k++){ size_t i=k%n.M; double xi=n.XI[0]+(n.XI[1]-n.XI[0])*(double)i/(n.M-1); double lim=0.9*M_PI/(2*sb.epss); if(fabs(fabs(xi)-lim)<1e-9*lim) continue; if(fabs(xi)<lim) cm("continuous spectrum",k,n.C[k],f.C[k],h.C[k],sc,rel,at); else cm.same("continuous spectrum beyond the resolved band",k,n.C[k],f.C[k]); }
    if(n.bs){ if(n.K!=f.K) c.fail("%zu bound states with extrapolation, %zu without",n.K,f.K); for(size_t k=0;k<n.K;k++) cm.same("bound state",k,n.B[k],f.B[k]); }
    if(cm.moved>3) c.nontrivial();
}
// against the true transform: in the asymptotic regime the extrapolated spectrum is better
LAW("C06",nse_richardson_reduces_the_error,800,40000,"errors on the full and the halved grid are in the asymptotic regime"){
    int disc=(int)c.draw(27); int kappa=c.chance(0.5)?-1:1; auto s=gen::smooth(c,kappa<0?2.0:4.0); double T[2]={s.T0,s.T1}; double X=c.real(0.5,2); double XI[2]={-X+c.sreal(0.3),X}; const size_t M=9; double S=std::max({s.bw/2,s.amp,X,1.0}); double e0=(ref::order(disc)>=4?0.2:0.08)/S*c.real(0.7,1.3); size_t D=(size_t)((T[1]-T[0])/e0)+2; if(ref::degree(disc)>20&&D>500) c.discard(); if(D>2500) c.discard();
    vector<cd> lam(M),A,B; for(size_t i=0;i<M;i++) lam[i]=XI[0]+(XI[1]-XI[0])*i/(M-1); auto f=[&](double t){return s(t);}; ref::zs_true(f,T[0],T[1],(int)((T[1]-T[0])*S*14)+50,kappa,lam,A,B); c.info("disc=%s kappa=%d D=%zu T=[%g,%g] XI=[%g,%g]",ref::name(disc),kappa,D,T[0],T[1],XI[0],XI[1]); for(auto&p:s.p) c.info(" {A=%g tau=%g w=%g om=%g phi=%g kind=%d}",p.A,p.tau,p.w,p.om,p.phi,p.kind);
    auto err=[&](size_t Dk,int rich){ Nsev n; n.kappa=kappa; n.q=gen::sample(f,T,Dk); n.T[0]=T[0]; n.T[1]=T[1]; n.cs=true; n.M=M; n.XI[0]=XI[0]; n.XI[1]=XI[1]; n.o.contspec_type=fnft_nsev_cstype_AB; n.o.discretization=(nb::D_t)disc; n.o.richardson_extrapolation_flag=rich; if(n.run()) c.fail("error %d",n.rc); double e=0,sc=1; for(auto&x:A) sc=std::max(sc,std::abs(x)); for(size_t i=0;i<M;i++) e=std::max({e,std::abs(n.C[i]-A[i])/sc,std::abs(n.C[M+i]-B[i])/sc}); return e; };
    double e=err(D,0),eh=err(D/2+1,0),r=err(D,1); double p=ref::order(disc),ratio=eh/e; c.label(ref::name(disc)); bool as=e<0.02&&e>1e-7&&ratio>0.85*std::pow(2,p)&&ratio<1.2*std::pow(2,p); if(!as) return; c.nontrivial(); if(!(r<=0.9*e)) c.fail("error %.4g with extrapolation, %.4g without (%.4g on the halved grid)",r,e,eh);
}
