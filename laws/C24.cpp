// C24: the selection of outputs and the internal normalization do not change the values
#include "anycall.hpp"
using namespace pbt; using std::vector; using any::Call; using any::Out;
static api::QuietReg qr;
static int ctype(const Call&a){ return a.which==0?(int)a.o.ev.contspec_type: a.which==3?(int)a.o.kd.contspec_type: (int)a.o.ma.contspec_type; }
static void ctype(Call&a,int t){ if(a.which==0) a.o.ev.contspec_type=(fnft_nsev_cstype_t)t; else if(a.which==3) a.o.kd.contspec_type=(fnft_kdvv_cstype_t)t; else a.o.ma.contspec_type=(fnft_manakovv_cstype_t)t; }
static void dtype(Call&a,int t){ if(a.which==0) a.o.ev.discspec_type=(fnft_nsev_dstype_t)t; else a.o.kd.discspec_type=(fnft_kdvv_dstype_t)t; }
static int rich(const Call&a){ return a.which==0?a.o.ev.richardson_extrapolation_flag: a.which==3?a.o.kd.richardson_extrapolation_flag: a.o.ma.richardson_extrapolation_flag; }
static bool near_(cd x,cd y,double t){ return !memcmp(&x,&y,sizeof x)||(std::isnan(x.real())&&std::isnan(y.real()))||std::abs(x-y)<=t; }
static double top(const vector<cd>&v,size_t o,size_t n){ double m=0; for(size_t i=o;i<o+n&&i<v.size();i++) if(std::isfinite(std::abs(v[i]))) m=std::max(m,std::abs(v[i])); return m; }
static bool eqbits(cd x,cd y){ return !memcmp(&x,&y,sizeof x)||(std::isnan(x.real())&&std::isnan(y.real())); }
// all outputs vs a subset of them
static void select(Case&c,int which){
    any::Lim l; l.which=which; l.maxD=c.chance(0.3)?60:20; Call a=any::gen(c,l); a.noopts=false;
    a.nullK=false; if(a.cs==false){ a.cs=true; a.M=1+c.draw(6); if(which==3&&a.M==1) a.M=2; } bool bsok=!(which==4&&ref::mana_slow(a.o.ma.discretization)&&a.kappa>0); if(!a.bs&&bsok&&a.cap) a.bs=true; if(which==0||which==3){ a.nc=a.bs; dtype(a,2); } ctype(a,2); a.describe(); c.info("%s",a.desc.c_str()); c.label(a.disc);
    Out f=a.run(); if(f.rc) c.discard(); size_t K=f.K,M=a.M; std::string why; if(a.bs&&K) c.label("bound_states"); if(rich(a)) c.label("richardson");
    int r1=which==4?2:1; // blocks of the reflection coefficient
    int n=1+(int)c.draw(2); for(int k=0;k<n;k++){ Call b=a; int sel=1+(int)c.draw(a.bs?2:0); b.cs=sel&1; b.bs=sel&2; if(!b.bs) b.nc=false; else if(b.nc&&c.chance(0.4)) b.nc=false; int ct=(int)c.draw(2),dt=(int)c.draw(2); ctype(b,ct); if(which!=4) dtype(b,dt); if(!b.cs){ if(c.chance(0.5)) b.noXI=true; if(c.chance(0.5)) b.M=0; } if(!b.bs&&c.chance(0.5)){ b.nullK=true; b.cap=0; } b.describe(); c.info("; %s",b.desc.c_str()); Out g=b.run(); if(g.rc) c.fail("return code %d if only these outputs are requested: %s",g.rc,b.desc.c_str()); c.nontrivial();
        if(b.cs){ size_t off= ct==1? r1*M:0, len= (ct==0? r1: ct==1? r1+1: 2*r1+1)*M; if(g.c.size()!=len) c.fail("harness"); for(size_t i=0;i<len;i++) if(!near_(g.c[i],f.c[off+i],1e-10*(1e-3+top(f.c,off+i/M*M,M)))) c.fail("continuous spectrum entry %zu (type %d): %.17g%+.17gi instead of %.17g%+.17gi",i,ct,g.c[i].real(),g.c[i].imag(),f.c[off+i].real(),f.c[off+i].imag()); }
        if(b.bs){ if(g.K!=K) c.fail("%zu bound states instead of %zu",g.K,K); for(size_t i=0;i<K;i++) if(!near_(g.b[i],f.b[i],1e-9*(1+std::abs(f.b[i])))) c.fail("bound state %zu: %.17g%+.17gi instead of %.17g%+.17gi",i,g.b[i].real(),g.b[i].imag(),f.b[i].real(),f.b[i].imag()); }
        if(b.nc){ size_t off=dt==1?K:0,len=(dt==2?2:1)*K; for(size_t i=0;i<len;i++) if(!near_(g.n[i],f.n[off+i],1e-7*std::abs(f.n[off+i]))) c.fail("norming constant or residue %zu of %zu (type %d): %.17g%+.17gi instead of %.17g%+.17gi",i,len,dt,g.n[i].real(),g.n[i].imag(),f.n[off+i].real(),f.n[off+i].imag()); } }
}
LAW("C24",nsev_outputs_do_not_depend_on_selection,8000,800000,"a subset of the outputs was compared"){ select(c,0); }
LAW("C24",kdvv_outputs_do_not_depend_on_selection,8000,800000,"a subset of the outputs was compared"){ select(c,3); }
LAW("C24",manakovv_outputs_do_not_depend_on_selection,5000,500000,"a subset of the outputs was compared"){ select(c,4); }
LAW("C24",nsep_outputs_do_not_depend_on_selection,4000,400000,"a subset of the outputs was compared"){
    any::Lim l; l.which=1; l.maxD=c.chance(0.3)?64:16; Call a=any::gen(c,l); if(!(a.cs&&a.bs)||(a.cap==0&&a.acap==0)) c.discard(); c.info("%s",a.desc.c_str()); c.label(a.disc); Out f=a.run(); if(f.rc) c.discard(); c.label(strf("loc%d",(int)a.o.ep.localization)); std::string why;
    bool none=!a.noopts&&a.o.ep.filtering==fnft_nsep_filt_NONE; Call b=a; b.bs=false; b.acap=0; b.aguess.clear(); Out g=b.run(); if(g.rc) c.fail("return code %d if only the main spectrum is requested",g.rc); c.nontrivial(); if(f.K!=g.K) c.fail("%zu main spectrum points if requested alone instead of %zu",g.K,f.K); for(size_t i=0;i<f.K;i++) if(!near_(f.c[i],g.c[i],1e-9*(1+std::abs(f.c[i])))) c.fail("main spectrum point %zu: %.17g%+.17gi if requested alone instead of %.17g%+.17gi",i,g.c[i].real(),g.c[i].imag(),f.c[i].real(),f.c[i].imag());
    if(none){ c.label("aux_alone"); Call d=a; d.cs=false; d.cap=0; d.guess.clear(); g=d.run(); if(g.rc) c.fail("return code %d if only the auxiliary spectrum is requested",g.rc); if(f.M!=g.M) c.fail("%zu auxiliary spectrum points if requested alone instead of %zu",g.M,f.M); for(size_t i=0;i<f.M;i++) if(!near_(f.b[i],g.b[i],1e-9*(1+std::abs(f.b[i])))) c.fail("auxiliary spectrum point %zu: %.17g%+.17gi if requested alone instead of %.17g%+.17gi",i,g.b[i].real(),g.b[i].imag(),f.b[i].real(),f.b[i].imag()); }
}
// normalization
static void norm(Call&a,int v){ switch(a.which){ case 0: a.o.ev.normalization_flag=v; break; case 1: a.o.ep.normalization_flag=v; break; case 3: a.o.kd.normalization_flag=v; break; default: a.o.ma.normalization_flag=v; } }

static bool okv(cd x){ return std::isfinite(x.real())&&std::isfinite(x.imag()); }
static void normcs(Case&c,int which){
    any::Lim l; l.which=which; l.maxD=c.chance(0.3)?150:30; Call a=any::gen(c,l); a.noopts=false; a.bs=a.nc=false; a.nullK=true; a.cap=0; if(!a.cs){ a.cs=true; a.M=2+c.draw(6); } norm(a,1); a.describe(); c.info("%s",a.desc.c_str()); c.label(a.disc); Out f=a.run(); norm(a,0); Out g=a.run(); if(f.rc||g.rc) c.fail("return code %d with normalization, %d without",f.rc,g.rc);
    size_t nb=f.c.size()/a.M; for(size_t b=0;b<nb;b++){ double sc=0; for(size_t i=0;i<a.M;i++) if(okv(f.c[b*a.M+i])) sc=std::max(sc,std::abs(f.c[b*a.M+i])); if(sc>0) c.nontrivial(); for(size_t i=0;i<a.M;i++){ cd x=f.c[b*a.M+i],y=g.c[b*a.M+i]; if(eqbits(x,y)) continue; if(!okv(x)||!(std::abs(x-y)<=1e-9*sc)) c.fail("entry %zu: %.15g%+.15gi with normalization, %.15g%+.15gi without",b*a.M+i,x.real(),x.imag(),y.real(),y.imag()); } }
}
LAW("C24",nsev_normalization_keeps_the_continuous_spectrum,8000,800000,"the spectrum is not zero"){ normcs(c,0); }
LAW("C24",kdvv_normalization_keeps_the_continuous_spectrum,8000,800000,"the spectrum is not zero"){ normcs(c,3); }
LAW("C24",manakovv_normalization_keeps_the_continuous_spectrum,5000,500000,"the spectrum is not zero"){ normcs(c,4); }
// bound states: values that are isolated and well inside the region of interest must be found both ways
static bool isolated(const vector<cd>&v,size_t k,double d){ for(size_t j=0;j<v.size();j++) if(j!=k&&std::abs(v[j]-v[k])<d) return false; return true; }
static void compare(Case&c,const Call&a,const Out&f,const Out&g,double ymin,double xmax,double d,double tl,const char*n1,const char*n2){
    double L=a.T[1]-a.T[0]; for(size_t k=0;k<f.K;k++){ cd x=f.b[k]; if(!(x.imag()>ymin)||!(fabs(x.real())<xmax)) continue; vector<cd> fb(f.b.begin(),f.b.begin()+f.K); if(!isolated(fb,k,d)) continue; double e=1e300; size_t j=0; for(size_t m=0;m<g.K;m++) if(std::abs(g.b[m]-x)<e){ e=std::abs(g.b[m]-x); j=m; } double t=tl*(1+std::abs(x)); if(!(e<=t)) c.fail("bound state %.12g%+.12gi found %s normalization is missing %s: closest is at distance %.3g",x.real(),x.imag(),n1,n2,e); c.nontrivial();
        if(a.nc){ size_t nd=a.nclen()/a.cap; for(size_t q=0;q<nd;q++){ cd u=f.n[q*f.K+k],v=g.n[q*g.K+j]; if(!okv(u)&&!okv(v)) continue; double r=std::abs(u-v)/std::max(std::abs(u),std::abs(v)); double tt=1e-6+(e*4*(L+fabs(a.T[0])+fabs(a.T[1]))); if(!(r<=tt)) c.fail("bound state %.12g%+.12gi: norming constant or residue %.12g%+.12gi %s normalization, %.12g%+.12gi %s (relative difference %.3g)",x.real(),x.imag(),u.real(),u.imag(),n1,v.real(),v.imag(),n2,r); } } } }
LAW("C24",nsev_normalization_keeps_the_bound_states,900,90000,"at least one isolated bound state"){
    Call a; a.which=0; a.defaults(); auto s=gen::smooth(c,11.0,3,false,0.4,0.5); a.T[0]=s.T0; a.T[1]=s.T1; double S=std::max({s.bw/2,s.amp,1.0}); a.D=(size_t)((s.T1-s.T0)/(c.real(0.12,0.35)/S))+3; if(a.D>260) c.discard(); double e=(a.T[1]-a.T[0])/(a.D-1); a.q=gen::sample([&](double t){return s(t);},a.T,a.D); int d=(int)c.draw(27); auto&o=a.o.ev; o.discretization=(fnft_nse_discretization_t)d; a.disc=ref::name(d); o.bound_state_localization=ref::is_slow(d)?fnft_nsev_bsloc_NEWTON:(fnft_nsev_bsloc_t)c.draw(2); if(ref::degree(d)*a.D>1200) c.discard(); o.bound_state_filtering=c.chance(0.5)?fnft_nsev_bsfilt_FULL:fnft_nsev_bsfilt_BASIC; o.discspec_type=(fnft_nsev_dstype_t)c.draw(2); o.richardson_extrapolation_flag=c.chance(0.2); o.niter=50; a.bs=a.nc=true; a.cap=fnft_nsev_max_K(a.D,&o);
    if(o.bound_state_localization==fnft_nsev_bsloc_NEWTON){ Call h=a; h.o.ev=fnft_nsev_default_opts(); h.o.ev.bound_state_localization=fnft_nsev_bsloc_FAST_EIGENVALUE; h.o.ev.discretization=fnft_nse_discretization_2SPLIT4B; h.nc=false; h.cap=fnft_nsev_max_K(a.D,&h.o.ev); Out r=h.run(); if(r.rc) c.discard(); for(size_t k=0;k<r.K;k++) if(r.b[k].imag()>0.1&&fabs(r.b[k].real())<1/e) a.guess.push_back(r.b[k]+std::polar(0.01*c.real(0,1),c.real(0,6.28))); if(a.guess.empty()) c.discard(); a.cap=a.guess.size(); }
    norm(a,1); a.describe(); c.info("%s",a.desc.c_str()); for(auto&p:s.p) c.info(" {A=%g tau=%g w=%g om=%g kind=%d}",p.A,p.tau,p.w,p.om,p.kind); c.label(a.disc); c.label(strf("loc%d",(int)o.bound_state_localization)); Out f=a.run(); norm(a,0); Out g=a.run(); if(abs(f.rc)==3||abs(g.rc)==3) c.discard(); /* a residue at a zero of the derivative */ if(f.rc||g.rc) c.fail("return code %d with normalization, %d without",f.rc,g.rc); double tl=1e-7; compare(c,a,f,g,0.15,0.6/e,0.1,tl,"with","without"); compare(c,a,g,f,0.15,0.6/e,0.1,tl,"without","with");
}
LAW("C24",kdvv_normalization_keeps_the_bound_states,900,90000,"at least one isolated bound state"){
    Call a; a.which=3; a.defaults(); auto s=gen::smooth(c,6.0,3,true,0.4,0.5); a.T[0]=s.T0; a.T[1]=s.T1; double S=std::max({s.bw/2,std::sqrt(s.amp),1.0}); a.D=(size_t)((s.T1-s.T0)/(c.real(0.12,0.35)/S))+3; if(a.D>400) c.discard(); a.D|=1; a.q=gen::sample([&](double t){return s(t);},a.T,a.D); double qm=0; for(auto&x:a.q){ x=cd(x.real(),0); qm=std::max(qm,x.real()); } if(qm<=0) c.discard(); int d=(int)c.draw(55); auto&o=a.o.kd; o.discretization=(fnft_kdv_discretization_t)d; a.disc=ref::kdv_name(d); o.discspec_type=(fnft_kdvv_dstype_t)c.draw(2); o.richardson_extrapolation_flag=c.chance(0.2); o.niter=50; o.grid_spacing=std::sqrt(qm)*c.logreal(0.01,0.1); a.bs=a.nc=true; a.cap=30; bool newt=c.chance(0.3); Call h=a; h.nc=false; if(newt){ h.o.kd.discretization=fnft_kdv_discretization_BO; h.o.kd.richardson_extrapolation_flag=0; Out r=h.run(); if(r.rc||!r.K) c.discard(); for(size_t k=0;k<r.K;k++) a.guess.push_back(cd(0,r.b[k].imag()*(1+1e-3*c.sreal(1)))); a.cap=a.guess.size(); o.bound_state_localization=fnft_kdvv_bsloc_NEWTON; }
    norm(a,1); a.describe(); c.info("%s",a.desc.c_str()); for(auto&p:s.p) c.info(" {A=%g tau=%g w=%g om=%g kind=%d}",p.A,p.tau,p.w,p.om,p.kind); c.label(a.disc); c.label(newt?"newton":"grid"); Out f=a.run(); norm(a,0); Out g=a.run(); if(f.rc||g.rc) c.fail("return code %d with normalization, %d without",f.rc,g.rc); double d0=0.05*std::sqrt(qm)+2*o.grid_spacing; compare(c,a,f,g,0.08*std::sqrt(qm)+1e-3,1e300,d0,1e-7,"with","without"); compare(c,a,g,f,0.08*std::sqrt(qm)+1e-3,1e300,d0,1e-7,"without","with");
}
LAW("C24",manakovv_normalization_keeps_the_bound_states,700,70000,"at least one isolated bound state"){
    Call a; a.which=4; a.defaults(); auto s=gen::smooth(c,7.0,2,false,0.4,0.5),s2=gen::smooth(c,5.0,2,false,0.4,0.5); a.T[0]=std::min(s.T0,s2.T0); a.T[1]=std::max(s.T1,s2.T1); double S=std::max({s.bw/2,s.amp,s2.bw/2,s2.amp,1.0}); a.D=(size_t)((a.T[1]-a.T[0])/(c.real(0.15,0.4)/S))+3; double e=(a.T[1]-a.T[0])/(a.D-1); a.q=gen::sample([&](double t){return s(t);},a.T,a.D); a.r=gen::sample([&](double t){return s2(t);},a.T,a.D); auto&o=a.o.ma; int d=(int)c.draw(12); if(d==9||ref::mana_slow(d)) c.discard(); o.discretization=(fnft_manakov_discretization_t)d; a.disc=ref::mana_name(d); if(ref::mana_degree(d)*ref::mana_up(d)*a.D>900) c.discard(); o.richardson_extrapolation_flag=c.chance(0.2); a.bs=true; a.cap=fnft_manakovv_max_K(a.D,&o); norm(a,1); a.describe(); c.info("%s",a.desc.c_str()); c.label(a.disc); Out f=a.run(); norm(a,0); Out g=a.run(); if(f.rc||g.rc) c.fail("return code %d with normalization, %d without",f.rc,g.rc); compare(c,a,f,g,0.15,0.6/e,0.1,1e-6,"with","without"); compare(c,a,g,f,0.15,0.6/e,0.1,1e-6,"without","with");
}
LAW("C24",nsep_normalization_keeps_the_main_spectrum,4000,400000,"at least one isolated point was compared"){
    any::Lim l; l.which=1; l.maxD=c.chance(0.3)?64:16; Call a=any::gen(c,l); a.noopts=false; if(!a.cs) c.discard(); a.o.ep.max_evals=60; a.o.ep.tol=-1; double qs=0; for(auto&x:a.q) qs+=std::abs(x); if(qs*(a.T[1]-a.T[0])/a.D<0.05) c.discard(); norm(a,1); a.describe(); c.info("%s",a.desc.c_str()); c.label(a.disc); c.label(strf("loc%d",(int)a.o.ep.localization)); Out f=a.run(); norm(a,0); Out g=a.run(); if(f.rc||g.rc) c.fail("return code %d with normalization, %d without",f.rc,g.rc);
    double e=(a.T[1]-a.T[0])/a.D,tl=1e-6; auto part=[&](const vector<cd>&u,size_t n,const vector<cd>&v,size_t m,size_t cap,const char*w,const char*n1,const char*n2){ if(n>=cap||m>=cap) return; vector<cd> U(u.begin(),u.begin()+n); for(size_t k=0;k<n;k++){ cd x=u[k]; if(!okv(x)||fabs(x.real())>0.15/e||fabs(x.imag())<0.1||fabs(x.imag())>0.15/e||!isolated(U,k,0.2)) continue; double d=1e300; for(size_t j=0;j<m;j++) d=std::min(d,std::abs(v[j]-x)); c.nontrivial(); if(!(d<=tl*(1+std::abs(x)))) c.fail("%s spectrum point %.12g%+.12gi found %s normalization is missing %s: closest is at distance %.3g",w,x.real(),x.imag(),n1,n2,d); } };
    if(a.cs){ part(f.c,f.K,g.c,g.K,a.cap,"main","with","without"); part(g.c,g.K,f.c,f.K,a.cap,"main","without","with"); }
}
