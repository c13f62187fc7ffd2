// C09: symmetries, filters and capacities of the periodic NSE spectrum
#include "nsep.hpp"
using namespace pbt; using namespace api; using namespace np; using std::vector;
static HookReg hr;
static void show(Case&c,const Nsep&n){ c.info("disc=%s kappa=%d D=%zu T=[%.17g,%.17g] shift=%g loc=%d filt=%d box=[%g,%g]x[%g,%g] evals=%zu Dsub=%zu pps=%zu norm=%d cap=%zu/%zu q=%s",ref::name(n.o.discretization),n.kappa,n.q.size(),n.T[0],n.T[1],n.shift,n.o.localization,n.o.filtering,n.o.bounding_box[0],n.o.bounding_box[1],n.o.bounding_box[2],n.o.bounding_box[3],(size_t)n.o.max_evals,(size_t)n.o.Dsub,(size_t)n.o.points_per_spine,n.o.normalization_flag,n.cap,n.acap,gen::show(n.q).c_str()); }
static void setup(Case&c,Nsep&n,int maxdeg,int lo,int hi0,double&w,size_t&D,double maxAL){ int disc=fastdisc(c,maxdeg); n.o.discretization=(D_t)disc; int dg=ref::degree(disc); n.kappa=c.chance(0.35)?-1:1; w=c.logreal(0.3,8); double m=c.chance(0.5)?c.sreal(3):0; n.T[0]=m-w/2; n.T[1]=m+w/2; int hi=hi0; while(hi>lo&&(dg<<hi)>250) hi--; D=p2(c,disc>=20?std::max(lo,2):lo,hi); double eps=w/D; if(c.chance(0.5)){ auto t=trig(c,n.T[0],w,n.kappa<0?std::min(4.0,maxAL):maxAL); n.q=samp(t,n.T,D); } else n.q=gen::samples(c,D,std::min(0.5/eps,maxAL/w)); for(auto&x:n.q) if(std::abs(x)*eps>0.6) c.discard(); n.o.normalization_flag=!c.chance(0.3); n.o.points_per_spine=c.pick({2,2,1,3}); n.as=c.chance(0.6); n.cap=n.acap=D*dg*4; if(!n.as) n.acap=0; n.o.Dsub=D; n.o.max_evals=0; }
// all well conditioned points of X (in the central region) have a partner in Y after the map
template<class Fn> static int compare(Case&c,const char*what,const vector<cd>&X,size_t KX,const vector<cd>&Y,size_t KY,Fn map,double R,double w,double tol){ int cnt=0; for(size_t k=0;k<KX;k++){ cd x=X[k]; if(!(fabs(x.real())<R)||!(fabs(x.imag())*w<6)) continue; cd y=map(x); double md=1e300; for(size_t j=0;j<KY;j++){ double d=std::abs(Y[j]-y); if(d<md) md=d; } if(!(md<=tol)) c.fail("%s: point %.10g%+.10gi should appear as %.10g%+.10gi, the closest point is at distance %.3g (allowed %.3g)",what,x.real(),x.imag(),y.real(),y.imag(),md,tol); cnt++; } return cnt; }
static double mtol(Case&c,const Nsep&n,double w,size_t D){ double cnd=ref::cond(n.o.discretization,n.q,w/D,n.kappa); if(cnd>1e3) c.discard(); int dg=ref::degree(n.o.discretization); return 3e-5*dg*std::sqrt(cnd)/w; } // close pairs of points react like square roots

LAW("C09",main_spectrum_is_invariant_under_cyclic_shifts,500,40000,"nontrivial shift and a nonreal or at least four points"){
    Nsep n; double w; size_t D; setup(c,n,12,2,6,w,D,8); n.o.filtering=fnft_nsep_filt_NONE; Nsep a=n,b=n; a.as=b.as=false; a.acap=b.acap=0; size_t s=1+c.draw(D-2); for(size_t i=0;i<D;i++) b.q[i]=n.q[(i+s)%D]*std::polar(1.0,0.0); show(c,n); c.info(" shift by %zu",s); if(a.run()||b.run()) c.fail("errors %d %d for valid input",a.rc,b.rc); c.label(ref::name(n.o.discretization)); double tol=mtol(c,n,w,D); if(a.K!=b.K) c.fail("%zu and %zu points",a.K,b.K); auto id=[](cd x){return x;}; int m=compare(c,"original vs shifted",a.S,a.K,b.S,b.K,id,1.0/(w/D),w,tol); m+=compare(c,"shifted vs original",b.S,b.K,a.S,a.K,id,1.0/(w/D),w,tol); if(m>=8) c.nontrivial();
}
LAW("C09",spectra_are_invariant_under_phase_rotation_and_move_with_conjugation,500,40000,"at least eight points"){
    Nsep n; double w; size_t D; setup(c,n,12,1,6,w,D,8); n.o.filtering=fnft_nsep_filt_NONE; Nsep b=n; double ph=c.real(0.05,6.2); bool cj=c.chance(0.5)&&n.o.discretization<20; double dt=c.sreal(4); for(auto&x:b.q) x=(cj?std::conj(x):x)*std::polar(1.0,ph); b.T[0]+=dt; b.T[1]+=dt; show(c,n); c.info(" phase %g conj %d window moved by %g",ph,cj,dt); if(n.run()||b.run()) c.fail("errors %d %d for valid input",n.rc,b.rc); c.label(ref::name(n.o.discretization)); c.label(cj?"conjugated":"rotated"); double tol=mtol(c,n,w,D)+1e-9*(1+fabs(dt))*D/w; if(n.K!=b.K) c.fail("%zu and %zu points",n.K,b.K); auto mp=[&](cd x){ return cj?-std::conj(x):x; }; int m=compare(c,"main",n.S,n.K,b.S,b.K,mp,1.0/(w/D),w,tol)+compare(c,"main (back)",b.S,b.K,n.S,n.K,mp,1.0/(w/D),w,tol);
    if(n.as){ double qm=0,qs=1e300; for(auto&x:n.q){ qm=std::max(qm,std::abs(x)); qs=std::min(qs,std::abs(x)); } if(!(qs>1e-3*qm)) return; if(n.M!=b.M) c.fail("%zu and %zu auxiliary points",n.M,b.M); m+=compare(c,"aux",n.A,n.M,b.A,b.M,mp,1.0/(w/D),w,3*tol)+compare(c,"aux (back)",b.A,b.M,n.A,n.M,mp,1.0/(w/D),w,3*tol); c.label("aux"); } if(m>=8) c.nontrivial();
}
// exact for methods that apply the potential once per step: a harmonic moves the spectrum rigidly
LAW("C09",spectra_move_rigidly_under_harmonic_modulation,400,40000,"at least eight points moved by a nonzero amount"){
    Nsep n; double w; size_t D; setup(c,n,12,2,6,w,D,8); n.o.discretization=c.pick({fnft_nse_discretization_2SPLIT2A,fnft_nse_discretization_2SPLIT2_MODAL,fnft_nse_discretization_2SPLIT1A,fnft_nse_discretization_2SPLIT1B}); n.cap=4*D*2; n.acap=n.as?n.cap:0; n.o.filtering=fnft_nsep_filt_NONE; int k=1+(int)c.draw(std::min<size_t>(D/4,5)); if(c.chance(0.5)) k=-k; Nsep b=n; for(size_t i=0;i<D;i++) b.q[i]*=std::polar(1.0,2*M_PI*k*(double)i/D); show(c,n); c.info(" k=%d",k); if(n.run()||b.run()) c.fail("errors %d %d for valid input",n.rc,b.rc); c.label(ref::name(n.o.discretization)); double tol=10*mtol(c,n,w,D); double sh=-M_PI*k/w; double P=M_PI*D/w; // the numerical spectrum is periodic in the real part
    auto mp=[&](cd x){ return x+sh; }; double R=std::max(0.0,0.95*0.5*P-fabs(sh)); if(n.o.points_per_spine!=2&&(k%2)){ n.o.points_per_spine=b.o.points_per_spine=2; if(n.run()||b.run()) c.fail("errors %d %d for valid input",n.rc,b.rc); } int odd=abs(k)%2; if(n.o.points_per_spine==3&&odd) c.discard(); 
    if(n.K!=b.K) c.fail("%zu and %zu points",n.K,b.K); int m=compare(c,"main",n.S,n.K,b.S,b.K,mp,R,w,tol); m+=compare(c,"main (back)",b.S,b.K,n.S,n.K,[&](cd x){return x-sh;},R,w,tol); if(n.as){ double qm=0,qs=1e300; for(auto&x:n.q){ qm=std::max(qm,std::abs(x)); qs=std::min(qs,std::abs(x)); } if(qs>1e-3*qm){ m+=compare(c,"aux",n.A,n.M,b.A,b.M,mp,R,w,3*tol); c.label("aux"); } } if(m>=8) c.nontrivial();
}
// refined spectra of smooth signals move rigidly, too (isolated solutions)
LAW("C09",dilation_rescales_the_spectra,500,40000,"at least eight points, refined or found by grid search"){
    Nsep n; double w; size_t D; setup(c,n,12,2,6,w,D,8); int loc=c.pick({0,0,2,3}); n.o.localization=(fnft_nsep_loc_t)loc; n.o.filtering=fnft_nsep_filt_NONE; bool man=c.chance(0.4); double P=M_PI*D/w; if(man){ n.o.filtering=fnft_nsep_filt_MANUAL; n.o.bounding_box[0]=-P*c.real(0.1,0.45); n.o.bounding_box[1]=P*c.real(0.1,0.45); n.o.bounding_box[2]=-8/w*c.real(0.1,1); n.o.bounding_box[3]=8/w*c.real(0.1,1); } n.shift=c.chance(0.3)?c.sreal(6):0; Nsep b=n; int e=(int)c.range(0,12)-6; if(!e) e=1; double s=std::ldexp(1.0,e); for(auto&x:b.q) x/=s; b.T[0]*=s; b.T[1]*=s; for(double&v:b.o.bounding_box) v/=s; show(c,n); c.info(" scale 2^%d",e); if(n.run()||b.run()) c.fail("errors %d %d for valid input",n.rc,b.rc); c.label(ref::name(n.o.discretization)); c.label(strf("loc=%d",loc));
    if(n.K!=b.K||n.M!=b.M) c.fail("%zu/%zu and %zu/%zu points",n.K,n.M,b.K,b.M); for(size_t k=0;k<n.K;k++){ cd x=n.S[k],y=b.S[k]*s; if(!(std::abs(x-y)<=1e-6/w+1e-9*std::abs(x))&&fabs(x.imag())*w<12&&std::isfinite(x.real())) c.fail("main entry %zu: %.12g%+.12gi, rescaled %.12g%+.12gi",k,x.real(),x.imag(),y.real(),y.imag()); } for(size_t k=0;k<n.M;k++){ cd x=n.A[k],y=b.A[k]*s; if(!(std::abs(x-y)<=1e-6/w+1e-9*std::abs(x))&&fabs(x.imag())*w<12&&std::isfinite(x.real())) c.fail("aux entry %zu: %.12g%+.12gi, rescaled %.12g%+.12gi",k,x.real(),x.imag(),y.real(),y.imag()); } if(n.K+n.M>=8) c.nontrivial();
}
// a quasi-periodic signal is a modulated periodic one
LAW("C09",quasi_periodic_signals_shift_the_spectra,700,60000,"at least eight points and a nonzero shift"){
    Nsep n; double w; size_t D; setup(c,n,12,1,6,w,D,8); int loc=c.pick({0,0,0,2,3}); n.o.localization=(fnft_nsep_loc_t)loc; n.o.filtering=c.pick({fnft_nsep_filt_NONE,fnft_nsep_filt_MANUAL,fnft_nsep_filt_AUTO}); double P=M_PI*D/w; if(n.o.filtering==fnft_nsep_filt_MANUAL){ n.o.bounding_box[0]=-P*c.real(0.1,0.45); n.o.bounding_box[1]=P*c.real(0.1,0.45); n.o.bounding_box[2]=-8/w*c.real(0.1,1); n.o.bounding_box[3]=8/w*c.real(0.1,1); } double ph=c.sreal(12); if(fabs(ph)<1e-3) ph=1; double Lam=ph/(-2*w); Nsep b=n; b.shift=ph; for(size_t i=0;i<D;i++){ double t=n.T[0]+w*i/D; b.q[i]=n.q[i]*std::polar(1.0,-2*Lam*t); } b.o.bounding_box[0]+=Lam; b.o.bounding_box[1]+=Lam; show(c,n); c.info(" phase shift %g",ph); if(n.run()||b.run()) c.fail("errors %d %d for valid input",n.rc,b.rc); c.label(ref::name(n.o.discretization)); c.label(strf("loc=%d filt=%d",loc,n.o.filtering)); double tol=mtol(c,n,w,D);
    auto one=[&](const char*what,const vector<cd>&X,size_t KX,const vector<cd>&Y,size_t KY){ auto edge=[&](cd x){ if(n.o.filtering==fnft_nsep_filt_NONE) return false; double d=1e300; double bx[4]; if(n.o.filtering==fnft_nsep_filt_MANUAL) for(int i=0;i<4;i++) bx[i]=n.o.bounding_box[i]; else { int dg=ref::degree(n.o.discretization); double mc=2.0/dg*(n.o.discretization>=20?2:1),es=w/D; bx[1]=0.9*M_PI/(mc*es); bx[0]=-bx[1]; bx[3]=std::log(10.0)/(mc*es); bx[2]=-bx[3]; } d=std::min(std::min(fabs(x.real()-bx[0]),fabs(x.real()-bx[1])),std::min(fabs(x.imag()-bx[2]),fabs(x.imag()-bx[3]))); return d<2*tol; }; double hh=loc>=2?2*M_PI/(32.0*D*ref::degree(n.o.discretization))*ref::degree(n.o.discretization)*D/w:0; bool isaux=what[0]=='a'; Mono mo{(int)n.o.discretization,n.q,w/D,n.kappa}; double qmx=0; for(auto&x:n.q) qmx=std::max(qmx,std::abs(x)); auto fb=[&](cl z){ return mo.b(z); }; auto good=[&](cd x){ if(edge(x)) return false; if(!isaux) return true; if(!(std::abs(x)<1e3/w*D)||fabs(x.imag())*w>8) return true; return std::abs(nb::deriv(fb,cl(x.real(),x.imag()),1e-3L/w))>0.01*qmx*w*w; }; vector<cd> Xi,Yi; for(size_t k=0;k<KX;k++) if(good(X[k])) Xi.push_back(X[k]); for(size_t k=0;k<KY;k++) if(good(Y[k]-Lam)) Yi.push_back(Y[k]); 
        if(loc==0&&n.o.filtering==fnft_nsep_filt_NONE&&KX!=KY) c.fail("%s: %zu points for the periodic and %zu for the quasi-periodic signal",what,KX,KY); if(loc==2&&KX!=KY) { if(KX+2<KY||KY+2<KX) c.fail("%s: %zu points for the periodic and %zu for the quasi-periodic signal",what,KX,KY); return 0; } double R=0.45*P; if(loc==3||loc==2){ int m=0; size_t ok=0; for(auto x:Xi){ double md=1e300; for(auto y:Yi) md=std::min(md,std::abs(y-x-Lam)); if(md<=tol+(fabs(x.imag())<2*hh?0.3*hh:0)) ok++; m++; } if(ok+4<0.8*m) c.fail("%s: only %zu of %d points of the periodic signal reappear, moved by %g, for the quasi-periodic one",what,ok,m,Lam); return m; }
        int m=compare(c,what,Xi,Xi.size(),Y,KY,[&](cd x){return x+Lam;},R,w,tol); for(size_t k=0;k<Yi.size();k++) Yi[k]-=Lam; m+=compare(c,what,Yi,Yi.size(),X,KX,[&](cd x){return x;},R,w,tol); return m; };
    int m=one("main",n.S,n.K,b.S,b.K); if(n.as){ double qm=0,qs=1e300; for(auto&x:n.q){ qm=std::max(qm,std::abs(x)); qs=std::min(qs,std::abs(x)); } if(qs>1e-3*qm){ tol*=3; m+=one("aux",n.A,n.M,b.A,b.M); c.label("aux"); } } if(m>=8) c.nontrivial();
}
// Newton with quasi-periodic signals: guesses and results are given in the original coordinates
LAW("C09",quasi_periodic_newton_and_refinement,1500,30000,"nonzero phase shift and two targets"){
    Nsep n; int disc=c.pick({1,22,1,22,23,24,25}); n.kappa=c.chance(0.3)?-1:1; double w=c.logreal(0.5,5),m=c.chance(0.5)?c.sreal(3):0; n.T[0]=m-w/2; n.T[1]=m+w/2; size_t D=p2(c,3,6); double eps=w/D; auto t=trig(c,n.T[0],w,n.kappa<0?4.0:8.0); n.q=samp(t,n.T,D); if(t.amp()*eps>0.8) c.discard(); Mono mo{disc,n.q,eps,n.kappa}; double ph=c.sreal(12); double Lam=ph/(-2*w); size_t K=1+c.draw(2); vector<cl> tg; bool aux=c.chance(0.4); auto f=[&](cl l){ return aux?mo.b(l):mo.tr(l)-(cl)2; };
    for(size_t k=0;k<K;k++){ cl l(c.sreal(0.4/eps),c.sreal(std::min(1.2*t.amp()+1/w,5/w))); if(!nb::polish(f,l,3/w,1e-3L/w)) c.discard(); cl d1=nb::deriv(f,l,1e-3L/w); cl d2=(nb::deriv(f,l+(cl)(1e-3L/w),1e-3L/w)-d1)/(cl)(1e-3L/w); if(std::abs(d1)<0.3L*w) c.discard(); ld basin=std::min<ld>(0.2L/w,0.15L*std::abs(d1)/(std::abs(d2)+1e-9L)); tg.push_back(l); cl g=l+(cl)std::polar((double)basin*c.real(0,1),c.real(0,6.28)); (aux?n.aguess:n.guess).push_back(cd((double)g.real()+Lam,(double)g.imag())); }
    for(size_t i=0;i<D;i++){ double tt=n.T[0]+w*i/D; n.q[i]*=std::polar(1.0,-2*Lam*tt); } n.shift=ph; n.o.localization=fnft_nsep_loc_NEWTON; n.o.discretization=(D_t)disc; n.o.points_per_spine=1; n.o.floquet_range[0]=n.o.floquet_range[1]=1; n.o.tol=1e-11; n.o.normalization_flag=!c.chance(0.3); n.o.filtering=c.chance(0.5)?fnft_nsep_filt_NONE:fnft_nsep_filt_MANUAL; double keepy=n.o.filtering==fnft_nsep_filt_NONE?1e300:c.real(0.05,5)/w; if(n.o.filtering==fnft_nsep_filt_MANUAL){ n.o.bounding_box[0]=-0.5/eps+Lam; n.o.bounding_box[1]=0.5/eps+Lam; n.o.bounding_box[2]=-20/w; n.o.bounding_box[3]=keepy; } n.ms=!aux||n.o.filtering!=fnft_nsep_filt_NONE; n.as=aux; if(aux&&n.ms) n.guess.assign(1,n.aguess[0]); n.cap=n.ms?n.guess.size():0; n.acap=aux?K:0; show(c,n); if(n.run()) c.fail("error %d for valid input",n.rc);
    vector<cl> exp; for(auto l:tg){ if(n.o.filtering==fnft_nsep_filt_MANUAL&&(fabsl(l.imag()-keepy)<1e-3/w||fabsl(fabsl(l.real())-0.5L/eps)<1e-3/w)) c.discard(); if(n.o.filtering==fnft_nsep_filt_NONE||(l.imag()<keepy&&fabsl(l.real())<0.5L/eps)) exp.push_back(l+(cl)Lam); else if(l.imag()>=keepy-0.5/w||fabsl(l.real())>0.5L/eps-0.5/w) { } } auto&R=aux?n.A:n.S; size_t N=aux?n.M:n.K; if(n.o.filtering==fnft_nsep_filt_MANUAL) for(auto&g:(aux?n.aguess:n.guess)){ if(g.imag()>keepy||fabs(g.real()-Lam)>0.5/eps) c.discard(); } if(N!=exp.size()) c.fail("%zu points for %zu initial guesses, %zu expected in the box",N,K,exp.size());
    for(size_t k=0;k<N;k++){ double e=(double)std::abs(cl(R[k].real(),R[k].imag())-exp[k]); if(!(e<=1e-9*(1+(double)std::abs(exp[k])+1/w))) c.fail("entry %zu: %.12g%+.12gi instead of %.12Lg%+.12Lgi",k,R[k].real(),R[k].imag(),exp[k].real(),exp[k].imag()); } if(K>1&&fabs(ph)>0.01) c.nontrivial();
}
// filters keep exactly the points in the box
LAW("C09",filters_keep_exactly_the_points_in_the_box,500,40000,"some points removed, some kept"){
    Nsep n; double w; size_t D; setup(c,n,24,1,6,w,D,8); n.shift=c.chance(0.4)?c.sreal(9):0; double Lam=n.shift/(-2*w); double P=M_PI*D/w; Nsep a=n,b=n; a.o.filtering=fnft_nsep_filt_NONE; bool au=c.chance(0.3); b.o.filtering=au?fnft_nsep_filt_AUTO:fnft_nsep_filt_MANUAL; double bx[4]={-P*c.real(-0.1,1),0,-8/w*c.real(-0.1,1),0}; bx[1]=bx[0]+P*c.real(0.1,1.5); bx[3]=bx[2]+16/w*c.real(0.05,1); for(int i=0;i<4;i++) b.o.bounding_box[i]=bx[i]+(i<2?Lam:0); if(au){ int dg=ref::degree(n.o.discretization); double mc=2.0/dg*(n.o.discretization>=20?2:1),es=w/D; (void)mc; bx[1]=0.9*M_PI/(2.0/dg*es)/(n.o.discretization>=20?2:1); bx[0]=-bx[1]; bx[3]=std::log(10.0)/(2.0/dg*es)/(n.o.discretization>=20?2:1); bx[2]=-bx[3]; } show(c,b); if(a.run()||b.run()) c.fail("errors %d %d for valid input",a.rc,b.rc); c.label(au?"auto":"manual"); bool rem=false,kept=false;
    auto cmp=[&](const char*what,const vector<cd>&X,size_t KX,const vector<cd>&Y,size_t KY){ size_t j=0; for(size_t k=0;k<KX;k++){ cd x=X[k]-Lam; double sc=1e-9*(std::abs(x)+fabs(Lam)+P); bool in=x.real()>=bx[0]+sc&&x.real()<=bx[1]-sc&&x.imag()>=bx[2]+sc&&x.imag()<=bx[3]-sc; bool out=!(x.real()>=bx[0]-sc&&x.real()<=bx[1]+sc&&x.imag()>=bx[2]-sc&&x.imag()<=bx[3]+sc); bool match=j<KY&&(Y[j]==X[k]||std::abs(Y[j]-X[k])<=sc); if(in&&!match) c.fail("%s: %.10g%+.10gi lies in the box, but is missing (or the order changed)",what,X[k].real(),X[k].imag()); if(out&&match&&std::isfinite(x.real())) c.fail("%s: %.10g%+.10gi does not lie in the box",what,X[k].real(),X[k].imag()); if(match){ j++; kept=true; } else rem=true; } if(j!=KY) c.fail("%s: %zu filtered points that do not occur without filter",what,KY-j); };
    cmp("main",a.S,a.K,b.S,b.K); if(n.as) cmp("aux",a.A,a.M,b.A,b.M); if(rem&&kept) c.nontrivial();
}
// short arrays
LAW("C09",short_arrays_return_a_prefix,500,40000,"array shorter than the result but not empty"){
    Nsep n; double w; size_t D; setup(c,n,12,1,6,w,D,8); int loc=c.pick({0,2,3}); n.o.localization=(fnft_nsep_loc_t)loc; n.o.max_evals=c.pick({0,0,30}); n.o.Dsub=c.chance(0.6)?D:0; n.o.filtering=c.pick({fnft_nsep_filt_AUTO,fnft_nsep_filt_NONE}); n.shift=c.chance(0.3)?c.sreal(9):0; if(n.run()) c.fail("error %d for valid input",n.rc); Nsep b=n; b.cap=n.K?c.draw(n.K):c.draw(2); b.acap=n.as?(n.M?c.draw(n.M):c.draw(2)):0; show(c,b); if(b.run()) c.fail("error %d if the arrays are too short",b.rc); c.label(strf("loc=%d",loc));
    auto cmp=[&](const char*what,const vector<cd>&X,size_t KX,const vector<cd>&Y,size_t KY,size_t cap){ if(KY!=std::min(KX,cap)) c.fail("%s: %zu points in an array of length %zu, %zu are available",what,KY,cap,KX); if(loc!=3){ for(size_t k=0;k<KY;k++) if(!(Y[k]==X[k])&&!(Y[k]!=Y[k]&&X[k]!=X[k])) c.fail("%s: entry %zu of the short array differs",what,k); } else for(size_t k=0;k<KY;k++){ bool f=Y[k]!=Y[k]; for(size_t j=0;j<KX&&!f;j++) f=X[j]==Y[k]; if(!f) c.fail("%s: entry %zu of the short array is not a point of the full result",what,k); } for(size_t k=KY;k<Y.size();k++) if(Y[k]!=SENT&&k>=cap) c.fail("%s: wrote behind the end of the array",what); if(cap<KX&&cap>0) c.nontrivial(); };
    cmp("main",n.S,n.K,b.S,b.K,b.cap); if(n.as) cmp("aux",n.A,n.M,b.A,b.M,b.acap);
}
