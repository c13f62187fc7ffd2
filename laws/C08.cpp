// C08: auxiliary spectrum of the periodic NSE problem
#include "nsep.hpp"
using namespace pbt; using namespace api; using namespace np; using std::vector;
static HookReg hr;
static void show(Case&c,const Nsep&n){ c.info("disc=%s kappa=%d D=%zu T=[%.17g,%.17g] shift=%g loc=%d filt=%d box=[%g,%g]x[%g,%g] evals=%zu Dsub=%zu norm=%d tol=%g cap=%zu/%zu main=%d q=%s",ref::name(n.o.discretization),n.kappa,n.q.size(),n.T[0],n.T[1],n.shift,n.o.localization,n.o.filtering,n.o.bounding_box[0],n.o.bounding_box[1],n.o.bounding_box[2],n.o.bounding_box[3],(size_t)n.o.max_evals,(size_t)n.o.Dsub,n.o.normalization_flag,n.o.tol,n.cap,n.acap,n.ms,gen::show(n.q).c_str()); }
static size_t autosub(size_t D,size_t Dsub){ if(Dsub) return std::min(std::max<size_t>(Dsub,2),D); return std::min<size_t>(D,std::max<size_t>(2,(size_t)std::pow(2.0,std::ceil(0.5*std::log2(D*std::log2(D)*std::log2(D)))))); }
static double qmax(const Nsep&n){ double m=0; for(auto&x:n.q) m=std::max(m,std::abs(x)); return m; }
static void setup(Case&c,Nsep&n,int maxdeg,int lo,int hi0,double&w,size_t&D,double maxAL,bool smooth){ int disc=fastdisc(c,maxdeg); n.o.discretization=(D_t)disc; int dg=ref::degree(disc); n.kappa=c.chance(0.35)?-1:1; w=c.logreal(0.3,8); double m=c.chance(0.5)?c.sreal(3):0; n.T[0]=m-w/2; n.T[1]=m+w/2; int hi=hi0; while(hi>lo&&(dg<<hi)>300) hi--; D=p2(c,disc>=20?std::max(lo,2):lo,hi); double eps=w/D; if(smooth||c.chance(0.5)){ auto t=trig(c,n.T[0],w,n.kappa<0?std::min(4.0,maxAL):maxAL); n.q=samp(t,n.T,D); if(t.amp()*eps>0.7) c.discard(); } else { n.q=gen::samples(c,D,std::min(0.5/eps,8.0/w)); if(qmax(n)*eps>0.7) c.discard(); } n.o.normalization_flag=!c.chance(0.3); n.as=true; n.acap=D*dg; n.cap=D*dg*3; }

// every reported point is a zero of the (1,2) entry of the monodromy matrix
LAW("C08",aux_points_are_zeros_of_the_monodromy_entry,1000,80000,"a point away from the real axis with nonvanishing signal"){
    Nsep n; double w; size_t D; setup(c,n,24,1,6,w,D,10,false); int disc=n.o.discretization, dg=ref::degree(disc); double eps=w/D; double qm=qmax(n); if(qm==0) c.discard();
    bool exact=c.chance(0.35); if(!exact) for(auto&x:n.q) if(std::abs(x)<0.05*qm) c.discard(); n.o.max_evals=exact?0:c.pick({50,200}); n.o.Dsub=exact||c.chance(0.5)?D:c.chance(0.3)?0:1+c.draw(D); if(c.chance(0.3)) n.o.tol=c.logreal(1e-11,1e-6); n.o.filtering=c.pick({fnft_nsep_filt_AUTO,fnft_nsep_filt_MANUAL,fnft_nsep_filt_NONE}); if(n.o.filtering==fnft_nsep_filt_MANUAL){ double B=M_PI/eps; n.o.bounding_box[0]=-B*c.real(0.1,1); n.o.bounding_box[1]=B*c.real(0.1,1); n.o.bounding_box[2]=-5/w*c.real(0.01,1); n.o.bounding_box[3]=5/w*c.real(0.01,1); } n.ms=n.o.filtering!=fnft_nsep_filt_NONE||c.chance(0.5); show(c,n);
    warned_conv=warned_full=0; if(n.run()) c.fail("error %d for valid input",n.rc); if(n.M>n.acap) c.fail("M=%zu exceeds the array length",n.M); if(warned_full) c.fail("the arrays were large enough, but points were dropped"); c.label(ref::name(disc)); c.label(exact?"unrefined":"refined");
    size_t Ds=autosub(D,n.o.Dsub); if(n.o.filtering==fnft_nsep_filt_NONE&&Ds==D&&n.M!=(size_t)dg*D) c.fail("%zu points without filtering, the polynomial has degree %zu",n.M,(size_t)dg*D);
    Mono mo{exact?disc:nb::base_disc(disc),n.q,eps,n.kappa}; double cnd=exact?ref::cond((D_t)disc,n.q,eps,n.kappa):1; if(cnd>1e4) c.discard(); double tol0=n.o.tol<0?1.5e-8:n.o.tol; double mc=2.0/dg; if(warned_conv) c.label("not converged"); bool nt=false;
    for(size_t k=0;k<n.M;k++){ cd l=n.A[k]; if(n.o.filtering!=fnft_nsep_filt_NONE&&!(std::abs(l)<1e300)) c.fail("entry %zu is %g%+gi",k,l.real(),l.imag()); if(n.o.filtering==fnft_nsep_filt_MANUAL&&(l.real()<n.o.bounding_box[0]||l.real()>n.o.bounding_box[1]||l.imag()<n.o.bounding_box[2]||l.imag()>n.o.bounding_box[3])) c.fail("entry %zu=%g%+gi is outside the box",k,l.real(),l.imag()); if(!(fabs(l.imag())*w<25)||!(fabs(l.real())<3*M_PI/(mc*eps))) continue; if(!exact&&(warned_conv||fabs(l.imag())*w>12)) continue;
        cl L(l.real(),l.imag()); double g=std::exp(fabs(l.imag())*w); double b=(double)std::abs(mo.b(L)); auto f=[&](cl z){ return mo.b(z); }; double tol=exact? 1e-10*cnd*dg*dg*(1+g)*D : 10*tol0+1e-11*(1+g)*D; double st=0; if(b>tol){ cl d=nb::deriv(f,L,1e-3L/w); st=(double)std::abs(mo.b(L)/d); if(!exact&&st<1e-3/w) continue; if(!exact&&std::abs(d)<std::max(1e-6,0.05*qm*w*w)) continue; c.fail("entry %zu=%.12g%+.12gi: monodromy entry %.3g (allowed %.3g), Newton step %.3g",k,l.real(),l.imag(),b,tol,st); } if(fabs(l.imag())*w>0.05) nt=true; }
    if(nt) c.nontrivial();
}
// without refinement all zeros in a rectangle are reported, exactly once
LAW("C08",aux_no_zero_is_missed,400,40000,"at least three zeros in the rectangle, one of them not real"){
    Nsep n; double w; size_t D; setup(c,n,12,3,6,w,D,8,false); int disc=n.o.discretization; double eps=w/D; double qm=qmax(n); if(qm<0.05/w) c.discard(); n.o.max_evals=0; n.o.Dsub=D; n.o.filtering=fnft_nsep_filt_MANUAL; n.o.bounding_box[0]=-1.5/eps; n.o.bounding_box[1]=1.5/eps; n.o.bounding_box[3]=std::min(2*qm+3/w,9/w); n.o.bounding_box[2]=-n.o.bounding_box[3]; n.ms=c.chance(0.5)||true; show(c,n); if(n.run()) c.fail("error %d for valid input",n.rc); if(ref::cond((D_t)disc,n.q,eps,n.kappa)>1e4) c.discard();
    Mono mo{disc,n.q,eps,n.kappa}; auto f=[&](cl l){ return mo.b(l); }; double x1=c.real(0.3,1.2)/eps,x0=-c.real(0.3,1.2)/eps,y1=c.real(0.3,1)*n.o.bounding_box[3],y0=-c.real(0.3,1)*n.o.bounding_box[3]; c.label(ref::name(disc)); int W=nb::winding(f,x0,x1,y0,y1,0.15/w,1e-4*eps*qm); if(W<0) c.discard(); int in=0,nr=0; double edge=1e300; for(size_t k=0;k<n.M;k++){ cd l=n.A[k]; double dx=std::min(fabs(l.real()-x0),fabs(l.real()-x1)),dy=std::min(fabs(l.imag()-y0),fabs(l.imag()-y1)); edge=std::min(edge,std::min(dx,dy)); if(l.real()>x0&&l.real()<x1&&l.imag()>y0&&l.imag()<y1){ in++; nr+=fabs(l.imag())*w>0.05; } } if(edge<0.03/w) c.discard(); if(W>=3&&nr) c.nontrivial(); if(in!=W) c.fail("the rectangle [%g,%g]x[%g,%g] contains %d zeros, but %d were reported (M=%zu)",x0,x1,y0,y1,W,in,n.M);
}
// with refinement all isolated simple zeros are found
LAW("C08",aux_refinement_finds_isolated_zeros,500,40000,"at least two isolated zeros, one of them not real"){
    Nsep n; double w; size_t D; setup(c,n,12,4,6,w,D,8,true); int disc=n.o.discretization; double eps=w/D; n.o.Dsub=c.chance(0.5)?D:c.chance(0.5)?0:D/2; n.o.max_evals=c.pick({50,200}); size_t Ds=autosub(D,n.o.Dsub); double es=w/Ds; n.o.filtering=fnft_nsep_filt_MANUAL; n.o.bounding_box[0]=-1.5/es; n.o.bounding_box[1]=1.5/es; n.o.bounding_box[2]=-9/w; n.o.bounding_box[3]=9/w; show(c,n); if(n.run()) c.fail("error %d for valid input",n.rc); vector<cd> qs; for(size_t i=0;i<D;i+=D/Ds) qs.push_back(n.q[i]); Mono full{nb::base_disc(disc),n.q,eps,n.kappa}, sub{disc,qs,es,n.kappa}; c.label(ref::name(disc)); int tgt=0; bool nr=false; auto f=[&](cl l){ return full.b(l); };
    for(int a=0;a<6;a++){ cl l(c.sreal(0.4/es),c.sreal(std::min(1.2*qmax(n)+1/w,6/w))); if(!nb::polish(f,l,3/w,1e-3L/w)) continue; cl d1=nb::deriv(f,l,1e-3L/w); cl d2=(nb::deriv(f,l+(cl)(1e-3L/w),1e-3L/w)-d1)/(cl)(1e-3L/w); if(std::abs(d1)<1e-3L*w||std::abs(l.real())>1/es||std::abs(l.imag())>7/w) continue; ld r=std::min<ld>(0.3L/w,0.2L*std::abs(d1)/(std::abs(d2)+1e-9L)); bool ok=true; for(int k=0;k<24&&ok;k++){ cl z=l+(cl)std::polar<ld>(r,2*M_PIl*k/24); cl fv=f(z); if(!(std::abs(fv-sub.b(z))<0.4L*std::abs(fv))||std::abs(fv)<0.5L*r*std::abs(d1)||std::abs(fv)>2L*r*std::abs(d1)) ok=false; } if(!ok) continue; tgt++; nr=nr||fabs((double)l.imag())*w>0.05; double md=1e300; for(size_t k=0;k<n.M;k++) md=std::min(md,(double)std::abs(cl(n.A[k].real(),n.A[k].imag())-l)); double tl=1e-7*(1/w+1/(double)std::abs(d1))+1e-8*(1+(double)std::abs(l)); if(!(md<=tl)) c.fail("the isolated zero %.12Lg%+.12Lgi is missing, the closest reported point is at distance %.3g (allowed %.3g)",l.real(),l.imag(),md,tl); }
    if(tgt>=2&&nr) c.nontrivial(); c.label(strf("targets %d",tgt));
}
// closed form for plane waves, all methods
LAW("C08",aux_spectrum_of_plane_waves,500,40000,"focusing wave with a nonreal auxiliary spectrum"){
    Nsep n; int loc=c.pick({0,0,2,3}); int disc=fastdisc(c,24); n.o.discretization=(D_t)disc; int dg=ref::degree(disc); n.kappa=c.chance(0.35)?-1:1; double w=c.logreal(0.3,8),m=c.chance(0.5)?c.sreal(3):0; n.T[0]=m-w/2; n.T[1]=m+w/2; int hi=7; while(hi>4&&(dg<<hi)>400) hi--; size_t D=p2(c,4,hi); double eps=w/D; double AL=c.real(0.3,n.kappa<0?5.0:9.0); if(AL/D>0.25) c.discard(); double fr=AL/M_PI-std::floor(AL/M_PI); if(fr<0.06||fr>0.94) c.discard(); double A=AL/w,ph=c.real(0,6.28); n.q.assign(D,std::polar(A,ph)); n.o.localization=(fnft_nsep_loc_t)loc; n.o.Dsub=c.chance(0.6)?D:0; n.o.normalization_flag=!c.chance(0.3); n.o.max_evals=c.pick({50,150}); n.cap=D*dg*4; n.acap=D*dg*4; show(c,n); if(n.run()) c.fail("error %d for valid input",n.rc); c.label(ref::name(disc)); c.label(strf("loc=%d",loc));
    size_t Ds=autosub(D,n.o.Dsub); double R=0.45/(w/Ds); if(loc>=2) R=std::min(R,1.0/(w/Ds)); double h=2*M_PI*0.95/(32.0*D*dg-1)/(2.0/dg*eps)*1.1; double tim=std::log(10.0)*dg/(w/Ds)/(32.0*(D-1)); double tolr=3e-4/w*(1+AL); if(loc>=2) tolr=h; vector<char> used(n.M,0); if(loc>=2) for(auto&x:n.q) (void)x;
    double derr=AL*AL*std::pow(R*eps+AL/D,2)/w; // error of the unrefined grid search
    if(loc>=2){ if(ref::order(disc)<3&&disc<20) tolr+=3*derr; else tolr+=derr; }
    for(int mm=1;mm*M_PI/w<2*R+A;mm++){ double s2=(mm*M_PI/w)*(mm*M_PI/w)-n.kappa*A*A; cd l0=std::sqrt(cd(s2,0)); for(int sg=0;sg<2;sg++){ cd l=sg?-l0:l0; if(fabs(l.real())>R) continue; bool nonreal=fabs(l.imag())>1e-9; if(loc==2&&nonreal) continue; bool skip=loc==3&&nonreal&&fabs(l.imag())<2*tim; int cnt=0; double tl=nonreal?3e-4/w*(1+AL):tolr; for(size_t k=0;k<n.M;k++) if(std::abs(n.A[k]-l)<tl){ cnt++; used[k]=1; } if(skip) continue; if(cnt<1) c.fail("auxiliary spectrum point %.8g%+.8gi of the plane wave (m=%d) was found %d times within %.2g",l.real(),l.imag(),mm,cnt,tl); if(nonreal) c.nontrivial(); } }
    for(size_t k=0;k<n.M;k++) if(!used[k]&&std::abs(n.A[k].real())<R*0.8&&std::abs(n.A[k].imag())<0.4*R+A&&!(loc==3&&fabs(n.A[k].imag())<2*tim)) c.fail("reported point %.8g%+.8gi is not in the auxiliary spectrum of the plane wave A=%g",n.A[k].real(),n.A[k].imag(),A);
}
// Newton
LAW("C08",aux_newton_converges_to_the_zeros,400,40000,"two or more targets, one of them not real"){
    Nsep n; int disc=c.pick({1,22,1,22,23,24,25}); n.kappa=c.chance(0.35)?-1:1; double w=c.logreal(0.5,5),m=c.chance(0.5)?c.sreal(3):0; n.T[0]=m-w/2; n.T[1]=m+w/2; size_t D=p2(c,3,6); double eps=w/D; auto t=trig(c,n.T[0],w,n.kappa<0?4.0:8.0); n.q=samp(t,n.T,D); if(t.amp()*eps>0.8) c.discard(); Mono mo{disc,n.q,eps,n.kappa}; auto f=[&](cl l){ return mo.b(l); }; size_t K=1+c.draw(3); vector<cl> tg; bool nr=false; for(size_t k=0;k<K;k++){ cl l(c.sreal(0.4/eps),c.sreal(std::min(1.2*t.amp()+1/w,6/w))); if(!nb::polish(f,l,3/w,1e-3L/w)) c.discard(); cl d1=nb::deriv(f,l,1e-3L/w); cl d2=(nb::deriv(f,l+(cl)(1e-3L/w),1e-3L/w)-d1)/(cl)(1e-3L/w); if(std::abs(d1)<0.02L*w) c.discard(); ld basin=std::min<ld>(0.2L/w,0.15L*std::abs(d1)/(std::abs(d2)+1e-9L)); tg.push_back(l); nr=nr||fabs((double)l.imag())*w>0.05; cl g=l+(cl)std::polar((double)basin*c.real(0,1),c.real(0,6.28)); n.aguess.push_back(cd((double)g.real(),(double)g.imag())); }
    n.o.localization=fnft_nsep_loc_NEWTON; n.o.filtering=c.chance(0.7)?fnft_nsep_filt_NONE:fnft_nsep_filt_AUTO; n.o.discretization=(D_t)disc; n.o.normalization_flag=!c.chance(0.3); n.o.tol=1e-11; n.acap=K; n.ms=n.o.filtering!=fnft_nsep_filt_NONE||c.chance(0.5); n.o.points_per_spine=1; n.cap=n.ms?1:0; if(n.ms) n.guess.assign(1,n.aguess[0]); show(c,n); if(n.run()) c.fail("error %d for valid input",n.rc); c.label(ref::name(disc)); if(K>1&&nr) c.nontrivial(); if(n.M!=K) c.fail("M=%zu for %zu initial guesses",n.M,K);
    for(size_t k=0;k<K;k++){ double e=(double)std::abs(cl(n.A[k].real(),n.A[k].imag())-tg[k]); if(!(e<=1e-9*(1+(double)std::abs(tg[k])+1/w))) c.fail("entry %zu: %.12g%+.12gi, the zero near the initial guess %.12g%+.12gi is %.12Lg%+.12Lgi",k,n.A[k].real(),n.A[k].imag(),n.aguess[k].real(),n.aguess[k].imag(),tg[k].real(),tg[k].imag()); }
}
// the auxiliary spectrum does not depend on how or whether the main spectrum is computed
LAW("C08",aux_spectrum_does_not_depend_on_the_main_spectrum,400,30000,"nonempty auxiliary spectrum"){
    Nsep n; double w; size_t D; setup(c,n,12,1,6,w,D,9,false); int loc=c.pick({0,2,3}); n.o.localization=(fnft_nsep_loc_t)loc; n.o.filtering=fnft_nsep_filt_NONE; n.o.Dsub=c.chance(0.5)?D:0; n.o.max_evals=c.pick({0,20,50}); n.shift=c.chance(0.3)?c.sreal(5):0; n.cap=n.acap=4*D*ref::degree(n.o.discretization); Nsep a=n,b=n; b.ms=false; if(c.chance(0.5)) b.cap=0; show(c,n); if(a.run()) c.fail("error %d for valid input with main spectrum",a.rc); if(b.run()) c.fail("error %d for valid input without main spectrum",b.rc); c.label(strf("loc=%d",loc)); if(a.M!=b.M) c.fail("M=%zu if the main spectrum is requested, M=%zu if it is not",a.M,b.M); for(size_t k=0;k<a.M;k++) if(!(a.A[k]==b.A[k])&&!(a.A[k]!=a.A[k]&&b.A[k]!=b.A[k])) c.fail("entry %zu depends on whether the main spectrum is requested",k); if(a.M) c.nontrivial();
    // options that only concern the main spectrum
    Nsep d=n,e=n; d.o.filtering=e.o.filtering=fnft_nsep_filt_AUTO; e.o.points_per_spine=1+c.draw(4); e.o.floquet_range[0]=-0.5; e.o.floquet_range[1]=0.7; d.cap=e.cap=8*D*ref::degree(n.o.discretization); if(d.run()||e.run()) c.fail("errors %d %d for valid input",d.rc,e.rc); if(d.M!=e.M) c.fail("the number of auxiliary points depends on the Floquet range"); for(size_t k=0;k<d.M;k++) if(!(d.A[k]==e.A[k])) c.fail("auxiliary entry %zu depends on the Floquet range",k);
}
// against the continuous problem
LAW("C08",aux_spectrum_converges_to_the_true_one,120,10000,"error visible and in the asymptotic regime"){
    Nsep n; int disc=fastdisc(c,8); n.o.discretization=(D_t)disc; n.kappa=c.chance(0.3)?-1:1; double w=c.logreal(0.5,4); n.T[0]=c.sreal(2); n.T[1]=n.T[0]+w; auto t=trig(c,n.T[0],w,n.kappa<0?3.0:7.0); auto f=[&](double x){return t(x);}; int p=ref::order(disc); 
    double off=0; auto bt=[&](cl l)->cl{ vector<cd> lam={cd((double)l.real(),-(double)l.imag())},A,B; ref::zs_true(f,n.T[0]-off,n.T[1]-off,400,n.kappa,lam,A,B); cd r=std::conj(B[0]); return cl(r.real(),r.imag()); }; // the (1,2) entry is proportional to conj(b(conj(lambda)))
    // (the base point is half a step before the first sample)
    auto pol=[&](cl&l){ bool ok=false; for(int it=0;it<25;it++){ cl d=(bt(l+(cl)(1e-4L/w))-bt(l-(cl)(1e-4L/w)))/(cl)(2e-4L/w); if(std::abs(d)==0) break; cl st=bt(l)/d; l-=st; if(std::abs(st)>3/w||fabs((double)l.imag())>6/w) break; if(std::abs(st)<1e-10L/w){ ok=std::abs(d)>0.3L*w; break; } } return ok; };
    cl l(c.sreal(6/w),c.sreal(std::min(t.amp()+1/w,4/w))); if(!pol(l)) c.discard(); double err[2]; size_t D0=disc>=20?16:32; double S=std::max({4*M_PI/w,t.amp(),fabs((double)l.real())}); while(w/D0*S>0.5) D0*=2; if(D0>128) c.discard(); cl l0=l;
    for(int i=0;i<2;i++){ size_t D=D0<<i; l=l0; off=0.5*w/D; if(!pol(l)||std::abs(l-l0)>0.5L/w) c.discard(); n.q=samp(t,n.T,D); n.o.Dsub=D0; n.cap=n.acap=D*24; n.o.tol=1e-11; if(n.run()) c.fail("error %d for valid input",n.rc); double md=1e300; for(size_t k=0;k<n.M;k++) md=std::min(md,(double)std::abs(cl(n.A[k].real(),n.A[k].imag())-l)); err[i]=md*w; } n.q.resize(D0); show(c,n); c.info(" lambda=%.10Lg%+.10Lgi errors %.3g %.3g",l.real(),l.imag(),err[0],err[1]); c.label(ref::name(disc));
    if(!(err[0]<0.3)) c.fail("the zero %.10Lg%+.10Lgi of the continuous problem is missing (closest point at distance %.3g/T)",l.real(),l.imag(),err[0]); if(err[0]<1e-7) return; c.nontrivial(); if(!(err[1]<err[0]*std::pow(2.0,-(p-0.8))+1e-8)&&err[1]>1e-6) c.fail("error %.3g with D=%zu, %.3g with D=%zu: order %.2f instead of %d",err[0],D0,err[1],2*D0,std::log2(err[0]/err[1]),p);
}
