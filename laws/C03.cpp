// C03: NSE bound states are exactly the eigenvalues of the discretized problem
#include "nse_bs.hpp"
using namespace pbt; using namespace api; using namespace nb; using std::vector;
static QuietReg qr;
static const double PI=M_PI;
static const char*locn[]={"fasteig","newton","subsample"};
static void show(Case&c,const Nsev&n){ c.info("disc=%s D=%zu T=[%.17g,%.17g] loc=%d filt=%d q=%s",ref::name(n.o.discretization),n.q.size(),n.T[0],n.T[1],n.o.bound_state_localization,n.o.bound_state_filtering,gen::show(n.q).c_str()); }
// fast eigenvalue method: every reported value is a zero of the scheme's a, and the argument principle finds no others
LAW("C03",nse_fast_eigenvalue_exact_and_complete,1200,150000,"at least one zero inside the counted rectangle"){
    Nsev n; int disc; do disc=(int)c.draw(21); while(ref::is_slow(disc)); n.o.discretization=(D_t)disc; int dg=ref::degree(disc); size_t maxD=dg>20?6: std::min(120,900/dg); size_t D=gen::len(c,disc>=fnft_nse_discretization_4SPLIT4A?2:2,std::max<size_t>(4,maxD)); gen::window(c,n.T); double eps=(n.T[1]-n.T[0])/(D-1); double lim=c.chance(0.3)&&dg<6?1.2:0.5; double amp=std::min(lim/eps,20.0/(D*eps)); std::string kind; n.q=gen::samples(c,D,amp,&kind); if(kind=="zero"&&!c.chance(0.2)) c.discard();
    n.bs=true; n.o.bound_state_localization=fnft_nsev_bsloc_FAST_EIGENVALUE; n.o.bound_state_filtering=c.chance(0.5)?fnft_nsev_bsfilt_FULL:fnft_nsev_bsfilt_BASIC; n.o.normalization_flag=!c.chance(0.3); n.maxcap(); show(c,n);
    double cond=ref::cond((D_t)disc,n.q,eps,1); if(cond>1e5) c.discard(); if(n.run()) c.fail("error %d for valid input",n.rc); if(n.K>n.cap) c.fail("K=%zu exceeds the array length",n.K);
    c.label(ref::name(disc)); Afun f{disc,n.q,n.T}; double mc=2.0/(disc>=fnft_nse_discretization_4SPLIT4A?dg/2:dg); double R=PI/(mc*eps), E=l2(n.q,eps); double x1=R*c.real(0.3,0.85),x0=-R*c.real(0.3,0.85); double y0=c.real(0.002,0.1)/ (D*eps), y1=n.o.bound_state_filtering==fnft_nsev_bsfilt_FULL? 0.25*E*1.4: 0.25*E*1.4+2*y0; if(y1*eps*mc>3) y1=3/(eps*mc); if(y1<=y0*1.5) c.discard();
    size_t inside=0; for(size_t k=0;k<n.K;k++){ cd l=n.B[k]; if(!(l.imag()>=0)) c.fail("bound state %.10g%+.10gi in the lower half plane",l.real(),l.imag()); if(l.real()>x0&&l.real()<x1&&l.imag()>y0&&l.imag()<y1) inside++;
        if(fabs(l.real())>0.9*R||l.imag()>y1) continue; double v=(double)std::abs(f(cl(l.real(),l.imag()))); if(!(v<=1e-8*cond*dg)) c.fail("|a|=%.3g at the reported bound state %.10g%+.10gi (not an eigenvalue of the discretization)",v,l.real(),l.imag()); }
    int w=winding(f,x0,x1,y0,y1,0.6/(D*eps),1e-7*cond*dg); if(w<0) c.discard(); c.label(strf("zeros=%d",w>5?5:w)); if(w>0) c.nontrivial();
    if((size_t)w!=inside) c.fail("rectangle [%g,%g]x[%g,%g] contains %d zeros of a but %zu were reported (K=%zu)",x0,x1,y0,y1,w,inside,n.K);
}
// Newton: started near an eigenvalue, it returns it; K and order are kept
LAW("C03",nse_newton_converges_to_the_eigenvalues,900,120000,"at least one eigenvalue used as target"){
    Nsev h; int disc=(int)c.draw(27); auto s=gen::smooth(c,12.0,3,false,0.45,0.4); h.T[0]=s.T0; h.T[1]=s.T1; double S=std::max({s.bw/2,s.amp,1.0}); size_t D=(size_t)((s.T1-s.T0)/(c.real(0.15,0.4)/S))+3; if(D>300) c.discard(); double eps=(s.T1-s.T0)/(D-1); h.q=gen::sample([&](double t){return s(t);},h.T,D); h.bs=true; h.o.bound_state_localization=fnft_nsev_bsloc_FAST_EIGENVALUE; h.o.discretization=fnft_nse_discretization_2SPLIT4B; h.maxcap(); if(h.run()) c.fail("fast eigenvalue: error %d",h.rc);
    int bd=base_disc(disc); Afun f{bd,h.q,h.T}; vector<cl> tgt; for(size_t k=0;k<h.K&&tgt.size()<6;k++){ cl l(h.B[k].real(),h.B[k].imag()); if(l.imag()<0.08L||fabsl(l.real())>0.35*PI/eps) continue; if(!polish(f,l,0.05L)) continue; bool dup=false; for(auto&x:tgt) dup|=std::abs(x-l)<1e-3L; if(!dup) tgt.push_back(l); }
    if(tgt.empty()) c.discard(); Nsev n; n.q=h.q; n.T[0]=h.T[0]; n.T[1]=h.T[1]; n.bs=true; n.o.discretization=(D_t)disc; n.o.bound_state_localization=fnft_nsev_bsloc_NEWTON; n.o.bound_state_filtering=c.pick({fnft_nsev_bsfilt_FULL,fnft_nsev_bsfilt_BASIC,fnft_nsev_bsfilt_NONE}); n.o.normalization_flag=!c.chance(0.3); show(c,n); for(auto&p:s.p) c.info(" {A=%g tau=%g w=%g om=%g kind=%d}",p.A,p.tau,p.w,p.om,p.kind);
    if(c.chance(0.5)) std::reverse(tgt.begin(),tgt.end()); for(auto&l:tgt){ ld sep=0.3L; sep=std::min(sep,l.imag()); for(auto&m:tgt) if(&m!=&l) sep=std::min(sep,std::abs(m-l)); cl dd=deriv(f,l,1e-4L),d2=(deriv(f,l+(cl)1e-3L,1e-4L)-dd)/(cl)1e-3L; ld curv=std::abs(d2)/std::abs(dd); sep=std::min(sep,0.5L/(curv+1e-9L)); double r=0.3*(double)sep*c.real(0,1); cd g((double)l.real(),(double)l.imag()); n.guess.push_back(g+std::polar(r,c.real(0,6.283))); }
    n.cap=n.guess.size(); if(n.run()) c.fail("error %d for valid input",n.rc); c.label(ref::name(disc)); c.nontrivial(); if(n.K!=tgt.size()) c.fail("%zu guesses near %zu distinct eigenvalues, but K=%zu returned",n.guess.size(),tgt.size(),n.K);
    for(size_t k=0;k<n.K;k++){ cl l=tgt[k]; ld d=std::abs(deriv(f,l,1e-4L)); double tol=1e-9*(1+(double)std::abs(l))+2e-13/(double)d; double e=(double)std::abs(cl(n.B[k].real(),n.B[k].imag())-l); if(!(e<=tol)) c.fail("entry %zu: %.12g%+.12gi, eigenvalue is %.12Lg%+.12Lgi (error %.3g)",k,n.B[k].real(),n.B[k].imag(),l.real(),l.imag(),e); }
}
// default method on smooth signals: all returned values are eigenvalues of the full problem and none is missing or doubled
LAW("C03",nse_subsample_and_refine_exact_and_complete,800,80000,"at least one zero inside the counted rectangle"){
    Nsev n; int disc; do disc=(int)c.draw(21); while(ref::is_slow(disc)||ref::degree(disc)>12); n.o.discretization=(D_t)disc; int dg=ref::degree(disc); auto s=gen::smooth(c,11.0,3,false,0.4,0.4); n.T[0]=s.T0; n.T[1]=s.T1; double S=std::max({s.bw/2,s.amp,1.0}); size_t D=(size_t)((s.T1-s.T0)/(c.real(0.07,0.2)/S))+3; if(D>360) c.discard(); double eps=(s.T1-s.T0)/(D-1); n.q=gen::sample([&](double t){return s(t);},n.T,D);
    n.bs=true; n.o.bound_state_localization=fnft_nsev_bsloc_SUBSAMPLE_AND_REFINE; n.o.bound_state_filtering=c.chance(0.5)?fnft_nsev_bsfilt_FULL:fnft_nsev_bsfilt_BASIC; if(c.chance(0.3)) n.o.Dsub=D/2; if(c.chance(0.15)) n.o.Dsub=D; n.maxcap(); show(c,n); c.info(" Dsub=%zu",n.o.Dsub); for(auto&p:s.p) c.info(" {A=%g tau=%g w=%g om=%g kind=%d}",p.A,p.tau,p.w,p.om,p.kind);
    if(n.run()) c.fail("error %d for valid input",n.rc); if(n.o.bound_state_localization!=fnft_nsev_bsloc_SUBSAMPLE_AND_REFINE) c.fail("option bound_state_localization was changed"); int bd=base_disc(disc); Afun f{bd,n.q,n.T}; size_t Ds=n.o.Dsub?n.o.Dsub:(size_t)(sqrt((double)D)*log2((double)D)); double es=eps*std::max(1.0,round((double)D/Ds)); if(es*S>0.4) c.discard();
    double R=std::min(0.35*PI/es,2*s.bw+3*s.amp), E=l2(n.q,eps); double y0=c.real(0.12,0.3),y1=0.25*E*1.1+2*y0; c.label(ref::name(disc)); size_t inside=0;
    for(size_t k=0;k<n.K;k++){ cd l=n.B[k]; if(!(l.imag()>=0)) c.fail("bound state in the lower half plane"); for(size_t j=0;j<k;j++) if(std::abs(n.B[j]-l)<1e-8) c.fail("bound state %.10g%+.10gi reported twice",l.real(),l.imag()); if(fabs(l.real())<R&&l.imag()>y0&&l.imag()<y1){ inside++; double v=(double)std::abs(f(cl(l.real(),l.imag()))); if(!(v<=1e-9)) c.fail("|a|=%.3g at the reported bound state %.10g%+.10gi",v,l.real(),l.imag()); } }
    int w=winding(f,-R,R,y0,y1,1.0/(s.T1-s.T0),1e-5); if(w<0) c.discard(); c.label(strf("zeros=%d",w>5?5:w)); if(w>0) c.nontrivial(); if((size_t)w!=inside) c.fail("rectangle |Re|<%g, %g<Im<%g contains %d eigenvalues but %zu were reported (K=%zu)",R,y0,y1,w,inside,n.K);
}
// almost equal, but distinct eigenvalues: well separated pulses; each of them is reported
LAW("C03",nse_close_eigenvalues_are_kept_apart,300,20000,"at least two eigenvalues within 1e-3 of each other"){
    Nsev n; int disc; do disc=(int)c.draw(19); while(ref::is_slow(disc)||ref::degree(disc)>4||ref::degree(disc)==0); n.o.discretization=(D_t)disc; int np=(int)c.range(2,3); double w=c.logreal(0.5,2), h=c.real(0.15,0.25)*w, A=c.real(0.9,1.2)/w; size_t gap=(size_t)(36*w/h), D=(np-1)*gap+2*(size_t)(14*w/h); double t0=c.sreal(20); n.T[0]=t0; n.T[1]=t0+(D-1)*h; double del=c.logreal(3e-6,5e-4)/w; 
    n.q.assign(D,0); size_t first=(size_t)(14*w/h); bool am=c.chance(0.4); double om0=c.sreal(0.5)/w; vector<double> ph; for(int k=0;k<np;k++) ph.push_back(c.real(0,6.28)); for(size_t i=0;i<D;i++) for(int k=0;k<np;k++){ double t=h*((double)i-(double)(first+k*gap)); double a=am?A+del*k:A, om=am?om0:om0+del*k; n.q[i]+=std::polar(a/std::cosh(t/w),-2*om*t+ph[k]); }
    n.bs=true; n.o.bound_state_localization=fnft_nsev_bsloc_FAST_EIGENVALUE; n.o.bound_state_filtering=c.chance(0.5)?fnft_nsev_bsfilt_FULL:fnft_nsev_bsfilt_BASIC; n.o.normalization_flag=!c.chance(0.3); n.maxcap(); c.info("disc=%s D=%zu T=[%.17g,%.17g] pulses=%d width=%g amplitude=%g distance=%g samples=%zu",ref::name(disc),D,n.T[0],n.T[1],np,w,A,del,gap); if(D*ref::degree(disc)>1500) c.discard();
    if(n.run()) c.fail("error %d for valid input",n.rc); c.label(ref::name(disc)); Afun f{disc,n.q,n.T}; double y=A-0.5/w, r=0.08/w; int wn=winding(f,om0-r,om0+r,y-r,y+r,0.05*r,1e-12); if(wn<0) c.discard(); size_t in=0; for(size_t k=0;k<n.K;k++) if(fabs(n.B[k].real()-om0)<r&&fabs(n.B[k].imag()-y)<r) in++; if(wn>=2) c.nontrivial();
    if((size_t)wn!=in) c.fail("%d eigenvalues within %g of %g%+gi (about %.3g apart), but %zu were reported",wn,r,om0,y,del,in);
}
// known eigenvalues of A sech(t): approached at the documented order
LAW("C03",nse_bound_states_converge_at_documented_order,700,40000,"error at the coarse step between rounding and 10 percent"){
    int disc; do disc=(int)c.draw(27); while(ref::degree(disc)>24); int Nb=(int)c.range(1,3); double A=Nb+c.real(-0.2,0.3); double w=c.logreal(0.4,2.5), tau=c.sreal(2)*w, om=c.sreal(1.0)/w, ph=c.real(0,6.28); double L=(18.0+fabs(tau/w))*w; double T[2]={tau-L,tau+L*c.real(0.9,1)}; double h=c.real(0.12,0.2)*w/ (1+0.4*A); size_t D0=(size_t)((T[1]-T[0])/h)+1; auto f=[&](double t){ return std::polar(A/w/std::cosh((t-tau)/w),-2*om*t+ph); };
    int order=(disc==fnft_nse_discretization_2SPLIT1A||disc==fnft_nse_discretization_2SPLIT1B)?2:ref::order(disc); bool slow=ref::is_slow(disc); int loc=slow?1:(int)c.draw(2); if(loc==0&&ref::degree(disc)*D0*2>1600) loc=1; c.info("disc=%s A=%g w=%g tau=%g om=%g T=[%g,%g] D=%zu loc=%s",ref::name(disc),A,w,tau,om,T[0],T[1],D0,locn[loc]); c.label(ref::name(disc)); c.label(locn[loc]);
    if(loc!=0) order=ref::order(base_disc(disc)); vector<double> err[2]; for(int k=0;k<2;k++){ Nsev n; n.T[0]=T[0]; n.T[1]=T[1]; n.q=gen::sample(f,T,D0<<k); n.bs=true; n.o.discretization=(D_t)disc; n.o.bound_state_localization=(fnft_nsev_bsloc_t)loc; for(int j=0;j<Nb;j++) if(loc==1) n.guess.push_back(cd(om,(A-0.5-j)/w)+std::polar(0.03/w,1.0+j)); if(loc==1) n.cap=Nb; else n.maxcap(); if(n.run()) c.fail("error %d for valid input",n.rc);
        for(int j=0;j<Nb;j++){ cd t(om,(A-0.5-j)/w); double b=1e9; for(size_t i=0;i<n.K;i++) b=std::min(b,std::abs(n.B[i]-t)); err[k].push_back(b*w); } }
    for(int j=0;j<Nb;j++){ if(err[0][j]>0.2) c.fail("eigenvalue %d: error %.3g (relative to 1/width) with %zu samples",j,err[0][j],D0); if(A-0.5-j<0.4) continue; if(err[0][j]<0.1&&err[1][j]>1e-9) c.nontrivial(); double fl=1e-9; if(disc==fnft_nse_discretization_CF6_4||disc==fnft_nse_discretization_CF5_3) fl=1e-8; if(err[1][j]>std::max(fl,err[0][j]*pow(2.0,-(order-0.6)))) c.fail("eigenvalue %d: error %.4g with %zu samples, %.4g with twice as many: order %.2f, documented %d",j,err[0][j],D0,err[1][j],log2(err[0][j]/err[1][j]),order); }
}
LAW("C03",nse_no_bound_states_where_there_are_none,800,40000,"signal not identically zero"){
    Nsev n; int disc=(int)c.draw(27); n.o.discretization=(D_t)disc; size_t D=gen::len(c,disc>=fnft_nse_discretization_4SPLIT4A?2:2,80); gen::window(c,n.T); double eps=(n.T[1]-n.T[0])/(D-1); std::string kind; int what=(int)c.draw(2); n.q=gen::samples(c,D,0.3/eps,&kind); n.cap=ref::degree(disc)*D+3; n.bs=true; n.guess.assign(n.cap,cd(0.1,0.2)); show(c,n); c.info(" kind=%d",what); if(kind!="zero") c.nontrivial();
    n.o.bound_state_localization=ref::is_slow(disc)?fnft_nsev_bsloc_NEWTON:(fnft_nsev_bsloc_t)c.draw(2); if(what==0){ n.kappa=-1; n.nc=c.chance(0.5); n.M=c.draw(4)?8:0; n.cs=n.M>0; if(disc==0) for(auto&x:n.q) x*=0.9; }
    else if(what==1){ n.bs=false; n.kappa=c.chance(0.5)?1:-1; n.M=8; n.cs=true; }
    else { if(ref::is_slow(disc)) n.o.discretization=fnft_nse_discretization_2SPLIT4B; n.o.bound_state_localization=fnft_nsev_bsloc_FAST_EIGENVALUE; n.cap=ref::degree(n.o.discretization)*D; double a=0; for(auto&x:n.q) a+=std::abs(x)*eps; for(auto&x:n.q) x*= a>0? 1.2/a: 0; if(ref::degree(disc)*D>600) c.discard(); } // L1 norm below pi/2: no eigenvalues
    if(n.run()) c.fail("error %d for valid input",n.rc); size_t K=n.K; if(what==2){ K=0; int dg=ref::degree(n.o.discretization); for(size_t k=0;k<n.K;k++) if(fabs(n.B[k].real())<0.25*PI/eps&&n.B[k].imag()>1e-6/(D*eps)){ double m=0; for(auto&x:n.q) m=std::max(m,std::abs(x)*eps); if(m<0.3) K++; } }
    if(K!=0) c.fail("%zu bound states reported",K); if(what!=2) for(auto&x:n.B) if(n.bs&&x!=SENT&&&x-&n.B[0]>=(long)n.guess.size()) c.fail("bound state array written although there are none");
}
