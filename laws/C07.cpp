// C07: main spectrum of the periodic NSE problem
#include "nsep.hpp"
using namespace pbt; using namespace api; using namespace np; using std::vector;
static HookReg hr;
static void show(Case&c,const Nsep&n){ c.info("disc=%s kappa=%d D=%zu T=[%.17g,%.17g] shift=%g loc=%d filt=%d box=[%g,%g]x[%g,%g] evals=%zu Dsub=%zu pps=%zu range=[%g,%g] norm=%d tol=%g cap=%zu/%zu q=%s",ref::name(n.o.discretization),n.kappa,n.q.size(),n.T[0],n.T[1],n.shift,n.o.localization,n.o.filtering,n.o.bounding_box[0],n.o.bounding_box[1],n.o.bounding_box[2],n.o.bounding_box[3],(size_t)n.o.max_evals,(size_t)n.o.Dsub,(size_t)n.o.points_per_spine,n.o.floquet_range[0],n.o.floquet_range[1],n.o.normalization_flag,n.o.tol,n.cap,n.acap,gen::show(n.q).c_str()); }
// subsample and refine: every point solves the Floquet equation of the full problem (or of the subsampled scheme without refinement)
LAW("C07",nsep_points_solve_the_floquet_equation,1500,100000,"refined or exact points away from the real axis"){
    Nsep n; int disc=fastdisc(c,24); n.o.discretization=(D_t)disc; int dg=ref::degree(disc); n.kappa=c.chance(0.4)?-1:1; double w=c.logreal(0.3,8),m=c.chance(0.5)?c.sreal(3):0; n.T[0]=m-w/2; n.T[1]=m+w/2; int hi=6; while(hi>2&&(dg<<hi)>300) hi--; size_t D=p2(c,disc>=20?2:1,hi); double eps=w/D; bool sm=c.chance(0.5); if(sm){ auto t=trig(c,n.T[0],w,n.kappa<0?4.0:10.0); n.q=samp(t,n.T,D); if(t.amp()*eps>0.7) c.discard(); } else n.q=gen::samples(c,D,std::min(0.5/eps,8.0/w));
    bool sub=c.chance(0.4); n.o.Dsub=sub?(c.chance(0.3)?0:1+c.draw(D)):D; n.o.max_evals=c.chance(0.3)?0:c.pick({50,200}); n.o.normalization_flag=!c.chance(0.3); if(c.chance(0.4)){ n.o.points_per_spine=1+c.draw(4); if(c.chance(0.5)){ n.o.floquet_range[0]=c.sreal(1); n.o.floquet_range[1]=n.o.floquet_range[0]+c.real(0.05,1.5); } } if(c.chance(0.3)) n.o.tol=c.logreal(1e-11,1e-6);
    n.o.filtering=c.pick({fnft_nsep_filt_AUTO,fnft_nsep_filt_MANUAL,fnft_nsep_filt_NONE}); if(n.o.filtering==fnft_nsep_filt_MANUAL){ double B=M_PI/eps; n.o.bounding_box[0]=-B*c.real(0.1,1); n.o.bounding_box[1]=B*c.real(0.1,1); n.o.bounding_box[2]=-5/w*c.real(0.01,1); n.o.bounding_box[3]=5/w*c.real(0.01,1); } n.as=n.o.filtering!=fnft_nsep_filt_NONE&&c.chance(0.1); n.acap=n.as?D*dg:0; n.cap=(D*dg)*n.o.points_per_spine; show(c,n);
    bool exact=n.o.max_evals==0; if(exact&&sub) { sub=false; n.o.Dsub=D; } warned_conv=warned_full=0; if(n.run()){ c.fail("error %d for valid input",n.rc); } if(warned_full) c.fail("the arrays were large enough, but points were dropped"); if(n.K>n.cap) c.fail("K=%zu exceeds the array length",n.K);
    c.label(ref::name(disc)); c.label(exact?"unrefined":"refined"); if(n.o.filtering==fnft_nsep_filt_NONE&&!sub){ if(n.K!=(size_t)dg*D*n.o.points_per_spine) c.fail("%zu points without filtering, the polynomial has degree %zu and there are %zu grid points",n.K,(size_t)dg*D,(size_t)n.o.points_per_spine); }
    Mono mo{exact?disc:nb::base_disc(disc),n.q,eps,n.kappa}; double cnd=exact?ref::cond((D_t)disc,n.q,eps,n.kappa):1; if(cnd>1e4) c.discard(); size_t np=n.o.points_per_spine; vector<double> rhs(np); for(size_t i=0;i<np;i++) rhs[i]=2*(n.o.floquet_range[0]+(np>1?i*(n.o.floquet_range[1]-n.o.floquet_range[0])/(np-1):0)); size_t last=0, bad=0, tot=0; double tol0=n.o.tol<0?1.5e-8:n.o.tol; if(warned_conv) c.label("not converged"); double mc=2.0/dg;
    for(size_t k=0;k<n.K;k++){ cd l=n.S[k]; if(n.o.filtering!=fnft_nsep_filt_NONE&&!(std::abs(l)<1e300)) c.fail("entry %zu is %g%+gi",k,l.real(),l.imag()); if(n.o.filtering==fnft_nsep_filt_MANUAL&&(l.real()<n.o.bounding_box[0]||l.real()>n.o.bounding_box[1]||l.imag()<n.o.bounding_box[2]||l.imag()>n.o.bounding_box[3])) c.fail("entry %zu=%g%+gi is outside the box",k,l.real(),l.imag());
        if(!(fabs(l.imag())*w<25)||!(fabs(l.real())<3*M_PI/(mc*eps))) continue; if(n.o.filtering==fnft_nsep_filt_NONE&&!sub){ last=k/((size_t)dg*D); }
        cl t=mo.tr(cl(l.real(),l.imag())); double g=std::exp(fabs(l.imag())*w); ref::g_prefix=1; double best=1e300; size_t bi=0; for(size_t i=last;i<(n.o.filtering==fnft_nsep_filt_NONE&&!sub?last+1:np);i++){ double e=(double)std::abs(t-(cl)rhs[i]); if(e<best){ best=e; bi=i; } } tot++;
        double tol= exact? 1e-10*cnd*dg*dg*(1+g)*D : 3*tol0+1e-11*(1+g)*D+10*w*w*(1+g)*(tol0*tol0); 
        if(!(best<=tol)){ bad++; if(!exact&&warned_conv) continue; c.fail("entry %zu: trace=%.12Lg%+.3Lgi at %.12g%+.12gi, which differs from the requested %.12g by %.3g (allowed %.3g)",k,t.real(),t.imag(),l.real(),l.imag(),rhs[bi],best,tol); } else { last=n.o.filtering==fnft_nsep_filt_NONE&&!sub?last:bi; if(fabs(l.imag())*w>0.05) c.nontrivial(); } }
    if(!exact&&warned_conv&&tot>=4){ c.label(strf("bad%d%%",(int)(100.0*bad/tot/10)*10)); }
}
// every solution inside a rectangle is found, with multiplicity
LAW("C07",nsep_no_solution_is_missed,500,40000,"at least three solutions in the rectangle, one of them not real"){
    Nsep n; int disc=fastdisc(c,12); n.o.discretization=(D_t)disc; int dg=ref::degree(disc); n.kappa=c.chance(0.3)?-1:1; double w=c.logreal(0.5,5),m=c.chance(0.5)?c.sreal(3):0; n.T[0]=m-w/2; n.T[1]=m+w/2; int lo=disc>=20?2:3; int hi=6; while(hi>lo&&(dg<<hi)>300) hi--; size_t D=p2(c,lo,hi); double eps=w/D; bool sm=c.chance(0.7); if(sm){ auto t=trig(c,n.T[0],w,n.kappa<0?4.0:9.0); n.q=samp(t,n.T,D); } else n.q=gen::samples(c,D,7.0/w);
    double qm=0; for(auto&x:n.q) qm=std::max(qm,std::abs(x)); if(qm*eps>0.8) c.discard(); n.o.Dsub=c.chance(0.7)?D:0; n.o.normalization_flag=!c.chance(0.3); n.as=false; if(c.chance(0.3)) n.o.points_per_spine=1+c.draw(3); n.cap=D*dg*n.o.points_per_spine; bool ex=true; n.o.max_evals=0; n.o.Dsub=D; show(c,n);
    { size_t Dz=n.o.Dsub?D:std::min<size_t>(D,(size_t)std::pow(2.0,std::ceil(0.5*std::log2(D*std::log2(D)*std::log2(D))))); n.o.filtering=fnft_nsep_filt_MANUAL; double es=w/Dz; n.o.bounding_box[0]=-1.5/es; n.o.bounding_box[1]=1.5/es; n.o.bounding_box[2]=-std::min(2*qm+3/w,9/w); n.o.bounding_box[3]=-n.o.bounding_box[2]; }
    warned_conv=0; if(n.run()) c.fail("error %d for valid input",n.rc); if(warned_conv) c.label("not converged");
    size_t Ds=n.o.Dsub?D:(size_t)std::pow(2.0,std::ceil(0.5*std::log2(D*std::log2(D)*std::log2(D)))); Ds=std::min(std::max<size_t>(Ds,2),D); vector<cd> qs; for(size_t i=0;i<D;i+=D/Ds) qs.push_back(n.q[i]); Mono full{ex?disc:nb::base_disc(disc),n.q,eps,n.kappa}, sub{disc,qs,w/Ds,n.kappa}; double link=ex?0.04/w:0.8/w, mg=ex?0.015/w:0.3/w; c.label(ex?"unrefined":"refined");
    size_t np=n.o.points_per_spine; double es=w/Ds; double x1=c.real(0.3,0.8)/es,x0=-c.real(0.3,0.8)/es,y1=std::min(c.real(0.3,1.3)*qm+0.5/w,8/w),y0=-std::min(c.real(0.3,1.3)*qm+0.5/w,8/w); c.label(ref::name(disc)); size_t W=0,in=0; double nonreal=0; for(double x: {x0,x1}) if(!(std::abs(full.tr(cl(x,0)))<1.9L)) c.discard();
    for(size_t i=0;i<np;i++){ double rhs=2*(n.o.floquet_range[0]+(np>1?i*(n.o.floquet_range[1]-n.o.floquet_range[0])/(np-1):0)); auto f=[&](cl l){ return full.tr(l)-(cl)rhs; }; auto g=[&](cl l){ return sub.tr(l)-(cl)rhs; };
        for(int e=0;e<4;e++){ cl a[5]={cl(x0,y0),cl(x1,y0),cl(x1,y1),cl(x0,y1),cl(x0,y0)}; int N=std::max(4,(int)(std::abs(a[e+1]-a[e])*w*6)); for(int k=0;k<N;k++){ cl l=a[e]+(a[e+1]-a[e])*((ld)k/N); cl fv=f(l),gv=g(l); if(!(std::abs(fv-gv)<0.05L*std::abs(fv))||std::abs(fv)<0.05L) c.discard(); } }
        int ww=nb::winding(f,x0,x1,y0,y1,0.15/w,1e-6); if(ww<0) c.discard(); W+=ww; if(!ww) continue;
        // the reported solutions of this equation, grouped into clusters of close points; every cluster must be at least as large as the number of zeros it contains, and there must be no other zeros
        vector<cd> P; for(size_t k=0;k<n.K;k++){ cd l=n.S[k]; if(l.real()>x0&&l.real()<x1&&l.imag()>y0&&l.imag()<y1){ cl tv=full.tr(cl(l.real(),l.imag())); bool mine=true; for(size_t j=0;j<np;j++) if(j!=i&&std::abs(tv-(cl)(2*(n.o.floquet_range[0]+j*(n.o.floquet_range[1]-n.o.floquet_range[0])/(np-1))))<std::abs(tv-(cl)rhs)) mine=false; if(!mine) continue; P.push_back(l); in++; if(fabs(l.imag())*w>0.05) nonreal++; } }
        vector<int> id(P.size(),-1); size_t sum=0; for(size_t k=0;k<P.size();k++) if(id[k]<0){ vector<size_t> st={k}; id[k]=(int)k; size_t cnt=0; double bx[4]={1e300,-1e300,1e300,-1e300}; while(!st.empty()){ size_t j=st.back(); st.pop_back(); cnt++; bx[0]=std::min(bx[0],P[j].real()); bx[1]=std::max(bx[1],P[j].real()); bx[2]=std::min(bx[2],P[j].imag()); bx[3]=std::max(bx[3],P[j].imag()); for(size_t i2=0;i2<P.size();i2++) if(id[i2]<0&&std::abs(P[i2]-P[j])<link){ id[i2]=(int)k; st.push_back(i2); } }
            int m2=nb::winding(f,bx[0]-mg,bx[1]+mg,bx[2]-mg,bx[3]+mg,mg/3,1e-12); if(m2<0) c.discard(); if(m2==0) c.discard(); sum+=m2; if(ex&&cnt<(size_t)m2) c.fail("trace=%g: there are %d solutions near %.8g%+.8gi, but only %zu were reported",rhs,m2,P[k].real(),P[k].imag(),cnt); if(cnt>(size_t)m2) c.label("more often than its multiplicity"); }
        if(sum<(size_t)ww) c.fail("the rectangle [%g,%g]x[%g,%g] contains %d solutions of trace=%g (with multiplicity), the reported points cover only %zu of them (K=%zu)",x0,x1,y0,y1,ww,rhs,sum,n.K); if(sum>(size_t)ww) c.label("cluster boxes overlap"); }
    if(W>=3&&nonreal) c.nontrivial(); c.label(strf("solutions~%d",W<4?(int)W:W<16?8:16)); if(n.o.Dsub==D&&in>W) c.label("extra");
}
// refinement: isolated simple solutions are among the results
LAW("C07",nsep_refinement_finds_isolated_simple_solutions,500,40000,"at least two isolated solutions, one of them not real or not from +-1"){
    Nsep n; int disc=fastdisc(c,12); n.o.discretization=(D_t)disc; int dg=ref::degree(disc); n.kappa=c.chance(0.3)?-1:1; double w=c.logreal(0.5,5),m=c.chance(0.5)?c.sreal(3):0; n.T[0]=m-w/2; n.T[1]=m+w/2; int hi=6; while(hi>4&&(dg<<hi)>300) hi--; size_t D=p2(c,4,hi); double eps=w/D; auto t=trig(c,n.T[0],w,n.kappa<0?4.0:9.0); n.q=samp(t,n.T,D); if(t.amp()*eps>0.8) c.discard();
    n.o.Dsub=c.chance(0.5)?D:c.chance(0.5)?0:D/2; n.o.normalization_flag=!c.chance(0.3); n.as=false; size_t P=1+c.draw(2); n.o.points_per_spine=P; if(c.chance(0.4)){ n.o.floquet_range[0]=c.sreal(1); n.o.floquet_range[1]=n.o.floquet_range[0]+c.real(0.05,1.5); } n.cap=D*dg*P; n.o.max_evals=c.pick({50,200}); size_t Ds=n.o.Dsub?n.o.Dsub:std::min<size_t>(D,(size_t)std::pow(2.0,std::ceil(0.5*std::log2(D*std::log2(D)*std::log2(D))))); double es=w/Ds; double tol0=1.5e-8;
    n.o.filtering=fnft_nsep_filt_MANUAL; n.o.bounding_box[0]=-1.5/es; n.o.bounding_box[1]=1.5/es; n.o.bounding_box[2]=-9/w; n.o.bounding_box[3]=9/w; show(c,n); warned_conv=0; if(n.run()) c.fail("error %d for valid input",n.rc); vector<cd> qs; for(size_t i=0;i<D;i+=D/Ds) qs.push_back(n.q[i]); Mono full{nb::base_disc(disc),n.q,eps,n.kappa}, sub{disc,qs,es,n.kappa}; c.label(ref::name(disc)); int tgt=0; bool good=false;
    for(int a=0;a<6;a++){ double rhs=2*(n.o.floquet_range[0]+(P>1?(a%P)*(n.o.floquet_range[1]-n.o.floquet_range[0])/(P-1):0)); auto f=[&](cl l){ return full.tr(l)-(cl)rhs; }; auto g=[&](cl l){ return sub.tr(l)-(cl)rhs; }; cl l(c.sreal(0.4/es),n.kappa>0?c.sreal(std::min(1.2*t.amp(),6/w)):0.0); if(!nb::polish(f,l,3/w,1e-3L/w)) continue; cl d1=nb::deriv(f,l,1e-3L/w); cl d2=(nb::deriv(f,l+(cl)(1e-3L/w),1e-3L/w)-d1)/(cl)(1e-3L/w); if(std::abs(d1)<0.3L*w||std::abs(l.real())>1/es||std::abs(l.imag())>7/w) continue; ld r=std::min<ld>(0.3L/w,0.2L*std::abs(d1)/(std::abs(d2)+1e-9L)); bool ok=true; for(int k=0;k<24&&ok;k++){ cl z=l+(cl)std::polar<ld>(r,2*M_PIl*k/24); cl fv=f(z); if(!(std::abs(fv-g(z))<0.4L*std::abs(fv))||std::abs(fv)<0.5L*r*std::abs(d1)||std::abs(fv)>2L*r*std::abs(d1)) ok=false; } if(!ok) continue; tgt++; if(fabs((double)l.imag())*w>0.05||fabs(fabs(rhs)-2)>1e-6) good=true; double md=1e300; for(size_t k=0;k<n.K;k++) md=std::min(md,(double)std::abs(cl(n.S[k].real(),n.S[k].imag())-l)); double tl=20*tol0/(double)std::abs(d1)+20*w*tol0*tol0+1e-8*(1+(double)std::abs(l)); if(!(md<=tl)) c.fail("the isolated simple solution %.12Lg%+.12Lgi of trace=%g is missing, the closest reported point is at distance %.3g (allowed %.3g)",l.real(),l.imag(),rhs,md,tl); }
    if(tgt>=2&&good) c.nontrivial(); c.label(strf("targets %d",tgt));
}
// plane waves
LAW("C07",nsep_plane_wave_spectrum,600,40000,"focusing wave with modulational instability (a nonreal double point)"){
    Nsep n; int disc=fastdisc(c,24); n.o.discretization=(D_t)disc; int dg=ref::degree(disc); n.kappa=c.chance(0.35)?-1:1; double w=c.logreal(0.3,8),m=c.chance(0.5)?c.sreal(3):0; n.T[0]=m-w/2; n.T[1]=m+w/2; int hi=7; while(hi>4&&(dg<<hi)>400) hi--; size_t D=p2(c,4,hi); double eps=w/D; double AL=c.chance(0.1)?0:c.real(0.1,n.kappa<0?5.0:9.0); if(AL*eps/w>0.25) c.discard(); double fr=AL/M_PI-std::floor(AL/M_PI); if(AL>0&&(fr<0.06||fr>0.94)) c.discard(); double A=AL/w; int kk=c.chance(0.5)?(int)c.range(0,4)-2:0; double ph=c.real(0,6.28); n.q.resize(D); for(size_t i=0;i<D;i++) n.q[i]=std::polar(A,ph+2*M_PI*kk*(double)i/D);
    if(kk) { if((disc<20&&D<32)||(AL>0&&AL<0.6)) c.discard(); } double sh=-M_PI*kk/w; n.o.Dsub=c.chance(0.6)?D:0; n.as=false; n.o.normalization_flag=!c.chance(0.3); n.cap=D*dg*2; int loc=c.chance(0.25)&&n.kappa>0&&!kk?3:0; n.o.localization=(fnft_nsep_loc_t)loc; n.o.max_evals=c.pick({50,150}); show(c,n); warned_conv=0; if(n.run()) c.fail("error %d for valid input",n.rc);
    c.label(ref::name(disc)); size_t Ds=n.o.Dsub?D:(size_t)std::pow(2.0,std::ceil(0.5*std::log2(D*std::log2(D)*std::log2(D)))); Ds=std::min(Ds,D); double R=0.45/(w/Ds); if(loc==3) R=1; 
    // BO and CF4_2 are exact for constant signals; moving waves are only approximated
    double tolr=kk? 0.6*M_PI/w/8: 3e-4/w*(1+AL); double gsp=loc==3? 1.8*M_PI/(eps*32*D)*4:0; vector<char> used(n.K,0); size_t exp_in=0; double tim=std::log(10.0)*dg/(disc>=20?2:1)/(w/Ds)/(32.0*(D-1));
    for(int mm=0;mm*M_PI/w<2*R+A;mm++){ double s2=(mm*M_PI/w)*(mm*M_PI/w)-n.kappa*A*A; cd l0=std::sqrt(cd(s2,0)); for(int sg=0;sg<2;sg++){ cd l=sg?-l0:l0; if(mm==0&&AL==0&&sg) continue; if(std::abs(l.real()+sh)>R) continue; int mult=(mm==0&&AL>0)?1:2; if(loc==3&&fabs(l.imag())<1e-9) mult=0; if(loc==3&&fabs(l.imag())>1e-9&&fabs(l.imag())<2*tim){ for(size_t k=0;k<n.K;k++) if(std::abs(n.S[k]-l-sh)<std::max(tolr,gsp)) used[k]=1; continue; } if(n.kappa<0&&mm==0&&AL>0) mult=1; l+=sh; double tl=std::max(tolr,loc==3&&fabs(l.imag())<1e-9?gsp:0); if(AL==0) tl=std::max(3e-4/w,gsp); int cnt=0; for(size_t k=0;k<n.K;k++) if(std::abs(n.S[k]-l)<tl){ cnt++; used[k]=1; } exp_in++; if(mult==0) continue; if(cnt<1) c.fail("main spectrum point %.8g%+.8gi of the plane wave (m=%d, multiplicity %d) was found %d times within %.2g",l.real(),l.imag(),mm,mult,cnt,tl); if(mult==2&&l.imag()>1e-3) c.nontrivial(); } }
    for(size_t k=0;k<n.K;k++) if(!used[k]&&std::abs(n.S[k].real())<R*0.8&&std::abs(n.S[k].imag())<0.4*R+A) c.fail("reported point %.8g%+.8gi is not in the spectrum of the plane wave A=%g k=%d",n.S[k].real(),n.S[k].imag(),A,kk);
}
// Newton: started near simple solutions (for each spine value) it returns them in order
LAW("C07",nsep_newton_converges_to_the_solutions,500,40000,"at least two different spine values or solutions"){
    Nsep n; int disc=c.pick({1,22,1,22,23,24,25}); n.kappa=c.chance(0.3)?-1:1; double w=c.logreal(0.5,5),m=c.chance(0.5)?c.sreal(3):0; n.T[0]=m-w/2; n.T[1]=m+w/2; size_t D=p2(c,3,6); double eps=w/D; auto t=trig(c,n.T[0],w,n.kappa<0?4.0:8.0); n.q=samp(t,n.T,D); if(t.amp()*eps>0.8) c.discard(); Mono mo{disc,n.q,eps,n.kappa};
    size_t P=1+c.draw(3); double r0=c.chance(0.5)?-1:c.sreal(0.95),r1=P>1?(r0<0.9?r0+c.real(0.05,0.95-r0>0.06?0.95-r0:0.06):r0+0.1):r0; n.o.floquet_range[0]=r0; n.o.floquet_range[1]=P>1?r1:1.0; n.o.points_per_spine=P; size_t K=1+c.draw(2); vector<cl> tgt; vector<cd> gs; 
    for(size_t p=0;p<P;p++) for(size_t k=0;k<K;k++){ double rhs=2*(r0+(P>1?p*(r1-r0)/(P-1):0)); auto f=[&](cl l){ return mo.tr(l)-(cl)rhs; }; cl l(c.sreal(0.4/eps),n.kappa>0?c.sreal(1.2*t.amp()):0.0); if(!nb::polish(f,l,3/w,1e-3L/w)) c.discard(); cl d1=nb::deriv(f,l,1e-3L/w); cl d2=(nb::deriv(f,l+(cl)(1e-3L/w),1e-3L/w)-d1)/(cl)(1e-3L/w); if(std::abs(d1)<0.3L*w) c.discard(); ld basin=std::min<ld>(0.2L/w,0.15L*std::abs(d1)/(std::abs(d2)+1e-9L)); tgt.push_back(l); cl g=l+(cl)std::polar((double)basin*c.real(0,1),c.real(0,6.28)); gs.push_back(cd((double)g.real(),(double)g.imag())); }
    n.o.localization=fnft_nsep_loc_NEWTON; n.o.filtering=c.chance(0.7)?fnft_nsep_filt_NONE:fnft_nsep_filt_AUTO; n.o.discretization=(D_t)disc; n.o.normalization_flag=!c.chance(0.3); n.guess=gs; n.cap=gs.size(); n.as=false; show(c,n); 
    // the wrapper passes the number of guesses per spine point
    n.S.assign(gs.size()+2,SENT); std::copy(gs.begin(),gs.end(),n.S.begin()); FNFT_UINT Kp=K,Mp=0; int rc=fnft_nsep(D,F(n.q.data()),n.T,0,&Kp,F(n.S.data()),&Mp,NULL,NULL,n.kappa,&n.o); if(rc) c.fail("error %d for valid input",rc); c.label(ref::name(disc)); if(tgt.size()>1) c.nontrivial();
    if(Kp!=tgt.size()) c.fail("K=%zu, expected %zu (%zu guesses for each of %zu spine points)",(size_t)Kp,tgt.size(),K,P); if(n.S[tgt.size()]!=SENT) c.fail("wrote behind the results");
    for(size_t k=0;k<tgt.size();k++){ double e=(double)std::abs(cl(n.S[k].real(),n.S[k].imag())-tgt[k]); if(!(e<=1e-9*(1+(double)std::abs(tgt[k]))+1e-10/w)) c.fail("entry %zu: %.12g%+.12gi, the solution near the initial guess %.12g%+.12gi is %.12Lg%+.12Lgi (error %.3g)",k,n.S[k].real(),n.S[k].imag(),gs[k].real(),gs[k].imag(),tgt[k].real(),tgt[k].imag(),e); }
}
// grid search on the real axis
LAW("C07",nsep_grid_search_finds_the_real_solutions,400,30000,"at least three isolated real solutions"){
    Nsep n; int disc=fastdisc(c,8); n.o.discretization=(D_t)disc; int dg=ref::degree(disc); n.kappa=c.chance(0.5)?-1:1; double w=c.logreal(0.3,8),m=c.chance(0.5)?c.sreal(3):0; n.T[0]=m-w/2; n.T[1]=m+w/2; int hi=5; while(hi>2&&(dg<<hi)>70) hi--; size_t D=p2(c,disc>=20?2:1,hi); double eps=w/D; if(c.chance(0.5)){ auto t=trig(c,n.T[0],w,4.0); n.q=samp(t,n.T,D); } else n.q=gen::samples(c,D,std::min(0.6/eps,5.0/w)); for(auto&x:n.q) if(std::abs(x)*eps>0.7) c.discard(); n.o.localization=fnft_nsep_loc_GRIDSEARCH; n.o.filtering=c.pick({fnft_nsep_filt_AUTO,fnft_nsep_filt_MANUAL,fnft_nsep_filt_NONE}); n.o.normalization_flag=!c.chance(0.3); double up=disc>=20?2:1; double mz=2.0/dg, mc=up*mz, R=M_PI/(mc*eps); double lo=-R,hi2=R; if(n.o.filtering==fnft_nsep_filt_NONE){ lo*=up; hi2*=up; } if(n.o.filtering==fnft_nsep_filt_AUTO){ lo*=0.9; hi2*=0.9; } else if(n.o.filtering==fnft_nsep_filt_MANUAL){ lo=R*c.real(-0.95,0.3); hi2=lo+c.real(0.2,0.6)*R; n.o.bounding_box[0]=lo; n.o.bounding_box[1]=hi2; n.o.bounding_box[2]=-c.real(0.01,1)*R; n.o.bounding_box[3]=c.real(0.01,1)*R; }
    n.as=false; n.cap=D*dg*4; show(c,n); if(n.run()) c.fail("error %d for valid input",n.rc); c.label(ref::name(disc)); double pw=n.o.filtering==fnft_nsep_filt_NONE?2*M_PI:std::min(2*M_PI,mz*eps*(hi2-lo)); double h=pw/(32.0*dg*D-1)/(mz*eps); Mono mo{disc,n.q,eps,n.kappa}; size_t N=(size_t)std::ceil((hi2-lo)/h*0.7); double hs=(hi2-lo)/N; vector<double> v(N+1); for(size_t i=0;i<=N;i++) v[i]=(double)mo.tr(cl(lo+i*hs,0)).real();
    vector<vector<double>> rt(2); for(int s=0;s<2;s++) for(size_t i=0;i<N;i++){ double a=v[i]-(s?2:-2),b=v[i+1]-(s?2:-2); if(a*b<=0&&a!=b) rt[s].push_back(lo+(i+a/(a-b))*hs); }
    vector<char> used(n.K,0); int iso=0; for(int s=0;s<2;s++) for(size_t j=0;j<rt[s].size();j++){ double x=rt[s][j]; double sep=1e300; if(j) sep=x-rt[s][j-1]; if(j+1<rt[s].size()) sep=std::min(sep,rt[s][j+1]-x); if(sep<6*h||x<lo+4*h||x>hi2-4*h) continue; double d=((double)mo.tr(cl(x+h,0)).real()-(double)mo.tr(cl(x-h,0)).real())/(2*h); double cu=((double)mo.tr(cl(x+h,0)).real()-4.0*(s?1:-1)+(double)mo.tr(cl(x-h,0)).real())/(h*h); if(fabs(d)<3*fabs(cu)*h) continue; iso++; int cnt=0; double md=1e300; for(size_t k=0;k<n.K;k++){ double e=std::abs(n.S[k]-x); md=std::min(md,e); if(e<0.5*h&&std::abs(mo.tr(cl(n.S[k].real(),n.S[k].imag()))-(cl)(s?2:-2))<2) cnt++; } double fr=(x-lo)/h; fr-=std::floor(fr); if(cnt==2&&fabs(fr-0.5)<0.05) cnt=1; if(cnt!=1||!(md<0.25*h)) c.fail("real solution %.10g of trace=%d was reported %d times (closest report is %.3g grid spacings away)",x,s?2:-2,cnt,md/h); }
    if(iso>=3) c.nontrivial(); for(size_t k=0;k<n.K;k++){ cd l=n.S[k]; if(fabs(l.imag())>2.2*h) c.fail("nonreal point %.8g%+.8gi from a grid search on the real axis (spacing %.3g)",l.real(),l.imag(),h); if(l.real()<lo-1.01*h||l.real()>hi2+1.01*h) c.fail("point %.8g outside the searched interval [%g,%g]",l.real(),lo,hi2); cl L(l.real(),l.imag()); cl t=mo.tr(L); auto f=[&](cl z){ return mo.tr(z); }; ld d=std::abs(nb::deriv(f,L,(ld)h)); ld e=std::min(std::abs(t-(cl)2),std::abs(t+(cl)2)); ld cu=1e-9L; for(int q=0;q<4;q++){ cl z=L+(cl)std::polar(2*h,q*M_PI/2); cu=std::max(cu,std::abs(mo.tr(z)-t)); } if(!(e<=1.5L*cu+1e-9L)) c.fail("reported point %.10g%+.3gi: trace=%.10Lg, farther from +-2 than one grid spacing explains",l.real(),l.imag(),t.real()); (void)d; }
}
// MIXED is the nonreal part of subsample-and-refine followed by the grid search
LAW("C07",nsep_mixed_is_the_union_of_both_methods,400,30000,"nonreal and real points in the result"){
    Nsep n; int disc=fastdisc(c,12); n.o.discretization=(D_t)disc; int dg=ref::degree(disc); n.kappa=c.chance(0.3)?-1:1; double w=c.logreal(0.3,8); n.T[0]=c.sreal(3); n.T[1]=n.T[0]+w; int hi=6; while(hi>2&&(dg<<hi)>300) hi--; size_t D=p2(c,disc>=20?2:1,hi); double eps=w/D; if(c.chance(0.5)){ auto t=trig(c,n.T[0],w,7.0); n.q=samp(t,n.T,D); } else n.q=gen::samples(c,D,std::min(0.6/eps,7.0/w)); n.shift=c.chance(0.3)?c.sreal(6):0; n.o.Dsub=c.chance(0.5)?D:0; n.o.max_evals=c.pick({0,50}); n.o.filtering=c.chance(0.3)?fnft_nsep_filt_MANUAL:fnft_nsep_filt_AUTO; double ls=n.shift/(-2*w); double B=M_PI/eps; n.o.bounding_box[0]=-B*c.real(0.2,0.9)+ls; n.o.bounding_box[1]=B*c.real(0.2,0.9)+ls; n.o.bounding_box[2]=-c.real(0.5,2)*8/w; n.o.bounding_box[3]=c.real(0.5,2)*8/w; n.as=c.chance(0.6); n.cap=D*dg*3; n.acap=n.as?D*dg*2:0; 
    Nsep s=n,g=n; n.o.localization=fnft_nsep_loc_MIXED; s.o.localization=fnft_nsep_loc_SUBSAMPLE_AND_REFINE; g.o.localization=fnft_nsep_loc_GRIDSEARCH; show(c,n); if(s.run()||g.run()) c.fail("errors %d %d for valid input",s.rc,g.rc); if(n.run()) c.fail("error %d for valid input with MIXED",n.rc); c.label(ref::name(disc));
    size_t Ds=n.o.Dsub?D:(size_t)std::pow(2.0,std::ceil(0.5*std::log2(D*std::log2(D)*std::log2(D)))); Ds=std::min(std::max<size_t>(Ds,2),D); double mc=2.0/dg*(disc>=20?2:1); double H=n.o.filtering==fnft_nsep_filt_MANUAL? n.o.bounding_box[3]-n.o.bounding_box[2]: 2*std::log(10.0)/(mc*w/Ds); double tol=H/(32.0*(D-1));
    auto cmp=[&](const char*what,const vector<cd>&X,size_t K,const vector<cd>&S,size_t KS,const vector<cd>&G,size_t KG,bool none,bool exact){ if(K<KG) c.fail("%s: MIXED returned %zu points, the grid search alone %zu",what,K,KG); size_t K1=K-KG; for(size_t i=0;i<KG;i++) if(!(X[K1+i]==G[i])) c.fail("%s: entry %zu of MIXED differs from entry %zu of the grid search",what,K1+i,i); if(none&&K1) c.fail("%s: %zu nonreal main spectrum points in the defocusing case",what,K1); if(none) return; size_t j=0; for(size_t i=0;i<K1;i++){ if(!(fabs(X[i].imag())>=tol*(1-1e-9))) c.fail("%s: real point %g%+gi in the nonreal part",what,X[i].real(),X[i].imag()); while(j<KS&&!(S[j]==X[i])){ if(exact&&fabs(S[j].imag())>tol*(1+1e-9)) c.fail("%s: nonreal point %g%+gi is missing from MIXED",what,S[j].real(),S[j].imag()); j++; } if(j==KS) c.fail("%s: entry %zu=%g%+gi is not part of the subsample-and-refine result",what,i,X[i].real(),X[i].imag()); j++; } for(;j<KS;j++) if(exact&&fabs(S[j].imag())>tol*(1+1e-9)) c.fail("%s: nonreal point %g%+gi is missing from MIXED",what,S[j].real(),S[j].imag()); if(K1&&KG) c.nontrivial(); };
    bool ex=n.o.max_evals==0; cmp("main",n.S,n.K,s.S,s.K,g.S,g.K,n.kappa<0,ex); if(n.as) cmp("aux",n.A,n.M,s.A,s.M,g.A,g.M,false,true);
}
// against the continuous problem
LAW("C07",nsep_main_spectrum_converges_to_the_true_one,150,12000,"error visible and in the asymptotic regime"){
    Nsep n; int disc=fastdisc(c,8); n.o.discretization=(D_t)disc; n.kappa=c.chance(0.3)?-1:1; double w=c.logreal(0.5,4); n.T[0]=c.sreal(2); n.T[1]=n.T[0]+w; auto t=trig(c,n.T[0],w,n.kappa<0?3.0:7.0); auto f=[&](double x){return t(x);}; int p=ref::order(disc); n.as=false;
    // a simple solution of the true problem
    double rhs=c.chance(0.5)?2:-2; auto trt=[&](cl l)->cl{ vector<cd> lam={cd((double)l.real(),(double)l.imag()),cd((double)l.real(),-(double)l.imag())},A,B; ref::zs_true(f,n.T[0],n.T[1],400,n.kappa,lam,A,B); cd I(0,1); cd r=A[0]*std::exp(-I*lam[0]*w)+std::conj(A[1])*std::exp(I*lam[0]*w); return cl(r.real(),r.imag())-(cl)rhs; };
    cl l(c.sreal(6/w),n.kappa>0?c.real(-1,1)*t.amp():0.0); bool ok=false; for(int it=0;it<25;it++){ cl d=(trt(l+(cl)(1e-4L/w))-trt(l-(cl)(1e-4L/w)))/(cl)(2e-4L/w); if(std::abs(d)==0) break; cl st=trt(l)/d; l-=st; if(std::abs(st)>3/w) break; if(std::abs(st)<1e-10L/w){ ok=std::abs(d)>0.4L*w; break; } } if(!ok) c.discard(); double err[2]; size_t D0=disc>=20?16:32; double S=std::max({4*M_PI/w,t.amp(),fabs((double)l.real())}); while(w/D0*S>0.5) D0*=2; if(D0>128) c.discard();
    for(int i=0;i<2;i++){ size_t D=D0<<i; n.q=samp(t,n.T,D); n.o.Dsub=D0; n.cap=D*24; n.o.tol=1e-11; if(n.run()) c.fail("error %d for valid input",n.rc); double md=1e300; for(size_t k=0;k<n.K;k++) md=std::min(md,(double)std::abs(cl(n.S[k].real(),n.S[k].imag())-l)); err[i]=md*w; } n.q.resize(D0); show(c,n); c.info(" rhs=%g lambda=%.10Lg%+.10Lgi errors %.3g %.3g",rhs,l.real(),l.imag(),err[0],err[1]); c.label(ref::name(disc));
    if(!(err[0]<0.3)) c.fail("the solution %.10Lg%+.10Lgi of trace=%g of the continuous problem is missing (closest point at distance %.3g/T)",l.real(),l.imag(),rhs,err[0]); if(err[0]<1e-7) return; c.nontrivial(); if(!(err[1]<err[0]*std::pow(2.0,-(p-0.8))+1e-8)&&err[1]>1e-6) c.fail("error %.3g with D=%zu, %.3g with D=%zu: order %.2f instead of %d",err[0],D0,err[1],2*D0,std::log2(err[0]/err[1]),p);
}
