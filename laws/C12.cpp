// C12: KdV continuous spectrum is the scattering data of the given samples
#include "api.hpp"
using namespace pbt; using namespace api; using std::vector;
static QuietReg qr;
static bool up4(int disc){ int d=disc%28; return d>=fnft_nse_discretization_4SPLIT4A&&d<=fnft_nse_discretization_4SPLIT4B || std::string(ref::kdv_name(disc)).find("CF")==0; }
// a frequency grid that does not contain zero
static void xigrid(Case&c,Kdvv&n,double lo,double hi){
    for(;;){ if(c.chance(0.4)){ n.XI[0]=-c.logreal(lo,hi); n.XI[1]=c.logreal(lo,hi); } else { double s=c.chance(0.4)?-1:1; double x=c.logreal(lo,hi),y=c.logreal(lo,hi); n.XI[0]=s*x; n.XI[1]=s*y; } if(n.XI[0]>n.XI[1]) std::swap(n.XI[0],n.XI[1]); if(n.XI[1]-n.XI[0]<1e-3) n.XI[1]+=0.1;
        double mn=1e9; for(size_t i=0;i<n.M;i++) mn=std::min(mn,fabs(n.XI[0]+(n.XI[1]-n.XI[0])*(double)i/std::max<size_t>(1,n.M-1))); if(mn>=lo*0.5) return; c.discard(); }
}
static double xiat(const Kdvv&n,size_t i){ return n.XI[0]+(n.M>1? (n.XI[1]-n.XI[0])/(double)(n.M-1)*(double)i:0.0); }
// exact agreement with the documented discretization, evaluated sample by sample in long double
LAW("C12",kdv_contspec_is_discretized_scattering,12000,500000,"signal not identically zero"){
    Kdvv n; int disc=(int)c.draw(55); n.o.discretization=(fnft_kdv_discretization_t)disc; bool sm=up4(disc); int dg=ref::degree(disc%28); size_t D=gen::len(c,sm?2:2,dg>20?40:160); gen::window(c,n.T); double eps=(n.T[1]-n.T[0])/(D-1);
    double lim=(c.chance(0.2)?1.0:0.3)/(eps*eps), len=D*eps; double amp=std::min(lim,36/(len*len)*c.logreal(0.1,4)); std::string kind; n.q=gen::samples(c,D,amp,&kind); bool pos=c.chance(0.3); for(auto&x:n.q){ x=pos?fabs(x.real()):x.real(); if(disc%28==0&&fabs(x.real())*eps*eps>0.8) c.discard(); }
    n.cs=true; n.M=1+c.draw(9); if(n.M==1&&c.chance(0.6)) n.M=3; n.o.contspec_type=(fnft_kdvv_cstype_t)c.draw(2); n.o.normalization_flag=!c.chance(0.3); xigrid(c,n,0.02,20);
    c.info("disc=%s D=%zu T=[%.17g,%.17g] M=%zu XI=[%.17g,%.17g] cstype=%d norm=%d kind=%s q=%s",ref::kdv_name(disc),D,n.T[0],n.T[1],n.M,n.XI[0],n.XI[1],n.o.contspec_type,n.o.normalization_flag,kind.c_str(),gen::show(n.q).c_str());
    if(n.run()) c.fail("returned error code %d for valid arguments",n.rc);
    c.label(ref::kdv_name(disc)); bool nz=false; for(auto&x:n.q) nz|=x!=0.0; if(nz) c.nontrivial(); else c.label("zero");
    size_t M=n.M; vector<cl> a(M),b(M); ref::g_prefix=1; double scale=1,xmin=1e9; for(size_t i=0;i<M;i++){ double xi=xiat(n,i); xmin=std::min(xmin,fabs(xi)); auto r=ref::kdv_ab(disc,n.q,n.T,cl(xi,0)); a[i]=r.a; b[i]=r.b; scale=std::max<double>({scale,(double)std::abs(a[i]),(double)std::abs(b[i])}); }
    double cond=ref::kdv_cond(disc,n.q,eps); scale=std::max({scale,cond,ref::g_prefix})*(1+1/xmin)*(1+1/xmin); { double xm=std::max(fabs(n.XI[0]),fabs(n.XI[1])); scale*=1+xm; } if(!(scale<1e7)) c.discard();
    double phase=std::max(fabs(n.XI[0]),fabs(n.XI[1]))*(fabs(n.T[0])+fabs(n.T[1])+eps*D); double tol=(1e-9+1e-14*phase)*scale; double worst=1e-9;
    auto cmp=[&](const char*what,size_t i,cd x,cl y,double t){ double e=(double)std::abs(cl(x.real(),x.imag())-y); worst=std::max(worst,e/t); if(!(e<=t)) c.fail("%s at xi=%.9g: library %.15g%+.15gi, reference %.15Lg%+.15Lgi, error %.3g > %.3g",what,xiat(n,i),x.real(),x.imag(),y.real(),y.imag(),e,t); };
    size_t o=0; int cst=n.o.contspec_type; if(cst!=fnft_kdvv_cstype_AB){ for(size_t i=0;i<M;i++){ cl rho=b[i]/a[i]; double am=(double)std::abs(a[i]); if(am<1e-3*scale&&am<1e-2) continue; cmp("reflection coefficient",i,n.C[i],rho,tol/am*(1+(double)std::abs(rho))); } o=M; }
    if(cst!=fnft_kdvv_cstype_REFLECTION_COEFFICIENT){ for(size_t i=0;i<M;i++) cmp("a",i,n.C[o+i],a[i],tol); for(size_t i=0;i<M;i++) cmp("b",i,n.C[o+M+i],b[i],tol); }
    c.label(strf("slack%d",(int)floor(log10(worst))));
}
// convergence to the transform of the underlying smooth signal
LAW("C12",kdv_contspec_converges_at_documented_order,1500,60000,"smooth localized signal in the asymptotic regime"){
    Kdvv n; int disc=(int)c.draw(55); n.o.discretization=(fnft_kdv_discretization_t)disc; auto s=gen::smooth(c,4.0,3,true); n.T[0]=s.T0; n.T[1]=s.T1; double X=c.real(0.8,3); n.XI[0]=c.real(0.3,0.7); n.XI[1]=n.XI[0]+X; if(c.chance(0.3)){ double t=n.XI[0]; n.XI[0]=-n.XI[1]; n.XI[1]=-t; }
    n.M=10; n.cs=true; n.o.contspec_type=fnft_kdvv_cstype_AB; std::string nm=ref::kdv_name(disc); bool first=nm.find("2SPLIT1")==0; int p=first?1:ref::order(disc%28); double S=std::max({s.bw/2,std::sqrt(s.amp),X+0.7,1.0}); double e0=(p>=4?0.3:0.15)/S*c.real(0.7,1.3); size_t D=(size_t)((n.T[1]-n.T[0])/e0)+2; if(ref::degree(disc%28)>8&&D>300) c.discard(); if(D>1200) c.discard();
    vector<cd> lam(n.M),A,B; for(size_t i=0;i<n.M;i++) lam[i]=xiat(n,i); auto f=[&](double t){return s(t);}; ref::kdv_true([&](double t){return s(t).real();},n.T[0],n.T[1],(int)((n.T[1]-n.T[0])*S*14)+50,lam,A,B);
    c.info("disc=%s D=%zu T=[%g,%g] XI=[%g,%g] pulses=%zu",ref::kdv_name(disc),D,n.T[0],n.T[1],n.XI[0],n.XI[1],s.p.size()); for(auto&p:s.p) c.info(" {A=%g tau=%g w=%g kind=%d}",p.A,p.tau,p.w,p.kind);
    double err[3],uni[3]; double sc=1; for(auto&x:A) sc=std::max(sc,std::abs(x)); size_t M=n.M; auto level=[&](int k){ n.q=gen::sample(f,n.T,D<<k); if(n.run()) c.fail("error code %d",n.rc); err[k]=uni[k]=0; if(ref::degree(disc%28)>8&&ref::kdv_cond(disc,n.q,(n.T[1]-n.T[0])/(n.q.size()-1))>1e6) c.discard(); for(size_t i=0;i<M;i++){ err[k]=std::max({err[k],std::abs(n.C[i]-A[i])/sc,std::abs(n.C[M+i]-B[i])/sc}); uni[k]=std::max(uni[k],fabs(std::norm(n.C[i])-std::norm(n.C[M+i])-1)/sc/sc); } if(std::isnan(err[k])) c.fail("NaN in the continuous spectrum"); }; level(0); level(1);
    c.label(ref::kdv_name(disc)); c.label(err[0]<1e-3?"err<1e-3":err[0]<1e-2?"err<1e-2":err[0]<0.1?"err<0.1":"err>=0.1"); if(err[1]>1e-7&&err[0]<0.1) c.nontrivial();
    if(err[0]>(first?0.8:0.3)) c.fail("error %.3g at D=%zu (step small against amplitude and bandwidth): does not approximate the true transform",err[0],D);
    if(err[0]<0.1&&err[1]>std::max(1e-7,err[0]*pow(2.0,-(p-0.7)))){ level(2); double fl=1e-7+(ref::degree(disc%28)? 2e-15*ref::kdv_cond(disc,n.q,(n.T[1]-n.T[0])/(n.q.size()-1))*n.q.size(): 0); if(err[2]>std::max(fl,std::max(err[1]*pow(2.0,-(p-0.7)),err[0]*pow(2.0,-2*(p-0.7))))) c.fail("error %.4g with D samples, %.4g with 2D, %.4g with 4D: orders %.2f, %.2f, documented %d",err[0],err[1],err[2],log2(err[0]/err[1]),log2(err[1]/err[2]),p); c.label("cancellation"); }
    if(uni[1]>3*err[1]+1e-9) c.fail("| |a|^2-|b|^2-1 | is %.3g although the error is %.3g",uni[1],err[1]);
}
// conjugate symmetry holds exactly; |a|^2-|b|^2=1 exactly for the schemes whose steps are determinant-one and real; translation multiplies b by a phase
LAW("C12",kdv_contspec_symmetries,6000,250000,"signal not identically zero"){
    Kdvv n; int disc=(int)c.draw(55); n.o.discretization=(fnft_kdv_discretization_t)disc; size_t D=gen::len(c,3,ref::degree(disc%28)>20?40:200); gen::window(c,n.T); double eps=(n.T[1]-n.T[0])/(D-1),len=D*eps; double amp=std::min(0.3/(eps*eps),36/(len*len)*c.logreal(0.1,3)); std::string kind; n.q=gen::samples(c,D,amp,&kind); for(auto&x:n.q) x=x.real(); if(ref::kdv_cond(disc,n.q,eps)>1e4) c.discard();
    bool up=up4(disc); n.cs=true; n.M=2+c.draw(9); n.o.contspec_type=fnft_kdvv_cstype_BOTH; xigrid(c,n,0.05,10); c.info("disc=%s D=%zu T=[%.17g,%.17g] M=%zu XI=[%.17g,%.17g] kind=%s q=%s",ref::kdv_name(disc),D,n.T[0],n.T[1],n.M,n.XI[0],n.XI[1],kind.c_str(),gen::show(n.q).c_str()); bool nz=false; for(auto&x:n.q) nz|=x!=0.0; if(nz) c.nontrivial(); c.label(ref::kdv_name(disc)); size_t M=n.M; if(n.run()) c.fail("error code %d",n.rc);
    double xmin=1e9,scale=1; for(size_t i=0;i<M;i++){ xmin=std::min(xmin,fabs(xiat(n,i))); scale=std::max({scale,std::abs(n.C[M+i]),std::abs(n.C[2*M+i])}); } double xm=std::max(fabs(n.XI[0]),fabs(n.XI[1])); scale*=(1+1/xmin)*(1+1/xmin)*(1+xm); if(!(scale<1e6)) c.discard(); double tol=(1e-9+1e-14*xm*(fabs(n.T[0])+fabs(n.T[1])+len))*scale*20;
    auto rho=[&](const vector<cd>&C,size_t i){ return C[i]; };
    // rho = b/a in the combined output
    for(size_t i=0;i<M;i++) if(std::abs(n.C[M+i])>1e-2){ double e=std::abs(rho(n.C,i)*n.C[M+i]-n.C[2*M+i]); if(!(e<=1e-11*(std::abs(n.C[2*M+i])+1e-300)+1e-300)) c.fail("reflection coefficient is not b/a at index %zu",i); }
    // a(-xi)=conj a(xi)
    Kdvv m=n; m.XI[0]=-n.XI[1]; m.XI[1]=-n.XI[0]; if(m.run()) c.fail("error code %d on the mirrored grid",m.rc); bool sym=(!up||D%2==1)&&std::string(ref::kdv_name(disc)).find("CF5_3")!=0&&std::string(ref::kdv_name(disc)).find("CF6_4")!=0; if(sym) for(size_t i=0;i<M;i++) for(int k=1;k<3;k++){ cd x=n.C[k*M+i],y=std::conj(m.C[k*M+M-1-i]); if(!(std::abs(x-y)<=tol)) c.fail("%s(xi)=%.12g%+.12gi but conj %s(-xi)=%.12g%+.12gi at xi=%g",k==1?"a":"b",x.real(),x.imag(),k==1?"a":"b",y.real(),y.imag(),xiat(n,i)); }
    // unitarity
    std::string nm=ref::kdv_name(disc); bool exact=nm.find("BO")==0||((nm.find("CF4_2")==0||nm.find("CF4_3")==0)&&D%2==1)||nm.find("ES4")==0||nm.find("TES4")==0; if(exact) for(size_t i=0;i<M;i++){ double aa=std::norm(n.C[M+i]),bb=std::norm(n.C[2*M+i]); if(!(fabs(aa-bb-1)<=tol*(1+sqrt(aa)))) c.fail("|a|^2-|b|^2-1=%.3g at xi=%g",aa-bb-1,xiat(n,i)); }
    // translation in time
    double sh=c.sreal(5); Kdvv t=n; t.T[0]+=sh; t.T[1]+=sh; if(t.run()) c.fail("error code %d for the translated window",t.rc); for(size_t i=0;i<M;i++){ double xi=xiat(n,i); cd w=n.C[2*M+i]*std::polar(1.0,-2*xi*sh); if(!(std::abs(t.C[M+i]-n.C[M+i])<=tol)||!(std::abs(t.C[2*M+i]-w)<=tol)) c.fail("translation by %g changes a by %.3g and b by more than the phase (%.3g)",sh,std::abs(t.C[M+i]-n.C[M+i]),std::abs(t.C[2*M+i]-w)); }
}
