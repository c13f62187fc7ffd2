// C01: NSE continuous spectrum is the scattering data of the given samples
#include "gen.hpp"
using namespace pbt; using std::vector;
static int quiet(const char*,...){ return 0; }
static void init(){ fnft_errwarn_setprintf(quiet); }
static int dummy=(worker_init=init,0);

static int eval_ab(int disc,const vector<cd>&q,const double T[2],size_t M,const double XI[2],int kappa,int cstype,int norm,vector<cd>&out){
    fnft_nsev_opts_t o=fnft_nsev_default_opts(); o.discretization=(fnft_nse_discretization_t)disc; o.contspec_type=(fnft_nsev_cstype_t)cstype; o.normalization_flag=norm; 
    size_t mult= cstype==fnft_nsev_cstype_REFLECTION_COEFFICIENT?1: cstype==fnft_nsev_cstype_AB?2:3; out.assign(mult*M,cd(NAN,NAN));
    return fnft_nsev(q.size(),F(q.data()),T,M,F(out.data()),XI,NULL,NULL,NULL,kappa,&o);
}
// exact agreement with the documented discretization, evaluated sample by sample in long double
LAW("C01",nse_contspec_is_discretized_scattering,12000,600000,"signal not identically zero and at least 2 frequencies"){
    int disc=(int)c.draw(27); int kappa=c.chance(0.5)?-1:1; bool slow=ref::is_slow(disc); bool smooth_only= disc>=fnft_nse_discretization_4SPLIT4A;
    size_t maxD= ref::degree(disc)>20?40: 160; size_t D=gen::len(c,2,maxD); double T[2]; gen::window(c,T); double eps=(T[1]-T[0])/(D-1);
    double lim=c.chance(0.2)&&ref::degree(disc)<6?1.2:0.35; if(disc==0&&kappa<0) lim=std::min(lim,0.8); double amp=std::min(lim/eps, (kappa<0?6.0:30.0)/(D*eps)); std::string kind; vector<cd> q=gen::samples(c,D,amp,&kind);
    size_t M=2+c.draw(10); double span=c.logreal(0.1,30), ctr=c.sreal(10); double XI[2]={ctr-span/2,ctr+span/2}; int cst=(int)c.draw(2), norm=!c.chance(0.3);
    c.info("disc=%s kappa=%d D=%zu T=[%.17g,%.17g] M=%zu XI=[%.17g,%.17g] cstype=%d norm=%d kind=%s q=%s",ref::name(disc),kappa,D,T[0],T[1],M,XI[0],XI[1],cst,norm,kind.c_str(),gen::show(q).c_str());
    vector<cd> out; int rc=eval_ab(disc,q,T,M,XI,kappa,cst,norm,out); if(rc) c.fail("returned error code %d for valid arguments",rc);
    c.label(ref::name(disc)); c.label(kind=="zero"?"zero":"nonzero"); if(kind!="zero") c.nontrivial();
    ref::g_prefix=1; double scale=0; vector<cl> a(M),b(M); ld xi0=XI[0]; for(size_t i=0;i<M;i++){ ld xi=XI[0]+(XI[1]-XI[0])/(M-1)*(double)i; auto r=ref::nse_ab((fnft_nse_discretization_t)disc,q,T,kappa,cl(xi,0)); a[i]=r.a; b[i]=r.b; scale=std::max<double>({scale,(double)std::abs(r.a),(double)std::abs(r.b),1.0}); }
    double phase=std::max(fabs(XI[0]),fabs(XI[1]))*(fabs(T[0])+fabs(T[1])+eps*D); double cond=ref::cond((fnft_nse_discretization_t)disc,q,eps,kappa); if(cond>1e7) c.discard(); scale=std::max({scale,cond,ref::g_prefix}); if(scale>1e8) c.discard(); double tol=(5e-9+1e-14*phase)*scale; (void)xi0;
    double worst=1e-9; auto cmp=[&](const char*what,size_t i,cd x,cl y,double t){ double e=(double)std::abs(cl(x.real(),x.imag())-y); worst=std::max(worst,e/t); if(!(e<=t)) c.fail("%s at xi index %zu: library %.15g%+.15gi, reference %.15Lg%+.15Lgi, error %.3g > %.3g",what,i,x.real(),x.imag(),y.real(),y.imag(),e,t); };
    size_t o=0; if(cst!=1){ for(size_t i=0;i<M;i++){ cl rho=b[i]/a[i]; double am=(double)std::abs(a[i]); if(am<1e-3*scale) continue; cmp("reflection coefficient",i,out[i],rho,tol/am*(1+(double)std::abs(rho))); } o=M; }
    if(cst!=0){ for(size_t i=0;i<M;i++) cmp("a",i,out[o+i],a[i],tol); for(size_t i=0;i<M;i++) cmp("b",i,out[o+M+i],b[i],tol); }
 c.label(strf("cond%d",(int)log10(cond))); c.label(strf("%s:%d",ref::name(disc),(int)floor(log10(worst))));}
// convergence to the transform of the underlying smooth signal at the documented order
LAW("C01",nse_contspec_converges_at_documented_order,2500,100000,"smooth localized signal in the asymptotic regime (error between the two floors)"){
    int disc=(int)c.draw(27); int kappa=c.chance(0.5)?-1:1; auto s=gen::smooth(c,kappa<0?2.0:4.0); double T[2]={s.T0,s.T1}; double X=c.real(0.5,3); double XI[2]={-X+c.sreal(0.5),X}; const size_t M=12;
    double S=std::max({s.bw/2,s.amp,X,1.0}); double e0=(ref::order(disc)>=4?0.35:0.2)/S*(c.real(0.7,1.3)); size_t D=(size_t)((T[1]-T[0])/e0)+2; if(ref::degree(disc)>20&&D>300) c.discard(); if(D>1500) c.discard(); 
    if(c.chance(0.3)){ size_t p=2; while(p<D) p*=2; D=p; }
    vector<cd> lam(M),A,B; for(size_t i=0;i<M;i++) lam[i]=XI[0]+(XI[1]-XI[0])*i/(M-1); auto f=[&](double t){return s(t);};
    ref::zs_true(f,T[0],T[1],(int)((T[1]-T[0])*S*14)+50,kappa,lam,A,B);
    c.info("disc=%s kappa=%d D=%zu T=[%g,%g] XI=[%g,%g] pulses=%zu",ref::name(disc),kappa,D,T[0],T[1],XI[0],XI[1],s.p.size()); for(auto&p:s.p) c.info(" {A=%g tau=%g w=%g om=%g kind=%d}",p.A,p.tau,p.w,p.om,p.kind);
    double err[2]; double sc=1; for(auto&x:A) sc=std::max(sc,std::abs(x)); for(int k=0;k<2;k++){ size_t Dk=k?2*D:D; vector<cd> q=gen::sample(f,T,Dk),out; int rc=eval_ab(disc,q,T,M,XI,kappa,fnft_nsev_cstype_AB,1,out); if(rc) c.fail("error code %d",rc); err[k]=0; for(size_t i=0;i<M;i++) err[k]=std::max({err[k],std::abs(out[i]-A[i])/sc,std::abs(out[M+i]-B[i])/sc}); if(std::isnan(err[k])) c.fail("NaN in the continuous spectrum"); }
    int p=disc==fnft_nse_discretization_2SPLIT1A||disc==fnft_nse_discretization_2SPLIT1B?1:ref::order(disc); c.label(ref::name(disc)); c.label(err[0]<1e-3?"err<1e-3":err[0]<1e-2?"err<1e-2":err[0]<0.1?"err<0.1":"err>=0.1"); if(err[1]>1e-9&&err[0]<0.1) c.nontrivial();
    if(err[0]>0.3) c.fail("error %.3g at D=%zu (step small against amplitude and bandwidth): does not approximate the true transform",err[0],D);
    if(err[0]<0.1&&err[1]>std::max(2e-9,err[0]*pow(2.0,-(p-0.7)))) c.fail("error %.4g with D samples, %.4g with 2D: order %.2f, documented %d",err[0],err[1],log2(err[0]/err[1]),p);
}
