// C10: inverse NSE transform of a continuous spectrum
#include "nse_bs.hpp"
using namespace pbt; using namespace api; using std::vector;
static QuietReg qr;
static const char*MN[]={"b(xi)","b(tau)","reflection coefficient","reflection coefficient/iter"};
static void disc2(Case&c,Inv&v){ v.o.discretization=c.chance(0.5)?fnft_nse_discretization_2SPLIT2_MODAL:fnft_nse_discretization_2SPLIT2A; c.label(ref::name(v.o.discretization)); }
static size_t evenM(Case&c,size_t lo,size_t hi){ size_t k=c.draw(3); size_t M= k==0?lo: k==1?2*lo: lo+c.draw(hi-lo); M+=M%2; return std::max(M,lo); }
// the helper returns a grid whose points are mapped to the M-th roots of unity, in ascending order
LAW("C10",nse_inverse_grid_is_the_fft_grid,6000,400000,"M >= 4"){
    Inv v; disc2(c,v); v.D=2+c.draw(300); gen::window(c,v.T); size_t M=2+2*c.draw(c.chance(0.5)?10:300); double eps=(v.T[1]-v.T[0])/(v.D-1); c.info("D=%zu M=%zu T=[%.17g,%.17g] %s",v.D,M,v.T[0],v.T[1],ref::name(v.o.discretization)); if(v.grid(M)) c.fail("error for valid arguments"); if(M>2) c.nontrivial();
    double X1=M_PI/(2*eps); if(fabs(v.XI[1]-X1)>1e-12*X1) c.fail("last grid point %.15g, expected %.15g",v.XI[1],X1); if(!(v.XI[0]<v.XI[1])) c.fail("grid is not ascending"); double h=(v.XI[1]-v.XI[0])/(M-1); if(fabs(h-M_PI/(eps*M))>1e-11*X1) c.fail("grid spacing %.15g, expected %.15g",h,M_PI/(eps*M));
}
// spectrum of given samples -> the same samples
LAW("C10",nse_inverse_recovers_samples_from_their_spectrum,25000,1500000,"error measured against a non-zero signal"){
    Inv v; disc2(c,v); v.D=(size_t)1<<c.range(1,8); size_t D=v.D; gen::window(c,v.T); double eps=(v.T[1]-v.T[0])/(D-1); v.kappa=c.chance(0.5)?-1:1; int meth=(int)c.pick({0,2,3}); if(meth==3&&v.kappa>0) meth=2; double L= meth==3?0.6: v.kappa>0?0.9:1.2; L*=c.real(0.05,1); double amp=L/(eps*D); if(D<=4) amp=std::min(amp,0.35/eps); std::string kind; Nsev n; n.q=gen::samples(c,D,amp,&kind); n.T[0]=v.T[0]; n.T[1]=v.T[1]; n.kappa=v.kappa; n.o.discretization=v.o.discretization; n.o.normalization_flag=!c.chance(0.3);
    size_t M= meth==0? evenM(c,D,4*D): meth==2? 8*D+2*c.draw(8*D): D; if(meth==2&&D<16) M=std::max<size_t>(M,256); n.M=M; v.grid(M); n.XI[0]=v.XI[0]; n.XI[1]=v.XI[1]; n.cs=true; n.o.contspec_type=meth==0?fnft_nsev_cstype_AB:fnft_nsev_cstype_REFLECTION_COEFFICIENT; size_t os=c.pick({8,16,32,64}); while(os*D<128) os*=2; v.o.oversampling_factor=os;
    c.info("D=%zu M=%zu kappa=%d disc=%s method=%s oversampling=%zu T=[%.17g,%.17g] L1=%g kind=%s q=%s",D,M,v.kappa,ref::name(v.o.discretization),MN[meth],os,v.T[0],v.T[1],L,kind.c_str(),gen::show(n.q).c_str()); if(n.run()) c.fail("forward transform: error %d",n.rc); size_t o=meth==0?M:0; v.C.assign(n.C.begin()+o,n.C.begin()+o+M);
    v.o.contspec_type=meth==0?fnft_nsev_inverse_cstype_B_OF_XI:fnft_nsev_inverse_cstype_REFLECTION_COEFFICIENT; v.o.contspec_inversion_method=meth==3?fnft_nsev_inverse_csmethod_TFMATRIX_CONTAINS_AB_FROM_ITER: meth==2&&c.chance(0.5)?fnft_nsev_inverse_csmethod_TFMATRIX_CONTAINS_REFL_COEFF:fnft_nsev_inverse_csmethod_DEFAULT; if(v.run()) c.fail("inverse transform: error %d",v.rc); c.label(strf("method%d",meth)); c.label(kind); if(kind!="zero") c.nontrivial();
    double e=0,m=0; for(size_t i=0;i<D;i++){ double d=std::abs(v.q[i]-n.q[i])*eps; if(!(d<=1e9)) d=1e9; e=std::max(e,d); m=std::max(m,std::abs(n.q[i])*eps); } for(size_t i=D;i<D+2;i++) if(v.q[i]!=SENT) c.fail("wrote beyond the signal");
    double tol= (os*D<256?2e-9:1e-10)+ (meth==3?5e-6:0); if(!(e<=tol)) c.fail("recovered samples differ by %.3g (in units of 1/eps; largest sample %.3g)",e,m); c.label(strf("err%d",e>0?(int)floor(log10(e)):-99));
}
// analytic spectra: sums of modulated Gaussians, for which b(xi) and b(tau) are known
struct Gs { double A,tau,w,om; };
struct Spec { vector<Gs> g; cd xi(double x)const{ cd s=0; for(auto&p:g) s+=p.A*p.w*std::sqrt(M_PI)*std::exp(-(x-p.om)*(x-p.om)*p.w*p.w/4)*std::polar(1.0,-(x-p.om)*p.tau); return s; } cd ta(double t)const{ cd s=0; for(auto&p:g) s+=p.A*std::exp(-(t-p.tau)*(t-p.tau)/p.w/p.w)*std::polar(1.0,p.om*t); return s; } };
LAW("C10",nse_inverse_spectrum_converges_at_second_order,6000,400000,"error at the coarse grid between 1e-4 and 10 percent"){
    int kappa=c.chance(0.5)?-1:1; int meth=(int)c.draw(kappa>0?2:3); Inv v; disc2(c,v); v.kappa=kappa; double shift=meth==1?c.sreal(1):c.chance(0.5)?c.sreal(15):0; int n=(int)c.range(1,3); double cap= meth>=2? (kappa>0?1.2:0.75): kappa>0?0.75:1.3; Spec s; double lo=1e9,hi=-1e9,wmin=9,om=0; for(int i=0;i<n;i++){ Gs g; g.w=c.real(1.2,3); g.tau=2*shift+c.sreal(2); g.om=c.sreal(1.2); double ph=c.real(0,6.283); g.A=c.real(0.2,1)*cap/n/g.w/std::sqrt(M_PI); (void)ph; s.g.push_back(g); lo=std::min(lo,g.tau/2-3.1*g.w); hi=std::max(hi,g.tau/2+3.1*g.w); wmin=std::min(wmin,g.w); om=std::max(om,fabs(g.om)); }
    if(meth==1){ double w=std::max(-lo,hi)+3; v.T[0]=-w; v.T[1]=w; } else { v.T[0]=lo-c.real(3,5); v.T[1]=hi+c.real(3,5); } double need=(om+12/wmin); size_t D=32; while(M_PI/2*(D-1)/(v.T[1]-v.T[0])<need) D*=2; size_t mf=c.draw(3); int osf=(int)c.pick({8,16,32}); v.o.oversampling_factor=osf;
    c.info("kappa=%d disc=%s input=%s D=%zu T=[%.17g,%.17g] M/D~%zu oversampling=%d",kappa,ref::name(v.o.discretization),MN[meth],D,v.T[0],v.T[1],mf+1,osf); for(auto&g:s.g) c.info(" {A=%g tau=%g w=%g om=%g}",g.A,g.tau,g.w,g.om); c.label(strf("method%d kappa%d",meth,kappa)); double e[2]; double off=c.real(0,0.2);
    for(int k=0;k<2;k++){ v.D=D<<k; double eps=(v.T[1]-v.T[0])/(v.D-1); size_t M= meth==1||meth==3? v.D: v.D*(1+mf); v.grid(M); v.C.resize(M); for(size_t i=0;i<M;i++) v.C[i]= meth==1? s.ta(2*(v.T[0]+i*eps)): s.xi(v.XI[0]+i*(v.XI[1]-v.XI[0])/(M-1)); v.noXI=meth==1; v.o.contspec_type=meth==0?fnft_nsev_inverse_cstype_B_OF_XI:meth==1?fnft_nsev_inverse_cstype_B_OF_TAU:fnft_nsev_inverse_cstype_REFLECTION_COEFFICIENT; v.o.contspec_inversion_method=meth==3?fnft_nsev_inverse_csmethod_TFMATRIX_CONTAINS_AB_FROM_ITER:fnft_nsev_inverse_csmethod_DEFAULT; if(v.run()) c.fail("error %d for valid input",v.rc); vector<cd> q(v.q.begin(),v.q.begin()+v.D);
        e[k]=0; for(int j=0;j<9;j++){ double xi=-2.4+0.6*j+off; auto x=ref::nse_ab(fnft_nse_discretization_BO,q,v.T,kappa,cl(xi,0)); cl y=meth<2?x.b:x.b/x.a; cd z=s.xi(xi); double d=(double)std::abs(y-cl(z.real(),z.imag())); e[k]=std::max(e[k],std::isfinite(d)?d:1e9); } }
    if(e[0]>1e-4&&e[0]<0.1) c.nontrivial(); if(!(e[0]<0.4)) c.fail("spectrum of the result is off by %.3g",e[0]); if(!(e[1]<=std::max(2e-6,0.36*e[0]))) c.fail("error of the spectrum %.4g with D=%zu, %.4g with D=%zu: does not converge at second order",e[0],D,e[1],2*D);
}
