// C04: filters and array capacity of the discrete NSE spectrum
#include "nse_bs.hpp"
using namespace pbt; using namespace api; using namespace nb; using std::vector;
static QuietReg qr;
static const double PI=M_PI;
static void gen_sig(Case&c,Nsev&n,int&disc,double&eps,bool smooth,int maxdeg){
    do disc=(int)c.draw(21); while(ref::is_slow(disc)||ref::degree(disc)>24); n.o.discretization=(D_t)disc; int dg=ref::degree(disc); n.bs=true; n.o.normalization_flag=!c.chance(0.3);
    if(smooth){ auto s=gen::smooth(c,11.0,3,false,0.4,0.4); n.T[0]=s.T0; n.T[1]=s.T1; double S=std::max({s.bw/2,s.amp,1.0}); size_t D=(size_t)((s.T1-s.T0)/(c.real(0.07,0.2)/S))+3; if(D*dg>(size_t)maxdeg) c.discard(); n.q=gen::sample([&](double t){return s(t);},n.T,D); eps=(s.T1-s.T0)/(D-1); }
    else { size_t D=gen::len(c,disc>=fnft_nse_discretization_4SPLIT4A?2:2,std::max(4,std::min(100,maxdeg/dg))); gen::window(c,n.T); eps=(n.T[1]-n.T[0])/(D-1); n.q=gen::samples(c,D,std::min(0.8/eps,25.0/(D*eps))); }
    c.label(ref::name(disc)); c.info("disc=%s D=%zu T=[%.17g,%.17g] q=%s",ref::name(disc),n.q.size(),n.T[0],n.T[1],gen::show(n.q).c_str());
}
static bool inbox(cd l,const double*b){ return l.real()>=b[0]&&l.real()<=b[1]&&l.imag()>=b[2]&&l.imag()<=b[3]; }
static void tail(Case&c,const vector<cd>&v,size_t from,const char*what){ for(size_t i=from;i<v.size();i++) if(v[i]!=SENT) c.fail("%s: entry %zu beyond the documented part was written",what,i); }
static const double MT=1.4901161193847656e-08;
static void compare(Case&c,const vector<cd>&all,size_t Kall,const Nsev&f,const double*must,const double*may){
    for(size_t k=0;k<f.K;k++){ cd l=f.B[k]; if(!inbox(l,may)) c.fail("bound state %.12g%+.12gi is outside the filter box [%g,%g]x[%g,%g]",l.real(),l.imag(),may[0],may[1],may[2],may[3]); bool ok=false; for(size_t j=0;j<Kall;j++) ok|=all[j]==l; if(!ok) c.fail("bound state %.12g%+.12gi does not occur in the unfiltered result",l.real(),l.imag()); for(size_t j=0;j<k;j++) if(std::abs(f.B[j]-l)<MT*0.9) c.fail("bound state %.12g%+.12gi reported twice",l.real(),l.imag()); }
    for(size_t j=0;j<Kall;j++){ cd l=all[j]; if(!inbox(l,must)) continue; double d=1e99; for(size_t k=0;k<f.K;k++) d=std::min(d,std::abs(f.B[k]-l)); if(!(d<3*MT)) c.fail("bound state %.12g%+.12gi is inside the box but was dropped (K=%zu)",l.real(),l.imag(),f.K); }
}
LAW("C04",nse_filters_keep_exactly_the_box,2500,150000,"the filter keeps some and drops some of the roots"){
    Nsev n; int disc; double eps; gen_sig(c,n,disc,eps,c.chance(0.3),700); int dg=ref::degree(disc); n.o.bound_state_localization=fnft_nsev_bsloc_FAST_EIGENVALUE; n.o.bound_state_filtering=fnft_nsev_bsfilt_NONE; n.maxcap(); if(n.run()) c.fail("error %d without filter",n.rc); if(n.K!=n.cap) c.fail("unfiltered call reported %zu of %zu roots",n.K,n.cap); auto all=n.B; size_t Ka=n.K; tail(c,n.B,n.cap,"bound states");
    double E=l2(n.q,eps); int lib=disc>=fnft_nse_discretization_4SPLIT4A?dg/2:dg; double R=PI*lib/2/eps; double must[4],may[4]; int filt=(int)c.draw(2); Nsev f=n;
    if(filt==0){ f.o.bound_state_filtering=fnft_nsev_bsfilt_MANUAL; double b[4]={-R*c.real(0,1.1),R*c.real(0,1.1),c.sreal(3/eps),0}; if(c.chance(0.3)&&Ka){ cd p=all[c.draw(Ka-1)]; if(std::isfinite(std::abs(p))){ b[0]=p.real(); b[2]=p.imag(); b[1]=p.real()+R*c.real(0,1); } } b[3]=b[2]+c.real(0,4/eps); if(b[1]<b[0]) std::swap(b[0],b[1]); for(int i=0;i<4;i++) f.o.bounding_box[i]=must[i]=may[i]=b[i]; c.info(" manual box [%g,%g]x[%g,%g]",b[0],b[1],b[2],b[3]); }
    else if(filt==1){ f.o.bound_state_filtering=fnft_nsev_bsfilt_BASIC; must[0]=may[0]=-INFINITY; must[1]=may[1]=INFINITY; must[2]=may[2]=0; must[3]=may[3]=INFINITY; c.info(" basic"); }
    else { f.o.bound_state_filtering=fnft_nsev_bsfilt_FULL; must[0]=-0.85*R; must[1]=0.85*R; must[2]=0; must[3]=0.25*E*1.4; may[0]=-0.95*R; may[1]=0.95*R; may[2]=0; may[3]=0.25*E*(disc>=fnft_nse_discretization_4SPLIT4A?2.2:1.6); c.info(" full"); }
    if(f.run()) c.fail("error %d with filter",f.rc); if(f.K>0&&f.K<Ka) c.nontrivial(); c.label(strf("filter%d",filt)); compare(c,all,Ka,f,must,may); tail(c,f.B,f.cap,"bound states"); if(filt==0) for(int i=0;i<4;i++) if(f.o.bounding_box[i]!=must[i]) c.fail("the user's bounding box was changed");
}
LAW("C04",nse_newton_respects_filters,500,40000,"at least two converged roots"){
    Nsev n; int disc; double eps; gen_sig(c,n,disc,eps,true,600); n.o.bound_state_localization=fnft_nsev_bsloc_SUBSAMPLE_AND_REFINE; n.o.bound_state_filtering=fnft_nsev_bsfilt_BASIC; n.maxcap(); if(n.run()) c.fail("error %d",n.rc); vector<cd> g; for(size_t k=0;k<n.K;k++) if(n.B[k].imag()>0.05&&fabs(n.B[k].real())<0.3*PI/eps) g.push_back(n.B[k]); if(g.size()<1) c.discard(); if(g.size()>=2) c.nontrivial();
    int d2=c.chance(0.5)?disc:c.pick({(int)fnft_nse_discretization_BO,(int)fnft_nse_discretization_CF4_2,(int)fnft_nse_discretization_ES4,(int)fnft_nse_discretization_TES4,(int)fnft_nse_discretization_CF5_3}); Nsev a=n; a.o.discretization=(D_t)d2; a.o.bound_state_localization=fnft_nsev_bsloc_NEWTON; a.o.bound_state_filtering=fnft_nsev_bsfilt_NONE; a.guess=g; a.cap=g.size(); if(a.run()) c.fail("Newton without filter: error %d",a.rc); if(a.K!=g.size()) c.fail("Newton without filter returned %zu of %zu values",a.K,g.size());
    Nsev f=a; f.guess.assign(a.B.begin(),a.B.begin()+a.K); int filt=(int)c.draw(2); double m=1e-6; double must[4],may[4]; double E=l2(n.q,eps); if(filt==0){ f.o.bound_state_filtering=fnft_nsev_bsfilt_MANUAL; cd p=f.guess[c.draw(f.guess.size()-1)]; double w=c.real(0.01,3); double b[4]={p.real()-w*c.real(0.1,1),p.real()+w*c.real(0.1,1),p.imag()-w*c.real(0.1,1),p.imag()+w*c.real(0.1,1)}; if(c.chance(0.3)) b[c.draw(1)]+= c.sreal(2*w); if(b[0]>b[1]) std::swap(b[0],b[1]); for(int i=0;i<4;i++){ f.o.bounding_box[i]=may[i]=b[i]; must[i]=b[i]+(i&1?-m:m); } c.info(" manual box [%g,%g]x[%g,%g]",b[0],b[1],b[2],b[3]); }
    else if(filt==1){ f.o.bound_state_filtering=fnft_nsev_bsfilt_BASIC; double b[4]={-INFINITY,INFINITY,0,INFINITY}; for(int i=0;i<4;i++) must[i]=may[i]=b[i]; }
    else { f.o.bound_state_filtering=fnft_nsev_bsfilt_FULL; must[0]=-0.3*PI/eps; must[1]=0.3*PI/eps; must[2]=1e-6; must[3]=0.25*E*1.3; may[0]=-3e9; may[1]=3e9; may[2]=0; may[3]=0.25*E*2.2; }
    if(f.run()) c.fail("Newton with filter: error %d",f.rc); c.label(strf("filter%d",filt));
    for(size_t k=0;k<f.K;k++){ if(!inbox(f.B[k],may)) c.fail("bound state %.12g%+.12gi is outside the box",f.B[k].real(),f.B[k].imag()); for(size_t j=0;j<k;j++) if(std::abs(f.B[j]-f.B[k])<MT*0.9) c.fail("bound state reported twice"); }
    for(size_t j=0;j<a.K;j++) if(inbox(a.B[j],must)){ double d=1e9; for(size_t k=0;k<f.K;k++) d=std::min(d,std::abs(f.B[k]-a.B[j])); if(!(d<1e-6)) c.fail("Newton: eigenvalue %.12g%+.12gi is inside the box but was dropped",a.B[j].real(),a.B[j].imag()); }
}
LAW("C04",nse_short_arrays,1500,100000,"more bound states exist than fit"){
    Nsev n; int disc; double eps; bool sub=c.chance(0.4); gen_sig(c,n,disc,eps,sub||c.chance(0.3),600); n.o.bound_state_localization=sub?fnft_nsev_bsloc_SUBSAMPLE_AND_REFINE:fnft_nsev_bsloc_FAST_EIGENVALUE; n.o.bound_state_filtering=c.pick({fnft_nsev_bsfilt_FULL,fnft_nsev_bsfilt_BASIC,fnft_nsev_bsfilt_NONE}); if(sub&&n.o.bound_state_filtering==fnft_nsev_bsfilt_NONE) n.o.bound_state_filtering=fnft_nsev_bsfilt_FULL; n.nc=n.o.bound_state_filtering!=fnft_nsev_bsfilt_NONE&&!c.chance(0.3); n.o.discspec_type=c.pick({fnft_nsev_dstype_NORMING_CONSTANTS,fnft_nsev_dstype_RESIDUES,fnft_nsev_dstype_BOTH}); bool cs=c.chance(0.3); n.cs=cs; n.M=cs?5:0;
    n.maxcap(); if(n.run()){ if(n.nc&&n.rc==-FNFT_EC_DIV_BY_ZERO) c.discard(); c.fail("error %d",n.rc);} size_t full=n.K; auto all=n.B, alln=n.N; if(full==0) c.discard(); Nsev s=n; s.cap=c.draw(std::min<size_t>(full+1,40)); if(full>2&&c.chance(0.5)) s.cap=full-1; c.info(" loc=%d filt=%d full K=%zu capacity %zu nc=%d type=%d",s.o.bound_state_localization,s.o.bound_state_filtering,full,s.cap,s.nc,s.o.discspec_type);
    if(s.cap<full) c.nontrivial(); if(s.run()) c.fail("error %d with a short array",s.rc); size_t want=std::min(full,s.cap); if(s.K>s.cap) c.fail("count %zu exceeds the capacity %zu",s.K,s.cap); tail(c,s.B,s.cap,"bound states"); if(s.nc){ bool both=s.o.discspec_type==fnft_nsev_dstype_BOTH; tail(c,s.N,(both?2:1)*s.K,"norming constants"); }
    c.label(sub?"subsample":"fasteig"); c.label(strf("filt%d",s.o.bound_state_filtering)); if(s.K!=want) c.fail("%zu bound states exist, capacity %zu, but %zu were returned",full,s.cap,s.K);
    for(size_t k=0;k<s.K;k++){ double d=1e99; size_t w=0; for(size_t j=0;j<full;j++){ double e=std::abs(all[j]-s.B[k]); if(e<d||all[j]==s.B[k]){ d=all[j]==s.B[k]?0:e; w=j; } } if(std::isnan(s.B[k].real())&&s.o.bound_state_filtering==fnft_nsev_bsfilt_NONE) continue; if(!(d<=0)) c.fail("entry %zu (%.12g%+.12gi) is not one of the %zu bound states of the full call",k,s.B[k].real(),s.B[k].imag(),full);
        if(s.nc){ int parts=s.o.discspec_type==fnft_nsev_dstype_BOTH?2:1; for(int p=0;p<parts;p++){ cd x=s.N[p*s.K+k],y=alln[p*full+w]; if(!(x==y)&&!(std::isnan(std::abs(x))&&std::isnan(std::abs(y)))) c.fail("norming constant or residue %zu is %.17g%+.17gi but %.17g%+.17gi in the full call (bound state %g%+gi)",k,x.real(),x.imag(),y.real(),y.imag(),s.B[k].real(),s.B[k].imag()); } } }
}
