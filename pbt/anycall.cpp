#include "anycall.hpp"
namespace any {
using api::SENT;
thread_local cd fill=SENT;
bool Out::same(const Out&o,std::string*why)const{
    auto bit=[&](const vector<cd>&a,const vector<cd>&b,const char*w){ if(a.size()!=b.size()){ if(why) *why=strf("%s: %zu entries instead of %zu",w,a.size(),b.size()); return false; } for(size_t i=0;i<a.size();i++) if(memcmp(&a[i],&b[i],sizeof(cd))){ auto nan=[](cd x){ return std::isnan(x.real())||std::isnan(x.imag()); }; if(nan(a[i])&&nan(b[i])) continue; if(why) *why=strf("%s[%zu]: %.17g%+.17gi instead of %.17g%+.17gi",w,i,a[i].real(),a[i].imag(),b[i].real(),b[i].imag()); return false; } return true; };
    if(rc!=o.rc){ if(why) *why=strf("return code %d instead of %d",rc,o.rc); return false; } if(K!=o.K||M!=o.M){ if(why) *why=strf("counts %zu/%zu instead of %zu/%zu",K,M,o.K,o.M); return false; }
    return bit(c,o.c,"first output")&&bit(b,o.b,"second output")&&bit(n,o.n,"third output"); }
size_t Call::cslen()const{ int t= which==0?o.ev.contspec_type: which==3?o.kd.contspec_type: which==4?o.ma.contspec_type:0; if(which==4) return (t==0?2:t==1?3:5)*M; return (t==0?1:t==1?2:3)*M; }
size_t Call::nclen()const{ bool both= which==0? o.ev.discspec_type==fnft_nsev_dstype_BOTH: which==3? o.kd.discspec_type==fnft_kdvv_dstype_BOTH: false; return (both?2:1)*cap; }
void Call::defaults(){ switch(which){ case 0: o.ev=fnft_nsev_default_opts(); olen=sizeof o.ev; break; case 1: o.ep=fnft_nsep_default_opts(); olen=sizeof o.ep; break; case 2: o.in=fnft_nsev_inverse_default_opts(); olen=sizeof o.in; break; case 3: o.kd=fnft_kdvv_default_opts(); olen=sizeof o.kd; break; default: o.ma=fnft_manakovv_default_opts(); olen=sizeof o.ma; } }
// exact-size copy
struct Blk { cd*p; size_t n; bool use; vector<cd> init; Blk(const vector<cd>&v):p(new cd[v.size()]),n(v.size()),use(true),init(v){ std::copy(v.begin(),v.end(),p); } Blk(bool u,size_t n_,const vector<cd>*g=nullptr):p(new cd[n_]),n(n_),use(u){ for(size_t i=0;i<n;i++) p[i]=fill; if(g) for(size_t i=0;i<g->size()&&i<n;i++) p[i]=(*g)[i]; } ~Blk(){ delete[] p; } cd*get(){ return use?p:nullptr; } bool intact()const{ return n==0||memcmp(p,init.data(),n*sizeof(cd))==0; } vector<cd> out()const{ return use?vector<cd>(p,p+n):vector<cd>(); } };
Out Call::run(bool dry)const{
    Out R; Blk Q(q),RR(r); double*t=new double[2],*x=new double[2]; t[0]=T[0]; t[1]=T[1]; x[0]=XI[0]; x[1]=XI[1]; char*op=new char[olen]; memcpy(op,&o,olen); FNFT_UINT K=cap/kdiv,Mo=acap; auto N_=[&](unsigned bit,cd*p){ return F(nul&bit?nullptr:p); }; double*tp=nul&2?nullptr:t; void*opp=noopts?nullptr:op; double*sheet=nul&32?new double[64]():nullptr;
    if(which==2){ Blk C(IC),B(IB),N(IN),S(true,D); if(!q.empty()) for(size_t i=0;i<D&&i<q.size();i++) S.p[i]=q[i]; if(!dry) R.rc=fnft_nsev_inverse(IC.size(),IC.empty()?NULL:N_(512,C.p),noXI||nul&4?NULL:x,IB.size(),IB.empty()?NULL:N_(128,B.p),IN.empty()?NULL:N_(256,N.p),D,N_(1,S.p),tp,kappa,(fnft_nsev_inverse_opts_t*)opp); R.c=S.out(); if(!B.intact()) R.changed="bound states"; if(!N.intact()) R.changed="norming constants"; }
    else if(which==1){ Blk S(cs,cap,&guess),A(bs,acap,&aguess); if(!dry) R.rc=fnft_nsep(D,N_(1,Q.p),tp,shift,nul&8?NULL:&K,F(S.get()),nul&16?NULL:&Mo,F(A.get()),sheet,kappa,(fnft_nsep_opts_t*)opp); R.K=K; R.M=Mo; R.c=S.out(); R.b=A.out(); }
    else { Blk C(cs,cslen()),B(bs,cap,&guess),N(nc,nclen()); FNFT_UINT*kp=nullK||nul&8?NULL:&K; double*xp=nul&4?NULL:cs||!noXI?x:NULL;
        if(dry); else if(which==0) R.rc=fnft_nsev(D,N_(1,Q.p),tp,M,F(C.get()),xp,kp,F(B.get()),F(N.get()),kappa,(fnft_nsev_opts_t*)opp);
        else if(which==3) R.rc=fnft_kdvv(D,N_(1,Q.p),tp,M,F(C.get()),xp,kp,F(B.get()),F(N.get()),(fnft_kdvv_opts_t*)opp);
        else R.rc=fnft_manakovv(D,N_(1,Q.p),N_(64,RR.p),tp,M,F(C.get()),xp,kp,F(B.get()),NULL,kappa,(fnft_manakovv_opts_t*)opp);
        R.K=K; R.c=C.out(); R.b=B.out(); R.n=N.out(); }
    if(which!=2&&!Q.intact()) R.changed="signal"; if(!RR.intact()) R.changed="second signal"; if(memcmp(t,T,16)) R.changed="T"; if(memcmp(x,XI,16)) R.changed="XI"; if(memcmp(op,&o,olen)) R.changed="options"; delete[] t; delete[] x; delete[] op; delete[] sheet; return R; }
void Call::describe(){ desc=strf("%s disc=%s D=%zu M=%zu kappa=%d T=[%.17g,%.17g] XI=[%.17g,%.17g] outputs=%d%d%d cap=%zu/%zu guesses=%zu%s",WN[which],disc.c_str(),D,M,kappa,T[0],T[1],XI[0],XI[1],cs,bs,nc,cap,acap,guess.size(),noopts?" default options":""); if(!noopts) switch(which){ case 0: desc+=strf(" filt=%d loc=%d niter=%zu tol=%g Dsub=%zu ds=%d cs=%d norm=%d rich=%zu box=[%g,%g]x[%g,%g]",o.ev.bound_state_filtering,o.ev.bound_state_localization,(size_t)o.ev.niter,o.ev.tol,(size_t)o.ev.Dsub,o.ev.discspec_type,o.ev.contspec_type,o.ev.normalization_flag,(size_t)o.ev.richardson_extrapolation_flag,o.ev.bounding_box[0],o.ev.bounding_box[1],o.ev.bounding_box[2],o.ev.bounding_box[3]); break;
    case 1: desc+=strf(" loc=%d filt=%d box=[%g,%g]x[%g,%g] evals=%zu norm=%d range=[%g,%g] pps=%zu Dsub=%zu tol=%g shift=%g",o.ep.localization,o.ep.filtering,o.ep.bounding_box[0],o.ep.bounding_box[1],o.ep.bounding_box[2],o.ep.bounding_box[3],(size_t)o.ep.max_evals,o.ep.normalization_flag,o.ep.floquet_range[0],o.ep.floquet_range[1],(size_t)o.ep.points_per_spine,(size_t)o.ep.Dsub,o.ep.tol,shift); break;
    case 2: desc+=strf(" M=%zu K=%zu cstype=%d method=%d dstype=%d iter=%zu ov=%zu",IC.size(),IB.size(),o.in.contspec_type,o.in.contspec_inversion_method,o.in.discspec_type,(size_t)o.in.max_iter,(size_t)o.in.oversampling_factor); break;
    case 3: desc+=strf(" loc=%d niter=%zu ds=%d cs=%d norm=%d rich=%zu grid=%g",o.kd.bound_state_localization,(size_t)o.kd.niter,o.kd.discspec_type,o.kd.contspec_type,o.kd.normalization_flag,(size_t)o.kd.richardson_extrapolation_flag,o.kd.grid_spacing); break;
    default: desc+=strf(" filt=%d loc=%d niter=%zu Dsub=%zu cs=%d norm=%d rich=%zu",o.ma.bound_state_filtering,o.ma.bound_state_localization,(size_t)o.ma.niter,(size_t)o.ma.Dsub,o.ma.contspec_type,o.ma.normalization_flag,(size_t)o.ma.richardson_extrapolation_flag); } desc+=" q="+gen::show(which==2?IC:q,4); }
// amplitude such that |q| eps stays below 0.5
static vector<cd> sig(Case&c,size_t D,double eps,double maxarea){ return gen::samples(c,D,std::min(0.45/eps,maxarea/(D*eps))); }
static void xi(Case&c,Call&a,double X){ a.XI[0]=-X*c.real(0.3,1); a.XI[1]=X; if(a.M&&c.chance(0.2)) a.M=1; }
static cd upper(Case&c,double e){ return cd(c.sreal(0.8/e),c.logreal(0.05,2.0)*std::min(1.0,1/e)); }
Call gen(Case&c,Lim l,bool defaults){
    Call a; a.which= l.which>=0? l.which: (int)c.draw(4); a.noopts=c.chance(0.1)||defaults; a.defaults(); gen::window(c,a.T); size_t maxD=l.maxD; int w=a.which;
    if(w==0){
        int d=(int)c.draw(27); if(a.noopts) d=a.o.ev.discretization; a.o.ev.discretization=(fnft_nse_discretization_t)d; a.disc=ref::name(d); int dg=std::max(1,ref::degree(d)); size_t lo=2; if(dg>8) maxD=std::max<size_t>(lo+2,maxD/3); if(dg>50) maxD=lo+2; a.D=gen::len(c,lo,maxD); double e=(a.T[1]-a.T[0])/(a.D-1); a.kappa=c.chance(0.35)?-1:1; a.q=sig(c,a.D,e,a.kappa>0?8.0:4.0);
        a.cs=!c.chance(0.3); a.bs=!a.cs||c.chance(0.6); a.nc=a.bs&&!c.chance(0.3); a.M=a.cs?1+c.draw(8):c.draw(2); a.noXI=!a.cs&&c.chance(0.5); a.nullK=!a.bs&&c.chance(0.5); xi(c,a,c.logreal(0.1,2)/e);
        if(!a.noopts){ auto&o=a.o.ev; o.discspec_type=(fnft_nsev_dstype_t)c.draw(2); o.contspec_type=(fnft_nsev_cstype_t)c.draw(2); o.normalization_flag=!c.chance(0.4); o.richardson_extrapolation_flag=c.chance(0.35); o.bound_state_filtering=(fnft_nsev_bsfilt_t)c.draw(3); o.niter=c.chance(0.6)?10:c.draw(30); if(c.chance(0.3)) o.tol=c.logreal(1e-12,1e-3); if(c.chance(0.5)) o.Dsub=c.draw(a.D+2); o.bound_state_localization=ref::is_slow(d)&&a.bs&&a.kappa>0? fnft_nsev_bsloc_NEWTON: (fnft_nsev_bsloc_t)c.draw(2); o.bounding_box[0]=-c.real(0.1,1)*2/e; o.bounding_box[1]=c.real(0.1,1)*2/e; o.bounding_box[2]=c.chance(0.5)?0:-c.real(0,1); o.bounding_box[3]=c.real(0.05,1)*3/e; }
        if(a.bs){ size_t full=fnft_nsev_max_K(a.D,&a.o.ev); if(!a.noopts&&a.o.ev.bound_state_localization==fnft_nsev_bsloc_NEWTON){ a.cap=c.draw(5); for(size_t i=0;i<a.cap;i++) a.guess.push_back(upper(c,e)); } else a.cap=c.chance(0.7)?full:c.draw(full); }
    } else if(w==1){
        bool newt=!a.noopts&&c.chance(0.25); int d; if(newt) d=c.chance(0.5)?fnft_nse_discretization_CF4_2:fnft_nse_discretization_BO; else do d=(int)c.draw(21); while(ref::is_slow(d)); if(a.noopts) d=a.o.ep.discretization; a.o.ep.discretization=(fnft_nse_discretization_t)d; a.disc=ref::name(d); int dg=std::max(1,ref::degree(d)); if(dg>8) maxD=maxD/4; a.D=4; while(a.D*2<=maxD&&c.chance(0.6)) a.D*=2; if(c.chance(0.1)) a.D=2; double L=a.T[1]-a.T[0],e=L/a.D; a.kappa=c.chance(0.35)?-1:1; a.q=sig(c,a.D,e,6); a.cs=!c.chance(0.15); a.bs=!c.chance(0.3); auto&o=a.o.ep;
        if(!a.noopts){ o.localization=newt?fnft_nsep_loc_NEWTON:c.pick({fnft_nsep_loc_SUBSAMPLE_AND_REFINE,fnft_nsep_loc_GRIDSEARCH,fnft_nsep_loc_MIXED}); o.filtering=(fnft_nsep_filt_t)c.draw(2); o.max_evals=c.draw(30); o.normalization_flag=!c.chance(0.4); o.points_per_spine=1+c.draw(3); if(c.chance(0.3)){ o.floquet_range[0]=c.sreal(1); o.floquet_range[1]=o.floquet_range[0]+c.real(0.01,1); } if(c.chance(0.5)) o.Dsub=c.draw(a.D+1); if(c.chance(0.3)) o.tol=c.logreal(1e-12,1e-3); o.bounding_box[0]=-c.real(0.1,1)*2/e; o.bounding_box[1]=c.real(0.1,1)*2/e; o.bounding_box[2]=-c.real(0,1)*2/e; o.bounding_box[3]=c.real(0,1)*2/e; if(c.chance(0.2)) a.shift=c.sreal(3); }
        if(o.filtering!=fnft_nsep_filt_NONE&&!a.cs) a.bs=false; size_t full=a.D*dg*o.points_per_spine*(1+0); if(!a.cs&&!a.bs) a.cs=true;
        if(o.localization==fnft_nsep_loc_NEWTON){ if(a.cs){ a.kdiv=o.points_per_spine; a.cap=c.draw(4)*a.kdiv; for(size_t i=0;i<a.cap;i++) a.guess.push_back(cd(c.sreal(1/e),c.sreal(1/L))); } if(a.bs){ a.acap=c.draw(4); for(size_t i=0;i<a.acap;i++) a.aguess.push_back(cd(c.sreal(1/e),c.sreal(1/L))); } } else { if(a.cs) a.cap=c.chance(0.7)?full:c.draw(full); if(a.bs) a.acap=c.chance(0.7)?full:c.draw(full); }
    } else if(w==2){
        auto&o=a.o.in; if(!a.noopts) o.discretization=c.chance(0.5)?fnft_nse_discretization_2SPLIT2_MODAL:fnft_nse_discretization_2SPLIT2A; a.disc=ref::name(o.discretization); a.D=2; while(a.D*2<=2*l.maxD&&c.chance(0.7)) a.D*=2; bool cont=!c.chance(0.35); int K=(!cont||c.chance(0.4))?1+(int)c.draw(4):0; a.kappa=K?1:c.chance(0.4)?-1:1; double e=(a.T[1]-a.T[0])/(a.D-1);
        if(!a.noopts){ o.contspec_type=(fnft_nsev_inverse_cstype_t)c.draw(2); o.discspec_type=(fnft_nsev_inverse_dstype_t)c.draw(1); o.max_iter=1+c.draw(20); o.oversampling_factor=1+c.draw(7); o.contspec_inversion_method=(fnft_nsev_inverse_csmethod_t)c.draw(2); if(!cont&&c.chance(0.4)) o.contspec_inversion_method=fnft_nsev_inverse_csmethod_USE_SEED_POTENTIAL_INSTEAD; if(o.contspec_type==fnft_nsev_inverse_cstype_B_OF_TAU||o.contspec_type==fnft_nsev_inverse_cstype_B_OF_XI) if(cont) o.contspec_inversion_method=fnft_nsev_inverse_csmethod_DEFAULT; if(o.contspec_inversion_method==fnft_nsev_inverse_csmethod_TFMATRIX_CONTAINS_AB_FROM_ITER&&cont){ if(K) o.contspec_inversion_method=fnft_nsev_inverse_csmethod_TFMATRIX_CONTAINS_REFL_COEFF; else a.kappa=-1; } }
        if(cont){ size_t M=a.D*(1+c.draw(1)); if(!a.noopts&&o.contspec_type==fnft_nsev_inverse_cstype_B_OF_TAU){ M=a.D; double h=(a.T[1]-a.T[0])/2; a.T[0]=-h; a.T[1]=h; a.noXI=c.chance(0.5); } if(M%2) M++; if(!a.noopts&&o.contspec_inversion_method==fnft_nsev_inverse_csmethod_TFMATRIX_CONTAINS_AB_FROM_ITER) M=a.D; double XI[2]; fnft_nsev_inverse_XI(a.D,a.T,M,XI,o.discretization); a.XI[0]=XI[0]; a.XI[1]=XI[1]; double A=c.real(0.01,0.7),wd=c.logreal(0.05,0.5)*XI[1]; a.IC.resize(M); for(size_t i=0;i<M;i++){ double x=XI[0]+(XI[1]-XI[0])*i/(M-1); a.IC[i]=A*std::exp(-x*x/wd/wd)*std::polar(1.0,c.chance(0)?0:0.3*x); } }
        for(int k=0;k<K;k++){ a.IB.push_back(cd(c.sreal(0.5/e),(k+1)*c.real(0.1,0.4)/std::max(1.0,e))); a.IN.push_back(std::polar(c.logreal(0.1,10),c.real(0,6.28))); } if(!a.noopts&&o.contspec_inversion_method==fnft_nsev_inverse_csmethod_USE_SEED_POTENTIAL_INSTEAD) a.q=sig(c,a.D,e,2);
    } else if(w==3){
        int d=(int)c.draw(55); if(a.noopts) d=a.o.kd.discretization; a.o.kd.discretization=(fnft_kdv_discretization_t)d; int nd=d%28; a.disc=strf("%s%s",ref::name(nd),d<28?"_VANILLA":""); int dg=std::max(1,ref::degree(nd)); size_t lo=2; if(dg>8) maxD=std::max<size_t>(lo+2,maxD/3); if(dg>50) maxD=lo+2; a.D=gen::len(c,lo,maxD); double e=(a.T[1]-a.T[0])/(a.D-1); a.q=sig(c,a.D,e,8); for(auto&x:a.q) x=cd(x.real(),0.0);
        a.cs=!c.chance(0.3); a.bs=!a.cs||c.chance(0.6); a.nc=a.bs&&!c.chance(0.3); a.M=a.cs?1+c.draw(8):c.draw(2); a.noXI=!a.cs&&c.chance(0.5); a.nullK=!a.bs&&c.chance(0.5); double X=c.logreal(0.1,2)/e; if(c.chance(0.5)){ a.XI[0]=X*c.real(0.05,0.8); a.XI[1]=X; } else { a.XI[0]=-X; a.XI[1]=-X*c.real(0.05,0.8); }
        if(!a.noopts){ auto&o=a.o.kd; o.discspec_type=(fnft_kdvv_dstype_t)c.draw(2); o.contspec_type=(fnft_kdvv_cstype_t)c.draw(2); o.normalization_flag=!c.chance(0.4); o.richardson_extrapolation_flag=c.chance(0.35); o.niter=c.chance(0.6)?10:c.draw(30); o.bound_state_localization=(fnft_kdvv_bsloc_t)c.draw(1); double qm=0; for(auto&x:a.q) qm=std::max(qm,std::abs(x.real())); o.grid_spacing=c.logreal(0.02,1)*std::sqrt(qm>0?qm:1); }
        if(a.bs){ if(!a.noopts&&a.o.kd.bound_state_localization==fnft_kdvv_bsloc_NEWTON){ a.cap=c.draw(4); for(size_t i=0;i<a.cap;i++) a.guess.push_back(cd(0,c.logreal(0.05,1)/e)); } else { a.cap=c.draw(12); if(a.noopts) a.bs=a.nc=false,a.cs=true,a.M=a.M?a.M:2; } }
    } else {
        int d; do d=(int)c.draw(12); while(d==9); if(a.noopts) d=a.o.ma.discretization; a.o.ma.discretization=(fnft_manakov_discretization_t)d; a.disc=ref::mana_name(d); int dg=std::max(1,ref::mana_degree(d)*ref::mana_up(d)); size_t lo=2; if(dg>8) maxD=std::max<size_t>(lo+4,maxD/2); a.D=gen::len(c,lo,maxD); double e=(a.T[1]-a.T[0])/(a.D-1); a.kappa=c.chance(0.35)?-1:1; a.q=sig(c,a.D,e,5); a.r=sig(c,a.D,e,5); bool slow=ref::mana_slow(d);
        a.bs=!(slow&&a.kappa>0)&&c.chance(0.6); a.cs=!a.bs||!c.chance(0.3); a.M=a.cs?1+c.draw(8):c.draw(2); a.noXI=!a.cs&&c.chance(0.5); a.nullK=!a.bs&&c.chance(0.5); xi(c,a,c.logreal(0.1,1)/e);
        if(!a.noopts){ auto&o=a.o.ma; o.contspec_type=(fnft_manakovv_cstype_t)c.draw(2); o.normalization_flag=!c.chance(0.4); o.richardson_extrapolation_flag=c.chance(0.35); o.bound_state_filtering=(fnft_manakovv_bsfilt_t)c.draw(2); o.bound_state_localization=(fnft_manakovv_bsloc_t)c.draw(2); o.niter=c.draw(20); if(c.chance(0.5)) o.Dsub=c.draw(a.D+2); }
        if(a.bs){ size_t full=fnft_manakovv_max_K(a.D,&a.o.ma); a.cap=c.chance(0.7)?full:c.draw(full); }
    }
    if(a.noXI&&a.cs&&w!=2) a.noXI=false; if(a.nullK) a.cap=0; a.describe(); return a; }
}

namespace any {
struct Ser { std::string*s; const char*p; template<class T> void pod(T&x){ if(s) s->append((const char*)&x,sizeof x); else { memcpy(&x,p,sizeof x); p+=sizeof x; } } template<class T> void vec(vector<T>&v){ size_t n=v.size(); pod(n); v.resize(n); for(auto&x:v) pod(x); } void str(std::string&v){ size_t n=v.size(); pod(n); v.resize(n); for(auto&x:v) pod(x); }
    void call(Call&c){ pod(c.which); pod(c.D); vec(c.q); vec(c.r); pod(c.T); pod(c.XI); pod(c.shift); pod(c.M); pod(c.kappa); pod(c.cs); pod(c.bs); pod(c.nc); pod(c.noopts); pod(c.nullK); pod(c.cap); pod(c.acap); pod(c.kdiv); vec(c.guess); vec(c.aguess); vec(c.IC); vec(c.IB); vec(c.IN); pod(c.noXI); pod(c.o); pod(c.olen); pod(c.nul); str(c.desc); str(c.disc); }
    void out(Out&o){ pod(o.rc); pod(o.K); pod(o.M); vec(o.c); vec(o.b); vec(o.n); str(o.changed); } };
void save(const Call&c,std::string&s){ Ser{&s,nullptr}.call(const_cast<Call&>(c)); }
Call load(const std::string&s){ Call c; Ser{nullptr,s.data()}.call(c); return c; }
void save(const Out&c,std::string&s){ Ser{&s,nullptr}.out(const_cast<Out&>(c)); }
Out load_out(const std::string&s){ Out c; Ser{nullptr,s.data()}.out(c); return c; }
}
