// C21: argument checks and error reporting
#include "anycall.hpp"
#include <thread>
#include <atomic>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <climits>
using namespace pbt; using std::vector;
static const double PI_=3.14159265358979323846;
static thread_local int nmsg=0,nerr=0; static thread_local char lastmsg[600];
static int hook(const char*fmt,...){ va_list ap; va_start(ap,fmt); vsnprintf(lastmsg,sizeof lastmsg,fmt,ap); va_end(ap); nmsg++; if(strstr(lastmsg,"FNFT Error")) nerr++; return 0; }
static struct Init{ Init(){ pbt::worker_init=[]{ fnft_errwarn_setprintf(hook); }; } } init_;
// output that is written to the process' stdout or stderr while the object lives
struct Capture { int o,e,f; Capture(){ fflush(stdout); fflush(stderr); o=dup(1); e=dup(2); f=memfd_create("cap",0); if(f<0){ char n[]="/tmp/pbt_cap_XXXXXX"; f=mkstemp(n); unlink(n); } dup2(f,1); dup2(f,2); } ~Capture(){ stop(); close(f); } void stop(){ if(o<0) return; fflush(stdout); fflush(stderr); dup2(o,1); dup2(e,2); close(o); close(e); o=-1; } size_t bytes(){ stop(); return lseek(f,0,SEEK_END); } };
struct Bad { const char*what; int code; };
static const double NaN=NAN;
template<class E> static E enumv(Case&c,int n){ return (E)c.pick({n,n+1,1000,-1,INT_MAX,INT_MIN}); }
#define SLOW(x) x=c.pick({fnft_nse_discretization_BO,fnft_nse_discretization_CF4_2,fnft_nse_discretization_CF4_3,fnft_nse_discretization_CF5_3,fnft_nse_discretization_CF6_4,fnft_nse_discretization_ES4,fnft_nse_discretization_TES4})
#define B(cond,txt,cd_,...) if(cond) v.push_back({{txt,cd_},[](Case&c,any::Call&a){ __VA_ARGS__; }});
using Spoil=std::pair<Bad,void(*)(Case&,any::Call&)>;
static bool newton(const any::Call&a){ return a.which==0? a.o.ev.bound_state_localization==fnft_nsev_bsloc_NEWTON: a.which==1? a.o.ep.localization==fnft_nsep_loc_NEWTON: a.which==3? a.o.kd.bound_state_localization==fnft_kdvv_bsloc_NEWTON: false; }
static vector<Spoil> spoils(const any::Call&a){
    vector<Spoil> v; int w=a.which; bool o=!a.noopts;
    B(true,"D<2",2, a.D=c.draw(1)) B(true,"q==NULL",2, a.nul|=1) B(true,"T==NULL",2, a.nul|=2) B(true,"T[0]>T[1]",2, if(!(a.T[0]>a.T[1])) std::swap(a.T[0],a.T[1])) B(true,"T[0]==T[1]",2, a.T[1]=a.T[0]) B(true,"NaN in T",2, a.T[c.draw(1)]=NaN)
    if(w!=3) B(true,"kappa",2, a.kappa=c.pick({0,2,-2,3,-3,100,INT_MAX,-INT_MAX}))
    if(w==0||w==3||w==4){
        B(a.cs,"XI==NULL",2, a.nul|=4) B(a.cs,"XI[0]>XI[1]",2, if(!(a.XI[0]>a.XI[1])) std::swap(a.XI[0],a.XI[1])) B(a.cs&&a.M>1,"XI[0]==XI[1]",2, a.XI[1]=a.XI[0]) B(a.cs,"NaN in XI",2, a.XI[c.draw(1)]=NaN) B(a.bs,"K_ptr==NULL",2, a.nul|=8) }
    if(w==0&&o){ bool find=a.bs&&a.kappa==1;
        B(true,"discretization",2, a.o.ev.discretization=enumv<fnft_nse_discretization_t>(c,28)) B(a.cs,"contspec_type",2, a.o.ev.contspec_type=enumv<fnft_nsev_cstype_t>(c,3)) B(find&&a.nc,"discspec_type",2, a.o.ev.discspec_type=enumv<fnft_nsev_dstype_t>(c,3)) B(find,"bound_state_filtering",2, a.o.ev.bound_state_filtering=enumv<fnft_nsev_bsfilt_t>(c,4)) B(find,"bound_state_localization",2, a.o.ev.bound_state_localization=enumv<fnft_nsev_bsloc_t>(c,3))
        B(find,"slow discretization without NEWTON",2, SLOW(a.o.ev.discretization); a.o.ev.bound_state_localization=c.chance(0.5)?fnft_nsev_bsloc_FAST_EIGENVALUE:fnft_nsev_bsloc_SUBSAMPLE_AND_REFINE)
        B(find,"manual bounding box",2, a.o.ev.bound_state_filtering=fnft_nsev_bsfilt_MANUAL; double*b=a.o.ev.bounding_box; if(c.chance(0.5)) b[c.draw(3)]=NaN; else { int k=2*c.draw(1); b[k]=1; b[k+1]=-1; }) }
    if(w==1){ B(true,"D is no power of two",2, a.D=c.pick({3,5,6,7,9,12,24,100}); a.q.resize(a.D)) B(true,"K_ptr==NULL",2, a.nul|=8) B(true,"M_ptr==NULL",2, a.nul|=16) B(true,"sheet_indices",6, a.nul|=32)
        B(a.bs&&(a.noopts||a.o.ep.filtering!=fnft_nsep_filt_NONE),"auxiliary spectrum without main spectrum",2, a.cs=false)
        if(o){ B(true,"discretization",2, a.o.ep.discretization=enumv<fnft_nse_discretization_t>(c,28)) B(true,"localization",2, a.o.ep.localization=enumv<fnft_nsep_loc_t>(c,4)) B(true,"manual bounding box",2, a.o.ep.filtering=fnft_nsep_filt_MANUAL; double*b=a.o.ep.bounding_box; if(!a.cs) a.cs=true; if(c.chance(0.5)) b[c.draw(3)]=NaN; else { int k=2*c.draw(1); b[k]=1; b[k+1]=-1; }) B(true,"filtering",2, if(!a.cs) a.cs=true; a.o.ep.filtering=enumv<fnft_nsep_filt_t>(c,3)) B(newton(a),"fast discretization with NEWTON",2, int d=(int)c.draw(18); if(ref::is_slow(d)) d++; a.o.ep.discretization=(fnft_nse_discretization_t)d) B(!newton(a),"slow discretization without NEWTON",2, SLOW(a.o.ep.discretization)) } }
    if(w==3){ B(true,"complex q",2, a.q[c.draw(a.q.size()-1)]+=cd(0,c.chance(0.5)?1e-300:1.0)) B(a.cs,"XI grid contains zero",2, if(c.chance(0.5)){ a.M=1+c.draw(6); a.XI[0]=0; a.XI[1]=1; } else { a.M=3+2*c.draw(3); a.XI[0]=-1; a.XI[1]=1; })
        if(o){ B(true,"discretization",2, a.o.kd.discretization=enumv<fnft_kdv_discretization_t>(c,56)) B(a.cs,"contspec_type",2, a.o.kd.contspec_type=enumv<fnft_kdvv_cstype_t>(c,3)) B(a.bs&&a.nc,"discspec_type",2, a.o.kd.discspec_type=enumv<fnft_kdvv_dstype_t>(c,3)) B(a.bs,"bound_state_localization",2, a.o.kd.bound_state_localization=enumv<fnft_kdvv_bsloc_t>(c,2)) B(a.bs&&!newton(a),"grid_spacing",2, a.o.kd.grid_spacing=c.pick({0.0,-1.0,(double)-INFINITY,NaN})) B(a.bs&&newton(a)&&a.cap>0,"guess not on the positive imaginary axis",2, a.guess[c.draw(a.cap-1)]=c.pick({cd(0,0),cd(0,-1),cd(1,1),cd(1e-300,1)})) } }
    if(w==4){ B(true,"q2==NULL",2, a.nul|=64) if(o){ B(true,"discretization",2, a.o.ma.discretization=enumv<fnft_manakov_discretization_t>(c,13)) B(a.cs,"contspec_type",2, a.o.ma.contspec_type=enumv<fnft_manakovv_cstype_t>(c,3)) B(a.bs&&a.kappa==1,"slow discretization with bound states",2, a.o.ma.discretization=c.pick({fnft_manakov_discretization_BO,fnft_manakov_discretization_CF4_2})) B(a.bs&&a.kappa==1,"bound_state_filtering",2, a.o.ma.bound_state_filtering=enumv<fnft_manakovv_bsfilt_t>(c,3)) } }
    if(w==2){ bool C=!a.IC.empty(),K=!a.IB.empty(); int m=a.o.in.contspec_inversion_method,ct=a.o.in.contspec_type; bool tau=ct==fnft_nsev_inverse_cstype_B_OF_TAU;
        B(C,"contspec==NULL",2, a.nul|=512) B(C,"M odd",2, a.IC.resize(a.IC.size()|1)) B(C&&a.D>2,"M<D",2, a.IC.resize(a.D/2)) B(true,"D is no power of two",2, a.D=c.pick({3,5,6,7,9,12,24}); if(a.IC.size()&&a.IC.size()<a.D) a.IC.resize(64)) B(K,"bound states in the defocusing case",7, a.kappa=-1) B(K,"bound_states==NULL",2, a.nul|=128) B(K,"normconsts==NULL",2, a.nul|=256) B(K,"bound state not in the upper half plane",7, a.IB[c.draw(a.IB.size()-1)]=c.pick({cd(1,0),cd(0,0),cd(0,-1),cd(0,NAN)})) B(a.IB.size()>1,"bound states coincide",7, a.IB.back()=a.IB[c.draw(a.IB.size()-2)]) B(true,"no spectrum",7, a.IC.clear(); a.IB.clear(); a.IN.clear()) B(C&&!tau,"XI==NULL",2, a.noXI=true)
        if(o){ B(true,"discretization",2, int d=(int)c.pick({fnft_nse_discretization_2SPLIT1A,fnft_nse_discretization_2SPLIT2B,fnft_nse_discretization_2SPLIT2S,fnft_nse_discretization_2SPLIT4B,fnft_nse_discretization_2SPLIT8B,fnft_nse_discretization_BO,fnft_nse_discretization_4SPLIT4A,fnft_nse_discretization_TES4,(fnft_nse_discretization_t)28,(fnft_nse_discretization_t)-1,(fnft_nse_discretization_t)1000}); a.o.in.discretization=(fnft_nse_discretization_t)d) B(C&&m!=fnft_nsev_inverse_csmethod_USE_SEED_POTENTIAL_INSTEAD,"contspec_type",2, a.o.in.contspec_type=enumv<fnft_nsev_inverse_cstype_t>(c,3)) B(C&&ct==fnft_nsev_inverse_cstype_REFLECTION_COEFFICIENT,"inversion method",2, a.o.in.contspec_inversion_method=enumv<fnft_nsev_inverse_csmethod_t>(c,4)) B(K,"discspec_type",2, a.o.in.discspec_type=enumv<fnft_nsev_inverse_dstype_t>(c,2)) B(C&&tau,"M!=D for B_OF_TAU",2, a.IC.resize(a.D+2)) B(C&&tau,"T not symmetric for B_OF_TAU",2, a.T[1]+=0.5*(a.T[1]-a.T[0])) } }
    return v; }
static void law(Case&c,int which){
    any::Lim l; l.which=which; l.maxD=16; any::Call a=any::gen(c,l); auto v=spoils(a); auto s=v[c.draw(v.size()-1)]; s.second(c,a); Bad b=s.first; int code2=b.code; std::string what=b.what; if(c.chance(0.25)){ auto v2=spoils(a); auto s2=v2[c.draw(v2.size()-1)]; s2.second(c,a); code2=s2.first.code; what+=strf(", %s",s2.first.what); c.label("two"); } a.describe(); c.info("invalid: %s; %s",what.c_str(),a.desc.c_str()); c.label(b.what); c.nontrivial(); any::Out before=a.run(true),r; bool silent=c.chance(0.3); nmsg=0; lastmsg[0]=0; { Capture cap; if(silent) fnft_errwarn_setprintf(NULL); r=a.run(); if(fnft_errwarn_getprintf()!=(silent?NULL:(fnft_printf_ptr_t)hook)) c.fail("the call replaced the print function"); fnft_errwarn_setprintf(hook); size_t n=cap.bytes(); if(n) c.fail("%zu bytes were written to stdout or stderr",n); }
    if(r.rc==0) c.fail("success reported although invalid: %s",what.c_str()); if(std::abs(r.rc)!=b.code&&std::abs(r.rc)!=code2) c.fail("error code %d instead of %d (%s)",r.rc,b.code,what.c_str()); if(r.changed.size()) c.fail("the rejected call (%s) modified %s",what.c_str(),r.changed.c_str()); any::Out r0=r; r0.rc=0; std::string why; if(!r0.same(before,&why)) c.fail("the rejected call (%s) modified an output: %s",what.c_str(),why.c_str());
    if(silent){ if(nmsg) c.fail("message although the print function is disabled: %s",lastmsg); } else if(!nmsg) c.fail("no error message"); else if(!strstr(lastmsg,"FNFT Error")) c.fail("message is '%s'",lastmsg);
}
LAW("C21",nsev_rejects_invalid_arguments,30000,2000000,"always"){ law(c,0); }
LAW("C21",nsep_rejects_invalid_arguments,20000,1500000,"always"){ law(c,1); }
LAW("C21",nsev_inverse_rejects_invalid_arguments,20000,1500000,"always"){ law(c,2); }
LAW("C21",kdvv_rejects_invalid_arguments,30000,2000000,"always"){ law(c,3); }
LAW("C21",manakovv_rejects_invalid_arguments,20000,1500000,"always"){ law(c,4); }
static void valid(Case&c,int which){
    any::Lim l; l.which=which; l.maxD=40; any::Call a=any::gen(c,l); c.info("%s",a.desc.c_str()); c.nontrivial(); c.label(a.disc.c_str()); nmsg=nerr=0; lastmsg[0]=0; any::Out r; size_t n=0; { Capture cap; r=a.run(); n=cap.bytes(); } if(n) c.fail("%zu bytes were written to stdout or stderr",n); if(fnft_errwarn_getprintf()!=(fnft_printf_ptr_t)hook) c.fail("the call replaced the print function");
    if(r.changed.size()) c.fail("the call modified %s",r.changed.c_str());
    // iterations from arbitrary starting points and norming constants or residues of unfiltered values may hit a zero of a derivative
    bool div0=a.bs&&(newton(a)||a.which==1||a.nc||(a.which==0&&!a.noopts&&a.o.ev.bound_state_filtering==fnft_nsev_bsfilt_NONE)); c.label(r.rc?"division by zero":nmsg?"warning":"silent"); if(r.rc&&!(div0&&std::abs(r.rc)==FNFT_EC_DIV_BY_ZERO)) c.fail("valid call rejected: return code %d, %s",r.rc,lastmsg); if(r.rc?nerr==0:nerr>0) c.fail("return code %d, but %d error messages, %s",r.rc,nerr,lastmsg);
}
LAW("C21",nsev_accepts_valid_arguments,8000,800000,"always"){ valid(c,0); }
LAW("C21",nsep_accepts_valid_arguments,2500,300000,"always"){ valid(c,1); }
LAW("C21",nsev_inverse_accepts_valid_arguments,6000,500000,"always"){ valid(c,2); }
LAW("C21",kdvv_accepts_valid_arguments,6000,500000,"always"){ valid(c,3); }
LAW("C21",manakovv_accepts_valid_arguments,4000,400000,"always"){ valid(c,4); }

// results that do not fit into the arrays of the caller are announced
LAW("C21",truncation_is_announced,6000,600000,"more values than the arrays can hold"){
    any::Lim l; l.which=(int)c.pick({0,1,3,4}); any::Call a=any::gen(c,l); if(newton(a)) { c.discard(); return; } bool aux=a.which==1&&a.bs&&(!a.cs||c.chance(0.5)); if(!aux&&!(a.which==1?a.cs:a.bs)) { c.discard(); return; } a.nc=false; any::Call full=a; (aux?full.acap:full.cap)=a.which==3?40: a.which==1?a.D*220*a.o.ep.points_per_spine/std::max<size_t>(1,a.o.ep.points_per_spine)+1: 2*std::max<size_t>(a.cap,1); any::Out f=full.run(); size_t K=aux?f.M:f.K; c.info("%s; %zu values",a.desc.c_str(),K); if(f.rc||K==0){ c.discard(); return; }
    if(K>=(aux?full.acap:full.cap)){ c.discard(); return; } size_t k=c.draw(K-1); if(k==0&&a.which==3){ c.discard(); return; } (aux?a.acap:a.cap)=k; a.describe(); c.info("%s; %zu values",a.desc.c_str(),K); c.label(any::WN[a.which]); c.nontrivial(); nmsg=nerr=0; any::Out r=a.run(); if(r.rc){ if(nmsg==0) c.fail("return code %d without a message",r.rc); return; } size_t k2=aux?r.M:r.K; if(k2>k) c.fail("%zu values reported although there is room for only %zu",k2,k); if(nmsg==0) c.fail("%zu of %zu values reported without a message",k2,K);
}

// print functions: a model of the documented per-thread setting
static thread_local int cnt[3];
template<int I> static int pf(const char*fmt,...){ char b[800]; va_list ap; va_start(ap,fmt); int n=vsnprintf(b,sizeof b,fmt,ap); va_end(ap); if(strncmp(b,"FNFT ",5)) cnt[I]+=1000; cnt[I]++; return n; }
static const fnft_printf_ptr_t PF[]={(fnft_printf_ptr_t)pf<0>,(fnft_printf_ptr_t)pf<1>,(fnft_printf_ptr_t)pf<2>};
static int provoke(int kind){ // a call that is rejected; returns its code
    double T[2]={1,-1},X[2]={-1,1}; cd q_[4],o_[16]; auto q=F(q_); auto o=F(o_); FNFT_UINT K=0,M=0,v; char s[FNFT_VERSION_SUFFIX_MAXLEN+1];
    switch(kind){ case 0: return fnft_nsev(4,q,T,2,o,X,NULL,NULL,NULL,1,NULL); case 1: return fnft_nsep(4,q,T,0,&K,o,&M,o,NULL,1,NULL); case 2: return fnft_nsev_inverse(4,q,X,0,NULL,NULL,4,o,T,1,NULL); case 3: return fnft_kdvv(4,q,T,2,o,X,NULL,NULL,NULL,NULL); case 4: return fnft_manakovv(4,q,q,T,2,o,X,NULL,NULL,NULL,1,NULL); case 5: return fnft_nsev_inverse_XI(4,T,4,X,fnft_nse_discretization_2SPLIT2A); default: return fnft_version(NULL,&v,&v,s); } }
LAW("C21",print_function_belongs_to_the_thread,4000,300000,"at least two threads with different settings"){
    int nt=1+(int)c.draw(3); struct Op { int th,kind,arg; }; vector<Op> ops; int n=2+(int)c.draw(25); for(int i=0;i<n;i++) ops.push_back({(int)c.draw(nt-1),(int)c.draw(1),(int)c.draw(7)}); bool conc=c.chance(0.5); c.info("%d threads, %d operations, %s",nt,n,conc?"concurrent":"interleaved"); c.label(conc?"concurrent":"interleaved"); if(nt>1) c.nontrivial();
    // 0: setting 0..2 hook, 3 NULL, 4.. default   1: rejected call
    fnft_printf_ptr_t def=NULL; std::thread([&]{ def=fnft_errwarn_getprintf(); }).join(); if(!def) c.fail("no print function in a fresh thread");
    std::string err; std::atomic<int> turn{0}; std::atomic<bool> bad{false}; size_t expect_stderr=0; vector<std::thread> th; vector<std::string> errs(nt); vector<int> defs(nt,0); size_t bytes=0; { Capture cap;
        for(int t=0;t<nt;t++) th.emplace_back([&,t]{ fnft_printf_ptr_t cur=def; auto e=[&](const std::string&s){ if(errs[t].empty()) errs[t]=s; }; for(int i=0;i<3;i++) cnt[i]=0; for(int i=0;i<n;i++){ if(!conc) while(turn.load()!=i*nt+t) std::this_thread::yield(); if(ops[i].th==t){ if(fnft_errwarn_getprintf()!=cur) e(strf("operation %d: print function of another thread",i)); if(ops[i].kind==0){ cur= ops[i].arg<3? PF[ops[i].arg]: ops[i].arg==3? NULL: def; fnft_errwarn_setprintf(cur); if(fnft_errwarn_getprintf()!=cur) e(strf("operation %d: setting not taken over",i)); }
                else { int b[3]={cnt[0],cnt[1],cnt[2]}; int rc=provoke(ops[i].arg%7); if(rc!=FNFT_EC_INVALID_ARGUMENT&&rc!=-FNFT_EC_INVALID_ARGUMENT) e(strf("operation %d: return code %d",i,rc)); for(int k=0;k<3;k++){ int d=cnt[k]-b[k]; bool mine=cur==PF[k]; if(mine? d<1||d>900: d!=0) e(strf("operation %d: print function %d called %d times, %s",i,k,d,mine?"although it is set":"although it is not set")); } if(cur==def) defs[t]++; } } if(!conc) turn++; } });
        for(auto&t:th) t.join(); bytes=cap.bytes(); }
    for(int t=0;t<nt;t++){ if(errs[t].size()) c.fail("thread %d, %s",t,errs[t].c_str()); expect_stderr+=defs[t]; } if((bytes>0)!=(expect_stderr>0)) c.fail("%zu bytes on stdout/stderr after %zu errors with the default print function",bytes,expect_stderr); if(fnft_errwarn_getprintf()!=(fnft_printf_ptr_t)hook) c.fail("print function of the main thread changed");
}
LAW("C21",small_functions_reject_invalid_arguments,20000,1000000,"an argument is invalid"){
    int f=(int)c.draw(1); nmsg=nerr=0;
    if(f==0){ FNFT_UINT v[3]={77,77,77}; char s[FNFT_VERSION_SUFFIX_MAXLEN+1]; memset(s,'#',sizeof s); int z=(int)c.draw(4)-1; c.info("fnft_version, NULL for argument %d",z); c.label("version"); if(z>=0) c.nontrivial(); int rc=fnft_version(z==0?NULL:v,z==1?NULL:v+1,z==2?NULL:v+2,z==3?NULL:s); if(z<0){ if(rc||v[0]!=FNFT_VERSION_MAJOR||v[1]!=FNFT_VERSION_MINOR||v[2]!=FNFT_VERSION_PATCH||strcmp(s,FNFT_VERSION_SUFFIX)) c.fail("wrong version, code %d",rc); } else { if(std::abs(rc)!=2) c.fail("return code %d",rc); if(nerr==0) c.fail("no message"); if(v[0]!=77||v[1]!=77||v[2]!=77||s[0]!='#') c.fail("output written"); } return; }
    double T[2]; gen::window(c,T); double X[2]={0.125,0.25}; size_t D=2+c.draw(30),M=1+c.draw(30); int d=(int)c.draw(18); int bad=(int)c.draw(9); const char*what="valid"; bool nT=false,nX=false; double T0=T[0],T1=T[1]; switch(bad){ case 0: D=c.draw(1); what="D<2"; break; case 1: M=0; what="M==0"; break; case 2: nX=true; what="XI==NULL"; break; case 3: nT=true; what="T==NULL"; break; case 4: T[0]=T1; T[1]=T0; what="T reversed"; break; case 5: T[0]=T[1]; what="T empty"; break; case 6: T[c.draw(1)]=NaN; what="T NaN"; break; case 7: d=c.pick({28,29,1000,-1,INT_MAX,INT_MIN}); what="discretization"; break; case 8: d=fnft_nse_discretization_BO; what="slow discretization"; break; default: d=c.pick({fnft_nse_discretization_2SPLIT2_MODAL,fnft_nse_discretization_2SPLIT2A}); bad=-1; }
    c.info("fnft_nsev_inverse_XI, %s: D=%zu M=%zu disc=%d T=[%g,%g]",what,D,M,d,T[0],T[1]); c.label(what); if(bad>=0) c.nontrivial(); int rc=fnft_nsev_inverse_XI(D,nT?NULL:T,M,nX?NULL:X,(fnft_nse_discretization_t)d); if(bad<0){ if(rc) c.fail("valid call rejected, return code %d",rc); double e=(T[1]-T[0])/(D-1),x1=PI_/(2*e); if(!(std::abs(X[1]-x1)<=1e-12*x1)) c.fail("XI[1]=%.17g instead of %.17g",X[1],x1); double x0=M==1?0:M%2==0? -x1*(1-2.0/M): -x1*(1-1.0/M); if(!(std::abs(X[0]-x0)<=1e-12*x1)) c.fail("XI[0]=%.17g instead of %.17g",X[0],x0); return; }
    if(std::abs(rc)!=2) c.fail("return code %d",rc); if(nerr==0) c.fail("no message"); if(X[0]!=0.125||X[1]!=0.25) c.fail("XI written");
}
