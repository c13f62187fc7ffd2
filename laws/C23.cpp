// C23: the results of a call depend only on its arguments
#include "anycall.hpp"
#include "memwrap.h"
#include <thread>
#include <atomic>
#include <unistd.h>
#include <signal.h>
#include <fenv.h>
#include <locale.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <alloca.h>
using namespace pbt; using std::vector;
static int hook(const char*,...){ return 0; }
// A helper process that never calls the library itself: every request is executed in a fresh child of it, i.e., in a
// process in which no library function has been called before.
static int zfd=-1;
static bool rd(int fd,void*p,size_t n){ char*c=(char*)p; while(n){ ssize_t k=read(fd,c,n); if(k<=0) return false; c+=k; n-=k; } return true; }
static bool wr(int fd,const void*p,size_t n){ const char*c=(const char*)p; while(n){ ssize_t k=write(fd,c,n); if(k<=0) return false; c+=k; n-=k; } return true; }
static bool send(int fd,const std::string&s){ uint64_t n=s.size(); return wr(fd,&n,8)&&wr(fd,s.data(),n); }
static bool recv(int fd,std::string&s){ uint64_t n; if(!rd(fd,&n,8)) return false; s.resize(n); return n==0||rd(fd,&s[0],n); }
static void zygote(){ int sv[2]; if(socketpair(AF_UNIX,SOCK_STREAM,0,sv)) return; pid_t parent=getpid(); pid_t p=fork(); if(p==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); if(getppid()!=parent) _exit(0); close(sv[0]); for(int i=3;i<256;i++) if(i!=sv[1]) close(i); std::string s; while(recv(sv[1],s)){ pid_t q=fork(); if(q==0){ fnft_errwarn_setprintf(hook); any::Out o=any::load(s).run(); std::string r; any::save(o,r); send(sv[1],r); _exit(0); } int st; waitpid(q,&st,0); if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)){ any::Out o; o.rc=-9999; std::string r; any::save(o,r); send(sv[1],r); } } _exit(0); } close(sv[1]); zfd=sv[0]; }
static any::Out fresh(Case&c,const any::Call&a){ std::string s; any::save(a,s); if(zfd<0||!send(zfd,s)||!recv(zfd,s)) throw std::runtime_error("helper process not available"); any::Out o=any::load_out(s); if(o.rc==-9999) c.fail("the call crashes in a fresh process: %s",a.desc.c_str()); return o; }
static struct Init{ Init(){ pbt::worker_init=[]{
#ifndef PBT_TSAN
    if(zfd>=0) close(zfd); zfd=-1; zygote();
#endif
    fnft_errwarn_setprintf(hook); }; } } init_;
// make a call fail in one of several ways
static void spoil(Case&c,any::Call&a){ switch((int)c.draw(5)){ case 0: a.D=1; break; case 1: a.T[1]=a.T[0]; break; case 2: a.nul|=1; break; case 3: a.kappa=7; break; case 4: a.nul|=8|256; break; default: if(!a.noopts) switch(a.which){ case 0: a.o.ev.discretization=(fnft_nse_discretization_t)77; break; case 1: a.o.ep.discretization=(fnft_nse_discretization_t)77; break; case 2: a.o.in.discretization=(fnft_nse_discretization_t)77; break; case 3: a.o.kd.discretization=(fnft_kdv_discretization_t)77; break; default: a.o.ma.discretization=(fnft_manakov_discretization_t)77; } } a.desc+=" [spoiled]"; }
static any::Call somecall(Case&c,int which=-1){ any::Lim l; l.which=which; l.maxD=c.chance(0.15)?48:14; any::Call a=any::gen(c,l); return a; }
#ifndef PBT_TSAN
struct Env { int round=fegetround(); std::string loc=setlocale(LC_ALL,NULL); };
static void checkenv(Case&c,const Env&e,const std::string&d){ if(fegetround()!=e.round) c.fail("%s changed the rounding mode",d.c_str()); if(e.loc!=setlocale(LC_ALL,NULL)) c.fail("%s changed the locale",d.c_str()); }
LAW("C23",results_do_not_depend_on_history,9000,900000,"at least two calls, one of them with results"){
    int n=1+(int)c.draw(6); vector<any::Call> cs; vector<unsigned long> oom; bool same=c.chance(0.4); int w=same?(int)c.draw(4):-1; for(int i=0;i<n;i++){ if(i&&c.chance(0.2)){ any::Call a=cs[c.draw(i-1)]; cs.push_back(a); oom.push_back(0); continue; } any::Call a=somecall(c,w); if(c.chance(0.2)) spoil(c,a); cs.push_back(a); oom.push_back(c.chance(0.1)?1+c.draw(20):0); }
    Env env; vector<any::Out> got; bool res=false; for(int i=0;i<n;i++){ if(oom[i]){ memset(&mw,0,sizeof mw); mw.fail_at=oom[i]; mw.pattern=7; mw.on=1; } any::Out o=cs[i].run(); mw.on=0; mw.live=0; got.push_back(o); checkenv(c,env,cs[i].desc); if(o.changed.size()) c.fail("%s modified %s",cs[i].desc.c_str(),o.changed.c_str()); if(o.rc==0) res=true; }
    c.label(strf("calls%d",n)); if(n>1&&res) c.nontrivial(); std::string before; for(int i=0;i<n;i++){ if(!oom[i]){ any::Out f=fresh(c,cs[i]); std::string why; if(!got[i].same(f,&why)) c.fail("%s\nafter %s\n%s (in a fresh process)",cs[i].desc.c_str(),before.empty()?"no other call of this case":before.c_str(),why.c_str()); } before+=strf("[%d: %s%s] ",i,cs[i].desc.c_str(),oom[i]?" out of memory":""); }
    c.info("%s",before.c_str());
}
LAW("C23",repeated_calls_agree,10000,900000,"the call succeeded"){
    any::Call a=somecall(c),b=somecall(c); if(c.chance(0.2)) spoil(c,b); c.info("%s; in between: %s",a.desc.c_str(),b.desc.c_str()); any::Out r=a.run(); if(r.rc==0) c.nontrivial(); c.label(any::WN[a.which]); b.run(); std::string why; any::Out s=a.run(); if(!s.same(r,&why)) c.fail("repeated call: %s",why.c_str()); if(s.changed.size()) c.fail("modified %s",s.changed.c_str());
}
template<class T> static bool eqf(const T&a,const T&b){ return a==b; } static bool eqf(double a,double b){ return a==b||(std::isnan(a)&&std::isnan(b)); }
#define DEF(f,v) { if(!eqf(o.f,(std::decay_t<decltype(o.f)>)(v))) c.fail("default of %s is not the documented one",#f); }
LAW("C23",omitted_options_mean_the_defaults,6000,500000,"the call succeeded"){
    { auto o=fnft_nsev_default_opts(); DEF(bound_state_filtering,fnft_nsev_bsfilt_FULL) DEF(bound_state_localization,fnft_nsev_bsloc_SUBSAMPLE_AND_REFINE) DEF(niter,100) DEF(tol,-1.0) DEF(Dsub,0) DEF(discspec_type,fnft_nsev_dstype_NORMING_CONSTANTS) DEF(contspec_type,fnft_nsev_cstype_REFLECTION_COEFFICIENT) DEF(normalization_flag,1) DEF(discretization,fnft_nse_discretization_2SPLIT4B) DEF(richardson_extrapolation_flag,0) for(int i=0;i<4;i++) DEF(bounding_box[i],NAN) }
    { auto o=fnft_nsep_default_opts(); DEF(localization,fnft_nsep_loc_SUBSAMPLE_AND_REFINE) DEF(filtering,fnft_nsep_filt_AUTO) DEF(max_evals,50) for(int i=0;i<4;i++) DEF(bounding_box[i],i%2?INFINITY:-INFINITY) DEF(normalization_flag,1) DEF(discretization,fnft_nse_discretization_2SPLIT2A) DEF(floquet_range[0],-1.0) DEF(floquet_range[1],1.0) DEF(points_per_spine,2) DEF(Dsub,0) DEF(tol,-1.0) }
    { auto o=fnft_nsev_inverse_default_opts(); DEF(discretization,fnft_nse_discretization_2SPLIT2A) DEF(contspec_type,fnft_nsev_inverse_cstype_REFLECTION_COEFFICIENT) DEF(contspec_inversion_method,fnft_nsev_inverse_csmethod_DEFAULT) DEF(discspec_type,fnft_nsev_inverse_dstype_NORMING_CONSTANTS) DEF(max_iter,100) DEF(oversampling_factor,8) }
    { auto o=fnft_kdvv_default_opts(); DEF(bound_state_localization,fnft_kdvv_bsloc_GRIDSEARCH_AND_REFINE) DEF(niter,10) DEF(discspec_type,fnft_kdvv_dstype_NORMING_CONSTANTS) DEF(contspec_type,fnft_kdvv_cstype_REFLECTION_COEFFICIENT) DEF(normalization_flag,1) DEF(discretization,fnft_kdv_discretization_2SPLIT4B) DEF(richardson_extrapolation_flag,0) DEF(grid_spacing,0.0) }
    { auto o=fnft_manakovv_default_opts(); DEF(bound_state_filtering,fnft_manakovv_bsfilt_FULL) DEF(bound_state_localization,fnft_manakovv_bsloc_SUBSAMPLE_AND_REFINE) DEF(niter,10) DEF(Dsub,0) DEF(discspec_type,fnft_manakovv_dstype_NORMING_CONSTANTS) DEF(contspec_type,fnft_manakovv_cstype_REFLECTION_COEFFICIENT) DEF(normalization_flag,1) DEF(discretization,fnft_manakov_discretization_2SPLIT4B) DEF(richardson_extrapolation_flag,0) }
    any::Lim l; l.maxD=40; any::Call a=any::gen(c,l,true); if(a.which==3&&c.chance(0.3)){ a.bs=true; a.cap=3; a.desc+=" with bound states"; } c.info("%s",a.desc.c_str()); c.label(any::WN[a.which]); any::Call b=a; b.noopts=false; any::Call h=somecall(c,a.which); if(h.noopts) h.noopts=false; any::Out s; std::string why;
    // the options object of another call with different options must not influence the defaults
    any::Out r=a.run(); h.run(); s=b.run(); if(r.rc==0) c.nontrivial(); if(!s.same(r,&why)) c.fail("default options passed explicitly: %s",why.c_str()); r=a.run(); if(!r.same(s,&why)) c.fail("options omitted again: %s",why.c_str());
}
// what output arrays, new heap blocks and the stack contained before is irrelevant
static __attribute__((noinline)) void dirty(unsigned char v,size_t n){ volatile unsigned char*p=(volatile unsigned char*)alloca(n); for(size_t i=0;i<n;i++) p[i]=v+(v?i*7:0); }
LAW("C23",previous_memory_contents_do_not_matter,8000,700000,"the call succeeded"){
    any::Call a=somecall(c); c.info("%s",a.desc.c_str()); c.label(any::WN[a.which]); auto go=[&](unsigned pat,unsigned char st,cd f){ memset(&mw,0,sizeof mw); mw.pattern=pat; any::fill=f; dirty(st,200000); mw.on=1; any::Out r=a.run(); mw.on=0; mw.live=0; any::fill=api::SENT; return r; };
    cd f0(0,0),f1(1e3,-2),f2(NAN,NAN); any::Out r=go(7,0,f0); cd f=c.chance(0.5)?f1:f2; unsigned pat=c.pick({1u,12345u,99u}); any::Out s=go(pat,(unsigned char)c.draw(255),f); if(r.rc==0) c.nontrivial(); if(r.rc!=s.rc||r.K!=s.K||r.M!=s.M) c.fail("return code and counts %d,%zu,%zu become %d,%zu,%zu",r.rc,r.K,r.M,s.rc,s.K,s.M);
    // entries that are not written keep their different initial values
    auto fix=[&](vector<cd>&x,const vector<cd>&y){ for(size_t i=0;i<x.size();i++){ bool is0=!memcmp(&y[i],&f0,sizeof(cd)),isf=!memcmp(&x[i],&f,sizeof(cd)); if(is0&&isf) x[i]=y[i]; } }; fix(s.c,r.c); fix(s.b,r.b); fix(s.n,r.n); std::string why; if(!s.same(r,&why)) c.fail("with different previous memory contents: %s",why.c_str());
}
#endif
// many threads, each with its own calls
static void threads(Case&c,int rounds,size_t maxD){
    int nt=2+(int)c.draw(4); struct Job { vector<any::Call> a; vector<any::Out> r; }; vector<Job> jobs(nt); bool same=c.chance(0.4); int w=same?(int)c.draw(4):-1; std::string d; bool ok=false; for(auto&j:jobs){ int n=1+(int)c.draw(2); for(int i=0;i<n;i++){ any::Lim l; l.which=w; l.maxD=maxD; any::Call a=any::gen(c,l); if(c.chance(0.1)) spoil(c,a); j.a.push_back(a); } }
    for(auto&j:jobs) for(auto&a:j.a){ j.r.push_back(a.run()); d+="["+a.desc+"] "; ok|=j.r.back().rc==0; } c.info("%d threads: %s",nt,d.c_str()); c.label(strf("threads%d",nt)); if(ok) c.nontrivial();
    std::atomic<int> ready{0}; vector<std::string> err(nt); vector<std::thread> th; for(int t=0;t<nt;t++) th.emplace_back([&,t]{ fnft_errwarn_setprintf(hook); ready++; while(ready.load()<nt) std::this_thread::yield(); for(int k=0;k<rounds&&err[t].empty();k++) for(size_t i=0;i<jobs[t].a.size();i++){ any::Out o=jobs[t].a[i].run(); std::string why; if(!o.same(jobs[t].r[i],&why)||o.changed.size()) err[t]=jobs[t].a[i].desc+": "+why+o.changed; } }); for(auto&x:th) x.join();
    for(int t=0;t<nt;t++) if(err[t].size()) c.fail("thread %d of %d, computing concurrently: %s",t,nt,err[t].c_str());
}
#ifdef PBT_TSAN
LAW("C23",tsan_concurrent_calls_do_not_race,700,60000,"at least one call succeeded"){ threads(c,2,14); }
#else
LAW("C23",concurrent_calls_do_not_interfere,700,150000,"at least one call succeeded"){ threads(c,12,c.chance(0.2)?40:14); }
#endif
