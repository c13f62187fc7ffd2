// C20: memory safety.  Built twice: with AddressSanitizer/UBSan (this variant also accounts for every heap block and
// compares runs on differently filled heaps), and as shipped for valgrind's definedness tracking.
#include "anycall.hpp"
#include "memwrap.h"
#include <valgrind/valgrind.h>
#include <valgrind/memcheck.h>
using namespace pbt; using std::vector;
static int hook(const char*fmt,...){ return 0; }
static struct Init{ Init(){ pbt::worker_init=[]{ fnft_errwarn_setprintf(hook); }; } } init_;
#ifdef PBT_ASAN
static any::Out go(const any::Call&a,unsigned pattern,int*live){ memset(&mw,0,sizeof mw); mw.pattern=pattern; mw.on=1; any::Out r=a.run(); mw.on=0; *live=mw.live; mw.live=0; return r; }
static void law(Case&c,int which){
    any::Lim l; l.which=which; l.maxD=c.chance(0.1)?150:c.chance(0.4)?40:12; any::Call a=any::gen(c,l); c.info("%s",a.desc.c_str()); int lv; any::Out r=go(a,7,&lv); c.label(a.disc); c.label(strf("code%d",std::abs(r.rc))); if(r.rc==0&&(a.cs||a.bs||which==2)) c.nontrivial();
    if(r.changed.size()) c.fail("the call modified %s",r.changed.c_str()); if(lv) c.fail("%d memory blocks are not released by a call that returned %d",lv,r.rc);
    std::string why; any::Out s=go(a,c.chance(0.5)?1:1234567u,&lv); if(!s.same(r,&why)) c.fail("results depend on the previous content of newly allocated memory: %s",why.c_str()); if(lv) c.fail("memory blocks are not released");
}
LAW("C20",nsev_stays_in_bounds,12000,400000,"the call succeeded"){ law(c,0); }
LAW("C20",nsep_stays_in_bounds,3000,150000,"the call succeeded"){ law(c,1); }
LAW("C20",nsev_inverse_stays_in_bounds,8000,250000,"the call succeeded"){ law(c,2); }
LAW("C20",kdvv_stays_in_bounds,12000,400000,"the call succeeded"){ law(c,3); }
LAW("C20",manakovv_stays_in_bounds,8000,250000,"the call succeeded"){ law(c,4); }
#else
static void vlaw(Case&c,int which){
    any::Lim l; l.which=which; l.maxD=c.chance(0.1)?40:12; any::Call a=any::gen(c,l); c.info("%s",a.desc.c_str()); unsigned e0=VALGRIND_COUNT_ERRORS; any::Out r=a.run(); unsigned e1=VALGRIND_COUNT_ERRORS; c.label(a.disc); if(RUNNING_ON_VALGRIND&&r.rc==0) c.nontrivial();
    if(e1!=e0) c.fail("valgrind reports %u uses of uninitialized or invalid memory",e1-e0);
    auto undef=[&](const vector<cd>&v){ return v.empty()?0:(unsigned long)VALGRIND_CHECK_MEM_IS_DEFINED(v.data(),v.size()*sizeof(cd)); };
    if(undef(r.c)||undef(r.b)||undef(r.n)||VALGRIND_CHECK_MEM_IS_DEFINED(&r.K,sizeof r.K)||VALGRIND_CHECK_MEM_IS_DEFINED(&r.M,sizeof r.M)||VALGRIND_CHECK_MEM_IS_DEFINED(&r.rc,sizeof r.rc)) c.fail("part of the result (return code %d) is uninitialized data",r.rc);
}
LAW("C20",valgrind_nsev_uses_only_initialized_data,700,20000,"the call succeeded under valgrind"){ vlaw(c,0); }
LAW("C20",valgrind_nsep_uses_only_initialized_data,500,10000,"the call succeeded under valgrind"){ vlaw(c,1); }
LAW("C20",valgrind_nsev_inverse_uses_only_initialized_data,500,15000,"the call succeeded under valgrind"){ vlaw(c,2); }
LAW("C20",valgrind_kdvv_uses_only_initialized_data,700,20000,"the call succeeded under valgrind"){ vlaw(c,3); }
LAW("C20",valgrind_manakovv_uses_only_initialized_data,500,15000,"the call succeeded under valgrind"){ vlaw(c,4); }
#endif
