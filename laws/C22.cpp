// C22: a failing memory request is reported cleanly
#include "anycall.hpp"
#include "memwrap.h"
using namespace pbt; using std::vector;
static thread_local int messages=0;
static int hook(const char*fmt,...){ messages++; return 0; }
static struct Init{ Init(){ pbt::worker_init=[]{ fnft_errwarn_setprintf(hook); }; } } init_;
struct Run { any::Out o; unsigned long count,failed; int live; };
static Run go(const any::Call&a,unsigned long fail_at,int rest,unsigned pattern){ memset(&mw,0,sizeof mw); mw.fail_at=fail_at; mw.fail_rest=rest; mw.pattern=pattern; mw.on=1; Run r; r.o=a.run(); mw.on=0; r.count=mw.count; r.failed=mw.failed; r.live=mw.live; mw.live=0; return r; }
static void law(Case&c,int which){
    any::Lim l; l.which=which; l.maxD=c.chance(0.2)?64:16; any::Call a=any::gen(c,l); c.info("%s",a.desc.c_str()); Run r0=go(a,0,0,7); std::string why; if(r0.o.changed.size()) c.fail("%s: call without failures modified %s",a.desc.c_str(),r0.o.changed.c_str()); c.info("%s",a.desc.c_str()); if(r0.live) c.fail("%d memory blocks are not released by a call that returned %d",r0.live,r0.o.rc); if(r0.count==0){ c.label("no allocations"); return; }
    unsigned long at=1+c.draw(c.chance(0.3)?std::min<uint64_t>(r0.count-1,15):r0.count-1); int rest=c.chance(0.3); c.info("%s; memory request %lu of %lu fails%s",a.desc.c_str(),at,r0.count,rest?" and all later ones":""); messages=0; Run r=go(a,at,rest,7); if(!r.failed) c.fail("the call made only %lu instead of %lu memory requests when repeated",r.count,r0.count);
    c.label(any::WN[which]); c.nontrivial(); if(r.o.changed.size()) c.fail("the failed call modified %s",r.o.changed.c_str()); if(r.o.rc==0&&!r.o.same(r0.o,&why)) c.fail("success reported, but %s",why.c_str()); if(r.o.rc==0&&messages==0&&!r.o.same(r0.o)) c.fail("no error"); c.label(strf("code%d",std::abs(r.o.rc))); if(r.live) c.fail("%d memory blocks are not released after the failure (return code %d)",r.live,r.o.rc);
    Run r2=go(a,0,0,7); if(!r2.o.same(r0.o,&why)) c.fail("repeating the call with enough memory gives different results: %s",why.c_str()); if(r2.live) c.fail("memory leaked later");
}
LAW("C22",nsev_out_of_memory,12000,800000,"a memory request was made to fail"){ law(c,0); }
LAW("C22",nsep_out_of_memory,3000,500000,"a memory request was made to fail"){ law(c,1); }
LAW("C22",nsev_inverse_out_of_memory,8000,600000,"a memory request was made to fail"){ law(c,2); }
LAW("C22",kdvv_out_of_memory,10000,600000,"a memory request was made to fail"){ law(c,3); }
LAW("C22",manakovv_out_of_memory,8000,500000,"a memory request was made to fail"){ law(c,4); }
