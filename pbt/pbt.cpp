#include "pbt.hpp"
#include <algorithm>
#include <map>
#include <unordered_set>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <cstring>
#include <ctime>
#include <cstdlib>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <fstream>
#include <sstream>

namespace pbt {
void (*worker_init)()=nullptr;
std::vector<Law>& laws(){ static std::vector<Law> l; return l; }
uint64_t fnv(const void*p,size_t n,uint64_t h){ auto c=(const unsigned char*)p; for(size_t i=0;i<n;i++){h^=c[i];h*=1099511628211ull;} return h; }
std::string strf(const char*fmt,...){ va_list ap; va_start(ap,fmt); char b[4096]; vsnprintf(b,sizeof b,fmt,ap); va_end(ap); return b; }
uint64_t Case::draw(uint64_t max){
    uint64_t v;
    if(replaying){ v = pos<in.size()? in[pos]:0; pos++; if(max!=UINT64_MAX && v>max) v%=(max+1); }
    else { v=rng.next(); if(max!=UINT64_MAX) v%=(max+1); }
    rec.push_back(v); return v;
}
static const uint64_t RB=1ull<<30;
double Case::real(double lo,double hi){ uint64_t k=draw(RB); return lo+(hi-lo)*((double)k/(double)RB); }
double Case::signed_(double mag){ uint64_t k=draw(2*RB); double m=(double)((k+1)/2)/(double)RB; return (k&1)? -m*mag: m*mag; }
void Case::info(const char*fmt,...){ va_list ap; va_start(ap,fmt); char b[4096]; vsnprintf(b,sizeof b,fmt,ap); va_end(ap); if(desc.size()<20000) desc+=b; }
void Case::fail(const char*fmt,...){ va_list ap; va_start(ap,fmt); char b[4096]; vsnprintf(b,sizeof b,fmt,ap); va_end(ap); throw FailEx{b}; }

enum Status { PASS=0, DISCARD=1, FAIL=2, CRASH=3, HANG=4 };
struct Outcome { int st=PASS; std::string msg; std::vector<uint64_t> rec; std::string desc; bool nontriv=false; std::vector<std::string> labels; };

static bool g_crashonly=false; static std::string g_program; // see checks/run.sh
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
static uint64_t case_seed(uint64_t seed,const std::string&law,uint64_t idx){ uint64_t h=fnv(law.data(),law.size()); Rng r{h^(seed*0x9E3779B97F4A7C15ull)^(idx*0xD1B54A32D192ED03ull)}; r.next(); return r.next(); }
static void run_law(const Law&l,Case&c,Outcome&o){
    try { l.fn(c); o.st=PASS; }
    catch(FailEx&e){ o.st=g_crashonly?DISCARD:FAIL; o.msg=e.msg; } // crash-only mode: another check judges the values
    catch(DiscardEx&){ o.st=DISCARD; }
    catch(std::exception&e){ o.st=FAIL; o.msg=std::string("harness exception: ")+e.what(); }
    o.rec=c.rec; o.desc=c.desc; o.nontriv=c.nontriv; o.labels=c.labels;
}
static std::string jesc(const std::string&s){ std::string r; for(unsigned char ch:s){ if(ch=='"'||ch=='\\'){r+='\\';r+=ch;} else if(ch=='\n') r+="\\n"; else if(ch<32||ch>=127) r+=' '; else r+=ch; } return r; }

static std::string g_errfile;
// evaluate one case in a forked child
using Hist=std::vector<std::pair<const Law*,uint64_t>>;
static Outcome eval_forked(const Law&l,const std::vector<uint64_t>*choices,uint64_t seed,uint64_t idx,double timeout,const Hist*hist=nullptr){
    Outcome o; int fd[2]; if(pipe(fd)) { perror("pipe"); exit(3); }
    fflush(stdout); fflush(stderr);
    pid_t p=fork();
    if(p<0){ perror("fork"); exit(3); }
    if(p==0){
        close(fd[0]); prctl(PR_SET_PDEATHSIG,SIGKILL);
        int e=open(g_errfile.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0644); if(e>=0){ dup2(e,2); dup2(e,1);} 
        if(worker_init) worker_init();
        if(hist) for(auto&h:*hist){ Case hc; hc.rng.s=case_seed(seed,h.first->name,h.second); hc.index=h.second; Outcome ho; run_law(*h.first,hc,ho); }
        Case c; if(choices){ c.replaying=true; c.in=*choices; } else c.rng.s=case_seed(seed,l.name,idx); c.index=idx;
        Outcome r; 
        // stream the record first through shared pipe after the run; on a crash the parent falls back to the input choices
        run_law(l,c,r);
        std::string s; s+=(char)r.st; auto put=[&](const std::string&x){ uint32_t n=x.size(); s.append((char*)&n,4); s+=x; };
        put(r.msg); put(r.desc); put(std::string((char*)r.rec.data(),r.rec.size()*8)); s+=(char)r.nontriv;
        size_t off=0; while(off<s.size()){ ssize_t w=write(fd[1],s.data()+off,s.size()-off); if(w<=0) break; off+=w; }
        _exit(0);
    }
    close(fd[1]); std::string s; char buf[65536]; double t0=now(); bool hang=false;
    while(true){ pollfd pf{fd[0],POLLIN,0}; int k=poll(&pf,1,200); if(k>0){ ssize_t n=read(fd[0],buf,sizeof buf); if(n<=0) break; s.append(buf,n);} else if(now()-t0>timeout){ hang=true; kill(p,SIGKILL); break; } }
    close(fd[0]); int st; waitpid(p,&st,0);
    if(hang){ o.st=HANG; o.msg="did not finish within the time limit"; if(choices) o.rec=*choices; return o; }
    if(s.empty()||!(WIFEXITED(st)&&WEXITSTATUS(st)==0)){
        o.st=CRASH; std::ifstream f(g_errfile); std::stringstream ss; ss<<f.rdbuf(); std::string e=ss.str(); if(e.size()>3000){ size_t q=e.find("ERROR:"); if(q==std::string::npos) q=e.find("runtime error"); if(q==std::string::npos) q=0; e=e.substr(q>200?q-200:0,3000);} 
        o.msg=strf("process died (%s %d): ",WIFSIGNALED(st)?"signal":"exit",WIFSIGNALED(st)?WTERMSIG(st):WEXITSTATUS(st))+e; if(choices) o.rec=*choices; return o; }
    size_t off=1; o.st=s[0]; auto get=[&](){ uint32_t n; memcpy(&n,&s[off],4); off+=4; std::string x=s.substr(off,n); off+=n; return x; };
    o.msg=get(); o.desc=get(); std::string r=get(); o.rec.resize(r.size()/8); memcpy(o.rec.data(),r.data(),r.size()); o.nontriv=s[off];
    return o;
}
static bool bad(int st){ return st==FAIL||st==CRASH||st==HANG; }

static Outcome shrink(const Law&l,Outcome best,double budget){
    double t0=now(); int evals=0; double to=std::min(l.timeout,30.0);
    auto attempt=[&](std::vector<uint64_t> v)->bool{
        if(v==best.rec) return false; if(now()-t0>budget||evals>3000) return false; evals++;
        Outcome o=eval_forked(l,&v,0,0,to); if(!bad(o.st)) return false;
        if(o.st!=FAIL) o.rec=v;
        if(o.rec.size()>best.rec.size()) return false;
        if(o.rec.size()==best.rec.size() && !std::lexicographical_compare(o.rec.begin(),o.rec.end(),best.rec.begin(),best.rec.end())) return false;
        best=o; return true; };
    bool progress=true;
    while(progress && now()-t0<budget && evals<3000){
        progress=false;
        for(size_t n=best.rec.size();n>=1;n/=2) for(size_t i=0;i+n<=best.rec.size();){ auto v=best.rec; v.erase(v.begin()+i,v.begin()+i+n); if(attempt(v)) progress=true; else i+=n; if(now()-t0>budget) break; }
        for(size_t n=best.rec.size();n>=1;n/=2) for(size_t i=0;i+n<=best.rec.size();i+=n){ auto v=best.rec; bool nz=false; for(size_t j=i;j<i+n;j++){ nz|=v[j]!=0; v[j]=0; } if(nz&&attempt(v)) progress=true; if(now()-t0>budget) break; }
        for(size_t i=0;i<best.rec.size();i++){ // minimize each
            uint64_t lo=0; int it=0; while(i<best.rec.size() && best.rec[i]>lo && it++<40){ uint64_t mid=lo+(best.rec[i]-lo)/2; auto v=best.rec; v[i]=mid; if(attempt(v)) progress=true; else lo=mid+1; if(now()-t0>budget) break; }
            if(now()-t0>budget) break;
        }
    }
    return best;
}

struct Known { std::string prop,law,what; std::vector<uint64_t> choices; };
static std::string jget(const std::string&s,const std::string&k){ size_t p=s.find("\""+k+"\""); if(p==std::string::npos) return ""; p=s.find(':',p); p=s.find_first_not_of(" ",p+1); if(s[p]=='"'){ std::string r; for(p++;p<s.size()&&s[p]!='"';p++){ if(s[p]=='\\') p++; r+=s[p]; } return r; } if(s[p]=='['){ return s.substr(p+1,s.find(']',p)-p-1);} return s.substr(p,s.find_first_of(",}",p)-p); }
static std::vector<uint64_t> parse_list(const std::string&s){ std::vector<uint64_t> v; std::stringstream ss(s); std::string t; while(std::getline(ss,t,',')) if(!t.empty()) v.push_back(strtoull(t.c_str(),0,10)); return v; }

static std::string write_replay(const std::string&dir,const Law&l,const Outcome&o,uint64_t seed,uint64_t idx){
    mkdir(dir.c_str(),0755); uint64_t h=fnv(o.rec.data(),o.rec.size()*8,fnv(l.name.data(),l.name.size()));
    std::string f=dir+"/"+l.prop+"-"+l.name+strf("-%08x.json",(unsigned)h); std::ofstream out(f);
    out<<"{\"property\":\""<<l.prop<<"\",\"program\":\""<<g_program<<"\",\"law\":\""<<l.name<<"\",\"choices\":["; for(size_t i=0;i<o.rec.size();i++) out<<(i?",":"")<<o.rec[i];
    out<<"],\n \"origin_seed\":"<<seed<<",\"origin_index\":"<<idx<<",\n \"message\":\""<<jesc(o.msg)<<"\",\n \"case\":\""<<jesc(o.desc)<<"\"}\n"; return f;
}
struct Shm { volatile uint64_t next; struct W { volatile int64_t cur; volatile double start; } w[64]; };
} // namespace

using namespace pbt;
int main(int argc,char**argv){
    signal(SIGPIPE,SIG_IGN);
    std::string prop, replay, only, outdir="/verif"; bool list=false; long override_n=-1; int nw=8; bool nofork=false; long one=-1;
    if(getenv("VERIF_DIR")) outdir=getenv("VERIF_DIR");
    for(int i=1;i<argc;i++){ std::string a=argv[i]; if(a=="--replay") replay=argv[++i]; else if(a=="--law") only=argv[++i]; else if(a=="--list") list=true; else if(a=="-n") override_n=atol(argv[++i]); else if(a=="-j") nw=atoi(argv[++i]); else if(a=="--nofork") nofork=true; else if(a=="--index") one=atol(argv[++i]); else prop=a; }
    uint64_t seed=getenv("VERIF_SEED")?strtoull(getenv("VERIF_SEED"),0,10):1; std::string tier=getenv("VERIF_TIER")?getenv("VERIF_TIER"):"quick"; if(tier!="thorough") tier="quick";
    char ef[]="/tmp/pbt_err_XXXXXX"; int efd=mkstemp(ef); if(efd>=0) close(efd); g_errfile=ef;
    struct Rm { ~Rm(){ unlink(g_errfile.c_str()); } } rm;
    auto& L=laws(); g_crashonly=getenv("PBT_CRASHONLY"); g_program=prop; if(getenv("PBT_PROGRAM")) g_program=getenv("PBT_PROGRAM");
    double scale=getenv("PBT_SCALE")?atof(getenv("PBT_SCALE")):1; if(getenv("PBT_AS")){ prop=getenv("PBT_AS"); for(auto&l:L) l.prop=prop; }
    if(list){ for(auto&l:L) printf("%s %s %d %d\n",l.prop.c_str(),l.name.c_str(),l.quick,l.thorough); return 0; }
    if(!replay.empty()){
        std::ifstream f(replay); std::stringstream ss; ss<<f.rdbuf(); std::string s=ss.str(); std::string ln=jget(s,"law"); auto ch=parse_list(jget(s,"choices"));
        if(s.find("\"history\"")!=std::string::npos){ auto hi=parse_list(jget(s,"history")); std::stringstream hl(jget(s,"history_laws")); Hist h; std::string n; for(size_t k=0;std::getline(hl,n,',')&&k<hi.size();k++) for(auto&l:L) if(l.name==n) h.push_back({&l,hi[k]}); uint64_t sd=strtoull(jget(s,"seed").c_str(),0,10),ix=strtoull(jget(s,"index").c_str(),0,10); for(auto&l:L) if(l.name==ln){ Outcome o=eval_forked(l,nullptr,sd,ix,120,&h); printf("%s\ncase: %s\n",o.st==PASS?"PASS":o.st==DISCARD?"DISCARD":("FAIL: "+o.msg).c_str(),o.desc.c_str()); if(bad(o.st)) printf("VIOLATION property=%s replay=%s\n",l.prop.c_str(),replay.c_str()); return bad(o.st)?1:0; } }
        for(auto&l:L) if(l.name==ln){ Outcome o; if(nofork){ Case c; c.replaying=true; c.in=ch; if(worker_init) worker_init(); run_law(l,c,o);} else o=eval_forked(l,&ch,0,0,l.timeout);
            printf("%s\ncase: %s\n",o.st==PASS?"PASS":o.st==DISCARD?"DISCARD":("FAIL: "+o.msg).c_str(),o.desc.c_str()); if(bad(o.st)) printf("VIOLATION property=%s replay=%s\n",l.prop.c_str(),replay.c_str()); return bad(o.st)?1:0; }
        fprintf(stderr,"no such law %s\n",ln.c_str()); return 2;
    }
    std::vector<Law> act; for(auto&l:L) if((prop.empty()||l.prop==prop)&&(only.empty()||l.name==only)) act.push_back(l);
    if(act.empty()){ fprintf(stderr,"no laws for %s\n",prop.c_str()); return 2; }
    if(one>=0){ for(auto&l:act){ if(nofork){ if(worker_init) worker_init(); Case c; c.rng.s=case_seed(seed,l.name,one); c.index=one; Outcome o; run_law(l,c,o); printf("%s st=%d %s\n case: %s\n",l.name.c_str(),o.st,o.msg.c_str(),o.desc.c_str()); continue;} Outcome o=eval_forked(l,nullptr,seed,one,l.timeout); printf("%s st=%d %s\n case: %s\n",l.name.c_str(),o.st,o.msg.c_str(),o.desc.c_str()); } return 0; }
    double t0=now(); double cap=tier=="quick"?600:6*3600; if(getenv("PBT_CAP")) cap=atof(getenv("PBT_CAP"));
    // ---- known findings
    std::vector<std::string> kf_lines; std::vector<Known> known;
    { std::ifstream f(outdir+"/known_findings.jsonl"); std::string s; while(std::getline(f,s)) if(!s.empty()&&s[0]=='{'&&jget(s,"kind")=="finding"&&jget(s,"property")==act[0].prop) known.push_back({jget(s,"property"),jget(s,"law"),jget(s,"what"),parse_list(jget(s,"choices"))}); }
    for(auto&k:known) for(auto&l:L) if(l.name==k.law){ Outcome o=eval_forked(l,&k.choices,0,0,l.timeout); if(bad(o.st)){ printf("KNOWN-FINDING: property=%s %s\n",k.prop.c_str(),k.what.c_str()); kf_lines.push_back(k.what);} else printf("note: listed finding no longer fails: %s\n",k.what.c_str()); }
    auto is_known=[&](const Law&l,const Outcome&o){ for(auto&k:known) if(k.law==l.name&&k.choices==o.rec) return true; return false; };
    // ---- schedule: interleave the laws proportionally
    std::vector<std::pair<double,std::pair<int,int>>> sched; std::vector<int> ncase(act.size());
    for(size_t i=0;i<act.size();i++){ int n=tier=="quick"?act[i].quick:act[i].thorough; if(override_n>=0) n=override_n; else n=(int)std::ceil(n*scale); ncase[i]=n; for(int k=0;k<n;k++) sched.push_back({(k+0.5)/n,{(int)i,k}}); }
    std::sort(sched.begin(),sched.end());
    Shm*sh=(Shm*)mmap(0,sizeof(Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset((void*)sh,0,sizeof *sh);
    std::vector<char> stopped_local(act.size(),0); char*stopped=(char*)mmap(0,act.size()+1,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset(stopped,0,act.size()+1);
    if(nw>60) nw=60; std::vector<pid_t> pid(nw,0); std::vector<int> rfd(nw,-1); std::vector<std::string> acc(nw);
    auto spawn=[&](int w){ int fd[2]; if(pipe(fd)) exit(3); fflush(stdout); pid_t p=fork(); if(p<0) exit(3); if(p==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); close(fd[0]); for(int k=0;k<nw;k++) if(rfd[k]>=0) close(rfd[k]);
            int e=open("/dev/null",O_WRONLY); dup2(e,2); dup2(e,1); if(worker_init) worker_init();
            while(true){ uint64_t i=__sync_fetch_and_add(&sh->next,1); if(i>=sched.size()||now()-t0>cap) break; int li=sched[i].second.first; uint64_t idx=sched[i].second.second; if(stopped[li]) continue;
                sh->w[w].start=now(); sh->w[w].cur=(int64_t)i; Case c; c.rng.s=case_seed(seed,act[li].name,idx); c.index=idx; Outcome o; run_law(act[li],c,o);
                if(bad(o.st)) stopped[li]=1;
                std::string line=strf("%d %llu %d %llx %d",li,(unsigned long long)idx,o.st,(unsigned long long)fnv(o.rec.data(),o.rec.size()*8),(int)o.nontriv); for(auto&s:o.labels) line+=" "+s.substr(0,60); if(line.size()>3000) line.resize(3000);
                line+="\n"; if(o.nontriv&&idx<40&&o.desc.size()){ std::string d=o.desc.substr(0,600); for(auto&ch:d) if(ch=='\n') ch=' '; line+=strf("S %d ",li)+d+"\n"; }
                size_t off=0; while(off<line.size()){ ssize_t k=write(fd[1],line.data()+off,line.size()-off); if(k<=0) _exit(9); off+=k; } sh->w[w].cur=-1; }
            _exit(0); }
        close(fd[1]); pid[w]=p; rfd[w]=fd[0]; sh->w[w].cur=-1; };
    for(int w=0;w<nw;w++) spawn(w);
    struct Stat { uint64_t eval=0,disc=0; std::unordered_set<uint64_t> nt; std::map<std::string,uint64_t> lab; std::vector<std::string> samples; };
    std::vector<Stat> S(act.size()); std::map<int,std::pair<uint64_t,int>> fails; // law-> idx,status
    std::vector<std::vector<std::pair<int,uint64_t>>> done(nw); std::map<int,std::vector<std::pair<int,uint64_t>>> fhist; // cases the failing process had run before
    auto note_fail=[&](int li,uint64_t idx,int st,int w){ stopped[li]=1; if(!fails.count(li)||fails[li].first>idx){ fails[li]={idx,st}; auto h=done[w]; if(!h.empty()&&h.back()==std::make_pair(li,idx)) h.pop_back(); if(h.size()>400) h.erase(h.begin(),h.end()-400); fhist[li]=h; } };
    auto handle=[&](const std::string&line,int w){ if(line.size()>2&&line[0]=='S'){ std::stringstream ss(line.substr(2)); int li; ss>>li; std::string rest; std::getline(ss,rest); if(S[li].samples.size()<4) S[li].samples.push_back(rest); return; }
        std::stringstream ss(line); int li,st,nt; unsigned long long idx,h; std::string hs; if(!(ss>>li>>idx>>st>>hs>>nt)) return; h=strtoull(hs.c_str(),0,16); auto&s=S[li]; s.eval++; { auto&d=done[w]; d.push_back({li,idx}); if(d.size()>4000) d.erase(d.begin(),d.begin()+3000); } if(st==DISCARD){ s.disc++; return; } if(nt) s.nt.insert(h); std::string l; while(ss>>l) s.lab[l]++; if(bad(st)) note_fail(li,idx,st,w); };
    int alive=nw;
    while(alive){ std::vector<pollfd> pf; std::vector<int> who; for(int w=0;w<nw;w++) if(rfd[w]>=0){ pf.push_back({rfd[w],POLLIN,0}); who.push_back(w);} poll(pf.data(),pf.size(),500);
        for(size_t k=0;k<pf.size();k++){ int w=who[k]; if(pf[k].revents){ char buf[65536]; ssize_t n=read(rfd[w],buf,sizeof buf); if(n>0){ acc[w].append(buf,n); size_t p; while((p=acc[w].find('\n'))!=std::string::npos){ handle(acc[w].substr(0,p),w); acc[w].erase(0,p+1);} continue; }
                close(rfd[w]); rfd[w]=-1; int st; waitpid(pid[w],&st,0); bool ok=WIFEXITED(st)&&WEXITSTATUS(st)==0; acc[w].clear();
                if(ok){ alive--; continue; }
                int64_t cur=sh->w[w].cur; if(cur>=0){ auto&sc=sched[cur].second; S[sc.first].eval++; note_fail(sc.first,sc.second,CRASH,w);} done[w].clear(); spawn(w); }
            else { int64_t cur=sh->w[w].cur; if(cur>=0){ double lim=act[sched[cur].second.first].timeout; if(now()-sh->w[w].start>lim){ kill(pid[w],SIGKILL);} } } }
    }
    double t_search=now()-t0;
    // ---- failures: shrink, replay, report
    int nviol=0; std::string viol_json; int unrepro=0;
    double sb=tier=="quick"?60:300; if(fails.size()>1) sb=std::max(8.0,sb*1.5/fails.size());
    for(auto&kv:fails){ const Law&l=act[kv.first]; Outcome o=eval_forked(l,nullptr,seed,kv.second.first,l.timeout); bool rep=bad(o.st);
        if(!rep){ for(int k=0;k<4&&!rep;k++){ o=eval_forked(l,nullptr,seed,kv.second.first,l.timeout); rep=bad(o.st);} }
        if(!rep&&!fhist[kv.first].empty()){ // the outcome may depend on earlier cases in the same process
            Hist h; for(auto&x:fhist[kv.first]) h.push_back({&act[x.first],x.second}); double tt=now(); o=eval_forked(l,nullptr,seed,kv.second.first,120,&h); if(bad(o.st)&&o.st!=HANG){ bool pr=true; while(pr&&now()-tt<sb){ pr=false; for(size_t n=h.size();n>=1;n/=2) for(size_t i=0;i+n<=h.size()&&now()-tt<sb;){ Hist g=h; g.erase(g.begin()+i,g.begin()+i+n); Outcome q=eval_forked(l,nullptr,seed,kv.second.first,60,&g); if(bad(q.st)&&q.st!=HANG){ h=g; o=q; pr=true; } else i+=n; } }
                int again=0; for(int k=0;k<3;k++){ Outcome q=eval_forked(l,nullptr,seed,kv.second.first,60,&h); again+=bad(q.st)&&q.st!=HANG; }
                if(again>=2){ mkdir((outdir+"/replays").c_str(),0755); std::string f=outdir+"/replays/"+l.prop+"-"+l.name+strf("-history-%llu-%llu.json",(unsigned long long)seed,(unsigned long long)kv.second.first); std::ofstream out(f); out<<"{\"property\":\""<<l.prop<<"\",\"law\":\""<<l.name<<"\",\"seed\":"<<seed<<",\"index\":"<<kv.second.first<<",\"history_laws\":["; for(size_t i=0;i<h.size();i++) out<<(i?",":"")<<h[i].first->name; out<<"],\"history\":["; for(size_t i=0;i<h.size();i++) out<<(i?",":"")<<h[i].second; out<<"],\n \"message\":\""<<jesc(o.msg)<<"\",\n \"case\":\""<<jesc(o.desc)<<"\"}\n"; out.close(); nviol++; printf("%s: %s\n  case (after %zu other calls): %s\nVIOLATION property=%s replay=%s\n",l.name.c_str(),o.msg.c_str(),h.size(),o.desc.c_str(),l.prop.c_str(),f.c_str()); fflush(stdout); viol_json+=(viol_json.empty()?"":",")+std::string("{\"law\":\"")+l.name+"\",\"replay\":\""+f+"\",\"message\":\""+jesc(o.msg.substr(0,500))+"\"}"; continue; } } }
        if(!rep&&l.prop=="C23"&&kv.second.second==FAIL){ // bit-identity failed once in a deterministic library: that is the violation
            Outcome q=o; q.st=FAIL; q.msg="results differed once and agreed when the case was repeated"; std::string f=write_replay(outdir+"/replays",l,q,seed,kv.second.first); nviol++; printf("%s: %s\n  case: %s\nVIOLATION property=%s replay=%s\n",l.name.c_str(),q.msg.c_str(),q.desc.c_str(),l.prop.c_str(),f.c_str()); fflush(stdout); viol_json+=(viol_json.empty()?"":",")+std::string("{\"law\":\"")+l.name+"\",\"replay\":\""+f+"\",\"message\":\""+q.msg+"\"}"; continue; }
        if(!rep){ fprintf(stderr,"note: %s case %llu failed once (status %d) but does not reproduce\n",l.name.c_str(),(unsigned long long)kv.second.first,kv.second.second); unrepro++; continue; }
        if(o.st!=FAIL){ // crash/hang: recover the choice sequence by recording in a run that is allowed to die
            // record through a replayable prefix: draws are a pure function of the rng for the generator part
            Rng r{case_seed(seed,l.name,kv.second.first)}; o.rec.clear(); for(int k=0;k<20000;k++) o.rec.push_back(r.next());
        }
        Outcome b=o.st==HANG? o: shrink(l,o,sb);
        int again=0; if(o.st==HANG) again=3; else for(int k=0;k<3;k++) again+=bad(eval_forked(l,&b.rec,0,0,l.timeout).st);
        if(again<2){ b=o; again=0; for(int k=0;k<5;k++) again+=bad(eval_forked(l,&b.rec,0,0,l.timeout).st); if(again<2){ fprintf(stderr,"note: %s case %llu is not reproducible\n",l.name.c_str(),(unsigned long long)kv.second.first); unrepro++; continue; } }
        Outcome fin; if(b.st==HANG) fin=b; else fin=eval_forked(l,&b.rec,0,0,l.timeout); if(bad(fin.st)){ if(fin.rec.empty()) fin.rec=b.rec; b=fin; }
        if(is_known(l,b)) { printf("KNOWN-FINDING: property=%s %s (again)\n",l.prop.c_str(),l.name.c_str()); continue; }
        std::string f=write_replay(outdir+"/replays",l,b,seed,kv.second.first); nviol++;
        printf("%s: %s\n  case: %s\n",l.name.c_str(),b.msg.c_str(),b.desc.c_str()); printf("VIOLATION property=%s replay=%s\n",l.prop.c_str(),f.c_str()); fflush(stdout);
        viol_json+=(viol_json.empty()?"":",")+std::string("{\"law\":\"")+l.name+"\",\"replay\":\""+f+"\",\"message\":\""+jesc(b.msg.substr(0,500))+"\"}";
    }
    // ---- evidence
    std::string P=act[0].prop; mkdir((outdir+"/evidence").c_str(),0755); uint64_t ev=0,nt=0,disc=0; for(auto&s:S){ ev+=s.eval; nt+=s.nt.size(); disc+=s.disc; }
    if(only.empty()||getenv("PBT_EVIDENCE")){ std::ofstream out(getenv("PBT_EVFILE")?getenv("PBT_EVFILE"):outdir+"/evidence/"+P+".json"); out<<"{\n\"property\":\""<<P<<"\",\"tier\":\""<<tier<<"\",\"seed\":"<<seed<<",\"level\":\"exploration\",\n\"coverage\":{\"evaluations\":"<<ev<<",\"distinct_nontrivial\":"<<nt<<",\"discarded\":"<<disc<<",\n\"rule\":\"Cases are choice sequences drawn from VERIF_SEED per law; distinct = different choice sequence. Non-trivial per law: ";
        for(auto&l:act) out<<l.name<<": "<<jesc(l.rule)<<"; "; out<<"\",\n\"laws\":[";
        for(size_t i=0;i<act.size();i++){ out<<(i?",\n":"\n")<<" {\"law\":\""<<act[i].name<<"\",\"planned\":"<<ncase[i]<<",\"evaluations\":"<<S[i].eval<<",\"discarded\":"<<S[i].disc<<",\"distinct_nontrivial\":"<<S[i].nt.size()<<",\"classes\":{"; bool f=true; for(auto&kv:S[i].lab){ out<<(f?"":",")<<"\""<<jesc(kv.first)<<"\":"<<kv.second; f=false; } out<<"}}"; }
        out<<"],\n\"samples\":["; bool f=true; for(size_t i=0;i<act.size();i++) for(size_t k=0;k<S[i].samples.size()&&k<2;k++){ out<<(f?"\n ":",\n ")<<"\""<<act[i].name<<": "<<jesc(S[i].samples[k])<<"\""; f=false; } out<<"]},\n";
        out<<"\"known_findings\":"<<kf_lines.size()<<",\"unreproducible\":"<<unrepro<<",\"violations\":"<<nviol<<",\"violation_list\":["<<viol_json<<"],\"wall_s\":"<<now()-t0<<"}\n"; }
    printf("%s %s seed=%llu: %llu cases, %llu distinct non-trivial, %llu discarded, %d violation(s), search %.1fs, total %.1fs\n",P.c_str(),tier.c_str(),(unsigned long long)seed,(unsigned long long)ev,(unsigned long long)nt,(unsigned long long)disc,nviol,t_search,now()-t0);
    for(size_t i=0;i<act.size();i++) if(getenv("PBT_VERBOSE")) { printf("  %-40s eval %llu nt %zu disc %llu :",act[i].name.c_str(),(unsigned long long)S[i].eval,S[i].nt.size(),(unsigned long long)S[i].disc); for(auto&kv:S[i].lab) printf(" %s=%llu",kv.first.c_str(),(unsigned long long)kv.second); printf("\n"); }
    return nviol?1:0;
}
