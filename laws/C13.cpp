// C13: KdV bound states, norming constants and residues
#include "nse_bs.hpp"
using namespace pbt; using namespace api; using std::vector; using ref::M2;
static QuietReg qr;
static const ld TINY=1e-15L;
static bool vanilla(int d){ return d<28; }
// the discretization that the search, Newton's method and the norming constants use
static int base(int d){ int o=d<28?0:28,e=d%28; if(ref::is_slow(e)) return d; return o+(e>=fnft_nse_discretization_4SPLIT4A&&e<=fnft_nse_discretization_4SPLIT4B? fnft_nse_discretization_CF4_2: fnft_nse_discretization_BO); }
static bool staircase(int d){ int e=d%28; return e==fnft_nse_discretization_BO||e==fnft_nse_discretization_CF4_2; }
static ld areal(const vector<cd>&q,const double*T,int d,ld eta){ return std::real(ref::kdv_ab(d,q,T,cl(0,eta)).a); }
// number of eigenvalues above i*eta of a staircase potential: zeros of the solution that decays to the left (Sturm oscillation)
static int above(const vector<cd>&q,const double*T,int d,ld eta){ vector<M2> S; ref::kdv_steps(d,q,((ld)T[1]-T[0])/(q.size()-1),cl(0,eta),S); ld al=1,be=0,prev=1; int n=0; for(auto&M:S){ ld x=std::real(M[0])*al+std::real(M[1])*be,y=std::real(M[2])*al+std::real(M[3])*be; ld s=fabsl(x)+fabsl(y); al=x/s; be=y/s; ld f=al+be; if(f!=0&&f*prev<0) n++; if(f!=0) prev=f; } if(al*prev<0) n++; return n; }
// all eigenvalues in decreasing order, by bisection of the counting function
static vector<ld> eigen(const vector<cd>&q,const double*T,int d,ld top){ int N=above(q,T,d,1e-7L*top); vector<ld> r; for(int k=1;k<=N;k++){ ld lo=1e-7L*top,hi=top; for(int i=0;i<64;i++){ ld m=(lo+hi)/2; if(above(q,T,d,m)>=k) lo=m; else hi=m; } r.push_back((lo+hi)/2); } return r; }
// b by matching the solutions that decay to the left and to the right where they agree best; a'
struct BA { ld b; cl ap; ld mis; };
static BA refb(int d,const vector<cd>&q,const double*T,ld eta){
    vector<M2> S; ld eps=((ld)T[1]-T[0])/(q.size()-1); cl xi(0,eta); ref::kdv_steps(d,q,eps,xi,S); size_t N=S.size(); ld t0=T[0]-eps/2,t1=T[1]+eps/2; vector<cl> f1(N+1),f2(N+1); f1[0]=expl(eta*t0); f2[0]=0; for(size_t n=0;n<N;n++){ f1[n+1]=S[n][0]*f1[n]+S[n][1]*f2[n]; f2[n+1]=S[n][2]*f1[n]+S[n][3]*f2[n]; }
    cl p1=0,p2=expl(-eta*t1); BA r; r.mis=1e99L; r.b=0; for(size_t n=N;;n--){ if(n<N&&n>0){ cl den=std::norm(p1)+std::norm(p2),num=f1[n]*std::conj(p1)+f2[n]*std::conj(p2); cl b=num/den; ld m=std::sqrt((std::norm(f1[n]-b*p1)+std::norm(f2[n]-b*p2))/(std::norm(f1[n])+std::norm(f2[n]))); if(m<r.mis){ r.mis=m; r.b=std::real(b); } } if(!n) break; const M2&M=S[n-1]; cl dt=M[0]*M[3]-M[1]*M[2]; cl u1=(M[3]*p1-M[1]*p2)/dt,u2=(M[0]*p2-M[2]*p1)/dt; p1=u1;p2=u2; }
    ld h=1e-4L*eta; r.ap=cl(0,-1)*((8*(areal(q,T,d,eta+h)-areal(q,T,d,eta-h))-(areal(q,T,d,eta+2*h)-areal(q,T,d,eta-2*h)))/(12*h)); return r; }
// potential with wells (and bumps of the other sign)
static void wells(Case&c,Kdvv&n,size_t D,double size,bool smooth){
    gen::window(c,n.T); double eps=(n.T[1]-n.T[0])/(D-1),len=D*eps; n.q.assign(D,0.0); int k=smooth?0:(int)c.draw(2); double lim=std::min(0.3/(eps*eps),size*size/(len*len));
    if(k==0||smooth){ int np=(int)c.range(1,3); for(int p=0;p<np;p++){ double ctr=c.real(0.3,0.7),w=c.real(0.06,0.2),A=lim*c.real(0.2,1); if(np>1&&c.chance(0.35)) A=-A; for(size_t i=0;i<D;i++){ double x=((double)i+0.5)/D; n.q[i]+=A*std::exp(-(x-ctr)*(x-ctr)/w/w); } } double mx=0; for(auto&x:n.q) mx=std::max(mx,fabs(x.real())); if(mx>lim) for(auto&x:n.q) x*=lim/mx; }
    else if(k==1){ size_t a=c.draw(D-1),b=a+1+c.draw(D-1-a); double A=lim*c.real(0.1,1); for(size_t i=a;i<b&&i<D;i++) n.q[i]=A; if(c.chance(0.4)) for(size_t i=0;i<D;i++) if(i<a||i>=b) n.q[i]=-A*0.3; }
    else for(auto&x:n.q) x=lim*c.real(-0.5,1);
}
static void show(Case&c,const Kdvv&n){ c.info("disc=%s D=%zu T=[%.17g,%.17g] loc=%d spacing=%g niter=%zu type=%d norm=%d cap=%zu q=%s",ref::kdv_name(n.o.discretization),n.q.size(),n.T[0],n.T[1],n.o.bound_state_localization,n.o.grid_spacing,(size_t)n.o.niter,n.o.discspec_type,n.o.normalization_flag,n.cap,gen::show(n.q).c_str()); }
// grid search finds exactly the eigenvalues of the staircase potential, counted by Sturm oscillation theory
LAW("C13",kdv_grid_search_finds_all_eigenvalues,6000,150000,"at least one eigenvalue"){
    Kdvv n; int disc; do disc=(int)c.draw(55); while(!staircase(base(disc))); int bd=base(disc); n.o.discretization=(fnft_kdv_discretization_t)disc; bool cf=bd%28!=fnft_nse_discretization_BO; size_t D=gen::len(c,cf?3:2,140); if(cf) D|=1; wells(c,n,D,c.chance(0.5)?c.logreal(1,18):c.real(6,24),cf); double mx=0; for(auto&x:n.q) mx=std::max(mx,x.real()); double top=std::sqrt(mx)*(cf?1.4:1.0); n.bs=true; n.cap=D; n.o.bound_state_localization=fnft_kdvv_bsloc_GRIDSEARCH_AND_REFINE; n.o.normalization_flag=!c.chance(0.35); n.o.niter=25+c.draw(20);
    if(!(mx>0)){ n.o.grid_spacing=c.logreal(1e-3,10); show(c,n); if(n.run()) c.fail("error %d",n.rc); if(!cf&&n.K) c.fail("%zu bound states although the potential is nowhere positive",n.K); c.label("no well"); return; }
    auto ev=eigen(n.q,n.T,bd,top); double gap=top; for(size_t k=0;k+1<ev.size();k++) gap=std::min<double>(gap,ev[k]-ev[k+1]); double low=ev.empty()?top:(double)ev.back(); if(!ev.empty()&&low<0.005*top) c.discard(); if(gap<0.02*top) c.discard(); n.o.grid_spacing=std::min({gap*c.real(0.05,0.45),0.12*top,low*(c.chance(0.3)?3.0:0.7)}); show(c,n);
    if(n.run()) c.fail("error %d for valid input",n.rc); c.label(strf("K=%zu",ev.size())); c.label(ref::kdv_name(disc)); if(!ev.empty()) c.nontrivial();
    double len=(n.T[1]-n.T[0])*D/(D-1);
    // every reported value is an eigenvalue and every eigenvalue is reported once
    vector<int> hit(ev.size(),0); for(size_t k=0;k<n.K;k++){ cd l=n.B[k]; size_t j=0; for(size_t i=1;i<ev.size();i++) if(fabsl(ev[i]-l.imag())<fabsl(ev[j]-l.imag())) j=i; if(fabs(l.real())>1e-12*top) c.fail("bound state %zu = %g%+gi is not on the imaginary axis",k,l.real(),l.imag()); double e=ev.empty()?1e9:(double)fabsl(ev[j]-l.imag()); if(!(e<=1e-9*top*(1+len*top*0.1))) c.fail("reported bound state %.12gi, the closest of the %zu eigenvalues is %.12Lgi",l.imag(),ev.size(),ev.empty()?0.0L:ev[j]); if(hit[j]++) c.fail("eigenvalue %.12Lgi reported twice",ev[j]); }
    if(n.K!=ev.size()) c.fail("%zu bound states reported, the discretized problem has %zu (grid spacing %g, smallest gap %g, lowest %g)",n.K,ev.size(),n.o.grid_spacing,gap,low);
    // a short array
    if(ev.size()>=2&&c.chance(0.3)){ Kdvv s=n; s.cap=1+c.draw(ev.size()-2); if(s.run()) c.fail("error %d with room for %zu of %zu",s.rc,s.cap,ev.size()); if(s.K!=s.cap) c.fail("room for %zu of %zu bound states, %zu returned",s.cap,ev.size(),s.K); for(size_t k=0;k<s.K;k++){ bool f=false; for(size_t i=0;i<n.K;i++) f|=std::abs(n.B[i]-s.B[k])<1e-9*top; if(!f) c.fail("with a short array %gi was returned, which is not a bound state",s.B[k].imag()); for(size_t i=0;i<k;i++) if(std::abs(s.B[i]-s.B[k])<1e-9*top) c.fail("a bound state was returned twice"); } for(size_t k=s.cap;k<s.B.size();k++) if(s.B[k]!=SENT) c.fail("wrote beyond the array"); c.label("short"); }
    // without refinement the values are at least within one grid interval
    if(c.chance(0.2)){ Kdvv s=n; s.o.niter=0; if(s.run()) c.fail("error %d with niter=0",s.rc); if(s.K!=n.K) c.fail("%zu bound states without refinement, %zu with",s.K,n.K); for(size_t k=0;k<s.K;k++) if(!(std::abs(s.B[k]-n.B[k])<=n.o.grid_spacing)) c.fail("unrefined bound state %gi is further than a grid interval from %gi",s.B[k].imag(),n.B[k].imag()); c.label("niter0"); }
}
// all discretizations: eigenvalues, norming constants and residues of resolved smooth potentials against the reference; Newton from nearby guesses
LAW("C13",kdv_bound_states_and_norming_constants_match_reference,1200,80000,"at least one well-conditioned bound state compared"){
    Kdvv n; int disc=(int)c.draw(55); int bd=base(disc); n.o.discretization=(fnft_kdv_discretization_t)disc; bool cplx=bd%28==fnft_nse_discretization_CF5_3||bd%28==fnft_nse_discretization_CF6_4; size_t D=24+c.draw(120); wells(c,n,D,c.logreal(3,14),true); { // tails must vanish for the resampling methods
        double len=D-1; for(size_t i=0;i<D;i++){ double x=i/len,w=x<0.5?x:1-x; n.q[i]*=w>0.15?1.0: std::exp(-30*(0.15-w)*(0.15-w)/0.01); } }
    double mx=0; for(auto&x:n.q) mx=std::max(mx,x.real()); if(!(mx>0)) c.discard(); double top=std::sqrt(mx); n.bs=true; n.nc=!c.chance(0.15); n.o.discspec_type=(fnft_kdvv_dstype_t)c.draw(2); n.o.normalization_flag=!c.chance(0.35); n.o.niter=15; bool newton=c.chance(0.4); int st=base(0)-0; (void)st; int sd=(bd<28?0:28)+fnft_nse_discretization_BO; auto ev0=eigen(n.q,n.T,sd,top); double gap=1e9; for(size_t k=0;k+1<ev0.size();k++) gap=std::min<double>(gap,ev0[k]-ev0[k+1]); if(ev0.empty()||ev0.back()<0.06*top||gap<0.05*top) c.discard();
    n.cap=D; if(newton){ n.o.bound_state_localization=fnft_kdvv_bsloc_NEWTON; for(auto e:ev0) n.guess.push_back(cd(0,(double)e*(1+0.01*c.sreal(1)))); if(c.chance(0.5)) std::reverse(n.guess.begin(),n.guess.end()); n.cap=n.guess.size(); } else { n.o.bound_state_localization=fnft_kdvv_bsloc_GRIDSEARCH_AND_REFINE; n.o.grid_spacing=std::min(gap*0.3,(double)ev0.back()*0.3); }
    show(c,n); if(n.run()) c.fail("error %d for valid input",n.rc); c.label(ref::kdv_name(disc)); c.label(newton?"newton":"grid"); if(newton&&n.K!=n.guess.size()) c.fail("%zu bound states from %zu guesses",n.K,n.guess.size());
    // reference eigenvalues of this discretization: polish the staircase ones
    vector<ld> ev; for(auto e:ev0){ ld x=e; bool ok=false; for(int i=0;i<40;i++){ ld h=1e-5L*e; ld d=(areal(n.q,n.T,bd,x+h)-areal(n.q,n.T,bd,x-h))/(2*h); ld s=areal(n.q,n.T,bd,x)/d; x-=s; if(!(fabsl(x-e)<0.3*std::min<double>(gap,e))) break; if(fabsl(s)<1e-14L*e){ ok=true; break; } } if(!ok) c.discard(); ev.push_back(x); }
    if(n.K!=ev.size()) c.fail("%zu bound states reported, %zu expected",n.K,ev.size()); bool both=n.o.discspec_type==fnft_kdvv_dstype_BOTH,res=n.o.discspec_type!=fnft_kdvv_dstype_NORMING_CONSTANTS; double len=(n.T[1]-n.T[0])*D/(D-1);
    vector<int> hit(ev.size(),0); for(size_t k=0;k<n.K;k++){ cd l=n.B[k]; size_t j=0; for(size_t i=1;i<ev.size();i++) if(fabsl(ev[i]-l.imag())<fabsl(ev[j]-l.imag())) j=i; double e=(double)fabsl(ev[j]-l.imag()),cond=1; if(cplx) cond=1e5; if(!(std::max(e,fabs(l.real()))<=1e-9*top*(1+0.1*len*top)*cond)) c.fail("reported bound state %.12g%+.12gi, the closest eigenvalue is %.12Lgi",l.real(),l.imag(),ev[j]); if(hit[j]++) c.fail("eigenvalue %.12Lgi reported twice",ev[j]);
        if(!n.nc||cplx) continue; BA r=refb(bd,n.q,n.T,ev[j]); if(!(r.mis<1e-4)) continue; double d=std::max(2*e,4e-15*(double)ev[j]); double db=0,dr=0; cl rr=(cl)r.b/r.ap; for(int s=-1;s<2;s+=2){ BA v=refb(bd,n.q,n.T,ev[j]+s*d); db=std::max(db,(double)fabsl(v.b-r.b)); dr=std::max(dr,(double)std::abs((cl)v.b/v.ap-rr)); } double ab=(double)fabsl(r.b),ar=(double)std::abs(rr); if(!(db<0.02*ab)||!(dr<0.02*ar)) continue; c.nontrivial(); double tb=1e-7*ab+10*db,tr=1e-6*ar+10*dr;
        auto cmp=[&](cd got,cl want,double tol,const char*what){ double e=(double)std::abs(cl(got.real(),got.imag())-want); if(!(e<=tol)) c.fail("%s %zu at %.12gi is %.12g%+.12gi, expected %.12Lg%+.12Lgi (error %.3g, allowed %.3g)",what,k,l.imag(),got.real(),got.imag(),want.real(),want.imag(),e,tol); };
        if(!res||both) cmp(n.N[k],r.b,tb,"norming constant"); if(res) cmp(n.N[both?n.K+k:k],rr,tr,"residue");
        // oscillation: j-th state (from the top) has j nodes, so the sign of b alternates; the residue is a positive multiple of i
        if(r.b*((j%2)?-1:1)<=0) c.fail("harness: the sign of reference norming constant %zu is wrong",j); if(!res||both){ if(!(n.N[k].real()*((j%2)?-1:1)>0)) c.fail("norming constant of state %zu has the wrong sign: %g",j,n.N[k].real()); } if(res){ cd x=n.N[both?n.K+k:k]; if(!(x.imag()>0)) c.fail("residue %g%+gi of state %zu is not a positive multiple of i",x.real(),x.imag(),j); } }
}
// A sech^2((t-t0)/d): everything is known in closed form
LAW("C13",kdv_sech2_discrete_spectrum_converges,500,30000,"error at the coarse step between rounding and 10 percent"){
    int disc=(int)c.draw(55); int bd=base(disc); double w=c.logreal(0.4,2.5),t0=c.sreal(1.5)*w; int Nb=(int)c.range(1,3); double del=Nb+c.real(-0.2,0.4); double A=(del*del-0.25)/(w*w); double L=(18.0+fabs(t0/w))*w; double T[2]={t0-L,t0+L*c.real(0.9,1)}; double h=c.real(0.1,0.18)*w/(1+0.4*del); size_t D0=(size_t)((T[1]-T[0])/h)+1; auto f=[&](double t){ double s=1/std::cosh((t-t0)/w); return cd(A*s*s); }; int type=(int)c.draw(1); bool newton=c.chance(0.5); int p=ref::order(bd%28); c.info("disc=%s A=%g w=%g t0=%g T=[%g,%g] D=%zu %s %s",ref::kdv_name(disc),A,w,t0,T[0],T[1],D0,type?"residues":"norming constants",newton?"newton":"grid"); c.label(ref::kdv_name(disc));
    vector<double> el[2],en[2]; for(int k=0;k<2;k++){ Kdvv n; n.T[0]=T[0]; n.T[1]=T[1]; n.q=gen::sample(f,T,D0<<k); n.bs=n.nc=true; n.o.discspec_type=(fnft_kdvv_dstype_t)type; n.o.discretization=(fnft_kdv_discretization_t)disc; vector<double> want; for(int j=0;j<Nb;j++){ double e=(del-0.5-j)/w; if(e*w>0.05) want.push_back(e); } if(newton){ n.o.bound_state_localization=fnft_kdvv_bsloc_NEWTON; for(auto e:want) n.guess.push_back(cd(0,e*1.01)); n.cap=n.guess.size(); } else { n.cap=50; n.o.bound_state_localization=fnft_kdvv_bsloc_GRIDSEARCH_AND_REFINE; n.o.grid_spacing=0.05/w; } if(n.run()) c.fail("error %d for valid input",n.rc); if(n.K<want.size()||n.K>(size_t)Nb+1) c.fail("%zu bound states, expected %zu",n.K,want.size());
        for(size_t j=0;j<want.size();j++){ size_t m=0; for(size_t i=1;i<n.K;i++) if(fabs(n.B[i].imag()-want[j])<fabs(n.B[m].imag()-want[j])) m=i; double e=std::abs(n.B[m]-cd(0,want[j]))*w; if(!(e<0.1)) c.fail("eigenvalue %gi not found",want[j]); double eta=want[j]; double b=((j%2)?-1:1)*exp(2*eta*t0); cd nv=b; if(type){ // a(i eta)=prod (eta w-e_i)/(eta w+e_i)*Gamma: numerically from the closed form
                auto a=[&](double x){ double ct=1+x*w,at=0.5+x*w+del,bt=0.5+x*w-del; double y=at+bt-ct; return tgamma(ct)*tgamma(y)/(tgamma(at)*tgamma(bt)); }; double hh=1e-3/w; double d=(8*(a(eta+hh)-a(eta-hh))-(a(eta+2*hh)-a(eta-2*hh)))/(12*hh); nv=b/(cd(0,-1)*d); } el[k].push_back(e); en[k].push_back(std::abs(n.N[m]-nv)/std::abs(nv)); } }
    bool cplx=bd%28==fnft_nse_discretization_CF5_3||bd%28==fnft_nse_discretization_CF6_4;
    for(size_t j=0;j<el[0].size();j++){ if(!(en[0][j]<0.6)){ c.label("coarse"); continue; } if(en[0][j]<0.1&&en[1][j]>1e-8) c.nontrivial(); if(!(el[1][j]<=std::max(2e-8+1e-5*pow(h*(1+del)/w,p),el[0][j]*pow(2.0,-(p-0.8))))) c.fail("eigenvalue %zu: error %.4g with %zu samples, %.4g with twice as many: order %.2f, documented %d",j,el[0][j],D0,el[1][j],log2(el[0][j]/el[1][j]),p); if(!cplx&&!(en[1][j]<=std::max(2e-7+1e-4*pow(h*(1+del)/w,p),en[0][j]*pow(2.0,-(p-0.8))))) c.fail("%s %zu: error %.4g with %zu samples, %.4g with twice as many: order %.2f, documented %d",type?"residue":"norming constant",j,en[0][j],D0,en[1][j],log2(en[0][j]/en[1][j]),p); }
}
