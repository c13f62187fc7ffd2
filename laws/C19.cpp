// C19: signal utilities
#include "api.hpp"
#include "shim.hpp"
using namespace pbt; using std::vector;
static api::QuietReg qr;
static const double EPS=2.2e-16;
static cl L(cd x){ return cl(x.real(),x.imag()); }
static cd val(Case&c,int kind){ switch(kind){ case 0: return cd((double)c.range(-4,4),(double)c.range(-4,4)); case 1: return cd(c.sreal(3),c.sreal(3)); case 2: return std::polar(c.logreal(1e-12,1e6),c.real(0,6.28)); default: { int k=(int)c.draw(6); double n=NAN,i=INFINITY; double a=c.sreal(2); return k==0?cd(n,a): k==1? cd(a,n): k==2? cd(i,a): k==3? cd(a,-i): k==4? cd(-0.0,0.0): cd(a,a); } } }
static bool same(cd a,cd b){ return memcmp(&a,&b,sizeof a)==0; }
static vector<cd> vals(Case&c,size_t n,int kind){ vector<cd> v(n); for(auto&x:v) x= kind==4? val(c,(int)c.draw(3)): val(c,kind); return v; }
struct Snap{ size_t N; vector<cd> v,w; };
LAW("C19",filters_keep_the_box_in_order,80000,4000000,"some but not all values survive"){
    int kind=(int)c.draw(4); size_t n=c.chance(0.1)?0:1+c.draw(c.chance(0.2)?60:9); auto v=vals(c,n,kind); double B[4]; for(int i=0;i<2;i++){ double a=kind==0?(double)c.range(-4,4):c.sreal(3),b=kind==0?(double)c.range(-4,4):c.sreal(3); if(kind!=0&&n&&c.chance(0.3)){ double t=i?v[c.draw(n-1)].imag():v[c.draw(n-1)].real(); if(std::isfinite(t)) a=t; } B[2*i]=std::min(a,b); B[2*i+1]=std::max(a,b); if(c.chance(0.1)) B[2*i]=-INFINITY; if(c.chance(0.1)) B[2*i+1]=INFINITY; }
    int which=(int)c.draw(2); bool comp=which<2&&c.chance(0.6); double tol= which==2? (kind==0?(double)c.draw(3):c.logreal(1e-8,3)): 0; if(which==2&&c.chance(0.1)) tol=0;
    vector<cd> w(n); for(size_t i=0;i<n;i++) w[i]=cd((double)i,-7); auto a=v,b=w; a.push_back(api::SENT); b.push_back(api::SENT); FNFT_UINT N=n; c.info("filter %d n=%zu companion=%d box=[%g,%g]x[%g,%g] tol=%g values=%s",which,n,comp,B[0],B[1],B[2],B[3],tol,gen::show(v).c_str());
    int rc= which==0? fnft__misc_filter(&N,F(a.data()),comp?F(b.data()):NULL,B): which==1? fnft__misc_filter_inv(&N,F(a.data()),comp?F(b.data()):NULL,B): fnft__misc_filter_nonreal(&N,F(a.data()),tol); if(rc) c.fail("error code %d",rc);
    vector<cd> ev,ew; for(size_t i=0;i<n;i++){ double x=v[i].real(),y=v[i].imag(); bool in=x>=B[0]&&x<=B[1]&&y>=B[2]&&y<=B[3]; bool strictly=x>B[0]&&x<B[1]&&y>B[2]&&y<B[3]; bool keep= which==0?in: which==1? !strictly: fabs(y)>tol; if(keep){ ev.push_back(v[i]); ew.push_back(w[i]); } }
    if(N!=ev.size()) c.fail("%zu values kept instead of %zu",(size_t)N,ev.size()); for(size_t i=0;i<N;i++){ if(!same(a[i],ev[i])) c.fail("value %zu is %g%+gi instead of %g%+gi",i,a[i].real(),a[i].imag(),ev[i].real(),ev[i].imag()); if(comp&&!same(b[i],ew[i])) c.fail("companion %zu belongs to value %g instead of %g",i,b[i].real(),ew[i].real()); } if(a[n]!=api::SENT||b[n]!=api::SENT) c.fail("wrote beyond the array"); if(!comp) for(size_t i=0;i<n;i++) if(!same(b[i],w[i])) c.fail("wrote to an array that was not passed"); c.label(strf("filter%d",which)); if(N>0&&N<n) c.nontrivial();
    // invalid boxes
    double X[4]; memcpy(X,B,sizeof X); int bad=(int)c.draw(3); if(bad==0) X[0]=NAN; else if(bad==1){ X[2]=1; X[3]=0.5; } else if(bad==2) X[3]=NAN; else { X[0]=2; X[1]=-2; } N=n; a=v; rc= which==0? fnft__misc_filter(&N,F(a.data()),NULL,X): which==1? fnft__misc_filter_inv(&N,F(a.data()),NULL,X): fnft__misc_filter_nonreal(&N,F(a.data()),bad&1?-1.0:NAN); if(rc==0) c.fail("invalid box or tolerance accepted"); if(N!=n) c.fail("count changed by a failed call"); for(size_t i=0;i<n;i++) if(!same(a[i],v[i])) c.fail("values changed by a failed call");
}
LAW("C19",merge_leaves_one_per_cluster,60000,3000000,"something is merged and something is not"){
    size_t n=1+c.draw(c.chance(0.2)?50:9); double tol=c.chance(0.1)?0:c.logreal(1e-6,1); bool sep=c.chance(0.5); vector<cd> v(n); vector<size_t> cl_(n); size_t nc=1+c.draw(4);
    // separated clusters have diameter < tol/2 and distance > 2 tol; otherwise anything goes
    for(size_t i=0;i<n;i++){ size_t k=c.draw(nc-1); cl_[i]=k; cd base= sep? cd(3.5*(tol>0?tol:1)*(double)k,(k&1)?2*tol:0): cd(0); double r= sep? 0.24*tol: 3*tol; v[i]=base+ (c.chance(0.2)?cd(0):cd(c.sreal(r),c.sreal(r))*0.7); }
    auto a=v; a.push_back(api::SENT); FNFT_UINT N=n; c.info("n=%zu tol=%g separated=%d values=%s",n,tol,sep,gen::show(v,10).c_str()); if(fnft__misc_merge(&N,F(a.data()),tol)) c.fail("failed"); if(N<1||N>n) c.fail("%zu values returned for %zu inputs",(size_t)N,n); if(a[n]!=api::SENT) c.fail("wrote beyond the array"); if(!same(a[0],v[0])) c.fail("the first value was not kept");
    size_t p=0; for(size_t i=0;i<N;i++){ while(p<n&&!same(v[p],a[i])) p++; if(p==n) c.fail("returned values are not a subsequence of the input"); p++; }
    for(size_t i=0;i<N;i++) for(size_t j=0;j<i;j++) if(std::abs(a[i]-a[j])<tol) c.fail("returned values %zu and %zu are only %g apart (tolerance %g)",j,i,std::abs(a[i]-a[j]),tol);
    // every input is linked to a returned value by steps shorter than tol
    vector<char> ok(n,0); for(size_t i=0;i<n;i++) for(size_t j=0;j<N;j++) if(same(v[i],a[j])) ok[i]=1; for(bool ch=true;ch;){ ch=false; for(size_t i=0;i<n;i++) if(!ok[i]) for(size_t j=0;j<n;j++) if(ok[j]&&std::abs(v[i]-v[j])<tol){ ok[i]=1; ch=true; break; } } for(size_t i=0;i<n;i++) if(!ok[i]) c.fail("value %zu was lost: no returned value in its cluster",i);
    if(sep&&tol>0){ std::set<size_t> s; for(auto k:cl_) s.insert(k); if(N!=s.size()) c.fail("%zu values returned for %zu clusters",(size_t)N,s.size()); } if(N>1&&N<n) c.nontrivial(); auto b=vector<cd>(a.begin(),a.begin()+N); FNFT_UINT N2=N; fnft__misc_merge(&N2,F(b.data()),tol); if(N2!=N) c.fail("merging again removed more values"); N2=n; auto d=v; if(fnft__misc_merge(&N2,F(d.data()),-1.0)==0) c.fail("negative tolerance accepted"); N2=0; if(fnft__misc_merge(&N2,NULL,tol)||N2!=0) c.fail("empty list");
}
LAW("C19",downsampling_takes_every_nth_sample,60000,4000000,"strictly fewer samples than the input"){
    size_t D=3+c.draw(c.chance(0.3)?3000:60); size_t want=c.chance(0.1)?c.draw(2):c.chance(0.1)?D+c.draw(5):1+c.draw(D); vector<cd> q(D); for(size_t i=0;i<D;i++) q[i]=cd((double)i,1); auto q0=q; cd*sub=NULL; FNFT_UINT Ds=want; FNFT_UINT fl[3]={77,77,77}; c.info("D=%zu wanted=%zu",D,want); int rc=fnft__misc_downsample(D,F(q.data()),&Ds,(FNFT_COMPLEX**)&sub,fl); if(rc) c.fail("error code %d",rc); if(q!=q0||fl[2]!=77) c.fail("wrote to the input"); vector<cd> s(sub,sub+Ds); free(sub);
    if(Ds<2||Ds>D) c.fail("%zu samples",(size_t)Ds); if(s[0]!=q[0]||fl[0]!=0) c.fail("does not start with the first sample"); size_t step=(size_t)s[1].real(); for(size_t i=0;i<Ds;i++) if(s[i]!=cd((double)(i*step),1)) c.fail("sample %zu is original sample %g, spacing %zu",i,s[i].real(),step); if(fl[1]!=(Ds-1)*step||fl[1]>=D) c.fail("last index reported as %zu, is %zu",(size_t)fl[1],(Ds-1)*step); if(fl[1]+step<D-1&&D-1-fl[1]>=step+ (step+1)/2) c.fail("%zu samples at the end are not covered (spacing %zu)",D-1-fl[1],step);
    size_t w=std::min(std::max<size_t>(want,2),D); if(D%w==0&&Ds!=w) c.fail("%zu samples although %zu divides the length",(size_t)Ds,w); if(w>=D&&Ds!=D) c.fail("not all samples kept"); double ratio=(double)Ds/w; if(!(ratio>0.6&&ratio<1.51)) c.fail("%zu samples instead of about %zu",(size_t)Ds,w); if(Ds<D) c.nontrivial(); FNFT_UINT D2=want; if(fnft__misc_downsample(2,F(q.data()),&D2,(FNFT_COMPLEX**)&sub,fl)==0) c.fail("two samples accepted");
}
LAW("C19",resampling_shifts_bandlimited_signals,40000,2500000,"shift is not zero and not a multiple of the step"){
    size_t D=2+c.draw(c.chance(0.2)?600:60); double eps=c.logreal(1e-3,1e2); size_t H=(D-1)/2; bool full=c.chance(0.4); size_t nt=1+c.draw(6); vector<std::pair<int,cd>> tm; for(size_t i=0;i<nt;i++) tm.push_back({(int)c.range(-(int)H,(int)H),cd(c.sreal(2),c.sreal(2))}); double off=c.chance(0.2)?0:c.chance(0.2)?(double)c.range(-3,3):c.sreal(c.chance(0.2)?20:1); double del=off*eps;
    auto at=[&](ld x){ cl s=0; for(auto&t:tm) s+=L(t.second)*std::exp(ref::J*(2*ref::PI*(ld)t.first*x/(ld)D)); return s; }; vector<cd> q(D),r(D+1,api::SENT),s(D); double nn=0; for(auto&t:tm) nn+=std::abs(t.second); for(size_t i=0;i<D;i++){ cl x=at(i); q[i]=cd((double)x.real(),(double)x.imag()); } if(full) for(auto&x:q) x=cd(c.sreal(2),c.sreal(2)); for(auto&x:q) nn=std::max(nn,std::abs(x)); auto q0=q; c.info("D=%zu eps=%g shift=%g steps arbitrary=%d q=%s",D,eps,off,full,gen::show(q).c_str()); double tol=nn*EPS*(60+20*log2((double)D)*sqrt((double)D)+20*fabs(off)*D); 
    int rc=fnft__misc_resample(D,eps,F(q.data()),del,F(r.data())); if(rc) c.fail("error code %d",rc); if(q!=q0) c.fail("input was modified"); if(r[D]!=api::SENT) c.fail("wrote beyond the result"); if(off!=floor(off)) c.nontrivial(); if(!full) for(size_t i=0;i<D;i++){ cl x=at((ld)i+(ld)del/(ld)eps); double e=(double)std::abs(L(r[i])-x); if(!(e<=tol)) c.fail("sample %zu: %.12g%+.12gi, signal is %.12Lg%+.12Lgi there (error %.3g, tol %.3g)",i,r[i].real(),r[i].imag(),x.real(),x.imag(),e,tol); }
    if(off==floor(off)) for(size_t i=0;i<D;i++){ size_t j=(size_t)(((long)i+(long)off)%(long)D+(long)D)%D; if(!(std::abs(r[i]-q[j])<=tol)) c.fail("shift by %g steps is not a cyclic shift (sample %zu)",off,i); }
    double e1=0,e2=0; for(size_t i=0;i<D;i++){ e1+=std::norm(q[i]); e2+=std::norm(r[i]); } if(!(fabs(e1-e2)<=tol*nn*D*4)) c.fail("energy changed from %.15g to %.15g",e1,e2); rc=fnft__misc_resample(D,eps,F(r.data()),-del,F(s.data())); for(size_t i=0;i<D;i++) if(!(std::abs(s[i]-q[i])<=3*tol)) c.fail("shifting back does not restore sample %zu (error %.3g, tol %.3g)",i,std::abs(s[i]-q[i]),3*tol);
    if(fnft__misc_resample(D,0.0,F(q.data()),del,F(s.data()))==0) c.fail("step size zero accepted");
}
LAW("C19",distances_and_norms_match_their_definition,80000,4000000,"both lists are non-empty and differ"){
    int kind=(int)c.draw(2); size_t n=c.draw(12),m=c.draw(12); auto a=vals(c,n,kind),b=vals(c,m,kind); c.info("a=%s b=%s",gen::show(a,12).c_str(),gen::show(b,12).c_str()); double h=fnft__misc_hausdorff_dist(n,F(a.data()),m,F(b.data())),h2=fnft__misc_hausdorff_dist(m,F(b.data()),n,F(a.data())); if(n&&m){ auto one=[](const vector<cd>&x,const vector<cd>&y){ ld w=0; for(auto&p:x){ ld d=1e300L; for(auto&q:y) d=std::min(d,std::abs(L(p)-L(q))); w=std::max(w,d); } return w; }; ld e=std::max(one(a,b),one(b,a)); if(!(fabsl(h-e)<=1e-14L*e)) c.fail("Hausdorff distance %.15g instead of %.15Lg",h,e); if(h!=h2) c.fail("distance is not symmetric"); if(e>0) c.nontrivial(); double z=fnft__misc_hausdorff_dist(n,F(a.data()),n,F(a.data())); if(z!=0) c.fail("distance of a set to itself is %g",z); } else if(n||m){ if(!(h>1e300)) c.fail("distance to the empty set is %g",h); }
    size_t k=std::min(n,m); if(k){ ld nu=0,de=0; for(size_t i=0;i<k;i++){ nu+=std::abs(L(a[i])-L(b[i])); de+=std::abs(L(b[i])); } if(de>0){ double r=fnft__misc_rel_err(k,F(a.data()),F(b.data())); if(!(fabsl(r-nu/de)<=1e-13L*nu/de)) c.fail("relative error %.15g instead of %.15Lg",r,nu/de); } }
    double x=c.sreal(5),y=x+c.logreal(1e-3,1e3); ld s=0; for(auto&p:a) s+=std::norm(L(p)); double l=fnft__misc_l2norm2(n,F(a.data()),x,y); if(n==0){ if(!std::isnan(l)) c.fail("norm of nothing is %g",l); } else { ld e=s*((ld)y-x)/n; if(!(fabsl(l-e)<=1e-13L*e)) c.fail("squared norm %.15g instead of %.15Lg",l,e); if(!std::isnan(fnft__misc_l2norm2(n,F(a.data()),y,x))||!std::isnan(fnft__misc_l2norm2(n,F(a.data()),x,x))) c.fail("empty interval accepted"); }
}
LAW("C19",elementary_functions_and_number_helpers,100000,5000000,"argument not zero"){
    cd z; int k=(int)c.draw(4); z= k==0? cd(0): k==1? std::polar(c.logreal(1e-12,10),c.real(0,6.28)): k==2? cd(c.sreal(30),c.sreal(5)): k==3? cd(c.sreal(2),c.sreal(2)): cd(0,c.sreal(20)); c.info("z=%.17g%+.17gi",z.real(),z.imag()); if(z!=cd(0)) c.nontrivial(); cl Z=L(z); cd s,d; shim_csinc(F(&z),F(&s),F(&d)); auto close=[&](const char*w,cd got,cl want,ld tol){ ld e=std::abs(L(got)-want); if(!(e<=tol)) c.fail("%s: %.15g%+.15gi instead of %.15Lg%+.15Lgi (error %.3Lg, tol %.3Lg)",w,got.real(),got.imag(),want.real(),want.imag(),e,tol); };
    ld az=std::abs(Z); cl S,Dv; if(az<3){ cl t=1; S=0; Dv=0; for(int n=0;n<40;n++){ S+=t/(ld)(2*n+1); t*=-Z*Z/((ld)(2*n+1)*(2*n+2)); } // sum (-1)^n z^2n/(2n+1)!
        S=0; t=1; for(int n=0;n<40;n++){ S+=t; t*=-Z*Z/((ld)(2*n+2)*(2*n+3)); } cl u=1; for(int n=1;n<40;n++){ u*=-Z*Z/((ld)(2*n)*(2*n+1)); if(az>0) Dv+=u*(ld)(2*n)/Z; } } else { S=std::sin(Z)/Z; Dv=(std::cos(Z)-S)/Z; } ld g=std::exp(fabsl(Z.imag())); close("sinc",s,S,8*EPS*g*(1+0*az)); close("derivative of sinc",d,Dv,16*EPS*g*std::min<ld>(1.0L,az+0.5L));
    cl sh=(cl)1/std::cosh(Z); if(std::abs(std::cosh(Z))>1e-6L){ cd r; FNFT_COMPLEX rr=fnft__misc_sech(FC(z)); memcpy(&r,&rr,sizeof r); close("sech",r,sh,8*EPS*std::abs(sh)*(1+az)*(1+std::abs(std::tanh(Z)))); }
    // Legendre polynomials and powers of two
    size_t n=c.draw(12); double x=c.chance(0.2)?(double)c.range(-1,1):c.sreal(1.5); ld p0=1,p1=x,P=n==0?1:x; for(size_t i=2;i<=n;i++){ P=((2*i-1)*(ld)x*p1-(i-1)*p0)/i; p0=p1; p1=P; } ld ref=0,t=1; // closed form as independent check
    { vector<ld> bin(n+1); for(size_t i=0;i<=n;i++){ ld b=1; for(size_t j=0;j<i;j++) b=b*(n-j)/(j+1); bin[i]=b; } ref=0; for(size_t i=0;i<=n;i++) ref+=bin[i]*bin[i]*powl((x-1)/2.0L,n-i)*powl((x+1)/2.0L,i); } double lp=shim_legendre(n,x); if(!(fabsl(lp-ref)<=1e-13L*(1+fabsl(ref))*(1+n))) c.fail("Legendre polynomial %zu at %g is %.15g instead of %.15Lg",n,x,lp,ref);
    size_t num= c.chance(0.3)? ((size_t)1<<c.draw(40))+c.range(-1,1)*(c.chance(0.6)?1:0): c.draw(100000); size_t q=fnft__misc_nextpowerof2(num); if(num>0){ if(q<num||(q&(q-1))||q/2>=num) c.fail("next power of two after %zu is %zu",num,q); }
}
LAW("C19",small_matrix_products_and_vector_scaling,60000,3000000,"no zero dimension"){
    size_t n=1+c.draw(4),m=1+c.draw(4),p=1+c.draw(4); int kind=(int)c.draw(2); auto A=vals(c,n*m,kind),B=vals(c,m*p,kind); vector<cd> C(n*p+1,api::SENT); c.info("%zux%zu times %zux%zu",n,m,m,p); c.nontrivial(); auto A0=A,B0=B; shim_matmult(n,m,p,F(A.data()),F(B.data()),F(C.data())); if(A!=A0||B!=B0||C[n*p]!=api::SENT) c.fail("wrote outside the result"); auto chk=[&](size_t n,size_t m,size_t p,const vector<cd>&A,const vector<cd>&B,const cd*C,const char*w){ for(size_t i=0;i<n;i++) for(size_t j=0;j<p;j++){ cl s=0; ld ab=0; for(size_t k=0;k<m;k++){ s+=L(A[i*m+k])*L(B[k*p+j]); ab+=std::abs(A[i*m+k])*std::abs(B[k*p+j]); } if(!(std::abs(L(C[i*p+j])-s)<=8*EPS*ab)) c.fail("%s: entry %zu,%zu is %g%+gi instead of %Lg%+Lgi",w,i,j,C[i*p+j].real(),C[i*p+j].imag(),s.real(),s.imag()); } }; chk(n,m,p,A,B,C.data(),"product");
    for(size_t sz:{2,4}){ auto U=vals(c,sz*sz,kind),T=vals(c,sz*sz,kind); auto R=T; if(sz==2) shim_mult2(F(U.data()),F(R.data())); else shim_mult4(F(U.data()),F(R.data())); chk(sz,sz,sz,U,T,R.data(),"in-place product"); }
    size_t k=1+c.draw(8); vector<cd> v=vals(c,k,kind); int e=(int)c.range(-300,300); for(auto&x:v) x=cd(ldexp(x.real(),e),ldexp(x.imag(),e)); ld mx=0; for(auto&x:v) mx=std::max(mx,std::abs(L(x))); auto w=v; w.push_back(api::SENT); int a=shim_normalize(k,F(w.data())); if(w[k]!=api::SENT) c.fail("wrote beyond the vector"); if(mx==0){ if(a!=0||!std::equal(v.begin(),v.end(),w.begin())) c.fail("zero vector changed"); } else { ld m2=0; for(size_t i=0;i<k;i++) m2=std::max(m2,std::abs(L(w[i]))); if(!(m2>0.999999L&&m2<2.000001L)) c.fail("largest magnitude after scaling is %.6Lg",m2); for(size_t i=0;i<k;i++) if(!same(w[i],cd(ldexp(v[i].real(),-a),ldexp(v[i].imag(),-a)))&&std::abs(w[i]-cd(ldexp(v[i].real(),-a),ldexp(v[i].imag(),-a)))!=0) c.fail("entry %zu is not scaled by 2^%d",i,-a); }
}
LAW("C19",version_matches_the_configuration,2000,20000,"always"){
    FNFT_UINT a=999,b=999,d=999; char s[FNFT_VERSION_SUFFIX_MAXLEN+9]; memset(s,'#',sizeof s); int null=(int)c.draw(3); c.nontrivial(); c.info("null=%d",null); int rc=fnft_version(null==1?NULL:&a,null==2?NULL:&b,null==3?NULL:&d,s); if(null){ if(rc==0) c.fail("NULL accepted"); return; } if(rc) c.fail("error code %d",rc); if(a!=FNFT_VERSION_MAJOR||b!=FNFT_VERSION_MINOR||d!=FNFT_VERSION_PATCH) c.fail("version %zu.%zu.%zu",(size_t)a,(size_t)b,(size_t)d); if(strcmp(s,FNFT_VERSION_SUFFIX)) c.fail("suffix"); for(size_t i=FNFT_VERSION_SUFFIX_MAXLEN+1;i<sizeof s;i++) if(s[i]!='#') c.fail("wrote beyond the suffix buffer");
}
