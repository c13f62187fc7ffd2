#include "gen.hpp"
namespace gen {
cd Smooth::operator()(double t)const{ cd s=0; for(auto&x:p){ double u=(t-x.tau)/x.w; double e= x.kind==0? std::exp(-u*u): 1/std::cosh(u); s+=x.A*e*std::polar(1.0,x.om*t+x.phi); } return real_? cd(s.real(),0):s; }
Smooth smooth(Case&c,double maxarea,int maxp,bool rl,double minfrac,double tail){
    Smooth s; s.real_=rl; int n=(int)c.range(1,maxp); double lo=1e9,hi=-1e9; s.amp=0; s.bw=0; double off=c.chance(0.5)? c.sreal(2):0;
    for(int i=0;i<n;i++){ Pulse p; p.kind=c.chance(0.25); p.w=c.real(0.5,1.5); p.tau=off+c.sreal(1.5); p.om=c.sreal(2.0); p.phi=c.real(0,6.283); double area=c.real(minfrac,1)*maxarea/n; p.A=area/p.w/(p.kind?3.1416:1.7725); if(rl){ p.om=0; p.phi=0; if(c.chance(0.5)) p.A=-p.A; }
        double r=tail*(p.kind? 31*p.w: 5.6*p.w); lo=std::min(lo,p.tau-r); hi=std::max(hi,p.tau+r); s.amp+=std::fabs(p.A); s.bw=std::max(s.bw,std::fabs(p.om)+4/p.w); s.p.push_back(p); }
    s.T0=lo; s.T1=hi; return s; }
vector<cd> sample(const std::function<cd(double)>&f,const double T[2],size_t D){ vector<cd> q(D); double eps=(T[1]-T[0])/(D-1); for(size_t i=0;i<D;i++) q[i]=f(T[0]+i*eps); return q; }
size_t len(Case&c,size_t lo,size_t hi){ switch(c.draw(3)){ case 0: return lo+c.draw(std::min<size_t>(hi-lo,8)); case 1: return lo+c.draw(hi-lo); case 2: { size_t p=1; while(p<lo) p*=2; int k=0; for(size_t r=p;r*2<=hi;r*=2) k++; return p<<c.draw(k); } default: { size_t p=1; while(p<lo) p*=2; int k=0; for(size_t r=p;r*2<=hi;r*=2) k++; size_t v=(p<<c.draw(k)); int d=(int)c.range(0,2)-1; size_t r=v+d; return r<lo?lo:r>hi?hi:r; } } }
void window(Case&c,double T[2]){ double w=c.logreal(0.2,20); double m=c.chance(0.6)? c.sreal(3):0; T[0]=m-w/2; T[1]=m+w/2; }
vector<cd> samples(Case&c,size_t D,double amp,std::string*kind){
    vector<cd> q(D); int k=(int)c.draw(5); const char*kn[]={"const","random","sparse","smooth","chirp","zero"}; if(kind) *kind=kn[k];
    switch(k){
    case 0: { cd v=std::polar(amp*c.real(0.01,1),c.real(0,6.283)); for(auto&x:q) x=v; break; }
    case 1: for(auto&x:q) x=std::polar(amp*c.real(0,1),c.real(0,6.283)); break;
    case 2: { int m=(int)c.range(1,3); for(int i=0;i<m;i++) q[c.draw(D-1)]=std::polar(amp*c.real(0.01,1),c.real(0,6.283)); break; }
    case 3: { double ctr=c.real(0,1),w=c.real(0.05,0.4),om=c.sreal(20),A=amp*c.real(0.01,1); for(size_t i=0;i<D;i++){ double x=(double)i/D; q[i]=std::polar(A*std::exp(-(x-ctr)*(x-ctr)/w/w),om*x);} break; }
    case 4: { double a=c.sreal(30),b=c.sreal(30),A=amp*c.real(0.01,1); for(size_t i=0;i<D;i++){ double x=(double)i/D; q[i]=std::polar(A*(0.5+0.5*std::cos(7*x)),a*x+b*x*x);} break; }
    default: break; }
    return q; }
std::string show(const vector<cd>&v,size_t n){ std::string s="["; for(size_t i=0;i<v.size()&&i<n;i++) s+=pbt::strf("%s%.6g%+.6gi",i?", ":"",v[i].real(),v[i].imag()); if(v.size()>n) s+=", ..."; return s+"]"; }
}
