#include "api.hpp"
namespace api {
int quiet(const char*,...){ return 0; }
void quiet_init(){ fnft_errwarn_setprintf(quiet); }
static cd* P(vector<cd>&v,bool want,size_t n,const vector<cd>*guess=nullptr){ v.assign(n+2,SENT); if(guess) for(size_t i=0;i<guess->size()&&i<n;i++) v[i]=(*guess)[i]; return want? v.data():nullptr; }
int Nsev::run(){ cd*c=P(C,cs,cs?cslen():0),*b=P(B,bs,bs?cap:0,&guess),*n=P(N,nc,nc?nclen():0); K=cap; rc=fnft_nsev(q.size(),F(q.data()),T,M,F(c),cs||M?XI:NULL,&K,F(b),F(n),kappa,have_opts?&o:NULL); return rc; }
int Nsep::run(){ cd*s=P(S,ms,ms?cap:0,&guess),*a=P(A,as,as?acap:0,&aguess); K=cap; M=acap; rc=fnft_nsep(q.size(),F(q.data()),T,shift,&K,F(s),&M,F(a),NULL,kappa,have_opts?&o:NULL); return rc; }
int Kdvv::run(){ cd*c=P(C,cs,cs?cslen():0),*b=P(B,bs,bs?cap:0,&guess),*n=P(N,nc,nc?nclen():0); K=cap; rc=fnft_kdvv(q.size(),F(q.data()),T,M,F(c),cs||M?XI:NULL,&K,F(b),F(n),have_opts?&o:NULL); return rc; }
int Mana::run(){ cd*c=P(C,cs,cs?cslen():0),*b=P(B,bs,bs?cap:0,&guess); K=cap; rc=fnft_manakovv(q1.size(),F(q1.data()),F(q2.data()),T,M,F(c),cs||M?XI:NULL,&K,F(b),NULL,kappa,have_opts?&o:NULL); return rc; }
int Inv::run(){ q.assign(D+2,SENT); for(size_t i=0;i<seed.size()&&i<D;i++) q[i]=seed[i]; vector<cd> c=C; rc=fnft_nsev_inverse(C.size(),C.empty()?NULL:F(c.data()),noXI?NULL:XI,B.size(),B.empty()?NULL:F(B.data()),N.empty()?NULL:F(N.data()),D,F(q.data()),T,kappa,have_opts?&o:NULL); return rc; }
}
