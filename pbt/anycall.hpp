// One call of one of the five transforms with arbitrary valid arguments, and its complete observable effect.
// All arrays are heap blocks of exactly the documented length, so that memory checkers see every overrun.
#pragma once
#include "api.hpp"
namespace any {
using std::vector; using pbt::Case; using pbt::strf;
struct Out { int rc=0; size_t K=0,M=0; vector<cd> c,b,n; std::string changed;
    bool same(const Out&o,std::string*why=nullptr)const; };
struct Call {
    int which=0; size_t D=2; vector<cd> q,r; double T[2]={-1,1},XI[2]={-1,1},shift=0; size_t M=0; int kappa=1; bool cs=false,bs=false,nc=false,noopts=false,nullK=false; size_t cap=0,acap=0,kdiv=1; vector<cd> guess,aguess,IC,IB,IN; bool noXI=false;
    union { fnft_nsev_opts_t ev; fnft_nsep_opts_t ep; fnft_nsev_inverse_opts_t in; fnft_kdvv_opts_t kd; fnft_manakovv_opts_t ma; } o; size_t olen=0;
    std::string desc,disc;
    Call(){ memset(&o,0,sizeof o); }
    size_t cslen()const; size_t nclen()const; void defaults(); void describe();
    unsigned nul=0; // arguments passed as NULL although they must not be (1 q, 2 T, 4 XI, 8 K, 16 M, 64 second signal, 128 bound states, 256 norming constants, 512 spectrum of the inverse transform), 32: sheet indices given
    Out run(bool dry=false)const; // dry: the state before the call
};
extern thread_local cd fill; // initial contents of pure output arrays (default: api::SENT)
void save(const Call&,std::string&); Call load(const std::string&); void save(const Out&,std::string&); Out load_out(const std::string&);
static const char*const WN[]={"nsev","nsep","nsev_inverse","kdvv","manakovv"};
struct Lim { size_t maxD=40; int which=-1; double big=0.1; };
Call gen(Case&c,Lim l=Lim(),bool defaults=false); // defaults: the options are omitted
}
