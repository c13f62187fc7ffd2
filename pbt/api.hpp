// Thin wrappers that hold the arguments and results of one library call.
#pragma once
#include "gen.hpp"
namespace api {
using std::vector; using pbt::Case; using pbt::strf;
static const cd SENT(-7.25e77,3.5e66);            // marks entries that must not be written
int quiet(const char*,...);
void quiet_init();                                 // worker_init for laws that do not look at messages
struct QuietReg { QuietReg(){ pbt::worker_init=quiet_init; } };
struct Nsev {
    vector<cd> q; double T[2]={-1,1}; size_t M=0; double XI[2]={-1,1}; int kappa=1; fnft_nsev_opts_t o; bool have_opts=true;
    bool cs=false,bs=false,nc=false; size_t cap=0; vector<cd> guess; // guess: initial bound states (cap>=guess.size())
    vector<cd> C,B,N; size_t K=0; int rc=0;
    Nsev(){ o=fnft_nsev_default_opts(); }
    size_t cslen()const{ return (o.contspec_type==fnft_nsev_cstype_REFLECTION_COEFFICIENT?1:o.contspec_type==fnft_nsev_cstype_AB?2:3)*M; }
    size_t nclen()const{ return (o.discspec_type==fnft_nsev_dstype_BOTH?2:1)*cap; }
    int run();
    void maxcap(){ cap=fnft_nsev_max_K(q.size(),&o); }
};
struct Nsep { vector<cd> q; double T[2]={0,1}; double shift=0; int kappa=1; fnft_nsep_opts_t o; bool have_opts=true; bool ms=true,as=true; size_t cap=0,acap=0; vector<cd> guess,aguess; vector<cd> S,A; size_t K=0,M=0; int rc=0; Nsep(){ o=fnft_nsep_default_opts(); } int run(); };
struct Kdvv {
    vector<cd> q; double T[2]={-1,1}; size_t M=0; double XI[2]={1,2}; fnft_kdvv_opts_t o; bool have_opts=true; bool cs=false,bs=false,nc=false; size_t cap=0; vector<cd> guess; vector<cd> C,B,N; size_t K=0; int rc=0;
    Kdvv(){ o=fnft_kdvv_default_opts(); }
    size_t cslen()const{ return (o.contspec_type==fnft_kdvv_cstype_REFLECTION_COEFFICIENT?1:o.contspec_type==fnft_kdvv_cstype_AB?2:3)*M; }
    size_t nclen()const{ return (o.discspec_type==fnft_kdvv_dstype_BOTH?2:1)*cap; }
    int run();
};
struct Mana {
    vector<cd> q1,q2; double T[2]={-1,1}; size_t M=0; double XI[2]={-1,1}; int kappa=1; fnft_manakovv_opts_t o; bool have_opts=true; bool cs=false,bs=false; size_t cap=0; vector<cd> guess; vector<cd> C,B; size_t K=0; int rc=0;
    Mana(){ o=fnft_manakovv_default_opts(); }
    size_t cslen()const{ return (o.contspec_type==fnft_manakovv_cstype_REFLECTION_COEFFICIENT?2:o.contspec_type==fnft_manakovv_cstype_AB?3:5)*M; }
    int run();
};
struct Inv {
    vector<cd> C; double XI[2]={-1,1}; bool noXI=false; vector<cd> B,N; size_t D=2; double T[2]={-1,1}; int kappa=1; fnft_nsev_inverse_opts_t o; bool have_opts=true; vector<cd> seed; // C empty: no continuous spectrum
    vector<cd> q; int rc=0;
    Inv(){ o=fnft_nsev_inverse_default_opts(); }
    int grid(size_t M){ return fnft_nsev_inverse_XI(D,T,M,XI,o.discretization); }
    int run();
};
}
