// Small property-based-testing engine: every generated case is a sequence of recorded integer choices, so that
// any failing case can be shrunk and replayed without per-type shrinkers.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <string>
#include <vector>
#include <set>
#include <stdexcept>
#include <functional>
#include <cmath>

namespace pbt {

struct FailEx { std::string msg; };
struct DiscardEx {};

struct Rng { uint64_t s; uint64_t next() { uint64_t z=(s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31);} };

class Case {
public:
    // --- choice source
    bool replaying=false; std::vector<uint64_t> in; size_t pos=0; std::vector<uint64_t> rec; Rng rng{1};
    // raw draw in [0,max]; 0 is the simplest value
    uint64_t draw(uint64_t max);
    int64_t range(int64_t lo,int64_t hi) { return lo+(int64_t)draw((uint64_t)(hi-lo)); }
    // real in [lo,hi]; shrinks towards `to` (default: lo)
    double real(double lo,double hi);
    double sreal(double mag) { return signed_(mag); }      // in [-mag,mag], shrinks to 0
    double logreal(double lo,double hi) { return std::exp(real(std::log(lo),std::log(hi))); }
    bool chance(double p) { return draw(9999) >= (uint64_t)((1.0-p)*10000.0+0.5); } // simplest: false
    template<class T> const T& pick(const std::vector<T>&v) { return v[draw(v.size()-1)]; }
    template<class T> T pick(std::initializer_list<T> l) { std::vector<T> v(l); return v[draw(v.size()-1)]; }
    // --- outcome
    bool nontriv=false; std::vector<std::string> labels; std::string desc; uint64_t index=0;
    void nontrivial() { nontriv=true; }
    void label(std::string s) { for(auto&ch:s) if(ch==32) ch=95; labels.push_back(s); }
    void info(const char*fmt,...) __attribute__((format(printf,2,3)));
    [[noreturn]] void fail(const char*fmt,...) __attribute__((format(printf,2,3)));
    [[noreturn]] void discard() { throw DiscardEx{}; }
private:
    double signed_(double mag);
};

using LawFn=void(*)(Case&);
struct Law { std::string prop,name; LawFn fn; int quick,thorough; std::string rule; double timeout; };
std::vector<Law>& laws();
struct Reg { Reg(const char*prop,const char*name,LawFn f,int q,int t,const char*rule,double timeout=60) { laws().push_back({prop,name,f,q,t,rule,timeout}); } };
// called in every worker process before the first case (e.g. to install hooks)
extern void (*worker_init)();

uint64_t fnv(const void*p,size_t n,uint64_t h=1469598103934665603ull);
std::string strf(const char*fmt,...) __attribute__((format(printf,1,2)));
}
#define LAW(prop,name,quick,thorough,rule) \
    static void name(pbt::Case&c); static pbt::Reg reg_##name(prop,#name,name,quick,thorough,rule); static void name(pbt::Case&c)
