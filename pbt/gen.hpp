#pragma once
#include "pbt.hpp"
#include "ref.hpp"
namespace gen {
using std::vector; using pbt::Case;
struct Pulse { double A,tau,w,om,phi; int kind; };   // kind 0 gaussian, 1 sech
struct Smooth { vector<Pulse> p; double T0,T1; double amp,bw; bool real_=false; cd operator()(double t)const; };
// smooth, well localized signal whose tails at the window ends are below ~1e-13
Smooth smooth(Case&c,double maxarea,int maxp=3,bool real_=false,double minfrac=0.05,double tail=1);
vector<cd> sample(const std::function<cd(double)>&f,const double T[2],size_t D);
// arbitrary samples with |q|<=amp
vector<cd> samples(Case&c,size_t D,double amp,std::string*kind=nullptr);
size_t len(Case&c,size_t lo,size_t hi);       // length, mixes small, odd, power of two
void window(Case&c,double T[2]);              // generic time window
std::string show(const vector<cd>&v,size_t n=6);
}
