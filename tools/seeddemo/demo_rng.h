// scripted random engine standing in for std::mt19937 (force-included in every file of the demonstration)
#pragma once
#include <random>
#include <vector>
#include <iostream>
namespace std {
struct demo_engine {
    typedef unsigned result_type; unsigned long long s; 
    static vector<unsigned> *&script() { static vector<unsigned> *p = nullptr; return p; }
    static vector<unsigned> &log() { static vector<unsigned> l; return l; }
    demo_engine(unsigned x = 5489u) : s(x * 2654435761ull + 88172645463325252ull) {}
    void seed(unsigned x) { s = x * 2654435761ull + 88172645463325252ull; }
    unsigned operator()() {
        unsigned r; size_t i = log().size();
        if (script() && i < script()->size()) r = (*script())[i];
        else { s ^= s << 13; s ^= s >> 7; s ^= s << 17; r = (unsigned)(s >> 16); }
        log().push_back(r); return r;
    }
    static constexpr unsigned min() { return 0; }
    static constexpr unsigned max() { return 4294967295u; }
};
inline ostream &operator<<(ostream &o, const demo_engine &e) { return o << e.s; }
inline istream &operator>>(istream &i, demo_engine &e) { return i >> e.s; }
}
#define mt19937 demo_engine
