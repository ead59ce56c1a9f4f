// A non-linear controller which lives next to the linear ones: the same process, the same logger, and - for
// the sizes of the menu without exogenous inputs - the same instantiation of the common base class.
#pragma once
#include "ctl.hpp"
namespace lin
{
    struct MateStep
    {
        size_t op = 0;
        bool threw = false;
        Res r, last;
        Seq s;
        int n = 0;
        std::map<int, int> st;
        long calls = 0;
    };
    struct Mate
    {
        virtual ~Mate() = default;
        virtual void configure(uint64_t seed) = 0;
        virtual void bounds(double lim, int a, int b) = 0;
        virtual MateStep step(const V &x, const V &u, long fail) = 0;
    };
    std::unique_ptr<Mate> make_mate(int kind); // 0, 1: fixed sizes of the menu, 2: sized at run time
    int mate_nx(int kind);
    int mate_nu(int kind);
}
