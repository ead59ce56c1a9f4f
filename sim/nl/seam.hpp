// The solver seam: the simulator's definition of nlopt_optimize() preempts the library's.
#pragma once
#include "ctl.hpp"
#include <functional>

namespace nl
{
    struct Block
    {
        bool eq;
        unsigned m;
        std::vector<double> tol;
        int slot;
    };
    struct SolveCall
    {
        void *opt = nullptr;
        unsigned n = 0;
        V guess, lb, ub;
        double ftol_rel = 0, ftol_abs = 0, xtol_rel = 0, maxtime = 0;
        V xtol_abs;
        int maxeval = 0;
        std::vector<Block> blocks;
        bool has_f = false;
        // evaluate what the controller handed to the solver
        double f(const V &z, V *grad) const;
        // gradient layout: grad[i*n+j] = d c_i / d z_j
        V con(size_t block, const V &z, V *grad) const;
        bool stopped() const;
    };
    struct SolveHook
    {
        virtual ~SolveHook() = default;
        // returns the nlopt result code; real() runs the real algorithm on x
        virtual int solve(SolveCall &c, double *x, double *minf, const std::function<int()> &real) = 0;
        // every point the real solver asks about: which = 0 objective, 1.. constraint block index + 1
        virtual void point(SolveCall &c, int which, const double *z, bool grad) = 0;
        // what the objective answered there
        virtual void value(SolveCall &c, const double *z, double f) = 0;
    };
    extern thread_local SolveHook *t_hook;
    bool seam_selfcheck(std::string &why);
}
