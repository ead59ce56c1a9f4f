// The simulated OSQP: what it was given, what it answered, and how its resources were used.
#pragma once
#include "ctl.hpp"
#include <osqp/osqp.h>
#include <set>
namespace lin
{
    struct QP
    {
        int n = 0, m = 0;
        Mat P, A; // P symmetrised from its upper triangle
        Vec q, l, u;
        std::vector<std::string> defects; // the problem is malformed
        bool nonfinite = false;
    };
    // what the scenario wants the solver to do in the current step
    struct Script
    {
        int fs = 0;     // set-up fails with that code
        int fsolve = 0; // solve fails with that code
        int st = 0;     // status, 0: by mode
        std::string solve = "ipm";
        uint64_t seed = 1;
        int nanx = 0; // 1: one NaN, 2: one inf in the primal solution, 3: NaN in the dual one
        int64_t dt = 0;
        double jump = 0;
        int lvl = -1;
    };
    // record of one step's dealings with the solver
    struct Call
    {
        int setups = 0, solves = 0, setup_ret = 0, solve_ret = 0, status = 0;
        QP qp;
        OSQPSettings set{};
        bool given = false; // warm start in force when solving
        V wx, wy;           // the point the solver started from
        int warm_calls = 0;
        std::vector<std::string> misfit;
        V x, y;
        double obj = 0;
    };
    struct OsqpCtx
    {
        Script s;
        Call c;
        std::vector<std::string> fired;
    };
    extern thread_local OsqpCtx *t_osqp;
    // misuse of the solver's interface, over the whole run
    std::vector<std::string> &osqp_misuse();
    long osqp_live_workspaces();
    long osqp_live_blocks();
    void osqp_reset();
    bool solve_qp(const Mat &H, const Vec &g, const Mat &Aeq, const Vec &beq, const Mat &G, const Vec &h, Vec &z, Vec *y = nullptr, Vec *l = nullptr);
}
