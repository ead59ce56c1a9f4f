#pragma once
#include "ctl.hpp"
#include <mpc/LMPC.hpp>

namespace lin
{
    template <int NX, int NU, int ND, int NY, int PH, int CH>
    struct CtlT : Ctl
    {
        using M = mpc::LMPC<NX, NU, ND, NY, PH, CH>;
        static constexpr bool dyn = NX == Eigen::Dynamic;
        using VX = mpc::cvec<NX>;
        using VU = mpc::cvec<NU>;
        using VY = mpc::cvec<NY>;
        using VD = mpc::cvec<ND>;
        using MX = mpc::mat<NX, PH>;
        using MU = mpc::mat<NU, PH>;
        using MUC = mpc::mat<NU, CH>;
        using MY = mpc::mat<NY, PH>;
        using MD = mpc::mat<ND, PH>;
        M *c = nullptr;
        explicit CtlT(const Dims &d)
        {
            sim::LibScope ls;
            if constexpr (dyn)
                c = new M(d.nx, d.nu, d.ndu, d.ny, d.ph, d.ch);
            else
                c = new M();
        }
        ~CtlT() override
        {
            sim::LibScope ls;
            delete c;
        }
        static mpc::HorizonSlice sl(int a, int b) { return a == -1 && b == -1 ? mpc::HorizonSlice::all() : mpc::HorizonSlice{a, b}; }
        bool model(const Mat &A, const Mat &B, const Mat &C) override
        {
            mpc::mat<NX, NX> a = A;
            mpc::mat<NX, NU> b = B;
            mpc::mat<NY, NX> cc = C;
            sim::LibScope ls;
            return c->setStateSpaceModel(a, b, cc);
        }
        bool dist(const Mat &Bd, const Mat &Dd) override
        {
            mpc::mat<NX, ND> b = Bd;
            mpc::mat<NY, ND> d = Dd;
            sim::LibScope ls;
            return c->setDisturbances(b, d);
        }
        bool exo(const Vec &d, int a, int b) override
        {
            VD v = d;
            sim::LibScope ls;
            return c->setExogenousInputs(v, sl(a, b));
        }
        bool exom(const Mat &d) override
        {
            MD v = d;
            sim::LibScope ls;
            return c->setExogenousInputs(v);
        }
        bool ref(const Vec &y, const Vec &u, const Vec &du, int a, int b) override
        {
            VY vy = y;
            VU vu = u, vd = du;
            sim::LibScope ls;
            return c->setReferences(vy, vu, vd, sl(a, b));
        }
        bool refm(const Mat &y, const Mat &u, const Mat &du) override
        {
            MY vy = y;
            MU vu = u, vd = du;
            sim::LibScope ls;
            return c->setReferences(vy, vu, vd);
        }
        bool w(const Vec &y, const Vec &u, const Vec &du, int a, int b) override
        {
            VY vy = y;
            VU vu = u, vd = du;
            sim::LibScope ls;
            return c->setObjectiveWeights(vy, vu, vd, sl(a, b));
        }
        bool wm(const Mat &y, const Mat &u, const Mat &du) override
        {
            MY vy = y;
            MU vu = u, vd = du;
            sim::LibScope ls;
            return c->setObjectiveWeights(vy, vu, vd);
        }
        bool xb(const Vec &lo, const Vec &hi, int a, int b) override
        {
            VX l = lo, h = hi;
            sim::LibScope ls;
            return c->setStateBounds(l, h, sl(a, b));
        }
        bool ub(const Vec &lo, const Vec &hi, int a, int b) override
        {
            VU l = lo, h = hi;
            sim::LibScope ls;
            return c->setInputBounds(l, h, sl(a, b));
        }
        bool yb(const Vec &lo, const Vec &hi, int a, int b) override
        {
            VY l = lo, h = hi;
            sim::LibScope ls;
            return c->setOutputBounds(l, h, sl(a, b));
        }
        bool xbm(const Mat &lo, const Mat &hi) override
        {
            MX l = lo, h = hi;
            sim::LibScope ls;
            return c->setStateBounds(l, h);
        }
        bool ubm(const Mat &lo, const Mat &hi) override
        {
            MUC l = lo, h = hi;
            sim::LibScope ls;
            return c->setInputBounds(l, h);
        }
        bool ybm(const Mat &lo, const Mat &hi) override
        {
            MY l = lo, h = hi;
            sim::LibScope ls;
            return c->setOutputBounds(l, h);
        }
        bool sc(double lo, double hi, const Vec &X, const Vec &U, int a, int b) override
        {
            VX x = X;
            VU u = U;
            sim::LibScope ls;
            return c->setScalarConstraint(lo, hi, x, u, sl(a, b));
        }
        bool sci(unsigned i, double lo, double hi, const Vec &X, const Vec &U) override
        {
            VX x = X;
            VU u = U;
            sim::LibScope ls;
            return c->setScalarConstraint(i, lo, hi, x, u);
        }
        bool cons(unsigned i, const Vec &xl, const Vec &ul, const Vec &yl, const Vec &xh, const Vec &uh, const Vec &yh) override
        {
            VX a = xl, d = xh;
            VU b = ul, e = uh;
            VY cc = yl, f = yh;
            sim::LibScope ls;
            return c->setConstraints(i, a, b, cc, d, e, f);
        }
        void par(const Par &p) override
        {
            mpc::LParameters q;
            q.maximum_iteration = p.maxit;
            q.time_limit = p.tl;
            q.enable_warm_start = p.warm;
            q.alpha = p.alpha;
            q.rho = p.rho;
            q.eps_rel = p.er;
            q.eps_abs = p.ea;
            q.eps_prim_inf = p.ep;
            q.eps_dual_inf = p.ed;
            q.verbose = p.verbose;
            q.adaptive_rho = p.ar;
            q.polish = p.polish;
            sim::LibScope ls;
            c->setOptimizerParameters(q);
        }
        void warm(const V &x, const V &y) override
        {
            sim::LibScope ls;
            c->setSolverWarmStart(x, y);
        }
        V warm_x() override
        {
            V r;
            {
                sim::LibScope ls;
                r = c->getSolverWarmStartPrimal();
                sim::UserScope us; // what the caller keeps is not the library's
                V mine(r.begin(), r.end());
                r.swap(mine);
            }
            return r;
        }
        V warm_y() override
        {
            V r;
            {
                sim::LibScope ls;
                r = c->getSolverWarmStartDual();
                sim::UserScope us; // what the caller keeps is not the library's
                V mine(r.begin(), r.end());
                r.swap(mine);
            }
            return r;
        }
        template <class F>
        static int throws(F f)
        {
            try
            {
                sim::LibScope ls;
                f();
            }
            catch (const std::runtime_error &)
            {
                return 1;
            }
            return 0;
        }
        int unsupported() override
        {
            int n = 0;
            VX x;
            VU u;
            if constexpr (dyn) x.resize(1), u.resize(1);
            x.setOnes(), u.setOnes();
            n += throws([&]
                        { c->setDiscretizationSamplingTime(0.1); });
            n += throws([&]
                        { c->setInputScale(u); });
            n += throws([&]
                        { c->setStateScale(x); });
            return n;
        }
        bool slice_p(int a, int b) override
        {
            sim::LibScope ls;
            return c->isPredictionHorizonSliceValid(mpc::HorizonSlice{a, b});
        }
        bool slice_c(int a, int b) override
        {
            sim::LibScope ls;
            return c->isControlHorizonSliceValid(mpc::HorizonSlice{a, b});
        }
        bool slice_unset(int a, int b) override
        {
            sim::LibScope ls;
            return c->isSliceUnset(mpc::HorizonSlice{a, b});
        }
        template <class R>
        static Res conv(const R &r)
        {
            Res o;
            o.code = r.solver_status;
            o.feas = r.is_feasible;
            o.msg = r.solver_status_msg;
            o.cost = r.cost;
            o.status = (int)r.status;
            o.cmd = r.cmd;
            return o;
        }
        Res step(const Vec &x, const Vec &u) override
        {
            VX xx = x;
            VU uu = u;
            sim::LibScope ls;
            auto r = c->optimize(xx, uu);
            sim::UserScope us;
            return conv(r);
        }
        Res last() override
        {
            sim::LibScope ls;
            auto r = c->getLastResult();
            sim::UserScope us;
            return conv(r);
        }
        Seq seq() override
        {
            sim::LibScope ls;
            auto s = c->getOptimalSequence();
            sim::UserScope us;
            Seq o;
            o.x = s.state;
            o.y = s.output;
            o.u = s.input;
            return o;
        }
        Stats stats() override
        {
            const auto &s = c->getExecutionStats();
            Stats o;
            o.mn = s.minSolutionTime.count();
            o.mx = s.maxSolutionTime.count();
            o.avg = s.averageSolutionTime.count();
            o.tot = s.totalSolutionTime.count();
            o.sd = s.standardDeviation;
            o.n = s.numberOfSolutions;
            for (auto &p : s.solutionsStates) o.st[(int)p.first] = p.second;
            return o;
        }
        std::string stats_text() override
        {
            std::ostringstream o;
            o << c->getExecutionStats();
            return o.str();
        }
        void reset_stats() override
        {
            sim::LibScope ls;
            c->resetStats();
        }
        bool level(int l) override
        {
            sim::LibScope ls;
            return c->setLoggerLevel((mpc::Logger::log_level)l);
        }
        bool prefix(const std::string &p) override
        {
            sim::LibScope ls;
            return c->setLoggerPrefix(p);
        }
    };
}
