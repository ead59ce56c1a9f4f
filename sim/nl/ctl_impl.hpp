#pragma once
#include "ctl.hpp"
#include <mpc/NLMPC.hpp>
#include <array>

namespace nl
{
    template <int NX, int NU, int NY, int PH, int CH, int NI, int NE>
    struct CtlT : Ctl
    {
        using M = mpc::NLMPC<NX, NU, NY, PH, CH, NI, NE>;
        static constexpr bool dyn = NX == Eigen::Dynamic;
        static constexpr int P1 = dyn ? Eigen::Dynamic : PH + 1;
        using XM = mpc::mat<P1, NX>;
        using UM = mpc::mat<P1, NU>;
        using YM = mpc::mat<P1, NY>;
        Dims d;
        M *c = nullptr;
        std::array<long, 4> pad{}; // makes the functions too big to be stored without an allocation
        explicit CtlT(const Dims &dd) : d(dd)
        {
            sim::LibScope ls;
            if constexpr (dyn)
                c = new M(d.nx, d.nu, d.ny, d.ph, d.ch, d.ineq, d.eq);
            else
                c = new M();
        }
        ~CtlT() override
        {
            sim::LibScope ls;
            delete c;
        }
        bool ts(double t) override
        {
            sim::LibScope ls;
            return c->setDiscretizationSamplingTime(t);
        }
        void sx(const Vec &s) override
        {
            mpc::cvec<NX> v = s;
            sim::LibScope ls;
            c->setStateScale(v);
        }
        void su(const Vec &s) override
        {
            mpc::cvec<NU> v = s;
            sim::LibScope ls;
            c->setInputScale(v);
        }
        bool obj(Callbacks *cb) override
        {
            sim::LibScope ls;
            return c->setObjectiveFunction([cb, pad = pad](const XM &X, const YM &Y, const UM &U, const double &e) -> double
                                           {
                sim::UserScope us;
                return cb->obj(X, Y, U, e); });
        }
        bool state(Callbacks *cb, const float *tol) override
        {
            auto f = [cb, pad = pad](mpc::cvec<NX> &dx, const mpc::cvec<NX> &x, const mpc::cvec<NU> &u, const unsigned int &k)
            {
                sim::UserScope us;
                Vec o(dx.size());
                cb->state(o, x, u, k);
                dx = o;
            };
            sim::LibScope ls;
            return tol ? c->setStateSpaceFunction(f, *tol) : c->setStateSpaceFunction(f);
        }
        bool out(Callbacks *cb) override
        {
            sim::LibScope ls;
            return c->setOutputFunction([cb, pad = pad](mpc::cvec<NY> &y, const mpc::cvec<NX> &x, const mpc::cvec<NU> &u, const unsigned int &k)
                                        {
                sim::UserScope us;
                Vec o(y.size());
                cb->out(o, x, u, k);
                y = o; });
        }
        bool ineq(Callbacks *cb, const float *tol) override
        {
            if constexpr (NI == 0)
            {
                (void)cb, (void)tol;
                return false;
            }
            else
            {
            auto f = [cb, pad = pad](mpc::cvec<NI> &g, const XM &X, const YM &Y, const UM &U, const double &e)
            {
                sim::UserScope us;
                Vec o(g.size());
                cb->ineq(o, X, Y, U, e);
                g = o;
            };
            sim::LibScope ls;
            return tol ? c->setIneqConFunction(f, *tol) : c->setIneqConFunction(f);
            }
        }
        bool eq(Callbacks *cb, const float *tol) override
        {
            if constexpr (NE == 0)
            {
                (void)cb, (void)tol;
                return false;
            }
            else
            {
            auto f = [cb, pad = pad](mpc::cvec<NE> &g, const XM &X, const UM &U)
            {
                sim::UserScope us;
                Vec o(g.size());
                cb->eq(o, X, U);
                g = o;
            };
            sim::LibScope ls;
            return tol ? c->setEqConFunction(f, *tol) : c->setEqConFunction(f);
            }
        }
        void par(const Par &p) override
        {
            mpc::NLParameters q;
            q.maximum_iteration = p.maxit;
            q.time_limit = p.tl;
            q.enable_warm_start = p.warm;
            q.relative_ftol = p.rf;
            q.relative_xtol = p.rx;
            q.absolute_ftol = p.af;
            q.absolute_xtol = p.ax;
            q.hard_constraints = p.hard;
            sim::LibScope ls;
            c->setOptimizerParameters(q);
        }
        bool xb(const Vec &lo, const Vec &hi, int a, int b) override
        {
            mpc::cvec<NX> l = lo, h = hi;
            sim::LibScope ls;
            return c->setStateBounds(l, h, a == -1 && b == -1 ? mpc::HorizonSlice::all() : mpc::HorizonSlice{a, b});
        }
        bool ub(const Vec &lo, const Vec &hi, int a, int b) override
        {
            mpc::cvec<NU> l = lo, h = hi;
            sim::LibScope ls;
            return c->setInputBounds(l, h, a == -1 && b == -1 ? mpc::HorizonSlice::all() : mpc::HorizonSlice{a, b});
        }
        bool xbm(const Mat &lo, const Mat &hi) override
        {
            mpc::mat<NX, PH> l = lo, h = hi;
            sim::LibScope ls;
            return c->setStateBounds(l, h);
        }
        bool ubm(const Mat &lo, const Mat &hi) override
        {
            mpc::mat<NU, CH> l = lo, h = hi;
            sim::LibScope ls;
            return c->setInputBounds(l, h);
        }
        bool yb_throws() override
        {
            mpc::cvec<NY> l = Vec::Constant(d.ny, -1), h = Vec::Constant(d.ny, 1);
            try
            {
                sim::LibScope ls;
                c->setOutputBounds(l, h, mpc::HorizonSlice::all());
            }
            catch (const std::runtime_error &)
            {
                return true;
            }
            return false;
        }
        bool slice_p(int a, int b) override
        {
            sim::LibScope ls;
            return c->isPredictionHorizonSliceValid(mpc::HorizonSlice{a, b});
        }
        bool slice_c(int a, int b) override
        {
            sim::LibScope ls;
            return c->isControlHorizonSliceValid(mpc::HorizonSlice{a, b});
        }
        bool slice_unset(int a, int b) override
        {
            sim::LibScope ls;
            return c->isSliceUnset(mpc::HorizonSlice{a, b});
        }
        template <class R>
        static Res conv(const R &r)
        {
            Res o;
            o.code = r.solver_status;
            o.feas = r.is_feasible;
            o.msg = r.solver_status_msg;
            o.cost = r.cost;
            o.status = (int)r.status;
            o.cmd = r.cmd;
            return o;
        }
        Res step(const Vec &x, const Vec &u) override
        {
            mpc::cvec<NX> xx = x;
            mpc::cvec<NU> uu = u;
            sim::LibScope ls;
            auto r = c->optimize(xx, uu);
            sim::UserScope us;
            return conv(r);
        }
        Res last() override
        {
            sim::LibScope ls;
            auto r = c->getLastResult();
            sim::UserScope us;
            return conv(r);
        }
        Seq seq() override
        {
            sim::LibScope ls;
            auto s = c->getOptimalSequence();
            sim::UserScope us;
            Seq o;
            o.x = s.state;
            o.y = s.output;
            o.u = s.input;
            return o;
        }
        Stats stats() override
        {
            const auto &s = c->getExecutionStats();
            Stats o;
            o.mn = s.minSolutionTime.count();
            o.mx = s.maxSolutionTime.count();
            o.avg = s.averageSolutionTime.count();
            o.tot = s.totalSolutionTime.count();
            o.sd = s.standardDeviation;
            o.n = s.numberOfSolutions;
            for (auto &p : s.solutionsStates) o.st[(int)p.first] = p.second;
            return o;
        }
        std::string stats_text() override
        {
            std::ostringstream o;
            o << c->getExecutionStats();
            return o.str();
        }
        void reset_stats() override
        {
            sim::LibScope ls;
            c->resetStats();
        }
        bool level(int l) override
        {
            sim::LibScope ls;
            return c->setLoggerLevel((mpc::Logger::log_level)l);
        }
        bool prefix(const std::string &p) override
        {
            sim::LibScope ls;
            return c->setLoggerPrefix(p);
        }
    };
}
