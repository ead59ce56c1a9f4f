#include "mate.hpp"
#include <mpc/NLMPC.hpp>
namespace lin
{
    template <int NX, int NU, int NY, int PH, int CH>
    struct MateT : Mate
    {
        static constexpr bool dyn = NX == Eigen::Dynamic;
        static constexpr int Z = dyn ? Eigen::Dynamic : 0, P1 = dyn ? Eigen::Dynamic : PH + 1;
        using M = mpc::NLMPC<NX, NU, NY, PH, CH, Z, Z>;
        using XM = mpc::mat<P1, NX>;
        using UM = mpc::mat<P1, NU>;
        using YM = mpc::mat<P1, NY>;
        std::unique_ptr<M> c;
        long calls = 0, fail = -1;
        MateT()
        {
            sim::LibScope ls;
            if constexpr (dyn) c.reset(new M(2, 1, 2, 4, 2, 0, 0));
            else c.reset(new M());
        }
        ~MateT() override
        {
            sim::LibScope ls;
            c.reset();
        }
        void visit()
        {
            sim::yield_point();
            if (++calls == fail) throw std::runtime_error("the user's function failed");
        }
        void configure(uint64_t seed) override
        {
            sim::Rng r(seed);
            double a = r.uni(0.3, 1.1), b = r.uni(0.4, 1.2), q = r.uni(0.1, 2), w = r.uni(0.05, 1), s = r.uni(0, 0.4);
            mpc::NLParameters p;
            p.maximum_iteration = r.range(5, 60);
            p.hard_constraints = r.chance(0.5);
            p.enable_warm_start = r.chance(0.5);
            sim::LibScope ls;
            c->setOptimizerParameters(p);
            c->setStateSpaceFunction([this, a, b, s](mpc::cvec<NX> &dx, const mpc::cvec<NX> &x, const mpc::cvec<NU> &u, const unsigned int &k)
                                     {
                visit();
                dx = a * x;
                for (int i = 0; i < (int)dx.size(); i++) dx(i) += b * u(i % u.size()) + s * std::sin(x((i + 1) % x.size())) + 0.01 * k; });
            c->setOutputFunction([this, q](mpc::cvec<NY> &y, const mpc::cvec<NX> &x, const mpc::cvec<NU> &u, const unsigned int &)
                                 {
                visit();
                for (int i = 0; i < (int)y.size(); i++) y(i) = q * x(i % x.size()) + 0.1 * u(i % u.size()); });
            c->setObjectiveFunction([this, w](const XM &X, const YM &Y, const UM &U, const double &e) -> double
                                    {
                visit();
                return Y.squaredNorm() + 0.1 * X.squaredNorm() + w * U.squaredNorm() + 10 * e * e; });
        }
        void bounds(double lim, int a, int b) override
        {
            int n = dyn ? 1 : NU;
            mpc::cvec<NU> lo = mpc::cvec<NU>::Constant(n, -lim), hi = mpc::cvec<NU>::Constant(n, lim);
            sim::LibScope ls;
            c->setInputBounds(lo, hi, {a, b});
        }
        static Res res(const mpc::Result<NU> &r)
        {
            Res o;
            o.code = r.solver_status, o.feas = r.is_feasible, o.msg = r.solver_status_msg, o.cost = r.cost, o.status = (int)r.status, o.cmd = r.cmd;
            return o;
        }
        MateStep step(const V &x, const V &u, long f) override
        {
            MateStep m;
            mpc::cvec<NX> xv = Eigen::Map<const Vec>(x.data(), (int)x.size());
            mpc::cvec<NU> uv = Eigen::Map<const Vec>(u.data(), (int)u.size());
            calls = 0, fail = f;
            try
            {
                sim::LibScope ls;
                auto r = c->optimize(xv, uv);
                sim::UserScope us;
                m.r = res(r);
            }
            catch (...)
            {
                m.threw = true;
            }
            m.calls = calls;
            sim::LibScope ls;
            auto l = c->getLastResult();
            auto q = c->getOptimalSequence();
            auto st = c->getExecutionStats();
            sim::UserScope us;
            m.last = res(l);
            m.s.x = q.state, m.s.y = q.output, m.s.u = q.input;
            m.n = st.numberOfSolutions;
            for (auto &p : st.solutionsStates) m.st[(int)p.first] = p.second;
            return m;
        }
    };
    // the sizes of the linear menu's entry without exogenous inputs, others, and sizes given at run time
    using T0 = MateT<1, 1, 1, 1, 1>;
    using T1 = MateT<2, 1, 1, 4, 2>;
    constexpr int D = Eigen::Dynamic;
    using T2 = MateT<D, D, D, D, D>;
    std::unique_ptr<Mate> make_mate(int kind)
    {
        if (kind == 0) return std::make_unique<T0>();
        if (kind == 1) return std::make_unique<T1>();
        return std::make_unique<T2>();
    }
    int mate_nx(int kind) { return kind == 0 ? 1 : 2; }
    int mate_nu(int) { return 1; }
}
