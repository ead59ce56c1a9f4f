// The checks: what is compared against what, per property.
#include "world.hpp"
#include <algorithm>
#include <limits>
namespace lin
{
    using sim::fmt;
    using sim::Rng;
    static const double INF = std::numeric_limits<double>::infinity();
    static std::string at(const StepRec &s) { return fmt("op %zu (controller %d): ", s.op, s.ctl); }
    static bool inputs_finite(const StepRec &s) { return finite(s.x) && finite(s.u); }
    static void cmp_step(Report &rep, const StepRec &a, const StepRec &b, const char *cls, const std::string &ctx)
    {
        std::string why;
        if (a.threw != b.threw) rep.v(cls, at(a) + ctx + ": one run threw, the other did not");
        else if (a.threw) return;
        else if (!same_res(a.r, b.r, why) || !same_seq(a.s, b.s, why)) rep.v(cls, at(a) + ctx + ": " + why);
    }
    static void check_rets(Report &rep, const World &w)
    {
        for (auto &p : w.ctl)
            for (auto &q : p.second->rets)
                if (q.ret != q.expected) rep.v("return", fmt("op %zu: %s returned %d, expected %d", q.op, q.name.c_str(), q.ret, q.expected));
    }
    static void check_misuse(Report &rep, const World &w)
    {
        for (auto &m : w.misuse) rep.v("solver-interface", m);
    }

    // ------------------------------------------------------------------ the documented problem
    // feasible interval of t for rows v + t*dv in [lo, hi]
    struct Span
    {
        double a = -1e6, b = 1e6;
        bool close = false; // some row is so near its limit, or so flat, that rounding decides
        void row(double v, double dv, double lo, double hi)
        {
            double tol = 1e-7 * (1 + std::fabs(v));
            if (std::fabs(dv) < 1e-9)
            {
                if (v < lo - tol || v > hi + tol) a = 1, b = -1;
                else if ((v < lo + tol && v != lo && hi - lo > tol) || (v > hi - tol && v != hi && hi - lo > tol)) close = close || v < lo || v > hi;
                return;
            }
            double t1 = (lo - v) / dv, t2 = (hi - v) / dv;
            if (t1 > t2) std::swap(t1, t2);
            a = std::max(a, t1), b = std::min(b, t2);
        }
        bool empty() const { return a > b + 1e-9 * (1 + std::fabs(a)); }
    };
    static bool same_span(const Span &x, const Span &y)
    {
        bool ex = x.empty(), ey = y.empty();
        if (ex != ey) return (ex ? y.b - y.a : x.b - x.a) < 1e-6 * (1 + std::fabs(ex ? y.a : x.a)); // touching
        if (ex) return true;
        return close(x.a, y.a, 1e-6) && close(x.b, y.b, 1e-6);
    }
    static Mat free_inputs(const Dims &d, const Mat &W)
    { // inputs held after the control horizon
        Mat U(d.nu, d.ph);
        for (int k = 0; k < d.ph; k++) U.col(k) = W.col(std::min(k, d.ch - 1));
        return U;
    }
    // a step which nothing stands in the way of puts its problem before the solver
    // (a box with its lower side above its upper one is refused by the solver)
    static bool crossed(const Cfg &g)
    {
        return (g.xlo.array() > g.xhi.array()).any() || (g.ylo.array() > g.yhi.array()).any() || (g.ulo.array() > g.uhi.array()).any() || (g.slo.array() > g.shi.array()).any();
    }
    static bool check_asked(Report &rep, const StepRec &s)
    {
        if (crossed(s.cfg))
        {
            rep.c("crossed-bounds-steps");
            return true;
        }
        if (s.threw || s.c.solves || !inputs_finite(s) || !s.fired.empty()) return true;
        rep.v("unasked", at(s) + (s.c.setups ? fmt("nothing has failed, but the solver refused its set-up with %d", s.c.setup_ret) : std::string("nothing has failed, but the solver was not asked")));
        return false;
    }
    // `last`: report the box of the last applied input (C16); otherwise it is set aside
    static bool check_qp(Report &rep, const StepRec &s, uint64_t seed, bool deep, bool last = true)
    {
        if (!check_asked(rep, s)) return false;
        if (s.threw || !s.c.setups) return true;
        const QP &q = s.c.qp;
        const Cfg &g = s.cfg;
        const Dims &d = g.d;
        for (auto &m : q.defects)
        {
            rep.v("problem", at(s) + "malformed problem given to the solver: " + m);
            return false;
        }
        if (!inputs_finite(s) || !g.has_model) return true;
        if (q.nonfinite)
        {
            rep.v("problem", at(s) + "the problem contains values which are not finite");
            return false;
        }
        if (q.l.size() != q.m || q.n != d.n())
        {
            if (q.l.size() == q.m) rep.v("problem", at(s) + fmt("the problem has %d variables, expected %d", q.n, d.n()));
            return false;
        }
        Rng r(seed);
        int b = d.nx + d.nu;
        auto lines = d.ch * d.nu + (deep ? 6 : 3);
        bool lu_in = true;
        for (int i = 0; i < d.nu; i++) lu_in = lu_in && s.u(i) >= g.ulo(i, 0) - 1e-9 && s.u(i) <= g.uhi(i, 0) + 1e-9;
        for (int ln = 0; ln < lines; ln++)
        {
            Mat W = Mat::Zero(d.nu, d.ch), D = Mat::Zero(d.nu, d.ch);
            for (int i = 0; i < W.size(); i++)
            {
                W.data()[i] = r.uni(-0.6, 0.6);
                const double lo = g.ulo(i % d.nu, i / d.nu), hi = g.uhi(i % d.nu, i / d.nu);
                const double f = r.uni(0, 1);
                if (r.chance(0.7) && !(W.data()[i] >= lo && W.data()[i] <= hi)) // inside the box of its step
                    W.data()[i] = std::isfinite(lo) && std::isfinite(hi) ? lo + f * (hi - lo) : std::isfinite(lo) ? lo + f : hi - f;
            }
            if (ln < d.ch * d.nu) D.data()[ln] = 1;
            else
                for (int i = 0; i < D.size(); i++) D.data()[i] = r.uni(-1, 1);
            Mat U0 = free_inputs(d, W), U1 = free_inputs(d, W + D);
            Vec z0 = g.Z(s.x, s.u, U0), dz = g.Z(s.x, s.u, U1) - z0;
            Vec v = q.A * z0, dv = q.A * dz;
            Span got, got_nolast, want;
            for (int i = 0; i < q.m; i++)
            {
                got.row(v(i), dv(i), q.l(i), q.u(i));
                // the box of the last input itself
                int nz = 0, col = -1;
                for (int j = 0; j < q.n; j++)
                    if (q.A(i, j) != 0) nz++, col = j;
                if (!(nz == 1 && col >= d.nx && col < b && close(q.l(i), q.A(i, col) * g.ulo(col - d.nx, 0), 1e-12) && close(q.u(i), q.A(i, col) * g.uhi(col - d.nx, 0), 1e-12))) got_nolast.row(v(i), dv(i), q.l(i), q.u(i));
            }
            auto c0 = g.cons(s.x, U0), c1 = g.cons(s.x, U1);
            std::string who;
            for (size_t i = 0; i < c0.size(); i++)
            {
                Span o = want;
                want.row(c0[i].v, c1[i].v - c0[i].v, c0[i].lo, c0[i].hi);
                (void)o;
            }
            if (!same_span(got, want))
            {
                if (!lu_in && same_span(got_nolast, want))
                {
                    if (!last) continue;
                    rep.v("last-input-bound", at(s) + "the last applied input " + show(s.u) + " is outside the input bounds in force and the problem is infeasible for that reason alone");
                    return false;
                }
                rep.v("feasible-set", at(s) + fmt("inputs U0+t*D: the problem admits t in [%.9g,%.9g]%s, the bounds in force admit [%.9g,%.9g]%s; U0=", got.a, got.b, got.empty() ? " (none)" : "", want.a, want.b, want.empty() ? " (none)" : "") + show(U0) + " D=" + show(free_inputs(d, D)));
                return false;
            }
            rep.c("lines-compared");
            if (!want.empty()) rep.c("lines-with-feasible-inputs");
            // cost along the line
            auto f = [&](const Vec &z)
            { return 0.5 * z.dot(q.P * z) + q.q.dot(z); };
            for (double t : {1.0, -2.0})
            {
                Mat Ut = U0 + t * free_inputs(d, D);
                double dq = f(z0 + t * dz) - f(z0), dj = 0.5 * (g.J(s.x, s.u, Ut) - g.J(s.x, s.u, U0));
                if (!(std::fabs(dq - dj) <= 1e-7 * (1 + std::fabs(dj) + std::fabs(f(z0)))))
                {
                    rep.v("cost", at(s) + fmt("between two input sequences the objective changes by %.12g, half the documented cost by %.12g; U0=", dq, dj) + show(U0) + " U1=" + show(Ut));
                    return false;
                }
            }
        }
        // nothing but such trajectories is admitted
        Mat W = Mat::Zero(d.nu, d.ch);
        for (int i = 0; i < W.size(); i++) W.data()[i] = r.uni(-0.6, 0.6);
        Mat U = free_inputs(d, W);
        auto violation = [&](const Vec &z)
        {
            Vec v = q.A * z;
            double m = 0;
            for (int i = 0; i < q.m; i++) m = std::max({m, q.l(i) - v(i), v(i) - q.u(i)});
            return m;
        };
        {
            Vec z = g.Z(s.x, s.u, U);
            int j = r.below((d.ph + 1) * b);
            Vec zz = z;
            zz(j) += 0.37;
            if (violation(zz) < 1e-3)
            {
                rep.v("off-trajectory", at(s) + fmt("the problem admits a point which is not a trajectory of the model (variable %d shifted)", j));
                return false;
            }
        }
        if (d.ch < d.ph)
        {
            int k = r.range(d.ch, d.ph - 1), i = r.below(d.nu);
            Mat U2 = U;
            for (int j = k; j < d.ph; j++) U2(i, j) += 0.37;
            if (violation(g.Z(s.x, s.u, U2)) < 1e-3)
            {
                rep.v("control-horizon", at(s) + fmt("the problem admits an input which changes at step %d although the control horizon is %d", k, d.ch));
                return false;
            }
            rep.c("control-horizon-probes");
        }
        return true;
    }
    // the optimum the solver is led to is the documented one
    static void check_optimum(Report &rep, const StepRec &s)
    {
        const Cfg &g = s.cfg;
        const Dims &d = g.d;
        if (!s.usable() || s.c.status != OSQP_SOLVED || !g.has_model || !inputs_finite(s) || !s.fired.empty() || s.r.status != SUCCESS) return;
        int nv = d.ch * d.nu;
        auto wrap = [&](const Vec &w)
        { return free_inputs(d, Eigen::Map<const Mat>(w.data(), d.nu, d.ch)); };
        auto J = [&](const Vec &w)
        { return g.J(s.x, s.u, wrap(w)); };
        Vec w0 = Vec::Zero(nv), gr(nv);
        Mat H(nv, nv);
        double j0 = J(w0);
        std::vector<double> jp((size_t)nv);
        for (int i = 0; i < nv; i++)
        {
            Vec e = Vec::Zero(nv);
            e(i) = 1;
            double p = J(e), m = J(-e);
            gr(i) = (p - m) / 2, H(i, i) = p + m - 2 * j0;
            jp[(size_t)i] = p;
        }
        for (int i = 0; i < nv; i++)
            for (int j = 0; j < i; j++)
            {
                Vec e = Vec::Zero(nv);
                e(i) = e(j) = 1;
                H(i, j) = H(j, i) = J(e) - jp[(size_t)i] - jp[(size_t)j] + j0;
            }
        auto c0 = g.cons(s.x, wrap(w0));
        std::vector<std::vector<Cfg::Con>> ce;
        for (int i = 0; i < nv; i++)
        {
            Vec e = Vec::Zero(nv);
            e(i) = 1;
            ce.push_back(g.cons(s.x, wrap(e)));
        }
        std::vector<Vec> rows, eqs;
        std::vector<double> rhs, erhs;
        for (size_t k = 0; k < c0.size(); k++)
        {
            Vec a(nv);
            for (int i = 0; i < nv; i++) a(i) = ce[(size_t)i][k].v - c0[k].v;
            if (c0[k].hi == c0[k].lo)
            {
                eqs.push_back(a), erhs.push_back(c0[k].hi - c0[k].v);
                continue;
            }
            if (std::isfinite(c0[k].hi)) rows.push_back(a), rhs.push_back(c0[k].hi - c0[k].v);
            if (std::isfinite(c0[k].lo)) rows.push_back(-a), rhs.push_back(c0[k].v - c0[k].lo);
        }
        Mat G((int)rows.size(), nv), E((int)eqs.size(), nv);
        Vec h((int)rows.size()), e((int)eqs.size());
        for (size_t k = 0; k < rows.size(); k++) G.row((int)k) = rows[k], h((int)k) = rhs[k];
        for (size_t k = 0; k < eqs.size(); k++) E.row((int)k) = eqs[k], e((int)k) = erhs[k];
        Vec z;
        if (!solve_qp(H, gr, E, e, G, h, z)) return;
        // only a comparison point which is feasible beyond doubt says something
        if (G.rows() && !((G * z - h).maxCoeff() < 1e-7)) return;
        if (E.rows() && !((E * z - e).cwiseAbs().maxCoeff() < 1e-7)) return;
        // nearly free directions: the optimum is not determined to the accuracy compared
        if (!(z.cwiseAbs().maxCoeff() < 50) || !(s.s.u.cwiseAbs().maxCoeff() < 50)) return;
        // the returned inputs
        Mat U(d.nu, d.ph);
        for (int k = 0; k < d.ph; k++) U.col(k) = s.s.u.row(k).transpose();
        double got = g.J(s.x, s.u, U), best = J(z);
        for (auto &c : g.cons(s.x, U))
            if (c.v < c.lo - 1e-4 * (1 + std::fabs(c.lo)) || c.v > c.hi + 1e-4 * (1 + std::fabs(c.hi)))
            {
                rep.v("optimum", at(s) + fmt("the exact solution of the problem breaks the bounds of %s %d at step %d: %.9g not in [%.9g,%.9g]", c.what, c.i, c.k, c.v, c.lo, c.hi));
                return;
            }
        if (!(got <= best + 1e-4 * (1 + std::fabs(best)))) rep.v("optimum", at(s) + fmt("the exact solution of the problem has documented cost %.9g, the optimum is %.9g", got, best));
        // and the predicted trajectory is the model's
        Mat X, Y;
        g.roll(s.x, U, X, Y);
        if (maxdiff(X.transpose(), s.s.x) > 1e-4 * (1 + X.cwiseAbs().maxCoeff()) || maxdiff(Y.transpose(), s.s.y) > 1e-4 * (1 + Y.cwiseAbs().maxCoeff())) rep.v("optimum", at(s) + "the returned sequences are not a trajectory of the model: x " + show(s.s.x) + " vs " + show(Mat(X.transpose())) + " y " + show(s.s.y) + " vs " + show(Mat(Y.transpose())));
        rep.c("optima-compared");
    }

    // ------------------------------------------------------------------ C16
    static void c16(const Scenario &sc, Report &rep)
    {
        sim::g_alloc.active = true; // fresh memory is filled with garbage
        World A(rep);
        A.paint = 0x7ff8123477f81234ull;
        A.run(sc.ops);
        sim::g_alloc.active = false;
        for (auto *s : A.all_steps())
        {
            if (check_qp(rep, *s, sc.ops[s->op].u("ps") + 7, true) && sc.ops[s->op].str("solve") != "rand") check_optimum(rep, *s);
            if (!rep.viol.empty() && rep.viol.back().first != "last-input-bound") return;
        }
        check_misuse(rep, A);
    }
    static void cross(Gen &g, const Dims &d)
    {
        static const char *n[] = {"xb", "yb", "ub"};
        Op b = g.named(n[g.r.below(3)], d, 0, true);
        V lo = b.vec("lo"), hi = b.vec("hi");
        size_t k = (size_t)g.r.below((int)lo.size());
        if (lo[k] < hi[k] && std::isfinite(lo[k]) && std::isfinite(hi[k])) std::swap(lo[k], hi[k]);
        g.add(b.set("lo", lo).set("hi", hi));
    }
    static Scenario g16(uint64_t seed)
    {
        Gen g("C16", seed);
        Dims d = g.config(0.45, false, 0);
        int n = g.len(2, 8);
        for (int i = 0; i < n; i++)
        {
            for (int k = g.r.below(4); k > 0; k--) g.add(g.update(d, 0, true));
            Op s = g.step(d, 0);
            if (g.r.chance(0.1)) g.fault(s);
            if (g.r.chance(0.02)) cross(g, d);
            g.add(s);
        }
        return g.sc;
    }

    // ------------------------------------------------------------------ C05
    static void c05(const Scenario &sc, Report &rep)
    {
        World A(rep);
        A.run(sc.ops);
        check_rets(rep, A);
        for (auto *s : A.all_steps())
            if (rep.viol.empty()) check_qp(rep, *s, sc.ops[s->op].u("ps") + 7, false, false);
    }
    static Scenario g05(uint64_t seed)
    {
        Gen g("C05L", seed);
        Dims d = g.config(0.45, false, 0);
        int n = g.len(2, 5);
        for (int i = 0; i < n; i++)
        {
            for (int k = g.r.range(1, 6); k > 0; k--)
            {
                if (g.r.chance(0.1))
                    g.add(Op("slice").set("c", 0).set("a", g.r.range(-2, d.ph + 1)).set("b", g.r.range(-2, d.ph + 2)));
                else
                    g.add(g.update(d, 0, false));
            }
            if (g.r.chance(0.03)) cross(g, d);
            // stays off the one recorded finding of the linear controller (last input outside its bounds)
            Op s = g.step(d, 0).set("u", V((size_t)d.nu, 0.0)).set("solve", "rand");
            s.erase("cl");
            g.add(s);
        }
        return g.sc;
    }

    // ------------------------------------------------------------------ C07
    static void check_params(Report &rep, const StepRec &s)
    {
        if (s.threw || !s.c.setups || !s.c.set.max_iter) return;
        const Par &p = s.cfg.par;
        const OSQPSettings &o = s.c.set;
        auto cmp = [&](double got, double want, const char *n)
        {
            if (!close(got, want, 1e-12)) rep.v("parameters", at(s) + fmt("%s in the solver is %.9g, latest parameters say %.9g", n, got, want));
        };
        cmp((double)o.max_iter, p.maxit, "maximum_iteration"), cmp(o.time_limit, p.tl, "time_limit"), cmp(o.alpha, p.alpha, "alpha"), cmp(o.rho, p.rho, "rho"), cmp(o.eps_rel, p.er, "eps_rel"), cmp(o.eps_abs, p.ea, "eps_abs"), cmp(o.eps_prim_inf, p.ep, "eps_prim_inf"), cmp(o.eps_dual_inf, p.ed, "eps_dual_inf"), cmp((double)o.verbose, p.verbose, "verbose"), cmp((double)o.adaptive_rho, p.ar, "adaptive_rho"), cmp((double)o.polish, p.polish, "polish");
    }
    static int status_of(const StepRec &s, bool &exact)
    {
        exact = true;
        if (s.c.setup_ret || !s.c.setups || !s.c.solves || s.c.solve_ret) return ERROR_;
        switch (s.c.status)
        {
        case OSQP_SOLVED:
        case OSQP_SOLVED_INACCURATE:
            if (!s.usable()) return ERROR_;
            return SUCCESS;
        case OSQP_MAX_ITER_REACHED:
        case OSQP_TIME_LIMIT_REACHED:
            exact = s.usable(); // without a finite solution both the limit and an error are true
            return s.usable() ? MAX_ITERATION : ERROR_;
        case OSQP_PRIMAL_INFEASIBLE:
        case OSQP_PRIMAL_INFEASIBLE_INACCURATE:
        case OSQP_DUAL_INFEASIBLE:
        case OSQP_DUAL_INFEASIBLE_INACCURATE:
            return INFEASIBLE;
        default:
            return ERROR_;
        }
    }
    static void check_status(Report &rep, const StepRec &s)
    {
        bool exact;
        int exp = status_of(s, exact);
        if (s.r.status != exp && (exact || s.r.status == SUCCESS))
            rep.v("status", at(s) + fmt("set-up %d, solve %d, solver status %d: result status is %d, expected %d", s.c.setup_ret, s.c.solve_ret, s.c.status, s.r.status, exp));
        if (s.usable() && s.r.code != s.c.status) rep.v("status", at(s) + fmt("solver status is %d, reported %d", s.c.status, s.r.code));
    }
    static void c07(const Scenario &sc, Report &rep)
    {
        World A(rep);
        A.run(sc.ops);
        for (auto *s : A.all_steps())
        {
            if (s->threw) continue;
            check_asked(rep, *s);
            check_params(rep, *s);
            check_status(rep, *s);
        }
    }
    static Scenario g07(uint64_t seed)
    {
        Gen g("C07L", seed);
        Dims d = g.config(0.5, false, 0);
        int n = g.len(2, 8);
        for (int i = 0; i < n; i++)
        {
            if (g.r.chance(0.6)) g.add(g.par(0));
            if (g.r.chance(0.15)) g.add(g.update(d, 0, true));
            Op s = g.step(d, 0);
            if (g.r.chance(0.5)) g.fault(s);
            g.add(s);
        }
        return g.sc;
    }

    // ------------------------------------------------------------------ C17
    static bool failed(const StepRec &s) { return s.threw || !s.usable(); }
    static void c17(const Scenario &sc, Report &rep)
    {
        World A(rep);
        for (size_t i = 0; i < sc.ops.size(); i++)
        {
            A.exec(sc.ops[i], i);
            // whatever is called in between, the last step's answers stay
            for (auto &pc : A.ctl)
            {
                auto &cs = *pc.second;
                if (!cs.c || cs.steps.empty() || cs.steps.back().threw || cs.steps.back().op == i) continue;
                const StepRec &s = cs.steps.back();
                std::string why;
                if (!same_res(s.r, cs.c->last(), why)) rep.v("last-result", at(s) + fmt("after op %zu (%s) getLastResult() differs from what optimize() returned: ", i, sc.ops[i].name.c_str()) + why);
                if (!same_seq(s.s, cs.c->seq(), why)) rep.v("last-result", at(s) + fmt("after op %zu (%s) getOptimalSequence() is no longer that of the last step: ", i, sc.ops[i].name.c_str()) + why);
            }
        }
        const Vec *held = nullptr;
        std::map<int, Vec> last;
        for (auto *sp : A.all_steps())
        {
            const StepRec &s = *sp;
            const Dims &d = s.cfg.d;
            if (s.threw)
            {
                rep.v("escape", at(s) + "optimize() threw " + s.threw_what);
                continue;
            }
            bool fresh = true; // first step since the controller was made
            for (size_t k = 0; k < s.op; k++)
                if (sc.ops[k].name == "new" && sc.ops[k].i("c", 0) == s.ctl) fresh = true;
            (void)fresh;
            check_asked(rep, s);
            check_status(rep, s);
            std::string why;
            if (!same_res(s.r, s.last, why)) rep.v("last-result", at(s) + "getLastResult() differs from what optimize() returned: " + why);
            if (!finite(s.r.cmd) || !finite(s.s.x) || !finite(s.s.y) || !finite(s.s.u) || std::isnan(s.r.cost)) rep.v("non-finite", at(s) + "a result is not finite: cmd " + show(s.r.cmd) + fmt(" cost %g", s.r.cost));
            if (s.s.x.rows() != d.ph + 1 || s.s.x.cols() != d.nx || s.s.u.rows() != d.ph + 1 || s.s.u.cols() != d.nu || s.s.y.rows() != d.ph + 1 || s.s.y.cols() != d.ny || s.r.cmd.size() != d.nu)
            {
                rep.v("shape", at(s) + "result or sequences have the wrong size");
                continue;
            }
            if (s.usable())
            {
                rep.c("steps-with-solution");
                int b = d.nx + d.nu;
                Vec z = Eigen::Map<const Vec>(s.c.x.data(), (long)s.c.x.size());
                Mat X(d.ph + 1, d.nx), U(d.ph + 1, d.nu), Y(d.ph + 1, d.ny);
                for (int k = 0; k <= d.ph; k++)
                {
                    X.row(k) = z.segment(k * b, d.nx).transpose();
                    U.row(k) = z.segment(std::min(k + 1, d.ph) * b + d.nx, d.nu).transpose();
                    Y.row(k) = (s.cfg.C * X.row(k).transpose() + s.cfg.Dd * s.cfg.dm.col(std::min(k, d.ph - 1))).transpose();
                }
                if (maxdiff(X, s.s.x) > 1e-9) rep.v("sequence", at(s) + "state sequence is not the solver's: " + show(s.s.x) + " vs " + show(X));
                if (maxdiff(U, s.s.u) > 1e-9) rep.v("sequence", at(s) + "input sequence is not the solver's: " + show(s.s.u) + " vs " + show(U));
                if (s.cfg.has_model && maxdiff(Y, s.s.y) > 1e-9) rep.v("sequence", at(s) + "output sequence is not the model's output: " + show(s.s.y) + " vs " + show(Y));
                if (maxdiff(s.r.cmd, Vec(U.row(0).transpose())) > 1e-12) rep.v("command", at(s) + "command is not the first input of the sequence");
                if (std::isfinite(s.c.obj) && !close(s.r.cost, s.c.obj, 1e-12)) rep.v("cost", at(s) + fmt("cost is %.12g, the solver's objective %.12g", s.r.cost, s.c.obj));
                if (s.c.status != OSQP_TIME_LIMIT_REACHED && !s.r.feas) rep.v("feasible", at(s) + "the solver's solution is reported as infeasible");
            }
            else
            {
                rep.c("steps-without-solution");
                Vec want = last.count(s.ctl) ? last[s.ctl] : Vec(Vec::Zero(d.nu));
                if (maxdiff(s.r.cmd, want) != 0) rep.v("hold", at(s) + "without a solution the command is " + show(s.r.cmd) + ", the previous one was " + show(want));
                if (s.r.feas) rep.v("hold", at(s) + "without a solution is_feasible is true");
                if (!(std::isinf(s.r.cost) && s.r.cost > 0)) rep.v("hold", at(s) + fmt("without a solution the cost is %g", s.r.cost));
                if (s.s.x.cwiseAbs().maxCoeff() != 0 || s.s.u.cwiseAbs().maxCoeff() != 0 || (s.s.y.size() && s.s.y.cwiseAbs().maxCoeff() != 0)) rep.v("hold", at(s) + "without a solution the sequences are not zero");
                if (s.r.status == INFEASIBLE && s.r.code != s.c.status) rep.v("status", at(s) + fmt("solver status is %d, reported %d", s.c.status, s.r.code));
            }
            last[s.ctl] = s.r.cmd;
        }
        (void)held;
        check_misuse(rep, A);
        if (!rep.viol.empty()) return;
        // as if the failed steps had not happened
        World B(rep);
        B.count = false;
        for (auto *s : A.all_steps())
            if (failed(*s)) B.skip.insert(s->op);
        if (B.skip.empty()) return;
        B.run(sc.ops);
        auto b = B.all_steps();
        size_t j = 0;
        for (auto *s : A.all_steps())
        {
            if (failed(*s)) continue;
            if (j >= b.size()) break;
            cmp_step(rep, *s, *b[j], "after-failure", "result changes when the failed steps before it are deleted");
            if (s->c.given != b[j]->c.given || s->c.wx != b[j]->c.wx || s->c.wy != b[j]->c.wy) rep.v("after-failure", at(*s) + "the solver's start changes when the failed steps before it are deleted");
            if (s->px != b[j]->px || s->py != b[j]->py) rep.v("after-failure", at(*s) + "the stored warm start changes when the failed steps before it are deleted");
            rep.c("deletion-twin-steps");
            j++;
        }
    }
    static Scenario g17(uint64_t seed)
    {
        Gen g("C17", seed);
        Dims d = g.config(0.45, false, 0);
        int n = g.len(3, 10);
        for (int i = 0; i < n; i++)
        {
            if (g.r.chance(0.3)) g.add(g.update(d, 0, true));
            if (g.r.chance(0.1)) g.add(g.par(0));
            if (g.r.chance(0.03)) cross(g, d);
            if (g.r.chance(0.03)) g.add(g.named("exo", d, 0, true).set("v", V((size_t)d.ndu, NAN)));
            if (g.r.chance(0.03)) g.add(g.named("ref", d, 0, true).set("y", V((size_t)d.ny, NAN)));
            Op s = g.step(d, 0);
            if (g.r.chance(0.5)) g.fault(s);
            g.add(s);
        }
        return g.sc;
    }

    // ------------------------------------------------------------------ C19
    static void c19(const Scenario &sc, Report &rep)
    {
        World A(rep);
        struct Pair
        {
            V x, y;
        };
        std::map<int, Pair> pair;
        std::map<int, size_t> seen;
        auto same = [](const V &a, const V &b)
        { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](double p, double q)
                                                    { return p == q || (p != p && q != q); }); };
        for (size_t i = 0; i < sc.ops.size(); i++)
        {
            const Op &op = sc.ops[i];
            int id = (int)op.i("c", 0);
            A.exec(op, i);
            CtlState *cs = A.get(id);
            if (!cs) continue;
            if (op.name == "new") pair[id] = Pair(), seen[id] = 0;
            if (op.name == "ws") pair[id] = {op.vec("x"), op.vec("y")}, rep.c("user-pairs");
            if (op.name == "step" && cs->steps.size() > seen[id])
            {
                seen[id] = cs->steps.size();
                const StepRec &s = cs->steps.back();
                const Pair &p = pair[id];
                bool fits = (int)p.x.size() == s.c.qp.n && (int)p.y.size() == s.c.qp.m;
                bool fin = true;
                for (double v : p.x) fin = fin && std::isfinite(v);
                for (double v : p.y) fin = fin && std::isfinite(v);
                for (auto &m : s.c.misfit) rep.v("misfit", at(s) + "a warm-start " + m);
                if (s.c.warm_calls && !s.cfg.par.warm) rep.v("disabled", at(s) + "a warm start was given although it is disabled");
                else if (s.c.warm_calls && !fits) rep.v("misfit", at(s) + fmt("a pair of %zu/%zu entries was given to a problem of %d/%d", p.x.size(), p.y.size(), s.c.qp.n, s.c.qp.m));
                if (s.solved() && s.cfg.par.warm && fits && fin)
                {
                    if (!s.c.given) rep.v("pair", at(s) + "warm start is enabled and a pair is known, but the solver started cold");
                    else if (!same(s.c.wx, p.x) || !same(s.c.wy, p.y)) rep.v("pair", at(s) + "the solver did not start from the latest pair: " + show(s.c.wx) + " vs " + show(p.x));
                    rep.c("warm-starts-compared");
                }
                if (s.usable() && std::all_of(s.c.y.begin(), s.c.y.end(), [](double v)
                                              { return std::isfinite(v); }))
                    pair[id] = {s.c.x, s.c.y};
                else if (s.usable())
                    return; // primal solution good, dual one not: which pair is kept is not specified
            }
            if (!same(cs->c->warm_x(), pair[id].x) || !same(cs->c->warm_y(), pair[id].y)) rep.v("getter", fmt("op %zu: the getters do not return the latest pair: ", i) + show(cs->c->warm_x()) + " vs " + show(pair[id].x));
            if (!rep.viol.empty()) return;
        }
        check_misuse(rep, A);
    }
    static Scenario g19(uint64_t seed)
    {
        Gen g("C19", seed);
        Dims d = g.config(0.45, false, 0);
        int m = 2 * (d.ph + 1) * (d.nx + d.nu) + (d.ph + 1) * d.ny + d.ph * d.nu + d.ph + 1;
        g.add(g.par(0).set("warm", 1));
        int n = g.len(3, 10);
        for (int i = 0; i < n; i++)
        {
            if (g.r.chance(0.2)) g.add(g.update(d, 0, true));
            if (g.r.chance(0.2)) g.add(g.par(0));
            if (g.r.chance(0.25))
            {
                int nx = d.n(), ny = m;
                if (g.r.chance(0.4)) nx = std::max(0, nx + g.r.range(-3, 3));
                if (g.r.chance(0.4)) ny = std::max(0, ny + g.r.range(-3, 3));
                if (g.r.chance(0.1)) nx = g.r.below(4);
                if (g.r.chance(0.1)) ny = g.r.below(4);
                g.add(Op("ws").set("c", 0).set("x", g.rnd(nx, -1, 1)).set("y", g.rnd(ny, -1, 1)));
            }
            Op s = g.step(d, 0);
            if (g.r.chance(0.35)) g.fault(s);
            g.add(s);
        }
        return g.sc;
    }

    // ------------------------------------------------------------------ C08
    // what is printed are the statistics
    static void check_stats_text(Report &rep, size_t i, const std::string &t, const Stats &st)
    {
        auto number = [&](const std::string &key, double &v)
        {
            size_t p = t.find("- " + key + ": ");
            return p != std::string::npos && sscanf(t.c_str() + p + key.size() + 4, "%lf", &v) == 1;
        };
        auto cmp = [&](const std::string &key, double e, double tol)
        {
            double v = 0;
            if (!number(key, v)) rep.v("printed", fmt("op %zu: the printed statistics do not show '%s'", i, key.c_str()));
            else if (!(std::fabs(v - e) <= tol)) rep.v("printed", fmt("op %zu: the printed '%s' is %.9g, it is %.9g", i, key.c_str(), v, e));
        };
        // six digits for the times (two for the total), two for the percentages
        cmp("min", st.mn, 1e-6), cmp("max", st.mx, 1e-6), cmp("avg", st.avg, 1e-6), cmp("std", st.sd, 1e-6), cmp("tot", st.tot, 6e-3), cmp("num", st.n, 0.1);
        static const char *names[] = {"SUCCESS", "MAX_ITERATION", "INFEASIBLE", "ERROR", "UNKNOWN"};
        for (auto &p : st.st)
            if (p.second && p.first >= 0 && p.first < 5) cmp(names[p.first], 100.0 * p.second / st.n, 6e-3);
        rep.c("printed-statistics-compared");
    }
    static void c08(const Scenario &sc, Report &rep)
    {
        World w(rep);
        std::map<int, std::vector<std::pair<double, int>>> hist;
        std::map<int, size_t> seen;
        std::map<int, Stats> fresh;
        for (size_t i = 0; i < sc.ops.size(); i++)
        {
            const Op &op = sc.ops[i];
            int id = (int)op.i("c", 0);
            w.exec(op, i);
            CtlState *cs = w.get(id);
            if (!cs || op.name == "jump" || op.name == "adv") continue;
            Stats st = cs->c->stats();
            if (op.name == "new")
            {
                hist[id].clear(), seen[id] = 0;
                fresh[id] = st;
                continue;
            }
            if (op.name == "reset")
            {
                hist[id].clear();
                const Stats &f = fresh[id];
                if (st.n != 0 || !st.st.empty() || st.tot != 0 || st.mn != f.mn || st.mx != f.mx || st.avg != f.avg || st.sd != f.sd) rep.v("reset", fmt("op %zu: statistics after reset are not pristine", i));
                continue;
            }
            if (cs->steps.size() > seen[id])
            {
                seen[id] = cs->steps.size();
                const StepRec &s = cs->steps.back();
                if (s.threw) return;
                hist[id].emplace_back(s.elapsed, s.r.status);
            }
            auto &h = hist[id];
            std::map<int, int> cnt, got;
            double mn = INF, mx = -INF, tot = 0;
            for (auto &p : h) cnt[p.second]++, mn = std::min(mn, p.first), mx = std::max(mx, p.first), tot += p.first;
            for (auto &p : st.st)
                if (p.second) got[p.first] = p.second;
            if (st.n != (int)h.size()) rep.v("count", fmt("op %zu: %d solutions counted, %zu steps taken", i, st.n, h.size()));
            if (got != cnt) rep.v("count", fmt("op %zu: statuses are miscounted", i));
            if (h.empty()) continue;
            double avg = tot / (double)h.size(), var = 0;
            for (auto &p : h) var += (p.first - avg) * (p.first - avg);
            double sd = std::sqrt(var / (double)h.size());
            auto cmp = [&](double g, double e, const char *n, double tol)
            {
                if (!(std::fabs(g - e) <= tol)) rep.v("value", fmt("op %zu: %s is %.9g, over the %zu steps it is %.9g", i, n, g, h.size(), e));
            };
            double t = 1e-9 * (1 + tot);
            cmp(st.mn, mn, "minimum", t), cmp(st.mx, mx, "maximum", t), cmp(st.avg, avg, "average", t), cmp(st.tot, tot, "total", t), cmp(st.sd, sd, "standard deviation", 1e-7 * (1 + mx));
            check_stats_text(rep, i, cs->c->stats_text(), st);
            rep.c("statistics-compared");
        }
        bool has = false;
        for (auto &o : sc.ops) has = has || o.name == "reset";
        if (has && rep.viol.empty())
        {
            World B(rep);
            B.count = false;
            for (size_t i = 0; i < sc.ops.size(); i++)
                if (sc.ops[i].name == "reset") B.skip.insert(i);
            B.run(sc.ops);
            auto a = w.steps_of(0), b = B.steps_of(0);
            for (size_t i = 0; i < a.size() && i < b.size(); i++) cmp_step(rep, *a[i], *b[i], "reset-affects-control", "result changes when resetStats() is not called");
        }
    }
    static Scenario g08(uint64_t seed)
    {
        Gen g("C08L", seed);
        Dims d = g.config(0.5, false, 0);
        bool lng = g.r.chance(0.1);
        bool vlong = g.r.chance(0.015); // longer than the small counters
        int n = vlong ? g.r.range(257, 600) : lng ? g.len(20, 70) : g.len(3, 14);
        bool ages = g.r.chance(0.06); // solutions of minutes to days
        bool same = g.r.chance(0.25); // always takes equally long
        long every = (long)g.r.range(1, 1000000);
        for (int i = 0; i < n; i++)
        {
            int k = g.r.below(vlong ? 500 : lng ? 60 : 12);
            if (k == 0) g.add(Op("reset").set("c", 0));
            else if (k == 1) g.add(Op("jump").set("s", std::round(g.r.uni(-5000, 5000))));
            else if (k == 2) g.add(Op("adv").set("s", std::round(g.r.uni(0, 100))));
            if (!vlong && g.r.chance(0.08)) g.add(g.r.chance(0.3) ? g.par(0) : g.update(d, 0, false));
            Op s = g.step(d, 0).set("solve", "rand");
            s.set("dt", same ? every : g.r.below(4) == 0 ? 0l : (long)g.r.range(1, 2000000000));
            if (!same && ages && g.r.chance(0.5)) s.set("dt", (long)std::round(1e9 * std::exp(g.r.uni(0, 12))));
            if (!same && g.r.chance(0.4)) s.set("jump", std::round(g.r.uni(-9000, 9000)) / 10);
            if (g.r.chance(0.4)) g.fault(s);
            g.add(s);
        }
        return g.sc;
    }

    // ------------------------------------------------------------------ C09
    // controllers handed from caller to caller: every operation names the caller which makes it, the order of
    // the operations on one controller is kept, callers end while their controllers live on
    static std::vector<std::function<void()>> migrating(World &W, const std::vector<Op> &ops, std::vector<char> &done)
    {
        int nw = 0;
        for (auto &o : ops) nw = std::max(nw, (int)o.i("w") + 1);
        done.assign(ops.size(), 0);
        std::vector<std::function<void()>> tasks;
        for (int w = 0; w < nw; w++)
            tasks.push_back([&W, &ops, &done, w]()
                            {
                for (size_t i = 0; i < ops.size(); i++)
                {
                    if ((int)ops[i].i("w") != w) continue;
                    auto ready = [&]
                    {
                        for (size_t j = 0; j < i; j++)
                            if (!done[j] && ops[j].i("c") == ops[i].i("c")) return false;
                        return true;
                    };
                    while (!ready()) sim::Sched::pass();
                    W.exec(ops[i], i);
                    done[i] = 1;
                    sim::yield_point();
                } });
        return tasks;
    }
    static bool migrates(const std::vector<Op> &ops)
    {
        for (auto &o : ops)
            if (o.has("w")) return true;
        return false;
    }
    // gives every operation a caller of its own and mixes the controllers' operations
    static std::vector<Op> hand_around(Rng &r, const std::vector<std::vector<Op>> &per)
    {
        std::vector<size_t> at(per.size(), 0);
        std::vector<Op> out;
        int nw = r.range(2, 4);
        for (;;)
        {
            std::vector<size_t> open;
            for (size_t t = 0; t < per.size(); t++)
                if (at[t] < per[t].size()) open.push_back(t);
            if (open.empty()) return out;
            size_t t = open[(size_t)r.below((int)open.size())];
            Op o = per[t][at[t]++];
            out.push_back(o.set("w", r.below(nw)));
        }
    }
    static void c09(const Scenario &sc, Report &rep)
    {
        std::vector<Op> ops;
        std::vector<sim::Preempt> pre;
        std::vector<long> nest;
        int ntask = 0;
        long dense = 0, gap = 1; // the callers start their steps together and take turns
        int fine = 0; // 1: preempted at allocations too, 2: at function entries
        for (auto &o : sc.ops)
        {
            if (o.name == "pre") pre.push_back({o.i("at"), (int)o.i("to")});
            else if (o.name == "fine") fine = (int)o.i("v"), dense = o.i("dense"), gap = o.i("gap", 1);
            else if (o.name == "nest") nest.push_back(o.i("at"));
            else ops.push_back(o), ntask = std::max(ntask, (int)o.i("c") + 1);
        }
        if (ntask < 1) return;
        std::vector<std::unique_ptr<World>> solo;
        for (int t = 0; t < ntask; t++)
        {
            solo.push_back(std::make_unique<World>(rep));
            for (size_t i = 0; i < ops.size(); i++)
                if ((int)ops[i].i("c") != t) solo[(size_t)t]->skip.insert(i);
            solo[(size_t)t]->run(ops);
            solo[(size_t)t]->destroy();
        }
        auto W = std::make_unique<World>(rep);
        W->count = false;
        auto sink = std::make_shared<LogSink>(); // a slow stream: every write is a place to be preempted
        sink->mode = 3;
        for (auto &o : ops)
            if (o.name == "slow") log_stream(sink.get()), log_level(0), W->quiet_log = true;
        if (nest.empty())
        {
            std::vector<std::function<void()>> tasks;
            for (int t = 0; t < ntask; t++)
                tasks.push_back([&, t]()
                                {
                    for (size_t i = 0; i < ops.size(); i++)
                        if ((int)ops[i].i("c") == t)
                        {
                            if (dense && ops[i].name == "step") sim::Sched::meet(dense, gap);
                            W->exec(ops[i], i);
                            sim::yield_point();
                        } });
            std::vector<char> done;
            if (migrates(ops)) tasks = migrating(*W, ops, done), rep.c("handed-around-runs");
            std::sort(pre.begin(), pre.end(), [](auto &a, auto &b)
                      { return a.at < b.at; });
            sim::g_alloc_yield = fine == 1, sim::g_fn_yield = fine == 2;
            sim::Sched::run(tasks, pre);
            sim::g_alloc_yield = sim::g_fn_yield = false;
            if (fine) rep.c(fine == 1 ? "preempted-at-allocations" : "preempted-at-functions");
            rep.c("switches", (double)sim::Sched::switches());
            rep.m("yield-points", (double)sim::Sched::yields());
            for (auto &p : pre) rep.shp((uint64_t)p.at * 8 + (uint64_t)p.to);
        }
        else
        {
            std::sort(nest.begin(), nest.end());
            std::vector<size_t> rest;
            for (size_t i = 0; i < ops.size(); i++)
                if (ops[i].i("c") != 0) rest.push_back(i);
            size_t rn = 0, nn = 0;
            long count = 0;
            bool inside = false;
            sim::g_nested_hook = [&]()
            {
                if (inside) return;
                count++;
                while (nn < nest.size() && nest[nn] <= count && rn < rest.size())
                {
                    nn++;
                    inside = true;
                    size_t i = rest[rn++];
                    rep.c("nested-operations");
                    W->exec(ops[i], i);
                    inside = false;
                }
            };
            for (size_t i = 0; i < ops.size(); i++)
                if (ops[i].i("c") == 0) W->exec(ops[i], i);
            sim::g_nested_hook = nullptr;
            while (rn < rest.size())
            {
                size_t i = rest[rn++];
                W->exec(ops[i], i);
            }
            for (auto v : nest) rep.shp((uint64_t)v);
        }
        for (int t = 0; t < ntask; t++)
        {
            auto a = solo[(size_t)t]->steps_of(t), b = W->steps_of(t);
            if (a.size() != b.size())
            {
                rep.v("isolation", fmt("controller %d took %zu steps alone and %zu interleaved", t, a.size(), b.size()));
                continue;
            }
            for (size_t i = 0; i < a.size(); i++)
            {
                cmp_step(rep, *a[i], *b[i], "isolation", "differs from the same calls made alone");
                if (a[i]->st.n != b[i]->st.n || a[i]->st.st != b[i]->st.st) rep.v("isolation", at(*a[i]) + "statistics counts differ from the same calls made alone");
                if (a[i]->c.wx != b[i]->c.wx && !(a[i]->c.wx.empty())) rep.v("isolation", at(*a[i]) + "warm start differs from the same calls made alone");
                const QP &p = a[i]->c.qp, &q = b[i]->c.qp;
                if (maxdiff(p.P, q.P) + maxdiff(p.A, q.A) + maxdiff(p.q, q.q) + maxdiff(p.l, q.l) + maxdiff(p.u, q.u) != 0) rep.v("isolation", at(*a[i]) + "problem differs from the same calls made alone");
                rep.c("isolated-steps-compared");
            }
            auto &ma = solo[(size_t)t]->mates[t].steps, &mb = W->mates[t].steps;
            if (ma.size() != mb.size()) rep.v("isolation", fmt("non-linear controller %d took %zu steps alone and %zu interleaved", t, ma.size(), mb.size()));
            for (size_t i = 0; i < ma.size() && i < mb.size(); i++)
            {
                const MateStep &p = ma[i], &q = mb[i];
                std::string why, head = fmt("op %zu (non-linear controller %d): ", p.op, t);
                if (p.threw != q.threw || p.calls != q.calls || p.n != q.n || p.st != q.st) rep.v("isolation", head + fmt("calls %ld/%ld, steps counted %d/%d alone/interleaved", p.calls, q.calls, p.n, q.n));
                if (!same_res(p.r, q.r, why) || !same_res(p.last, q.last, why) || !same_seq(p.s, q.s, why)) rep.v("isolation", head + "differs from the same calls made alone: " + why);
                rep.c("isolated-non-linear-steps-compared");
            }
            auto &ra = solo[(size_t)t]->ctl[t], &rb = W->ctl[t];
            if (ra && rb && ra->rets.size() == rb->rets.size())
                for (size_t i = 0; i < ra->rets.size(); i++)
                    if (ra->rets[i].ret != rb->rets[i].ret) rep.v("isolation", fmt("controller %d: setter %s returned differently when interleaved", t, ra->rets[i].name.c_str()));
        }
        W->destroy();
        for (auto &m : W->misuse) rep.v("solver-interface", m);
        W.reset();
    }
    static Scenario g09(uint64_t seed)
    {
        Gen g("C09L", seed);
        int nt = g.r.chance(0.7) ? 2 : 3;
        bool same = g.r.chance(0.5), dyn0;
        bool around = g.r.chance(0.25);
        std::vector<std::vector<Op>> per;
        Dims d0 = g.dims(0.5, false, dyn0);
        bool mixed = g.r.chance(0.15);
        if (mixed && g.r.chance(0.3)) same = true, d0 = Dims{1, 1, 0, 1, 1, 1}, dyn0 = false; // both kinds have their base class in common
        for (int t = 0; t < nt; t++)
        {
            Gen h("C09L", g.r.u64());
            if (t > 0 && mixed && (t == nt - 1 || h.r.chance(0.5))) // a controller of the other kind
            {
                int kind = same && d0 == Dims{1, 1, 0, 1, 1, 1} && !dyn0 ? 0 : h.r.below(3), m = h.r.range(1, 3);
                h.add(Op("nlnew").set("c", t).set("k", kind).set("s", (long)h.r.below(1000000)));
                for (int i = 0; i < m; i++)
                {
                    if (h.r.chance(0.4)) h.add(Op("nlub").set("c", t).set("v", h.r.uni(0.1, 3)));
                    Op s("nlstep");
                    s.set("c", t).set("x", h.rnd(mate_nx(kind), -2, 2)).set("u", h.rnd(mate_nu(kind), -1, 1));
                    if (h.r.chance(0.25)) s.set("fail", (long)(1 + std::floor(std::exp(h.r.uni(0, 6)))));
                    h.add(s);
                }
                per.push_back(h.sc.ops);
                continue;
            }
            Dims d = d0;
            if (same) h.config_for(d0, dyn0, t);
            else d = h.config(0.5, false, t);
            int n = h.r.range(1, 4);
            for (int i = 0; i < n; i++)
            {
                Op s = h.step(d, t);
                if (h.r.chance(0.2)) h.fault(s);
                h.add(s);
                if (h.r.chance(0.4)) h.add(h.update(d, t, false));
                if (h.r.chance(0.1)) h.add(h.par(t));
            }
            if (h.r.chance(0.2)) h.add(Op("del").set("c", t));
            per.push_back(h.sc.ops);
        }
        if (around)
            for (auto &o : hand_around(g.r, per)) g.add(o);
        else
            for (auto &v : per)
                for (auto &p : v) g.add(p);
        if (g.r.chance(0.5)) g.add(Op("slow").set("c", 0));
        bool pre = around || g.r.chance(0.65);
        int at_alloc = pre && g.r.chance(0.5) ? g.r.range(1, 2) : 0;
        if (at_alloc) {
            Op f = Op("fine").set("v", at_alloc);
            if (g.r.chance(0.5)) f.set("dense", (long)std::exp(g.r.uni(3, 7.5))).set("gap", g.r.range(1, 6));
            g.add(f);
        }
        int n = at_alloc ? g.r.range(8, 60) : pre ? g.r.range(1, 12) : g.r.range(3, 30);
        long p = 0;
        for (int i = 0; i < n; i++)
        {
            p += 1 + (long)std::exp(g.r.uni(0, at_alloc && i % 8 == 0 ? 8 : pre ? 4.5 : 3.5));
            if (pre) g.add(Op("pre").set("at", p).set("to", g.r.below(nt)));
            else g.add(Op("nest").set("at", p));
        }
        return g.sc;
    }

    // ------------------------------------------------------------------ C10
    static std::string skeleton(const std::string &s)
    {
        std::string o;
        for (char ch : s)
            if (!strchr("0123456789+-.e,;[] \t\n", ch)) o += ch;
        return o;
    }
    static void c10(const Scenario &sc, Report &rep)
    {
        World A(rep);
        int level = 3;
        std::string prefix;
        bool have = false, bad_stream = false;
        for (size_t i = 0; i < sc.ops.size(); i++)
        {
            const Op &op = sc.ops[i];
            size_t before = A.sink ? A.sink->text.size() : 0;
            long wbefore = A.sink ? A.sink->writes : 0;
            A.exec(op, i);
            if (op.name == "glevel" || op.name == "level") level = (int)op.i("v");
            if (op.name == "gprefix" || op.name == "prefix") prefix = op.str("v");
            if (op.name == "lreset") level = 1, prefix = ""; // what it was when the program started
            if (op.name == "stream")
            {
                have = true;
                bad_stream = op.i("mode", 0) != 0;
                continue;
            }
            if (!have) continue;
            std::string add = A.sink->text.substr(before), head = prefix.empty() ? "[MPC++] " : "[MPC++ " + prefix + "] ";
            if (op.has("lvl")) level = -1; // changed somewhere inside: the glevel that follows makes it known again
            if (level < 0) continue;
            if (level == 3 && (A.sink->writes != wbefore || !add.empty()))
            {
                rep.v("none-silent", fmt("op %zu wrote %zu characters with level NONE", i, add.size()));
                continue;
            }
            if (bad_stream) continue;
            if (op.name == "say")
            {
                std::string exp = (int)op.i("type") >= level ? head + op.str("v") + "\n" : "";
                if (add != exp) rep.v("message", fmt("op %zu: logged \"%s\", expected \"%s\"", i, add.c_str(), exp.c_str()));
            }
            else if (!add.empty())
            {
                if (add.compare(0, head.size(), head) != 0) rep.v("prefix", fmt("op %zu: output starts with \"%.40s\", prefix in force is \"%s\"", i, add.c_str(), prefix.c_str()));
                for (size_t p = add.find("[MPC++"); p != std::string::npos; p = add.find("[MPC++", p + 1))
                    if (add.compare(p, head.size(), head) != 0)
                    {
                        rep.v("prefix", fmt("op %zu: a message carries \"%.40s\", prefix in force is \"%s\"", i, add.substr(p, 40).c_str(), prefix.c_str()));
                        break;
                    }
                rep.c("message-blocks-checked");
            }
        }
        World B(rep);
        B.count = false;
        B.quiet_log = true;
        B.run(sc.ops);
        auto a = A.steps_of(0), b = B.steps_of(0);
        for (size_t i = 0; i < a.size() && i < b.size(); i++)
        {
            cmp_step(rep, *a[i], *b[i], "control", "logging changes the result");
            const Stats &x = a[i]->st, &y = b[i]->st;
            if (x.n != y.n || x.st != y.st || x.mn != y.mn || x.mx != y.mx || x.avg != y.avg || x.tot != y.tot || x.sd != y.sd) rep.v("control", at(*a[i]) + "logging changes the statistics");
        }
        std::vector<std::string> prevm;
        for (int lv = 0; lv <= 3 && rep.viol.empty(); lv++)
        {
            World C(rep);
            C.count = false;
            auto sink = std::make_shared<LogSink>();
            std::vector<std::string> ms;
            C.quiet_log = true;
            log_stream(sink.get());
            log_prefix("Q");
            log_level(lv);
            C.run(sc.ops);
            const std::string &t = sink->text;
            for (size_t p = t.find("[MPC++ Q] "); p != std::string::npos;)
            {
                size_t q = t.find("[MPC++ Q] ", p + 1);
                ms.push_back(t.substr(p, q == std::string::npos ? q : q - p));
                p = q;
            }
            if (lv == 3 && !t.empty()) rep.v("none-silent", "messages were written with level NONE");
            if (lv > 0)
            {
                size_t j = 0;
                for (auto &x : ms)
                {
                    while (j < prevm.size() && skeleton(prevm[j]) != skeleton(x)) j++;
                    if (j == prevm.size())
                    {
                        rep.v("level", fmt("a message written at level %d is not written at level %d: \"%.60s\"", lv, lv - 1, x.c_str()));
                        break;
                    }
                    j++;
                }
            }
            if (lv <= 1)
            {
                size_t n = 0;
                for (auto &x : ms)
                    if (x.find("Optimization step completed") != std::string::npos) n++;
                if (n ? n != C.steps_of(0).size() : ms.size() < C.steps_of(0).size()) rep.v("level", fmt("%zu step summaries at level %d for %zu steps", n, lv, C.steps_of(0).size()));
            }
            else if (t.find("Optimization step completed") != std::string::npos)
                rep.v("level", fmt("an INFO message is written at level %d", lv));
            long bad = 0, trouble = 0;
            for (auto &pc : C.ctl)
                for (auto &q : pc.second->rets)
                    if (!q.ret) bad++;
            for (auto *s : C.all_steps())
                if (!s->usable() || !s->c.misfit.empty()) trouble++;
            for (auto &o : sc.ops)
                if (o.name == "ws" || o.name == "slice") trouble++;
            if (lv == 2)
            {
                if ((long)ms.size() < bad) rep.v("level", "an ERROR message is missing at level ALERT");
                if (bad == 0 && trouble == 0 && !ms.empty()) rep.v("level", fmt("level ALERT wrote \"%.60s\"", ms[0].c_str()));
            }
            prevm = ms;
            rep.c("level-runs");
            rep.m("messages", (double)ms.size());
            log_stream(nullptr);
        }
    }
    static Scenario g10(uint64_t seed)
    {
        Gen g("C10L", seed);
        Dims d = g.config(0.5, false, 0);
        int n = g.len(3, 10);
        auto word = [&]()
        {
            static const char *w[] = {"", "", "A", "ctl-1", "x", "robot"};
            std::string v = w[g.r.below(6)];
            if (g.r.chance(0.2)) // longer, and of any characters
                for (int k = g.r.chance(0.5) ? g.r.range(1, 12) : g.r.range(10, 70); k > 0; k--) v += "abcXYZ0189-._/:%[](){}+*#~"[g.r.below(26)];
            return v;
        };
        g.add(Op("stream").set("mode", 0));
        for (int i = 0; i < n; i++)
        {
            switch (g.r.below(9))
            {
            case 0:
                if (g.r.chance(0.12)) g.add(Op("lreset"));
                else g.add(Op(g.r.chance(0.5) ? "level" : "glevel").set("c", 0).set("v", g.r.below(4)));
                break;
            case 1: g.add(Op(g.r.chance(0.5) ? "prefix" : "gprefix").set("c", 0).set("v", word())); break;
            case 2: g.add(Op("stream").set("mode", g.r.below(4)).set("cap", (long)std::exp(g.r.uni(0, 8)))); break;
            case 3:
            case 4: g.add(Op("say").set("type", g.r.below(3)).set("v", fmt("m%d", g.r.below(1000)) + std::string(g.r.chance(0.1) ? (size_t)g.r.range(1, 400) : 0, 'o'))); break;
            case 5: g.add(g.update(d, 0, false)); break;
            default:
            {
                Op s = g.step(d, 0);
                if (g.r.chance(0.3)) g.fault(s);
                bool lv = g.r.chance(0.25);
                if (lv) s.set("lvl", g.r.below(4));
                g.add(s);
                if (lv) g.add(Op("glevel").set("v", g.r.below(4)));
            }
            }
        }
        g.add(g.step(d, 0));
        return g.sc;
    }

    // ------------------------------------------------------------------ C15
    static bool same_problem(const QP &p, const QP &q, double tol)
    {
        return p.n == q.n && p.m == q.m && p.nonfinite == q.nonfinite && maxdiff(p.P, q.P) <= tol && maxdiff(p.A, q.A) <= tol && maxdiff(p.q, q.q) <= tol && maxdiff(p.l, q.l) <= tol && maxdiff(p.u, q.u) <= tol;
    }
    // the same set of admitted points and the same objective, however the rows
    // are written: compared on the common affine hull of the equality rows, along lines
    static bool equivalent(const QP &p, const QP &q, double tol, const std::vector<Vec> &through)
    {
        if (same_problem(p, q, tol)) return true;
        if (p.n != q.n || p.nonfinite != q.nonfinite) return false;
        if (p.nonfinite) return true; // no problem at all
        auto hull = [](const QP &a, Vec &z0, Mat &N)
        {
            std::vector<int> rows;
            for (int i = 0; i < a.m; i++)
                if (a.l(i) == a.u(i)) rows.push_back(i);
            Mat E((int)rows.size(), a.n);
            Vec e((int)rows.size());
            for (size_t k = 0; k < rows.size(); k++) E.row((int)k) = a.A.row(rows[k]), e((int)k) = a.u(rows[k]);
            Eigen::FullPivLU<Mat> lu(E);
            lu.setThreshold(1e-9);
            z0 = E.completeOrthogonalDecomposition().solve(e);
            N = lu.kernel();
            return (E * z0 - e).cwiseAbs().maxCoeff() < 1e-6;
        };
        Vec zp, zq;
        Mat Np, Nq;
        bool hp = hull(p, zp, Np), hq = hull(q, zq, Nq);
        if (!hp && !hq) return true;
        if (hp != hq || Np.cols() != Nq.cols()) return false;
        auto onhull = [](const QP &a, const Vec &z, bool dir)
        {
            Vec v = a.A * z;
            for (int i = 0; i < a.m; i++)
                if (a.l(i) == a.u(i) && !(std::fabs(v(i) - (dir ? 0 : a.u(i))) <= 1e-6 * (1 + std::fabs(a.u(i)) + z.cwiseAbs().maxCoeff()))) return false;
            return true;
        };
        if (!onhull(p, zq, false) || !onhull(q, zp, false)) return false;
        for (int j = 0; j < Np.cols(); j++)
            if (!onhull(q, Np.col(j), true)) return false;
        auto range = [](const QP &a, const Vec &z, const Vec &d, double &lo, double &hi)
        {
            Vec v = a.A * z, w = a.A * d;
            lo = -1e6, hi = 1e6;
            for (int i = 0; i < a.m; i++)
            {
                if (a.l(i) == a.u(i)) continue;
                if (std::fabs(w(i)) < 1e-9)
                {
                    if (v(i) < a.l(i) - 1e-6 || v(i) > a.u(i) + 1e-6) lo = 1, hi = -1;
                    continue;
                }
                double x = (a.l(i) - v(i)) / w(i), y = (a.u(i) - v(i)) / w(i);
                lo = std::max(lo, std::min(x, y)), hi = std::min(hi, std::max(x, y));
            }
        };
        auto f = [](const QP &a, const Vec &z)
        { return 0.5 * z.dot(a.P * z) + a.q.dot(z); };
        Rng r(7);
        for (int it = 0; it < 40; it++)
        {
            Vec z = zp, d = Np * Vec::Zero(Np.cols());
            if (it % 2 && !through.empty())
            {
                z = through[(size_t)r.below((int)through.size())];
                if (z.size() != p.n || !onhull(p, z, false)) z = zp;
            }
            else
                for (int j = 0; j < Np.cols(); j++) z += r.uni(-1, 1) * Np.col(j);
            if (!Np.cols()) break;
            if (r.chance(0.4))
                d = Np.col(r.below((int)Np.cols()));
            else
                for (int j = 0; j < Np.cols(); j++) d += r.uni(-1, 1) * Np.col(j);
            double a, b, c, e;
            range(p, z, d, a, b), range(q, z, d, c, e);
            bool ep = a > b + 1e-5, eq = c > e + 1e-5;
            bool np = a < b - 1e-5, nq = c < e - 1e-5;
            if ((ep && nq) || (np && eq)) return false;
            if (np && nq && (std::fabs(a - c) > 1e-6 * (1 + std::fabs(a)) || std::fabs(b - e) > 1e-6 * (1 + std::fabs(b)))) return false;
            // (the constant of the objective shows in the reported cost)
            double dp = f(p, z + d), dq = f(q, z + d);
            if (std::fabs(dp - dq) > 1e-8 * (1 + std::fabs(dp) + std::fabs(f(p, z)))) return false;
        }
        return true;
    }
    static std::vector<Vec> solutions(const StepRec &a, const StepRec &b)
    {
        std::vector<Vec> r;
        for (auto *s : {&a, &b})
            if (!s->c.x.empty() && Eigen::Map<const Vec>(s->c.x.data(), (int)s->c.x.size()).allFinite()) r.push_back(Eigen::Map<const Vec>(s->c.x.data(), (int)s->c.x.size()));
        return r;
    }
    static void c15(const Scenario &sc, Report &rep)
    {
        World A(rep);
        A.force_dyn = 0;
        A.run(sc.ops);
        World B(rep);
        B.count = false;
        B.force_dyn = 1;
        B.run(sc.ops);
        auto &ca = A.ctl[0], &cb = B.ctl[0];
        if (!ca || !cb) return;
        if (ca->rets.size() != cb->rets.size())
        {
            rep.v("setters", "the two controllers answered a different number of calls");
            return;
        }
        for (size_t i = 0; i < ca->rets.size(); i++)
            if (ca->rets[i].ret != cb->rets[i].ret) rep.v("setters", fmt("op %zu: %s returned %d statically and %d dynamically sized", ca->rets[i].op, ca->rets[i].name.c_str(), ca->rets[i].ret, cb->rets[i].ret));
        auto a = A.steps_of(0), b = B.steps_of(0);
        if (a.size() != b.size()) rep.v("steps", "different number of steps");
        for (size_t i = 0; i < a.size() && i < b.size(); i++)
        {
            const StepRec &s = *a[i], &t = *b[i];
            if (s.threw != t.threw)
            {
                rep.v("steps", at(s) + "one controller threw");
                continue;
            }
            if (s.threw) continue;
            if (!equivalent(s.c.qp, t.c.qp, 1e-10, solutions(s, t))) rep.v("steps", at(s) + "different problems were given to the solver");
            if (s.r.status != t.r.status || s.r.code != t.r.code || s.r.feas != t.r.feas) rep.v("steps", at(s) + fmt("status %d/%d statically, %d/%d dynamically sized", s.r.status, s.r.code, t.r.status, t.r.code));
            else if (!close(s.r.cost, t.r.cost, 1e-6) && !(std::isnan(s.r.cost) && std::isnan(t.r.cost))) rep.v("steps", at(s) + fmt("cost %.12g vs %.12g", s.r.cost, t.r.cost));
            else if (maxdiff(s.r.cmd, t.r.cmd) > 1e-5 || maxdiff(s.s.x, t.s.x) > 1e-5 || maxdiff(s.s.u, t.s.u) > 1e-5 || maxdiff(s.s.y, t.s.y) > 1e-5) rep.v("steps", at(s) + "sequences differ: u " + show(s.s.u) + " vs " + show(t.s.u));
            if (s.st.n != t.st.n || s.st.st != t.st.st) rep.v("steps", at(s) + "statistics differ");
            if (s.c.given != t.c.given || s.px.size() != t.px.size() || s.py.size() != t.py.size()) rep.v("steps", at(s) + "warm starts differ");
            rep.c("twin-steps-compared");
        }
    }
    static Scenario g15(uint64_t seed)
    {
        Gen g("C15L", seed);
        Dims d = g.config(0, true, 0);
        int n = g.len(2, 8);
        for (int i = 0; i < n; i++)
        {
            for (int k = g.r.below(3); k > 0; k--) g.add(g.r.chance(0.85) ? g.update(d, 0, false) : g.par(0));
            if (g.r.chance(0.05)) g.add(Op("nosup").set("c", 0));
            Op s = g.step(d, 0);
            if (g.r.chance(0.25)) g.fault(s);
            g.add(s);
        }
        return g.sc;
    }

    // ------------------------------------------------------------------ C18
    static void c18(const Scenario &sc, Report &rep)
    {
        sim::g_alloc.active = true;
        sim::alloc_forget();
        auto A = std::make_unique<World>(rep);
        for (size_t i = 0; i < sc.ops.size(); i++)
        {
            A->exec(sc.ops[i], i);
            if (sc.ops[i].name == "del")
            {
                if (sim::g_alloc.live != 0) rep.v("leak", fmt("op %zu: destroying the controller left %ld blocks (%ld bytes) allocated", i, sim::g_alloc.live, sim::g_alloc.live_bytes));
                if (osqp_live_workspaces()) rep.v("leak", fmt("op %zu: destroying the controller left %ld solver work spaces", i, osqp_live_workspaces()));
                rep.c("destructions-checked");
                sim::alloc_forget();
            }
        }
        auto sa = A->steps_of(0);
        for (auto *s : sa)
        {
            if (s->threw && !s->is_badalloc) rep.v("escape", at(*s) + "optimize() threw something other than std::bad_alloc: " + s->threw_what);
            bool oom = std::find(s->fired.begin(), s->fired.end(), "oom") != s->fired.end();
            if (s->threw && !oom) rep.v("escape", at(*s) + "optimize() threw without an injected failure");
            if (oom) rep.c(s->threw ? "oom-as-exception" : s->r.status == ERROR_ ? "oom-as-error"
                                                                                   : "oom-absorbed");
            if (oom && !s->threw && s->r.status != ERROR_ && !s->usable()) rep.v("oom-status", at(*s) + fmt("an allocation failed and there is no solution, status is %d", s->r.status));
        }
        for (auto &m : A->misuse) rep.v("solver-interface", m);
        if (rep.viol.empty())
        {
            World B(rep);
            B.count = false;
            auto ops = sc.ops;
            for (auto &o : ops)
                if (o.name != "step") o.erase("oom");
            std::set<size_t> done;
            bool any = A->refused > 0;
            const StepRec *prev = nullptr;
            auto lost = [](const StepRec &s)
            { return s.threw || !s.usable() || s.r.status == ERROR_; };
            for (auto *s : sa)
            {
                bool cont = prev != nullptr;
                for (size_t k = cont ? prev->op : 0; cont && k < s->op; k++)
                    if (sc.ops[k].name == "new") cont = false;
                bool same;
                std::string why;
                if (!cont) same = s->last.status == UNKNOWN;
                else same = same_res(prev->last, s->last, why);
                if (s->threw && s->is_badalloc && !same) done.insert(s->op), ops[s->op].erase("oom"), rep.c("oom-after-completion");
                else if (lost(*s)) B.skip.insert(s->op), any = true;
                prev = s;
            }
            if (any || !done.empty())
            {
                sim::g_alloc.active = false;
                B.run(ops);
                sim::g_alloc.active = true;
                auto sb = B.steps_of(0);
                size_t j = 0;
                for (auto *s : sa)
                {
                    if (B.skip.count(s->op)) continue;
                    if (j >= sb.size()) break;
                    if (done.count(s->op))
                    {
                        j++;
                        continue;
                    }
                    bool oom = std::find(s->fired.begin(), s->fired.end(), "oom") != s->fired.end();
                    if (!oom) cmp_step(rep, *s, *sb[j], "after-oom", "result changes when the failed steps before it are deleted");
                    if (!oom && s->c.wx != sb[j]->c.wx) rep.v("after-oom", at(*s) + "the solver's start changes when the failed steps before it are deleted");
                    j++;
                }
            }
        }
        A->destroy();
        if (sim::g_alloc.live != 0) rep.v("leak", fmt("destroying every controller left %ld blocks (%ld bytes) allocated", sim::g_alloc.live, sim::g_alloc.live_bytes));
        for (auto &m : A->misuse) rep.v("solver-interface", m);
        rep.c("destructions-checked");
        rep.m("allocations-tracked", (double)sim::g_alloc.total);
        sim::g_alloc.active = false;
    }
    static Scenario g18(uint64_t seed)
    {
        Gen g("C18L", seed);
        Dims d = g.config(0.5, false, 0);
        int n = g.len(0, 8);
        for (int i = 0; i < n; i++)
        {
            if (g.r.chance(0.3)) g.add(g.update(d, 0, false));
            Op s = g.step(d, 0);
            if (g.r.chance(0.5)) s.set("oom", (long)(1 + std::floor(std::exp(g.r.uni(0, 4.5)))));
            if (g.r.chance(0.35)) g.fault(s);
            g.add(s);
            if (g.r.chance(0.06)) g.add(Op("glevel").set("v", 0));
        }
        if (g.r.chance(0.5)) g.add(Op("del").set("c", 0));
        if (g.r.chance(0.35)) // allocations fail in configuration calls too
            for (auto &op : g.sc.ops)
                if (op.name != "step" && g.r.chance(0.35)) op.set("oom", (long)(1 + std::floor(std::exp(g.r.uni(0, g.r.chance(0.7) ? 3 : 6)))));
        return g.sc;
    }

    // ------------------------------------------------------------------ C20
    static void c20(const Scenario &sc, Report &rep)
    {
        World A(rep);
        A.run(sc.ops);
        check_rets(rep, A);
        if (!rep.viol.empty()) return;
        auto sa = A.steps_of(0);
        for (auto *s : sa)
        {
            check_params(rep, *s);
            if (!sc.ops[s->op].i("twin", 0) || s->threw || !s->c.setups) continue;
            World B(rep);
            B.count = false;
            auto ops = config_ops(s->cfg, 0, sc.ops[s->op].u("order"));
            for (const char *n : {"model", "dist"})
                for (size_t k = s->op; k-- > 0;)
                    if (sc.ops[k].name == n && sc.ops[k].i("c", 0) == 0)
                    {
                        ops.insert(ops.begin() + 1 + (long)(sc.ops[s->op].u("order") % ops.size()), sc.ops[k]);
                        break;
                    }
            ops.push_back(sc.ops[s->op]);
            B.run(ops);
            auto sb = B.steps_of(0);
            if (sb.size() != 1 || sb[0]->threw) continue;
            if (!equivalent(s->c.qp, sb[0]->c.qp, 1e-12, solutions(*s, *sb[0]))) rep.v("history", at(*s) + "the problem given to the solver differs from that of a new controller configured with the final settings");
            rep.c("fresh-twins-compared");
        }
    }
    static Scenario g20(uint64_t seed)
    {
        Gen g("C20L", seed);
        Dims d = g.config(0.5, false, 0);
        int n = g.len(2, 8);
        for (int i = 0; i < n; i++)
        {
            for (int k = g.r.range(1, 4); k > 0; k--) g.add(g.r.chance(0.85) ? g.update(d, 0, false) : g.par(0));
            Op s = g.step(d, 0);
            if (g.r.chance(0.25)) g.fault(s);
            g.add(s.set("twin", g.r.chance(0.6) ? 1 : 0).set("order", g.seed()));
        }
        return g.sc;
    }

    struct P
    {
        const char *id;
        Scenario (*gen)(uint64_t);
        void (*check)(const Scenario &, Report &);
    };
    static const P props[] = {{"C05L", g05, c05}, {"C07L", g07, c07}, {"C08L", g08, c08}, {"C09L", g09, c09}, {"C10L", g10, c10}, {"C15L", g15, c15}, {"C16", g16, c16}, {"C17", g17, c17}, {"C18L", g18, c18}, {"C19", g19, c19}, {"C20L", g20, c20}};
    // steps in closed loop: the measurement is exactly what the step before predicted, the last input is the one it
    // commanded; a rehearsal finds the values
    static Scenario resolved(const Scenario &sc)
    {
        bool any = false;
        for (auto &o : sc.ops) any |= o.has("cl");
        if (!any) return sc;
        Scenario out = sc;
        Report none;
        World W(none);
        W.count = false, W.quiet_log = true;
        for (size_t i = 0; i < out.ops.size(); i++)
        {
            Op &o = out.ops[i];
            if (o.name == "pre" || o.name == "nest") continue;
            if (o.has("cl"))
            {
                o.erase("cl");
                bool fin = true; // a measurement made not finite stays so
                for (const char *k : {"x", "u"})
                    for (double a : o.vec(k)) fin = fin && std::isfinite(a);
                auto it = W.ctl.find((int)o.i("c"));
                if (fin && it != W.ctl.end() && it->second && !it->second->steps.empty())
                {
                    const StepRec &s = it->second->steps.back();
                    if (!s.threw && s.s.x.rows() > 1 && s.s.x.allFinite() && s.r.cmd.allFinite() && s.r.status != ERROR_)
                    {
                        V x, u;
                        for (int j = 0; j < s.s.x.cols(); j++) x.push_back(s.s.x(1, j));
                        for (int j = 0; j < s.r.cmd.size(); j++) u.push_back(s.r.cmd(j));
                        o.set("x", x).set("u", u);
                    }
                }
            }
            W.exec(o, i);
        }
        W.destroy();
        return out;
    }
    void prop_check(const Scenario &given, Report &rep)
    {
        Scenario sc = resolved(given);
        for (auto &p : props)
            if (sc.prop == p.id) return p.check(sc, rep);
        rep.v("internal", "unknown property " + sc.prop);
    }
    Scenario prop_gen(const std::string &prop, uint64_t seed)
    {
        for (auto &p : props)
            if (prop == p.id) return p.gen(seed);
        return Scenario();
    }
}
