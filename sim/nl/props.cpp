// Per-property scenario generators and oracles for the non-linear controller.
#include "gen.hpp"
#include <algorithm>
#include <limits>

namespace nl
{
    using sim::fmt;
    using sim::Rng;
    static const double INF = std::numeric_limits<double>::infinity();

    static std::string at(const StepRec &s) { return fmt("op %zu (controller %d): ", s.op, s.ctl); }
    static bool all_finite(const Seq &s) { return finite(s.x) && finite(s.y) && finite(s.u); }
    static bool inputs_finite(const StepRec &s) { return finite(s.x) && finite(s.u); }

    // a step which nothing stands in the way of puts its problem before the solver
    static void check_asked(Report &rep, const StepRec &s)
    {
        if (s.threw || s.solved || !s.cfg.obj || !inputs_finite(s) || !s.fired.empty() || s.thrown_fault || s.poison) return;
        rep.v("unasked", at(s) + "nothing has failed, but the solver was not asked: " + s.r.msg);
    }

    // ------------------------------------------------------------------ C01
    static void c01(const Scenario &sc, Report &rep)
    {
        World w(rep);
        w.peek = true;
        for (size_t i = 0; i < sc.ops.size(); i++)
        {
            w.exec(sc.ops[i], i);
            // whatever is called in between, the last step's answers stay
            for (auto &pc : w.ctl)
            {
                CtlState &cs = *pc.second;
                if (!cs.c || cs.steps.empty() || cs.steps.back().threw || cs.steps.back().op == i) continue;
                const StepRec &s = cs.steps.back();
                std::string why;
                Res now = cs.c->last();
                if (!same_res(s.r, now, why) || s.r.msg != now.msg) rep.v("last-result", at(s) + fmt("after op %zu (%s) getLastResult() differs from what optimize() returned: ", i, sc.ops[i].name.c_str()) + why);
                if (!same_seq(s.s, cs.c->seq(), why)) rep.v("last-result", at(s) + fmt("after op %zu (%s) getOptimalSequence() is no longer that of the last step: ", i, sc.ops[i].name.c_str()) + why);
            }
        }
        for (auto &pc : w.ctl)
        {
            Vec prev;
            for (auto &s : pc.second->steps)
            {
                for (auto &v : s.cbviol)
                    if (v.first == "peek") rep.v("last-result", at(s) + v.second);
                if (prev.size() == 0) prev = Vec::Zero(s.cfg.d.nu);
                if (s.threw)
                {
                    rep.v("escape", at(s) + "optimize() threw: " + s.threw_what);
                    return;
                }
                check_asked(rep, s);
                std::string why;
                if (!same_res(s.r, s.last, why) || s.r.msg != s.last.msg) rep.v("last-result", at(s) + "getLastResult() differs from what optimize() returned: " + why);
                bool must_fail = s.thrown_fault || (s.solved && s.ret < 0) || !s.cfg.obj;
                if (must_fail && s.r.status != ERROR_) rep.v("failure-not-reported", at(s) + fmt("step failed (solver code %d, callback threw: %d) but status is %d", s.ret, s.thrown_fault, s.r.status));
                if (s.r.status == ERROR_)
                {
                    rep.c("failed-steps-checked");
                    if (s.r.feas) rep.v("failed-feasible", at(s) + "failed step is marked feasible");
                    if (s.r.cost != INF) rep.v("failed-cost", at(s) + fmt("failed step has cost %g", s.r.cost));
                    if (s.r.code != -1) rep.v("failed-code", at(s) + fmt("failed step has solver code %d", s.r.code));
                    if (s.r.cmd.size() != prev.size() || maxdiff(s.r.cmd, prev) != 0) rep.v("failed-cmd", at(s) + "failed step returned command " + show(s.r.cmd) + ", held command is " + show(prev));
                    if (!(s.s.x.isZero(0) && s.s.y.isZero(0) && s.s.u.isZero(0))) rep.v("failed-seq", at(s) + "failed step left non-zero optimal sequences");
                }
                else
                {
                    if (!finite(s.r.cmd)) rep.v("nonfinite", at(s) + "non-finite command " + show(s.r.cmd) + fmt(" with status %d", s.r.status));
                    if (!std::isfinite(s.r.cost)) rep.v("nonfinite", at(s) + fmt("non-finite cost with status %d", s.r.status));
                    if (!all_finite(s.s)) rep.v("nonfinite", at(s) + "non-finite optimal sequence with status " + fmt("%d", s.r.status) + " x " + show(s.s.x) + " y " + show(s.s.y) + " u " + show(s.s.u));
                }
                if (s.s.x.rows() != s.cfg.d.ph + 1 || s.s.x.cols() != s.cfg.d.nx || s.s.u.rows() != s.cfg.d.ph + 1 || s.s.u.cols() != s.cfg.d.nu || s.s.y.rows() != s.cfg.d.ph + 1 || s.s.y.cols() != s.cfg.d.ny)
                    rep.v("seq-shape", at(s) + "optimal sequence has the wrong size");
                prev = s.r.cmd;
            }
        }
    }
    static Scenario g01(uint64_t seed)
    {
        Gen g("C01", seed);
        GOpt o;
        o.obj = 0.95;
        Dims d = g.config(o, 0);
        if (g.r.chance(0.08)) // contradictory bounds
        {
            Op b = g.bounds(d, g.r.chance(0.5), 0, true, 0.5);
            V lo = b.vec("lo"), hi = b.vec("hi");
            std::swap(lo, hi);
            g.add(b.set("lo", lo).set("hi", hi));
        }
        int n = g.len(2, 7);
        for (int i = 0; i < n; i++)
        {
            Op s = g.step(d, 0, 0.6);
            if (g.r.chance(0.6)) g.fault(s, d, 0);
            if (g.r.chance(0.1)) g.fault(s, d, 0);
            g.add(s);
            if (g.r.chance(0.1)) g.add(g.par(d, o, 0));
        }
        return g.sc;
    }

    // ------------------------------------------------------------------ C02
    static bool failed(const StepRec &s) { return s.threw || s.r.status == ERROR_; }
    static void cmp_step(Report &rep, const StepRec &a, const StepRec &b, const char *cls, const std::string &ctx)
    {
        std::string why;
        if (a.threw != b.threw)
            rep.v(cls, at(a) + ctx + ": one run threw " + (a.threw ? a.threw_what : b.threw_what));
        else if (!a.threw && (!same_res(a.r, b.r, why) || !same_seq(a.s, b.s, why)))
            rep.v(cls, at(a) + ctx + ": " + why);
    }
    static void c02(const Scenario &sc, Report &rep)
    {
        sim::g_alloc.active = true;
        sim::g_alloc.fill = 0x7ff4dead7ff4deadull; // signalling NaNs
        auto A = std::make_unique<World>(rep);
        A->paint = 0x7ff4beef7ff4beefull;
        A->run(sc.ops);
        auto sa = A->steps_of(0);
        // (1) other garbage in fresh memory
        {
            World B(rep);
            B.count = false;
            sim::g_alloc.fill = 0x3ff8000000000000ull; // 1.5
            B.paint = 0xbff0000000000000ull;           // -1
            B.run(sc.ops);
            auto sb = B.steps_of(0);
            if (sa.size() != sb.size()) return;
            for (size_t i = 0; i < sa.size(); i++) cmp_step(rep, *sa[i], *sb[i], "memory", "result depends on uninitialised memory");
        }
        if (!rep.viol.empty()) return;
        // (2) failed steps deleted
        {
            World B(rep);
            B.count = false;
            long nf = 0;
            for (auto *s : sa)
                if (failed(*s)) B.skip.insert(s->op), nf++;
            if (nf)
            {
                rep.c("twins.failed-steps-deleted");
                B.run(sc.ops);
                auto sb = B.steps_of(0);
                size_t j = 0;
                for (auto *s : sa)
                {
                    if (failed(*s)) continue;
                    if (j >= sb.size()) break;
                    cmp_step(rep, *s, *sb[j++], "trace", "result changes when the failed steps before it are deleted");
                }
            }
        }
        // (3) memoryless without warm start
        bool warm = false;
        for (auto &o : sc.ops)
            if (o.name == "par" && o.i("warm")) warm = true;
        if (!warm && rep.viol.empty())
        {
            for (size_t i = 1; i < sa.size(); i += sa.size() > 4 ? 2 : 1)
            {
                if (failed(*sa[i])) continue;
                World B(rep);
                B.count = false;
                for (auto *s : sa)
                    if (s != sa[i]) B.skip.insert(s->op);
                B.run(sc.ops);
                auto sb = B.steps_of(0);
                if (sb.size() == 1) cmp_step(rep, *sa[i], *sb[0], "memory-of-steps", "result without warm start depends on earlier steps"), rep.c("twins.step-alone");
            }
        }
        sim::g_alloc.active = false;
    }
    static Scenario g02(uint64_t seed)
    {
        Gen g("C02", seed);
        GOpt o;
        o.warm = 0.5;
        Dims d = g.config(o, 0);
        int n = g.len(3, 6);
        for (int i = 0; i < n; i++)
        {
            Op s = g.step(d, 0, 0.5);
            if (g.r.chance(0.4)) g.fault(s, d, 0);
            g.add(s);
        }
        return g.sc;
    }

    // ------------------------------------------------------------------ C03
    static void c03_step(Report &rep, const StepRec &s, bool converged)
    {
        const Cfg &g = s.cfg;
        const Dims &d = g.d;
        for (auto &v : s.cbviol)
            if (v.first == "cbshape" || v.first == "cbx0" || v.first == "cbindex" || v.first == "cbout" || v.first == "stale") rep.v(v.first, at(s) + v.second);
        if (!s.ok()) return;
        rep.c("solved-steps-checked");
        double sc = 1 + s.x.cwiseAbs().maxCoeff();
        for (int i = 0; i < d.nx; i++)
            if (!(std::fabs(s.s.x(0, i) - s.x(i)) <= 1e-9 * sc))
            {
                rep.v("seq-x0", at(s) + "sequence starts at " + show(Mat(s.s.x.row(0))) + ", measured state is " + show(Mat(s.x.transpose())));
                break;
            }
        if (maxdiff(s.r.cmd, Vec(s.s.u.row(0).transpose())) > 0) rep.v("cmd-row0", at(s) + "command " + show(s.r.cmd) + " is not the first input of the sequence " + show(Mat(s.s.u.row(0))));
        for (int k = d.ch; k <= d.ph; k++)
            if (maxdiff(s.s.u.row(k), s.s.u.row(d.ch - 1)) > 1e-12)
            {
                rep.v("hold", at(s) + fmt("input at step %d differs from the last free one", k));
                break;
            }
        Mat Y = g.Y(s.s.x, s.s.u);
        if (maxdiff(Y, s.s.y) > 1e-9 * (1 + Y.cwiseAbs().maxCoeff())) rep.v("output", at(s) + "output sequence " + show(s.s.y) + " is not the registered output map " + show(Y));
        double e = s.zopt.size() == (size_t)d.nz() ? s.zopt.back() : 0;
        if (g.obj)
        {
            double J = g.J(s.s.x, s.s.u, e);
            if (!close(J, s.r.cost, 1e-9)) rep.v("cost", at(s) + fmt("cost is %.12g, the registered objective on the returned trajectory is %.12g", s.r.cost, J));
        }
        if (g.st && converged)
        {
            double rr = g.R(s.s.x, s.s.u).cwiseAbs().maxCoeff();
            rep.m("residual", rr);
            rep.c("model-checked");
            if (!(rr <= 1e-3 + g.stol)) rep.v("model", at(s) + fmt("converged trajectory violates the registered model by %.3g", rr));
        }
    }
    static bool tight_tol(const Par &p)
    {
        // stops only on criteria tight enough that the line search has closed the constraints
        auto ok = [](double v)
        { return v <= 1e-8; };
        return ok(p.rf) && ok(p.rx) && ok(p.af) && ok(p.ax);
    }
    static void c03(const Scenario &sc, Report &rep)
    {
        World w(rep);
        w.watch_traj = true;
        w.run(sc.ops);
        for (auto *s : w.all_steps())
        {
            if (!inputs_finite(*s)) continue;
            // "solver did not stop early": real solver, success, and a problem known to have a
            // solution (whatever the inputs are, a trajectory of the model exists)
            const Cfg &g = s->cfg;
            bool solvable = !g.in && !g.eq && (g.xlo.array() == -INFINITY).all() && (g.xhi.array() == INFINITY).all();
            bool conv = !s->stub && s->ok() && s->r.status == SUCCESS && tight_tol(s->cfg.par) && solvable;
            c03_step(rep, *s, conv);
        }
    }
    static Scenario g03(uint64_t seed)
    {
        Gen g("C03", seed);
        GOpt o;
        o.ineq = 0.4, o.eq = 0.3, o.tight = 0.1;
        Dims d = g.config(o, 0);
        if (g.r.chance(0.7))
        {
            Op p = g.par(d, o, 0);
            for (const char *k : {"rf", "rx", "af", "ax"}) p.erase(k);
            p.set("maxit", 200).set(g.r.chance(0.5) ? "rx" : "rf", g.r.chance(0.5) ? 1e-9 : 1e-11);
            g.add(p);
        }
        int n = g.len(1, 4);
        for (int i = 0; i < n; i++) g.add(g.step(d, 0, 0.4));
        return g.sc;
    }

    // ------------------------------------------------------------------ C04
    static void seam_bounds(Report &rep, const StepRec &s, const char *cls)
    {
        const Cfg &g = s.cfg;
        const Dims &d = g.d;
        if (!s.solved || (int)s.call.n != d.nz()) return;
        auto cmp = [&](double z, double scale, double phys, const char *what, int i, int k)
        {
            if (phys == z * scale) return;
            if (!close(z * scale, phys, 1e-9)) rep.v(cls, at(s) + fmt("%s bound of component %d at step %d is %.9g in the solver, in force is %.9g", what, i, k, z * scale, phys));
        };
        for (int k = 0; k < d.ph; k++)
            for (int i = 0; i < d.nx; i++)
                cmp(s.call.lb[k * d.nx + i], g.sx(i), g.xlo(i, k), "lower state", i, k + 1), cmp(s.call.ub[k * d.nx + i], g.sx(i), g.xhi(i, k), "upper state", i, k + 1);
        for (int k = 0; k < d.ch; k++)
            for (int i = 0; i < d.nu; i++)
                cmp(s.call.lb[d.ph * d.nx + k * d.nu + i], g.su(i), g.ulo(i, k), "lower input", i, k), cmp(s.call.ub[d.ph * d.nx + k * d.nu + i], g.su(i), g.uhi(i, k), "upper input", i, k);
    }
    static void c04(const Scenario &sc, Report &rep)
    {
        World w(rep);
        w.watch_traj = true;
        w.run(sc.ops);
        for (auto *s : w.all_steps())
        {
            const Cfg &g = s->cfg;
            const Dims &d = g.d;
            for (auto &v : s->cbviol)
                if (v.first == "cbbound") rep.v("visited", at(*s) + v.second);
            for (auto &v : s->pt_viol) rep.v("visited", at(*s) + v);
            seam_bounds(rep, *s, "bounds-in-force");
            check_asked(rep, *s);
            // an empty box: there is no valid starting point, and nothing usable to return
            bool empty = (g.xlo.array() > g.xhi.array()).any() || (g.ulo.array() > g.uhi.array()).any();
            if (empty) rep.c("empty-box-steps");
            if (s->solved && inputs_finite(*s) && !empty)
            {
                for (unsigned i = 0; i < s->call.n; i++)
                    if (!(s->call.guess[i] >= s->call.lb[i] && s->call.guess[i] <= s->call.ub[i]))
                    {
                        rep.v("guess", at(*s) + fmt("starting guess %u is %.9g outside [%.9g,%.9g]", i, s->call.guess[i], s->call.lb[i], s->call.ub[i]));
                        break;
                    }
                if (s->ret == -2) rep.v("rejected", at(*s) + "solver rejected its arguments");
                if (s->stub && failed(*s) && s->fired.empty()) rep.v("failed", at(*s) + "step with a valid starting point failed: " + s->r.msg);
            }
            if (!s->ok()) continue;
            rep.c("solved-steps-checked");
            for (int k = 1; k <= d.ph; k++)
                for (int i = 0; i < d.nx; i++)
                {
                    double v = s->s.x(k, i), t = 1e-9 * (1 + std::fabs(v));
                    if (v < g.xlo(i, k - 1) - t || v > g.xhi(i, k - 1) + t) rep.v("returned", at(*s) + fmt("returned state %d at step %d is %.9g outside [%.9g,%.9g]", i, k, v, g.xlo(i, k - 1), g.xhi(i, k - 1)));
                }
            for (int k = 0; k <= d.ph; k++)
                for (int i = 0; i < d.nu; i++)
                {
                    int m = std::min(k, d.ch - 1);
                    double v = s->s.u(k, i), t = 1e-9 * (1 + std::fabs(v));
                    if (v < g.ulo(i, m) - t || v > g.uhi(i, m) + t) rep.v("returned", at(*s) + fmt("returned input %d at step %d is %.9g outside [%.9g,%.9g]", i, k, v, g.ulo(i, m), g.uhi(i, m)));
                }
        }
    }
    static Scenario g04(uint64_t seed)
    {
        Gen g("C04", seed);
        GOpt o;
        o.sb = 0.8, o.ib = 0.9, o.tight = 0.6, o.scale = 0.5;
        Dims d = g.config(o, 0);
        int n = g.len(1, 4);
        for (int i = 0; i < n; i++)
        {
            Op s = g.step(d, 0, 0.55);
            if (g.r.chance(0.3)) s.set("x", g.rnd(d.nx, -8, 8)).set("u", g.rnd(d.nu, -4, 4));
            if (g.r.chance(0.1))
            {
                double m = std::pow(10, g.r.range(2, 6));
                s.set("x", g.rnd(d.nx, -m, m));
            }
            if (g.r.chance(0.15)) g.fault(s, d, 0);
            g.add(s);
            if (g.r.chance(0.04)) // a lower bound above its upper one
            {
                Op b = g.bounds(d, g.r.chance(0.5), 0, true, 0.6);
                V lo = b.vec("lo"), hi = b.vec("hi");
                size_t k = (size_t)g.r.below((int)lo.size());
                if (lo[k] < hi[k] && std::isfinite(lo[k]) && std::isfinite(hi[k])) std::swap(lo[k], hi[k]);
                g.add(b.set("lo", lo).set("hi", hi));
            }
            if (g.r.chance(0.4)) g.add(g.bounds(d, g.r.chance(0.5), 0, false, 0.6));
            if (g.r.chance(0.2)) g.add(g.scaleop(d, g.r.chance(0.5), 0));
            if (g.r.chance(0.15)) g.add(g.par(d, o, 0));
        }
        return g.sc;
    }

    // ------------------------------------------------------------------ C05
    static void check_rets(Report &rep, const World &w)
    {
        for (auto &pc : w.ctl)
            for (auto &q : pc.second->rets)
                if (q.ret != q.expected) rep.v("return-value", fmt("op %zu: %s returned %d, expected %d", q.op, q.name.c_str(), q.ret, q.expected));
    }
    static void c05(const Scenario &sc, Report &rep)
    {
        World w(rep);
        w.run(sc.ops);
        check_rets(rep, w);
        for (auto *s : w.all_steps())
        {
            seam_bounds(rep, *s, "slice");
            check_asked(rep, *s);
            if (s->solved) rep.c("bound-tables-compared");
        }
    }
    static Scenario g05(uint64_t seed)
    {
        Gen g("C05", seed);
        GOpt o;
        o.sb = o.ib = 0.3, o.ineq = 0.1, o.eq = 0.1, o.scale = 0.25;
        Dims d = g.config(o, 0);
        int n = g.len(4, 14);
        for (int i = 0; i < n; i++)
        {
            int k = g.r.below(10);
            if (k < 6)
                g.add(g.bounds(d, g.r.chance(0.5), 0, false, 0.5));
            else if (k < 7)
                g.add(g.mbounds(d, g.r.chance(0.5), 0, 0.5));
            else if (k < 8)
                g.add(Op("slice").set("c", 0).set("a", g.r.range(-2, d.ph + 1)).set("b", g.r.range(-2, d.ph + 2)));
            else
            {
                Op s = g.step(d, 0, 1.0);
                s.set("nev", 0);
                if (g.r.chance(0.1)) g.fault(s, d, 0);
                g.add(s);
            }
        }
        g.add(g.step(d, 0, 1.0).set("nev", 0));
        return g.sc;
    }

    // ------------------------------------------------------------------ C06
    static void c06(const Scenario &sc, Report &rep)
    {
        World w(rep);
        w.run(sc.ops);
        for (auto *s : w.all_steps())
        {
            const Cfg &g = s->cfg;
            if (s->threw) continue;
            if (!s->ok())
            {
                if (s->r.feas) rep.v("failed-feasible", at(*s) + "failed step is marked feasible");
                continue;
            }
            if (s->poison) continue; // constraint values of the check were scripted by a fault
            double e = s->zopt.back();
            Vec I = g.I(s->s.x, s->s.u, e), E = g.E(s->s.x, s->s.u);
            const Op &op = sc.ops[s->op];
            std::set<int> si, se;
            if (g.in)
                for (auto &c : op.all("civ"))
                {
                    int i = (int)strtol(c.c_str(), nullptr, 10);
                    if (i < I.size()) I(i) = sim::parse_num(c.substr(c.find(':') + 1)), si.insert(i);
                }
            if (g.eq)
                for (auto &c : op.all("cev"))
                {
                    int i = (int)strtol(c.c_str(), nullptr, 10);
                    if (i < E.size()) E(i) = sim::parse_num(c.substr(c.find(':') + 1)), se.insert(i);
                }
            bool exp = true, amb = false;
            double ti = (double)g.itol, te = (double)g.etol;
            for (int i = 0; i < I.size(); i++)
            {
                if (!(I(i) <= ti)) exp = false;
                if (!si.count(i) && std::fabs(I(i) - ti) <= 1e-9 * (1 + std::fabs(I(i)))) amb = true;
            }
            for (int i = 0; i < E.size(); i++)
            {
                if (!(std::fabs(E(i)) <= te)) exp = false;
                if (!se.count(i) && std::fabs(std::fabs(E(i)) - te) <= 1e-9 * (1 + std::fabs(E(i)))) amb = true;
            }
            if (amb)
            {
                rep.c("ambiguous-margin");
                continue;
            }
            rep.c(exp ? "expected-feasible" : "expected-infeasible");
            if (exp != s->r.feas) rep.v("feasibility", at(*s) + fmt("is_feasible=%d, but the constraints at the returned trajectory are ineq ", s->r.feas) + show(Mat(I.transpose())) + fmt(" (tol %g) eq ", ti) + show(Mat(E.transpose())) + fmt(" (tol %g) slack %g", te, e));
        }
    }
    static Scenario g06(uint64_t seed)
    {
        Gen g("C06", seed);
        GOpt o;
        o.ineq = 0.8, o.eq = 0.65, o.soft = 0.4, o.scale = 0.2;
        Dims d = g.config(o, 0);
        double ti = 1e-10, te = 1e-10;
        auto note = [&]()
        {
            for (auto &p : g.sc.ops)
            {
                if (p.name == "ineq") ti = (double)(float)p.d("tol", 1e-10);
                if (p.name == "eq") te = (double)(float)p.d("tol", 1e-10);
            }
        };
        note();
        int n = g.len(2, 6);
        for (int i = 0; i < n; i++)
        {
            Op s = g.step(d, 0, 0.85);
            if (s.str("solver") == "stub" && g.r.chance(0.85))
            {
                auto val = [&](double t, bool both) -> double
                {
                    double sg = both && g.r.chance(0.5) ? -1 : 1;
                    switch (g.r.below(9))
                    {
                    case 0: return NAN;
                    case 1: return sg * INF;
                    case 2: return -INF;
                    case 3: return sg * t * 1.001;
                    case 4: return sg * t * 0.999;
                    case 5: return t >= 0.001 && std::log2(t) == std::floor(std::log2(t)) ? sg * t : 0;
                    case 6: return sg * g.r.uni(0, 2 * t);
                    default: return both ? sg * 0.5 * t : -g.r.uni(0, 2);
                    }
                };
                bool mostly_ok = g.r.chance(0.6);
                int odd_i = d.ineq ? g.r.below(d.ineq + 1) : -1, odd_e = d.eq ? g.r.below(d.eq + 1) : -1;
                for (int j = 0; j < d.ineq; j++)
                {
                    double v = mostly_ok && j != odd_i ? -g.r.uni(0.1, 1) : val(ti, false);
                    s.add("civ", fmt("%d:%s", j, sim::num(v).c_str()));
                }
                for (int j = 0; j < d.eq; j++)
                {
                    double v = mostly_ok && j != odd_e ? 0.0 : val(te, true);
                    s.add("cev", fmt("%d:%s", j, sim::num(v).c_str()));
                }
            }
            if (g.r.chance(0.1)) g.fault(s, d, 0);
            g.add(s);
            if (g.r.chance(0.15) && d.ineq)
            {
                g.add(g.fnop("ineq", o, 0));
                note();
            }
            if (g.r.chance(0.15) && d.eq)
            {
                g.add(g.fnop("eq", o, 0));
                note();
            }
            if (g.r.chance(0.2)) g.add(g.par(d, o, 0));
        }
        return g.sc;
    }

    // ------------------------------------------------------------------ C07
    static void check_params(Report &rep, const StepRec &s)
    {
        if (!s.solved) return;
        const Par &p = s.cfg.par;
        auto dis = [](double v)
        { return v > 0 ? v : 0; };
        auto cmp = [&](double got, double want, const char *n)
        {
            if (!close(dis(got), dis(want), 1e-12)) rep.v("parameters", at(s) + fmt("%s in the solver is %.9g, latest parameters say %.9g", n, got, want));
        };
        cmp(s.call.ftol_rel, p.rf, "relative_ftol");
        cmp(s.call.ftol_abs, p.af, "absolute_ftol");
        cmp(s.call.xtol_rel, p.rx, "relative_xtol");
        for (double v : s.call.xtol_abs)
            if (!close(dis(v), dis(p.ax), 1e-12))
            {
                cmp(v, p.ax, "absolute_xtol");
                break;
            }
        cmp(s.call.maxeval, p.maxit, "maximum_iteration");
        cmp(s.call.maxtime, p.tl, "time_limit");
    }
    static void c07(const Scenario &sc, Report &rep)
    {
        World w(rep);
        w.run(sc.ops);
        for (auto *s : w.all_steps())
        {
            if (s->threw) continue;
            check_params(rep, *s);
            check_asked(rep, *s);
            const Par &p = s->cfg.par;
            if (s->solved)
            {
                int exp = s->ret < 0 ? ERROR_ : (s->ret == 5 || s->ret == 6) ? MAX_ITERATION
                                                                            : SUCCESS;
                bool lost = exp != ERROR_ && (s->poison || s->thrown_fault || !s->fired.empty() || !inputs_finite(*s)); // may fail for another reason
                if (s->r.status != exp && !(lost && s->r.status == ERROR_)) rep.v("status", at(*s) + fmt("solver stopped with code %d, status is %d", s->ret, s->r.status));
                if (s->ok() && s->r.code != s->ret) rep.v("status", at(*s) + fmt("solver code is %d, reported %d", s->ret, s->r.code));
                rep.c(fmt("ret.%d", s->ret));
                if (!s->stub && p.maxit > 0 && s->evals > p.maxit) rep.v("budget-eval", at(*s) + fmt("%ld evaluations with maximum_iteration %d", s->evals, p.maxit));
                if (!s->stub && p.tl > 0 && s->last_eval_start > p.tl + 1e-6) rep.v("budget-time", at(*s) + fmt("an evaluation was started %.6f s into a step with time_limit %.6f", s->last_eval_start, p.tl));
                if (!s->stub && !sc.ops[s->op].has("ret"))
                {
                    if (s->r.status == MAX_ITERATION && !(p.maxit > 0 && s->evals >= p.maxit) && !(p.tl > 0 && s->elapsed >= p.tl * 0.999)) rep.v("status", at(*s) + "MAX_ITERATION although no budget was exhausted");
                }
            }
            else if (s->r.status != ERROR_)
                rep.v("status", at(*s) + "status reports a solution but the solver never ran");
        }
    }
    static Scenario g07(uint64_t seed)
    {
        Gen g("C07", seed);
        GOpt o;
        Dims d = g.config(o, 0);
        int n = g.len(2, 6);
        for (int i = 0; i < n; i++)
        {
            bool limited = false;
            if (g.r.chance(0.6))
            {
                Op p = g.par(d, o, 0);
                if (g.r.chance(0.5)) p.set("tl", g.r.chance(0.12) ? std::round(g.r.uni(1, 5000)) / 100 : std::round(g.r.uni(1, 200)) / 1000), limited = true;
                if (g.r.chance(0.3)) p.set("maxit", g.r.range(1, 8));
                if (g.r.chance(0.1)) p.set(g.r.chance(0.5) ? "rf" : g.r.chance(0.5) ? "rx" : "ax", g.r.chance(0.5) ? 0.05 : 0);
                if (limited && g.r.chance(0.1)) p.set("maxit", 0);
                g.add(p);
            }
            Op s = g.step(d, 0, 0.4);
            if (limited || g.r.chance(0.4)) s.set("dt", (long)g.r.range(1000, 200000));
            if (g.r.chance(0.3)) s.add("f", fmt("%c:%d:slow:%g", "FSOIA"[g.r.below(5)], g.r.range(1, 60), std::round(g.r.uni(1, 400)) / 1000));
            if (s.str("solver") == "stub" && g.r.chance(0.7))
            {
                static const int rets[] = {1, 2, 3, 4, 5, 6, -1, -3, -4, -5, 5, 6};
                s.set("ret", rets[g.r.below(12)]);
            }
            if (g.r.chance(0.1)) g.fault(s, d, 0);
            g.add(s);
        }
        return g.sc;
    }

    // ------------------------------------------------------------------ C08
    // what is printed are the statistics
    static void check_stats_text(Report &rep, size_t i, const std::string &t, const Stats &st)
    {
        auto number = [&](const std::string &key, double &v)
        {
            size_t p = t.find("- " + key + ": ");
            return p != std::string::npos && sscanf(t.c_str() + p + key.size() + 4, "%lf", &v) == 1;
        };
        auto cmp = [&](const std::string &key, double e, double tol)
        {
            double v = 0;
            if (!number(key, v)) rep.v("printed", fmt("op %zu: the printed statistics do not show '%s'", i, key.c_str()));
            else if (!(std::fabs(v - e) <= tol)) rep.v("printed", fmt("op %zu: the printed '%s' is %.9g, it is %.9g", i, key.c_str(), v, e));
        };
        // six digits for the times (two for the total), two for the percentages
        cmp("min", st.mn, 1e-6), cmp("max", st.mx, 1e-6), cmp("avg", st.avg, 1e-6), cmp("std", st.sd, 1e-6), cmp("tot", st.tot, 6e-3), cmp("num", st.n, 0.1);
        static const char *names[] = {"SUCCESS", "MAX_ITERATION", "INFEASIBLE", "ERROR", "UNKNOWN"};
        for (auto &p : st.st)
            if (p.second && p.first >= 0 && p.first < 5) cmp(names[p.first], 100.0 * p.second / st.n, 6e-3);
        rep.c("printed-statistics-compared");
    }
    static void c08(const Scenario &sc, Report &rep)
    {
        World w(rep);
        std::map<int, std::vector<std::pair<double, int>>> hist;
        std::map<int, size_t> seen;
        std::map<int, Stats> fresh;
        for (size_t i = 0; i < sc.ops.size(); i++)
        {
            const Op &op = sc.ops[i];
            int id = (int)op.i("c", 0);
            w.exec(op, i);
            CtlState *cs = w.get(id);
            if (!cs || op.name == "jump" || op.name == "adv") continue;
            Stats st = cs->c->stats();
            if (op.name == "new")
            {
                hist[id].clear(), seen[id] = 0;
                fresh[id] = st;
                continue;
            }
            if (op.name == "reset")
            {
                hist[id].clear();
                const Stats &f = fresh[id];
                if (st.n != 0 || !st.st.empty() || st.tot != 0 || st.mn != f.mn || st.mx != f.mx || st.avg != f.avg || st.sd != f.sd) rep.v("reset", fmt("op %zu: statistics after reset are not pristine", i));
                continue;
            }
            if (cs->steps.size() > seen[id])
            {
                seen[id] = cs->steps.size();
                const StepRec &s = cs->steps.back();
                if (s.threw) return;
                hist[id].emplace_back(s.elapsed, s.r.status);
            }
            auto &h = hist[id];
            std::map<int, int> cnt;
            double mn = INF, mx = -INF, tot = 0;
            for (auto &p : h) cnt[p.second]++, mn = std::min(mn, p.first), mx = std::max(mx, p.first), tot += p.first;
            std::map<int, int> got;
            for (auto &p : st.st)
                if (p.second) got[p.first] = p.second;
            if (st.n != (int)h.size()) rep.v("count", fmt("op %zu: %d solutions counted, %zu steps taken", i, st.n, h.size()));
            if (got != cnt) rep.v("count", fmt("op %zu: statuses are miscounted", i));
            if (h.empty()) continue;
            double avg = tot / (double)h.size(), var = 0;
            for (auto &p : h) var += (p.first - avg) * (p.first - avg);
            double sd = std::sqrt(var / (double)h.size());
            auto cmp = [&](double g, double e, const char *n, double tol)
            {
                if (!(std::fabs(g - e) <= tol)) rep.v("value", fmt("op %zu: %s is %.9g, over the %zu steps it is %.9g", i, n, g, h.size(), e));
            };
            double t = 1e-9 * (1 + tot);
            cmp(st.mn, mn, "minimum", t), cmp(st.mx, mx, "maximum", t), cmp(st.avg, avg, "average", t), cmp(st.tot, tot, "total", t), cmp(st.sd, sd, "standard deviation", 1e-7 * (1 + mx));
            check_stats_text(rep, i, cs->c->stats_text(), st);
            rep.c("statistics-compared");
        }
        // resetting does not affect control
        bool has = false;
        for (size_t i = 0; i < sc.ops.size(); i++) has = has || sc.ops[i].name == "reset";
        if (has && rep.viol.empty())
        {
            World B(rep);
            B.count = false;
            for (size_t i = 0; i < sc.ops.size(); i++)
                if (sc.ops[i].name == "reset") B.skip.insert(i);
            B.run(sc.ops);
            auto a = w.steps_of(0), b = B.steps_of(0);
            for (size_t i = 0; i < a.size() && i < b.size(); i++) cmp_step(rep, *a[i], *b[i], "reset-affects-control", "result changes when resetStats() is not called");
        }
    }
    static Scenario g08(uint64_t seed)
    {
        Gen g("C08", seed);
        GOpt o;
        Dims d = g.config(o, 0);
        // some controllers run for long, some always take equally long
        bool lng = g.r.chance(0.1);
        bool vlong = g.r.chance(0.015) && d.ph * d.nx <= 18; // longer than the small counters
        int n = vlong ? g.r.range(257, 600) : lng ? g.len(20, 70) : g.len(3, 12);
        bool same = g.r.chance(0.25);
        bool ages = g.r.chance(0.06); // evaluations of minutes to days
        long every = (long)g.r.range(1, 1000000);
        for (int i = 0; i < n; i++)
        {
            int k = g.r.below(vlong ? 500 : lng ? 60 : 12);
            if (k == 0)
                g.add(Op("reset").set("c", 0));
            else if (k == 1)
                g.add(Op("jump").set("s", std::round(g.r.uni(-5000, 5000))));
            else if (k == 2)
                g.add(Op("adv").set("s", std::round(g.r.uni(0, 100))));
            Op s = g.step(d, 0, 0.9);
            if (vlong && !s.has("solver")) s.set("solver", "stub").set("pt", "rand");
            s.set("dt", same ? every : (long)g.r.range(0, 3) == 0 ? 0l : (long)g.r.range(1, 1000000));
            if (same)
            {
                g.add(s);
                continue;
            }
            if (g.r.chance(0.4)) s.add("f", fmt("%c:%d:slow:%g", "FSA"[g.r.below(3)], g.r.range(1, 8), std::round(g.r.uni(1, 3000)) / 1000));
            if (ages && g.r.chance(0.5)) s.add("f", fmt("A:%d:slow:%g", g.r.range(1, 3), std::round(std::exp(g.r.uni(0, 12)))));
            if (g.r.chance(0.4)) s.add("f", fmt("%c:%d:jump:%g", "FSA"[g.r.below(3)], g.r.range(1, 8), std::round(g.r.uni(-9000, 9000)) / 10));
            if (g.r.chance(0.25)) s.add("f", fmt("pA:%d:slow:%g", g.r.range(1, 4), std::round(g.r.uni(1, 3000)) / 1000));
            if (g.r.chance(0.3)) g.fault(s, d, 0);
            g.add(s);
        }
        return g.sc;
    }

    // ------------------------------------------------------------------ C09
    // Every controller belongs to one caller; callers are interleaved by the scheduler (threads) or one
    // caller's operations run inside the callbacks of another (nested).
    // controllers handed from caller to caller: every operation names the caller which makes it, the order of
    // the operations on one controller is kept, callers end while their controllers live on
    static std::vector<std::function<void()>> migrating(World &W, const std::vector<Op> &ops, std::vector<char> &done)
    {
        int nw = 0;
        for (auto &o : ops) nw = std::max(nw, (int)o.i("w") + 1);
        done.assign(ops.size(), 0);
        std::vector<std::function<void()>> tasks;
        for (int w = 0; w < nw; w++)
            tasks.push_back([&W, &ops, &done, w]()
                            {
                for (size_t i = 0; i < ops.size(); i++)
                {
                    if ((int)ops[i].i("w") != w) continue;
                    auto ready = [&]
                    {
                        for (size_t j = 0; j < i; j++)
                            if (!done[j] && ops[j].i("c") == ops[i].i("c")) return false;
                        return true;
                    };
                    while (!ready()) sim::Sched::pass();
                    W.exec(ops[i], i);
                    done[i] = 1;
                    sim::yield_point();
                } });
        return tasks;
    }
    static bool migrates(const std::vector<Op> &ops)
    {
        for (auto &o : ops)
            if (o.has("w")) return true;
        return false;
    }
    // gives every operation a caller of its own and mixes the controllers' operations
    static std::vector<Op> hand_around(Rng &r, const std::vector<std::vector<Op>> &per)
    {
        std::vector<size_t> at(per.size(), 0);
        std::vector<Op> out;
        int nw = r.range(2, 4);
        for (;;)
        {
            std::vector<size_t> open;
            for (size_t t = 0; t < per.size(); t++)
                if (at[t] < per[t].size()) open.push_back(t);
            if (open.empty()) return out;
            size_t t = open[(size_t)r.below((int)open.size())];
            Op o = per[t][at[t]++];
            out.push_back(o.set("w", r.below(nw)));
        }
    }
    static void c09(const Scenario &sc, Report &rep)
    {
        std::vector<Op> ops;
        std::vector<sim::Preempt> pre;
        std::vector<long> nest;
        int ntask = 0;
        long dense = 0, gap = 1; // the callers start their steps together and take turns
        int fine = 0; // 1: preempted at allocations too, 2: at function entries
        for (auto &o : sc.ops)
        {
            if (o.name == "pre")
                pre.push_back({o.i("at"), (int)o.i("to")});
            else if (o.name == "fine") fine = (int)o.i("v"), dense = o.i("dense"), gap = o.i("gap", 1);
            else if (o.name == "nest")
                nest.push_back(o.i("at"));
            else
            {
                ops.push_back(o);
                ntask = std::max(ntask, (int)o.i("c") + 1);
            }
        }
        if (ntask < 1) return;
        // solo runs
        std::vector<std::unique_ptr<World>> solo;
        for (int t = 0; t < ntask; t++)
        {
            solo.push_back(std::make_unique<World>(rep));
            for (size_t i = 0; i < ops.size(); i++)
                if ((int)ops[i].i("c") != t) solo[(size_t)t]->skip.insert(i);
            solo[(size_t)t]->run(ops);
        }
        auto W = std::make_unique<World>(rep);
        W->count = false;
        long total = 0;
        if (nest.empty())
        {
            std::vector<std::function<void()>> tasks;
            for (int t = 0; t < ntask; t++)
                tasks.push_back([&, t]()
                                {
                    for (size_t i = 0; i < ops.size(); i++)
                        if ((int)ops[i].i("c") == t)
                        {
                            if (dense && ops[i].name == "step") sim::Sched::meet(dense, gap);
                            W->exec(ops[i], i);
                            sim::yield_point();
                        } });
            std::vector<char> done;
            if (migrates(ops)) tasks = migrating(*W, ops, done), rep.c("handed-around-runs");
            std::sort(pre.begin(), pre.end(), [](auto &a, auto &b)
                      { return a.at < b.at; });
            sim::g_alloc_yield = fine == 1, sim::g_fn_yield = fine == 2;
            sim::Sched::run(tasks, pre);
            sim::g_alloc_yield = sim::g_fn_yield = false;
            if (fine) rep.c(fine == 1 ? "preempted-at-allocations" : "preempted-at-functions");
            total = sim::Sched::yields();
            rep.c("switches", (double)sim::Sched::switches());
            rep.m("yield-points", (double)total);
            for (auto &p : pre) rep.shp((uint64_t)p.at * 8 + (uint64_t)p.to);
        }
        else
        {
            std::sort(nest.begin(), nest.end());
            std::vector<std::pair<size_t, int>> rest; // operations of the other callers, in order
            for (size_t i = 0; i < ops.size(); i++)
                if (ops[i].i("c") != 0) rest.emplace_back(i, 0);
            size_t rn = 0, nn = 0;
            long count = 0;
            bool inside = false;
            sim::g_nested_hook = [&]()
            {
                if (inside) return;
                count++;
                while (nn < nest.size() && nest[nn] <= count && rn < rest.size())
                {
                    nn++;
                    inside = true;
                    size_t i = rest[rn++].first;
                    rep.c("nested-operations");
                    W->exec(ops[i], i);
                    inside = false;
                }
            };
            for (size_t i = 0; i < ops.size(); i++)
                if (ops[i].i("c") == 0) W->exec(ops[i], i);
            sim::g_nested_hook = nullptr;
            while (rn < rest.size())
            {
                size_t i = rest[rn++].first;
                W->exec(ops[i], i);
            }
            for (auto v : nest) rep.shp((uint64_t)v);
        }
        for (int t = 0; t < ntask; t++)
        {
            auto a = solo[(size_t)t]->steps_of(t), b = W->steps_of(t);
            if (a.size() != b.size())
            {
                rep.v("isolation", fmt("controller %d took %zu steps alone and %zu interleaved", t, a.size(), b.size()));
                continue;
            }
            for (size_t i = 0; i < a.size(); i++)
            {
                cmp_step(rep, *a[i], *b[i], "isolation", "differs from the same calls made alone");
                // how long the real solver works on values which are not finite is its own business
                bool undefined = !a[i]->stub && (a[i]->poison || !inputs_finite(*a[i]));
                for (int k = 0; k < 5 && !undefined; k++)
                    if (a[i]->calls[k] != b[i]->calls[k])
                    {
                        rep.v("isolation", at(*a[i]) + "number of callbacks differs from the same calls made alone");
                        break;
                    }
                if (a[i]->st.n != b[i]->st.n || a[i]->st.st != b[i]->st.st) rep.v("isolation", at(*a[i]) + "statistics counts differ from the same calls made alone");
                for (auto &v : b[i]->cbviol)
                    if (v.first == "cbx0" || v.first == "stale" || v.first == "cbshape") rep.v("isolation", at(*b[i]) + v.second);
                rep.c("isolated-steps-compared");
            }
            auto &ra = solo[(size_t)t]->ctl[t], &rb = W->ctl[t];
            if (ra && rb && ra->rets.size() == rb->rets.size())
                for (size_t i = 0; i < ra->rets.size(); i++)
                    if (ra->rets[i].ret != rb->rets[i].ret) rep.v("isolation", fmt("controller %d: setter %s returned differently when interleaved", t, ra->rets[i].name.c_str()));
        }
    }
    static Scenario g09(uint64_t seed)
    {
        Gen g("C09", seed);
        GOpt o;
        o.nlp = 0.3;
        int nt = g.r.chance(0.7) ? 2 : 3;
        std::vector<std::vector<Op>> per;
        bool same = g.r.chance(0.5);
        bool dyn0 = false;
        Dims d0 = g.dims(o, dyn0);
        for (int t = 0; t < nt; t++)
        {
            Gen h("C09", g.r.u64());
            Dims d = same ? h.config_for(d0, dyn0, o, t) : h.config(o, t);
            int n = g.r.range(1, 3);
            for (int i = 0; i < n; i++)
            {
                Op s = h.step(d, t, 0.5);
                if (h.r.chance(0.2)) h.fault(s, d, t);
                h.add(s);
                if (h.r.chance(0.2)) h.add(h.bounds(d, h.r.chance(0.5), t, true, 0.4));
                if (h.r.chance(0.1)) h.add(h.par(d, o, t));
            }
            if (h.r.chance(0.2)) h.add(Op("del").set("c", t));
            per.push_back(h.sc.ops);
        }
        // program order within a caller is kept; the listing order is irrelevant
        bool around = g.r.chance(0.25);
        if (around)
            for (auto &o : hand_around(g.r, per)) g.add(o);
        else
            for (auto &v : per)
                for (auto &p : v) g.add(p);
        // real steps make up to tens of thousands of yield points: place switches log-uniformly
        if (around || g.r.chance(0.65))
        {
            int at_alloc = g.r.chance(0.5) ? g.r.range(1, 2) : 0;
            if (at_alloc) {
                Op f = Op("fine").set("v", at_alloc);
                if (g.r.chance(0.5)) f.set("dense", (long)std::exp(g.r.uni(3, 7.5))).set("gap", g.r.range(1, 6));
                g.add(f);
            }
            int n = at_alloc ? g.r.range(8, 60) : g.r.range(1, 12);
            long atp = 0;
            for (int i = 0; i < n; i++)
            {
                // a step allocates some hundred thousand times: bursts of switches, far from one another
                double far = !at_alloc ? 6.5 : i % 8 == 0 ? 10.5 : 4.5;
                atp += 1 + (long)std::exp(g.r.uni(0, far));
                g.add(Op("pre").set("at", atp).set("to", g.r.below(nt)));
            }
        }
        else
        {
            int n = g.r.range(3, 30);
            long atp = 0;
            for (int i = 0; i < n; i++)
            {
                atp += 1 + (long)std::exp(g.r.uni(0, 4.5));
                g.add(Op("nest").set("at", atp));
            }
        }
        return g.sc;
    }

    // the fixed part of a log line: everything but its numbers
    static std::string skeleton(const std::string &s)
    {
        std::string o;
        for (char ch : s)
            if (!strchr("0123456789+-.e \t\n", ch)) o += ch;
        return o;
    }

    // ------------------------------------------------------------------ C10
    struct LogModel
    {
        int level = 1;
        std::string prefix;
    };
    // callers which log at the same time: each writes the messages it writes alone, all of them and no others
    static void c10_callers(const Scenario &sc, Report &rep)
    {
        std::vector<Op> ops;
        std::vector<sim::Preempt> pre;
        int ntask = 0, lv = 0, fine = 0;
        long dense = 0, gap = 1;
        for (auto &o : sc.ops)
        {
            if (o.name == "pre") pre.push_back({o.i("at"), (int)o.i("to")});
            else if (o.name == "fine") fine = (int)o.i("v"), dense = o.i("dense"), gap = o.i("gap", 1);
            else if (o.name == "callers") lv = (int)o.i("level");
            else ops.push_back(o), ntask = std::max(ntask, (int)o.i("c") + 1);
        }
        if (ntask < 1) return;
        std::vector<std::string> alone;
        std::vector<char> undef((size_t)ntask, 0);
        for (int t = 0; t < ntask; t++)
        {
            World A(rep);
            A.quiet_log = true;
            auto sink = std::make_shared<LogSink>();
            log_stream(sink.get()), log_level(lv);
            for (size_t i = 0; i < ops.size(); i++)
                if ((int)ops[i].i("c") != t) A.skip.insert(i);
            A.run(ops);
            for (auto *s : A.steps_of(t)) undef[(size_t)t] |= !s->stub && (s->poison || !inputs_finite(*s));
            log_stream(nullptr);
            alone.push_back(skeleton(sink->text));
        }
        World W(rep);
        W.quiet_log = true, W.count = false;
        auto sink = std::make_shared<LogSink>();
        sink->mode = 3;
        log_stream(sink.get()), log_level(lv);
        std::vector<std::function<void()>> tasks;
        for (int t = 0; t < ntask; t++)
            tasks.push_back([&, t]()
                            {
                for (size_t i = 0; i < ops.size(); i++)
                    if ((int)ops[i].i("c") == t)
                    {
                        if (dense && ops[i].name == "step") sim::Sched::meet(dense, gap);
                        W.exec(ops[i], i);
                        sim::yield_point();
                    } });
        std::sort(pre.begin(), pre.end(), [](auto &a, auto &b)
                  { return a.at < b.at; });
        sim::g_alloc_yield = fine == 1, sim::g_fn_yield = fine == 2;
        sim::Sched::run(tasks, pre);
        sim::g_alloc_yield = sim::g_fn_yield = false;
        rep.c("switches", (double)sim::Sched::switches());
        for (auto &p : pre) rep.shp((uint64_t)p.at * 8 + (uint64_t)p.to);
        for (int t = 0; t < ntask; t++)
        {
            if (undef[(size_t)t]) continue; // how long the solver works on such values is its own business
            std::string got = skeleton(sink->by_task[t]);
            if (got != alone[(size_t)t])
            {
                size_t k = 0;
                while (k < got.size() && k < alone[(size_t)t].size() && got[k] == alone[(size_t)t][k]) k++;
                k = k > 20 ? k - 20 : 0;
                rep.v("callers", fmt("level %d: caller %d wrote \"...%.60s\" among others, alone it writes \"...%.60s\"", lv, t, got.substr(k, 60).c_str(), alone[(size_t)t].substr(k, 60).c_str()));
            }
            rep.c("callers-compared");
        }
        log_stream(nullptr);
    }
    static void c10(const Scenario &sc, Report &rep)
    {
        for (auto &o : sc.ops)
            if (o.name == "callers") return c10_callers(sc, rep);
        // the run as scripted
        World A(rep);
        std::string cur; // what direct messages must have produced since the sink was installed
        LogModel m;
        m.level = 3; // World starts silent
        bool have_sink = false, bad_stream = false;
        int last_steps = 0;
        for (size_t i = 0; i < sc.ops.size(); i++)
        {
            const Op &op = sc.ops[i];
            size_t before = A.sink ? A.sink->text.size() : 0;
            long wbefore = A.sink ? A.sink->writes : 0;
            A.exec(op, i);
            if (op.name == "glevel" || op.name == "level") m.level = (int)op.i("v");
            if (op.name == "gprefix" || op.name == "prefix") m.prefix = op.str("v");
            if (op.name == "lreset") m.level = 1, m.prefix = ""; // what it was when the program started
            if (op.name == "stream")
            {
                have_sink = true;
                bad_stream = op.i("mode", 0) != 0;
                continue;
            }
            if (!have_sink) continue;
            std::string add = A.sink->text.substr(before);
            std::string head = m.prefix.empty() ? "[MPC++] " : "[MPC++ " + m.prefix + "] ";
            bool midlevel = false;
            for (auto &f : op.all("f")) midlevel = midlevel || f.find(":level") != std::string::npos;
            if (midlevel)
            {
                for (auto &f : op.all("f"))
                    if (f.find(":level:") != std::string::npos) m.level = -1; // resynchronised by the glevel op that follows
                continue;
            }
            if (m.level < 0) continue;
            if (m.level == 3 && (A.sink->writes != wbefore || !add.empty()))
            {
                rep.v("none-silent", fmt("op %zu wrote %zu characters with level NONE", i, add.size()));
                continue;
            }
            if (bad_stream) continue;
            if (op.name == "say")
            {
                std::string exp = (int)op.i("type") >= m.level ? head + op.str("v") + "\n" : "";
                if (add != exp) rep.v("message", fmt("op %zu: logged \"%s\", expected \"%s\"", i, add.c_str(), exp.c_str()));
                rep.c("messages-compared");
            }
            else if (!add.empty())
            {
                // every message carries the prefix in force
                if (add.compare(0, head.size(), head) != 0) rep.v("prefix", fmt("op %zu: output starts with \"%.40s\", prefix in force is \"%s\"", i, add.c_str(), m.prefix.c_str()));
                for (size_t p = add.find("[MPC++"); p != std::string::npos; p = add.find("[MPC++", p + 1))
                    if (add.compare(p, head.size(), head) != 0)
                    {
                        rep.v("prefix", fmt("op %zu: a message carries \"%.40s\", prefix in force is \"%s\"", i, add.substr(p, 40).c_str(), m.prefix.c_str()));
                        break;
                    }
                rep.c("message-blocks-checked");
            }
        }
        (void)last_steps;
        // silent twin
        World B(rep);
        B.count = false;
        B.quiet_log = true;
        B.run(sc.ops);
        auto a = A.steps_of(0), b = B.steps_of(0);
        for (size_t i = 0; i < a.size() && i < b.size(); i++)
        {
            cmp_step(rep, *a[i], *b[i], "control", "logging changes the result");
            const Stats &x = a[i]->st, &y = b[i]->st;
            if (x.n != y.n || x.st != y.st || x.mn != y.mn || x.mx != y.mx || x.avg != y.avg || x.tot != y.tot || x.sd != y.sd) rep.v("control", at(*a[i]) + fmt("logging changes the statistics: n %ld/%ld min %.9g/%.9g max %.9g/%.9g mean %.9g/%.9g total %.17g/%.17g sd %.9g/%.9g", (long)x.n, (long)y.n, (double)x.mn, (double)y.mn, (double)x.mx, (double)y.mx, (double)x.avg, (double)y.avg, (double)x.tot, (double)y.tot, (double)x.sd, (double)y.sd));
            for (int k = 0; k < 5; k++)
                if (a[i]->calls[k] != b[i]->calls[k] || a[i]->pcalls[k] != b[i]->pcalls[k])
                {
                    rep.v("control", at(*a[i]) + "logging changes the number of callbacks");
                    break;
                }
        }
        // the messages of a step at a level are those of a lower level minus the less severe ones
        std::string prev;
        std::vector<std::string> prevm;
        for (int lv = 0; lv <= 3 && rep.viol.empty(); lv++)
        {
            World C(rep);
            C.count = false;
            auto sink = std::make_shared<LogSink>();
            std::vector<std::string> ms;
            C.quiet_log = true;
            log_stream(sink.get());
            log_prefix("Q");
            log_level(lv);
            C.run(sc.ops);
            std::string t = sink->text;
            for (size_t p = t.find("[MPC++ Q] "); p != std::string::npos;)
            {
                size_t q = t.find("[MPC++ Q] ", p + 1);
                ms.push_back(t.substr(p, q == std::string::npos ? q : q - p));
                p = q;
            }
            if (lv == 3 && !t.empty()) rep.v("none-silent", "messages were written with level NONE");
            if (lv > 0)
            {
                size_t j = 0;
                for (auto &x : ms)
                {
                    // (numbers apart: how many digits are printed depends on the messages before)
                    while (j < prevm.size() && skeleton(prevm[j]) != skeleton(x)) j++;
                    if (j == prevm.size())
                    {
                        rep.v("level", fmt("a message written at level %d is not written at level %d: \"%.60s\"", lv, lv - 1, x.c_str()));
                        break;
                    }
                    j++;
                }
            }
            if (lv <= 1)
            {
                size_t n = 0;
                for (auto &x : ms)
                    if (x.find("Optimization step completed") != std::string::npos) n++;
                if (n ? n != C.steps_of(0).size() : ms.size() < C.steps_of(0).size()) rep.v("level", fmt("%zu step summaries at level %d for %zu steps", n, lv, C.steps_of(0).size()));
            }
            else if (t.find("Optimization step completed") != std::string::npos)
                rep.v("level", fmt("an INFO message is written at level %d", lv));
            long bad = 0;
            for (auto &pc : C.ctl)
                for (auto &q : pc.second->rets)
                    if ((q.name == "xb" || q.name == "ub") && !q.ret) bad++;
            if (lv == 2)
            {
                if ((long)ms.size() < bad) rep.v("level", "an ERROR message is missing at level ALERT");
                if (bad == 0 && !ms.empty()) rep.v("level", fmt("level ALERT wrote \"%.60s\"", ms[0].c_str()));
            }
            prevm = ms;
            rep.c("level-runs");
            rep.m("messages", (double)ms.size());
            log_stream(nullptr); // replaced by the World destructor
        }
    }
    static Scenario g10(uint64_t seed)
    {
        Gen g("C10", seed);
        if (g.r.chance(0.25))
        {
            Scenario s = g09(g.r.u64());
            bool threads = false;
            for (auto &x : s.ops) threads = threads || x.name == "pre";
            if (threads)
            {
                s.prop = "C10";
                s.ops.push_back(Op("callers").set("level", g.r.below(4)));
                return s;
            }
        }
        GOpt o;
        Dims d = g.config(o, 0);
        int n = g.len(3, 10);
        auto word = [&]()
        {
            static const char *w[] = {"", "", "A", "ctl-1", "x", "robot"};
            std::string v = w[g.r.below(6)];
            if (g.r.chance(0.2)) // longer, and of any characters
                for (int k = g.r.chance(0.5) ? g.r.range(1, 12) : g.r.range(10, 70); k > 0; k--) v += "abcXYZ0189-._/:%[](){}+*#~"[g.r.below(26)];
            return v;
        };
        g.add(Op("stream").set("mode", 0));
        for (int i = 0; i < n; i++)
        {
            switch (g.r.below(9))
            {
            case 0:
                if (g.r.chance(0.12)) g.add(Op("lreset"));
                else g.add(Op(g.r.chance(0.5) ? "level" : "glevel").set("c", 0).set("v", g.r.below(4)));
                break;
            case 1: g.add(Op(g.r.chance(0.5) ? "prefix" : "gprefix").set("c", 0).set("v", word())); break;
            case 2: g.add(Op("stream").set("mode", g.r.below(4)).set("cap", (long)std::exp(g.r.uni(0, 8))).set("exc", 0)); break;
            case 3:
            case 4: g.add(Op("say").set("type", g.r.below(3)).set("v", fmt("m%d", g.r.below(1000)) + std::string(g.r.chance(0.1) ? (size_t)g.r.range(1, 400) : 0, 'o'))); break;
            case 5: g.add(g.bounds(d, g.r.chance(0.5), 0, false, 0.3)); break;
            default:
            {
                Op s = g.step(d, 0, 0.7);
                if (g.r.chance(0.25)) g.fault(s, d, 0);
                bool lv = g.r.chance(0.25);
                if (lv) s.add("f", fmt("A:%d:level:%d", g.r.range(1, 30), g.r.below(4)));
                g.add(s);
                if (lv) g.add(Op("glevel").set("v", g.r.below(4)));
            }
            }
        }
        g.add(g.step(d, 0, 0.7));
        return g.sc;
    }

    // ------------------------------------------------------------------ C11
    static void check_guess(Report &rep, const StepRec &s, const StepRec *good, const char *cls)
    {
        const Cfg &g = s.cfg;
        const Dims &d = g.d;
        if (!s.solved || (int)s.call.n != d.nz() || !inputs_finite(s)) return;
        Mat X(d.ph + 1, d.nx), U(d.ph + 1, d.nu);
        double e = 0;
        bool warm = g.par.warm && good;
        if (warm)
        {
            Mat X0, U0;
            good->cfg.unwrap(good->zopt, good->x, X0, U0, e);
            for (int k = 1; k <= d.ph; k++) X.row(k) = X0.row(std::min(k + 1, d.ph));
            for (int k = 0; k <= d.ph; k++) U.row(k) = U0.row(std::min(std::min(k + 1, d.ph), d.ch - 1));
            X.row(0) = s.x.transpose();
        }
        else
            for (int k = 0; k <= d.ph; k++) X.row(k) = s.x.transpose(), U.row(k) = s.u.transpose();
        V z = g.wrap(X, U, e);
        V lb(z.size()), ub(z.size());
        for (size_t i = 0; i < z.size(); i++) z[i] = std::min(std::max(z[i], s.call.lb[i]), s.call.ub[i]);
        rep.c(warm ? "warm-starts-checked" : "cold-starts-checked");
        for (size_t i = 0; i < z.size(); i++)
            if (!close(z[i], s.call.guess[i], 1e-9))
            {
                rep.v(cls, at(s) + fmt("search starts at variable %zu = %.9g, the %s start is %.9g", i, s.call.guess[i], warm ? "warm" : "cold", z[i]));
                return;
            }
    }
    static void c11(const Scenario &sc, Report &rep)
    {
        World w(rep);
        w.run(sc.ops);
        for (auto &pc : w.ctl)
        {
            const StepRec *good = nullptr;
            for (auto &s : pc.second->steps)
            {
                if (s.threw) return;
                check_guess(rep, s, good, "start");
                if (s.ok()) good = &s;
            }
        }
    }
    static Scenario g11(uint64_t seed)
    {
        Gen g("C11", seed);
        GOpt o;
        o.warm = 0.8, o.sb = 0.3, o.ib = 0.5, o.soft = 0.4;
        Dims d = g.config(o, 0);
        int n = g.len(2, 7);
        for (int i = 0; i < n; i++)
        {
            Op s = g.step(d, 0, 0.8);
            if (g.r.chance(0.35)) g.fault(s, d, 0);
            g.add(s);
            if (g.r.chance(0.2)) g.add(g.par(d, o, 0));
            if (g.r.chance(0.15)) g.add(g.bounds(d, g.r.chance(0.5), 0, true, 0.5));
            if (g.r.chance(0.1)) g.add(g.scaleop(d, g.r.chance(0.5), 0));
        }
        return g.sc;
    }

    // ------------------------------------------------------------------ C12
    static void c12(const Scenario &sc, Report &rep)
    {
        World w(rep);
        w.run(sc.ops);
        for (auto *s : w.all_steps())
        {
            if (s->threw) continue;
            const Cfg &g = s->cfg;
            if (!s->solved || (int)s->call.n != g.d.nz()) continue;
            double lb = s->call.lb.back(), ub = s->call.ub.back();
            if (g.par.hard)
            {
                rep.c("hard-steps");
                if (lb != 0 || ub != 0) rep.v("hard", at(*s) + fmt("slack may move in [%g,%g] with hard constraints", lb, ub));
                if (s->max_e > 2e-6 && !s->poison && std::isfinite(s->zopt.back())) rep.v("hard", at(*s) + fmt("a callback saw slack %g with hard constraints", s->max_e));
                if (s->ok() && std::isfinite(s->zopt.back()) && s->zopt.back() != 0) rep.v("hard", at(*s) + fmt("solution uses slack %g with hard constraints", s->zopt.back()));
            }
            else
            {
                rep.c("soft-steps");
                if (!(lb <= 0 && ub >= 1e6)) rep.v("soft", at(*s) + fmt("slack may only move in [%g,%g] with soft constraints", lb, ub));
                // kind=1: met only with slack, by construction, and nothing else is in the way
                if (g.in && g.in->kind == 1 && !s->stub && s->fired.empty() && sc.ops[s->op].i("must", 0) &&
                    g.par.maxit >= 300 && g.par.rx == 1e-7 && g.par.rf == 1e-9 && g.par.af <= 0 && g.par.ax <= 0 && g.par.tl <= 0)
                {
                    double need = 0;
                    for (auto &t : g.in->ine) need = std::max(need, (1 + g.in->shift) / t.s);
                    rep.c("slack-needed-steps");
                    if (failed(*s) && s->ret == -4)
                        rep.c("solver-roundoff"); // the real solver gave up
                    else if (failed(*s))
                        rep.v("soft-fails", at(*s) + fmt("problem solvable with slack %.3g failed: ", need) + s->r.msg);
                    else
                    {
                        rep.m("slack-shortfall", need - s->zopt.back());
                        if (!(s->zopt.back() >= need - 1e-3)) rep.v("soft-unused", at(*s) + fmt("constraints need slack %.6g, the solution uses %.6g (status %d)", need, s->zopt.back(), s->r.status));
                    }
                }
            }
        }
    }
    static Scenario g12(uint64_t seed)
    {
        Gen g("C12", seed);
        GOpt o;
        bool must = g.r.chance(0.6);
        if (must)
        {
            o.ineq = 0, o.eq = 0, o.convex = true, o.sb = 0, o.ib = 0.3, o.tight = 0, o.scale = 0.15, o.cont = 0.1, o.state = 1;
            do
            {
                g.sc.ops.clear();
            } while (g.config(o, 0).ineq == 0);
            V dv = g.sc.ops[0].vec("d");
            Dims d{(int)dv[0], (int)dv[1], (int)dv[2], (int)dv[3], (int)dv[4], (int)dv[5], (int)dv[6]};
            g.add(Op("obj").set("c", 0).set("s", g.seed()).set("we", g.r.uni(0.5, 3)));
            g.add(Op("ineq").set("c", 0).set("s", g.seed()).set("kind", 1).set("shift", std::round(g.r.uni(-0.5, 6) * 100) / 100).set("tol", 1e-4));
            int n = g.r.range(1, 4);
            for (int i = 0; i < n; i++)
            {
                bool hard = g.r.chance(0.35);
                g.sc.ops.push_back(Op("par").set("c", 0).set("maxit", 300).set("warm", g.r.chance(0.5) ? 1 : 0).set("hard", hard ? 1 : 0).set("rx", 1e-7).set("rf", 1e-9));
                g.add(g.step(d, 0, 0).set("must", 1));
            }
            return g.sc;
        }
        o.soft = 0.5, o.ineq = 0.8;
        Dims d = g.config(o, 0);
        int n = g.len(2, 6);
        for (int i = 0; i < n; i++)
        {
            if (g.r.chance(0.7)) g.add(g.par(d, o, 0));
            Op s = g.step(d, 0, 0.7);
            if (g.r.chance(0.15)) g.fault(s, d, 0);
            g.add(s);
        }
        return g.sc;
    }

    // ------------------------------------------------------------------ C13 / C14
    static void probe_viol(Report &rep, const StepRec &s)
    {
        for (auto &v : s.cbviol)
            if (v.first.compare(0, 5, "probe") == 0 || v.first == "cbx0" || v.first == "cbshape" || v.first == "cbindex") rep.v(v.first, at(s) + v.second);
    }
    static void c13(const Scenario &sc, Report &rep)
    {
        World w(rep);
        w.do_probe = true;
        w.watch_traj = true;
        w.run(sc.ops);
        const StepRec *good = nullptr;
        for (auto *s : w.all_steps())
        {
            if (s->threw) return;
            probe_viol(rep, *s);
            seam_bounds(rep, *s, "bounds");
            check_guess(rep, *s, good, "guess");
            for (auto &v : s->cbviol)
                if (v.first == "cbout") rep.v(v.first, at(*s) + v.second);
            if (s->ok())
            {
                good = s;
                Mat X, U;
                double e;
                s->cfg.unwrap(s->zopt, s->x, X, U, e);
                if (maxdiff(X, s->s.x) > 1e-9 * (1 + X.cwiseAbs().maxCoeff()) || maxdiff(U, s->s.u) > 1e-9 * (1 + U.cwiseAbs().maxCoeff()))
                    rep.v("physical", at(*s) + "returned sequences are not the solver's solution in physical units: " + show(s->s.x) + " vs " + show(X) + ", " + show(s->s.u) + " vs " + show(U));
                if (maxdiff(s->r.cmd, Vec(U.row(0).transpose())) > 1e-9 * (1 + U.cwiseAbs().maxCoeff())) rep.v("physical", at(*s) + "command is not in physical units");
                if (s->cfg.obj && !close(s->r.cost, s->cfg.J(X, U, e), 1e-9)) rep.v("physical", at(*s) + "cost is not the physical one");
            }
        }
    }
    static Scenario g13(uint64_t seed)
    {
        Gen g("C13", seed);
        GOpt o;
        o.scale = 0.9, o.sb = 0.5, o.cont = 0.4, o.nlp = 0.5, o.ineq = 0.8, o.eq = 0.7;
        Dims d = g.config(o, 0);
        int n = g.r.range(1, 3);
        for (int i = 0; i < n; i++)
        {
            g.add(g.step(d, 0, 0.85).set("probe", g.seed()));
            if (g.r.chance(0.4)) g.add(g.scaleop(d, g.r.chance(0.5), 0));
            if (g.r.chance(0.2)) g.add(g.bounds(d, g.r.chance(0.5), 0, true, 0.3));
        }
        return g.sc;
    }
    // exact optimum of the convex problem, from the reference functions
    static bool reference_optimum(const StepRec &s, double &Jopt, Vec &zo)
    {
        const Cfg &g = s.cfg;
        int n = g.d.nz() - 1; // hard: no slack
        auto J = [&](const V &z)
        { Mat X, U; double e; g.unwrap(z, s.x, X, U, e); return g.J(X, U, e); };
        V z0((size_t)g.d.nz(), 0.0);
        // physical variables: unwrap multiplies by the scaling
        auto phys = [&](const Vec &p)
        {
            V z = z0;
            for (int i = 0; i < n; i++)
            {
                double sc = i < g.d.ph * g.d.nx ? g.sx(i % g.d.nx) : g.su((i - g.d.ph * g.d.nx) % g.d.nu);
                z[(size_t)i] = p(i) / sc;
            }
            return z;
        };
        Vec zero = Vec::Zero(n);
        double J0 = J(phys(zero));
        Vec gr(n), Jp(n);
        Mat H(n, n);
        for (int i = 0; i < n; i++)
        {
            Vec a = zero, b = zero;
            a(i) = 1, b(i) = -1;
            double ja = J(phys(a)), jb = J(phys(b));
            Jp(i) = ja;
            gr(i) = (ja - jb) / 2;
            H(i, i) = ja + jb - 2 * J0;
        }
        for (int i = 0; i < n; i++)
            for (int j = 0; j < i; j++)
            {
                Vec a = zero;
                a(i) = 1, a(j) = 1;
                H(i, j) = H(j, i) = J(phys(a)) - Jp(i) - Jp(j) + J0;
            }
        auto affine = [&](const std::function<Vec(const Mat &, const Mat &)> &f, Mat &A, Vec &c)
        {
            Mat X, U;
            double e;
            g.unwrap(phys(zero), s.x, X, U, e);
            c = f(X, U);
            A = Mat(c.size(), n);
            for (int i = 0; i < n; i++)
            {
                Vec a = zero;
                a(i) = 1;
                g.unwrap(phys(a), s.x, X, U, e);
                A.col(i) = f(X, U) - c;
            }
        };
        Mat A(0, n);
        Vec b(0);
        auto stack = [&](Mat &M, Vec &v, const Mat &M2, const Vec &v2)
        {
            Mat N(M.rows() + M2.rows(), n);
            N << M, M2;
            Vec q(v.size() + v2.size());
            q << v, v2;
            M = N, v = q;
        };
        Mat T;
        Vec c;
        if (g.st)
        {
            affine([&](const Mat &X, const Mat &U)
                   { return g.R(X, U); },
                   T, c);
            stack(A, b, T, -c);
        }
        if (g.eq)
        {
            affine([&](const Mat &X, const Mat &U)
                   { return g.E(X, U); },
                   T, c);
            stack(A, b, T, -c);
        }
        Mat G(0, n);
        Vec h(0);
        if (g.in)
        {
            affine([&](const Mat &X, const Mat &U)
                   { return g.I(X, U, 0); },
                   T, c);
            stack(G, h, T, -c);
        }
        for (int i = 0; i < n; i++)
        {
            double lo, hi;
            if (i < g.d.ph * g.d.nx)
                lo = g.xlo(i % g.d.nx, i / g.d.nx), hi = g.xhi(i % g.d.nx, i / g.d.nx);
            else
            {
                int j = i - g.d.ph * g.d.nx;
                lo = g.ulo(j % g.d.nu, j / g.d.nu), hi = g.uhi(j % g.d.nu, j / g.d.nu);
            }
            Mat row = Mat::Zero(1, n);
            row(0, i) = 1;
            if (std::isfinite(hi)) stack(G, h, row, Vec::Constant(1, hi));
            if (std::isfinite(lo)) stack(G, h, Mat(-row), Vec::Constant(1, -lo));
        }
        Vec z;
        if (!solve_qp(H, gr, A, b, G, h, z)) return false;
        Jopt = J(phys(z));
        zo = z;
        return true;
    }
    static void c14(const Scenario &sc, Report &rep)
    {
        World w(rep);
        w.do_probe = true;
        w.run(sc.ops);
        for (auto *s : w.all_steps())
        {
            if (s->threw) return;
            probe_viol(rep, *s);
            const Cfg &g = s->cfg;
            bool convex = g.obj && g.obj->nl == 0 && (!g.st || g.st->nl == 0) && (!g.out || g.out->nl == 0) && (!g.in || g.in->nl == 0) && (!g.eq || g.eq->nl == 0);
            if (s->stub || !convex || !g.par.hard || !s->fired.empty() || !sc.ops[s->op].i("opt", 0)) continue;
            double Jo;
            Vec zo;
            bool have = reference_optimum(*s, Jo, zo);
            rep.c(have ? "optima-computed" : "optima-unavailable");
            if (!s->ok() || s->r.status != SUCCESS)
            {
                rep.c(s->ok() ? "not-converged" : "solver-failed");
                continue;
            }
            double viol = 0;
            // beyond the tolerance the user allowed
            if (g.st) viol = std::max(viol, g.R(s->s.x, s->s.u).cwiseAbs().maxCoeff() - g.stol);
            if (g.eq) viol = std::max(viol, g.E(s->s.x, s->s.u).cwiseAbs().maxCoeff() - g.etol);
            if (g.in) viol = std::max(viol, g.I(s->s.x, s->s.u, 0).maxCoeff() - g.itol);
            double slop = 0;
            if (g.st) slop = std::max(slop, g.R(s->s.x, s->s.u).cwiseAbs().maxCoeff());
            if (g.eq) slop = std::max(slop, g.E(s->s.x, s->s.u).cwiseAbs().maxCoeff());
            if (g.in) slop = std::max(slop, g.I(s->s.x, s->s.u, 0).maxCoeff());
            if (!have)
            {
                rep.c("success-without-reference");
                continue;
            }
            // the optimum is approached as closely as the solver was asked to
            auto strict = [](double t) { return t <= 1e-8; };
            if (!strict(g.par.rf) || !strict(g.par.rx) || !strict(g.par.af) || !strict(g.par.ax) || !(g.par.rx > 0 || g.par.rf > 0 || g.par.ax > 0 || g.par.af > 0))
            {
                rep.c("loose-tolerances");
                continue;
            }
            rep.c("optima-compared");
            rep.m("constraint-violation", viol);
            rep.m("suboptimality", s->r.cost - Jo);
            rep.m("superoptimality", Jo - s->r.cost);
            if (!(viol <= 1e-4)) rep.v("infeasible-success", at(*s) + fmt("step reports SUCCESS but violates a constraint by %.3g", viol));
            else if (!(s->r.cost <= Jo + 1e-3 * (1 + std::fabs(Jo)))) rep.v("suboptimal", at(*s) + fmt("step reports SUCCESS with cost %.9g, the optimum is %.9g", s->r.cost, Jo));
            else if (slop <= 1e-9 && !(s->r.cost >= Jo - 1e-3 * (1 + std::fabs(Jo)))) rep.v("superoptimal", at(*s) + fmt("step reports cost %.9g below the optimum %.9g", s->r.cost, Jo));
        }
    }
    static Scenario g14(uint64_t seed)
    {
        Gen g("C14", seed);
        GOpt o;
        o.scale = 0.25, o.ineq = 0.8, o.eq = 0.6, o.nlp = 0.6;
        bool opt = g.r.chance(0.5);
        int mag = opt || !g.r.chance(0.35) ? 0 : g.r.range(1, 2); // 1: a large measured state, 2: large trajectories
        if (mag == 2) o.nlp = 0, o.sb = 0.1, o.ib = 0.2;
        if (opt) o.convex = true, o.tight = 0.2, o.soft = 0, o.warm = 0.2, o.sb = 0.25;
        Dims d = g.config(o, 0);
        if (opt)
        {
            Op p("par");
            p.set("c", 0).set("maxit", 400).set("hard", 1).set("rx", 1e-9).set("rf", -1.0).set("warm", g.r.chance(0.3) ? 1 : 0);
            g.add(p);
        }
        int n = g.r.range(1, 3);
        for (int i = 0; i < n; i++)
        {
            Op s = g.step(d, 0, opt ? 0 : 0.8);
            s.set("probe", g.seed());
            if (opt) s.set("opt", 1).set("x", g.rnd(d.nx, -1, 1));
            if (mag == 1)
            {
                V x = s.vec("x");
                for (auto &v : x)
                    if (g.r.chance(0.6)) v = std::round(v * std::pow(10, g.r.uni(1, 6.5)));
                s.set("x", x);
                for (auto &p : g.sc.ops)
                    if (p.name == "obj") p.set("skip0", 1);
            }
            if (mag == 2) s.set("mag", std::round(g.r.uni(1, 6)));
            g.add(s);
            if (g.r.chance(0.15)) g.add(g.fnop(g.r.chance(0.5) ? "obj" : "model", o, 0));
        }
        return g.sc;
    }

    // ------------------------------------------------------------------ C15
    static void c15(const Scenario &sc, Report &rep)
    {
        World A(rep);
        A.force_dyn = 0;
        A.run(sc.ops);
        World B(rep);
        B.count = false;
        B.force_dyn = 1;
        B.run(sc.ops);
        auto &ca = A.ctl[0], &cb = B.ctl[0];
        if (!ca || !cb) return;
        if (ca->rets.size() != cb->rets.size())
        {
            rep.v("setters", "the two controllers answered a different number of calls");
            return;
        }
        for (size_t i = 0; i < ca->rets.size(); i++)
            if (ca->rets[i].ret != cb->rets[i].ret) rep.v("setters", fmt("op %zu: %s returned %d statically and %d dynamically sized", ca->rets[i].op, ca->rets[i].name.c_str(), ca->rets[i].ret, cb->rets[i].ret));
        auto a = A.steps_of(0), b = B.steps_of(0);
        bool mixed = false;    // a later start may come from a real solve
        bool diverged = false; // a real solve ended differently within rounding: later warm starts differ legitimately
        for (size_t i = 0; i < a.size() && i < b.size(); i++)
        {
            const StepRec &s = *a[i], &t = *b[i];
            if (diverged) break;
            if (s.threw != t.threw)
            {
                rep.v("steps", at(s) + "one controller threw " + (s.threw ? s.threw_what : t.threw_what));
                continue;
            }
            if (s.threw) continue;
            bool exact = s.stub && t.stub;
            // the blocks may come in any order, but they are the same constraints with the same tolerances
            auto rows = [](const SolveCall &c) {
                std::vector<std::pair<bool, double>> v;
                for (auto &b : c.blocks)
                    for (unsigned k = 0; k < b.m; k++) v.push_back({b.eq, k < b.tol.size() ? b.tol[k] : -1});
                std::sort(v.begin(), v.end());
                return v;
            };
            auto ra = rows(s.call), rb = rows(t.call);
            if (s.call.blocks.size() != t.call.blocks.size() || s.call.n != t.call.n || s.call.has_f != t.call.has_f) rep.v("steps", at(s) + "different problems were given to the solver");
            else if (ra.size() != rb.size()) rep.v("steps", at(s) + fmt("%zu scalar constraints were given to the solver statically, %zu dynamically sized", ra.size(), rb.size()));
            else
                for (size_t k = 0; k < ra.size(); k++)
                    if (ra[k].first != rb[k].first || !close(ra[k].second, rb[k].second, 1e-12))
                    {
                        rep.v("steps", at(s) + fmt("constraint tolerance %.9g statically, %.9g dynamically sized", ra[k].second, rb[k].second));
                        break;
                    }
            const SolveCall &sa = s.call, &sb = t.call;
            if (!close(sa.ftol_rel, sb.ftol_rel, 1e-12) || !close(sa.ftol_abs, sb.ftol_abs, 1e-12) || !close(sa.xtol_rel, sb.xtol_rel, 1e-12) || sa.xtol_abs != sb.xtol_abs || sa.maxeval != sb.maxeval || !close(sa.maxtime, sb.maxtime, 1e-9))
                rep.v("steps", at(s) + "the solver was given different stopping criteria");
            for (unsigned k = 0; k < s.call.n && k < t.call.n; k++)
                if (!close(s.call.lb[k], t.call.lb[k], 1e-9) || !close(s.call.ub[k], t.call.ub[k], 1e-9) || (inputs_finite(s) && !close(s.call.guess[k], t.call.guess[k], exact && !mixed ? 1e-9 : 1e-3)))
                {
                    rep.v("steps", at(s) + fmt("bounds or start of variable %u differ", k));
                    break;
                }
            // rounding may send the real solver elsewhere; up to there it must have seen the same objective
            if (!exact)
                for (size_t k = 0; k < s.path.size() && k < t.path.size() && !diverged; k++)
                {
                    double dz = 0;
                    for (unsigned j = 0; j < s.call.n && j < t.call.n; j++)
                    {
                        double e = std::fabs(s.path[k].first[j] - t.path[k].first[j]) / (1 + std::fabs(s.path[k].first[j]));
                        if (!(e <= dz) && !std::isnan(dz)) dz = e; // a point which is not a number is not the same point
                    }
                    if (!(dz <= 1e-9))
                        diverged = true;
                    else if (!(std::isnan(s.path[k].second) && std::isnan(t.path[k].second)) && !close(s.path[k].second, t.path[k].second, 1e-3))
                    {
                        rep.v("steps", at(s) + fmt("objective at the same point: %.12g vs %.12g", s.path[k].second, t.path[k].second));
                        diverged = true;
                    }
                }
            if (!exact)
                for (size_t j = 0; j < s.zopt.size() && j < t.zopt.size(); j++)
                    if (!(std::fabs(s.zopt[j] - t.zopt[j]) <= 1e-6 * (1 + std::fabs(s.zopt[j])))) diverged = true;
            if (diverged)
            {
                rep.c("real-solves-diverged-by-rounding");
                continue;
            }
            if (!exact && s.solved && (s.ret != t.ret || s.evals != t.evals || s.ret == 5 || s.ret == 6))
            {
                rep.c("real-solves-diverged-by-rounding");
                // legitimate only while both runs took the same path at first: demand the same class for clear-cut ends
                diverged = true;
                continue;
            }
            double tol = exact && !mixed ? 1e-9 : 1e-3;
            if (!exact) mixed = true;
            if (s.r.status != t.r.status || s.r.code != t.r.code) rep.v("steps", at(s) + fmt("status %d/%d statically, %d/%d dynamically sized", s.r.status, s.r.code, t.r.status, t.r.code));
            else if (s.r.feas != t.r.feas && exact) rep.v("steps", at(s) + "is_feasible differs");
            else if (!close(s.r.cost, t.r.cost, tol)) rep.v("steps", at(s) + fmt("cost %.12g vs %.12g", s.r.cost, t.r.cost));
            else if (maxdiff(s.r.cmd, t.r.cmd) > tol * 10 || maxdiff(s.s.x, t.s.x) > tol * 10 || maxdiff(s.s.u, t.s.u) > tol * 10 || maxdiff(s.s.y, t.s.y) > tol * 10) rep.v("steps", at(s) + "sequences differ: u " + show(s.s.u) + " vs " + show(t.s.u) + " x " + show(s.s.x) + " vs " + show(t.s.x) + " y " + show(s.s.y) + " vs " + show(t.s.y));
            if (s.st.n != t.st.n || s.st.st != t.st.st) rep.v("steps", at(s) + "statistics differ");
            if (exact)
                for (int k = 0; k < 5; k++)
                    if (s.calls[k] != t.calls[k] || s.pcalls[k] != t.pcalls[k])
                    {
                        rep.v("steps", at(s) + fmt("number of %c callbacks differs: %ld vs %ld", "FSOIE"[k], s.calls[k], t.calls[k]));
                        break;
                    }
            rep.c("twin-steps-compared");
        }
    }
    static Scenario g15(uint64_t seed)
    {
        Gen g("C15", seed);
        GOpt o;
        o.dyn = 0, o.menu_only = true, o.sb = 0.5, o.eq = 0.6;
        Dims d = g.config(o, 0);
        int n = g.len(2, 8);
        for (int i = 0; i < n; i++)
        {
            switch (g.r.below(10))
            {
            case 0: g.add(g.bounds(d, g.r.chance(0.5), 0, false, 0.4)); break;
            case 1: g.add(g.par(d, o, 0)); break;
            case 2: g.add(g.scaleop(d, g.r.chance(0.5), 0)); break;
            case 3:
            {
                static const char *f[] = {"model", "out", "obj", "ineq", "eq"};
                const char *n = f[g.r.below(5)];
                if ((!strcmp(n, "ineq") && !d.ineq) || (!strcmp(n, "eq") && !d.eq)) break;
                g.add(g.fnop(n, o, 0));
                break;
            }
            default:
            {
                Op s = g.step(d, 0, 0.75);
                if (g.r.chance(0.25)) g.fault(s, d, 0);
                g.add(s);
            }
            }
        }
        g.add(g.step(d, 0, 0.8));
        return g.sc;
    }

    // ------------------------------------------------------------------ C18
    static void c18(const Scenario &sc, Report &rep)
    {
        sim::g_alloc.active = true;
        sim::alloc_forget();
        std::vector<const StepRec *> sa;
        auto A = std::make_unique<World>(rep);
        long base = 0;
        for (size_t i = 0; i < sc.ops.size(); i++)
        {
            A->exec(sc.ops[i], i);
            if (sc.ops[i].name == "del")
            {
                if (sim::g_alloc.live != base) rep.v("leak", fmt("op %zu: destroying the controller left %ld blocks (%ld bytes) allocated", i, sim::g_alloc.live, sim::g_alloc.live_bytes));
                rep.c("destructions-checked");
                base = sim::g_alloc.live;
            }
        }
        sa = A->steps_of(0);
        for (auto *s : sa)
        {
            if (s->threw && !s->is_badalloc) rep.v("escape", at(*s) + "optimize() threw something other than std::bad_alloc: " + s->threw_what);
            if (s->threw && s->fired.empty()) rep.v("escape", at(*s) + "optimize() threw without an injected failure");
            bool oom = std::find(s->fired.begin(), s->fired.end(), "oom") != s->fired.end();
            if (oom) rep.c(s->threw ? "oom-as-exception" : failed(*s) ? "oom-as-error"
                                                                      : "oom-absorbed");
        }
        // as if the failed steps had not happened
        std::vector<Res> ra;
        {
            World B(rep);
            B.count = false;
            bool any = A->refused > 0;
            auto ops = sc.ops;
            for (auto &o : ops)
                if (o.name != "step") o.erase("oom");
            std::set<size_t> done;
            const StepRec *prev = nullptr;
            for (auto *s : sa)
            {
                // a step ended by the exception either did not happen or is complete (getLastResult tells)
                bool cont = prev != nullptr;
                for (size_t k = cont ? prev->op : 0; cont && k < s->op; k++)
                    if (sc.ops[k].name == "new") cont = false;
                Res was = cont ? prev->last : Res();
                bool same = !cont ? s->last.status == UNKNOWN : was.code == s->last.code && was.status == s->last.status && was.feas == s->last.feas && was.cmd.size() == s->last.cmd.size() && (was.cost == s->last.cost || (std::isnan(was.cost) && std::isnan(s->last.cost))) && was.cmd == s->last.cmd;
                if (s->threw && s->is_badalloc && !same)
                {
                    done.insert(s->op);
                    ops[s->op].erase("oom");
                    rep.c("oom-after-completion");
                }
                else if (failed(*s))
                    B.skip.insert(s->op), any = true;
                prev = s;
            }
            if (any || !done.empty())
            {
                B.run(ops);
                auto sb = B.steps_of(0);
                size_t j = 0;
                for (auto *s : sa)
                {
                    if (done.count(s->op))
                    {
                        j++;
                        continue;
                    }
                    if (failed(*s)) continue;
                    bool oom = std::find(s->fired.begin(), s->fired.end(), "oom") != s->fired.end();
                    if (j >= sb.size()) break;
                    if (!oom) cmp_step(rep, *s, *sb[j], "after-oom", "result changes when the failed steps before it are deleted");
                    j++;
                }
            }
        }
        A->destroy();
        if (sim::g_alloc.live != 0) rep.v("leak", fmt("destroying every controller left %ld blocks (%ld bytes) allocated", sim::g_alloc.live, sim::g_alloc.live_bytes));
        rep.c("destructions-checked");
        rep.m("allocations-tracked", (double)sim::g_alloc.total);
        sim::g_alloc.active = false;
    }
    static Scenario g18(uint64_t seed)
    {
        Gen g("C18", seed);
        GOpt o;
        o.warm = 0.5, o.dyn = 0.6;
        Dims d = g.config(o, 0);
        int n = g.len(0, 6);
        for (int i = 0; i < n; i++)
        {
            if (g.r.chance(0.12)) g.add(g.fnop("model", o, 0));
            if (g.r.chance(0.25)) g.add(g.bounds(d, g.r.chance(0.5), 0, false, 0.3));
            if (g.r.chance(0.1)) g.add(g.scaleop(d, g.r.chance(0.5), 0));
            if (g.r.chance(0.1)) g.add(g.par(d, o, 0));
            if (d.ineq && g.r.chance(0.1)) g.add(g.fnop("ineq", o, 0));
            if (d.eq && g.r.chance(0.1)) g.add(g.fnop("eq", o, 0));
            Op s = g.step(d, 0, 0.6);
            if (g.r.chance(0.5))
                s.set("oom", (long)(1 + std::floor(std::exp(g.r.uni(0, g.r.chance(0.5) ? 4 : 8)))));
            else if (g.r.chance(0.4))
                g.fault(s, d, 0);
            g.add(s);
            if (g.r.chance(0.08)) g.add(Op("glevel").set("v", 0));
        }
        if (g.r.chance(0.4)) g.add(Op("del").set("c", 0));
        if (g.r.chance(0.35)) // allocations fail in configuration calls too
            for (auto &op : g.sc.ops)
                if (op.name != "step" && g.r.chance(0.35)) op.set("oom", (long)(1 + std::floor(std::exp(g.r.uni(0, g.r.chance(0.7) ? 3 : 6)))));
        return g.sc;
    }

    // ------------------------------------------------------------------ C20
    static void c20(const Scenario &sc, Report &rep)
    {
        World A(rep);
        A.do_probe = true;
        A.run(sc.ops);
        check_rets(rep, A);
        auto sa = A.steps_of(0);
        for (auto *s : sa)
        {
            probe_viol(rep, *s);
            check_params(rep, *s);
            seam_bounds(rep, *s, "bounds");
            for (auto &v : s->cbviol)
                if (v.first == "stale") rep.v("stale", at(*s) + v.second);
        }
        if (!rep.viol.empty()) return;
        for (size_t i = 0; i < sa.size(); i++)
        {
            const StepRec &s = *sa[i];
            if (!sc.ops[s.op].i("twin", 0) || s.cfg.par.warm || s.threw || failed(s)) continue;
            World B(rep);
            B.count = false;
            B.do_probe = true;
            auto ops = config_ops(s.cfg, 0, sc.ops[s.op].u("order"));
            ops.push_back(sc.ops[s.op]);
            B.run(ops);
            auto sb = B.steps_of(0);
            if (sb.size() == 1) cmp_step(rep, s, *sb[0], "history", "differs from a new controller configured with the final settings"), rep.c("fresh-twins-compared");
        }
    }
    static Scenario g20(uint64_t seed)
    {
        Gen g("C20", seed);
        GOpt o;
        o.warm = 0.2, o.eq = 0.6;
        Dims d = g.config(o, 0);
        int n = g.len(3, 12);
        for (int i = 0; i < n; i++)
        {
            switch (g.r.below(9))
            {
            case 0: g.add(g.bounds(d, g.r.chance(0.5), 0, false, 0.4)); break;
            case 1: g.add(g.mbounds(d, g.r.chance(0.5), 0, 0.3)); break;
            case 2: g.add(g.par(d, o, 0)); break;
            case 3: g.add(g.scaleop(d, g.r.chance(0.5), 0)); break;
            case 4:
            case 5:
            case 6:
            {
                static const char *f[] = {"model", "out", "obj", "ineq", "eq"};
                const char *n = f[g.r.below(5)];
                if ((!strcmp(n, "ineq") && !d.ineq) || (!strcmp(n, "eq") && !d.eq)) break;
                Op p = g.fnop(n, o, 0);
                if (g.r.chance(0.08) && strcmp(n, "out") && strcmp(n, "obj")) p.set("tol", -0.001);
                g.add(p);
                break;
            }
            case 7: g.add(Op("ts").set("c", 0).set("v", g.sampling_time())); break;
            default:
            {
                Op s = g.step(d, 0, 0.6);
                if (g.r.chance(0.25)) g.fault(s, d, 0);
                g.add(s.set("twin", g.r.chance(0.5) ? 1 : 0).set("order", g.seed()).set("probe", g.seed()));
            }
            }
        }
        g.add(g.step(d, 0, 0.5).set("twin", 1).set("order", g.seed()).set("probe", g.seed()));
        return g.sc;
    }

    // ------------------------------------------------------------------ dispatch
    struct P
    {
        const char *id;
        Scenario (*gen)(uint64_t);
        void (*check)(const Scenario &, Report &);
    };
    static const P props[] = {
        {"C01", g01, c01}, {"C02", g02, c02}, {"C03", g03, c03}, {"C04", g04, c04}, {"C05", g05, c05}, {"C06", g06, c06}, {"C07", g07, c07}, {"C08", g08, c08}, {"C09", g09, c09}, {"C10", g10, c10}, {"C11", g11, c11}, {"C12", g12, c12}, {"C13", g13, c13}, {"C14", g14, c14}, {"C15", g15, c15}, {"C18", g18, c18}, {"C20", g20, c20}};
    // steps in closed loop: the measurement is exactly what the step before predicted, the last input is the one it
    // commanded; a rehearsal finds the values
    static Scenario resolved(const Scenario &sc)
    {
        bool any = false;
        for (auto &o : sc.ops) any |= o.has("cl");
        if (!any) return sc;
        Scenario out = sc;
        Report none;
        World W(none);
        W.count = false, W.quiet_log = true;
        for (size_t i = 0; i < out.ops.size(); i++)
        {
            Op &o = out.ops[i];
            if (o.name == "pre" || o.name == "nest") continue;
            if (o.has("cl"))
            {
                o.erase("cl");
                bool fin = true; // a measurement made not finite stays so
                for (const char *k : {"x", "u"})
                    for (double a : o.vec(k)) fin = fin && std::isfinite(a);
                auto it = W.ctl.find((int)o.i("c"));
                if (fin && it != W.ctl.end() && it->second && !it->second->steps.empty())
                {
                    const StepRec &s = it->second->steps.back();
                    if (!s.threw && s.s.x.rows() > 1 && s.s.x.allFinite() && s.r.cmd.allFinite() && s.r.status != ERROR_)
                    {
                        V x, u;
                        for (int j = 0; j < s.s.x.cols(); j++) x.push_back(s.s.x(1, j));
                        for (int j = 0; j < s.r.cmd.size(); j++) u.push_back(s.r.cmd(j));
                        o.set("x", x).set("u", u);
                    }
                }
            }
            W.exec(o, i);
        }
        W.destroy();
        return out;
    }
    void prop_check(const Scenario &given, Report &rep)
    {
        Scenario sc = resolved(given);
        for (auto &p : props)
            if (sc.prop == p.id) return p.check(sc, rep);
        rep.v("internal", "unknown property " + sc.prop);
    }
    // any setter may be called between any two steps of any history
    static Scenario reconfigured(Scenario sc, uint64_t seed)
    {
        if (sc.prop == "C09" || sc.prop == "C20") return sc; // (those reconfigure on their own terms)
        Gen g(sc.prop, sim::mix(seed, 77));
        if (!g.r.chance(0.3)) return sc;
        for (auto &o : sc.ops)
        {
            if (o.has("must") || o.has("opt") || o.has("mag") || o.name == "callers") return sc;
            if (o.has("probe"))
                for (double a : o.vec("x"))
                    if (std::fabs(a) > 50) return sc; // (derivatives of a sine at 1e5)
        }
        double rate = g.r.uni(0.05, 0.35);
        std::map<int, Dims> alive;
        GOpt o;
        for (auto &op : sc.ops)
        {
            if (op.name == "step")
            {
                int id = (int)op.i("c");
                auto it = alive.find(id);
                while (it != alive.end() && g.r.chance(rate))
                {
                    const Dims &d = it->second;
                    switch (g.r.below(11))
                    {
                    case 10: g.sc.ops.push_back(Op("reset").set("c", id)); break;
                    case 0: g.sc.ops.push_back(g.bounds(d, g.r.chance(0.5), id, true, 0.2)); break;
                    case 1: g.sc.ops.push_back(g.mbounds(d, g.r.chance(0.5), id, 0.2)); break;
                    case 2: g.sc.ops.push_back(g.scaleop(d, g.r.chance(0.5), id)); break;
                    case 3: g.sc.ops.push_back(g.par(d, o, id)); break;
                    case 4: g.sc.ops.push_back(Op("ts").set("c", id).set("v", g.sampling_time())); break;
                    default:
                    {
                        static const char *f[] = {"model", "out", "obj", "ineq", "eq"};
                        const char *n = f[g.r.below(5)];
                        if ((!strcmp(n, "ineq") && !d.ineq) || (!strcmp(n, "eq") && !d.eq)) break;
                        g.sc.ops.push_back(g.fnop(n, o, id));
                    }
                    }
                }
            }
            if (op.name == "new")
            {
                V v = op.vec("d");
                alive[(int)op.i("c")] = Dims{(int)v[0], (int)v[1], (int)v[2], (int)v[3], (int)v[4], (int)v[5], (int)v[6]};
            }
            if (op.name == "del") alive.erase((int)op.i("c"));
            g.sc.ops.push_back(op);
        }
        return g.sc;
    }
    Scenario prop_gen(const std::string &prop, uint64_t seed)
    {
        for (auto &p : props)
            if (prop == p.id) return reconfigured(p.gen(seed), seed);
        return Scenario();
    }
}
