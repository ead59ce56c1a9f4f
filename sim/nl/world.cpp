#include "world.hpp"
#include <algorithm>
#include <nlopt.hpp>
#include <array>
#include <limits>

namespace nl
{
    using sim::fmt;
    using sim::Rng;
    static const double INF = std::numeric_limits<double>::infinity();
    static const char KIND[] = "FSOIE";

    // -------------------------------------------------------------- small helpers
    bool close(double a, double b, double tol)
    {
        if (a == b) return true;
        if (std::isinf(a) || std::isinf(b)) return false;
        return std::fabs(a - b) <= tol * (1 + std::max(std::fabs(a), std::fabs(b)));
    }
    bool finite(const Mat &m)
    {
        for (int i = 0; i < m.size(); i++)
            if (!std::isfinite(m.data()[i])) return false;
        return true;
    }
    double maxdiff(const Mat &a, const Mat &b)
    {
        if (a.rows() != b.rows() || a.cols() != b.cols()) return INF;
        double d = 0;
        for (int i = 0; i < a.size(); i++)
        {
            double x = a.data()[i], y = b.data()[i];
            if (x == y || (x != x && y != y)) continue;
            double e = std::fabs(x - y);
            if (!(e <= d)) d = e != e ? INF : e;
        }
        return d;
    }
    std::string show(const Mat &m)
    {
        std::string s = "[";
        for (int i = 0; i < m.rows(); i++)
        {
            if (i) s += ";";
            for (int j = 0; j < m.cols(); j++) s += (j ? " " : "") + fmt("%.6g", m(i, j));
        }
        return s + "]";
    }
    std::string show(const V &v) { return show(Mat(Eigen::Map<const Mat>(v.data(), 1, (long)v.size()))); }
    static bool same_bits(const Mat &a, const Mat &b)
    {
        return a.rows() == b.rows() && a.cols() == b.cols() && maxdiff(a, b) == 0;
    }
    bool same_res(const Res &a, const Res &b, std::string &why)
    {
        auto eq = [](double x, double y)
        { return x == y || (x != x && y != y); };
        if (a.code != b.code) why = fmt("solver code %d vs %d", a.code, b.code);
        else if (a.status != b.status) why = fmt("status %d vs %d", a.status, b.status);
        else if (a.feas != b.feas) why = fmt("is_feasible %d vs %d", a.feas, b.feas);
        else if (!eq(a.cost, b.cost)) why = fmt("cost %.17g vs %.17g", a.cost, b.cost);
        else if (!same_bits(a.cmd, b.cmd)) why = "cmd " + show(a.cmd) + " vs " + show(b.cmd);
        else if (a.msg != b.msg) why = "status message \"" + a.msg.substr(0, 60) + "\" vs \"" + b.msg.substr(0, 60) + "\"";
        else return true;
        return false;
    }
    bool same_seq(const Seq &a, const Seq &b, std::string &why)
    {
        if (!same_bits(a.x, b.x)) why = "state sequence " + show(a.x) + " vs " + show(b.x);
        else if (!same_bits(a.u, b.u)) why = "input sequence " + show(a.u) + " vs " + show(b.u);
        else if (!same_bits(a.y, b.y)) why = "output sequence " + show(a.y) + " vs " + show(b.y);
        else return true;
        return false;
    }

    // -------------------------------------------------------------- configuration model
    void Cfg::init(const Dims &dd, bool dynamic)
    {
        d = dd;
        dyn = dynamic;
        xlo = Mat::Constant(d.nx, d.ph, -INF), xhi = Mat::Constant(d.nx, d.ph, INF);
        ulo = Mat::Constant(d.nu, d.ch, -INF), uhi = Mat::Constant(d.nu, d.ch, INF);
        sx = Vec::Ones(d.nx), su = Vec::Ones(d.nu);
    }
    Mat Cfg::Y(const Mat &X, const Mat &U) const
    {
        Mat y = Mat::Zero(d.ph + 1, d.ny);
        if (out)
            for (int k = 0; k <= d.ph; k++) y.row(k) = out->outp(X.row(k).transpose(), U.row(k).transpose(), (unsigned)k).transpose();
        return y;
    }
    double Cfg::J(const Mat &X, const Mat &U, double e) const { return obj->ob(X, Y(X, U), U, e); }
    Vec Cfg::I(const Mat &X, const Mat &U, double e) const { return in ? in->in(X, Y(X, U), U, e) : Vec(); }
    Vec Cfg::E(const Mat &X, const Mat &U) const { return eq ? eq->eqv(X, U) : Vec(); }
    Vec Cfg::R(const Mat &X, const Mat &U) const
    {
        Vec r(d.ph * d.nx);
        for (int k = 0; k < d.ph; k++)
        {
            Vec x = X.row(k).transpose(), x1 = X.row(k + 1).transpose(), u = U.row(k).transpose();
            Vec res = cont ? Vec(x + ts / 2 * (st->st(x, u, (unsigned)k) + st->st(x1, u, (unsigned)k)) - x1) : Vec(x1 - st->st(x, u, (unsigned)k));
            r.segment(k * d.nx, d.nx) = res.cwiseQuotient(sx);
        }
        return r;
    }
    void Cfg::unwrap(const V &z, const Vec &x0, Mat &X, Mat &U, double &e) const
    {
        X = Mat(d.ph + 1, d.nx), U = Mat(d.ph + 1, d.nu);
        X.row(0) = x0.transpose();
        for (int k = 1; k <= d.ph; k++)
            for (int i = 0; i < d.nx; i++) X(k, i) = z[(k - 1) * d.nx + i] * sx(i);
        for (int k = 0; k <= d.ph; k++)
            for (int i = 0; i < d.nu; i++) U(k, i) = z[d.ph * d.nx + std::min(k, d.ch - 1) * d.nu + i] * su(i);
        e = z.back();
    }
    V Cfg::wrap(const Mat &X, const Mat &U, double e) const
    {
        V z(d.nz());
        for (int k = 1; k <= d.ph; k++)
            for (int i = 0; i < d.nx; i++) z[(k - 1) * d.nx + i] = X(k, i) / sx(i);
        for (int k = 0; k < d.ch; k++)
            for (int i = 0; i < d.nu; i++) z[d.ph * d.nx + k * d.nu + i] = U(k, i) / su(i);
        z.back() = e;
        return z;
    }

    // -------------------------------------------------------------- callbacks
    struct CustomThrown
    {
        int a = 3;
    };

    bool CtlState::enter(Cb *cb, int kind, double *poison)
    {
        if (ctx && sim::g_budget > 0 && ++ctx->calls > sim::g_budget) sim::budget_exceeded();
        if (!ctx)
        {
            rets.push_back({id, 0, "callback-outside-step", true, false});
            return false;
        }
        StepRec &r = *ctx->rec;
        if (cur[kind] != cb) r.cbviol.emplace_back("stale", fmt("a replaced %c callback was called", KIND[kind]));
        if (ctx->probing) return false;
        long &n = ctx->post ? r.pcalls[kind] : r.calls[kind];
        n++;
        sim::g_clock.advance(ctx->dt);
        sim::yield_point();
        long total = 0;
        for (int k = 0; k < 5; k++) total += ctx->post ? r.pcalls[k] : r.calls[k];
        if (w->peek && n % 7 == 1 && r.cbviol.size() < 20)
        { // until the step returns the last result is that of the step before
            const Res now = c->last();
            Res was;
            was.cmd = Vec::Zero(cfg.d.nu);
            bool any = false;
            for (auto &q : steps)
                if (&q != &r && !q.threw) was = q.r, any = true;
            if (now.cmd.size() != was.cmd.size() || maxdiff(now.cmd, was.cmd) != 0 || (any && (now.status != was.status || now.code != was.code || now.feas != was.feas || now.cost != was.cost || now.msg != was.msg)))
                r.cbviol.emplace_back("peek", fmt("inside a %c callback getLastResult() is %s, cost %g, status %d; the step before returned %s, cost %g, status %d", KIND[kind], show(now.cmd).c_str(), now.cost, now.status, show(was.cmd).c_str(), was.cost, was.status));
            w->rep.c("last-result-asked-in-callbacks");
        }
        bool poisoned = false;
        for (auto &f : ctx->faults)
        {
            if (f.post != ctx->post) continue;
            long at = f.kind == 'A' ? total : n;
            if (f.kind != 'A' && f.kind != KIND[kind]) continue;
            if (f.onwards ? at < f.n : at != f.n) continue;
            const std::string &a = f.act;
            r.fired.push_back(fmt("%s%c.%s", f.post ? "post-" : "", KIND[kind], a.c_str()));
            if (a == "nan" || a == "inf" || a == "ninf")
            {
                *poison = a == "nan" ? NAN : a == "inf" ? INF
                                                        : -INF;
                poisoned = true;
                r.poison = true;
            }
            else if (a == "slow")
                sim::g_clock.advance((int64_t)(f.arg * 1e9));
            else if (a == "jump")
                sim::g_clock.wall_off_ns += (int64_t)(f.arg * 1e9);
            else if (a == "level")
            {
                if (!w->quiet_log) log_level((int)f.arg);
            }
            else
            {
                r.thrown_fault = true;
                if (a == "throwi") throw 42;
                if (a == "throws") throw std::string("injected");
                if (a == "throwfs") throw nlopt::forced_stop();
                if (a == "throwrl") throw nlopt::roundoff_limited();
                if (a == "throwba") throw std::bad_alloc();
                if (a == "throwia") throw std::invalid_argument("injected");
                if (a == "throwc") throw CustomThrown();
                if (a == "throwl") throw std::logic_error("injected");
                throw std::runtime_error("injected");
            }
        }
        return poisoned;
    }
    void CtlState::check_traj(const char *who, const Mat &X, const Mat &U, const Mat *Y, double e)
    {
        if (!ctx) return;
        StepRec &r = *ctx->rec;
        const Cfg &g = r.cfg;
        const Dims &d = g.d;
        auto bad = [&](const char *tag, std::string m)
        { if (r.cbviol.size() < 20) r.cbviol.emplace_back(tag, std::string(who) + ": " + m); };
        if (X.rows() != d.ph + 1 || X.cols() != d.nx || U.rows() != d.ph + 1 || U.cols() != d.nu || (Y && (Y->rows() != d.ph + 1 || Y->cols() != d.ny)))
        {
            bad("cbshape", "wrong argument sizes");
            return;
        }
        if (!ctx->probing) r.max_e = std::max(r.max_e, std::fabs(e));
        for (int i = 0; i < d.nx; i++)
            if (!(X(0, i) == r.x(i) || (X(0, i) != X(0, i) && r.x(i) != r.x(i))) && !(std::fabs(X(0, i) - r.x(i)) <= 1e-9 * (1 + std::fabs(r.x(i)))))
            {
                bad("cbx0", fmt("trajectory starts at %.9g, measured state is %.9g", X(0, i), r.x(i)));
                break;
            }
        if (!w->watch_traj || ctx->probing) return;
        if (!finite(X) || !finite(U)) return;
        // a finite difference moves a value by a millionth of itself (at least of one)
        auto per = [](double v)
        { return 2e-6 * std::max(1.0, std::fabs(v)) + 1e-9; };
        for (int k = 1; k <= d.ph; k++)
            for (int i = 0; i < d.nx; i++)
                if (X(k, i) < g.xlo(i, k - 1) - per(X(k, i)) || X(k, i) > g.xhi(i, k - 1) + per(X(k, i)))
                    bad("cbbound", fmt("state %d at step %d is %.9g outside [%.9g,%.9g]", i, k, X(k, i), g.xlo(i, k - 1), g.xhi(i, k - 1)));
        for (int k = 0; k <= d.ph; k++)
            for (int i = 0; i < d.nu; i++)
            {
                int m = std::min(k, d.ch - 1);
                if (U(k, i) < g.ulo(i, m) - per(U(k, i)) || U(k, i) > g.uhi(i, m) + per(U(k, i)))
                    bad("cbbound", fmt("input %d at step %d is %.9g outside [%.9g,%.9g]", i, k, U(k, i), g.ulo(i, m), g.uhi(i, m)));
            }
        if (Y && !r.poison)
        {
            Mat ref = g.Y(X, U);
            double dd = maxdiff(ref, *Y);
            if (!(dd <= 1e-9 * (1 + ref.cwiseAbs().maxCoeff()))) bad("cbout", "outputs handed to the callback are not the output map of its states and inputs: " + show(*Y) + " vs " + show(ref));
        }
    }
    double Cb::obj(const Mat &X, const Mat &Y, const Mat &U, double e)
    {
        double p;
        bool poison = o->enter(this, 0, &p);
        o->check_traj("objective", X, U, &Y, e);
        double v = fn->ob(X, Y, U, e);
        return poison ? p : v;
    }
    void Cb::ineq(Vec &c, const Mat &X, const Mat &Y, const Mat &U, double e)
    {
        double p;
        bool poison = o->enter(this, 3, &p);
        o->check_traj("inequality", X, U, &Y, e);
        if (c.size() != fn->d.ineq && o->ctx) o->ctx->rec->cbviol.emplace_back("cbshape", "inequality vector has the wrong size");
        c = fn->in(X, Y, U, e);
        if (o->ctx)
            for (auto &q : o->ctx->civ)
                if (q.first < c.size()) c(q.first) = q.second;
        if (poison && c.size()) c(c.size() / 2) = p;
    }
    void Cb::eq(Vec &c, const Mat &X, const Mat &U)
    {
        double p;
        bool poison = o->enter(this, 4, &p);
        o->check_traj("equality", X, U, nullptr, 0);
        if (c.size() != fn->d.eq && o->ctx) o->ctx->rec->cbviol.emplace_back("cbshape", "equality vector has the wrong size");
        c = fn->eqv(X, U);
        if (o->ctx)
            for (auto &q : o->ctx->cev)
                if (q.first < c.size()) c(q.first) = q.second;
        if (poison && c.size()) c(c.size() / 2) = p;
    }
    void Cb::state(Vec &dx, const Vec &x, const Vec &u, unsigned k)
    {
        double p;
        bool poison = o->enter(this, 1, &p);
        if (o->ctx)
        {
            if ((int)k >= fn->d.ph) o->ctx->rec->cbviol.emplace_back("cbindex", fmt("state function called with step %u of %d", k, fn->d.ph));
            if (dx.size() != fn->d.nx || x.size() != fn->d.nx || u.size() != fn->d.nu)
                o->ctx->rec->cbviol.emplace_back("cbshape", "state function called with wrong sizes");
        }
        dx = fn->st(x, u, k);
        if (poison) dx(0) = p;
    }
    void Cb::out(Vec &y, const Vec &x, const Vec &u, unsigned k)
    {
        double p;
        bool poison = o->enter(this, 2, &p);
        if (o->ctx)
        {
            if ((int)k > fn->d.ph) o->ctx->rec->cbviol.emplace_back("cbindex", fmt("output function called with step %u of %d", k, fn->d.ph));
            if (y.size() != fn->d.ny || x.size() != fn->d.nx || u.size() != fn->d.nu)
                o->ctx->rec->cbviol.emplace_back("cbshape", "output function called with wrong sizes");
        }
        y = fn->outp(x, u, k);
        if (poison && y.size()) y(0) = p;
    }

    // -------------------------------------------------------------- simulated solver
    void CtlState::value(SolveCall &c, const double *z, double f)
    {
        StepRec &r = *ctx->rec;
        if (r.path.size() < 300) r.path.push_back({V(z, z + c.n), f});
    }
    void CtlState::point(SolveCall &c, int which, const double *z, bool)
    {
        StepRec &r = *ctx->rec;
        for (unsigned i = 0; i < c.n; i++)
            if (z[i] < c.lb[i] || z[i] > c.ub[i])
            {
                if (r.pt_viol.size() < 3) r.pt_viol.push_back(fmt("solver visits z[%u]=%.17g outside [%.17g,%.17g]", i, z[i], c.lb[i], c.ub[i]));
                break;
            }
        if (which == 0)
        {
            r.evals++;
            r.last_eval_start = (sim::g_clock.steady_ns - ctx->t0) * 1e-9;
        }
    }
    static double in_box(Rng &r, double lo, double hi, double span)
    {
        double a = std::isfinite(lo) ? lo : (std::isfinite(hi) ? hi - span : -span);
        double b = std::isfinite(hi) ? hi : a + 2 * span;
        double v = r.uni(a, b);
        return std::min(std::max(v, lo), hi);
    }
    static V stub_point(const CtlState &cs, const SolveCall &c, const Cfg &g, const Vec &x0, const std::string &kind, uint64_t seed)
    {
        const double pm = cs.ctx->probing ? 1 : cs.ctx->op.d("pm", 1); // magnitude of what no bound limits
        Rng r(seed);
        V z(c.n);
        if (kind == "guess") return c.guess;
        if (kind == "lo" || kind == "hi")
        {
            for (unsigned i = 0; i < c.n; i++)
            {
                double b = kind == "lo" ? c.lb[i] : c.ub[i];
                z[i] = std::isfinite(b) ? b : in_box(r, c.lb[i], c.ub[i], pm);
            }
            return z;
        }
        // draw in physical units so that scaled twins visit the same physical point
        Mat X(g.d.ph + 1, g.d.nx), U(g.d.ph + 1, g.d.nu);
        double e = g.par.hard ? 0 : r.uni(0, 1);
        X.row(0) = x0.transpose();
        for (int k = 0; k <= g.d.ph; k++)
            for (int i = 0; i < g.d.nu; i++)
            {
                int m = std::min(k, g.d.ch - 1);
                U(k, i) = k < g.d.ch ? in_box(r, g.ulo(i, m), g.uhi(i, m), 1.5 * pm) : U(m, i);
            }
        for (int k = 1; k <= g.d.ph; k++)
            for (int i = 0; i < g.d.nx; i++) X(k, i) = in_box(r, g.xlo(i, k - 1), g.xhi(i, k - 1), 2 * pm);
        if (kind == "feas" && g.st && !g.cont)
            for (int k = 0; k < g.d.ph; k++) X.row(k + 1) = g.st->st(X.row(k).transpose(), U.row(k).transpose(), (unsigned)k).transpose();
        z = g.wrap(X, U, e);
        for (unsigned i = 0; i < c.n && i < z.size(); i++) z[i] = std::min(std::max(z[i], c.lb[i]), c.ub[i]);
        return z;
    }
    int CtlState::stub_solve(SolveCall &c, double *x, double *minf)
    {
        StepRec &r = *ctx->rec;
        const Op &op = ctx->op;
        r.stub = true;
        *minf = INF;
        if (!c.has_f) return -2;
        for (unsigned i = 0; i < c.n; i++)
            if (c.lb[i] > c.ub[i] || c.guess[i] < c.lb[i] || c.guess[i] > c.ub[i]) return -2;
        uint64_t ps = op.u("ps", 1);
        int nev = (int)op.i("nev", 1);
        V g;
        for (int k = 0; k < nev; k++)
        {
            V z = k == 0 ? c.guess : stub_point(*this, c, r.cfg, r.x, "rand", sim::mix(ps, (uint64_t)k));
            point(c, 0, z.data(), true);
            c.f(z, &g);
            if (c.stopped()) return -5;
            for (size_t b = 0; b < c.blocks.size(); b++)
            {
                c.con(b, z, &g);
                if (c.stopped()) return -5;
            }
        }
        V z = stub_point(*this, c, r.cfg, r.x, op.str("pt", "rand"), ps);
        point(c, 0, z.data(), false);
        double f = c.f(z, nullptr);
        if (c.stopped()) return -5;
        for (unsigned i = 0; i < c.n; i++) x[i] = z[i];
        *minf = f;
        return (int)op.i("code", 4);
    }
    void CtlState::probe(SolveCall &c)
    {
        StepRec &r = *ctx->rec;
        const Cfg &g = r.cfg;
        ctx->probing = true;
        auto bad = [&](const char *tag, const std::string &m)
        { if (r.cbviol.size() < 20) r.cbviol.emplace_back(tag, m); };
        if ((int)c.n != g.d.nz())
        {
            bad("probe-dim", fmt("solver sees %u variables, the problem has %d", c.n, g.d.nz()));
            ctx->probing = false;
            return;
        }
        uint64_t ps = ctx->op.u("probe", ctx->op.u("ps", 7));
        std::vector<V> pts;
        bool gfin = true;
        for (double v : c.guess) gfin = gfin && std::isfinite(v);
        if (gfin) pts.push_back(c.guess);
        for (int k = 0; k < 3; k++)
        {
            V z = stub_point(*this, c, g, r.x, "rand", sim::mix(ps, 100 + (uint64_t)k));
            if (!g.par.hard)
            {
                Rng q(sim::mix(ps, 200 + (uint64_t)k));
                z.back() = std::min(std::max(k == 0 ? 0.0 : q.uni(0, 2), c.lb.back()), c.ub.back());
            }
            // trajectories of very different magnitudes, where the bounds leave room for them
            if (ctx->op.has("mag") && k > 0)
            {
                Rng q(sim::mix(ps, 300 + (uint64_t)k));
                for (unsigned i = 0; i + 1 < c.n; i++)
                    if (q.chance(0.4)) z[i] = std::min(std::max(z[i] * std::pow(10, q.uni(1, ctx->op.d("mag"))), c.lb[i]), c.ub[i]);
            }
            pts.push_back(z);
        }
        size_t K = pts.size();
        double xm = r.x.cwiseAbs().maxCoeff();
        if (!(xm < 1e7))
        {
            ctx->probing = false;
            return;
        }
        // expected scalars
        struct Ex
        {
            int type; // 0 obj 1 model 2 user eq 3 ineq
            int idx;
            V val;
            double tol;
            bool used = false;
        };
        std::vector<Ex> ex;
        auto refval = [&](int type, int idx, const V &z) -> double
        {
            Mat X, U;
            double e;
            g.unwrap(z, r.x, X, U, e);
            if (type == 0) return g.J(X, U, e);
            if (type == 1) return g.R(X, U)(idx);
            if (type == 2) return g.E(X, U)(idx);
            return g.I(X, U, e)(idx);
        };
        if (g.st)
            for (int i = 0; i < g.d.ph * g.d.nx; i++) ex.push_back({1, i, {}, (double)g.stol});
        if (g.eq)
            for (int i = 0; i < g.d.eq; i++) ex.push_back({2, i, {}, (double)g.etol});
        if (g.in)
            for (int i = 0; i < g.d.ineq; i++) ex.push_back({3, i, {}, (double)g.itol});
        {
            std::vector<std::array<Vec, 3>> cache;
            for (auto &z : pts)
            {
                Mat X, U;
                double e;
                g.unwrap(z, r.x, X, U, e);
                cache.push_back({g.st ? g.R(X, U) : Vec(), g.E(X, U), g.I(X, U, e)});
            }
            for (auto &e : ex)
                for (size_t k = 0; k < K; k++) e.val.push_back(cache[k][e.type - 1](e.idx));
        }
        V round(K); // rounding of the terms the constraints add up
        for (size_t k = 0; k < K; k++)
        {
            Mat X, U;
            double e;
            g.unwrap(pts[k], r.x, X, U, e);
            double big = std::max(X.cwiseAbs().maxCoeff(), U.cwiseAbs().maxCoeff());
            round[k] = big > 100 ? 2e-14 * big / std::min(1.0, g.sx.minCoeff()) : 0;
        }
        size_t gp = ps % K; // the point whose gradients are compared
        // (a difference with relative steps says nothing about a sine at 1e5)
        if (gp == 0 && K > 1)
        {
            for (double v : pts[0]) xm = std::max(xm, std::fabs(v)); // (a warm start keeps what an earlier state left)
            if (xm > 50) gp = 1;
        }
        auto fdgrad = [&](int type, int idx, const V &z0)
        {
            V gr(c.n);
            for (unsigned i = 0; i < c.n; i++)
            {
                double scale = i < (unsigned)(g.d.ph * g.d.nx) ? g.sx(i % g.d.nx) : i + 1 < c.n ? g.su((i - g.d.ph * g.d.nx) % g.d.nu)
                                                                                              : 1.0;
                double h = 1e-4 * std::max(1.0, std::fabs(z0[i] * scale)) / scale;
                V a = z0, b = z0;
                a[i] += h, b[i] -= h;
                gr[i] = (refval(type, idx, a) - refval(type, idx, b)) / (2 * h);
            }
            return gr;
        };
        auto cmpgrad = [&](const char *what, int idx, const V &got, const V &ref, double sign, double val)
        {
            // magnitude of what the registered functions add up
            double big = idx < 0 ? std::fabs(val) : 0;
            if (idx >= 0)
            {
                Mat X, U;
                double e;
                g.unwrap(pts[gp], r.x, X, U, e);
                big = std::max(X.cwiseAbs().maxCoeff(), U.cwiseAbs().maxCoeff());
            }
            for (unsigned i = 0; i < c.n; i++)
            {
                if (g.par.hard && i + 1 == c.n) continue; // slack is fixed
                double scale = i < (unsigned)(g.d.ph * g.d.nx) ? g.sx(i % g.d.nx) : i + 1 < c.n ? g.su((i - g.d.ph * g.d.nx) % g.d.nu)
                                                                                              : 1.0;
                double m = std::max(1.0, std::fabs(pts[gp][i] * scale)); // the steps of a difference are relative to it
                double err = std::fabs(sign * got[i] - ref[i]) / scale;
                // the last is what is cancelled by a step of 1e-6 (objective), 1.5e-8 (constraints)
                double tol = 3e-4 * (1 + std::fabs(ref[i]) / scale) + 1e-5 * m * (idx < 0) + (idx < 0 ? 4e-9 : 5e-7 * (big > 100)) * (idx < 0 ? std::fabs(val) : big) / m;
                w->rep.m(std::string("grad_err_over_tol.") + what, err / tol);
                if (!(err <= tol))
                {
                    bad("probe-grad", fmt("%s %d: derivative by variable %u is %.9g, expected %.9g", what, idx, i, sign * got[i], ref[i]));
                    return;
                }
            }
        };
        if (g.obj)
        {
            for (size_t k = 0; k < K; k++)
            {
                V gr;
                double v = c.f(pts[k], k == gp ? &gr : nullptr), e = refval(0, 0, pts[k]);
                if (!close(v, e, 1e-9)) bad("probe-obj", fmt("objective is %.12g, the registered one is %.12g", v, e));
                if (k == gp) cmpgrad("objective", -1, gr, fdgrad(0, 0, pts[k]), 1, e);
            }
        }
        // actual scalars
        long nact = 0, nexp = (long)ex.size();
        for (size_t b = 0; b < c.blocks.size(); b++)
        {
            std::vector<V> vals;
            V grad;
            for (size_t k = 0; k < K; k++)
            {
                V gr;
                vals.push_back(c.con(b, pts[k], k == gp ? &gr : nullptr));
                if (k == gp) grad = gr;
            }
            for (unsigned i = 0; i < c.blocks[b].m; i++)
            {
                nact++;
                bool found = false;
                for (auto &e : ex)
                {
                    if (e.used || (e.type == 3) == c.blocks[b].eq) continue;
                    double sg = 0;
                    for (double s : {1.0, -1.0})
                    {
                        if (s < 0 && e.type == 3) continue;
                        bool all = true;
                        for (size_t k = 0; k < K && all; k++) all = std::fabs(s * vals[k][i] - e.val[k]) <= 1e-9 * (1 + std::fabs(e.val[k])) + round[k] || s * vals[k][i] == e.val[k];
                        if (all)
                        {
                            sg = s;
                            break;
                        }
                    }
                    if (sg == 0) continue;
                    // identical scalars may repeat; prefer an exact tolerance match
                    e.used = found = true;
                    double t = c.blocks[b].tol[i];
                    if (!(std::fabs(t - e.tol) <= 1e-6 * e.tol)) bad("probe-tol", fmt("tolerance of constraint type %d is %.9g, registered %.9g", e.type, t, e.tol));
                    V got(grad.begin() + (long)i * c.n, grad.begin() + (long)(i + 1) * c.n);
                    cmpgrad(e.type == 1 ? "model" : e.type == 2 ? "user-equality"
                                                                : "user-inequality",
                            e.idx, got, fdgrad(e.type, e.idx, pts[gp]), sg, e.val[gp]);
                    break;
                }
                if (!found) bad("probe-con", fmt("%s constraint %u of block %zu is none of the registered ones (values %s)", c.blocks[b].eq ? "equality" : "inequality", i, b, show(V{vals[0][i], vals[K - 1][i]}).c_str()));
            }
        }
        if (nact != nexp) bad("probe-con", fmt("solver was given %ld scalar constraints, registered are %ld", nact, nexp));
        for (auto &e : ex)
            if (!e.used)
            {
                bad("probe-con", fmt("registered constraint type %d index %d is not in the problem given to the solver", e.type, e.idx));
                break;
            }
        w->rep.c("probes");
        ctx->probing = false;
    }
    int CtlState::solve(SolveCall &c, double *x, double *minf, const std::function<int()> &real)
    {
        StepRec &r = *ctx->rec;
        r.solved = true;
        r.call = c;
        r.call.opt = nullptr;
        sim::yield_point();
        if (w->do_probe && std::isfinite(r.x.sum()) && std::isfinite(r.u.sum())) probe(c);
        const Op &op = ctx->op;
        int ret = op.str("solver", "real") == "stub" ? stub_solve(c, x, minf) : real();
        if (!c.stopped())
        {
            std::string post = op.str("post");
            if (ret > 0 && !post.empty())
            {
                size_t at = (size_t)op.u("posti") % c.n;
                double v = post == "nan" ? NAN : post == "inf" ? INF
                                                               : -INF;
                if (post == "minf")
                    *minf = NAN;
                else
                    x[at] = v;
                r.fired.push_back("solver." + post);
            }
            if (op.has("ret") && ret != -2)
            {
                ret = (int)op.i("ret");
                r.fired.push_back(fmt("solver.ret%d", ret));
            }
        }
        r.ret = ret;
        r.zopt.assign(x, x + c.n);
        r.minf = *minf;
        sim::yield_point();
        ctx->post = true;
        return ret;
    }

    // -------------------------------------------------------------- logger sink
    int LogSink::overflow(int ch)
    {
        char c = (char)ch;
        return xsputn(&c, 1) == 1 ? ch : -1;
    }
    std::streamsize LogSink::xsputn(const char *s, std::streamsize n)
    {
        sim::UserScope us;
        writes++;
        if (mode == 1) return 0;
        if (mode == 3) sim::yield_point();
        if (mode == 4) throw std::runtime_error("stream failure");
        if (mode == 2 && (long)text.size() + n > cap)
        {
            long k = std::max(0l, cap - (long)text.size());
            text.append(s, (size_t)k);
            return k;
        }
        text.append(s, (size_t)n);
        if (sim::Sched::task() >= 0) by_task[sim::Sched::task()].append(s, (size_t)n);
        return n;
    }

    // -------------------------------------------------------------- world
    struct NullBuf : std::streambuf
    {
        int overflow(int c) override { return c; }
        std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
    };
    static std::ostream &null_stream()
    {
        static NullBuf b;
        static std::ostream o(&b);
        return o;
    }
    World::World(Report &r) : rep(r)
    {
        log_reset();
        log_stream(&null_stream());
        log_level(3);
        sim::g_clock.reset();
        sim::g_clock.active = true;
        if (sim::g_budget == 0) sim::g_budget = 20000000;
    }
    World::~World()
    {
        destroy();
        log_reset();
        log_level(3);
        log_stream(&null_stream());
        sim::g_clock.active = false;
    }
    void World::destroy()
    {
        for (auto &p : ctl)
            if (p.second) p.second->c.reset();
    }
    CtlState *World::get(int id)
    {
        auto it = ctl.find(id);
        if (it == ctl.end() || !it->second->c) return nullptr;
        return it->second.get();
    }
    void World::log(const std::string &s) { rep.log(s); }
    std::vector<const StepRec *> World::all_steps() const
    {
        std::vector<const StepRec *> v;
        for (auto &p : ctl)
            for (auto &s : p.second->steps) v.push_back(&s);
        std::stable_sort(v.begin(), v.end(), [](auto a, auto b)
                         { return a->op < b->op; });
        return v;
    }
    std::vector<const StepRec *> World::steps_of(int id) const
    {
        std::vector<const StepRec *> v;
        auto it = ctl.find(id);
        if (it != ctl.end())
            for (auto &s : it->second->steps) v.push_back(&s);
        return v;
    }
    static Vec tovec(const V &v) { return Eigen::Map<const Vec>(v.data(), (long)v.size()); }
    static Fault parse_fault(const std::string &s)
    {
        Fault f;
        size_t i = 0;
        f.post = s[0] == 'p';
        if (f.post) i++;
        f.kind = s[i];
        std::stringstream ss(s.substr(i + 2));
        std::string n, a, g;
        std::getline(ss, n, ':');
        std::getline(ss, a, ':');
        std::getline(ss, g, ':');
        f.onwards = !n.empty() && n.back() == '+';
        f.n = strtol(n.c_str(), nullptr, 10);
        f.act = a;
        f.arg = g.empty() ? 0 : strtod(g.c_str(), nullptr);
        return f;
    }
    void World::run(const std::vector<Op> &ops)
    {
        for (size_t i = 0; i < ops.size(); i++)
            if (!skip.count(i)) exec(ops[i], i);
    }
    // a configuration call during which an allocation fails: it says so - and works when it is made again - or it is done
    void World::exec_failing(const Op &op, size_t idx)
    {
        Op plain = op;
        plain.erase("oom");
        int id = (int)op.i("c", 0);
        auto it = ctl.find(id);
        CtlState *cs = op.name != "new" && it != ctl.end() ? it->second.get() : nullptr;
        size_t nr = cs ? cs->rets.size() : 0;
        // nlopt's own wrapper is left half prepared when the very first binding runs out of memory (third-party code)
        if (cs && !cs->bound && op.name == "obj") return exec(plain, idx);
        long before = sim::g_alloc.failed, live = sim::g_alloc.live;
        bool threw = false, bad = true;
        std::string what;
        sim::g_alloc.fail_at = op.i("oom");
        try
        {
            exec(plain, idx);
        }
        catch (const std::bad_alloc &)
        {
            threw = true;
        }
        catch (const std::exception &ex)
        {
            threw = true, bad = false, what = ex.what();
        }
        catch (...)
        {
            threw = true, bad = false, what = "non-standard exception";
        }
        sim::g_alloc.fail_at = -1;
        if (sim::g_alloc.failed == before)
        {
            if (threw) rep.v("escape", fmt("op %zu: %s threw without an injected failure: ", idx, op.name.c_str()) + what);
            return;
        }
        rep.c("fault.oom-" + op.name);
        if (threw && !bad) rep.v("escape", fmt("op %zu: an allocation failed in %s, which threw something other than std::bad_alloc: ", idx, op.name.c_str()) + what);
        if (op.name == "new" && threw && sim::g_alloc.live != live) rep.v("leak", fmt("op %zu: the controller which could not be constructed left %ld blocks allocated", idx, sim::g_alloc.live - live));
        bool again = threw;
        if (cs)
        {
            for (size_t k = nr; k < cs->rets.size(); k++)
                if (cs->rets[k].ret != cs->rets[k].expected) again = true;
            if (again) cs->rets.resize(nr);
        }
        log(fmt("oom in %s: %s", op.name.c_str(), again ? "refused" : "absorbed"));
        if (!again) return;
        refused++;
        exec(plain, idx);
    }
    void World::exec(const Op &op, size_t idx)
    {
        const std::string &n = op.name;
        if (n != "step" && op.has("oom")) return exec_failing(op, idx);
        int id = (int)op.i("c", 0);
        if (n == "new")
        {
            V dv = op.vec("d");
            if (dv.size() != 7) return;
            Dims d{(int)dv[0], (int)dv[1], (int)dv[2], (int)dv[3], (int)dv[4], (int)dv[5], (int)dv[6]};
            bool dyn = force_dyn >= 0 ? force_dyn != 0 : op.i("dyn", 0) != 0;
            if (paint) sim::paint_stack(paint);
            std::unique_ptr<Ctl> c;
            if (!dyn) c = make_static(d);
            if (!c) c = make_dynamic(d);
            auto cs = std::make_unique<CtlState>();
            cs->w = this;
            cs->id = id;
            cs->c = std::move(c);
            cs->cfg.init(d, dyn);
            ctl[id] = std::move(cs);
            return;
        }
        if (n == "jump")
        {
            sim::g_clock.wall_off_ns += (int64_t)(op.d("s") * 1e9);
            rep.c("fault.wall-jump");
            return;
        }
        if (n == "adv")
        {
            sim::g_clock.advance((int64_t)(op.d("s") * 1e9));
            return;
        }
        if (n == "say")
        {
            if (!quiet_log) log_say((int)op.i("type"), op.str("v"));
            return;
        }
        if (n == "stream")
        {
            if (quiet_log) return;
            sink = std::make_shared<LogSink>();
            sink->mode = (int)op.i("mode", 0);
            sink->cap = op.i("cap", -1);
            if (op.i("exc", 0)) sink->exceptions(std::ios::badbit | std::ios::failbit);
            log_stream(sink.get());
            rep.c(fmt("fault.stream-mode%d", sink->mode));
            return;
        }
        if (n == "lreset")
        {
            if (!quiet_log) log_reset();
            return;
        }
        if (n == "glevel")
        {
            if (!quiet_log) log_level((int)op.i("v"));
            return;
        }
        if (n == "gprefix")
        {
            if (!quiet_log) log_prefix(op.str("v"));
            return;
        }
        CtlState *cs = get(id);
        if (!cs) return;
        Cfg &g = cs->cfg;
        const Dims &d = g.d;
        auto ret = [&](bool got, bool expected)
        {
            cs->rets.push_back({id, idx, n, got, expected});
            log(fmt("ret %s %d", n.c_str(), got));
            rep.shp(sim::mix(std::hash<std::string>()(n), got));
        };
        auto addcb = [&](char kind, int k, std::shared_ptr<RefFn> fn)
        {
            auto cb = std::make_unique<Cb>();
            cb->o = cs;
            cb->fn = fn;
            cb->kind = kind;
            cs->cbs.push_back(std::move(cb));
            (void)k;
            return cs->cbs.back().get();
        };
        float tolv = (float)op.d("tol", 1e-10);
        const float *tolp = op.has("tol") ? &tolv : nullptr;
        bool tol_ok = tolv >= 0;
        int nlf = (int)op.i("nl", 0);
        if (n == "del")
        {
            cs->c.reset();
        }
        else if (n == "ts")
        {
            bool r = cs->c->ts(op.d("v"));
            ret(r, true);
            g.cont = true;
            g.ts = op.d("v");
        }
        else if (n == "sx" || n == "su")
        {
            if (drop_scale) return;
            Vec v = tovec(op.vec("v"));
            if (n == "sx")
            {
                if (v.size() != d.nx) return;
                cs->c->sx(v);
                g.sx = v;
            }
            else
            {
                if (v.size() != d.nu) return;
                cs->c->su(v);
                g.su = v;
            }
        }
        else if (n == "model")
        {
            auto fn = std::make_shared<RefFn>(RefFn::state(d, op.u("s"), nlf, op.i("cont", 0) != 0));
            Cb *cb = addcb('S', 1, fn);
            bool r = cs->c->state(cb, tolp);
            ret(r, tol_ok);
            if (tol_ok) cs->cur[1] = cb, g.st = fn, g.stol = tolv, g.ost = op;
        }
        else if (n == "out")
        {
            auto fn = std::make_shared<RefFn>(RefFn::output(d, op.u("s"), nlf));
            Cb *cb = addcb('O', 2, fn);
            ret(cs->c->out(cb), true);
            cs->cur[2] = cb, g.out = fn, g.oout = op;
        }
        else if (n == "obj")
        {
            auto fn = std::make_shared<RefFn>(RefFn::objective(d, op.u("s"), nlf, op.d("we", 5), op.i("skip0", 0) != 0));
            Cb *cb = addcb('F', 0, fn);
            ret(cs->c->obj(cb), true);
            cs->cur[0] = cb, g.obj = fn, g.oobj = op, cs->bound = true;
        }
        else if (n == "ineq")
        {
            if (d.ineq == 0) return;
            auto fn = std::make_shared<RefFn>(RefFn::inequality(d, op.u("s"), nlf, op.d("shift", 0), (int)op.i("kind", 0)));
            Cb *cb = addcb('I', 3, fn);
            ret(cs->c->ineq(cb, tolp), tol_ok);
            if (tol_ok) cs->cur[3] = cb, g.in = fn, g.itol = tolv, g.oin = op;
        }
        else if (n == "eq")
        {
            if (d.eq == 0) return;
            auto fn = std::make_shared<RefFn>(RefFn::equality(d, op.u("s"), nlf));
            Cb *cb = addcb('E', 4, fn);
            ret(cs->c->eq(cb, tolp), tol_ok);
            if (tol_ok) cs->cur[4] = cb, g.eq = fn, g.etol = tolv, g.oeq = op;
        }
        else if (n == "par")
        {
            Par p;
            p.tl = op.d("tl", 0), p.maxit = (int)op.i("maxit", 100);
            if (p.maxit == 0 && p.tl <= 0) p.maxit = 100; // no limit at all: nothing promises an end
             p.warm = op.i("warm", 0) != 0, p.hard = op.i("hard", 1) != 0;
            p.rf = op.d("rf", -1), p.rx = op.d("rx", -1), p.af = op.d("af", -1), p.ax = op.d("ax", -1);
            cs->c->par(p);
            g.par = p;
        }
        else if (n == "xb" || n == "ub")
        {
            int a = (int)op.i("a", -1), b = (int)op.i("b", -1);
            int hz = n == "xb" ? d.ph : d.ch, rows = n == "xb" ? d.nx : d.nu;
            Vec lo = tovec(op.vec("lo")), hi = tovec(op.vec("hi"));
            if (lo.size() != rows || hi.size() != rows) return;
            bool all = a == -1 && b == -1, ok = all || (0 <= a && a < b && b <= hz);
            bool r = n == "xb" ? cs->c->xb(lo, hi, a, b) : cs->c->ub(lo, hi, a, b);
            ret(r, ok);
            if (ok)
            {
                if (all) a = 0, b = hz;
                for (int k = a; k < b; k++)
                    (n == "xb" ? g.xlo : g.ulo).col(k) = lo, (n == "xb" ? g.xhi : g.uhi).col(k) = hi;
            }
        }
        else if (n == "xbm" || n == "ubm")
        {
            bool X = n == "xbm";
            V lo = op.vec("lo"), hi = op.vec("hi");
            int rows = X ? d.nx : d.nu, cols = X ? d.ph : d.ch;
            if ((int)lo.size() != rows * cols || (int)hi.size() != rows * cols) return;
            Mat l = Eigen::Map<Mat>(lo.data(), rows, cols), h = Eigen::Map<Mat>(hi.data(), rows, cols);
            ret(X ? cs->c->xbm(l, h) : cs->c->ubm(l, h), true);
            (X ? g.xlo : g.ulo) = l, (X ? g.xhi : g.uhi) = h;
        }
        else if (n == "yb")
            ret(cs->c->yb_throws(), true);
        else if (n == "slice")
        {
            int a = (int)op.i("a"), b = (int)op.i("b");
            ret(cs->c->slice_p(a, b), 0 <= a && a < b && b <= d.ph);
            ret(cs->c->slice_c(a, b), 0 <= a && a < b && b <= d.ch);
            ret(cs->c->slice_unset(a, b), a == -1 && b == -1);
        }
        else if (n == "reset")
            cs->c->reset_stats();
        else if (n == "level")
        {
            if (!quiet_log) ret(cs->c->level((int)op.i("v")), true);
        }
        else if (n == "prefix")
        {
            if (!quiet_log) ret(cs->c->prefix(op.str("v")), true);
        }
        else if (n == "step")
        {
            cs->steps.emplace_back();
            StepRec &r = cs->steps.back();
            r.ctl = id;
            r.op = idx;
            r.x = tovec(op.vec("x")), r.u = tovec(op.vec("u"));
            if (r.x.size() != d.nx || r.u.size() != d.nu)
            {
                cs->steps.pop_back();
                return;
            }
            r.cfg = g;
            StepCtx ctx;
            ctx.rec = &r;
            ctx.op = op;
            ctx.dt = op.i("dt", 1000);
            for (auto &f : op.all("f")) ctx.faults.push_back(parse_fault(f));
            for (auto &s : op.all("civ")) ctx.civ.emplace_back((int)strtol(s.c_str(), nullptr, 10), sim::parse_num(s.substr(s.find(':') + 1)));
            for (auto &s : op.all("cev")) ctx.cev.emplace_back((int)strtol(s.c_str(), nullptr, 10), sim::parse_num(s.substr(s.find(':') + 1)));
            if (paint) sim::paint_stack(paint);
            SolveHook *sh = t_hook;
            StepCtx *sc = cs->ctx;
            t_hook = cs;
            cs->ctx = &ctx;
            sim::yield_point();
            ctx.t0 = sim::g_clock.steady_ns;
            long before = sim::g_alloc.failed;
            if (op.has("oom")) sim::g_alloc.fail_at = op.i("oom");
            try
            {
                r.r = cs->c->step(r.x, r.u);
            }
            catch (const std::bad_alloc &e)
            {
                r.threw = r.is_badalloc = true;
                r.threw_what = "std::bad_alloc";
            }
            catch (const std::exception &e)
            {
                r.threw = true;
                r.threw_what = e.what();
            }
            catch (...)
            {
                r.threw = true;
                r.threw_what = "non-standard exception";
            }
            sim::g_alloc.fail_at = -1;
            if (sim::g_alloc.failed > before) r.fired.push_back("oom");
            r.elapsed = (sim::g_clock.steady_ns - ctx.t0) * 1e-9;
            t_hook = sh;
            cs->ctx = sc;
            r.last = cs->c->last();
            r.s = cs->c->seq();
            r.st = cs->c->stats();
            sim::yield_point();
            log(fmt("step c=%d ret=%d status=%d code=%d feas=%d cost=%.17g cmd=%s evals=%ld calls=%ld/%ld/%ld/%ld/%ld %s", id, r.ret, r.r.status, r.r.code, r.r.feas, r.r.cost, show(r.r.cmd).c_str(), r.evals, r.calls[0], r.calls[1],
                    r.calls[2], r.calls[3], r.calls[4], r.threw ? r.threw_what.c_str() : ""));
            rep.raw(r.s.x.data(), sizeof(double) * (size_t)r.s.x.size());
            rep.raw(r.s.u.data(), sizeof(double) * (size_t)r.s.u.size());
            rep.shp(sim::mix((uint64_t)(r.r.status * 64 + r.ret + 10), (uint64_t)r.r.feas + (r.fired.empty() ? 0 : std::hash<std::string>()(r.fired[0]))));
            if (count)
            {
                rep.c("steps");
                rep.c(r.stub ? "steps.stub-solver" : "steps.real-solver");
                rep.c("callbacks", (double)(r.calls[0] + r.calls[1] + r.calls[2] + r.calls[3] + r.calls[4] + r.pcalls[0] + r.pcalls[1] + r.pcalls[2] + r.pcalls[3] + r.pcalls[4]));
                static const char *SN[] = {"SUCCESS", "MAX_ITERATION", "INFEASIBLE", "ERROR", "UNKNOWN"};
                if (!r.threw && r.r.status >= 0 && r.r.status < 5) rep.c(std::string("status.") + SN[r.r.status]);
                std::set<std::string> fs(r.fired.begin(), r.fired.end());
                for (auto &f : fs) rep.c("fault." + f);
            }
        }
    }

    std::vector<Op> config_ops(const Cfg &g, int id, uint64_t order_seed)
    {
        std::vector<Op> v, m;
        const Dims &d = g.d;
        v.push_back(Op("new").set("c", id).set("d", V{(double)d.nx, (double)d.nu, (double)d.ny, (double)d.ph, (double)d.ch, (double)d.ineq, (double)d.eq}).set("dyn", g.dyn ? 1 : 0));
        auto flat = [](const Mat &a)
        { return V(a.data(), a.data() + a.size()); };
        auto withid = [&](Op o)
        { return o.set("c", id); };
        if (g.st) m.push_back(withid(g.ost));
        if (g.out) m.push_back(withid(g.oout));
        if (g.obj) m.push_back(withid(g.oobj));
        if (g.in) m.push_back(withid(g.oin));
        if (g.eq) m.push_back(withid(g.oeq));
        if (g.cont) m.push_back(Op("ts").set("c", id).set("v", g.ts));
        m.push_back(Op("par").set("c", id).set("maxit", g.par.maxit).set("tl", g.par.tl).set("warm", g.par.warm ? 1 : 0).set("hard", g.par.hard ? 1 : 0).set("rf", g.par.rf).set("rx", g.par.rx).set("af", g.par.af).set("ax", g.par.ax));
        if (g.sx != Vec::Ones(d.nx)) m.push_back(Op("sx").set("c", id).set("v", flat(g.sx)));
        if (g.su != Vec::Ones(d.nu)) m.push_back(Op("su").set("c", id).set("v", flat(g.su)));
        m.push_back(Op("xbm").set("c", id).set("lo", flat(g.xlo)).set("hi", flat(g.xhi)));
        m.push_back(Op("ubm").set("c", id).set("lo", flat(g.ulo)).set("hi", flat(g.uhi)));
        Rng r(order_seed);
        if (order_seed)
            for (size_t i = m.size(); i > 1; i--) std::swap(m[i - 1], m[(size_t)r.below((int)i)]);
        v.insert(v.end(), m.begin(), m.end());
        return v;
    }
}
