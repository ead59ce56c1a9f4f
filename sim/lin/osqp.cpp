#include "osqp_sim.hpp"
#include <limits>
#include <malloc.h>
namespace lin
{
    using sim::fmt;
    using sim::Rng;
    thread_local OsqpCtx *t_osqp = nullptr;
    static const double INF = std::numeric_limits<double>::infinity();
    struct Ws
    {
        OSQPWorkspace w{};
        OSQPSettings set{};
        OSQPInfo info{};
        OSQPSolution sol{};
        QP qp;
        V x, y, wx, wy;
        bool given = false, broken = false, live = true;
        void *block = nullptr; // the memory the caller pays for
    };
    static std::map<OSQPWorkspace *, Ws *> g_ws;
    static std::set<void *> g_blocks;
    static std::set<OSQPWorkspace *> g_dead;
    static std::vector<std::string> g_misuse;
    std::vector<std::string> &osqp_misuse() { return g_misuse; }
    long osqp_live_workspaces() { return (long)g_ws.size(); }
    long osqp_live_blocks() { return (long)g_blocks.size(); }
    void osqp_reset()
    {
        g_ws.clear();
        g_blocks.clear();
        g_dead.clear();
        g_misuse.clear();
    }
    static void misuse(const std::string &s)
    {
        if (g_misuse.size() < 10) g_misuse.push_back(s);
    }
    static bool csc_ok(const csc *a, int rows, int cols, const char *name, QP &q, Mat &out)
    {
        auto bad = [&](const std::string &s)
        {
            q.defects.push_back(std::string(name) + ": " + s);
            return false;
        };
        if (!a) return bad("missing");
        if (a->m != rows || a->n != cols) return bad(fmt("is %lldx%lld, expected %dx%d", a->m, a->n, rows, cols));
        if (!a->p) return bad("no column pointers");
        if (malloc_usable_size(a->p) < sizeof(c_int) * (size_t)(cols + 1)) return bad("column pointers too short");
        if (a->p[0] != 0) return bad("column pointers do not start at 0");
        for (int j = 0; j < cols; j++)
            if (a->p[j + 1] < a->p[j]) return bad("column pointers decrease");
        c_int nz = a->p[cols];
        if (nz > a->nzmax) return bad("more entries than allocated");
        if (nz > 0 && (!a->i || !a->x)) return bad("no entries");
        out = Mat::Zero(rows, cols);
        for (int j = 0; j < cols; j++)
        {
            c_int last = -1;
            for (c_int k = a->p[j]; k < a->p[j + 1]; k++)
            {
                if (a->i[k] < 0 || a->i[k] >= rows) return bad("row index out of range");
                if (a->i[k] <= last) return bad("row indices of a column are not increasing");
                last = a->i[k];
                out(a->i[k], j) += a->x[k];
            }
        }
        return true;
    }
    static bool fin(const Mat &m)
    {
        for (int i = 0; i < m.size(); i++)
            if (!std::isfinite(m.data()[i])) return false;
        return true;
    }
    static int validate(const OSQPData *d, const OSQPSettings *s, QP &q)
    {
        if (!d) return OSQP_DATA_VALIDATION_ERROR;
        q.n = (int)d->n, q.m = (int)d->m;
        if (q.n <= 0 || q.m < 0 || q.n > 100000 || q.m > 100000)
        {
            q.defects.push_back("dimensions");
            return OSQP_DATA_VALIDATION_ERROR;
        }
        if (!csc_ok(d->P, q.n, q.n, "P", q, q.P) || !csc_ok(d->A, q.m, q.n, "A", q, q.A)) return OSQP_DATA_VALIDATION_ERROR;
        for (int i = 0; i < q.n; i++)
            for (int j = 0; j < i; j++)
            {
                if (q.P(i, j) != 0 && q.defects.empty()) q.defects.push_back("P is not upper triangular");
                q.P(i, j) = q.P(j, i);
            }
        if (!q.defects.empty()) return OSQP_DATA_VALIDATION_ERROR;
        if (!d->q || !d->l || !d->u)
        {
            q.defects.push_back("missing vector");
            return OSQP_DATA_VALIDATION_ERROR;
        }
        q.q = Eigen::Map<const Vec>(d->q, q.n);
        q.l = Eigen::Map<const Vec>(d->l, q.m);
        q.u = Eigen::Map<const Vec>(d->u, q.m);
        q.nonfinite = !fin(q.P) || !fin(q.A) || !fin(q.q);
        for (int i = 0; i < q.m; i++)
        {
            if (q.l(i) != q.l(i) || q.u(i) != q.u(i)) q.nonfinite = true;
            if (std::isinf(q.l(i)) && q.l(i) > 0) q.nonfinite = true;
            if (std::isinf(q.u(i)) && q.u(i) < 0) q.nonfinite = true;
        }
        for (int i = 0; i < q.m; i++)
            if (q.l(i) > q.u(i)) return OSQP_DATA_VALIDATION_ERROR; // may be what the user asked for
        if (!s) return OSQP_SETTINGS_VALIDATION_ERROR;
        if (s->scaling < 0 || (s->adaptive_rho != 0 && s->adaptive_rho != 1) || s->adaptive_rho_interval < 0 || !(s->adaptive_rho_tolerance >= 1) || !(s->adaptive_rho_fraction > 0) || (s->polish != 0 && s->polish != 1) || s->polish_refine_iter < 0 || !(s->rho > 0) || !(s->sigma > 0) || !(s->delta > 0) || s->max_iter <= 0 || !(s->eps_abs >= 0) || !(s->eps_rel >= 0) || (s->eps_abs == 0 && s->eps_rel == 0) || !(s->eps_prim_inf > 0) || !(s->eps_dual_inf > 0) || !(s->alpha > 0 && s->alpha < 2) || (s->verbose != 0 && s->verbose != 1) || (s->warm_start != 0 && s->warm_start != 1) || !(s->time_limit >= 0)) return OSQP_SETTINGS_VALIDATION_ERROR;
        return 0;
    }
    static void set_status(Ws &w, int st)
    {
        w.info.status_val = st;
        snprintf(w.info.status, sizeof w.info.status, "status %d", st);
    }
    static bool ipm(const QP &q, V &x, V &y)
    {
        // split the rows into equalities and one-sided inequalities
        std::vector<int> eq;
        std::vector<std::pair<int, int>> in;
        for (int i = 0; i < q.m; i++)
        {
            if (q.l(i) == q.u(i) || q.u(i) - q.l(i) < 1e-11)
            {
                if (q.A.row(i).cwiseAbs().maxCoeff() == 0)
                {
                    if (std::fabs(q.l(i)) > 1e-9) return false;
                    continue;
                }
                eq.push_back(i);
                continue;
            }
            if (q.A.row(i).cwiseAbs().maxCoeff() == 0)
            {
                if (q.l(i) > 0 || q.u(i) < 0) return false;
                continue;
            }
            if (q.u(i) < 1e20) in.emplace_back(i, 1);
            if (q.l(i) > -1e20) in.emplace_back(i, -1);
        }
        Mat Ae((int)eq.size(), q.n), G((int)in.size(), q.n);
        Vec be((int)eq.size()), h((int)in.size());
        for (size_t k = 0; k < eq.size(); k++) Ae.row((int)k) = q.A.row(eq[k]), be((int)k) = q.u(eq[k]);
        for (size_t k = 0; k < in.size(); k++) G.row((int)k) = in[k].second * q.A.row(in[k].first), h((int)k) = in[k].second > 0 ? q.u(in[k].first) : -q.l(in[k].first);
        Vec z, ye, li;
        bool ok = solve_qp(q.P, q.q, Ae, be, G, h, z, &ye, &li);
        x.assign(z.data(), z.data() + z.size());
        y.assign((size_t)q.m, 0);
        for (size_t k = 0; k < eq.size(); k++) y[(size_t)eq[k]] = ye((int)k);
        for (size_t k = 0; k < in.size(); k++) y[(size_t)in[k].first] += in[k].second * li((int)k);
        return ok;
    }
    // Mehrotra predictor-corrector
    bool solve_qp(const Mat &H, const Vec &g, const Mat &A, const Vec &b, const Mat &G, const Vec &h, Vec &z, Vec *yo, Vec *lo)
    {
        int n = (int)g.size(), me = (int)b.size(), mi = (int)h.size();
        z = Vec::Zero(n);
        Vec y = Vec::Zero(me), s = Vec::Ones(mi), l = Vec::Ones(mi);
        for (int i = 0; i < mi; i++) s(i) = std::max(1.0, h(i));
        auto len = [](const Vec &v, const Vec &dv)
        {
            double a = 1;
            for (int i = 0; i < v.size(); i++)
                if (dv(i) < 0) a = std::min(a, -v(i) / dv(i));
            return a;
        };
        double best = 1e300;
        bool done = false;
        for (int it = 0; it < 60 && !done; it++)
        {
            Vec rd = H * z + g;
            if (me) rd += A.transpose() * y;
            if (mi) rd += G.transpose() * l;
            Vec rp = me ? Vec(A * z - b) : Vec();
            Vec ri = mi ? Vec(G * z + s - h) : Vec();
            double mu = mi ? s.dot(l) / mi : 0;
            double err = std::max(rd.cwiseAbs().maxCoeff(), mu);
            if (me) err = std::max(err, rp.cwiseAbs().maxCoeff());
            if (mi) err = std::max(err, ri.cwiseAbs().maxCoeff());
            best = std::min(best, err);
            if (err < 1e-9)
            {
                done = true;
                break;
            }
            Mat K = Mat::Zero(n + me, n + me);
            Mat HH = H;
            if (mi) HH += G.transpose() * l.cwiseQuotient(s).asDiagonal() * G;
            HH.diagonal().array() += 1e-11;
            K.topLeftCorner(n, n) = HH;
            if (me)
            {
                K.topRightCorner(n, me) = A.transpose();
                K.bottomLeftCorner(me, n) = A;
                for (int i = 0; i < me; i++) K(n + i, n + i) = -1e-11;
            }
            Eigen::PartialPivLU<Mat> lu(K);
            auto solve = [&](const Vec &rc, Vec &dz, Vec &dy, Vec &ds, Vec &dl)
            {
                Vec rhs(n + me);
                Vec top = -rd;
                if (mi) top -= G.transpose() * ((l.cwiseProduct(ri) - rc).cwiseQuotient(s));
                rhs.head(n) = top;
                if (me) rhs.tail(me) = -rp;
                Vec sol = lu.solve(rhs);
                sol += lu.solve(rhs - K * sol);
                dz = sol.head(n);
                dy = sol.tail(me);
                if (mi)
                {
                    ds = -ri - G * dz;
                    dl = (-rc - l.cwiseProduct(ds)).cwiseQuotient(s);
                }
            };
            Vec dz, dy, ds = Vec::Zero(mi), dl = Vec::Zero(mi);
            if (mi)
            {
                solve(s.cwiseProduct(l), dz, dy, ds, dl);
                double a = std::min(len(s, ds), len(l, dl));
                double mua = (s + a * ds).dot(l + a * dl) / mi;
                double sg = std::pow(mua / mu, 3);
                Vec rc = s.cwiseProduct(l) + ds.cwiseProduct(dl) - Vec::Constant(mi, sg * mu);
                solve(rc, dz, dy, ds, dl);
                a = std::min(len(s, ds), len(l, dl));
                double al = std::min(1.0, 0.99 * a);
                z += al * dz, y += al * dy, s += al * ds, l += al * dl;
            }
            else
            {
                solve(Vec(), dz, dy, ds, dl);
                z += dz, y += dy;
            }
            if (!z.allFinite())
            {
                if (yo) *yo = y;
                if (lo) *lo = l;
                return false;
            }
        }
        if (yo) *yo = y;
        if (lo) *lo = l;
        return done || best < 1e-7;
    }
}
using namespace lin;
extern "C"
{
    void *osqp_sim_malloc(size_t n)
    {
        void *p = malloc(n);
        sim::UserScope us;
        if (p) g_blocks.insert(p);
        return p;
    }
    void *osqp_sim_calloc(size_t a, size_t b)
    {
        void *p = calloc(a, b);
        sim::UserScope us;
        if (p) g_blocks.insert(p);
        return p;
    }
    void osqp_sim_free(void *p)
    {
        if (!p) return;
        {
            sim::UserScope us;
            if (!g_blocks.erase(p))
            {
                misuse("c_free of a block which is not allocated (released twice?)");
                return;
            }
        }
        free(p);
    }
    csc *csc_spalloc(c_int m, c_int n, c_int nzmax, c_int values, c_int triplet)
    {
        // as in OSQP: a failed part releases the whole
        csc *A = (csc *)osqp_sim_calloc(1, sizeof(csc));
        if (!A) return nullptr;
        A->m = m, A->n = n;
        A->nzmax = nzmax = nzmax > 1 ? nzmax : 1;
        A->nz = triplet ? 0 : -1;
        A->p = (c_int *)osqp_sim_malloc((size_t)(triplet ? nzmax : n + 1) * sizeof(c_int));
        A->i = (c_int *)osqp_sim_malloc((size_t)nzmax * sizeof(c_int));
        A->x = values ? (c_float *)osqp_sim_malloc((size_t)nzmax * sizeof(c_float)) : nullptr;
        if (!A->p || !A->i || (values && !A->x))
        {
            csc_spfree(A);
            return nullptr;
        }
        return A;
    }
    void csc_spfree(csc *A)
    {
        if (!A) return;
        {
            sim::UserScope us;
            if (!g_blocks.count(A))
            {
                misuse("csc_spfree of a matrix which is not allocated (released twice?)");
                return;
            }
        }
        osqp_sim_free(A->p);
        osqp_sim_free(A->i);
        osqp_sim_free(A->x);
        osqp_sim_free(A);
    }
    void osqp_set_default_settings(OSQPSettings *s)
    {
        s->rho = 0.1, s->sigma = 1e-6, s->scaling = 10, s->adaptive_rho = 1, s->adaptive_rho_interval = 0, s->adaptive_rho_tolerance = 5, s->adaptive_rho_fraction = 0.4;
        s->max_iter = 4000, s->eps_abs = 1e-3, s->eps_rel = 1e-3, s->eps_prim_inf = 1e-4, s->eps_dual_inf = 1e-4, s->alpha = 1.6;
        s->linsys_solver = QDLDL_SOLVER, s->delta = 1e-6, s->polish = 0, s->polish_refine_iter = 3, s->verbose = 1, s->scaled_termination = 0, s->check_termination = 25, s->warm_start = 1, s->time_limit = 0;
    }
    c_int osqp_setup(OSQPWorkspace **workp, const OSQPData *data, const OSQPSettings *settings)
    {
        sim::yield_point();
        int ret;
        QP *qp;
        {
            sim::UserScope us;
            qp = new QP();
            ret = validate(data, settings, *qp);
            OsqpCtx *t = t_osqp;
            if (t)
            {
                t->c.setups++;
                t->c.qp = *qp;
                if (settings) t->c.set = *settings;
                if (!ret && t->s.fs && t->s.fs <= 2)
                {
                    ret = t->s.fs;
                    t->fired.push_back(sim::fmt("setup.%d", ret));
                }
                t->c.setup_ret = ret;
            }
        }
        if (ret)
        {
            sim::UserScope us;
            delete qp;
            return ret;
        }
        void *block = malloc(sizeof(OSQPWorkspace)); // in the caller's account; may fail
        sim::UserScope us;
        if (!block)
        {
            delete qp;
            if (t_osqp) t_osqp->c.setup_ret = OSQP_MEM_ALLOC_ERROR;
            return OSQP_MEM_ALLOC_ERROR;
        }
        OSQPWorkspace *w = (OSQPWorkspace *)block;
        memset(w, 0, sizeof *w);
        Ws *ws = new Ws();
        ws->block = block;
        ws->qp = *qp;
        delete qp;
        w->sim = ws;
        g_ws[w] = ws;
        g_dead.erase(w);
        *workp = w;
        if (t_osqp && t_osqp->s.fs >= 3)
        {
            ws->broken = true;
            t_osqp->fired.push_back(sim::fmt("setup.%d", t_osqp->s.fs));
            t_osqp->c.setup_ret = t_osqp->s.fs;
            return t_osqp->s.fs;
        }
        ws->set = *settings;
        ws->x.assign((size_t)ws->qp.n, 0), ws->y.assign((size_t)ws->qp.m, 0);
        ws->wx = ws->x, ws->wy = ws->y;
        ws->sol.x = ws->x.data(), ws->sol.y = ws->y.data();
        w->settings = &ws->set, w->solution = &ws->sol, w->info = &ws->info;
        set_status(*ws, OSQP_UNSOLVED);
        return 0;
    }
    static Ws *use(OSQPWorkspace *w, const char *who)
    {
        auto it = g_ws.find(w);
        if (it == g_ws.end())
        {
            misuse(std::string(who) + " on a work space which " + (g_dead.count(w) ? "was cleaned up" : "was never set up"));
            return nullptr;
        }
        if (it->second->broken)
        {
            misuse(std::string(who) + " on a work space whose set-up failed");
            return nullptr;
        }
        return it->second;
    }
    c_int osqp_cleanup(OSQPWorkspace *w)
    {
        if (!w) return 0;
        {
            sim::UserScope us;
            auto it = g_ws.find(w);
            if (it == g_ws.end())
            {
                misuse(std::string("osqp_cleanup of a work space which ") + (g_dead.count(w) ? "was cleaned up already" : "was never set up"));
                return 0;
            }
            Ws *ws = it->second;
            g_ws.erase(it);
            g_dead.insert(w);
            delete ws;
        }
        free(w);
        return 0;
    }
    static c_int warm(OSQPWorkspace *w, const c_float *x, const c_float *y, bool hx, bool hy)
    {
        sim::UserScope us;
        if (!w) return OSQP_WORKSPACE_NOT_INIT_ERROR;
        Ws *ws = use(w, "osqp_warm_start");
        if (!ws) return OSQP_WORKSPACE_NOT_INIT_ERROR;
        OsqpCtx *t = t_osqp;
        if (t) t->c.warm_calls++;
        auto fits = [&](const c_float *p, int n, const char *name)
        {
            if (!p || malloc_usable_size((void *)p) < sizeof(double) * (size_t)n)
            {
                if (t) t->c.misfit.push_back(sim::fmt("%s vector shorter than the %d entries the solver reads", name, n));
                return false;
            }
            return true;
        };
        if ((hx && !fits(x, ws->qp.n, "primal")) || (hy && !fits(y, ws->qp.m, "dual"))) return 0;
        ws->set.warm_start = 1;
        ws->given = true;
        if (hx) ws->wx.assign(x, x + ws->qp.n);
        if (hy) ws->wy.assign(y, y + ws->qp.m);
        return 0;
    }
    c_int osqp_warm_start(OSQPWorkspace *w, const c_float *x, const c_float *y) { return warm(w, x, y, true, true); }
    c_int osqp_warm_start_x(OSQPWorkspace *w, const c_float *x) { return warm(w, x, nullptr, true, false); }
    c_int osqp_warm_start_y(OSQPWorkspace *w, const c_float *y) { return warm(w, nullptr, y, false, true); }
    c_int osqp_update_warm_start(OSQPWorkspace *w, c_int v)
    {
        sim::UserScope us;
        if (!w) return OSQP_WORKSPACE_NOT_INIT_ERROR;
        Ws *ws = use(w, "osqp_update_warm_start");
        if (!ws) return OSQP_WORKSPACE_NOT_INIT_ERROR;
        ws->set.warm_start = v;
        return 0;
    }
    c_int osqp_solve(OSQPWorkspace *w)
    {
        if (!w) return OSQP_WORKSPACE_NOT_INIT_ERROR;
        sim::yield_point();
        sim::UserScope us;
        Ws *ws = use(w, "osqp_solve");
        if (!ws) return OSQP_WORKSPACE_NOT_INIT_ERROR;
        OsqpCtx *t = t_osqp;
        static OsqpCtx none;
        OsqpCtx &c = t ? *t : none;
        const QP &q = ws->qp;
        c.c.solves++;
        sim::g_clock.advance(c.s.dt);
        if (c.s.jump != 0) sim::g_clock.wall_off_ns += (int64_t)(c.s.jump * 1e9), c.fired.push_back("jump");
        if (c.s.lvl >= 0) log_level(c.s.lvl), c.fired.push_back("level");
        c.c.given = ws->given && ws->set.warm_start;
        c.c.wx = c.c.given ? ws->wx : V((size_t)q.n, 0), c.c.wy = c.c.given ? ws->wy : V((size_t)q.m, 0);
        if (c.s.fsolve)
        {
            c.fired.push_back(sim::fmt("solve.%d", c.s.fsolve));
            c.c.solve_ret = c.s.fsolve;
            c.c.status = OSQP_UNSOLVED;
            sim::yield_point();
            return c.s.fsolve;
        }
        int st = OSQP_SOLVED;
        if (q.nonfinite)
        {
            st = OSQP_MAX_ITER_REACHED;
            for (auto &v : ws->x) v = NAN;
            for (auto &v : ws->y) v = NAN;
            ws->info.obj_val = NAN;
        }
        else
        {
            if (c.s.solve == "rand")
            {
                Rng r(c.s.seed);
                for (auto &v : ws->x) v = r.uni(-3, 3);
                for (auto &v : ws->y) v = r.uni(-3, 3);
            }
            else if (!ipm(q, ws->x, ws->y))
                st = OSQP_PRIMAL_INFEASIBLE;
            if (c.s.st)
            {
                st = c.s.st;
                c.fired.push_back(sim::fmt("status.%d", st));
            }
            Vec x = Eigen::Map<Vec>(ws->x.data(), q.n);
            ws->info.obj_val = 0.5 * x.dot(q.P * x) + q.q.dot(x);
            if (c.s.nanx == 1 || c.s.nanx == 2) ws->x[c.s.seed % ws->x.size()] = c.s.nanx == 1 ? NAN : INF, c.fired.push_back(c.s.nanx == 1 ? "x.nan" : "x.inf");
            if (c.s.nanx == 3) ws->y[c.s.seed % ws->y.size()] = NAN, c.fired.push_back("y.nan");
            if (c.s.nanx == 4) ws->info.obj_val = NAN, c.fired.push_back("obj.nan");
        }
        int ret = 0;
        if (st == OSQP_SIGINT)
        {
            for (auto &v : ws->x) v = 0;
            for (auto &v : ws->y) v = 0;
            ret = 1;
        }
        if (st == OSQP_PRIMAL_INFEASIBLE || st == OSQP_PRIMAL_INFEASIBLE_INACCURATE || st == OSQP_DUAL_INFEASIBLE || st == OSQP_DUAL_INFEASIBLE_INACCURATE || st == OSQP_NON_CVX)
        {
            for (auto &v : ws->x) v = NAN;
            for (auto &v : ws->y) v = NAN;
            ws->info.obj_val = st == OSQP_NON_CVX ? NAN : (st == OSQP_DUAL_INFEASIBLE || st == OSQP_DUAL_INFEASIBLE_INACCURATE) ? -1e30
                                                                                                                              : 1e30;
        }
        set_status(*ws, st);
        ws->info.iter = 25;
        c.c.status = st;
        c.c.solve_ret = ret;
        c.c.x = ws->x, c.c.y = ws->y, c.c.obj = ws->info.obj_val;
        sim::yield_point();
        return ret;
    }
    const char *osqp_version(void) { return "0.6.3-sim"; }
}
