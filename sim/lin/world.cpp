#include "world.hpp"
#include <algorithm>
#include <limits>
namespace lin
{
    using sim::fmt;
    using sim::Rng;
    static const double INF = std::numeric_limits<double>::infinity();
    bool close(double a, double b, double tol)
    {
        if (a == b) return true;
        if (std::isinf(a) || std::isinf(b)) return false;
        return std::fabs(a - b) <= tol * (1 + std::max(std::fabs(a), std::fabs(b)));
    }
    bool finite(const Mat &m)
    {
        for (int i = 0; i < m.size(); i++)
            if (!std::isfinite(m.data()[i])) return false;
        return true;
    }
    double maxdiff(const Mat &a, const Mat &b)
    {
        if (a.rows() != b.rows() || a.cols() != b.cols()) return INF;
        double d = 0;
        for (int i = 0; i < a.size(); i++)
        {
            double x = a.data()[i], y = b.data()[i];
            if (x == y || (x != x && y != y)) continue;
            double e = std::fabs(x - y);
            if (!(e <= d)) d = e != e ? INF : e;
        }
        return d;
    }
    std::string show(const Mat &m)
    {
        std::string s = "[";
        for (int i = 0; i < m.rows(); i++)
        {
            if (i) s += ";";
            for (int j = 0; j < m.cols(); j++) s += (j ? " " : "") + fmt("%.6g", m(i, j));
        }
        return s + "]";
    }
    std::string show(const V &v) { return show(Mat(Eigen::Map<const Mat>(v.data(), 1, (long)v.size()))); }
    bool same_res(const Res &a, const Res &b, std::string &why)
    {
        auto eq = [](double x, double y)
        { return x == y || (x != x && y != y); };
        if (a.code != b.code) why = fmt("solver code %d vs %d", a.code, b.code);
        else if (a.status != b.status) why = fmt("status %d vs %d", a.status, b.status);
        else if (a.feas != b.feas) why = fmt("is_feasible %d vs %d", a.feas, b.feas);
        else if (!eq(a.cost, b.cost)) why = fmt("cost %.17g vs %.17g", a.cost, b.cost);
        else if (maxdiff(a.cmd, b.cmd) != 0) why = "cmd " + show(a.cmd) + " vs " + show(b.cmd);
        else if (a.msg != b.msg) why = "status message \"" + a.msg.substr(0, 60) + "\" vs \"" + b.msg.substr(0, 60) + "\"";
        else return true;
        return false;
    }
    bool same_seq(const Seq &a, const Seq &b, std::string &why)
    {
        if (maxdiff(a.x, b.x) != 0) why = "state sequence " + show(a.x) + " vs " + show(b.x);
        else if (maxdiff(a.u, b.u) != 0) why = "input sequence " + show(a.u) + " vs " + show(b.u);
        else if (maxdiff(a.y, b.y) != 0) why = "output sequence " + show(a.y) + " vs " + show(b.y);
        else return true;
        return false;
    }
    bool StepRec::usable() const
    {
        if (threw || !c.solves || c.setup_ret || c.solve_ret) return false;
        if (c.status != OSQP_SOLVED && c.status != OSQP_SOLVED_INACCURATE && c.status != OSQP_MAX_ITER_REACHED && c.status != OSQP_TIME_LIMIT_REACHED) return false;
        for (double v : c.x)
            if (!std::isfinite(v)) return false;
        return std::isfinite(c.obj);
    }

    // -------------------------------------------------------------- configuration model
    void Cfg::init(const Dims &dd, bool dynamic)
    {
        d = dd, dyn = dynamic;
        A = Mat::Zero(d.nx, d.nx), B = Mat::Zero(d.nx, d.nu), C = Mat::Zero(d.ny, d.nx), Bd = Mat::Zero(d.nx, d.ndu), Dd = Mat::Zero(d.ny, d.ndu);
        dm = Mat::Zero(d.ndu, d.ph);
        yr = Mat::Zero(d.ny, d.ph), ur = dur = Mat::Zero(d.nu, d.ph);
        yw = yr, uw = duw = ur;
        xlo = Mat::Constant(d.nx, d.ph, -INF), xhi = -xlo, ylo = Mat::Constant(d.ny, d.ph, -INF), yhi = -ylo, ulo = Mat::Constant(d.nu, d.ph, -INF), uhi = -ulo;
        slo = Vec::Constant(d.ph, -INF), shi = -slo, sX = Vec::Zero(d.nx), sU = Vec::Zero(d.nu);
    }
    void Cfg::roll(const Vec &x0, const Mat &U, Mat &X, Mat &Y) const
    {
        X = Mat(d.nx, d.ph + 1), Y = Mat(d.ny, d.ph + 1);
        X.col(0) = x0;
        for (int k = 0; k < d.ph; k++) X.col(k + 1) = A * X.col(k) + B * U.col(k) + Bd * dm.col(k);
        for (int k = 0; k <= d.ph; k++) Y.col(k) = C * X.col(k) + Dd * dm.col(std::min(k, d.ph - 1));
    }
    double Cfg::J(const Vec &x0, const Vec &lastU, const Mat &U) const
    {
        Mat X, Y;
        roll(x0, U, X, Y);
        double s = 0;
        for (int k = 0; k <= d.ph; k++)
        {
            Vec e = Y.col(k) - yr.col(std::max(k - 1, 0));
            s += e.dot(yw.col(std::max(k - 1, 0)).cwiseProduct(e));
        }
        for (int k = 0; k < d.ph; k++)
        {
            Vec e = U.col(k) - ur.col(k), f = U.col(k) - (k ? Vec(U.col(k - 1)) : lastU) - dur.col(k);
            s += e.dot(uw.col(k).cwiseProduct(e)) + f.dot(duw.col(k).cwiseProduct(f));
        }
        return s;
    }
    std::vector<Cfg::Con> Cfg::cons(const Vec &x0, const Mat &U) const
    {
        Mat X, Y;
        roll(x0, U, X, Y);
        std::vector<Con> v;
        for (int k = 0; k <= d.ph; k++)
        {
            int m = std::max(k - 1, 0);
            for (int i = 0; i < d.nx; i++) v.push_back({X(i, k), xlo(i, m), xhi(i, m), "state", k, i});
            for (int i = 0; i < d.ny; i++) v.push_back({Y(i, k), ylo(i, m), yhi(i, m), "output", k, i});
            v.push_back({sX.dot(X.col(k)) + sU.dot(U.col(std::min(k, d.ph - 1))), slo(m), shi(m), "scalar constraint", k, 0});
        }
        for (int k = 0; k < d.ph; k++)
            for (int i = 0; i < d.nu; i++) v.push_back({U(i, k), ulo(i, k), uhi(i, k), "input", k, i});
        return v;
    }
    Vec Cfg::Z(const Vec &x0, const Vec &lastU, const Mat &U) const
    {
        Mat X, Y;
        roll(x0, U, X, Y);
        Vec z(d.n());
        int b = d.nx + d.nu;
        for (int k = 0; k <= d.ph; k++) z.segment(k * b, d.nx) = X.col(k), z.segment(k * b + d.nx, d.nu) = k ? Vec(U.col(k - 1)) : lastU;
        for (int k = 0; k < d.ph; k++) z.segment((d.ph + 1) * b + k * d.nu, d.nu) = U.col(k) - (k ? Vec(U.col(k - 1)) : lastU);
        return z;
    }

    // -------------------------------------------------------------- logger sink
    int LogSink::overflow(int ch)
    {
        char c = (char)ch;
        return xsputn(&c, 1) == 1 ? ch : -1;
    }
    std::streamsize LogSink::xsputn(const char *s, std::streamsize n)
    {
        sim::UserScope us;
        writes++;
        if (mode == 1) return 0;
        if (mode == 3) sim::yield_point();
        if (mode == 4) throw std::runtime_error("stream failure");
        if (mode == 2 && (long)text.size() + n > cap)
        {
            long k = std::max(0l, cap - (long)text.size());
            text.append(s, (size_t)k);
            return k;
        }
        text.append(s, (size_t)n);
        return n;
    }
    struct NullBuf : std::streambuf
    {
        int overflow(int c) override { return c; }
        std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
    };
    static std::ostream &null_stream()
    {
        static NullBuf b;
        static std::ostream o(&b);
        return o;
    }

    // -------------------------------------------------------------- world
    World::World(Report &r) : rep(r)
    {
        log_reset();
        log_stream(&null_stream());
        log_level(3);
        sim::g_clock.reset();
        sim::g_clock.active = true;
    }
    World::~World()
    {
        destroy();
        log_reset();
        log_level(3);
        log_stream(&null_stream());
        sim::g_clock.active = false;
    }
    void World::collect()
    {
        for (auto &s : osqp_misuse()) misuse.push_back(s);
        osqp_misuse().clear();
    }
    void World::destroy()
    {
        for (auto &p : ctl)
            if (p.second) p.second->c.reset();
        for (auto &p : mates) p.second.m.reset();
        collect();
    }
    CtlState *World::get(int id)
    {
        auto it = ctl.find(id);
        if (it == ctl.end() || !it->second->c) return nullptr;
        return it->second.get();
    }
    void World::log(const std::string &s) { rep.log(s); }
    std::vector<const StepRec *> World::all_steps() const
    {
        std::vector<const StepRec *> v;
        for (auto &p : ctl)
            for (auto &s : p.second->steps) v.push_back(&s);
        std::stable_sort(v.begin(), v.end(), [](auto a, auto b)
                         { return a->op < b->op; });
        return v;
    }
    std::vector<const StepRec *> World::steps_of(int id) const
    {
        std::vector<const StepRec *> v;
        auto it = ctl.find(id);
        if (it != ctl.end())
            for (auto &s : it->second->steps) v.push_back(&s);
        return v;
    }
    void World::run(const std::vector<Op> &ops)
    {
        for (size_t i = 0; i < ops.size(); i++)
            if (!skip.count(i)) exec(ops[i], i);
    }
    static bool getv(const Op &op, const char *k, int n, Vec &o)
    {
        V v = op.vec(k);
        if ((int)v.size() != n) return false;
        o = Eigen::Map<const Vec>(v.data(), n);
        return true;
    }
    static bool getm(const Op &op, const char *k, int r, int c, Mat &o)
    {
        V v = op.vec(k);
        if ((int)v.size() != r * c) return false;
        o = Eigen::Map<const Mat>(v.data(), r, c);
        return true;
    }
    static Mat rmat(Rng &r, int a, int b, double s, double zeros, double tiny)
    {
        Mat m(a, b);
        for (int i = 0; i < m.size(); i++)
        {
            m.data()[i] = r.chance(zeros) ? 0 : std::round(r.uni(-s, s) * 100) / 100;
            if (tiny > 0 && r.chance(0.4)) m.data()[i] *= tiny;
        }
        return m;
    }
    // a configuration call during which an allocation fails: it says so - and works when it is made again - or it is done
    void World::exec_failing(const Op &op, size_t idx)
    {
        Op plain = op;
        plain.erase("oom");
        int id = (int)op.i("c", 0);
        auto it = ctl.find(id);
        CtlState *cs = op.name != "new" && it != ctl.end() ? it->second.get() : nullptr;
        size_t nr = cs ? cs->rets.size() : 0;
        long before = sim::g_alloc.failed, live = sim::g_alloc.live;
        bool threw = false, bad = true;
        std::string what;
        sim::g_alloc.fail_at = op.i("oom");
        try
        {
            exec(plain, idx);
        }
        catch (const std::bad_alloc &)
        {
            threw = true;
        }
        catch (const std::exception &ex)
        {
            threw = true, bad = false, what = ex.what();
        }
        catch (...)
        {
            threw = true, bad = false, what = "non-standard exception";
        }
        sim::g_alloc.fail_at = -1;
        if (sim::g_alloc.failed == before)
        {
            if (threw) rep.v("escape", fmt("op %zu: %s threw without an injected failure: ", idx, op.name.c_str()) + what);
            return;
        }
        rep.c("fault.oom-" + op.name);
        if (threw && !bad) rep.v("escape", fmt("op %zu: an allocation failed in %s, which threw something other than std::bad_alloc: ", idx, op.name.c_str()) + what);
        if (op.name == "new" && threw && sim::g_alloc.live != live) rep.v("leak", fmt("op %zu: the controller which could not be constructed left %ld blocks allocated", idx, sim::g_alloc.live - live));
        bool again = threw;
        if (cs)
        {
            for (size_t k = nr; k < cs->rets.size(); k++)
                if (cs->rets[k].ret != cs->rets[k].expected) again = true;
            if (again) cs->rets.resize(nr);
        }
        log(fmt("oom in %s: %s", op.name.c_str(), again ? "refused" : "absorbed"));
        if (!again) return;
        refused++;
        exec(plain, idx);
    }
    void World::exec(const Op &op, size_t idx)
    {
        const std::string &n = op.name;
        if (n != "step" && op.has("oom")) return exec_failing(op, idx);
        int id = (int)op.i("c", 0);
        if (n == "new")
        {
            V dv = op.vec("d");
            if (dv.size() != 6) return;
            Dims d{(int)dv[0], (int)dv[1], (int)dv[2], (int)dv[3], (int)dv[4], (int)dv[5]};
            bool dyn = force_dyn >= 0 ? force_dyn != 0 : op.i("dyn", 0) != 0;
            if (paint) sim::paint_stack(paint);
            std::unique_ptr<Ctl> c;
            if (!dyn) c = make_static(d);
            if (!c) c = make_dynamic(d);
            auto cs = std::make_unique<CtlState>();
            cs->w = this, cs->id = id, cs->c = std::move(c);
            cs->cfg.init(d, dyn);
            ctl[id] = std::move(cs);
            collect();
            return;
        }
        if (n == "nlnew")
        {
            MateState ms;
            ms.kind = (int)op.i("k", 0);
            ms.m = make_mate(ms.kind);
            ms.m->configure(op.u("s"));
            mates[id] = std::move(ms);
            return;
        }
        if (n == "nlub" || n == "nlstep")
        {
            auto it = mates.find(id);
            if (it == mates.end() || !it->second.m) return;
            if (n == "nlub")
            {
                it->second.m->bounds(op.d("v"), (int)op.i("a", -1), (int)op.i("b", -1));
                return;
            }
            V x = op.vec("x"), u = op.vec("u");
            if ((int)x.size() != mate_nx(it->second.kind) || (int)u.size() != mate_nu(it->second.kind)) return;
            MateStep m = it->second.m->step(x, u, op.i("fail", -1));
            m.op = idx;
            rep.shp(sim::mix((uint64_t)m.r.status, (uint64_t)m.calls));
            if (count && op.has("fail") && m.r.status == (int)ERROR_) rep.c("fault.non-linear-callback");
            log(fmt("nlstep %d: status %d cost %.17g calls %ld", id, m.r.status, m.r.cost, m.calls));
            it->second.steps.push_back(std::move(m));
            return;
        }
        if (n == "jump")
        {
            sim::g_clock.wall_off_ns += (int64_t)(op.d("s") * 1e9);
            rep.c("fault.wall-jump");
            return;
        }
        if (n == "adv")
        {
            sim::g_clock.advance((int64_t)(op.d("s") * 1e9));
            return;
        }
        if (n == "say")
        {
            if (!quiet_log) log_say((int)op.i("type"), op.str("v"));
            return;
        }
        if (n == "stream")
        {
            if (quiet_log) return;
            sink = std::make_shared<LogSink>();
            sink->mode = (int)op.i("mode", 0);
            sink->cap = op.i("cap", -1);
            log_stream(sink.get());
            rep.c(fmt("fault.stream-mode%d", sink->mode));
            return;
        }
        if (n == "lreset")
        {
            if (!quiet_log) log_reset();
            return;
        }
        if (n == "glevel")
        {
            if (!quiet_log) log_level((int)op.i("v"));
            return;
        }
        if (n == "gprefix")
        {
            if (!quiet_log) log_prefix(op.str("v"));
            return;
        }
        CtlState *cs = get(id);
        if (!cs) return;
        Cfg &g = cs->cfg;
        const Dims &d = g.d;
        auto ret = [&](bool got, bool expected)
        {
            cs->rets.push_back({id, idx, n, got, expected});
            log(fmt("ret %s %d", n.c_str(), got));
            rep.shp(sim::mix(std::hash<std::string>()(n), got));
        };
        int a = (int)op.i("a", -1), b = (int)op.i("b", -1);
        bool all = a == -1 && b == -1;
        auto okp = [&](int hz)
        { return all || (0 <= a && a < b && b <= hz); };
        auto span = [&](int hz, int &s, int &e)
        { s = all ? 0 : a, e = all ? hz : b; };
        int s, e;
        Vec v1, v2, v3;
        Mat m1, m2, m3;
        if (n == "del")
        {
            cs->c.reset();
            collect();
        }
        else if (n == "model")
        {
            // every matrix has its own seed so that one can change without the others
            double sc = op.d("sc", 0.9), z = op.d("z", 0), ty = op.d("ty", 0);
            Rng ra(op.u("s")), rb(op.u("sb", op.u("s") + 1)), rc(op.u("sc2", op.u("s") + 2));
            Mat A = rmat(ra, d.nx, d.nx, sc, z, ty), B = rmat(rb, d.nx, d.nu, 1, z, ty), C = rmat(rc, d.ny, d.nx, 1, z, ty);
            ret(cs->c->model(A, B, C), true);
            g.A = A, g.B = B, g.C = C, g.has_model = true;
        }
        else if (n == "dist")
        {
            double z = op.d("z", 0), ty = op.d("ty", 0);
            Rng rb(op.u("s")), rd(op.u("sd", op.u("s") + 1));
            Mat Bd = rmat(rb, d.nx, d.ndu, 1, z, ty), Dd = rmat(rd, d.ny, d.ndu, 1, z, ty);
            ret(cs->c->dist(Bd, Dd), true);
            g.Bd = Bd, g.Dd = Dd;
        }
        else if (n == "exo")
        {
            if (!getv(op, "v", d.ndu, v1)) return;
            ret(cs->c->exo(v1, a, b), okp(d.ph));
            if (!okp(d.ph)) return;
            span(d.ph, s, e);
            for (int k = s; k < e; k++) g.dm.col(k) = v1;
        }
        else if (n == "exom")
        {
            if (!getm(op, "v", d.ndu, d.ph, m1)) return;
            ret(cs->c->exom(m1), true);
            g.dm = m1;
        }
        else if (n == "ref" || n == "w")
        {
            if (!getv(op, "y", d.ny, v1) || !getv(op, "u", d.nu, v2) || !getv(op, "du", d.nu, v3)) return;
            bool R = n == "ref";
            ret(R ? cs->c->ref(v1, v2, v3, a, b) : cs->c->w(v1, v2, v3, a, b), okp(d.ph));
            if (!okp(d.ph)) return;
            span(d.ph, s, e);
            for (int k = s; k < e; k++) (R ? g.yr : g.yw).col(k) = v1, (R ? g.ur : g.uw).col(k) = v2, (R ? g.dur : g.duw).col(k) = v3;
        }
        else if (n == "refm" || n == "wm")
        {
            if (!getm(op, "y", d.ny, d.ph, m1) || !getm(op, "u", d.nu, d.ph, m2) || !getm(op, "du", d.nu, d.ph, m3)) return;
            bool R = n == "refm";
            ret(R ? cs->c->refm(m1, m2, m3) : cs->c->wm(m1, m2, m3), true);
            (R ? g.yr : g.yw) = m1, (R ? g.ur : g.uw) = m2, (R ? g.dur : g.duw) = m3;
        }
        else if (n == "xb" || n == "yb" || n == "ub")
        {
            int rows = n == "xb" ? d.nx : n == "yb" ? d.ny
                                                    : d.nu,
                hz = n == "ub" ? d.ch : d.ph;
            if (!getv(op, "lo", rows, v1) || !getv(op, "hi", rows, v2)) return;
            bool r = n == "xb" ? cs->c->xb(v1, v2, a, b) : n == "yb" ? cs->c->yb(v1, v2, a, b)
                                                                     : cs->c->ub(v1, v2, a, b);
            ret(r, okp(hz));
            if (!okp(hz)) return;
            span(hz, s, e);
            if (n == "ub" && e == d.ch) e = d.ph; // the last one is held to the end
            Mat &L = n == "xb" ? g.xlo : n == "yb" ? g.ylo
                                                   : g.ulo,
                &H = n == "xb" ? g.xhi : n == "yb" ? g.yhi
                                                   : g.uhi;
            for (int k = s; k < e; k++) L.col(k) = v1, H.col(k) = v2;
        }
        else if (n == "xbm" || n == "ybm" || n == "ubm")
        {
            int rows = n == "xbm" ? d.nx : n == "ybm" ? d.ny
                                                      : d.nu,
                hz = n == "ubm" ? d.ch : d.ph;
            if (!getm(op, "lo", rows, hz, m1) || !getm(op, "hi", rows, hz, m2)) return;
            ret(n == "xbm" ? cs->c->xbm(m1, m2) : n == "ybm" ? cs->c->ybm(m1, m2)
                                                             : cs->c->ubm(m1, m2),
                true);
            Mat &L = n == "xbm" ? g.xlo : n == "ybm" ? g.ylo
                                                     : g.ulo,
                &H = n == "xbm" ? g.xhi : n == "ybm" ? g.yhi
                                                     : g.uhi;
            for (int k = 0; k < d.ph; k++) L.col(k) = m1.col(std::min(k, hz - 1)), H.col(k) = m2.col(std::min(k, hz - 1));
        }
        else if (n == "sc" || n == "sci")
        {
            if (!getv(op, "x", d.nx, v1) || !getv(op, "u", d.nu, v2)) return;
            double lo = op.d("lo"), hi = op.d("hi");
            bool ok;
            if (n == "sci")
            {
                s = (int)op.i("i"), e = s + 1;
                ok = s >= 0 && s < d.ph;
                ret(cs->c->sci((unsigned)op.i("i"), lo, hi, v1, v2), ok);
            }
            else
            {
                ok = okp(d.ph);
                ret(cs->c->sc(lo, hi, v1, v2, a, b), ok);
                span(d.ph, s, e);
            }
            if (!ok) return;
            for (int k = s; k < e; k++) g.slo(k) = lo, g.shi(k) = hi;
            g.sX = v1, g.sU = v2;
        }
        else if (n == "cons")
        {
            Vec xl, ul, yl, xh, uh, yh;
            if (!getv(op, "xl", d.nx, xl) || !getv(op, "ul", d.nu, ul) || !getv(op, "yl", d.ny, yl) || !getv(op, "xh", d.nx, xh) || !getv(op, "uh", d.nu, uh) || !getv(op, "yh", d.ny, yh)) return;
            long i = op.i("i");
            bool ok = i >= 0 && i < d.ph;
            ret(cs->c->cons((unsigned)i, xl, ul, yl, xh, uh, yh), ok);
            if (!ok) return;
            g.xlo.col(i) = xl, g.xhi.col(i) = xh, g.ylo.col(i) = yl, g.yhi.col(i) = yh;
            for (int k = (int)i; k < (i == d.ch - 1 ? d.ph : i + 1); k++) g.ulo.col(k) = ul, g.uhi.col(k) = uh;
        }
        else if (n == "par")
        {
            Par p;
            p.maxit = (int)op.i("maxit", 100), p.tl = op.d("tl", 0), p.warm = op.i("warm", 0) != 0;
            p.alpha = op.d("alpha", 1.6), p.rho = op.d("rho", 1e-6), p.er = op.d("er", 1e-4), p.ea = op.d("ea", 1e-4), p.ep = op.d("ep", 1e-3), p.ed = op.d("ed", 1e-3);
            p.verbose = op.i("verbose", 0) != 0, p.ar = op.i("ar", 1) != 0, p.polish = op.i("polish", 1) != 0;
            cs->c->par(p);
            g.par = p;
        }
        else if (n == "ws")
            cs->c->warm(op.vec("x"), op.vec("y"));
        else if (n == "nosup")
            ret(cs->c->unsupported() == 3, true);
        else if (n == "slice")
        {
            ret(cs->c->slice_p(a, b), 0 <= a && a < b && b <= d.ph);
            ret(cs->c->slice_c(a, b), 0 <= a && a < b && b <= d.ch);
            ret(cs->c->slice_unset(a, b), all);
        }
        else if (n == "reset")
            cs->c->reset_stats();
        else if (n == "level")
        {
            if (!quiet_log) ret(cs->c->level((int)op.i("v")), true);
        }
        else if (n == "prefix")
        {
            if (!quiet_log) ret(cs->c->prefix(op.str("v")), true);
        }
        else if (n == "step")
        {
            Vec x, u;
            if (!getv(op, "x", d.nx, x) || !getv(op, "u", d.nu, u)) return;
            cs->steps.emplace_back();
            StepRec &r = cs->steps.back();
            r.ctl = id, r.op = idx, r.x = x, r.u = u, r.cfg = g;
            OsqpCtx ctx;
            ctx.s.fs = (int)op.i("fs"), ctx.s.fsolve = (int)op.i("fsolve"), ctx.s.st = (int)op.i("st"), ctx.s.solve = op.str("solve", "ipm"), ctx.s.seed = op.u("ps", 1), ctx.s.nanx = (int)op.i("nanx"), ctx.s.dt = op.i("dt", 1000), ctx.s.jump = op.d("jump", 0), ctx.s.lvl = quiet_log ? -1 : (int)op.i("lvl", -1);
            if (paint) sim::paint_stack(paint);
            OsqpCtx *saved = t_osqp;
            t_osqp = &ctx;
            sim::yield_point();
            int64_t t0 = sim::g_clock.steady_ns;
            long before = sim::g_alloc.failed;
            if (op.has("oom")) sim::g_alloc.fail_at = op.i("oom");
            try
            {
                r.r = cs->c->step(r.x, r.u);
            }
            catch (const std::bad_alloc &)
            {
                r.threw = r.is_badalloc = true;
                r.threw_what = "std::bad_alloc";
            }
            catch (const std::exception &ex)
            {
                r.threw = true;
                r.threw_what = ex.what();
            }
            catch (...)
            {
                r.threw = true;
                r.threw_what = "non-standard exception";
            }
            sim::g_alloc.fail_at = -1;
            r.elapsed = (sim::g_clock.steady_ns - t0) * 1e-9;
            t_osqp = saved;
            r.fired = ctx.fired;
            if (sim::g_alloc.failed > before) r.fired.push_back("oom");
            if (!finite(r.x) || !finite(r.u)) r.fired.push_back("input.nonfinite");
            r.c = ctx.c;
            r.last = cs->c->last();
            r.s = cs->c->seq();
            r.st = cs->c->stats();
            r.px = cs->c->warm_x(), r.py = cs->c->warm_y();
            collect();
            sim::yield_point();
            log(fmt("step c=%d setup=%d solve=%d st=%d status=%d code=%d feas=%d cost=%.17g cmd=%s %s", id, r.c.setup_ret, r.c.solve_ret, r.c.status, r.r.status, r.r.code, r.r.feas, r.r.cost, show(r.r.cmd).c_str(), r.threw ? r.threw_what.c_str() : ""));
            rep.raw(r.s.x.data(), sizeof(double) * (size_t)r.s.x.size());
            rep.raw(r.s.u.data(), sizeof(double) * (size_t)r.s.u.size());
            rep.shp(sim::mix((uint64_t)(r.r.status * 64 + r.c.status + 20), (uint64_t)r.r.feas + (r.fired.empty() ? 0 : std::hash<std::string>()(r.fired[0]))));
            if (count)
            {
                rep.c("steps");
                static const char *SN[] = {"SUCCESS", "MAX_ITERATION", "INFEASIBLE", "ERROR", "UNKNOWN"};
                if (!r.threw && r.r.status >= 0 && r.r.status < 5) rep.c(std::string("status.") + SN[r.r.status]);
                std::set<std::string> fs(r.fired.begin(), r.fired.end());
                for (auto &f : fs) rep.c("fault." + f);
            }
        }
    }

    std::vector<Op> config_ops(const Cfg &g, int id, uint64_t order_seed)
    {
        // model and disturbance matrices are named by their seeds: the caller adds those operations
        std::vector<Op> v, m;
        const Dims &d = g.d;
        auto flat = [](const Mat &a)
        { return V(a.data(), a.data() + a.size()); };
        v.push_back(Op("new").set("c", id).set("d", V{(double)d.nx, (double)d.nu, (double)d.ndu, (double)d.ny, (double)d.ph, (double)d.ch}).set("dyn", g.dyn ? 1 : 0));
        auto o = [&](const char *n)
        { return Op(n).set("c", id); };
        m.push_back(o("exom").set("v", flat(g.dm)));
        m.push_back(o("refm").set("y", flat(g.yr)).set("u", flat(g.ur)).set("du", flat(g.dur)));
        m.push_back(o("wm").set("y", flat(g.yw)).set("u", flat(g.uw)).set("du", flat(g.duw)));
        m.push_back(o("xbm").set("lo", flat(g.xlo)).set("hi", flat(g.xhi)));
        m.push_back(o("ybm").set("lo", flat(g.ylo)).set("hi", flat(g.yhi)));
        m.push_back(o("ubm").set("lo", flat(g.ulo.leftCols(d.ch))).set("hi", flat(g.uhi.leftCols(d.ch))));
        const Par &p = g.par;
        m.push_back(o("par").set("maxit", p.maxit).set("tl", p.tl).set("warm", p.warm ? 1 : 0).set("alpha", p.alpha).set("rho", p.rho).set("er", p.er).set("ea", p.ea).set("ep", p.ep).set("ed", p.ed).set("verbose", p.verbose ? 1 : 0).set("ar", p.ar ? 1 : 0).set("polish", p.polish ? 1 : 0));
        Rng r(order_seed);
        for (size_t i = m.size(); i > 1; i--) std::swap(m[i - 1], m[(size_t)r.below((int)i)]);
        v.insert(v.end(), m.begin(), m.end());
        for (int k = 0; k < d.ph; k++) v.push_back(o("sci").set("i", k).set("lo", g.slo(k)).set("hi", g.shi(k)).set("x", flat(g.sX)).set("u", flat(g.sU)));
        // bounds given step by step beyond the control horizon
        for (int k = d.ch; k < d.ph; k++)
            if (maxdiff(g.ulo.col(k), g.ulo.col(d.ch - 1)) != 0 || maxdiff(g.uhi.col(k), g.uhi.col(d.ch - 1)) != 0)
                v.push_back(o("cons").set("i", k).set("xl", flat(g.xlo.col(k))).set("ul", flat(g.ulo.col(k))).set("yl", flat(g.ylo.col(k))).set("xh", flat(g.xhi.col(k))).set("uh", flat(g.uhi.col(k))).set("yh", flat(g.yhi.col(k))));
        return v;
    }
}
