#include "gen.hpp"
#include <limits>
namespace nl
{
    using sim::fmt;
    V Gen::rnd(int n, double a, double b)
    {
        V v((size_t)n);
        for (auto &x : v) x = std::round(r.uni(a, b) * 1000) / 1000;
        return v;
    }
    Dims Gen::dims(const GOpt &o, bool &dyn)
    {
        dyn = r.chance(o.dyn);
        if (dyn && !o.menu_only && r.chance(o.rdims))
        {
            Dims d;
            if (r.chance(0.02)) // very long or very wide
            {
                if (r.chance(0.5)) d.nx = r.range(1, 2), d.nu = 1, d.ny = r.range(1, 2), d.ph = r.range(13, 40), d.ch = r.chance(0.5) ? r.range(1, 4) : r.range(1, d.ph);
                else d.nx = r.range(7, 12), d.nu = r.range(1, 5), d.ny = r.range(1, 12), d.ph = r.range(1, 4), d.ch = r.range(1, d.ph);
                d.ineq = r.chance(0.5) ? 0 : r.range(1, 20), d.eq = r.range(0, std::min(3, d.ch * d.nu));
                return d;
            }
            if (r.chance(0.08)) // larger than the unit tests
            {
                d.nx = r.range(1, 6), d.nu = r.range(1, 3), d.ny = r.range(1, 6), d.ph = r.range(4, 12), d.ch = r.range(1, d.ph);
                d.ineq = r.range(0, 9), d.eq = r.range(0, std::min(3, d.ch * d.nu));
                return d;
            }
            d.nx = r.range(1, 3), d.nu = r.range(1, 2), d.ny = r.range(1, 3), d.ph = r.range(1, 6), d.ch = r.range(1, d.ph);
            d.ineq = r.range(0, 5), d.eq = r.range(0, std::min(2, d.ch * d.nu));
            return d;
        }
        auto &m = static_menu();
        return m[(size_t)r.below((int)m.size())];
    }
    Op Gen::fnop(const char *n, const GOpt &o, int id)
    {
        Op p(n);
        p.set("c", id).set("s", seed());
        if (!o.convex && r.chance(o.nlp)) p.set("nl", 1);
        std::string s = n;
        if (s == "obj") p.set("we", r.chance(0.5) ? 5.0 : r.uni(1, 20));
        if ((s == "ineq" || s == "eq" || s == "model") && r.chance(0.4))
        {
            static const double tols[] = {1e-3, 1e-6, 1e-8, 0.5, 0.0078125};
            p.set("tol", tols[r.below(s == "model" ? 3 : 5)]);
        }
        return p;
    }
    Op Gen::par(const Dims &, const GOpt &o, int id)
    {
        Op p("par");
        p.set("c", id);
        p.set("maxit", r.chance(0.06) ? (r.chance(0.5) ? r.range(1, 2) : 1000) : r.chance(0.3) ? r.range(3, 30) : r.range(40, 150));
        p.set("warm", r.chance(o.warm) ? 1 : 0);
        p.set("hard", r.chance(o.soft) ? 0 : 1);
        static const double t[] = {1e-4, 1e-5, 1e-6, 1e-8, 1e-10, 1e-3, 0};
        bool any = false;
        for (const char *k : {"rf", "rx", "af", "ax"})
            if (r.chance(0.45)) p.set(k, t[r.chance(0.12) ? r.below(7) : r.below(5)]), any = true;
        if (!any && r.chance(0.85)) p.set("rx", 1e-6);
        return p;
    }
    Op Gen::bounds(const Dims &d, bool state, int id, bool valid_only, double tight)
    {
        Op p(state ? "xb" : "ub");
        p.set("c", id);
        int hz = state ? d.ph : d.ch, n = state ? d.nx : d.nu;
        int a = -1, b = -1;
        if (r.chance(0.65))
        {
            a = r.range(0, hz - 1), b = r.range(a + 1, hz);
            if (!valid_only && r.chance(0.4))
            {
                switch (r.below(7))
                {
                case 0: a = r.range(0, hz), b = a; break;
                case 1: a = r.range(0, hz), b = hz + r.range(1, 3); break;
                case 2: a = -1, b = r.range(0, hz); break;
                case 3: a = r.range(0, hz), b = -1; break;
                case 4: a = r.range(1, hz), b = r.range(0, a - 1); break;
                case 5: a = -r.range(2, 4), b = r.range(-1, hz); break;
                default: a = -2, b = -2; break;
                }
            }
            else if (r.chance(0.3))
                a = hz - 1, b = hz;
        }
        p.set("a", a).set("b", b);
        V lo, hi;
        for (int i = 0; i < n; i++)
        {
            double l, h;
            if (r.chance(tight))
                l = -r.uni(0.1, 0.6), h = r.uni(0.1, 0.6);
            else
                l = -r.uni(1, 5), h = r.uni(1, 5);
            l = std::round(l * 100) / 100, h = std::round(h * 100) / 100;
            if (r.chance(0.1)) l = -std::numeric_limits<double>::infinity();
            if (r.chance(0.1)) h = std::numeric_limits<double>::infinity();
            if (!state && r.chance(0.04)) l = h = 0.25;
            if (r.chance(state ? 0.03 : 0.12)) // zero is not inside
            {
                double m = std::round(r.uni(0.4, 3) * (r.chance(0.5) ? 100 : -100)) / 100;
                l += m, h += m;
            }
            lo.push_back(l), hi.push_back(h);
        }
        return p.set("lo", lo).set("hi", hi);
    }
    Op Gen::mbounds(const Dims &d, bool state, int id, double tight)
    {
        Op p(state ? "xbm" : "ubm");
        p.set("c", id);
        int n = state ? d.nx * d.ph : d.nu * d.ch;
        V lo, hi;
        for (int i = 0; i < n; i++)
        {
            double l = r.chance(tight) ? -r.uni(0.1, 0.6) : -r.uni(1, 4), h = r.chance(tight) ? r.uni(0.1, 0.6) : r.uni(1, 4);
            if (r.chance(state ? 0.02 : 0.08))
            {
                double m = r.uni(0.4, 3) * (r.chance(0.5) ? 1 : -1);
                l += m, h += m;
            }
            lo.push_back(std::round(l * 100) / 100), hi.push_back(std::round(h * 100) / 100);
        }
        return p.set("lo", lo).set("hi", hi);
    }
    Op Gen::scaleop(const Dims &d, bool state, int id)
    {
        Op p(state ? "sx" : "su");
        p.set("c", id);
        V v;
        static const double c[] = {0.25, 0.5, 2, 3, 5, 8, 0.1, 1, 10};
        for (int i = 0; i < (state ? d.nx : d.nu); i++) v.push_back(c[r.below(9)]);
        return p.set("v", v);
    }
    Dims Gen::config(const GOpt &o, int id)
    {
        bool dyn;
        Dims d = dims(o, dyn);
        return config_for(d, dyn, o, id);
    }
    Dims Gen::config_for(const Dims &d, bool dyn, const GOpt &o, int id)
    {
        add(Op("new").set("c", id).set("d", V{(double)d.nx, (double)d.nu, (double)d.ny, (double)d.ph, (double)d.ch, (double)d.ineq, (double)d.eq}).set("dyn", dyn ? 1 : 0));
        std::vector<Op> m;
        bool cont = r.chance(o.cont);
        if (r.chance(o.state))
        {
            Op p = fnop("model", o, id);
            if (cont) p.set("cont", 1);
            m.push_back(p);
        }
        if (cont) m.push_back(Op("ts").set("c", id).set("v", sampling_time()));
        if (r.chance(o.obj)) m.push_back(fnop("obj", o, id));
        if (r.chance(o.out)) m.push_back(fnop("out", o, id));
        if (d.ineq && r.chance(o.ineq)) m.push_back(fnop("ineq", o, id));
        if (d.eq && r.chance(o.eq)) m.push_back(fnop("eq", o, id));
        if (r.chance(0.9)) m.push_back(par(d, o, id));
        if (r.chance(o.scale)) m.push_back(scaleop(d, true, id));
        if (r.chance(o.scale)) m.push_back(scaleop(d, false, id));
        for (size_t i = m.size(); i > 1; i--) std::swap(m[i - 1], m[(size_t)r.below((int)i)]);
        // bounds keep their relative order but may land anywhere
        std::vector<Op> bo;
        if (r.chance(o.sb))
            for (int k = r.range(1, 3); k > 0; k--) bo.push_back(r.chance(0.25) ? mbounds(d, true, id, 0.1) : bounds(d, true, id, true, o.tight * 0.4));
        if (r.chance(o.ib))
            for (int k = r.range(1, 3); k > 0; k--) bo.push_back(r.chance(0.25) ? mbounds(d, false, id, o.tight) : bounds(d, false, id, true, o.tight));
        for (auto &b : bo) m.insert(m.begin() + r.below((int)m.size() + 1), b);
        for (auto &p : m) add(p);
        return d;
    }
    Op Gen::step(const Dims &d, int id, double p_stub)
    {
        Op p("step");
        p.set("c", id).set("x", rnd(d.nx, -2, 2)).set("u", rnd(d.nu, -0.8, 0.8));
        if (r.chance(0.18)) // the same measurement again
            for (size_t i = sc.ops.size(); i > 0; i--)
            {
                const Op &q = sc.ops[i - 1];
                if (q.name != "step" || q.i("c") != id) continue;
                V x = q.vec("x"), u = q.vec("u");
                auto fin = [](const V &v)
                { for (double a : v) if (!std::isfinite(a)) return false; return true; };
                if ((int)x.size() == d.nx && fin(x)) p.set("x", x);
                if ((int)u.size() == d.nu && fin(u) && r.chance(0.8)) p.set("u", u);
                break;
            }
        if (r.chance(d.ph > 12 || d.nx > 6 ? std::max(p_stub, 0.9) : p_stub))
        {
            static const char *pt[] = {"rand", "rand", "rand", "feas", "guess", "lo", "hi"};
            p.set("solver", "stub").set("pt", pt[r.below(7)]).set("ps", seed());
            if (r.chance(0.3)) p.set("nev", r.range(0, 3));
            if (r.chance(0.25)) p.set("code", r.range(1, 6));
            if (r.chance(0.06)) p.set("pm", std::pow(10, r.range(1, 5)));
        }
        if (r.chance(0.1)) // values nobody draws at random
        {
            V x = p.vec("x"), u = p.vec("u");
            switch (r.below(5))
            {
            case 0: std::fill(x.begin(), x.end(), 0.0); break;
            case 1: std::fill(u.begin(), u.end(), 0.0); break;
            case 2: std::fill(x.begin(), x.end(), (double)r.range(-2, 2)); break;
            case 3:
                for (auto &a : x) a = std::round(a);
                break;
            default: std::fill(x.begin(), x.end(), 0.0), std::fill(u.begin(), u.end(), 0.0);
            }
            p.set("x", x).set("u", u);
        }
        if (closed < 0) closed = r.chance(0.15) ? 0.8 : 0;
        if (r.chance(closed)) p.set("cl", 1);
        return p;
    }
    int Gen::len(int a, int b) { return r.chance(0.04) ? r.range(b, 3 * b) : r.range(a, b); }
    void Gen::fault(Op &st, const Dims &d, int id)
    {
        (void)id;
        static const char *acts[] = {"throw", "throwi", "throwba", "throwia", "throwc", "throwl", "nan", "inf", "ninf", "throws", "throwfs", "throwrl"};
        switch (r.below(12))
        {
        case 0:
        case 1:
        case 2:
        case 3:
        case 4:
        case 5:
        { // fault inside the search
            const char *k = "FSOIEA";
            double e = r.uni(0, 6);
            long n = 1 + (long)std::floor(std::exp(e) - 1);
            const char *a = acts[r.chance(0.15) ? r.below(12) : r.below(9)];
            st.add("f", fmt("%c:%ld%s:%s", k[r.below(6)], n, r.chance(0.2) ? "+" : "", a));
            break;
        }
        case 6:
        case 7:
        { // fault after the solver returned
            const char *k = "OIEA";
            st.add("f", fmt("p%c:%d%s:%s", k[r.below(4)], r.range(1, d.ph + 2), r.chance(0.2) ? "+" : "", acts[r.chance(0.15) ? r.below(12) : r.below(9)]));
            break;
        }
        case 8:
        {
            static const int rets[] = {-1, -3, -4, -5};
            st.set("ret", rets[r.below(4)]);
            break;
        }
        case 9:
        {
            static const char *p[] = {"nan", "inf", "ninf"};
            st.set("post", p[r.below(3)]).set("posti", r.below(1000));
            break;
        }
        case 10:
        {
            V x = st.vec("x");
            x[(size_t)r.below((int)x.size())] = r.chance(0.6) ? NAN : r.chance(0.5) ? HUGE_VAL
                                                                                     : -HUGE_VAL;
            st.set("x", x);
            break;
        }
        default:
        {
            V u = st.vec("u");
            u[(size_t)r.below((int)u.size())] = r.chance(0.6) ? NAN : HUGE_VAL;
            st.set("u", u);
        }
        }
    }
}
