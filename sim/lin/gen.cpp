#include "world.hpp"
#include <limits>
namespace lin
{
    using sim::fmt;
    static const double INF = std::numeric_limits<double>::infinity();
    static double r2(double v) { return std::round(v * 100) / 100; }
    V Gen::rnd(int n, double a, double b)
    {
        V v((size_t)n);
        const double pz = r.chance(0.15) ? 0.4 : 0; // zeros change the pattern of the sparse matrices
        for (auto &x : v) x = a <= 0 && r.chance(pz) ? 0 : r2(r.uni(a, b));
        return v;
    }
    Dims Gen::dims(double pdyn, bool menu_only, bool &dyn)
    {
        dyn = r.chance(pdyn);
        if (dyn && !menu_only && r.chance(0.6))
        {
            Dims d;
            if (r.chance(0.02)) // very long or very wide
            {
                if (r.chance(0.5)) d.nx = r.range(1, 2), d.nu = 1, d.ndu = r.range(0, 1), d.ny = r.range(1, 2), d.ph = r.range(15, 40), d.ch = r.chance(0.5) ? r.range(1, 4) : r.range(1, d.ph);
                else d.nx = r.range(7, 12), d.nu = r.range(1, 5), d.ndu = r.range(0, 4), d.ny = r.range(1, 12), d.ph = r.range(1, 4), d.ch = r.range(1, d.ph);
                return d;
            }
            if (r.chance(0.08)) // larger than the unit tests
            {
                d.nx = r.range(1, 6), d.nu = r.range(1, 3), d.ndu = r.range(0, 3), d.ny = r.range(1, 6), d.ph = r.range(4, 14), d.ch = r.range(1, d.ph);
                return d;
            }
            d.nx = r.range(1, 3), d.nu = r.range(1, 2), d.ndu = r.range(0, 2), d.ny = r.range(1, 3), d.ph = r.range(1, 6), d.ch = r.range(1, d.ph);
            return d;
        }
        auto &m = static_menu();
        return m[(size_t)r.below((int)m.size())];
    }
    int Gen::len(int a, int b) { return r.chance(0.04) ? r.range(b, 3 * b) : r.range(a, b); }
    void Gen::slice(Op &p, int hz, bool valid_only)
    {
        int a = -1, b = -1;
        if (r.chance(0.7))
        {
            a = r.range(0, hz - 1), b = r.range(a + 1, hz);
            if (!valid_only && r.chance(0.4))
            {
                switch (r.below(7))
                {
                case 0: a = r.range(0, hz), b = a; break;
                case 1: a = r.range(0, hz), b = hz + r.range(1, 3); break;
                case 2: a = -1, b = r.range(0, hz); break;
                case 3: a = r.range(0, hz), b = -1; break;
                case 4: a = r.range(1, hz), b = r.range(0, a - 1); break;
                case 5: a = -r.range(2, 4), b = r.range(-1, hz); break;
                default: a = -2, b = -2; break;
                }
            }
            else if (r.chance(0.3))
                a = hz - 1, b = hz;
        }
        p.set("a", a).set("b", b);
    }
    static void box(sim::Rng &r, int n, double scale, V &lo, V &hi)
    {
        lo.clear(), hi.clear();
        for (int i = 0; i < n; i++)
        {
            double l = r2(-r.uni(0.3, 1.5) * scale), h = r2(r.uni(0.3, 1.5) * scale);
            if (r.chance(0.15)) l = -INF;
            if (r.chance(0.15)) h = INF;
            if (r.chance(0.05)) // zero is not inside
            {
                double m = r2(r.uni(0.3, 1.5) * scale * (r.chance(0.5) ? 0.5 : -0.5));
                l += m, h += m;
            }
            if (r.chance(0.03) && std::isfinite(l)) h = l;
            lo.push_back(l), hi.push_back(h);
        }
    }
    Op Gen::named(const std::string &n, const Dims &d, int id, bool valid_only)
    {
        Op p(n);
        p.set("c", id);
        V lo, hi;
        if (n == "model") p.set("s", seed()).set("sb", seed()).set("sc2", seed()).set("sc", r.chance(0.8) ? 0.7 : 1.1).set("z", r.chance(0.7) ? 0 : r.chance(0.8) ? 0.4 : 1);
        else if (n == "dist") p.set("s", seed()).set("sd", seed()).set("z", r.chance(0.7) ? 0 : r.chance(0.8) ? 0.4 : 1);
        else if (n == "exo") slice(p, d.ph, valid_only), p.set("v", rnd(d.ndu, -0.5, 0.5));
        else if (n == "exom") p.set("v", rnd(d.ndu * d.ph, -0.5, 0.5));
        else if (n == "ref") slice(p, d.ph, valid_only), p.set("y", rnd(d.ny, -1, 1)).set("u", rnd(d.nu, -1, 1)).set("du", rnd(d.nu, -0.5, 0.5));
        else if (n == "refm") p.set("y", rnd(d.ny * d.ph, -1, 1)).set("u", rnd(d.nu * d.ph, -1, 1)).set("du", rnd(d.nu * d.ph, -0.5, 0.5));
        else if (n == "w") slice(p, d.ph, valid_only), p.set("y", rnd(d.ny, 0, 5)).set("u", rnd(d.nu, 0.01, 2)).set("du", rnd(d.nu, 0.01, 2));
        else if (n == "wm") p.set("y", rnd(d.ny * d.ph, 0, 5)).set("u", rnd(d.nu * d.ph, 0.01, 2)).set("du", rnd(d.nu * d.ph, 0.01, 2));
        else if (n == "xb" || n == "yb" || n == "ub")
        {
            slice(p, n == "ub" ? d.ch : d.ph, valid_only);
            box(r, n == "xb" ? d.nx : n == "yb" ? d.ny
                                                : d.nu,
                n == "ub" ? 1.5 : 6, lo, hi);
            p.set("lo", lo).set("hi", hi);
        }
        else if (n == "xbm" || n == "ybm" || n == "ubm")
        {
            box(r, n == "xbm" ? d.nx * d.ph : n == "ybm" ? d.ny * d.ph
                                                         : d.nu * d.ch,
                n == "ubm" ? 1.5 : 6, lo, hi);
            p.set("lo", lo).set("hi", hi);
        }
        else if (n == "sc" || n == "sci")
        {
            if (n == "sc") slice(p, d.ph, valid_only);
            else p.set("i", valid_only || r.chance(0.85) ? r.below(d.ph) : d.ph + r.below(3));
            p.set("lo", r.chance(0.2) ? -INF : r2(-r.uni(1, 8))).set("hi", r.chance(0.2) ? INF : r2(r.uni(1, 8))).set("x", rnd(d.nx, -1, 1)).set("u", rnd(d.nu, -1, 1));
        }
        else if (n == "cons")
        {
            p.set("i", valid_only || r.chance(0.85) ? r.below(d.ph) : d.ph + r.below(3));
            box(r, d.nx, 6, lo, hi), p.set("xl", lo).set("xh", hi);
            box(r, d.nu, 1.5, lo, hi), p.set("ul", lo).set("uh", hi);
            box(r, d.ny, 6, lo, hi), p.set("yl", lo).set("yh", hi);
        }
        // small numbers: entries of a model in mixed units, small references and disturbances
        static const double small[] = {1e-2, 1e-3, 1e-4, 1e-5};
        if ((n == "model" || n == "dist") && r.chance(0.12)) p.set("ty", small[r.below(4)]);
        if ((n == "exo" || n == "exom" || n == "ref" || n == "refm") && r.chance(0.1))
        {
            const double f = small[r.below(4)];
            for (const char *k : {"v", "y", "u", "du"})
                if (p.has(k))
                {
                    V v = p.vec(k);
                    for (auto &a : v)
                        if (r.chance(0.6)) a *= f;
                    p.set(k, v);
                }
        }
        return p;
    }
    Op Gen::update(const Dims &d, int id, bool valid_only)
    {
        static const char *n[] = {"model", "dist", "exo", "exo", "exom", "ref", "ref", "refm", "w", "w", "wm", "xb", "xb", "yb", "yb", "ub", "ub", "ub", "xbm", "ybm", "ubm", "sc", "sc", "sci", "cons", "cons"};
        return named(n[r.below((int)(sizeof n / sizeof *n))], d, id, valid_only);
    }
    Op Gen::par(int id)
    {
        Op p("par");
        p.set("c", id).set("maxit", r.range(10, 5000)).set("warm", r.chance(0.6) ? 1 : 0);
        if (r.chance(0.4)) p.set("tl", r2(r.uni(0, 0.5)));
        if (r.chance(0.4)) p.set("alpha", r2(r.uni(0.5, 1.9)));
        static const double t[] = {1e-3, 1e-4, 1e-5, 1e-6};
        if (r.chance(0.4)) p.set("rho", t[r.below(4)]);
        for (const char *k : {"er", "ea", "ep", "ed"})
            if (r.chance(0.4)) p.set(k, t[r.below(4)]);
        if (r.chance(0.2)) p.set("verbose", 1);
        if (r.chance(0.3)) p.set("ar", 0);
        if (r.chance(0.3)) p.set("polish", 0);
        return p;
    }
    void Gen::config_for(const Dims &d, bool dyn, int id)
    {
        add(Op("new").set("c", id).set("d", V{(double)d.nx, (double)d.nu, (double)d.ndu, (double)d.ny, (double)d.ph, (double)d.ch}).set("dyn", dyn ? 1 : 0));
        std::vector<Op> m;
        m.push_back(named("model", d, id, true));
        if (r.chance(0.7)) m.push_back(named("dist", d, id, true));
        if (r.chance(0.9)) m.push_back(named(r.chance(0.5) ? "w" : "wm", d, id, true).set("a", -1).set("b", -1));
        if (r.chance(0.7)) m.push_back(named(r.chance(0.5) ? "ref" : "refm", d, id, true));
        if (r.chance(0.6)) m.push_back(named(r.chance(0.5) ? "exo" : "exom", d, id, true));
        if (r.chance(0.85)) m.push_back(par(id));
        for (int k = r.below(5); k > 0; k--) m.push_back(update(d, id, true));
        for (size_t i = m.size(); i > 1; i--) std::swap(m[i - 1], m[(size_t)r.below((int)i)]);
        for (auto &p : m) add(p);
    }
    Dims Gen::config(double pdyn, bool menu_only, int id)
    {
        bool dyn;
        Dims d = dims(pdyn, menu_only, dyn);
        config_for(d, dyn, id);
        return d;
    }
    Op Gen::step(const Dims &d, int id)
    {
        Op p("step");
        p.set("c", id).set("x", rnd(d.nx, -2, 2)).set("u", rnd(d.nu, -0.4, 0.4)).set("ps", seed());
        if (r.chance(0.18)) // the same measurement again
            for (size_t i = sc.ops.size(); i > 0; i--)
            {
                const Op &q = sc.ops[i - 1];
                if (q.name != "step" || q.i("c") != id) continue;
                auto fin = [](const V &v)
                { for (double a : v) if (!std::isfinite(a)) return false; return true; };
                V x = q.vec("x"), u = q.vec("u");
                if ((int)x.size() == d.nx && fin(x)) p.set("x", x);
                if ((int)u.size() == d.nu && fin(u) && r.chance(0.8)) p.set("u", u);
                break;
            }
        if (r.chance(0.03)) p.set("u", rnd(d.nu, -3, 3));
        if (r.chance(0.5)) p.set("solve", "rand");
        if (r.chance(0.3)) p.set("dt", (long)r.range(0, 50000000));
        if (r.chance(0.1)) // values nobody draws at random
        {
            V x = p.vec("x"), u = p.vec("u");
            switch (r.below(5))
            {
            case 0: std::fill(x.begin(), x.end(), 0.0); break;
            case 1: std::fill(u.begin(), u.end(), 0.0); break;
            case 2: std::fill(x.begin(), x.end(), (double)r.range(-2, 2)); break;
            case 3:
                for (auto &a : x) a = std::round(a);
                break;
            default: std::fill(x.begin(), x.end(), 0.0), std::fill(u.begin(), u.end(), 0.0);
            }
            p.set("x", x).set("u", u);
        }
        if (closed < 0) closed = r.chance(0.15) ? 0.8 : 0;
        if (r.chance(closed)) p.set("cl", 1);
        return p;
    }
    void Gen::fault(Op &s)
    {
        static const int st[] = {2, 3, 4, -2, -3, -4, -5, -6, -7};
        switch (r.below(10))
        {
        case 0: s.set("fs", r.range(1, 2)); break;
        case 1: s.set("fs", r.range(3, 6)); break;
        case 2: s.set("fsolve", r.range(1, 7)); break;
        case 3: s.set("nanx", r.range(1, 4)); break;
        case 4:
        {
            V x = s.vec("x");
            x[(size_t)r.below((int)x.size())] = r.chance(0.7) ? NAN : r.chance(0.5) ? INF
                                                                                     : -INF;
            s.set("x", x);
            break;
        }
        case 5:
        {
            V u = s.vec("u");
            u[(size_t)r.below((int)u.size())] = r.chance(0.7) ? NAN : INF;
            s.set("u", u);
            break;
        }
        default: s.set("st", st[r.below(9)]);
        }
    }
}
