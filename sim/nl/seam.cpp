#include "seam.hpp"
#include <dlfcn.h>
#include <nlopt.h>

namespace nl
{
    thread_local SolveHook *t_hook = nullptr;

    // layout of nlopt 2.7.1's private structures (self-checked at start-up)
    struct KCon
    {
        unsigned m;
        nlopt_func f;
        nlopt_mfunc mf;
        nlopt_precond pre;
        void *f_data;
        double *tol;
    };
    struct KOpt
    {
        int algorithm;
        unsigned n;
        nlopt_func f;
        void *f_data;
        nlopt_precond pre;
        int maximize;
        void *params;
        unsigned nparams;
        double *lb, *ub;
        unsigned m, m_alloc;
        KCon *fc;
        unsigned p, p_alloc;
        KCon *h;
        void *munge_d, *munge_c;
        double stopval;
        double ftol_rel, ftol_abs;
        double xtol_rel, *xtol_abs;
        double *x_weights;
        int maxeval;
        int numevals;
        double maxtime;
        int force_stop;
    };

    struct ShimCtx
    {
        SolveCall *c;
        SolveHook *h;
        int which;
        nlopt_func f;
        nlopt_mfunc mf;
        void *data;
    };
    static double shim_f(unsigned n, const double *x, double *g, void *d)
    {
        auto *s = (ShimCtx *)d;
        s->h->point(*s->c, s->which, x, g != nullptr);
        double r;
        {
            sim::LibScope ls;
            r = s->f(n, x, g, s->data);
        }
        if (s->which == 0) s->h->value(*s->c, x, r);
        return r;
    }
    static void shim_m(unsigned m, double *r, unsigned n, const double *x, double *g, void *d)
    {
        auto *s = (ShimCtx *)d;
        s->h->point(*s->c, s->which, x, g != nullptr);
        sim::LibScope ls;
        s->mf(m, r, n, x, g, s->data);
    }

    double SolveCall::f(const V &z, V *grad) const
    {
        KOpt *o = (KOpt *)opt;
        if (grad) grad->assign(n, 0.0);
        sim::LibScope ls;
        return o->f(n, z.data(), grad ? grad->data() : nullptr, o->f_data);
    }
    V SolveCall::con(size_t b, const V &z, V *grad) const
    {
        KOpt *o = (KOpt *)opt;
        const Block &bl = blocks[b];
        KCon &k = bl.eq ? o->h[bl.slot] : o->fc[bl.slot];
        V r(bl.m, 0.0);
        if (grad) grad->assign((size_t)bl.m * n, 0.0);
        sim::LibScope ls;
        if (k.mf)
            k.mf(k.m, r.data(), n, z.data(), grad ? grad->data() : nullptr, k.f_data);
        else
            r[0] = k.f(n, z.data(), grad ? grad->data() : nullptr, k.f_data);
        return r;
    }
    bool SolveCall::stopped() const { return ((KOpt *)opt)->force_stop != 0; }

    typedef nlopt_result (*real_t)(nlopt_opt, double *, double *);
    static real_t real_optimize()
    {
        static real_t r = (real_t)dlsym(RTLD_NEXT, "nlopt_optimize");
        return r;
    }

    bool seam_selfcheck(std::string &why)
    {
        auto f = [](unsigned, const double *, double *, void *) -> double
        { return 0; };
        auto mf = [](unsigned, double *, unsigned, const double *, double *, void *) {};
        nlopt_func pf = f;
        nlopt_mfunc pm = mf;
        nlopt_opt o = nlopt_create(NLOPT_LD_SLSQP, 5);
        double tol[3] = {.25, .5, .75};
        int a = 1, b = 2, c = 3;
        nlopt_set_min_objective(o, pf, &a);
        nlopt_add_equality_mconstraint(o, 3, pm, &b, tol);
        nlopt_add_inequality_mconstraint(o, 2, pm, &c, tol);
        nlopt_set_maxeval(o, 4242);
        nlopt_set_maxtime(o, 7.5);
        nlopt_set_ftol_rel(o, 0.125);
        nlopt_set_ftol_abs(o, 0.0625);
        nlopt_set_xtol_rel(o, 0.375);
        nlopt_set_lower_bounds1(o, -3.25);
        nlopt_set_upper_bounds1(o, 3.5);
        nlopt_set_force_stop(o, 77);
        KOpt *k = (KOpt *)o;
        bool ok = k->n == 5 && k->f == pf && k->f_data == &a && k->m == 1 && k->p == 1 && k->fc[0].m == 2 && k->fc[0].mf == pm &&
                  k->fc[0].f_data == &c && k->h[0].m == 3 && k->h[0].mf == pm && k->h[0].f_data == &b && k->h[0].tol[2] == .75 &&
                  k->maxeval == 4242 && k->maxtime == 7.5 && k->ftol_rel == 0.125 && k->ftol_abs == 0.0625 && k->xtol_rel == 0.375 &&
                  k->lb[4] == -3.25 && k->ub[0] == 3.5 && k->force_stop == 77;
        nlopt_destroy(o);
        if (!ok) why = "private layout of the installed nlopt differs from the one the seam was written for";
        if (!real_optimize())
        {
            ok = false;
            why = "real nlopt_optimize not found";
        }
        return ok;
    }
}

extern "C" nlopt_result nlopt_optimize(nlopt_opt opt, double *x, double *minf)
{
    using namespace nl;
    SolveHook *h = t_hook;
    if (!h) return real_optimize()(opt, x, minf);
    int saved = sim::t_in_lib;
    sim::t_in_lib = 0;
    KOpt *o = (KOpt *)opt;
    o->force_stop = 0; // as the real one does at its start
    SolveCall c;
    c.opt = opt;
    c.n = o->n;
    c.guess.assign(x, x + o->n);
    c.lb.assign(o->lb, o->lb + o->n);
    c.ub.assign(o->ub, o->ub + o->n);
    c.ftol_rel = nlopt_get_ftol_rel(opt), c.ftol_abs = nlopt_get_ftol_abs(opt), c.xtol_rel = nlopt_get_xtol_rel(opt);
    c.xtol_abs.assign(o->n, 0);
    nlopt_get_xtol_abs(opt, c.xtol_abs.data());
    c.maxtime = nlopt_get_maxtime(opt);
    c.maxeval = nlopt_get_maxeval(opt);
    c.has_f = o->f != nullptr;
    for (unsigned i = 0; i < o->m; i++) c.blocks.push_back({false, o->fc[i].m, o->fc[i].tol ? V(o->fc[i].tol, o->fc[i].tol + o->fc[i].m) : V(o->fc[i].m, 0.0), (int)i});
    for (unsigned i = 0; i < o->p; i++) c.blocks.push_back({true, o->h[i].m, o->h[i].tol ? V(o->h[i].tol, o->h[i].tol + o->h[i].m) : V(o->h[i].m, 0.0), (int)i});
    auto real = [&]() -> int
    {
        std::vector<ShimCtx> ctx(1 + c.blocks.size());
        ctx[0] = {&c, h, 0, o->f, nullptr, o->f_data};
        if (o->f) o->f = shim_f, o->f_data = &ctx[0];
        for (size_t b = 0; b < c.blocks.size(); b++)
        {
            KCon &k = c.blocks[b].eq ? o->h[c.blocks[b].slot] : o->fc[c.blocks[b].slot];
            ctx[b + 1] = {&c, h, (int)b + 1, k.f, k.mf, k.f_data};
            if (k.mf)
                k.mf = shim_m;
            else
                k.f = shim_f;
            k.f_data = &ctx[b + 1];
        }
        sim::scrub_stack();
        sim::t_zero++;
        int r = real_optimize()(opt, x, minf);
        sim::t_zero--;
        o->f = ctx[0].f, o->f_data = ctx[0].data;
        for (size_t b = 0; b < c.blocks.size(); b++)
        {
            KCon &k = c.blocks[b].eq ? o->h[c.blocks[b].slot] : o->fc[c.blocks[b].slot];
            k.f = ctx[b + 1].f, k.mf = ctx[b + 1].mf, k.f_data = ctx[b + 1].data;
        }
        return r;
    };
    int r = h->solve(c, x, minf, real);
    sim::t_in_lib = saved;
    return (nlopt_result)r;
}
