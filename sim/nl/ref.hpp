// Reference functions: what the simulated user registers, and what the oracles evaluate.
#pragma once
#include "ctl.hpp"

namespace nl
{
    struct RefFn
    {
        Dims d;
        uint64_t seed = 0;
        int nl = 0;     // 0: affine / convex quadratic, 1: smooth non-linear
        int kind = 0;   // variant
        double shift = 0;
        bool skip0 = false; // objective: the measured state has no weight
        // coefficients
        Mat A, B, C, D;
        Vec c, oc;
        bool cont = false;
        Mat wx, wy, wu, rx, ry, ru;
        double we = 1;
        struct Term
        {
            int type, k, i, k2, i2;
            double a, b, s, a2;
        };
        std::vector<Term> ine, eqs;

        static RefFn state(const Dims &d, uint64_t seed, int nl, bool cont)
        {
            RefFn f;
            f.d = d, f.seed = seed, f.nl = nl, f.cont = cont;
            sim::Rng r(seed * 31 + 1);
            f.A = Mat(d.nx, d.nx), f.B = Mat(d.nx, d.nu), f.c = Vec(d.nx);
            for (int i = 0; i < d.nx; i++)
                for (int j = 0; j < d.nx; j++)
                    f.A(i, j) = (cont ? (i == j ? -0.7 : 0) : (i == j ? 0.6 : 0)) + 0.3 * r.uni(-1, 1) / d.nx;
            for (int i = 0; i < d.nx; i++)
                for (int j = 0; j < d.nu; j++) f.B(i, j) = r.uni(-0.5, 0.5) + (i % d.nu == j ? 0.8 : 0);
            for (int i = 0; i < d.nx; i++) f.c(i) = r.uni(-0.1, 0.1);
            return f;
        }
        Vec st(const Vec &x, const Vec &u, unsigned k) const
        {
            Vec r = A * x + B * u + c;
            for (int i = 0; i < d.nx; i++)
            {
                r(i) += 0.1 * std::cos(0.9 * k + i);
                if (nl) r(i) += 0.15 * std::sin(x((i + 1) % d.nx)) + 0.1 * std::tanh(u(0)) * std::sin(x(i));
            }
            return r;
        }
        static RefFn output(const Dims &d, uint64_t seed, int nl)
        {
            RefFn f;
            f.d = d, f.seed = seed, f.nl = nl;
            sim::Rng r(seed * 31 + 2);
            f.C = Mat(d.ny, d.nx), f.D = Mat(d.ny, d.nu), f.oc = Vec(d.ny);
            for (int i = 0; i < d.ny; i++)
            {
                for (int j = 0; j < d.nx; j++) f.C(i, j) = r.uni(-1, 1);
                for (int j = 0; j < d.nu; j++) f.D(i, j) = r.uni(-0.5, 0.5);
                f.oc(i) = r.uni(-0.2, 0.2);
            }
            return f;
        }
        Vec outp(const Vec &x, const Vec &u, unsigned k) const
        {
            Vec y = C * x + D * u + oc;
            for (int i = 0; i < d.ny; i++)
            {
                y(i) += 0.07 * std::sin(1.1 * k + i);
                if (nl) y(i) += 0.1 * std::sin(x(i % d.nx));
            }
            return y;
        }
        static RefFn objective(const Dims &d, uint64_t seed, int nl, double we, bool skip0 = false)
        {
            RefFn f;
            f.d = d, f.seed = seed, f.nl = nl, f.we = we, f.skip0 = skip0;
            sim::Rng r(seed * 31 + 3);
            auto fill = [&](Mat &m, int c, double a, double b)
            {
                m = Mat(d.ph + 1, c);
                for (int i = 0; i <= d.ph; i++)
                    for (int j = 0; j < c; j++) m(i, j) = r.uni(a, b);
            };
            fill(f.wx, d.nx, 0.3, 2), fill(f.wy, d.ny, 0.1, 1), fill(f.wu, d.nu, 0.2, 1);
            fill(f.rx, d.nx, -1, 1), fill(f.ry, d.ny, -1, 1), fill(f.ru, d.nu, -1, 1);
            return f;
        }
        double ob(const Mat &X, const Mat &Y, const Mat &U, double e) const
        {
            double J = we * e * e;
            for (int k = 0; k <= d.ph; k++)
            {
                bool skip = skip0 && k == 0;
                for (int i = 0; i < d.nx && !skip; i++)
                {
                    double t = X(k, i) - rx(k, i);
                    J += wx(k, i) * t * t;
                    if (nl) J += 0.2 * std::sqrt(1 + X(k, i) * X(k, i));
                }
                for (int i = 0; i < d.ny && !skip; i++)
                {
                    double t = Y(k, i) - ry(k, i);
                    J += wy(k, i) * t * t;
                }
                for (int i = 0; i < d.nu; i++)
                {
                    double t = U(k, i) - ru(k, i);
                    J += wu(k, i) * t * t;
                }
            }
            return J;
        }
        // shift > 0 makes the constraints harder (needs slack when large)
        static RefFn inequality(const Dims &d, uint64_t seed, int nl, double shift, int kind = 0)
        {
            RefFn f;
            f.d = d, f.seed = seed, f.nl = nl, f.shift = shift, f.kind = kind;
            sim::Rng r(seed * 31 + 4);
            for (int j = 0; j < d.ineq; j++)
            {
                Term t;
                t.type = r.below(4);
                if (t.type == 2 && d.ny == 0) t.type = 0;
                t.k = r.range(t.type == 1 ? 0 : 1, d.ph);
                t.k2 = r.range(0, d.ph);
                int n = t.type == 0 || t.type == 3 ? d.nx : t.type == 1 ? d.nu : d.ny;
                t.i = r.below(n), t.i2 = r.below(d.nu);
                t.a = (r.chance(0.5) ? 1 : -1) * r.uni(0.5, 1.5);
                t.a2 = r.uni(-0.5, 0.5);
                t.b = r.uni(1.0, 3.0);
                t.s = r.uni(0.8, 1.2);
                f.ine.push_back(t);
            }
            return f;
        }
        Vec in(const Mat &X, const Mat &Y, const Mat &U, double e) const
        {
            Vec g((int)ine.size());
            for (size_t j = 0; j < ine.size(); j++)
            {
                const Term &t = ine[j];
                double v = 0;
                if (kind == 1) // needs slack >= 1/s whatever the trajectory, the rest of the problem untouched
                    v = 1 + t.b;
                else if (t.type == 0)
                    v = t.a * X(t.k, t.i);
                else if (t.type == 1)
                    v = t.a * U(t.k, t.i);
                else if (t.type == 2)
                    v = t.a * Y(t.k, t.i);
                else
                    v = t.a * X(t.k, t.i) + t.a2 * U(t.k2, t.i2);
                if (nl && kind != 1) v += 0.1 * std::sin(v);
                g((int)j) = v - t.b + shift - t.s * e;
            }
            return g;
        }
        static RefFn equality(const Dims &d, uint64_t seed, int nl)
        {
            RefFn f;
            f.d = d, f.seed = seed, f.nl = nl;
            sim::Rng r(seed * 31 + 5);
            for (int j = 0; j < d.eq; j++)
            {
                Term t;
                t.type = 0;
                int mv = j / d.nu % d.ch;
                t.i = j % d.nu;
                t.k = mv == d.ch - 1 ? r.range(mv, d.ph) : mv;
                t.i2 = r.below(d.nx);
                t.k2 = std::min(t.k, d.ph);
                t.a = r.uni(0.7, 1.3), t.a2 = r.uni(-0.3, 0.3), t.b = r.uni(-0.4, 0.4), t.s = 0;
                f.eqs.push_back(t);
            }
            return f;
        }
        Vec eqv(const Mat &X, const Mat &U) const
        {
            Vec g((int)eqs.size());
            for (size_t j = 0; j < eqs.size(); j++)
            {
                const Term &t = eqs[j];
                double v = t.a * U(t.k, t.i) - t.a2 * X(t.k2, t.i2) - t.b;
                if (nl) v += 0.05 * std::sin(X(t.k2, t.i2));
                g((int)j) = v;
            }
            return g;
        }
    };
}
