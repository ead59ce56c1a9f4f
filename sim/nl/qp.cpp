// Small dense convex QP solver (Mehrotra predictor-corrector): the independent oracle for optima.
#include "world.hpp"
namespace nl
{
    bool solve_qp(const Mat &H, const Vec &g, const Mat &A, const Vec &b, const Mat &G, const Vec &h, Vec &z)
    {
        int n = (int)g.size(), me = (int)b.size(), mi = (int)h.size();
        z = Vec::Zero(n);
        Vec y = Vec::Zero(me), s = Vec::Ones(mi), l = Vec::Ones(mi);
        if (mi)
        {
            Vec t = h - G * z;
            for (int i = 0; i < mi; i++) s(i) = std::max(1.0, t(i));
        }
        auto step_len = [](const Vec &v, const Vec &dv)
        {
            double a = 1;
            for (int i = 0; i < v.size(); i++)
                if (dv(i) < 0) a = std::min(a, -v(i) / dv(i));
            return a;
        };
        double best = 1e300;
        for (int it = 0; it < 100; it++)
        {
            Vec rd = H * z + g;
            if (me) rd += A.transpose() * y;
            if (mi) rd += G.transpose() * l;
            Vec rp = me ? Vec(A * z - b) : Vec();
            Vec ri = mi ? Vec(G * z + s - h) : Vec();
            double mu = mi ? s.dot(l) / mi : 0;
            double err = rd.cwiseAbs().maxCoeff();
            if (me) err = std::max(err, rp.cwiseAbs().maxCoeff());
            if (mi) err = std::max(err, ri.cwiseAbs().maxCoeff());
            err = std::max(err, mu);
            best = std::min(best, err);
            if (err < 1e-9) return true;
            Mat K = Mat::Zero(n + me, n + me);
            Mat HH = H;
            if (mi) HH += G.transpose() * l.cwiseQuotient(s).asDiagonal() * G;
            HH.diagonal().array() += 1e-13;
            K.topLeftCorner(n, n) = HH;
            if (me)
            {
                K.topRightCorner(n, me) = A.transpose();
                K.bottomLeftCorner(me, n) = A;
                for (int i = 0; i < me; i++) K(n + i, n + i) = -1e-13;
            }
            Eigen::PartialPivLU<Mat> lu(K);
            auto solve = [&](const Vec &rc, Vec &dz, Vec &dy, Vec &ds, Vec &dl)
            {
                // rc: complementarity residual  s*l - target
                Vec rhs(n + me);
                Vec top = -rd;
                if (mi) top -= G.transpose() * ((l.cwiseProduct(ri) - rc).cwiseQuotient(s));
                rhs.head(n) = top;
                if (me) rhs.tail(me) = -rp;
                Vec sol = lu.solve(rhs);
                dz = sol.head(n);
                dy = sol.tail(me);
                if (mi)
                {
                    ds = -ri - G * dz;
                    dl = (-rc - l.cwiseProduct(ds)).cwiseQuotient(s);
                }
            };
            Vec dz, dy, ds = Vec::Zero(mi), dl = Vec::Zero(mi);
            if (mi)
            {
                solve(s.cwiseProduct(l), dz, dy, ds, dl);
                double a = std::min(step_len(s, ds), step_len(l, dl));
                double mua = (s + a * ds).dot(l + a * dl) / mi;
                double sg = std::pow(mua / mu, 3);
                Vec rc = s.cwiseProduct(l) + ds.cwiseProduct(dl) - Vec::Constant(mi, sg * mu);
                solve(rc, dz, dy, ds, dl);
                a = std::min(step_len(s, ds), step_len(l, dl));
                double al = std::min(1.0, 0.99 * a);
                z += al * dz, y += al * dy, s += al * ds, l += al * dl;
            }
            else
            {
                solve(Vec(), dz, dy, ds, dl);
                z += dz, y += dy;
            }
            if (!z.allFinite()) return false;
        }
        return best < 1e-7;
    }
}
