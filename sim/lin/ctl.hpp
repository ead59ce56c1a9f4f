// Dimension-erased interface of one linear controller under simulation: a thin layer over the public
// API of mpc::LMPC.
#pragma once
#include "../core.hpp"
#include <Eigen/Dense>
#include <memory>

namespace lin
{
    using sim::V;
    using Mat = Eigen::MatrixXd;
    using Vec = Eigen::VectorXd;
    struct Dims
    {
        int nx = 0, nu = 0, ndu = 0, ny = 0, ph = 0, ch = 0;
        bool operator==(const Dims &o) const { return nx == o.nx && nu == o.nu && ndu == o.ndu && ny == o.ny && ph == o.ph && ch == o.ch; }
        int n() const { return (ph + 1) * (nx + nu) + ph * nu; }
    };
    struct Par
    {
        int maxit = 100;
        double tl = 0;
        bool warm = false;
        double alpha = 1.6, rho = 1e-6, er = 1e-4, ea = 1e-4, ep = 1e-3, ed = 1e-3;
        bool verbose = false, ar = true, polish = true;
    };
    enum St
    {
        SUCCESS = 0,
        MAX_ITERATION,
        INFEASIBLE,
        ERROR_,
        UNKNOWN
    };
    struct Res
    {
        int code = 0;
        bool feas = false;
        std::string msg;
        double cost = 0;
        int status = UNKNOWN;
        Vec cmd;
    };
    struct Seq
    {
        Mat x, y, u;
    };
    struct Stats
    {
        double mn, mx, avg, tot, sd;
        int n;
        std::map<int, int> st;
    };
    struct Ctl
    {
        virtual ~Ctl() = default;
        virtual bool model(const Mat &A, const Mat &B, const Mat &C) = 0;
        virtual bool dist(const Mat &Bd, const Mat &Dd) = 0;
        virtual bool exo(const Vec &d, int a, int b) = 0;
        virtual bool exom(const Mat &d) = 0;
        virtual bool ref(const Vec &y, const Vec &u, const Vec &du, int a, int b) = 0;
        virtual bool refm(const Mat &y, const Mat &u, const Mat &du) = 0;
        virtual bool w(const Vec &y, const Vec &u, const Vec &du, int a, int b) = 0;
        virtual bool wm(const Mat &y, const Mat &u, const Mat &du) = 0;
        virtual bool xb(const Vec &lo, const Vec &hi, int a, int b) = 0;
        virtual bool ub(const Vec &lo, const Vec &hi, int a, int b) = 0;
        virtual bool yb(const Vec &lo, const Vec &hi, int a, int b) = 0;
        virtual bool xbm(const Mat &lo, const Mat &hi) = 0;
        virtual bool ubm(const Mat &lo, const Mat &hi) = 0;
        virtual bool ybm(const Mat &lo, const Mat &hi) = 0;
        virtual bool sc(double lo, double hi, const Vec &X, const Vec &U, int a, int b) = 0;
        virtual bool sci(unsigned i, double lo, double hi, const Vec &X, const Vec &U) = 0;
        virtual bool cons(unsigned i, const Vec &xl, const Vec &ul, const Vec &yl, const Vec &xh, const Vec &uh, const Vec &yh) = 0;
        virtual void par(const Par &) = 0;
        virtual void warm(const V &x, const V &y) = 0;
        virtual V warm_x() = 0;
        virtual V warm_y() = 0;
        virtual int unsupported() = 0; // how many of the three unavailable setters throw
        virtual bool slice_p(int a, int b) = 0;
        virtual bool slice_c(int a, int b) = 0;
        virtual bool slice_unset(int a, int b) = 0;
        virtual Res step(const Vec &x, const Vec &u) = 0;
        virtual Res last() = 0;
        virtual Seq seq() = 0;
        virtual Stats stats() = 0;
        virtual std::string stats_text() = 0;
        virtual void reset_stats() = 0;
        virtual bool level(int) = 0;
        virtual bool prefix(const std::string &) = 0;
    };
    std::unique_ptr<Ctl> make_static(const Dims &d);
    std::unique_ptr<Ctl> make_dynamic(const Dims &d);
    const std::vector<Dims> &static_menu();
    void log_stream(std::ostream *);
    void log_level(int);
    void log_prefix(const std::string &);
    void log_reset();
    void log_say(int type, const std::string &text);
}
