// Dimension-erased interface of one non-linear controller under simulation. The implementation
// (ctl_impl.hpp) is a thin layer over the public API of mpc::NLMPC; nothing private is touched.
#pragma once
#include "../core.hpp"
#include <Eigen/Dense>
#include <memory>

namespace nl
{
    using sim::V;
    using Mat = Eigen::MatrixXd;
    using Vec = Eigen::VectorXd;

    struct Dims
    {
        int nx = 0, nu = 0, ny = 0, ph = 0, ch = 0, ineq = 0, eq = 0;
        int nz() const { return nx * ph + nu * ch + 1; }
        bool operator==(const Dims &o) const
        {
            return nx == o.nx && nu == o.nu && ny == o.ny && ph == o.ph && ch == o.ch && ineq == o.ineq && eq == o.eq;
        }
    };
    struct Par
    {
        int maxit = 100;
        double tl = 0;
        bool warm = false, hard = true;
        double rf = -1, rx = -1, af = -1, ax = -1;
        bool operator==(const Par &o) const
        {
            return maxit == o.maxit && tl == o.tl && warm == o.warm && hard == o.hard && rf == o.rf && rx == o.rx && af == o.af && ax == o.ax;
        }
    };
    enum St
    {
        SUCCESS = 0,
        MAX_ITERATION,
        INFEASIBLE,
        ERROR_,
        UNKNOWN
    };
    struct Res
    {
        int code = 0;
        bool feas = false;
        std::string msg;
        double cost = 0;
        int status = UNKNOWN;
        Vec cmd;
    };
    struct Seq
    {
        Mat x, y, u;
    };
    struct Stats
    {
        double mn, mx, avg, tot, sd;
        int n;
        std::map<int, int> st;
    };
    // user callbacks; sizes are re-checked by the receiver
    struct Callbacks
    {
        virtual ~Callbacks() = default;
        virtual double obj(const Mat &X, const Mat &Y, const Mat &U, double e) = 0;
        virtual void ineq(Vec &c, const Mat &X, const Mat &Y, const Mat &U, double e) = 0;
        virtual void eq(Vec &c, const Mat &X, const Mat &U) = 0;
        virtual void state(Vec &d, const Vec &x, const Vec &u, unsigned k) = 0;
        virtual void out(Vec &y, const Vec &x, const Vec &u, unsigned k) = 0;
    };
    struct Ctl
    {
        virtual ~Ctl() = default;
        virtual bool ts(double) = 0;
        virtual void sx(const Vec &) = 0;
        virtual void su(const Vec &) = 0;
        virtual bool obj(Callbacks *) = 0;
        virtual bool state(Callbacks *, const float *tol) = 0;
        virtual bool out(Callbacks *) = 0;
        virtual bool ineq(Callbacks *, const float *tol) = 0;
        virtual bool eq(Callbacks *, const float *tol) = 0;
        virtual void par(const Par &) = 0;
        virtual bool xb(const Vec &lo, const Vec &hi, int a, int b) = 0;
        virtual bool ub(const Vec &lo, const Vec &hi, int a, int b) = 0;
        virtual bool xbm(const Mat &lo, const Mat &hi) = 0;
        virtual bool ubm(const Mat &lo, const Mat &hi) = 0;
        virtual bool yb_throws() = 0;
        virtual bool slice_p(int a, int b) = 0;
        virtual bool slice_c(int a, int b) = 0;
        virtual bool slice_unset(int a, int b) = 0;
        virtual Res step(const Vec &x, const Vec &u) = 0;
        virtual Res last() = 0;
        virtual Seq seq() = 0;
        virtual Stats stats() = 0;
        virtual std::string stats_text() = 0;
        virtual void reset_stats() = 0;
        virtual bool level(int) = 0;
        virtual bool prefix(const std::string &) = 0;
    };
    std::unique_ptr<Ctl> make_static(const Dims &d); // null when not in the menu
    std::unique_ptr<Ctl> make_dynamic(const Dims &d);
    const std::vector<Dims> &static_menu();
    // direct use of the library's logger
    void log_stream(std::ostream *);
    void log_level(int);
    void log_prefix(const std::string &);
    void log_reset();
    void log_say(int type, const std::string &text);
}
