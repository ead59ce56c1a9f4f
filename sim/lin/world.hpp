// Executes a list of operations on simulated linear controllers and records everything observable.
#pragma once
#include "mate.hpp"
#include "osqp_sim.hpp"
#include <deque>
#include <set>
#include <sstream>
namespace lin
{
    using sim::Op;
    using sim::Report;
    using sim::Scenario;
    // what the user asked for so far, in the terms of the documentation; columns are horizon steps
    struct Cfg
    {
        Dims d;
        bool dyn = false;
        bool has_model = false;
        Mat A, B, C, Bd, Dd;
        Mat dm;             // exogenous inputs
        Mat yr, ur, dur;    // references
        Mat yw, uw, duw;    // weights
        Mat xlo, xhi, ylo, yhi, ulo, uhi;
        Vec slo, shi;
        Vec sX, sU;
        Par par;
        void init(const Dims &dd, bool dynamic);
        // trajectory of the documented model under inputs U (nu x ph)
        void roll(const Vec &x0, const Mat &U, Mat &X, Mat &Y) const;
        double J(const Vec &x0, const Vec &lastU, const Mat &U) const;
        // every bound in force along the trajectory: value, lower, upper, name
        struct Con
        {
            double v, lo, hi;
            const char *what;
            int k, i;
        };
        std::vector<Con> cons(const Vec &x0, const Mat &U) const;
        Vec Z(const Vec &x0, const Vec &lastU, const Mat &U) const;
    };
    struct StepRec
    {
        int ctl = 0;
        size_t op = 0;
        Vec x, u;
        Cfg cfg;
        bool threw = false, is_badalloc = false;
        std::string threw_what;
        Res r, last;
        Seq s;
        Stats st;
        Call c;
        V px, py; // warm-start pair according to the getters, after the step
        double elapsed = 0;
        std::vector<std::string> fired;
        std::vector<std::string> misuse;
        bool solved() const { return c.solves > 0; }
        bool usable() const; // the solver returned a finite solution
    };
    struct RetRec
    {
        int ctl;
        size_t op;
        std::string name;
        bool ret, expected;
    };
    struct World;
    struct CtlState
    {
        World *w = nullptr;
        int id = 0;
        std::unique_ptr<Ctl> c;
        Cfg cfg;
        std::deque<StepRec> steps;
        std::vector<RetRec> rets;
    };
    struct LogSink;
    struct World
    {
        Report &rep;
        std::map<int, std::unique_ptr<CtlState>> ctl;
        struct MateState
        {
            int kind = 0;
            std::unique_ptr<Mate> m;
            std::deque<MateStep> steps;
        };
        std::map<int, MateState> mates; // non-linear controllers living next to them
        int force_dyn = -1;
        bool quiet_log = false;
        uint64_t paint = 0;
        std::shared_ptr<LogSink> sink;
        std::set<size_t> skip;
        bool count = true;
        std::vector<std::string> misuse; // solver interface violations so far
        explicit World(Report &r);
        ~World();
        void run(const std::vector<Op> &ops);
        void exec(const Op &op, size_t idx);
        void exec_failing(const Op &op, size_t idx);
        long refused = 0; // configuration calls cut short by a failed allocation
        void destroy();
        void collect();
        CtlState *get(int id);
        std::vector<const StepRec *> all_steps() const;
        std::vector<const StepRec *> steps_of(int id) const;
        void log(const std::string &s);
    };
    struct LogSink : std::streambuf, std::ostream
    {
        std::string text;
        long cap = -1;
        int mode = 0; // 0 ok, 1 fails, 2 truncates at cap, 3 slow (yields), 4 throws
        long writes = 0;
        LogSink() : std::ostream(this) {}
        int overflow(int ch) override;
        std::streamsize xsputn(const char *s, std::streamsize n) override;
    };
    std::vector<Op> config_ops(const Cfg &cfg, int id, uint64_t order_seed);
    bool same_res(const Res &a, const Res &b, std::string &why);
    bool same_seq(const Seq &a, const Seq &b, std::string &why);
    bool close(double a, double b, double tol);
    double maxdiff(const Mat &a, const Mat &b);
    std::string show(const Mat &m);
    std::string show(const V &m);
    bool finite(const Mat &m);
    void prop_check(const Scenario &sc, Report &rep);
    Scenario prop_gen(const std::string &prop, uint64_t seed);

    struct Gen
    {
        sim::Rng r;
        Scenario sc;
        double closed = -1; // how likely a step follows its predecessor's prediction exactly
        explicit Gen(const std::string &prop, uint64_t seed) : r(seed) { sc.prop = prop; }
        uint64_t seed() { return r.u64() % 1000003; }
        Op &add(Op o)
        {
            sim::reuse(r, sc.ops, o);
            sc.ops.push_back(std::move(o));
            return sc.ops.back();
        }
        V rnd(int n, double a, double b);
        int len(int a, int b); // length of a history, sometimes a long one
        Dims dims(double pdyn, bool menu_only, bool &dyn);
        void slice(Op &p, int hz, bool valid_only);
        Op update(const Dims &d, int id, bool valid_only); // one random configuration call
        Op named(const std::string &name, const Dims &d, int id, bool valid_only);
        Op par(int id);
        Dims config(double pdyn, bool menu_only, int id);
        void config_for(const Dims &d, bool dyn, int id);
        Op step(const Dims &d, int id);
        void fault(Op &s);
    };
}
