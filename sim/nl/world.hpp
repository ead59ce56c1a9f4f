// Executes a list of operations on simulated controllers and records everything observable.
#pragma once
#include "ref.hpp"
#include "seam.hpp"
#include <deque>
#include <set>
#include <sstream>

namespace nl
{
    using sim::Op;
    using sim::Report;
    using sim::Scenario;

    // what the user asked for so far, kept by the simulator from the successful setter calls
    struct Cfg
    {
        Dims d;
        bool dyn = false;
        bool cont = false;
        double ts = 0;
        Par par;
        float stol = 1e-10f, itol = 1e-10f, etol = 1e-10f;
        std::shared_ptr<RefFn> st, out, obj, in, eq;
        Op ost, oout, oobj, oin, oeq; // the operations that installed them
        Mat xlo, xhi, ulo, uhi;       // physical units
        Vec sx, su;
        void init(const Dims &dd, bool dynamic);
        // reference evaluation on physical trajectories
        Mat Y(const Mat &X, const Mat &U) const;
        double J(const Mat &X, const Mat &U, double e) const;
        Vec I(const Mat &X, const Mat &U, double e) const;
        Vec E(const Mat &X, const Mat &U) const;
        Vec R(const Mat &X, const Mat &U) const; // model residual, scaled by the state scaling
        void unwrap(const V &z, const Vec &x0, Mat &X, Mat &U, double &e) const;
        V wrap(const Mat &X, const Mat &U, double e) const;
    };

    struct Fault
    {
        char kind; // F S O I E or A (any)
        bool post; // after the solver returned
        long n;
        bool onwards;
        std::string act;
        double arg;
    };

    struct ProbeVal
    {
        std::string msg;
    };

    struct StepRec
    {
        int ctl = 0;
        size_t op = 0;
        std::string opname;
        Vec x, u;
        Cfg cfg;
        bool threw = false;
        std::string threw_what;
        bool is_badalloc = false;
        Res r, last;
        Seq s;
        Stats st;
        // solver seam
        bool solved = false;
        bool stub = false;
        SolveCall call;
        int ret = 0;
        V zopt;
        double minf = 0;
        long evals = 0;            // solver-level objective evaluations
        std::vector<std::pair<V, double>> path; // ... and where, with the answers
        double last_eval_start = 0; // simulated seconds since the step began
        std::vector<std::string> pt_viol;
        // callbacks
        long calls[5] = {0, 0, 0, 0, 0}, pcalls[5] = {0, 0, 0, 0, 0};
        std::vector<std::pair<std::string, std::string>> cbviol; // tag, message
        double elapsed = 0;
        double max_e = 0; // largest |slack| any callback saw
        bool thrown_fault = false, poison = false;
        std::vector<std::string> fired;
        bool ok() const { return !threw && r.status != ERROR_; }
        V guess_opt() const { return zopt; }
    };
    struct RetRec
    {
        int ctl;
        size_t op;
        std::string name;
        bool ret;
        bool expected;
    };

    struct World;
    struct CtlState;
    struct Cb : Callbacks
    {
        CtlState *o = nullptr;
        std::shared_ptr<RefFn> fn;
        char kind = 'F';
        double obj(const Mat &X, const Mat &Y, const Mat &U, double e) override;
        void ineq(Vec &c, const Mat &X, const Mat &Y, const Mat &U, double e) override;
        void eq(Vec &c, const Mat &X, const Mat &U) override;
        void state(Vec &d, const Vec &x, const Vec &u, unsigned k) override;
        void out(Vec &y, const Vec &x, const Vec &u, unsigned k) override;
    };

    // context of a running step
    struct StepCtx
    {
        StepRec *rec = nullptr;
        std::vector<Fault> faults;
        int64_t dt = 1000; // ns per callback
        bool post = false, probing = false;
        int64_t t0 = 0;
        long calls = 0; // of user functions
        std::vector<std::pair<int, double>> civ, cev; // scripted constraint values
        Op op;
    };

    struct CtlState : SolveHook
    {
        World *w = nullptr;
        int id = 0;
        std::unique_ptr<Ctl> c;
        Cfg cfg;
        std::deque<std::unique_ptr<Cb>> cbs;
        Cb *cur[5] = {nullptr, nullptr, nullptr, nullptr, nullptr}; // F S O I E
        StepCtx *ctx = nullptr;
        std::deque<StepRec> steps;
        std::vector<RetRec> rets;
        bool dead = false, bound = false;
        int solve(SolveCall &c, double *x, double *minf, const std::function<int()> &real) override;
        void point(SolveCall &c, int which, const double *z, bool grad) override;
        void value(SolveCall &c, const double *z, double f) override;
        int stub_solve(SolveCall &c, double *x, double *minf);
        void probe(SolveCall &c);
        // returns true when the value is to be poisoned with *poison
        bool enter(Cb *cb, int kind, double *poison);
        void check_traj(const char *who, const Mat &X, const Mat &U, const Mat *Y, double e);
    };

    struct LogSink;
    struct World
    {
        Report &rep;
        std::map<int, std::unique_ptr<CtlState>> ctl;
        int force_dyn = -1;    // -1: as the scenario says, 0/1: override
        bool drop_scale = false;
        bool quiet_log = false; // ignore logger operations
        uint64_t paint = 0;     // stack/heap fill pattern, 0: off
        std::vector<std::pair<std::string, std::string>> says; // logger checks
        std::shared_ptr<LogSink> sink;
        std::set<size_t> skip; // operation indices to leave out
        std::set<size_t> only_steps;
        bool has_only_steps = false;
        bool watch_traj = false;   // record bound violations of the callback trajectories
        bool do_probe = false;
        bool peek = false; // ask for the last result inside the callbacks
        bool count = true; // feed counters of the report
        std::function<void()> in_callback;

        explicit World(Report &r);
        ~World();
        void run(const std::vector<Op> &ops);
        void exec(const Op &op, size_t idx);
        void exec_failing(const Op &op, size_t idx);
        long refused = 0; // configuration calls cut short by a failed allocation
        void destroy();
        CtlState *get(int id);
        std::vector<const StepRec *> all_steps() const;
        std::vector<const StepRec *> steps_of(int id) const;
        void log(const std::string &s);
    };

    struct LogSink : std::streambuf, std::ostream
    {
        std::string text;
        std::map<int, std::string> by_task; // what each caller of an interleaved run wrote
        long cap = -1;  // accept only that many characters then fail
        int mode = 0;   // 0 ok, 1 fail always, 2 truncate at cap, 3 yield on every write (slow stream), 4 throws
        long writes = 0;
        LogSink() : std::ostream(this) {}
        int overflow(int ch) override;
        std::streamsize xsputn(const char *s, std::streamsize n) override;
    };

    // canonical configuration operations that recreate `cfg` on a new controller
    std::vector<Op> config_ops(const Cfg &cfg, int id, uint64_t order_seed);
    bool same_res(const Res &a, const Res &b, std::string &why);
    bool same_seq(const Seq &a, const Seq &b, std::string &why);
    bool close(double a, double b, double tol);
    double maxdiff(const Mat &a, const Mat &b);
    std::string show(const Mat &m);
    std::string show(const V &m);
    bool finite(const Mat &m);
    void prop_check(const Scenario &sc, Report &rep);
    Scenario prop_gen(const std::string &prop, uint64_t seed);
    // convex QP: min 1/2 z'Hz + g'z  s.t. Aeq z = beq, G z <= h ; returns optimal value or nan
    bool solve_qp(const Mat &H, const Vec &g, const Mat &Aeq, const Vec &beq, const Mat &G, const Vec &h, Vec &z);
}
