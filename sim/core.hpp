// Core of the deterministic simulator: seeded choices, scenario files, simulated clock,
// allocator seam, cooperative thread scheduler and the run/exec/gen driver.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace sim
{
    // ---------------------------------------------------------------- randomness
    struct Rng
    {
        uint64_t s;
        explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { u64(); }
        uint64_t u64()
        {
            s += 0x9E3779B97F4A7C15ull;
            uint64_t z = s;
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
        int below(int n) { return n <= 0 ? 0 : (int)(u64() % (uint64_t)n); }
        int range(int a, int b) { return a + below(b - a + 1); } // inclusive
        double unit() { return (double)(u64() >> 11) * (1.0 / 9007199254740992.0); }
        double uni(double a, double b) { return a + (b - a) * unit(); }
        bool chance(double p) { return unit() < p; }
        double gauss()
        {
            double u = unit(), v = unit();
            if (u < 1e-300) u = 1e-300;
            return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
        }
    };
    inline uint64_t mix(uint64_t a, uint64_t b)
    {
        Rng r(a ^ (b * 0xD6E8FEB86659FD93ull));
        return r.u64();
    }

    // ---------------------------------------------------------------- scenario
    using V = std::vector<double>;
    std::string num(double v);
    double parse_num(const std::string &s);
    std::string join(const V &v);

    struct Op
    {
        std::string name;
        std::vector<std::pair<std::string, std::string>> kv;
        Op() = default;
        explicit Op(std::string n) : name(std::move(n)) {}
        bool has(const std::string &k) const;
        std::string str(const std::string &k, const std::string &def = "") const;
        double d(const std::string &k, double def = 0) const;
        long i(const std::string &k, long def = 0) const;
        uint64_t u(const std::string &k, uint64_t def = 0) const;
        V vec(const std::string &k) const;
        Op &set(const std::string &k, const std::string &v);
        Op &set(const std::string &k, const char *v) { return set(k, std::string(v)); }
        Op &set(const std::string &k, double v) { return set(k, num(v)); }
        Op &set(const std::string &k, int v) { return set(k, std::to_string(v)); }
        Op &set(const std::string &k, long v) { return set(k, std::to_string(v)); }
        Op &set(const std::string &k, uint64_t v) { return set(k, std::to_string(v)); }
        Op &set(const std::string &k, const V &v) { return set(k, join(v)); }
        Op &add(const std::string &k, const std::string &v)
        {
            kv.emplace_back(k, v);
            return *this;
        }
        void erase(const std::string &k);
        std::vector<std::string> all(const std::string &k) const;
        std::string print() const;
    };
    struct Scenario
    {
        std::string prop;
        std::vector<Op> ops;
        std::string print() const;
        static bool parse(const std::string &text, Scenario &out);
    };

    // With some probability makes a configuration call repeat parts of an earlier one of the same kind on the same
    // controller: users rarely change everything at once, and what stays the same is where stale state hides.
    void reuse(Rng &r, const std::vector<Op> &earlier, Op &o);

    // ---------------------------------------------------------------- report of one execution
    struct Report
    {
        std::vector<std::pair<std::string, std::string>> viol; // class, message
        std::map<std::string, double> cnt;                     // counters (faults fired, probes hit, ...)
        std::map<std::string, double> mx;                      // maxima (oracle margins)
        uint64_t hash = 1469598103934665603ull;                // hash of the whole event log
        uint64_t shape = 1469598103934665603ull;               // hash of the abstract history (coverage measure)
        bool echo = false;                                     // print the event log
        void v(const std::string &cls, const std::string &msg)
        {
            if (viol.size() < 20) viol.emplace_back(cls, msg);
        }
        void c(const std::string &k, double n = 1) { cnt[k] += n; }
        void m(const std::string &k, double v)
        {
            auto it = mx.find(k);
            if (it == mx.end() || v > it->second) mx[k] = v;
        }
        void raw(const void *p, size_t n)
        {
            const unsigned char *b = (const unsigned char *)p;
            for (size_t i = 0; i < n; i++)
            {
                hash ^= b[i];
                hash *= 1099511628211ull;
            }
        }
        void log(const std::string &s)
        {
            raw(s.data(), s.size());
            if (echo)
            {
                fputs(s.c_str(), stdout);
                fputc('\n', stdout);
            }
        }
        void shp(uint64_t x)
        {
            shape ^= x + 0x9E3779B97F4A7C15ull;
            shape *= 1099511628211ull;
        }
    };
    std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

    // ---------------------------------------------------------------- simulated clock
    // Every clock the process can read (std::chrono clocks, gettimeofday, time) is served from here
    // while `active`: `steady` only moves when the simulation says so, `wall` = steady + offset and
    // the offset may jump.
    struct Clock
    {
        bool active = false;
        int64_t steady_ns = 0;
        int64_t wall_off_ns = 1700000000ll * 1000000000ll;
        int64_t tick_ns = 0; // advance per read
        uint64_t reads = 0;
        int64_t total_ns = 0; // simulated time covered over all worlds of a run
        void advance(int64_t ns)
        {
            steady_ns += ns;
            total_ns += ns;
        }
        void reset()
        {
            steady_ns = 5000000000ll;
            wall_off_ns = 1700000000ll * 1000000000ll;
            tick_ns = 0;
            reads = 0;
        }
    };
    extern Clock g_clock;

    // ---------------------------------------------------------------- allocator seam
    // Library windows are marked by LibScope; allocations made inside are tracked (leaks), filled with
    // a seeded garbage pattern (uninitialised reads show up as twin divergence) and may be failed.
    struct Alloc
    {
        bool active = false;
        uint64_t fill = 0x7ff4dead7ff4deadull; // pattern written into fresh memory
        long live = 0;                         // tracked live blocks
        long live_bytes = 0;
        long total = 0;     // tracked allocations so far
        long fail_at = -1;  // fail the n-th (1-based) tracked allocation from now
        long fail_every = 0;
        long failed = 0;
        long wild_free = 0;
    };
    extern Alloc g_alloc;
    extern thread_local int t_in_lib; // >0: executing library code
    extern thread_local int t_zero;   // >0: executing the real solver, whose memory is handed out cleared
    void scrub_stack();               // so that what the real solver leaves unset is the same in every run
    void alloc_forget();              // forget all tracked blocks
    struct LibScope
    {
        int saved;
        LibScope() : saved(t_in_lib) { t_in_lib = 1; }
        ~LibScope() { t_in_lib = saved; }
    };
    struct UserScope
    {
        int saved;
        UserScope() : saved(t_in_lib) { t_in_lib = 0; }
        ~UserScope() { t_in_lib = saved; }
    };
    void paint_stack(uint64_t pattern);

    // ---------------------------------------------------------------- scheduler
    // Simulated caller threads: real threads of which exactly one runs; the baton moves only at
    // sim::yield_point(), and where it moves is decided by the scenario's preemption list.
    struct Preempt
    {
        long at;
        int to;
    };
    struct Sched
    {
        // nested=false: thread switch; nested=true: run the other task's ops inside this stack
        static void run(std::vector<std::function<void()>> tasks, const std::vector<Preempt> &pre);
        static bool running();
        static long yields();
        static int task(); // the caller running, -1 outside of an interleaved run
        static long switches();
        static void meet(long n, long gap); // wait for the others, then take turns every gap of the next n yield points
        static void pass(); // nothing to do at the moment: let another caller go on
    };
    void yield_point();
    extern bool g_alloc_yield, g_fn_yield; // allocations, function entries of the library yield too
    void yield_alloc();
    extern std::function<void()> g_nested_hook; // called at each yield point when set

    // ---------------------------------------------------------------- driver
    struct Engine
    {
        std::function<Scenario(const std::string &prop, uint64_t seed)> gen;
        std::function<void(const Scenario &, Report &)> exec;
    };
    int main_driver(int argc, char **argv, const Engine &e);

    // callback budget: a run exceeding it is reported as no-progress
    extern long g_budget;
    void budget_exceeded();
}
