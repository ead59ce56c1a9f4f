#include "core.hpp"
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <mutex>
#include <set>
#include <sstream>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <thread>
#include <unistd.h>
#include <poll.h>

namespace sim
{
    Clock g_clock;
    Alloc g_alloc;
    thread_local int t_in_lib = 0;
    thread_local int t_zero = 0;
    __attribute__((noinline)) void scrub_stack()
    {
        volatile char b[1 << 16];
        for (size_t i = 0; i < sizeof b; i += 1) b[i] = 0;
    }
    long g_budget = 0;
    std::function<void()> g_nested_hook;

    // ------------------------------------------------------------ text
    std::string fmt(const char *f, ...)
    {
        char buf[2048];
        va_list ap;
        va_start(ap, f);
        vsnprintf(buf, sizeof buf, f, ap);
        va_end(ap);
        return buf;
    }
    std::string num(double v)
    {
        if (v != v) return "nan";
        if (v == HUGE_VAL) return "inf";
        if (v == -HUGE_VAL) return "-inf";
        char b[40];
        for (int p = 1; p <= 17; p++)
        {
            snprintf(b, sizeof b, "%.*g", p, v);
            if (strtod(b, nullptr) == v) break;
        }
        return b;
    }
    double parse_num(const std::string &s)
    {
        if (s == "nan") return NAN;
        if (s == "inf") return HUGE_VAL;
        if (s == "-inf") return -HUGE_VAL;
        return strtod(s.c_str(), nullptr);
    }
    std::string join(const V &v)
    {
        std::string s;
        for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + num(v[i]);
        return s;
    }
    bool Op::has(const std::string &k) const
    {
        for (auto &p : kv)
            if (p.first == k) return true;
        return false;
    }
    std::string Op::str(const std::string &k, const std::string &def) const
    {
        for (auto &p : kv)
            if (p.first == k) return p.second;
        return def;
    }
    double Op::d(const std::string &k, double def) const { return has(k) ? parse_num(str(k)) : def; }
    long Op::i(const std::string &k, long def) const { return has(k) ? strtol(str(k).c_str(), nullptr, 10) : def; }
    uint64_t Op::u(const std::string &k, uint64_t def) const { return has(k) ? strtoull(str(k).c_str(), nullptr, 10) : def; }
    V Op::vec(const std::string &k) const
    {
        V r;
        std::string s = str(k);
        if (s.empty()) return r;
        std::stringstream ss(s);
        std::string t;
        while (std::getline(ss, t, ',')) r.push_back(parse_num(t));
        return r;
    }
    Op &Op::set(const std::string &k, const std::string &v)
    {
        for (auto &p : kv)
            if (p.first == k)
            {
                p.second = v;
                return *this;
            }
        kv.emplace_back(k, v);
        return *this;
    }
    void Op::erase(const std::string &k)
    {
        std::vector<std::pair<std::string, std::string>> n;
        for (auto &p : kv)
            if (p.first != k) n.push_back(p);
        kv = n;
    }
    std::vector<std::string> Op::all(const std::string &k) const
    {
        std::vector<std::string> r;
        for (auto &p : kv)
            if (p.first == k) r.push_back(p.second);
        return r;
    }
    std::string Op::print() const
    {
        std::string s = name;
        for (auto &p : kv) s += " " + p.first + "=" + p.second;
        return s;
    }
    std::string Scenario::print() const
    {
        std::string s = "prop " + prop + "\n";
        for (auto &o : ops) s += o.print() + "\n";
        return s;
    }
    bool Scenario::parse(const std::string &text, Scenario &out)
    {
        std::stringstream ss(text);
        std::string line;
        out = Scenario();
        while (std::getline(ss, line))
        {
            if (line.empty() || line[0] == '#') continue;
            std::stringstream ls(line);
            std::string w;
            ls >> w;
            if (w == "prop")
            {
                ls >> out.prop;
                continue;
            }
            Op o(w);
            while (ls >> w)
            {
                auto p = w.find('=');
                if (p == std::string::npos) return false;
                o.kv.emplace_back(w.substr(0, p), w.substr(p + 1));
            }
            out.ops.push_back(o);
        }
        return !out.prop.empty();
    }

    // ------------------------------------------------------------ stack paint
    __attribute__((noinline)) void paint_stack(uint64_t pattern)
    {
        volatile uint64_t buf[24 * 1024];
        for (size_t i = 0; i < 24 * 1024; i++) buf[i] = pattern;
        __asm__ volatile("" ::"r"(buf) : "memory");
    }

    // ------------------------------------------------------------ allocator bookkeeping
    // open addressing set of tracked pointers -> size; static storage, no allocation
    static const size_t HN = 1u << 17;
    static void *h_ptr[HN];
    static size_t h_sz[HN];
    static const void *TOMB = (void *)1;
    static size_t h_used = 0;
    static std::vector<int> *dummy_unused = nullptr;
    static inline size_t hh(void *p)
    {
        uint64_t x = (uint64_t)p >> 4;
        x *= 0x9E3779B97F4A7C15ull;
        return (size_t)(x >> 40) & (HN - 1);
    }
    static void track(void *p, size_t n)
    {
        (void)dummy_unused;
        if (h_used > HN / 2)
        { // too many tombstones: rehash in place is not worth it, rebuild
            static void *tp[HN / 2];
            static size_t ts[HN / 2];
            size_t k = 0;
            for (size_t i = 0; i < HN; i++)
            {
                if (h_ptr[i] && h_ptr[i] != TOMB && k < HN / 2)
                {
                    tp[k] = h_ptr[i];
                    ts[k++] = h_sz[i];
                }
                h_ptr[i] = nullptr;
            }
            h_used = 0;
            for (size_t i = 0; i < k; i++)
            {
                size_t j = hh(tp[i]);
                while (h_ptr[j]) j = (j + 1) & (HN - 1);
                h_ptr[j] = tp[i];
                h_sz[j] = ts[i];
                h_used++;
            }
        }
        size_t j = hh(p);
        while (h_ptr[j] && h_ptr[j] != TOMB) j = (j + 1) & (HN - 1);
        if (!h_ptr[j]) h_used++;
        h_ptr[j] = p;
        h_sz[j] = n;
        g_alloc.live++;
        g_alloc.live_bytes += (long)n;
        g_alloc.total++;
    }
    static void untrack(void *p)
    {
        if (g_alloc.live == 0) return;
        size_t j = hh(p);
        while (h_ptr[j])
        {
            if (h_ptr[j] == p)
            {
                h_ptr[j] = (void *)TOMB;
                g_alloc.live--;
                g_alloc.live_bytes -= (long)h_sz[j];
                return;
            }
            j = (j + 1) & (HN - 1);
        }
    }
    void alloc_forget()
    {
        memset(h_ptr, 0, sizeof h_ptr);
        h_used = 0;
        g_alloc.live = g_alloc.live_bytes = 0;
    }
    static bool should_fail()
    {
        if (g_alloc.fail_at > 0 && --g_alloc.fail_at == 0)
        {
            g_alloc.fail_at = -1;
            g_alloc.failed++;
            return true;
        }
        return false;
    }
    static inline void garbage(void *p, size_t n)
    {
        uint64_t f = g_alloc.fill;
        unsigned char *b = (unsigned char *)p;
        size_t i = 0;
        for (; i + 8 <= n; i += 8) memcpy(b + i, &f, 8);
        if (i < n) memcpy(b + i, &f, n - i);
    }
}

extern "C"
{
    void *__libc_malloc(size_t);
    void __libc_free(void *);
    void *__libc_calloc(size_t, size_t);
    void *__libc_realloc(void *, size_t);
    void *__libc_memalign(size_t, size_t);

#define TRACKED (__builtin_expect(sim::g_alloc.active && sim::t_in_lib > 0, 0))
// in the interleaved runs which ask for it, every allocation of the library is a place to be preempted
#define ALLOC_YIELD() \
    if (__builtin_expect(sim::g_alloc_yield && sim::t_in_lib > 0, 0)) sim::yield_alloc()
    void *malloc(size_t n)
    {
        ALLOC_YIELD();
        if (TRACKED)
        {
            if (sim::should_fail())
            {
                errno = ENOMEM;
                return nullptr;
            }
            void *p = __libc_malloc(n);
            if (p)
            {
                sim::garbage(p, n);
                sim::track(p, n);
            }
            return p;
        }
        void *p = __libc_malloc(n);
        if (__builtin_expect(sim::t_zero > 0, 0) && p) memset(p, 0, n);
        return p;
    }
    void free(void *p)
    {
        if (p && sim::g_alloc.live > 0) sim::untrack(p);
        __libc_free(p);
    }
    void *calloc(size_t a, size_t b)
    {
        ALLOC_YIELD();
        if (TRACKED)
        {
            if (sim::should_fail())
            {
                errno = ENOMEM;
                return nullptr;
            }
            void *p = __libc_calloc(a, b);
            if (p) sim::track(p, a * b);
            return p;
        }
        return __libc_calloc(a, b);
    }
    void *realloc(void *p, size_t n)
    {
        ALLOC_YIELD();
        if (TRACKED)
        {
            if (sim::should_fail())
            {
                errno = ENOMEM;
                return nullptr;
            }
            if (p) sim::untrack(p);
            void *q = __libc_realloc(p, n);
            if (q) sim::track(q, n);
            return q;
        }
        if (p && sim::g_alloc.live > 0) sim::untrack(p);
        return __libc_realloc(p, n);
    }
    static void *al(size_t a, size_t n)
    {
        ALLOC_YIELD();
        if (TRACKED)
        {
            if (sim::should_fail()) return nullptr;
            void *p = __libc_memalign(a, n);
            if (p)
            {
                sim::garbage(p, n);
                sim::track(p, n);
            }
            return p;
        }
        return __libc_memalign(a, n);
    }
    void *memalign(size_t a, size_t n) { return al(a, n); }
    void *aligned_alloc(size_t a, size_t n) { return al(a, n); }
    int posix_memalign(void **o, size_t a, size_t n)
    {
        void *p = al(a, n);
        if (!p) return ENOMEM;
        *o = p;
        return 0;
    }

    // -------------------------------------------------------- clock seam
    int clock_gettime(clockid_t id, struct timespec *ts)
    {
        if (!sim::g_clock.active) return (int)syscall(SYS_clock_gettime, id, ts);
        sim::g_clock.reads++;
        sim::g_clock.steady_ns += sim::g_clock.tick_ns;
        int64_t t = sim::g_clock.steady_ns;
        if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI) t += sim::g_clock.wall_off_ns;
        ts->tv_sec = t / 1000000000ll;
        ts->tv_nsec = t % 1000000000ll;
        return 0;
    }
    int gettimeofday(struct timeval *tv, void *)
    {
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        if (tv)
        {
            tv->tv_sec = ts.tv_sec;
            tv->tv_usec = ts.tv_nsec / 1000;
        }
        return 0;
    }
    time_t time(time_t *o)
    {
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        if (o) *o = ts.tv_sec;
        return ts.tv_sec;
    }
}

// ---------------------------------------------------- function seam
// The controllers are compiled with -finstrument-functions: in the interleaved runs which ask for it
// a caller is preempted at the entry of any of their functions.
extern "C"
{
    __attribute__((no_instrument_function)) void __cyg_profile_func_enter(void *, void *)
    {
        if (__builtin_expect(sim::g_fn_yield && sim::t_in_lib > 0, 0)) sim::yield_alloc();
    }
    __attribute__((no_instrument_function)) void __cyg_profile_func_exit(void *, void *) {}
}

// -------------------------------------------------------- lock seam
// A caller which finds a mutex taken by a preempted one lets the others go on until it is free:
// without this the whole interleaved run would stand still.
namespace sim
{
    bool sched_mutex(const void *m);
    bool sched_member();
    void held(int d);
}
typedef int (*mutex_fn)(pthread_mutex_t *);
typedef int (*guard_fn)(void *);
typedef void (*guard_end_fn)(void *);
template <typename F>
static F next_fn(const char *name)
{
    return (F)dlsym(RTLD_NEXT, name);
}
extern "C"
{
    int pthread_mutex_lock(pthread_mutex_t *m)
    {
        static mutex_fn lock, trylock; // constant-initialised: no guard
        if (!lock) trylock = next_fn<mutex_fn>("pthread_mutex_trylock"), lock = next_fn<mutex_fn>("pthread_mutex_lock");
        if (sim::sched_mutex(m)) return lock(m);
        if (sim::sched_member())
        {
            int rc;
            while ((rc = trylock(m)) == EBUSY) sim::Sched::pass();
            if (rc == 0) sim::held(1);
            return rc;
        }
        int rc = lock(m);
        if (rc == 0) sim::held(1);
        return rc;
    }
    int pthread_mutex_unlock(pthread_mutex_t *m)
    {
        static mutex_fn unlock;
        if (!unlock) unlock = next_fn<mutex_fn>("pthread_mutex_unlock");
        if (!sim::sched_mutex(m)) sim::held(-1);
        return unlock(m);
    }
    typedef int (*rw_fn)(pthread_rwlock_t *);
    static int rw(pthread_rwlock_t *m, rw_fn lock, rw_fn trylock)
    {
        int rc;
        if (sim::sched_member())
            while ((rc = trylock(m)) == EBUSY) sim::Sched::pass();
        else
            rc = lock(m);
        if (rc == 0) sim::held(1);
        return rc;
    }
    int pthread_rwlock_rdlock(pthread_rwlock_t *m)
    {
        static rw_fn a, b;
        if (!a) b = next_fn<rw_fn>("pthread_rwlock_tryrdlock"), a = next_fn<rw_fn>("pthread_rwlock_rdlock");
        return rw(m, a, b);
    }
    int pthread_rwlock_wrlock(pthread_rwlock_t *m)
    {
        static rw_fn a, b;
        if (!a) b = next_fn<rw_fn>("pthread_rwlock_trywrlock"), a = next_fn<rw_fn>("pthread_rwlock_wrlock");
        return rw(m, a, b);
    }
    int pthread_rwlock_unlock(pthread_rwlock_t *m)
    {
        static rw_fn a;
        if (!a) a = next_fn<rw_fn>("pthread_rwlock_unlock");
        sim::held(-1);
        return a(m);
    }
    int __cxa_guard_acquire(void *g)
    {
        static guard_fn f;
        if (!f) f = next_fn<guard_fn>("__cxa_guard_acquire");
        int r = f(g);
        if (r) sim::held(1);
        return r;
    }
    void __cxa_guard_release(void *g)
    {
        static guard_end_fn f;
        if (!f) f = next_fn<guard_end_fn>("__cxa_guard_release");
        sim::held(-1);
        f(g);
    }
    void __cxa_guard_abort(void *g)
    {
        static guard_end_fn f;
        if (!f) f = next_fn<guard_end_fn>("__cxa_guard_abort");
        sim::held(-1);
        f(g);
    }
}

namespace sim
{
    // ------------------------------------------------------------ scheduler
    struct SchedState
    {
        std::mutex m;
        std::condition_variable cv;
        int current = -1;
        std::vector<bool> done;
        std::vector<Preempt> pre;
        size_t next = 0;
        long n = 0, sw = 0;
        long dense = 0, gap = 1; // yield points left at which the callers take turns, and how often
        bool on = false;
    };
    static SchedState S;
    static thread_local int t_task = -1;
    // locks (mutexes, guards of static variables) the caller holds: not preempted by an allocation meanwhile
    static thread_local int t_held = 0;
    bool g_alloc_yield = false, g_fn_yield = false;
    void yield_alloc()
    {
        if (t_held == 0 && S.on && t_task >= 0 && !g_nested_hook) yield_point();
    }
    bool sched_mutex(const void *m) { return m == (const void *)S.m.native_handle(); }
    bool sched_member() { return S.on && t_task >= 0; }
    void held(int d) { t_held = t_held + d < 0 ? 0 : t_held + d; }
    bool Sched::running() { return S.on; }
    long Sched::yields() { return S.n; }
    int Sched::task() { return t_task; }
    long Sched::switches() { return S.sw; }
    static void hand_over(std::unique_lock<std::mutex> &lk, int to)
    {
        S.current = to;
        S.sw++;
        S.cv.notify_all();
        (void)lk;
    }
    void yield_point()
    {
        if (g_nested_hook)
        {
            if (t_held > 0) return; // nothing can be nested where a lock is held
            UserScope us;
            g_nested_hook();
            return;
        }
        if (!S.on || t_task < 0) return;
        UserScope us;
        std::unique_lock<std::mutex> lk(S.m);
        S.n++;
        int to = -1;
        while (S.next < S.pre.size() && S.pre[S.next].at <= S.n)
        {
            to = S.pre[S.next].to;
            S.next++;
        }
        if (to < 0 && S.dense > 0 && --S.dense % S.gap == 0)
            for (int k = 1, nt = (int)S.done.size(); k < nt && to < 0; k++)
                if (!S.done[(size_t)((t_task + k) % nt)]) to = (t_task + k) % nt;
        if (to < 0 || to >= (int)S.done.size() || S.done[to] || to == t_task) return;
        hand_over(lk, to);
        int me = t_task;
        S.cv.wait(lk, [&]
                  { return S.current == me; });
    }
    void Sched::meet(long n, long gap)
    {
        if (!S.on || t_task < 0) return;
        pass();
        S.dense = n, S.gap = gap > 0 ? gap : 1;
    }
    void Sched::pass()
    {
        if (!S.on || t_task < 0) return;
        UserScope us;
        std::unique_lock<std::mutex> lk(S.m);
        int me = t_task, n = (int)S.done.size();
        for (int k = 1; k < n; k++)
        {
            int to = (me + k) % n;
            if (S.done[(size_t)to]) continue;
            hand_over(lk, to);
            S.cv.wait(lk, [&]
                      { return S.current == me; });
            return;
        }
    }
    void Sched::run(std::vector<std::function<void()>> tasks, const std::vector<Preempt> &pre)
    {
        S.done.assign(tasks.size(), false);
        S.pre = pre;
        S.next = 0;
        S.n = S.sw = S.dense = 0;
        S.current = 0;
        S.on = true;
        std::vector<std::thread> th;
        for (size_t k = 0; k < tasks.size(); k++)
        {
            th.emplace_back([k, &tasks]()
                            {
                t_task = (int)k;
                {
                    std::unique_lock<std::mutex> lk(S.m);
                    S.cv.wait(lk, [&] { return S.current == (int)k; });
                }
                tasks[k]();
                std::unique_lock<std::mutex> lk(S.m);
                S.done[k] = true;
                t_task = -1;
                for (size_t j = 0; j < S.done.size(); j++)
                    if (!S.done[j]) { hand_over(lk, (int)j); return; }
                S.current = -2;
                S.cv.notify_all(); });
        }
        for (auto &t : th) t.join();
        S.on = false;
    }

    void budget_exceeded()
    {
        // reported by the parent as class no-progress
        _exit(77);
    }

    // ------------------------------------------------------------ driver
    static double real_now()
    {
        struct timespec ts;
        syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
        return ts.tv_sec + 1e-9 * ts.tv_nsec;
    }
    static std::string pack(const Report &r)
    {
        std::string s;
        for (auto &v : r.viol)
        {
            std::string m = v.second;
            for (auto &c : m)
                if (c == '\n') c = ' ';
            s += "V " + v.first + " " + m + "\n";
        }
        for (auto &c : r.cnt) s += "C " + c.first + " " + num(c.second) + "\n";
        for (auto &c : r.mx) s += "M " + c.first + " " + num(c.second) + "\n";
        s += fmt("H %016llx %016llx\n", (unsigned long long)r.hash, (unsigned long long)r.shape);
        s += fmt("T %lld\n", (long long)g_clock.total_ns);
        s += "END\n";
        return s;
    }
    struct ChildRes
    {
        std::vector<std::pair<std::string, std::string>> viol;
        std::map<std::string, double> cnt, mx;
        uint64_t hash = 0, shape = 0;
        double sim_s = 0;
        bool ok = false; // completed
    };
    static ChildRes run_child(const Engine &e, const Scenario &sc, double limit_s)
    {
        int fd[2];
        if (pipe(fd)) exit(3);
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0)
        {
            close(fd[0]);
            struct rlimit rl = {0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            int dn = open("/dev/null", O_WRONLY);
            if (dn >= 0)
            {
                dup2(dn, 1);
                dup2(dn, 2);
            }
            Report r;
            e.exec(sc, r);
            g_clock.active = false;
            std::string s = pack(r);
            size_t o = 0;
            while (o < s.size())
            {
                ssize_t w = write(fd[1], s.data() + o, s.size() - o);
                if (w <= 0) break;
                o += (size_t)w;
            }
            _exit(0);
        }
        close(fd[1]);
        std::string buf;
        char tmp[65536];
        double t0 = real_now();
        bool killed = false;
        for (;;)
        {
            struct pollfd pf = {fd[0], POLLIN, 0};
            int pr = poll(&pf, 1, 500);
            if (pr > 0)
            {
                ssize_t n = read(fd[0], tmp, sizeof tmp);
                if (n <= 0) break;
                buf.append(tmp, (size_t)n);
            }
            if (real_now() - t0 > limit_s && !killed)
            {
                kill(pid, SIGKILL);
                killed = true;
            }
        }
        close(fd[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        ChildRes c;
        std::stringstream ss(buf);
        std::string line;
        while (std::getline(ss, line))
        {
            std::stringstream ls(line);
            std::string k;
            ls >> k;
            if (k == "V")
            {
                std::string cls, msg;
                ls >> cls;
                std::getline(ls, msg);
                c.viol.emplace_back(cls, msg);
            }
            else if (k == "C" || k == "M")
            {
                std::string n, v;
                ls >> n >> v;
                (k == "C" ? c.cnt : c.mx)[n] = parse_num(v);
            }
            else if (k == "H")
            {
                std::string a, b;
                ls >> a >> b;
                c.hash = strtoull(a.c_str(), nullptr, 16);
                c.shape = strtoull(b.c_str(), nullptr, 16);
            }
            else if (k == "T")
            {
                double t;
                ls >> t;
                c.sim_s = t * 1e-9;
            }
            else if (k == "END")
                c.ok = true;
        }
        if (!c.ok)
        {
            if (killed)
                c.viol.emplace_back("hang", "run did not finish within the real-time limit");
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 77)
                c.viol.emplace_back("no-progress", "step exceeded its callback budget without terminating");
            else if (WIFSIGNALED(st))
                c.viol.emplace_back("crash", fmt("process died of signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))));
            else
                c.viol.emplace_back("crash", fmt("process exited with code %d in the middle of a run", WEXITSTATUS(st)));
            c.hash = mix(0xC0FFEE, (uint64_t)(WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)));
        }
        return c;
    }
    static std::string slurp(const std::string &f)
    {
        std::ifstream i(f);
        std::stringstream s;
        s << i.rdbuf();
        return s.str();
    }
    static std::string jstr(const std::string &s)
    {
        std::string o = "\"";
        for (char c : s)
        {
            if (c == '"' || c == '\\') { o += '\\'; o += c; }
            else if (c == '\n') o += "\\n";
            else if ((unsigned char)c < 32) o += ' ';
            else o += c;
        }
        return o + "\"";
    }

    int main_driver(int argc, char **argv, const Engine &e)
    {
        std::string cmd = argc > 1 ? argv[1] : "";
        if (cmd == "gen" && argc >= 4)
        {
            Scenario s = e.gen(argv[2], strtoull(argv[3], nullptr, 10));
            fputs(s.print().c_str(), stdout);
            return 0;
        }
        if ((cmd == "exec" || cmd == "trace") && argc >= 3)
        {
            Scenario s;
            if (!Scenario::parse(slurp(argv[2]), s))
            {
                fprintf(stderr, "bad scenario file\n");
                return 3;
            }
            if (cmd == "trace")
            {
                Report r;
                r.echo = true;
                e.exec(s, r);
                g_clock.active = false;
                fputs(pack(r).c_str(), stdout);
                return r.viol.empty() ? 0 : 1;
            }
            ChildRes c = run_child(e, s, 120);
            for (auto &v : c.viol) printf("VIOL %s %s\n", v.first.c_str(), v.second.c_str());
            printf("HASH %016llx\n", (unsigned long long)c.hash);
            return c.viol.empty() ? 0 : 1;
        }
        if (cmd == "run" && argc >= 9)
        {
            // run PROP SEED OFFSET STRIDE SECONDS MAXRUNS OUTPREFIX
            std::string prop = argv[2];
            uint64_t seed = strtoull(argv[3], nullptr, 10);
            long off = atol(argv[4]), stride = atol(argv[5]);
            double secs = atof(argv[6]);
            long maxruns = atol(argv[7]);
            std::string out = argv[8];
            // classes of known findings (argv[9], comma separated): reported once, never in the way of others
            std::set<std::string> known;
            {
                std::stringstream ks(argc > 9 ? argv[9] : "");
                for (std::string w; std::getline(ks, w, ',');)
                    if (!w.empty()) known.insert(w);
            }
            double t0 = real_now();
            long runs = 0;
            std::map<std::string, double> cnt, mx;
            std::set<uint64_t> shapes;
            double sim_s = 0;
            std::set<std::string> classes;
            std::string viols;
            std::string samples;
            uint64_t allhash = 0;
            int nv = 0, nknown = 0;
            for (long k = off; runs < maxruns && real_now() - t0 < secs && nv - nknown < 3; k += stride)
            {
                uint64_t sd = mix(mix(seed, 0x5151), (uint64_t)k);
                Scenario s = e.gen(prop, sd);
                double began = real_now();
                ChildRes c = run_child(e, s, 120);
                mx["slowest_run_s"] = std::max(mx["slowest_run_s"], real_now() - began);
                runs++;
                for (auto &p : c.cnt) cnt[p.first] += p.second;
                for (auto &p : c.mx)
                {
                    auto it = mx.find(p.first);
                    if (it == mx.end() || p.second > it->second) mx[p.first] = p.second;
                }
                shapes.insert(c.shape);
                sim_s += c.sim_s;
                allhash = mix(allhash, c.hash);
                if (runs <= 1) samples += (samples.empty() ? "" : ",") + jstr(s.print());
                if (!c.viol.empty())
                {
                    size_t vi = 0;
                    while (vi + 1 < c.viol.size() && known.count(c.viol[vi].first)) vi++;
                    std::string cls = c.viol[vi].first;
                    bool isknown = known.count(cls) > 0;
                    if (classes.insert(cls).second)
                    {
                        std::string fn = out + fmt(".v%d.scn", nv);
                        std::ofstream(fn) << s.print();
                        viols += (viols.empty() ? "" : ",") + std::string("{\"file\":") + jstr(fn) + ",\"seed\":\"" +
                                 std::to_string(sd) + "\",\"index\":" + std::to_string(k) + ",\"class\":" + jstr(cls) +
                                 ",\"msg\":" + jstr(c.viol[vi].second) + ",\"hash\":\"" + fmt("%016llx", (unsigned long long)c.hash) + "\"}";
                        nv++;
                        nknown += isknown;
                    }
                    if (isknown)
                    {
                        cnt["known_finding_runs"] += 1;
                        continue;
                    }
                    cnt["violating_runs"] += 1;
                    if (cnt["violating_runs"] > 40) break;
                }
            }
            double wall = real_now() - t0;
            std::string js = "{\"runs\":" + std::to_string(runs) + ",\"wall\":" + num(wall) + ",\"sim_s\":" + num(sim_s) +
                             ",\"allhash\":\"" + fmt("%016llx", (unsigned long long)allhash) + "\",\"counters\":{";
            bool first = true;
            for (auto &p : cnt)
            {
                js += (first ? "" : ",") + jstr(p.first) + ":" + num(p.second);
                first = false;
            }
            js += "},\"maxima\":{";
            first = true;
            for (auto &p : mx)
            {
                js += (first ? "" : ",") + jstr(p.first) + ":" + (std::isfinite(p.second) ? num(p.second) : jstr(num(p.second)));
                first = false;
            }
            js += "},\"shapes\":[";
            first = true;
            for (auto x : shapes)
            {
                js += (first ? "\"" : ",\"") + fmt("%llx", (unsigned long long)x) + "\"";
                first = false;
            }
            js += "],\"violations\":[" + viols + "],\"samples\":[" + samples + "]}\n";
            std::ofstream(out + ".json") << js;
            return 0;
        }
        fprintf(stderr, "usage: gen PROP SEED | exec FILE | trace FILE | run PROP SEED OFFSET STRIDE SECONDS MAXRUNS OUT\n");
        return 3;
    }

    static std::vector<std::string> split(const std::string &s)
    {
        std::vector<std::string> out(1);
        for (char c : s)
            if (c == ',') out.emplace_back();
            else out.back() += c;
        return out;
    }
    void reuse(Rng &r, const std::vector<Op> &earlier, Op &o)
    {
        static const char *const kinds[] = {"model", "obj", "out", "ineq", "eq", "par", "xb", "ub", "yb", "xbm", "ubm", "ybm", "sx", "su", "ts",
                                            "dist", "exo", "exom", "ref", "refm", "w", "wm", "sc", "sci", "cons"};
        bool known = false;
        for (auto k : kinds) known = known || o.name == k;
        if (!known || !r.chance(0.2)) return;
        for (size_t i = earlier.size(); i > 0; i--)
        {
            const Op &q = earlier[i - 1];
            if (q.name != o.name || q.i("c") != o.i("c")) continue;
            if (o.name == "par")
            {
                Op n = q;
                for (auto &kv : o.kv)
                    if (kv.first == "warm" || kv.first == "hard" || r.chance(0.25)) n.set(kv.first, kv.second);
                o = n;
                return;
            }
            if (q.kv.size() != o.kv.size()) return;
            for (auto &kv : q.kv)
                if (!o.has(kv.first)) return;
            // limits stay in pairs (lo/hi, xl/xh, ...), so do the ends of a slice
            std::map<std::string, std::pair<int, uint64_t>> keep;
            for (auto &kv : q.kv)
            {
                std::string g = kv.first;
                if (g == "b") g = "a";
                if (g == "hi") g = "lo";
                if (g.size() == 2 && g[1] == 'h') g[1] = 'l';
                // the whole of it, some of its components, or almost the same
                auto it = keep.find(g);
                if (it == keep.end()) it = keep.emplace(g, std::make_pair(r.chance(0.5) ? 0 : r.below(8), r.u64())).first;
                const std::string now = o.str(kv.first);
                if (it->second.first == 0) o.set(kv.first, kv.second);
                else if (it->second.first == 1 || it->second.first == 2)
                {
                    static const char *const real[] = {"v", "lo", "hi", "x", "u", "y", "du", "xl", "xh", "yl", "yh", "ul", "uh", "tol"};
                    bool is_real = false;
                    for (auto k : real) is_real = is_real || kv.first == k;
                    auto a = split(kv.second), b = split(now);
                    if (!is_real || a.size() != b.size()) continue;
                    Rng m(it->second.second);
                    std::string out;
                    for (size_t k = 0; k < a.size(); k++)
                    {
                        std::string e = a[k];
                        if (it->second.first == 1) e = m.chance(0.5) ? a[k] : b[k];
                        else if (m.chance(0.5))
                        {
                            char *end = nullptr;
                            double v = strtod(e.c_str(), &end);
                            double d = std::fabs(v) * (m.chance(0.5) ? 0.01 : 0.001);
                            bool low = kv.first == "lo" || (kv.first.size() == 2 && kv.first[1] == 'l');
                            if (!*end && std::isfinite(v)) e = fmt("%.10g", low ? v - d : v + d);
                        }
                        out += (k ? "," : "") + e;
                    }
                    o.set(kv.first, out);
                }
            }
            return;
        }
    }
}
