// one explicit instantiation per object file: -DWHICH=<index>, or -DWHICH=99 for the dynamic one
#include "ctl_impl.hpp"
namespace lin
{
#if WHICH == 99
    std::unique_ptr<Ctl> make_dynamic(const Dims &d)
    {
        constexpr int D = Eigen::Dynamic;
        return std::unique_ptr<Ctl>(new CtlT<D, D, D, D, D, D>(d));
    }
    void log_stream(std::ostream *s) { mpc::Logger::instance().setStream(s); }
    void log_level(int l) { mpc::Logger::instance().setLevel((mpc::Logger::log_level)l); }
    void log_prefix(const std::string &p) { mpc::Logger::instance().setPrefix(p); }
    void log_reset() { mpc::Logger::instance().reset(); }
    void log_say(int type, const std::string &t) { mpc::Logger::instance().log((mpc::Logger::log_type)type) << t << "\n"; }
#else
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
    template <int I>
    struct Sel;
#define INST(I, NX, NU, ND, NY, PH, CH)                \
    template <>                                        \
    struct Sel<I>                                      \
    {                                                  \
        using T = CtlT<NX, NU, ND, NY, PH, CH>;        \
    };
#include "menu.def"
    std::unique_ptr<Ctl> CAT(make_static_, WHICH)(const Dims &d) { return std::unique_ptr<Ctl>(new Sel<WHICH>::T(d)); }
#endif
}
