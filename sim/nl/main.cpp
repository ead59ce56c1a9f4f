#include "world.hpp"
namespace nl
{
#define INST(I, NX, NU, NY, PH, CH, NI, NE) std::unique_ptr<Ctl> make_static_##I(const Dims &);
#include "menu.def"
#undef INST
    const std::vector<Dims> &static_menu()
    {
        static const std::vector<Dims> m = {
#define INST(I, NX, NU, NY, PH, CH, NI, NE) Dims{NX, NU, NY, PH, CH, NI, NE},
#include "menu.def"
#undef INST
        };
        return m;
    }
    std::unique_ptr<Ctl> make_static(const Dims &d)
    {
#define INST(I, NX, NU, NY, PH, CH, NI, NE) \
    if (d == Dims{NX, NU, NY, PH, CH, NI, NE}) return make_static_##I(d);
#include "menu.def"
#undef INST
        return nullptr;
    }
}
int main(int argc, char **argv)
{
    std::string why;
    if (!nl::seam_selfcheck(why))
    {
        fprintf(stderr, "solver seam: %s\n", why.c_str());
        return 3;
    }
    sim::Engine e;
    e.gen = nl::prop_gen;
    e.exec = nl::prop_check;
    return sim::main_driver(argc, argv, e);
}
