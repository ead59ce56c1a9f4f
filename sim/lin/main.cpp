#include "world.hpp"
namespace lin
{
#define INST(I, NX, NU, ND, NY, PH, CH) std::unique_ptr<Ctl> make_static_##I(const Dims &);
#include "menu.def"
#undef INST
    const std::vector<Dims> &static_menu()
    {
        static const std::vector<Dims> m = {
#define INST(I, NX, NU, ND, NY, PH, CH) Dims{NX, NU, ND, NY, PH, CH},
#include "menu.def"
#undef INST
        };
        return m;
    }
    std::unique_ptr<Ctl> make_static(const Dims &d)
    {
#define INST(I, NX, NU, ND, NY, PH, CH) \
    if (d == Dims{NX, NU, ND, NY, PH, CH}) return make_static_##I(d);
#include "menu.def"
#undef INST
        return nullptr;
    }
}
int main(int argc, char **argv)
{
    sim::Engine e;
    e.gen = lin::prop_gen;
    e.exec = lin::prop_check;
    return sim::main_driver(argc, argv, e);
}
