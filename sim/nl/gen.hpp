#pragma once
#include "world.hpp"
namespace nl
{
    struct GOpt
    {
        double dyn = 0.4, cont = 0.25, nlp = 0.3, scale = 0.3, sb = 0.35, ib = 0.6, tight = 0.3, warm = 0.4, soft = 0.25, ineq = 0.6, eq = 0.4, out = 0.85;
        double rdims = 0.4, obj = 1.0, state = 0.97;
        bool menu_only = false;
        bool convex = false;
    };
    struct Gen
    {
        sim::Rng r;
        Scenario sc;
        double closed = -1; // how likely a step follows its predecessor's prediction exactly
        explicit Gen(const std::string &prop, uint64_t seed) : r(seed) { sc.prop = prop; }
        uint64_t seed() { return r.u64() % 1000003; }
        Op &add(Op o)
        {
            sim::reuse(r, sc.ops, o);
            sc.ops.push_back(std::move(o));
            return sc.ops.back();
        }
        Dims dims(const GOpt &o, bool &dyn);
        Op par(const Dims &d, const GOpt &o, int id);
        Op bounds(const Dims &d, bool state, int id, bool valid_only, double tight);
        Op mbounds(const Dims &d, bool state, int id, double tight);
        Op scaleop(const Dims &d, bool state, int id);
        Op fnop(const char *n, const GOpt &o, int id);
        // full configuration of controller `id` in a random order
        Dims config(const GOpt &o, int id);
        Dims config_for(const Dims &d, bool dyn, const GOpt &o, int id);
        Op step(const Dims &d, int id, double p_stub);
        int len(int a, int b); // length of a history, sometimes a long one
        double sampling_time() { return r.chance(0.2) ? std::round(r.uni(1, 40)) / 1000 : std::round(r.uni(0.05, 0.6) * 100) / 100; }
        V rnd(int n, double a, double b);
        void fault(Op &st, const Dims &d, int id);
    };
}
