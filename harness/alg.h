// P12, P13: operations evaluated on fields against reference arithmetic
#ifndef ALG_H_
#define ALG_H_
#include "ref.h"
namespace alg {
struct Base {
    size_t n = lattice->mynode.volume;
    rf::L eps = 0;
    template <typename RT>
    void check(const char *name, const std::vector<RT> &res, double tol, rf::L least, const std::function<rf::M(size_t)> &ref) {
        for (size_t i = 0; i < n && !hv::failed(); i++) {
            std::string why;
            rf::L e = std::is_integral<hila::arithmetic_type<RT>>::value ? 0.0L : std::max(std::max(eps, least), rf::epsof<hila::arithmetic_type<RT>>());
            if (!rf::close(rf::R(res[i]), ref(i), e * tol, why)) hv::fail("%s at site %d: %s", name, (int)i, why.c_str());
        }
    }
};
template <typename T>
void load(Field<T> &f, std::vector<T> &v, size_t n, uint64_t seed, int kind) {
    hv::Rng r(hv::mix(seed, (uint64_t)hila::myrank()));
    f.check_alloc();
    v.resize(n);
    for (size_t i = 0; i < n; i++) {
        rf::draw(v[i], r, kind);
        f.set_value_at(v[i], i);
    }
    f.mark_changed(ALL);
}
template <typename G, typename O>
void run(const hv::Case &c, G &g, O ops, int nops) {
    for (auto &o : c.ops) {
        hv::where() = o.name();
        if (o.name() == "load") g.load(o.i(1), o.i(2));
        else if (o.name() == "op") ops[o.i(1) % nops](g);
        if (hv::any_failed()) return;
    }
}
} // namespace alg
#endif
