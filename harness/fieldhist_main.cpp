#include "hv.h"
#define DECL(n) void runhist_##n(const hv::Case &c);
#ifndef HV_TYPES
#define HV_TYPES DECL(int) DECL(float) DECL(double)
#endif
DECL(t0) DECL(t1) DECL(t2) DECL(t3) DECL(t4)
int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    lattice.setup(hv::size_vector());
    hv::run([](const hv::Case &c) {
        hv::Case r = c;
        std::string t = r.ops.at(0).s(1);
        r.ops.erase(r.ops.begin());
        hv::tag("type" + t);
        hv::nontriv() = true;
        if (t == "0") runhist_t0(r);
        else if (t == "1") runhist_t1(r);
        else if (t == "2") runhist_t2(r);
        else if (t == "3") runhist_t3(r);
        else runhist_t4(r);
    });
    hila::finishrun();
    return 0;
}
