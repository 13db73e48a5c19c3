#include "hv.h"
#define DECL(n) void runacc_##n(const hv::Case &c);
DECL(t0) DECL(t1) DECL(t2) DECL(t3) DECL(t4)
int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    lattice.setup(hv::size_vector());
    hv::run([](const hv::Case &c) {
        hv::Case r = c;
        std::string t = r.ops.at(0).s(1);
        r.ops.erase(r.ops.begin());
        hv::tag("type" + t);
        hv::nontriv() = true;
        if (t == "0") runacc_t0(r);
        else if (t == "1") runacc_t1(r);
        else if (t == "2") runacc_t2(r);
        else if (t == "3") runacc_t3(r);
        else runacc_t4(r);
    });
    hila::finishrun();
    return 0;
}
