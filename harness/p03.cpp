// P03: site ownership, index maps, neighbours, parities
#include "lat.h"

int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    CoordinateVector sz = hv::size_vector();
    lattice.setup(sz);
    hila::seed_random(1);
    hv::run([&](const hv::Case &c) {
        for (auto &o : c.ops) {
            if (o.name() == "scan") lat::scan(sz);
            else if (o.name() == "loops") lat::loops(sz);
            else if (o.name() == "type") lat::typed_n(sz, o.i(1), o.u(2));
            hv::tag(o.name() + (o.n() > 1 ? o.s(1) : ""));
            hv::nontriv() = hila::number_of_nodes() > 1 || lat::volume(sz) > 1;
            if (hv::any_failed()) return;
        }
    });
    hila::finishrun();
    return 0;
}
