#include "bins.h"
int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    lattice.setup(hv::size_vector());
    hv::run([](const hv::Case &c) { bn::runcase(c); });
    hila::finishrun();
    return 0;
}
