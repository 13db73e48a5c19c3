// serial reference transforms: one component of a field over the whole lattice, x fastest
#ifndef DFT_H_
#define DFT_H_
#include "hv.h"
#include <complex>
namespace dft {
typedef std::complex<double> C;
// sign -1: forward exp(-ikx), +1: backward; over the directions in mask
inline void transform(std::vector<C> &a, const CoordinateVector &sz, int mask, int sign) {
    size_t stride = 1;
    for (int d = 0; d < NDIM; d++) {
        int L = sz[d];
        if (mask >> d & 1) {
            std::vector<C> w(L), t(L);
            for (int k = 0; k < L; k++) w[k] = std::polar(1.0, sign * 2.0 * M_PI * k / L);
            for (size_t b = 0; b < a.size(); b++) {
                if ((b / stride) % L) continue;
                for (int k = 0; k < L; k++) {
                    C s = 0;
                    for (int x = 0; x < L; x++) s += a[b + x * stride] * w[((long)k * x) % L];
                    t[k] = s;
                }
                for (int k = 0; k < L; k++) a[b + k * stride] = t[k];
            }
        }
        stride *= L;
    }
}
inline CoordinateVector mirror(CoordinateVector c, const CoordinateVector &sz, int mask) {
    for (int d = 0; d < NDIM; d++)
        if (mask >> d & 1) c[d] = (sz[d] - c[d]) % sz[d];
    return c;
}
inline void reflect(std::vector<C> &a, const CoordinateVector &sz, int mask) {
    std::vector<C> b(a.size());
    for (size_t i = 0; i < a.size(); i++) b[i] = a[hv::gindex(mirror(hv::gcoord(i, sz), sz, mask), sz)];
    a = b;
}
} // namespace dft
#endif
