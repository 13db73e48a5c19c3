// dispatch over element types t0..t(NT-1)
#ifndef DISP_H_
#define DISP_H_
#include "hv.h"
typedef void (*casefn)(const hv::Case &);
inline void dispatch(const hv::Case &c, const std::vector<casefn> &fn) {
    hv::Case r = c;
    int t = r.ops.at(0).i(1);
    r.ops.erase(r.ops.begin());
    hv::tag("type" + std::to_string(t));
    hv::nontriv() = true;
    fn.at(t)(r);
}
#endif
