// Global access to fields: single elements, lists, slices, boxes, local data, shifts and reflections (P05).
#ifndef ACCESS_H_
#define ACCESS_H_
#include "hv.h"

namespace ac {
using hv::Case;
using hv::Op;

template <typename T>
struct Acc {
    static constexpr int N = hv::El<T>::N;
    Field<T> f, g;
    std::vector<int> m, mg;
    CoordinateVector sz;
    size_t V;
    std::vector<CoordinateVector> loc;

    Acc() {
        sz = hv::size_vector();
        V = 1;
        for (int d = 0; d < NDIM; d++) V *= sz[d];
        m.assign(V * N, 0);
        mg.assign(V * N, 0);
        for (size_t i = 0; i < (size_t)lattice->mynode.volume; i++) loc.push_back(lattice->coordinates(i));
    }
    T el(const std::vector<int> &mm, const CoordinateVector &c) { return hv::from_ints<T>(&mm[hv::gindex(c, sz) * N]); }
    void cmpf(const Field<T> &fld, const std::vector<int> &mm, const char *what) {
        for (size_t i = 0; i < loc.size(); i++) {
            T want = el(mm, loc[i]), got = fld.get_value_at(i);
            if (!hv::same<T>(want, got)) {
                hv::fail("%s: field at %s is %s, expected %s", what, hv::cstr(loc[i]).c_str(), hv::estr<T>(got).c_str(),
                         hv::estr<T>(want).c_str());
                return;
            }
        }
    }
    void cmpv(const std::vector<T> &v, const std::vector<CoordinateVector> &cl, bool have, const char *what) {
        if (!have) return;
        if (v.size() != cl.size()) {
            hv::fail("%s: %zu elements instead of %zu", what, v.size(), cl.size());
            return;
        }
        for (size_t i = 0; i < cl.size(); i++)
            if (!hv::same<T>(v[i], el(m, cl[i]))) {
                hv::fail("%s: element %zu (coordinate %s) is %s, expected %s", what, i, hv::cstr(cl[i]).c_str(),
                         hv::estr<T>(v[i]).c_str(), hv::estr<T>(el(m, cl[i])).c_str());
                return;
            }
    }
    T tval(uint64_t seed) {
        int v[N];
        for (int k = 0; k < N; k++) v[k] = hv::ival(seed, k, 9);
        return hv::from_ints<T>(v);
    }
    CoordinateVector cv(const Op &o, int k) {
        CoordinateVector c;
        for (int d = 0; d < NDIM; d++) c[d] = o.i(k + d);
        return c;
    }
    std::vector<CoordinateVector> sorted_local() {
        auto r = loc;
        CoordinateVector s = sz;
        std::sort(r.begin(), r.end(), [s](const CoordinateVector &a, const CoordinateVector &b) {
            return hv::gindex(a, s) < hv::gindex(b, s);
        });
        return r;
    }
    std::vector<CoordinateVector> box(const CoordinateVector &a, const CoordinateVector &b) {
        std::vector<CoordinateVector> r;
        for (size_t i = 0; i < V; i++) {
            CoordinateVector c = hv::gcoord(i, sz);
            bool in = true;
            for (int d = 0; d < NDIM; d++) in = in && c[d] >= a[d] && c[d] <= b[d];
            if (in) r.push_back(c);
        }
        return r;
    }

    void load(uint64_t seed) {
        for (size_t i = 0; i < V * N; i++) m[i] = hv::ival(seed, i, 30);
        // site by site through the storage, independent of the accessors under test
        f.check_alloc();
        for (size_t i = 0; i < loc.size(); i++) f.set_value_at(el(m, loc[i]), i);
        f.mark_changed(ALL);
        g = f;
    }
    // after the operation the other parities and the halo must be consistent as well
    void nbcheck(const char *what) {
        Field<T> t;
        for (int d = 0; d < 2 * NDIM; d++) {
            Direction dir = (Direction)d;
            t[ALL] = f[X + dir];
            std::vector<int> e(V * N);
            for (size_t i = 0; i < V; i++) {
                CoordinateVector c = hv::gcoord(i, sz);
                if (d < NDIM) c[d] += 1; else c[2 * NDIM - 1 - d] -= 1;
                c = hv::wrap(c, sz);
                for (int k = 0; k < N; k++) e[i * N + k] = m[hv::gindex(c, sz) * N + k];
            }
            cmpf(t, e, (std::string(what) + ", neighbours").c_str());
        }
    }
    void put(const CoordinateVector &c, const T &v) {
        double b[N];
        hv::to_doubles(v, b);
        for (int k = 0; k < N; k++) m[hv::gindex(c, sz) * N + k] = (int)b[k];
    }

    void step(const Op &o) {
        const std::string &n = o.name();
        if (n == "load") {
            load(o.u(1));
        } else if (n == "get") {
            CoordinateVector c = cv(o, 1);
            T v = f[c];
            if (!hv::same<T>(v, el(m, c)))
                hv::fail("read of %s gave %s, expected %s", hv::cstr(c).c_str(), hv::estr<T>(v).c_str(),
                         hv::estr<T>(el(m, c)).c_str());
        } else if (n == "set") {
            CoordinateVector c = cv(o, 2);
            T v = tval(o.u(1));
            f[c] = v;
            put(c, v);
            cmpf(f, m, "set element");
        } else if (n == "add" || n == "sub" || n == "mul") {
            CoordinateVector c = cv(o, 2);
            T v = tval(o.u(1));
            if (n == "add") f[c] += v;
            else if (n == "sub") f[c] -= v;
            else f[c] *= 3;
            for (int k = 0; k < N; k++) {
                double b[N];
                hv::to_doubles(v, b);
                int &x = m[hv::gindex(c, sz) * N + k];
                if (n == "add") x += (int)b[k];
                else if (n == "sub") x -= (int)b[k];
                else x *= 3;
            }
            cmpf(f, m, "compound assignment to an element");
        } else if (n == "inc") {
#if AC_INCR
            {
                CoordinateVector c = cv(o, 2);
                int form = o.i(1);
                T v, w = el(m, c);
                int &x = m[hv::gindex(c, sz)];
                if (form == 0) { v = f[c]++; x++; }
                else if (form == 1) { v = ++f[c]; x++; w = w + 1; }
                else if (form == 2) { v = f[c]--; x--; }
                else { v = --f[c]; x--; w = w - 1; }
                if (!hv::same<T>(v, w)) hv::fail("value of increment form %d is %s", form, hv::estr<T>(v).c_str());
                cmpf(f, m, "increment of an element");
            }
#endif
        } else if (n == "gets") {
            std::vector<CoordinateVector> cl;
            for (long i = 0; i < o.i(2); i++) cl.push_back(hv::gcoord(hv::mix(o.u(1), i) % V, sz));
            bool bc = o.i(3);
            cmpv(f.get_elements(cl, bc), cl, bc || hila::myrank() == 0, "get_elements");
        } else if (n == "sets") {
            std::vector<CoordinateVector> cl;
            std::vector<T> v;
            std::set<size_t> used;
            for (long i = 0; i < o.i(2); i++) {
                size_t x = hv::mix(o.u(1), i) % V;
                if (!used.insert(x).second) continue;
                cl.push_back(hv::gcoord(x, sz));
                v.push_back(tval(hv::mix(o.u(1), i + 7777)));
                put(cl.back(), v.back());
            }
            f.set_elements(v, cl);
            cmpf(f, m, "set_elements");
        } else if (n == "slice") {
            CoordinateVector c = cv(o, 2), a, b;
            bool bc = o.i(1);
            for (int d = 0; d < NDIM; d++) {
                a[d] = c[d] < 0 ? 0 : c[d];
                b[d] = c[d] < 0 ? sz[d] - 1 : c[d];
            }
            cmpv(f.get_slice(c, bc), box(a, b), bc || hila::myrank() == 0, "get_slice");
        } else if (n == "sub") {
        } else if (n == "boxr") {
            CoordinateVector a = cv(o, 2), b = cv(o, 2 + NDIM);
            bool bc = o.i(1);
            cmpv(f.get_subvolume(a, b, bc), box(a, b), bc || hila::myrank() == 0, "get_subvolume");
        } else if (n == "local") {
            std::vector<T> b;
            f.copy_local_data(b);
            cmpv(b, sorted_local(), true, "copy_local_data");
        } else if (n == "setlocal") {
            auto sl = sorted_local();
            std::vector<T> b;
            for (size_t i = 0; i < V * N; i++) m[i] = hv::ival(o.u(1), i, 30);
            for (auto &c : sl) b.push_back(el(m, c));
            f.set_local_data(b);
            cmpf(f, m, "set_local_data");
        } else if (n == "halo") {
            std::vector<T> b;
            f.copy_local_data_with_halo(b);
            CoordinateVector lo = loc[0], hi = loc[0];
            for (auto &c : loc)
                for (int d = 0; d < NDIM; d++) { lo[d] = std::min(lo[d], c[d]); hi[d] = std::max(hi[d], c[d]); }
            std::vector<CoordinateVector> cl;
            CoordinateVector ext;
            size_t tot = 1;
            for (int d = 0; d < NDIM; d++) { ext[d] = hi[d] - lo[d] + 3; tot *= ext[d]; }
            for (size_t i = 0; i < tot; i++) cl.push_back(hv::wrap(hv::gcoord(i, ext) + lo - hv::wrap(hv::gcoord(0, ext), ext) - ones(), sz));
            bool thin = false;
            for (int d = 0; d < NDIM; d++) thin = thin || ext[d] < 4;
            // processes of extent 1: recorded finding, only compared on request
            if (!thin || (o.n() > 1 && o.i(1))) cmpv(b, cl, true, "copy_local_data_with_halo");
        } else if (n == "shift") {
            CoordinateVector v = cv(o, 2);
            int form = o.i(1);
            std::vector<int> e(V * N);
            for (size_t i = 0; i < V; i++) {
                CoordinateVector c = hv::wrap(hv::gcoord(i, sz) + v, sz);
                for (int k = 0; k < N; k++) e[i * N + k] = m[hv::gindex(c, sz) * N + k];
            }
            std::vector<int> old = m;
            bool evn = true;
            for (int d = 0; d < NDIM; d++) evn = evn && sz[d] % 2 == 0;
            if (form >= 3 && evn) { // one parity only, into a field which has values already
                Parity par = form == 3 ? EVEN : ODD;
                onsites(ALL) g[X] = f[X] + f[X];
                for (size_t i = 0; i < V; i++) {
                    CoordinateVector c = hv::gcoord(i, sz);
                    if (c.parity() != par) for (int k = 0; k < N; k++) e[i * N + k] = 2 * m[i * N + k];
                }
                f.shift(v, g, par);
            } else if (form == 0) g = f.shift(v);
            else f.shift(v, g);
            cmpf(g, e, "shift");
            cmpf(f, old, "shift changed its source");
            if (form == 2) { hila::swap(f, g); m = e; }
        } else if (n == "reflect") {
#if AC_CPLX
            {
                int mask = o.i(1);
                std::vector<int> e(V * N);
                for (size_t i = 0; i < V; i++) {
                    CoordinateVector c = hv::gcoord(i, sz);
                    for (int d = 0; d < NDIM; d++) if (mask & (1 << d)) c[d] = (sz[d] - c[d]) % sz[d];
                    for (int k = 0; k < N; k++) e[i * N + k] = m[hv::gindex(c, sz) * N + k];
                }
                bool all = mask == (1 << NDIM) - 1, one = (mask & (mask - 1)) == 0 && mask;
                if (all && o.i(2)) g = f.reflect();
                else if (one && o.i(2)) {
                    int d = 0;
                    while (!(mask & (1 << d))) d++;
                    g = f.reflect((Direction)d);
                } else {
                    CoordinateVector dirs;
                    for (int d = 0; d < NDIM; d++) dirs[d] = (mask >> d) & 1;
                    g = f.reflect(dirs);
                }
                cmpf(g, e, "reflect");
                cmpf(f, m, "reflect changed its source");
            }
#endif
        } else {
            fprintf(stderr, "unknown op %s\n", n.c_str());
            abort();
        }
    }
    CoordinateVector ones() { CoordinateVector c; for (int d = 0; d < NDIM; d++) c[d] = 1; return c; }

    static void runcase(const Case &c) {
        Acc h;
        int n = 0;
        for (auto &o : c.ops) {
            hv::where() = "op " + std::to_string(n++) + " " + o.name();
            hv::tag(o.name());
            h.step(o);
        }
        hv::where() = "end";
        h.cmpf(h.f, h.m, "at the end");
        h.nbcheck("at the end");
    }
};
} // namespace ac
#endif
