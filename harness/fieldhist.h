// Histories of field operations against a serial model (P02).  Instantiated for one element type per translation unit.
#ifndef FIELDHIST_H_
#define FIELDHIST_H_
#include "hv.h"

namespace fh {
using hv::Case;
using hv::Op;

template <typename T>
struct Hist {
    static constexpr int NF = 4;
    static constexpr int N = hv::El<T>::N;
    Field<T> F[NF];
    std::vector<int> M[NF];
    int bc[NF][NDIM]; // 1 or -1
    CoordinateVector sz;
    size_t V;
    std::vector<CoordinateVector> loc; // coordinates of the local sites in index order

    Hist() {
        sz = hv::size_vector();
        V = 1;
        for (int d = 0; d < NDIM; d++) V *= sz[d];
        for (int i = 0; i < NF; i++) {
            M[i].assign(V * N, 0);
            resetbc(i);
        }
        for (size_t i = 0; i < (size_t)lattice->mynode.volume; i++) loc.push_back(lattice->coordinates(i));
    }
    void resetbc(int i) { for (int d = 0; d < NDIM; d++) bc[i][d] = 1; }

    bool inpar(size_t g, int par) {
        int p = hv::gparity(hv::gcoord(g, sz));
        return par == 3 || (par == 1 && p == 0) || (par == 2 && p == 1);
    }
    // index of neighbour at offset v and the boundary sign
    size_t nbr(int f, size_t g, const CoordinateVector &v, int &sign) {
        CoordinateVector c = hv::gcoord(g, sz);
        sign = 1;
        for (int d = 0; d < NDIM; d++) {
            int x = c[d] + v[d];
            while (x < 0) { x += sz[d]; sign *= bc[f][d]; }
            while (x >= sz[d]) { x -= sz[d]; sign *= bc[f][d]; }
            c[d] = x;
        }
        return hv::gindex(c, sz);
    }
    CoordinateVector dirv(int d) {
        CoordinateVector v(0);
        if (d < NDIM) v[d] = 1; else v[2 * NDIM - 1 - d] = -1;
        return v;
    }
    int nbval(int f, size_t g, const CoordinateVector &v, int k) {
        int s;
        size_t n = nbr(f, g, v, s);
        return s * M[f][n * N + k];
    }

    void cmp(int f, const char *what) { cmpf(F[f], M[f], what); }
    void cmpf(const Field<T> &fld, const std::vector<int> &m, const char *what) {
        for (size_t i = 0; i < loc.size(); i++) {
            size_t g = hv::gindex(loc[i], sz);
            T want = hv::from_ints<T>(&m[g * N]);
            T got = fld.get_value_at(i);
            if (!hv::same<T>(want, got)) {
                hv::fail("%s: at %s found %s, expected %s", what, hv::cstr(loc[i]).c_str(), hv::estr<T>(got).c_str(),
                         hv::estr<T>(want).c_str());
                return;
            }
        }
    }
    T tval(uint64_t seed, int range = 3) {
        int v[N];
        for (int k = 0; k < N; k++) v[k] = hv::ival(seed, k, range);
        return hv::from_ints<T>(v);
    }

    // destination values must be computed from the state before the loop
    template <typename Fn>
    void upd(int i, int par, Fn fn) {
        std::vector<int> n = M[i];
        for (size_t g = 0; g < V; g++)
            if (inpar(g, par))
                for (int k = 0; k < N; k++) n[g * N + k] = fn(g, k);
        M[i] = n;
    }

    void load(Field<T> &f, uint64_t seed, std::vector<int> &m, int par) {
        for (size_t g = 0; g < V; g++)
            if (inpar(g, par))
                for (int k = 0; k < N; k++) m[g * N + k] = hv::ival(seed, g * N + k);
        Field<T> src;
        std::vector<T> buf;
        for (auto &c : local_order()) {
            size_t g = hv::gindex(c, sz);
            int v[N];
            for (int k = 0; k < N; k++) v[k] = hv::ival(seed, g * N + k);
            buf.push_back(hv::from_ints<T>(v));
        }
        src.set_local_data(buf);
        Parity p = (Parity)par;
        onsites(p) f[X] = src[X];
    }
    // the local box in coordinate order, x fastest
    std::vector<CoordinateVector> local_order() {
        std::vector<CoordinateVector> r = loc;
        CoordinateVector s = sz;
        std::sort(r.begin(), r.end(), [s](const CoordinateVector &a, const CoordinateVector &b) {
            return hv::gindex(a, s) < hv::gindex(b, s);
        });
        return r;
    }

    void nb(const Op &o) {
        int i = o.i(1), j = o.i(2), d = o.i(3), par = o.i(4), form = o.i(5);
        Direction dir = (Direction)d;
        Parity p = (Parity)par;
        if (i == j) { // same field, one parity from the other
            Field<T> &a = F[i];
            if (par == 1) a[EVEN] = a[X + dir];
            else a[ODD] = a[X + dir];
        } else {
            Field<T> &a = F[i];
            const Field<T> &b = F[j];
            if (form == 0) a[p] = b[X + dir];
            else if (form == 1) {
                onsites(p) { a[X] = b[X + dir]; }
            } else if (form == 2) {
                if (d == 0) onsites(p) a[X] = b[X + e_x];
                else if (d == 2 * NDIM - 1) onsites(p) a[X] = b[X - e_x];
#if NDIM > 1
                else if (d == 1) onsites(p) a[X] = b[X + e_y];
                else if (d == 2 * NDIM - 2) onsites(p) a[X] = b[X - e_y];
#endif
                else onsites(p) a[X] = b[X + dir];
            } else if (form == 3) { // literal parities
                if (par == 1) a[EVEN] = b[X + dir];
                else if (par == 2) a[ODD] = b[X + dir];
                else a[ALL] = b[X + dir];
            } else { // prefetch of one parity or direction, then the loop
                b.start_gather(dir, par == 3 ? EVEN : ALL);
                a[p] = b[X + dir];
            }
        }
        CoordinateVector v = dirv(d);
        upd(i, par, [&](size_t g, int k) { return nbval(j, g, v, k); });
        cmp(i, "neighbour");
    }

    void finalcheck() {
        Field<T> t;
        for (int i = 0; i < NF; i++) {
            if (!F[i].is_allocated()) continue;
            cmp(i, "at the end");
            const Field<T> &b = F[i];
            for (int d = 0; d < 2 * NDIM; d++) {
                Direction dir = (Direction)d;
                t[ALL] = b[X + dir];
                std::vector<int> m(V * N);
                CoordinateVector v = dirv(d);
                for (size_t g = 0; g < V; g++)
                    for (int k = 0; k < N; k++) m[g * N + k] = nbval(i, g, v, k);
                cmpf(t, m, ("final neighbour dir " + std::to_string(d) + " field " + std::to_string(i)).c_str());
            }
        }
    }
    void step(const Op &o) {
        const std::string &n = o.name();
        char c = n[0];
        if (c == 'L') {
            int i = o.i(1);
            load(F[i], o.u(2), M[i], o.i(3));
            cmp(i, "load");
        } else if (c == 'C') {
            Field<T> &a = F[o.i(1)];
            const Field<T> &b = F[o.i(2)];
            Parity p = (Parity)o.i(3);
            a[p] = b[X];
            int j = o.i(2);
            upd(o.i(1), o.i(3), [&](size_t g, int k) { return M[j][g * N + k]; });
            cmp(o.i(1), "copy");
        } else if (c == 'N') {
            nb(o);
        } else if (c == 'A') {
            Field<T> &a = F[o.i(1)];
            const Field<T> &b = F[o.i(2)], &e = F[o.i(3)];
            Direction d1 = (Direction)o.i(4), d2 = (Direction)o.i(5);
            Parity p = (Parity)o.i(6);
            onsites(p) {
                T t = b[X + d1];
                a[X] = t - e[X + d2];
            }
            int j = o.i(2), k2 = o.i(3);
            CoordinateVector v1 = dirv(o.i(4)), v2 = dirv(o.i(5));
            upd(o.i(1), o.i(6), [&](size_t g, int k) { return nbval(j, g, v1, k) - nbval(k2, g, v2, k); });
            cmp(o.i(1), "difference of neighbours");
        } else if (c == 'S') {
            Field<T> &a = F[o.i(1)];
            const Field<T> &b = F[o.i(2)];
            Parity p = (Parity)o.i(3);
            if (o.n() > 4 && o.i(4)) {
                foralldir(dd) {
                    b.start_gather(dd, p);
                    if (o.i(4) > 1) b.start_gather(-dd, p);
                }
            }
            onsites(p) {
                T t;
                t = b[X];
                foralldir(d) {
                    t += b[X + d];
                    t += b[X - d];
                }
                a[X] = t;
            }
            int j = o.i(2);
            upd(o.i(1), o.i(3), [&](size_t g, int k) {
                int s = M[j][g * N + k];
                for (int d = 0; d < 2 * NDIM; d++) s += nbval(j, g, dirv(d), k);
                return s;
            });
            cmp(o.i(1), "sum of neighbours");
        } else if (c == 'O' || c == 'H') {
            int i = o.i(1), j = o.i(2), form = o.i(3), par = o.i(4);
            CoordinateVector v;
            for (int d = 0; d < NDIM; d++) v[d] = o.i(5 + d);
            Field<T> &a = F[i];
            const Field<T> &b = F[j];
            Parity p = (Parity)par;
            if (c == 'O') {
                if (form == 0) a[p] = b[X + v];
                else {
                    const Field<T> &e = F[(j + 1) % NF == i ? (j + 2) % NF : (j + 1) % NF];
                    if (e.is_initialized(ALL) && form == 2) { // two offsets of two fields in one loop
                        CoordinateVector w = -v;
                        onsites(p) a[X] = b[X + v] + e[X + w];
                        int e2 = (j + 1) % NF == i ? (j + 2) % NF : (j + 1) % NF;
                        upd(i, par, [&](size_t g, int k) { return nbval(j, g, v, k) + nbval(e2, g, w, k); });
                        cmp(i, "sum at two offsets");
                        return;
                    }
                    onsites(p) {
                        T t;
                        t = b[X + v];
                        a[X] = t;
                    }
                }
            } else {
                if (form == 0) { a = b.shift(v); par = 3; resetbc(i); }
                else if (form == 1) { b.shift(v, a); par = 3; }
                else b.shift(v, a, p);
            }
            upd(i, par, [&](size_t g, int k) { return nbval(j, g, v, k); });
            cmp(i, c == 'O' ? "read at an offset" : "shift");
        } else if (c == 'I') {
            Field<T> &a = F[o.i(1)];
            const Field<T> &b = F[o.i(2)];
            Direction d = (Direction)o.i(3);
            Parity p = (Parity)o.i(4);
            int r = o.i(5), dd = o.i(6);
            onsites(p) {
                if (X.coordinate((Direction)dd) % 2 == r) a[X] = b[X + d];
            }
            int j = o.i(2), i = o.i(1);
            CoordinateVector v = dirv(o.i(3));
            upd(i, o.i(4), [&](size_t g, int k) {
                return hv::gcoord(g, sz)[dd] % 2 == r ? nbval(j, g, v, k) : M[i][g * N + k];
            });
            cmp(i, "conditional neighbour");
        } else if (c == 'M') { // move
            int i = o.i(1), j = o.i(2);
            F[i] = std::move(F[j]);
            M[i] = M[j];
            for (int d = 0; d < NDIM; d++) bc[i][d] = bc[j][d];
            resetbc(j);
            if (F[j].is_allocated()) hv::fail("moved-from field is still allocated");
            cmp(i, "move");
        } else if (c == 'W') {
            int i = o.i(1), j = o.i(2);
            hila::swap(F[i], F[j]);
            std::swap(M[i], M[j]);
            for (int d = 0; d < NDIM; d++) std::swap(bc[i][d], bc[j][d]);
            cmp(i, "swap");
            cmp(j, "swap");
        } else if (c == 'Y') {
            int i = o.i(1), j = o.i(2);
            F[i] = F[j];
            M[i] = M[j];
            cmp(i, "assign");
        } else if (c == 'P') {
            int i = o.i(1), j = o.i(2);
            Field<T> t(F[j]);
            F[i] = std::move(t);
            M[i] = M[j];
            resetbc(i);
            cmp(i, "copy construction");
        } else if (c == 'E') { // single-site write
            int i = o.i(1);
            T v = tval(o.u(2));
            CoordinateVector x;
            for (int d = 0; d < NDIM; d++) x[d] = o.i(3 + d);
            x = hv::wrap(x, sz);
            Field<T> &a = F[i];
            a[x] = v;
            double b[N];
            hv::to_doubles(v, b);
            for (int k = 0; k < N; k++) M[i][hv::gindex(x, sz) * N + k] = (int)b[k];
            cmp(i, "single-site write");
        } else if (c == 'J') { // list write
            int i = o.i(1);
            std::vector<CoordinateVector> cl;
            std::vector<T> el;
            int cnt = o.i(3);
            std::set<size_t> used;
            for (int q = 0; q < cnt; q++) {
                size_t g = hv::mix(o.u(2), q) % V;
                if (!used.insert(g).second) continue;
                cl.push_back(hv::gcoord(g, sz));
                el.push_back(tval(hv::mix(o.u(2), 1000 + q)));
                double b[N];
                hv::to_doubles(el.back(), b);
                for (int k = 0; k < N; k++) M[i][g * N + k] = (int)b[k];
            }
            F[i].set_elements(el, cl);
            cmp(i, "list write");
        } else if (c == 'G') {
            F[o.i(1)].start_gather((Direction)o.i(2), (Parity)o.i(3));
        } else if (c == 'g') {
            F[o.i(1)].gather((Direction)o.i(2), (Parity)o.i(3));
        } else if (c == 'D') {
            F[o.i(1)].drop_comms((Direction)o.i(2), (Parity)o.i(3));
        } else if (c == 'B') {
#ifdef SPECIAL_BOUNDARY_CONDITIONS
            int i = o.i(1), d = o.i(2);
            F[i].set_boundary_condition((Direction)d, o.i(3) ? hila::bc::ANTIPERIODIC : hila::bc::PERIODIC);
            bc[i][d < NDIM ? d : 2 * NDIM - 1 - d] = o.i(3) ? -1 : 1;
#endif
        } else if (c == 'K') {
            int i = o.i(1);
            T v = tval(o.u(2));
            Field<T> &a = F[i];
            double b[N];
            hv::to_doubles(v, b);
            int par = o.i(3), form = o.i(4);
            Parity p = (Parity)par;
            if (form == 0) {
                a[p] = v;
                upd(i, par, [&](size_t, int k) { return (int)b[k]; });
            } else if (form == 1) {
                a[p] += v;
                upd(i, par, [&](size_t g, int k) { return M[i][g * N + k] + (int)b[k]; });
            } else if (form == 2) {
                a = v;
                upd(i, 3, [&](size_t, int k) { return (int)b[k]; });
            } else {
                onsites(p) a[X] -= v;
                upd(i, par, [&](size_t g, int k) { return M[i][g * N + k] - (int)b[k]; });
            }
            cmp(i, "constant");
        } else if (c == 'U') {
            int i = o.i(1), j = o.i(2), form = o.i(3);
            if (form == 0) {
                F[i] += F[j];
                upd(i, 3, [&](size_t g, int k) { return M[i][g * N + k] + M[j][g * N + k]; });
            } else if (form == 1) {
                F[i] -= F[j];
                upd(i, 3, [&](size_t g, int k) { return M[i][g * N + k] - M[j][g * N + k]; });
            } else if (form == 2) {
                F[i] = F[i] + F[j];
                upd(i, 3, [&](size_t g, int k) { return M[i][g * N + k] + M[j][g * N + k]; });
                resetbc(i);
            } else {
                F[i] = -F[j];
                std::vector<int> t = M[j];
                upd(i, 3, [&](size_t g, int k) { return -t[g * N + k]; });
                resetbc(i);
            }
            cmp(i, "field arithmetic");
        } else if (c == 'T') {
            Field<T> &a = F[o.i(1)], &e = F[o.i(3)];
            const Field<T> &b = F[o.i(2)];
            Direction d = (Direction)o.i(4);
            Parity p = (Parity)o.i(5);
            onsites(p) {
                a[X] = b[X + d];
                e[X] = a[X] + b[X];
            }
            int i = o.i(1), j = o.i(2), k2 = o.i(3);
            CoordinateVector v = dirv(o.i(4));
            upd(i, o.i(5), [&](size_t g, int k) { return nbval(j, g, v, k); });
            upd(k2, o.i(5), [&](size_t g, int k) { return M[i][g * N + k] + M[j][g * N + k]; });
            cmp(i, "two statements, first");
            cmp(k2, "two statements, second");
        } else if (c == 'X') { // the other ways of changing a field
            int i = o.i(1), j = o.i(2), form = o.i(3);
            Field<T> &a = F[i];
            CoordinateVector x;
            for (int d = 0; d < NDIM; d++) x[d] = o.i(5 + d);
            x = hv::wrap(x, sz);
            int *m = &M[i][hv::gindex(x, sz) * N];
            T v = tval(o.u(4));
            double b[N];
            hv::to_doubles(v, b);
            if (form == 0) {
                a[x] += v;
                for (int k = 0; k < N; k++) m[k] += (int)b[k];
            } else if (form == 1) {
                a[x] -= v;
                for (int k = 0; k < N; k++) m[k] -= (int)b[k];
            } else if (form == 2) {
                a[x] *= -1;
                for (int k = 0; k < N; k++) m[k] *= -1;
            } else if (form == 3) {
                a[x] /= -1;
                for (int k = 0; k < N; k++) m[k] *= -1;
            } else if (form == 4) {
                F[j].write("p02.dat");
                a.read("p02.dat");
                M[i] = M[j];
            } else if (form == 5) {
                std::vector<T> buf;
                for (auto &y : local_order()) buf.push_back(hv::from_ints<T>(&M[j][hv::gindex(y, sz) * N]));
                a.set_local_data(buf);
                M[i] = M[j];
            } else if (form == 6) {
                a = 0;
                upd(i, 3, [&](size_t, int) { return 0; });
            } else if (form == 7) {
                for (size_t q = 0; q < loc.size(); q++)
                    a.set_value_at(hv::from_ints<T>(&M[j][hv::gindex(loc[q], sz) * N]), q);
                a.mark_changed(ALL);
                M[i] = M[j];
            } else {
#ifdef HV_ARITH
                int q = (int)(o.u(4) % 4);
                if (q == 0) a[x]++;
                else if (q == 1) ++a[x];
                else if (q == 2) a[x]--;
                else --a[x];
                m[0] += q < 2 ? 1 : -1;
#endif
            }
            cmp(i, "changed element, file or local data");
        } else if (c == 'Z') {
            F[o.i(1)].clear();
            resetbc(o.i(1));
        } else {
            fprintf(stderr, "unknown op %s\n", n.c_str());
            abort();
        }
    }

    static void runcase(const Case &c) {
        Hist<T> h;
        int n = 0;
        for (auto &o : c.ops) {
            hv::where() = "op " + std::to_string(n++) + " " + o.name();
            h.step(o);
        }
        hv::where() = "end";
        h.finalcheck();
    }
};
} // namespace fh
#endif
