// Checks of the current lattice against plain coordinate arithmetic (P03, P20).
#ifndef LAT_H_
#define LAT_H_
#include "hv.h"

namespace lat {

inline size_t volume(const CoordinateVector &sz) { size_t v = 1; foralldir(d) v *= sz[d]; return v; }
// total over all processes
inline std::vector<long> total(std::vector<long> v) {
    std::vector<long> r(v.size());
    MPI_Allreduce(v.data(), r.data(), (int)v.size(), MPI_LONG, MPI_SUM, MPI_COMM_WORLD);
    return r;
}
inline Parity par_of(const CoordinateVector &c) { return hv::gparity(c) ? ODD : EVEN; }

// host-side maps
inline void scan(const CoordinateVector &sz) {
    hv::where() = "scan";
    size_t vol = volume(sz);
    if (lattice.size() != sz) hv::fail("lattice.size() is not the requested size");
    foralldir(d) if (lattice.size(d) != sz[d]) hv::fail("lattice.size(%d) is %d", (int)d, lattice.size(d));
    if ((size_t)lattice.volume() != vol) hv::fail("lattice.volume() %ld, expected %zu", (long)lattice.volume(), vol);
    int me = hila::myrank(), np = hila::number_of_nodes();
    std::vector<long> owned(vol + 3, 0); // + total, even, odd
    // local sites
    size_t nloc = lattice->mynode.volume, ne = 0;
    for (size_t i = 0; i < nloc; i++) {
        CoordinateVector c = lattice->coordinates(i);
        foralldir(d) if (c[d] < 0 || c[d] >= sz[d]) { hv::fail("local site %zu has coordinates %s outside the lattice", i, hv::cstr(c).c_str()); return; }
        foralldir(d) if (lattice->coordinate(i, d) != c[d]) hv::fail("coordinate(%zu,%d) differs from coordinates", i, (int)d);
        owned[hv::gindex(c, sz)]++;
        if (lattice->site_index(c) != i) hv::fail("site_index%s is %u, but local site %zu has these coordinates", hv::cstr(c).c_str(), lattice->site_index(c), i);
        if (lattice->site_parity(i) != par_of(c)) hv::fail("site_parity of %s", hv::cstr(c).c_str());
        if (c.parity() != par_of(c)) hv::fail("parity() of %s", hv::cstr(c).c_str());
        if (par_of(c) == EVEN) ne++;
    }
    if (ne != lattice->mynode.evensites || nloc - ne != lattice->mynode.oddsites) hv::fail("evensites %zu oddsites %zu, but %zu and %zu found", lattice->mynode.evensites, lattice->mynode.oddsites, ne, nloc - ne);
    for (Parity p : {EVEN, ODD, ALL}) {
        size_t b = lattice->loop_begin(p), e = lattice->loop_end(p), n = p == ALL ? nloc : p == EVEN ? ne : nloc - ne;
        if (e - b != n) hv::fail("loop range of parity %d has %zu sites, expected %zu", (int)p, e - b, n);
        for (size_t i = b; i < e && i < nloc; i++) if (p != ALL && par_of(lattice->coordinates(i)) != p) { hv::fail("loop range of parity %d contains %s", (int)p, hv::cstr(lattice->coordinates(i)).c_str()); break; }
    }
    owned[vol] = nloc; owned[vol + 1] = ne; owned[vol + 2] = nloc - ne;
    auto own = total(owned);
    if (own[vol] != (long)vol) hv::fail("processes own %ld sites together, expected %zu", own[vol], vol);
    std::vector<long> here(vol, 0);
    for (size_t k = 0; k < vol; k++) {
        CoordinateVector c = hv::gcoord(k, sz);
        if (own[k] != 1) { hv::fail("site %s is owned by %ld processes", hv::cstr(c).c_str(), own[k]); break; }
        int r = lattice->node_rank(c);
        if (r < 0 || r >= np) { hv::fail("node_rank%s is %d", hv::cstr(c).c_str(), r); break; }
        bool on = lattice->is_on_mynode(c);
        if (on != (owned[k] == 1)) { hv::fail("is_on_mynode%s is %d, but the site is %sowned here", hv::cstr(c).c_str(), (int)on, owned[k] ? "" : "not "); break; }
        if (on != (r == me)) { hv::fail("node_rank%s is %d, is_on_mynode is %d on process %d", hv::cstr(c).c_str(), r, (int)on, me); break; }
        node_info ni = lattice->nodes.nodeinfo(r);
        foralldir(d) if (c[d] < ni.min[d] || c[d] >= ni.min[d] + ni.size[d]) { hv::fail("%s is on process %d, but nodeinfo says otherwise", hv::cstr(c).c_str(), r); return; }
        if (lattice->global_coordinates(k) != c) hv::fail("global_coordinates(%zu) are %s", k, hv::cstr(lattice->global_coordinates(k)).c_str());
    }
    long sum = 0;
    for (int r = 0; r < np; r++) {
        node_info ni = lattice->nodes.nodeinfo(r);
        long v = 1, e = 0;
        foralldir(d) v *= ni.size[d];
        CoordinateVector c;
        for (long k = 0; k < v; k++) { c = hv::gcoord(k, ni.size) + ni.min; if (par_of(c) == EVEN) e++; }
        if ((long)ni.evensites != e || (long)ni.oddsites != v - e) hv::fail("nodeinfo(%d): evensites %ld oddsites %ld, expected %ld %ld", r, (long)ni.evensites, (long)ni.oddsites, e, v - e);
        sum += v;
        if (r == me && (ni.min != lattice->mynode.min || ni.size != lattice->mynode.size)) hv::fail("nodeinfo of this process differs from mynode");
        foralldir(d) if (ni.size[d] > lattice->nodes.max_size[d]) hv::fail("max_size is smaller than that of process %d", r);
    }
    if (sum != (long)vol) hv::fail("the nodes of nodeinfo have %ld sites together", sum);
}

// a value for each coordinate which is exact in T
template <typename T> inline T val(size_t k) { T t; using B = hila::arithmetic_type<T>; constexpr int N = sizeof(T) / sizeof(B); B b[N]; for (int i = 0; i < N; i++) b[i] = (B)(k * 4 + i % 4); memcpy((void *)&t, b, sizeof(T)); return t; }

template <typename T> inline bool eq(const T &x, const T &y) { return memcmp((const void *)&x, (const void *)&y, sizeof(T)) == 0; }

template <typename T> inline void fill(Field<T> &f, const CoordinateVector &sz) {
    f.check_alloc();
    for (size_t i = 0; i < lattice->mynode.volume; i++) f.set_value_at(val<T>(hv::gindex(lattice->coordinates(i), sz)), i);
    f.mark_changed(ALL);
}

// neighbours in all directions, in loops of all parities
template <typename T> void neighbours(const CoordinateVector &sz, hv::Rng &g, const char *what) {
    hv::where() = std::string("neighbours ") + what;
    Field<T> f, r;
    fill(f, sz);
    int order = g.in(0, 2), first = g.in(0, NDIRS - 1);
    for (int j = 0; j < NDIRS; j++) {
        Direction d = (Direction)((first + j * (2 * NDIM > 2 ? 1 : 1)) % NDIRS);
        r = f;
        if (order == 0) { onsites(ALL) r[X] = f[X + d]; }
        else if (order == 1) { onsites(EVEN) r[X] = f[X + d]; onsites(ODD) r[X] = f[X + d]; }
        else { f.mark_changed(ALL); onsites(ODD) r[X] = f[X + d]; onsites(EVEN) r[X] = f[X + d]; }
        for (size_t i = 0; i < lattice->mynode.volume; i++) {
            CoordinateVector c = lattice->coordinates(i), n = hv::wrap(c + d, sz);
            T want = val<T>(hv::gindex(n, sz)), got = r.get_value_at(i);
            if (!eq(want, got)) { hv::fail("value at %s in direction %d is not that of %s (got %s, expected %s)", hv::cstr(c).c_str(), (int)d, hv::cstr(n).c_str(), hv::estr(got).c_str(), hv::estr(want).c_str()); break; }
        }
    }
}

// coordinates and parities as seen by loops; each parity loop visits its sites once
inline void loops(const CoordinateVector &sz) {
    hv::where() = "loops";
    Field<int> n, p;
    Field<int> cx[NDIM], cy[NDIM];
    n = 0;
    p = 0;
    onsites(EVEN) n[X] += 1;
    onsites(ODD) n[X] += 100;
    onsites(ALL) n[X] += 10000;
    onsites(ALL) p[X] = (int)X.parity();
    foralldir(d) {
        onsites(ALL) cx[d][X] = X.coordinate(d);
        onsites(ALL) {
            CoordinateVector v = X.coordinates();
            cy[d][X] = v[d];
        }
    }
    for (size_t i = 0; i < lattice->mynode.volume; i++) {
        CoordinateVector c = lattice->coordinates(i);
        int want = par_of(c) == EVEN ? 10001 : 10100;
        if (n.get_value_at(i) != want) { hv::fail("site %s: visit count of the EVEN, ODD and ALL loops is %d (units, hundreds, ten-thousands), expected %d", hv::cstr(c).c_str(), n.get_value_at(i), want); break; }
        if (p.get_value_at(i) != (int)par_of(c)) { hv::fail("X.parity() at %s is %d", hv::cstr(c).c_str(), p.get_value_at(i)); break; }
        foralldir(d) if (cx[d].get_value_at(i) != c[d] || cy[d].get_value_at(i) != c[d]) { hv::fail("X.coordinate(%d) at %s is %d, X.coordinates() %d", (int)d, hv::cstr(c).c_str(), cx[d].get_value_at(i), cy[d].get_value_at(i)); return; }
    }
    // totals
    size_t vol = volume(sz);
    long e = 0, o = 0, se = 0, so = 0, we = 0, wo = 0, de = 0;
    Field<int64_t> w;
    fill(w, sz);
    onsites(EVEN) { e += 1; se += w[X]; }
    onsites(ODD) { o += 1; so += w[X]; }
    for (size_t k = 0; k < vol; k++) (hv::gparity(hv::gcoord(k, sz)) ? wo : we) += val<int64_t>(k);
    for (size_t k = 0; k < vol; k++) de += hv::gparity(hv::gcoord(k, sz)) ? 0 : 1;
    if (e != de || o != (long)vol - de) hv::fail("EVEN and ODD loops visit %ld and %ld sites, expected %ld and %ld", e, o, de, (long)vol - de);
    if (se != we || so != wo) hv::fail("sums over EVEN and ODD are %ld and %ld, expected %ld and %ld", se, so, we, wo);
}

// access by coordinates
template <typename T> void elements(const CoordinateVector &sz, hv::Rng &g, const char *what) {
    hv::where() = std::string("elements ") + what;
    Field<T> f;
    fill(f, sz);
    size_t vol = volume(sz);
    std::map<size_t, size_t> changed;
    for (int j = 0; j < 12; j++) {
        size_t k = g.u() % vol, m = g.u() % vol;
        CoordinateVector c = hv::gcoord(k, sz);
        if (j % 3 == 2) { f[c] = val<T>(m); changed[k] = m; }
        else {
            size_t want = changed.count(k) ? changed[k] : k;
            T got = f[c];
            if (!eq(got, val<T>(want))) hv::fail("f[%s] is %s, expected %s", hv::cstr(c).c_str(), hv::estr(got).c_str(), hv::estr(val<T>(want)).c_str());
        }
    }
    for (size_t i = 0; i < lattice->mynode.volume; i++) {
        size_t k = hv::gindex(lattice->coordinates(i), sz), want = changed.count(k) ? changed[k] : k;
        if (!eq(f.get_value_at(i), val<T>(want))) { hv::fail("after element assignments site %s has %s", hv::cstr(lattice->coordinates(i)).c_str(), hv::estr(f.get_value_at(i)).c_str()); break; }
    }
}

template <typename T> void typed(const CoordinateVector &sz, hv::Rng &g, const char *what) {
    neighbours<T>(sz, g, what);
    elements<T>(sz, g, what);
}
inline void typed_n(const CoordinateVector &sz, int t, uint64_t seed) {
    hv::Rng g(seed);
    switch (t % 8) {
    case 0: typed<int>(sz, g, "int"); break;
    case 1: typed<double>(sz, g, "double"); break;
    case 2: typed<float>(sz, g, "float"); break;
    case 3: typed<int64_t>(sz, g, "int64"); break;
    case 4: typed<Complex<float>>(sz, g, "Complex<float>"); break;
    case 5: typed<Vector<3, double>>(sz, g, "Vector<3,double>"); break;
    case 6: typed<SquareMatrix<2, Complex<double>>>(sz, g, "SquareMatrix<2,Complex<double>>"); break;
    case 7: typed<Vector<5, float>>(sz, g, "Vector<5,float>"); break;
    }
}

} // namespace lat
#endif
