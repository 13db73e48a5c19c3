// P18: clusters against a breadth-first search
#include "hv.h"
#include "clusters.h"

static std::vector<CoordinateVector> cvs;
static int vol() { return (int)cvs.size(); }
static int idx(const CoordinateVector &c) {
    int s = 0;
    for (int d = NDIM - 1; d >= 0; d--) { int n = lattice.size(d); s = s * n + ((c[d] % n) + n) % n; }
    return s;
}
static int nb(int s, int d) { // d in 0..2*NDIM-1: up directions, then down directions
    CoordinateVector c = cvs[s];
    if (d < NDIM) c[d]++; else c[d - NDIM]--;
    return idx(c);
}
static std::string at(int s) { std::string t; for (int d = 0; d < NDIM; d++) t += (d ? "," : "(") + std::to_string(cvs[s][d]); return t + ")"; }

struct State {
    std::vector<int> type;               // site types
    std::vector<int> link[NDIM];         // links
    bool links = false;
};

template <typename T> static void load(Field<T> &f, const std::vector<int> &v) {
    f.check_alloc();
    for (size_t i = 0; i < lattice->mynode.volume; i++) f.set_value_at((T)v[idx(lattice->coordinates(i))], i);
    f.mark_changed(ALL);
}

static void check(const State &st, hila::Clusters &cl) {
    // reference
    std::vector<int> comp(vol(), -1);
    std::vector<int> size, first;
    std::vector<long> area;
    int wraps = 0;
    for (int s0 = 0; s0 < vol(); s0++) {
        bool bg = st.type[s0] == 255;
        if (st.links) { bg = true; for (int d = 0; d < NDIM; d++) if (st.link[d][s0] || st.link[d][nb(s0, d + NDIM)]) bg = false; }
        if (bg || comp[s0] >= 0) continue;
        int c = (int)size.size();
        size.push_back(0); first.push_back(s0); area.push_back(0);
        std::vector<int> q{s0};
        comp[s0] = c;
        while (!q.empty()) {
            int s = q.back(); q.pop_back();
            size[c]++;
            for (int d = 0; d < 2 * NDIM; d++) {
                int t = nb(s, d);
                bool con = st.links ? (d < NDIM ? st.link[d][s] : st.link[d - NDIM][t]) != 0 : st.type[s] == st.type[t];
                if (con && comp[t] < 0) { comp[t] = c; q.push_back(t); }
                if (con && std::abs(cvs[t][d % NDIM] - cvs[s][d % NDIM]) > 1) wraps = 1;
            }
        }
    }
    for (int s = 0; s < vol(); s++) if (comp[s] >= 0) for (int d = 0; d < 2 * NDIM; d++) if (comp[nb(s, d)] != comp[s]) area[comp[s]]++;
    int nc = (int)size.size();
    if (wraps) hv::tag("wraps");
    hv::tag(nc == 0 ? "clusters=0" : nc == 1 ? "clusters=1" : nc < 10 ? "clusters<10" : "clusters>=10");
    hv::nontriv() = nc > 0;
    // number
    if ((int)cl.number() != nc || (int)cl.size() != nc) { hv::fail("number of clusters is %zu, expected %d", cl.number(), nc); }
    if (hv::any_failed()) return;
    // labels
    std::vector<unsigned long> lo(nc, ~0ul), hi(nc, 0);
    for (size_t i = 0; i < lattice->mynode.volume; i++) {
        int s = idx(lattice->coordinates(i));
        uint64_t l = cl.get_labels().get_value_at(i);
        hv::nchecks()++;
        if (comp[s] < 0) { if (hila::get_cl_label_type(l) != hila::Clusters::background) hv::fail("background site %s has label %lx", at(s).c_str(), (unsigned long)l); continue; }
        lo[comp[s]] = std::min<unsigned long>(lo[comp[s]], l);
        hi[comp[s]] = std::max<unsigned long>(hi[comp[s]], l);
    }
    if (nc) {
        MPI_Allreduce(MPI_IN_PLACE, lo.data(), nc, MPI_UNSIGNED_LONG, MPI_MIN, MPI_COMM_WORLD);
        MPI_Allreduce(MPI_IN_PLACE, hi.data(), nc, MPI_UNSIGNED_LONG, MPI_MAX, MPI_COMM_WORLD);
    }
    std::map<unsigned long, int> bylabel;
    for (int c = 0; c < nc; c++) {
        if (lo[c] != hi[c]) { hv::fail("the cluster of site %s has labels %lx and %lx", at(first[c]).c_str(), lo[c], hi[c]); break; }
        if (bylabel.count(lo[c])) { hv::fail("the clusters of sites %s and %s have the same label", at(first[c]).c_str(), at(first[bylabel[lo[c]]]).c_str()); break; }
        bylabel[lo[c]] = c;
    }
    if (hv::any_failed()) return;
    // properties
    std::set<int> seen;
    for (int i = 0; i < nc; i++) {
        auto it = bylabel.find(cl[i].label());
        if (it == bylabel.end()) { hv::fail("cluster %d has label %lx which no site has", i, (unsigned long)cl[i].label()); break; }
        int c = it->second;
        if (!seen.insert(c).second) { hv::fail("cluster %d is listed twice", i); break; }
        if ((int)cl[i].size() != size[c]) hv::fail("cluster of %s has size %ld, expected %d", at(first[c]).c_str(), (long)cl[i].size(), size[c]);
        if (!st.links && cl[i].type() != st.type[first[c]]) hv::fail("cluster of %s has type %d, expected %d", at(first[c]).c_str(), cl[i].type(), st.type[first[c]]);
    }
    if (hv::any_failed()) return;
    for (int k = 0; k < std::min(nc, 8); k++) {
        int i = nc <= 8 ? k : (int)(hv::mix(k, nc) % nc);
        int c = bylabel[cl[i].label()];
        long a = cl[i].area();
        if (a != area[c]) hv::fail("cluster of %s has area %ld, expected %ld", at(first[c]).c_str(), a, area[c]);
        std::vector<SiteIndex> l = cl[i].sites();
        if (hila::myrank() == 0) {
            std::set<int> got;
            for (auto &x : l) {
                CoordinateVector v = x.coordinates();
                int s = idx(v);
                if (!(cvs[s] == v) || comp[s] != c) { hv::fail("site list of the cluster of %s contains %s", at(first[c]).c_str(), at(s).c_str()); break; }
                if (!got.insert(s).second) { hv::fail("site list of the cluster of %s has %s twice", at(first[c]).c_str(), at(s).c_str()); break; }
            }
            if ((int)got.size() != size[c]) hv::fail("site list of the cluster of %s has %zu of %d sites", at(first[c]).c_str(), got.size(), size[c]);
        }
        if (hv::any_failed()) return;
    }
    long tot = 0; int n = 0;
    for (auto r : cl) { tot += r.size(); n++; }
    long want = 0;
    for (int c = 0; c < nc; c++) want += size[c];
    if (n != nc || tot != want) hv::fail("the iteration visits %d clusters with %ld sites, expected %d with %ld", n, tot, nc, want);
}

static void walk(State &st, hv::Rng &g, int type, int len) {
    int s = g.in(0, vol() - 1);
    for (int k = 0; k < len; k++) {
        st.type[s] = type;
        int d = g.in(0, 2 * NDIM - 1), t = nb(s, d);
        st.link[d % NDIM][d < NDIM ? s : t] = g.in(1, 3);
        s = t;
    }
}

int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    lattice.setup(hv::size_vector());
    int n = 1;
    foralldir(d) n *= lattice.size(d);
    for (int s = 0; s < n; s++) {
        CoordinateVector c;
        int k = s;
        for (int d = 0; d < NDIM; d++) { c[d] = k % lattice.size(d); k /= lattice.size(d); }
        cvs.push_back(c);
    }
    hv::run([&](const hv::Case &c) {
        State st;
        st.type.assign(vol(), 255);
        for (auto &l : st.link) l.assign(vol(), 0);
        hila::Clusters cl;
        for (auto &o : c.ops) {
            hv::where() = o.name();
            const std::string &k = o.name();
            if (k == "all") { // all TYPE
                st.type.assign(vol(), o.i(1));
                for (auto &l : st.link) l.assign(vol(), o.i(1) == 255 ? 0 : 1);
            } else if (k == "rnd") { // rnd SEED NTYPES BACKGROUND% LINK%
                hv::Rng g(o.u(1));
                for (auto &x : st.type) x = g.in(0, 99) < o.i(3) ? 255 : g.in(0, o.i(2) - 1) * (o.i(2) > 3 ? 1 : 127);
                for (auto &l : st.link) for (auto &x : l) x = g.in(0, 99) < o.i(4) ? g.in(1, 3) : 0;
            } else if (k == "walk") { // walk SEED TYPE LENGTH
                hv::Rng g(o.u(1));
                walk(st, g, o.i(2), o.i(3));
            } else if (k == "line") { // line DIR TYPE coordinates: a line around the lattice
                CoordinateVector v;
                for (int d = 0; d < NDIM; d++) v[d] = o.i(3 + d);
                int d = o.i(1), s = idx(v);
                for (int j = 0; j < lattice.size(d); j++) { st.type[s] = o.i(2); st.link[d][s] = o.i(2) != 255; s = nb(s, d); }
            } else if (k == "spiral") { // spiral DIR TYPE STEP: a line which moves sideways after each turn
                int d = o.i(1), e = (d + 1) % NDIM, s = 0;
                for (int j = 0; j < vol() / 2; j++) {
                    st.type[s] = o.i(2);
                    int dd = (j + 1) % o.i(3) == 0 ? e : d;
                    st.link[dd][s] = 1;
                    s = nb(s, dd);
                }
            } else if (k == "site") { // site TYPE coordinates
                CoordinateVector v;
                for (int d = 0; d < NDIM; d++) v[d] = o.i(2 + d);
                st.type[idx(v)] = o.i(1);
            } else if (k == "link") { // link DIR VALUE coordinates
                CoordinateVector v;
                for (int d = 0; d < NDIM; d++) v[d] = o.i(3 + d);
                st.link[o.i(1)][idx(v)] = o.i(2);
            } else if (k == "find") { // find KIND
                int kind = o.i(1);
                st.links = kind >= 3;
                hv::tag("kind=" + std::to_string(kind));
#ifdef VECTORIZED
                if (kind == 1 || kind == 0) { Field<int> f; load(f, st.type); hila::Clusters c2(f); cl = c2; }
                else if (kind == 2) { Field<int64_t> f; load(f, st.type); cl.find(f); }
                else { VectorField<int> f; foralldir(d) load(f[d], st.link[d]); hila::Clusters c2(f); cl = c2; }
#else
                if (kind == 0) { Field<uint8_t> f; load(f, st.type); cl.find(f); }
                else if (kind == 1) { Field<int> f; load(f, st.type); hila::Clusters c2(f); cl = c2; }
                else if (kind == 2) { Field<int64_t> f; load(f, st.type); cl.make_labels(f); cl.classify(); }
                else if (kind == 3) { VectorField<uint8_t> f; foralldir(d) load(f[d], st.link[d]); cl.find(f); }
                else { VectorField<int> f; foralldir(d) load(f[d], st.link[d]); hila::Clusters c2(f); cl = c2; }
#endif
                check(st, cl);
                if (hv::any_failed()) return;
            }
        }
    });
    hila::finishrun();
    return 0;
}
