// P20: blocked lattices and transfers of fields between them, against a model which knows the value of every field at every site
#include "lat.h"
#include "dft.h"

struct MLat { CoordinateVector sz; int parent; lattice_struct *ptr; };
static std::vector<MLat> lats;
static int cur = 0;
static const CoordinateVector &SZ() { return lats[cur].sz; }

struct Model { int lat = -1; std::vector<long> v; }; // lat -1: not allocated

template <typename T> struct Run {
    static constexpr int NF = 4;
    Field<T> f[NF];
    Model m[NF];

    void compare(int k, const char *when) {
        if (m[k].lat < 0) { if (f[k].is_allocated()) hv::fail("%s: field %d has storage, expected none", when, k); return; }
        if (!f[k].is_allocated()) { hv::fail("%s: field %d has no storage", when, k); return; }
        if (f[k].mylattice().ptr() != lats[m[k].lat].ptr) { hv::fail("%s: field %d belongs to another lattice than expected", when, k); return; }
        lattice_struct *was = lattice.ptr();
        lattice.switch_to(lats[m[k].lat].ptr);
        const CoordinateVector &sz = lats[m[k].lat].sz;
        for (size_t i = 0; i < lattice->mynode.volume; i++) {
            CoordinateVector c = lattice->coordinates(i);
            T want = lat::val<T>(m[k].v[hv::gindex(c, sz)]), got = f[k].get_value_at(i);
            if (!lat::eq(want, got)) { hv::fail("%s: field %d on the lattice %s at %s is %s, expected %s", when, k, hv::cstr(sz).c_str(), hv::cstr(c).c_str(), hv::estr(got).c_str(), hv::estr(want).c_str()); break; }
        }
        lattice.switch_to(was);
    }
    void here(const char *what) {
        if (lattice.ptr() != lats[cur].ptr) { hv::fail("%s: not on the expected lattice", what); lattice.switch_to(lats[cur].ptr); }
        if (lattice.size() != SZ()) hv::fail("%s: lattice size %s, expected %s", what, hv::cstr(lattice.size()).c_str(), hv::cstr(SZ()).c_str());
        if (lattice.is_base() != (cur == 0)) hv::fail("%s: is_base() is %d", what, (int)lattice.is_base());
    }
    void block(const CoordinateVector &fac, int scalar) {
        bool ok = true;
        CoordinateVector nsz;
        foralldir(d) { if (SZ()[d] % fac[d]) ok = false; nsz[d] = SZ()[d] / fac[d]; }
        if (lattice.can_block(fac) != ok) hv::fail("can_block%s on %s is %d", hv::cstr(fac).c_str(), hv::cstr(SZ()).c_str(), (int)!ok);
        if (!ok || hv::any_failed()) return;
        if (scalar) lattice.block(fac[0]); else lattice.block(fac);
        int to = -1;
        if (nsz == SZ()) to = cur;
        for (int j = 0; j < (int)lats.size() && to < 0; j++) if (lats[j].parent == cur && lats[j].sz == nsz) to = j;
        if (to < 0) { to = (int)lats.size(); lats.push_back({nsz, cur, lattice.ptr()}); hv::tag("newlattice"); } else hv::tag("again");
        cur = to;
        here("block");
        if (hila::number_of_nodes() > 1) { long e = lat::total({lattice->mynode.volume == 0})[0]; if (e) hv::tag("emptynodes"); }
        hv::tag("depth=" + std::to_string(depth()));
        hv::nontriv() = true;
    }
    int depth() { int n = 0; for (int j = cur; lats[j].parent >= 0; j = lats[j].parent) n++; return n; }
    void set(int k, uint64_t seed) {
        f[k].clear();
        f[k].check_alloc();
        m[k].lat = cur;
        m[k].v.resize(lat::volume(SZ()));
        for (size_t i = 0; i < m[k].v.size(); i++) m[k].v[i] = (long)(hv::mix(seed, i) % 100000);
        for (size_t i = 0; i < lattice->mynode.volume; i++) f[k].set_value_at(lat::val<T>(m[k].v[hv::gindex(lattice->coordinates(i), SZ())]), i);
        f[k].mark_changed(ALL);
    }
    void op(const hv::Op &o) {
        const std::string &k = o.name();
        hv::where() = k;
        if (k == "block") { CoordinateVector c; foralldir(d) c[d] = o.i(1 + d); block(c, 0); return; }
        if (k == "blockn") { CoordinateVector c; c.fill(o.i(1)); block(c, 1); return; }
        if (k == "unblock") { if (lats[cur].parent < 0) return; lattice.unblock(); cur = lats[cur].parent; here("unblock"); return; }
        if (k == "base") { lattice.switch_to_base(); cur = 0; here("switch_to_base"); return; }
        if (k == "scan") { lat::scan(SZ()); return; }
        if (k == "loops") { lat::loops(SZ()); return; }
        if (k == "typed") { lat::typed_n(SZ(), o.i(1), o.u(2)); return; }
        if (k == "fft") { fft(o.u(1)); return; }
        int a = o.i(1) % NF, b = o.n() > 2 ? (o.u(2) % NF) : 0;
        if (k == "set") set(a, o.u(2));
        else if (k == "clear") { f[a].clear(); m[a].lat = -1; }
        else if (k == "switch") { if (m[a].lat < 0) return; auto l = f[a].mylattice(); lattice.switch_to(l); cur = m[a].lat; here("switch_to(mylattice)"); }
        else if (k == "from") { // from A B: A, on this or another lattice, from B on its parent
            if (m[b].lat < 0 || a == b) return;
            int la = m[a].lat < 0 ? cur : m[a].lat;
            if (la != m[b].lat && lats[la].parent != m[b].lat) return;
            f[a].block_from(f[b]);
            here("block_from");
            std::vector<long> v(lat::volume(lats[la].sz));
            copy(v, lats[la].sz, m[b].v, lats[m[b].lat].sz, true);
            m[a] = {la, v};
            hv::tag("from");
            if (la != cur) hv::tag("from_inactive");
        } else if (k == "to") { // to A B: from A to the parent field B
            if (m[a].lat < 0 || m[b].lat < 0 || a == b) return;
            if (lats[m[a].lat].parent != m[b].lat) return;
            f[a].unblock_to(f[b]);
            here("unblock_to");
            copy(m[a].v, lats[m[a].lat].sz, m[b].v, lats[m[b].lat].sz, false);
            hv::tag("to");
            if (m[a].lat != cur) hv::tag("to_inactive");
        } else if (k == "cur") { // cur A
            if (m[a].lat < 0 || (m[a].lat != cur && lats[cur].parent != m[a].lat)) return;
            f[a].block_to_current_lattice();
            here("block_to_current_lattice");
            if (m[a].lat != cur) {
                std::vector<long> v(lat::volume(SZ()));
                copy(v, SZ(), m[a].v, lats[m[a].lat].sz, true);
                m[a] = {cur, v};
                hv::tag("cur");
            }
        } else if (k == "nb") { // nb A B DIR PAR: A[X] = B[X+DIR]
            if (m[b].lat != cur || a == b) return;
            Direction d = (Direction)(o.i(3) % NDIRS);
            int p = o.i(4);
            if (m[a].lat != cur) { set(a, 77); }
            if (p == 1) { onsites(EVEN) f[a][X] = f[b][X + d]; }
            else if (p == 2) { onsites(ODD) f[a][X] = f[b][X + d]; }
            else { onsites(ALL) f[a][X] = f[b][X + d]; }
            for (size_t i = 0; i < m[a].v.size(); i++) {
                CoordinateVector c = hv::gcoord(i, SZ());
                if (p == 3 || hv::gparity(c) == p - 1) m[a].v[i] = m[b].v[hv::gindex(hv::wrap(c + d, SZ()), SZ())];
            }
            hv::tag("nb");
        } else if (k == "elem") { // elem A SITE VALUE
            if (m[a].lat != cur) return;
            size_t i = o.u(2) % m[a].v.size();
            CoordinateVector c = hv::gcoord(i, SZ());
            T got = f[a][c];
            if (!lat::eq(got, lat::val<T>(m[a].v[i]))) hv::fail("element %s of field %d is %s, expected %s", hv::cstr(c).c_str(), a, hv::estr(got).c_str(), hv::estr(lat::val<T>(m[a].v[i])).c_str());
            m[a].v[i] = o.i(3);
            f[a][c] = lat::val<T>(o.i(3));
        } else if (k == "shift") { // shift A B seed
            if (m[b].lat != cur || a == b) return;
            if (m[a].lat != cur) { f[a].clear(); }
            hv::Rng g(o.u(3));
            CoordinateVector v;
            foralldir(d) v[d] = g.in(-3, 3);
            f[b].shift(v, f[a], ALL);
            std::vector<long> r(m[b].v.size());
            for (size_t i = 0; i < r.size(); i++) r[i] = m[b].v[hv::gindex(hv::wrap(hv::gcoord(i, SZ()) + v, SZ()), SZ())];
            m[a] = {cur, r};
            hv::tag("shift");
        } else if (k == "copy") {
            if (m[b].lat != cur || a == b) return;
            if (m[a].lat >= 0 && m[a].lat != cur) f[a].clear();
            f[a] = f[b];
            m[a] = m[b];
        }
    }
    // small: values of the blocked lattice, big: of its parent
    void copy(std::vector<long> &sm, const CoordinateVector &ss, std::vector<long> &bg, const CoordinateVector &bs, bool down) {
        for (size_t i = 0; i < sm.size(); i++) {
            CoordinateVector c = hv::gcoord(i, ss);
            foralldir(d) c[d] *= bs[d] / ss[d];
            size_t j = hv::gindex(c, bs);
            if (down) sm[i] = bg[j]; else bg[j] = sm[i];
        }
    }
    void fft(uint64_t seed) {
        size_t n = lat::volume(SZ());
        if (lat::total({lattice->mynode.volume == 0})[0]) return; // not supported: aborts (see DESIGN.md)
        std::vector<dft::C> a(n);
        for (size_t i = 0; i < n; i++) a[i] = dft::C(hv::ival(seed, i), hv::ival(seed + 1, i));
        Field<Complex<double>> x, y;
        x.check_alloc();
        for (size_t i = 0; i < lattice->mynode.volume; i++) { auto z = a[hv::gindex(lattice->coordinates(i), SZ())]; x.set_value_at(Complex<double>(z.real(), z.imag()), i); }
        x.mark_changed(ALL);
        bool back = seed & 1;
        y = x.FFT(back ? fft_direction::back : fft_direction::forward);
        dft::transform(a, SZ(), (1 << NDIM) - 1, back ? 1 : -1);
        std::vector<dft::C> b = a;
        dft::reflect(b, SZ(), (1 << NDIM) - 1);
        double e1 = 0, e2 = 0;
        for (size_t i = 0; i < lattice->mynode.volume; i++) {
            auto z = y.get_value_at(i);
            size_t j = hv::gindex(lattice->coordinates(i), SZ());
            e1 = std::max(e1, std::abs(dft::C(z.re, z.im) - a[j]));
            e2 = std::max(e2, std::abs(dft::C(z.re, z.im) - b[j]));
        }
        double e[2] = {e1, e2}, g[2];
        MPI_Allreduce(e, g, 2, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
        if (!(std::min(g[0], g[1]) <= 1e-9 * n)) hv::fail("the transform on the lattice %s is off by %g", hv::cstr(SZ()).c_str(), std::min(g[0], g[1]));
        hv::tag("fft");
    }
    void go(const hv::Case &c) {
        for (auto &o : c.ops) {
            if (o.name() == "T") continue;
            op(o);
            for (int k = 0; k < NF; k++) compare(k, o.name().c_str());
            if (hv::any_failed()) break;
        }
        for (int k = 0; k < NF; k++) f[k].clear();
    }
};

int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    CoordinateVector sz = hv::size_vector();
    lattice.setup(sz);
    hila::seed_random(1);
    lats.push_back({sz, -1, lattice.ptr()});
    hv::run([&](const hv::Case &c) {
        lattice.switch_to(lats[0].ptr);
        cur = 0;
        int t = c.ops.at(0).i(1);
        if (t == 0) { Run<double> r; r.go(c); }
        else if (t == 1) { Run<int> r; r.go(c); }
        else if (t == 2) { Run<SquareMatrix<2, Complex<double>>> r; r.go(c); }
        else { Run<Vector<3, float>> r; r.go(c); }
        hv::tag("type=" + std::to_string(t));
        lattice.switch_to(lats[0].ptr);
    });
    lattice.switch_to(lats[0].ptr);
    hila::finishrun();
    return 0;
}
