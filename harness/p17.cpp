// P17: site selection in loops, site indices, coordinate and direction algebra
#include "hv.h"

static std::vector<CoordinateVector> cvs;
static CoordinateVector SZ;
static int vol() { return (int)cvs.size(); }
static std::string at(int s) { return hv::cstr(cvs[s]); }

template <typename V> static double num(const V &v) { return (double)v; }
static double num(const Vector<3, float> &v) { return v[0] + 1000.0 * v[1] + 1e6 * v[2]; }

// chosen[s]: site s is selected; val[s]: the admissible values
struct Want {
    std::vector<char> chosen;
    std::vector<std::set<double>> val;
    Want() : chosen(vol(), 0), val(vol()) {}
};

template <typename S, typename F> static void verify(S &s, const Want &w, size_t nmax, bool joined, bool values, F value) {
    size_t total = 0;
    std::vector<char> mine(vol(), 1);
    if (!joined) { // only the sites of this process
        mine.assign(vol(), 0);
        for (size_t i = 0; i < lattice->mynode.volume; i++) mine[hv::gindex(lattice->coordinates(i), SZ)] = 1;
    }
    for (int k = 0; k < vol(); k++) total += w.chosen[k] && mine[k];
    if (joined && hila::myrank() != 0) return; // the result is on process 0
    size_t want = std::min(total, nmax);
    if (s.size() != want) { hv::fail("%zu sites are selected, expected %zu", s.size(), want); return; }
    if (s.overflow() != total - want) { hv::fail("overflow is %zu, expected %zu of %zu selected", s.overflow(), total - want, total); return; }
    std::set<int> got;
    for (size_t k = 0; k < s.size(); k++) {
        CoordinateVector c = s.coordinates(k);
        hv::nchecks()++;
        for (int d = 0; d < NDIM; d++) if (c[d] < 0 || c[d] >= SZ[d]) { hv::fail("selected site %zu is %s", k, hv::cstr(c).c_str()); return; }
        int i = (int)hv::gindex(c, SZ);
        if ((size_t)i != s.site_index(k).value) { hv::fail("site index %zu of %s", (size_t)s.site_index(k).value, hv::cstr(c).c_str()); return; }
        if (!w.chosen[i] || !mine[i]) { hv::fail("site %s is in the list but was not selected", at(i).c_str()); return; }
        if (!got.insert(i).second) { hv::fail("site %s is selected twice", at(i).c_str()); return; }
        if (values && !w.val[i].count(value(s, k))) { hv::fail("value of site %s is %g, expected %g", at(i).c_str(), value(s, k), w.val[i].empty() ? 0.0 : *w.val[i].begin()); return; }
    }
}
static auto none = [](auto &, size_t) { return 0.0; };
static auto val = [](auto &s, size_t k) { return num(s.value(k)); };

static void sel(const hv::Op &o) { // sel KIND SEED P PARITY MAX NOJOIN   (MAX < 0: default)
    int kind = o.i(1), p = o.i(3);
    uint64_t seed = o.u(2);
    Parity par = (Parity)o.i(4);
    long mx = o.i(5);
    bool nj = o.i(6);
    size_t nmax = mx < 0 ? vol() : mx;
    Field<int> a, b;
    a.check_alloc(); b.check_alloc();
    auto A = [&](int s) { return (int)(hv::mix(seed, s) % 100) < p ? 1 + (int)(hv::mix(seed + 1, s) % 3) : 0; };
    auto B = [&](int s) { return (int)(hv::mix(seed + 2, s) % 100) < p ? 1 : 0; };
    auto on = [&](int s) { int q = hv::gparity(cvs[s]); return par == ALL || (par == EVEN) == (q == 0); };
    for (size_t i = 0; i < lattice->mynode.volume; i++) {
        int s = (int)hv::gindex(lattice->coordinates(i), SZ);
        a.set_value_at(A(s), i);
        b.set_value_at(B(s), i);
    }
    a.mark_changed(ALL); b.mark_changed(ALL);
    hv::tag("kind=" + std::to_string(kind));
    if (mx >= 0) hv::tag("max");
    if (nj) hv::tag("no_join");
    Want w, w2;
    auto set = [&](auto &s) { if (mx >= 0) s.max_size(mx); if (nj) s.no_join(); };
    auto done = [&](auto &s, const Want &q, bool values, auto value) {
        if (nj) {
            verify(s, q, nmax, false, values, value);
            s.join();
        }
        verify(s, q, nmax, true, values, value);
    };
    if (kind == 0) {
        SiteSelect s; set(s);
        onsites(par) if (a[X] > 0) s.select(X);
        for (int k = 0; k < vol(); k++) w.chosen[k] = on(k) && A(k);
        done(s, w, false, none);
    } else if (kind == 1) {
        SiteSelect s; set(s);
        onsites(par) {
            if (a[X] > 1) s.select(X);
            if (b[X] > 0) s.select(X);
        }
        for (int k = 0; k < vol(); k++) w.chosen[k] = on(k) && (A(k) > 1 || B(k));
        done(s, w, false, none);
    } else if (kind == 2) {
        SiteValueSelect<double> s; set(s);
        onsites(par) {
            if (a[X] > 0) s.select(X, a[X] * 10.5 + X.coordinate(e_x));
        }
        for (int k = 0; k < vol(); k++) { w.chosen[k] = on(k) && A(k); w.val[k] = {A(k) * 10.5 + cvs[k][0]}; }
        done(s, w, true, val);
    } else if (kind == 3) {
        SiteValueSelect<Vector<3, float>> s; set(s);
        onsites(par) {
            Vector<3, float> v;
            v[0] = a[X]; v[1] = b[X]; v[2] = X.coordinate(e_x);
            if (a[X] > 0 || b[X] > 0) s.select(X, v);
        }
        for (int k = 0; k < vol(); k++) { w.chosen[k] = on(k) && (A(k) || B(k)); w.val[k] = {A(k) + 1000.0 * B(k) + 1e6 * cvs[k][0]}; }
        done(s, w, true, val);
    } else if (kind == 4) { // the same site twice
        SiteValueSelect<int> s; set(s);
        onsites(par) {
            if (a[X] > 0) s.select(X, a[X]);
            if (b[X] > 0) s.select(X, 7);
        }
        for (int k = 0; k < vol(); k++) { w.chosen[k] = on(k) && (A(k) || B(k)); if (B(k)) w.val[k] = {7}; else w.val[k] = {(double)A(k)}; }
        done(s, w, true, val);
    } else if (kind == 5) { // two selections in one loop
        SiteSelect s; set(s);
        SiteValueSelect<float> t; set(t);
        onsites(par) {
            if (a[X] > 0) s.select(X);
            if (b[X] > 0) t.select(X, a[X + e_x]);
        }
        for (int k = 0; k < vol(); k++) {
            w.chosen[k] = on(k) && A(k);
            w2.chosen[k] = on(k) && B(k);
            CoordinateVector c = cvs[k];
            c[0] = (c[0] + 1) % SZ[0];
            w2.val[k] = {(double)A((int)hv::gindex(c, SZ))};
        }
        done(s, w, false, none);
        if (!hv::any_failed()) done(t, w2, true, val);
    } else if (kind == 6) { // in an inner loop
        SiteValueSelect<double> s; set(s);
        onsites(par) {
            for (int j = 0; j < a[X]; j++) s.select(X, 2.5);
        }
        for (int k = 0; k < vol(); k++) { w.chosen[k] = on(k) && A(k); w.val[k] = {2.5}; }
        done(s, w, true, val);
    } else { // one variable in consecutive loops
        SiteValueSelect<int64_t> s; set(s);
        onsites(par) if (b[X] > 0) s.select(X, 5);
        for (int k = 0; k < vol(); k++) { w2.chosen[k] = on(k) && B(k); w2.val[k] = {5}; }
        done(s, w2, true, val);
        if (hv::any_failed()) return;
        onsites(par) if (a[X] > 0) s.select(X, -a[X]);
        for (int k = 0; k < vol(); k++) { w.chosen[k] = on(k) && A(k); w.val[k] = {-(double)A(k)}; }
        done(s, w, true, val);
    }
    for (int k = 0; k < vol(); k++) if (w.chosen[k]) hv::nontriv() = true;
}

// ---- coordinates
typedef std::vector<long> V;
static V vec(const CoordinateVector &c) { V v; for (int d = 0; d < NDIM; d++) v.push_back(c[d]); return v; }
static std::string str(const V &v) { std::string s; for (long x : v) s += " " + std::to_string(x); return s; }
static void eq(const char *what, const V &a, const V &b) { hv::nchecks()++; if (a != b) hv::fail("%s gives%s, expected%s", what, str(a).c_str(), str(b).c_str()); }
static void eq(const char *what, const CoordinateVector &a, const V &b) { eq(what, vec(a), b); }
static void eqn(const char *what, double a, double b) { hv::nchecks()++; if (!(a == b)) hv::fail("%s gives %.17g, expected %.17g", what, a, b); }
static V unit(int d) { V v(NDIM, 0); if (d < NDIM) v[d] = 1; else v[2 * NDIM - 1 - d] = -1; return v; }
static V add(V a, const V &b, long f = 1) { for (int d = 0; d < NDIM; d++) a[d] += f * b[d]; return a; }
static V neg(V a) { for (auto &x : a) x = -x; return a; }
static V mul(V a, long k) { for (auto &x : a) x *= k; return a; }
static long mod(long a, long b) { return ((a % b) + b) % b; }

static void coord(const hv::Op &o) { // coord SEED RANGE
    hv::Rng g(o.u(1));
    int R = o.i(2);
    hv::nontriv() = true;
    CoordinateVector a, b;
    for (int d = 0; d < NDIM; d++) { a[d] = g.in(-R, R); b[d] = g.in(-R, R); }
    V A = vec(a), B = vec(b);
    Direction d = (Direction)g.in(0, 2 * NDIM - 1), e = (Direction)g.in(0, 2 * NDIM - 1);
    int D = (int)d, Ed = (int)e;
    int k = g.in(-5, 5);
    long dt = 0, sum = 0, l1 = 0, sq = 0;
    for (int i = 0; i < NDIM; i++) { dt += A[i] * B[i]; sum += A[i]; l1 += std::labs(A[i]); sq += A[i] * A[i]; }
    eq("a + b", a + b, add(A, B));
    eq("a - b", a - b, add(A, B, -1));
    CoordinateVector t = a; t += b; eq("a += b", t, add(A, B));
    t = a; t -= b; eq("a -= b", t, add(A, B, -1));
    t = a; t += d; eq("a += dir", t, add(A, unit(D)));
    t = a; t -= d; eq("a -= dir", t, add(A, unit(D), -1));
    eq("a + dir", a + d, add(A, unit(D)));
    eq("a - dir", a - d, add(A, unit(D), -1));
    eq("dir + a", d + a, add(A, unit(D)));
    eq("dir - a", d - a, add(unit(D), A, -1));
    eq("dir + dir", d + e, add(unit(D), unit(Ed)));
    eq("dir - dir", d - e, add(unit(D), unit(Ed), -1));
    eq("k * dir", k * d, mul(unit(D), k));
    eq("dir * k", d * k, mul(unit(D), k));
    eq("k * a", CoordinateVector(k * a), mul(A, k));
    eq("a * k", CoordinateVector(a * k), mul(A, k));
    t = a; t *= k; eq("a *= k", t, mul(A, k));
    eq("-a", -a, neg(A));
    eq("+a", +a, A);
    eq("-dir", CoordinateVector(-d), neg(unit(D)));
    eq("+dir", CoordinateVector(+d), unit(D));
    t = d; eq("a = dir", t, unit(D));
    t = 0; eq("a = 0", t, V(NDIM, 0));
    eqn("a.dot(b)", a.dot(b), dt);
    eqn("squarenorm", a.squarenorm(), sq);
    eqn("norm_L1", a.norm_L1(), l1);
    eqn("parity", (int)a.parity(), sum % 2 == 0 ? 1 : 2);
    eqn("a == b", a == b, A == B);
    eqn("a == a", a == CoordinateVector(a), 1);
    eqn("a != b", a != b, A != B);
    t = a; int ch = g.in(0, NDIM - 1); t[ch] += 1;
    eqn("a == a + e", a == t, 0);
    eqn("a != a + e", a != t, 1);
    eqn("a == dir", a == d, A == unit(D));
    eqn("unit == dir", CoordinateVector(e) == d, D == Ed);
    Direction x = e_x;
    bool isd = l1 == 1;
    eqn("is_direction", a.is_direction(x), isd);
    if (isd) eq("is_direction result", CoordinateVector(x), A);
    eqn("unit is_direction", CoordinateVector(d).is_direction(x), 1);
    eqn("unit is_direction result", (int)x, D);
    CoordinateVector m;
    V M;
    for (int i = 0; i < NDIM; i++) { m[i] = g.in(1, 12); M.push_back(m[i]); }
    V md = A; bool div = true;
    for (int i = 0; i < NDIM; i++) { md[i] = mod(A[i], M[i]); if (md[i]) div = false; }
    eq("a.mod(m)", a.mod(m), md);
    eqn("is_divisible", a.is_divisible(m), div);
    CoordinateVector am; for (int i = 0; i < NDIM; i++) am[i] = m[i] * g.in(-3, 3);
    eqn("is_divisible of a multiple", am.is_divisible(m), 1);
    for (int i = 0; i < NDIM; i++) eqn("pmod", pmod(a[i], m[i]), mod(A[i], M[i]));
    // directions
    eqn("opp_dir", opp_dir(d), 2 * NDIM - 1 - D);
    eqn("opp_dir(int)", opp_dir((int)d), 2 * NDIM - 1 - D);
    eqn("-dir", -d, 2 * NDIM - 1 - D);
    eqn("- -dir", -(-d), D);
    eqn("abs(dir)", abs(d), D < NDIM ? D : 2 * NDIM - 1 - D);
    eqn("is_up_dir", is_up_dir(d), D < NDIM);
    eqn("is_up_dir(int)", is_up_dir((int)d), D < NDIM);
    long dd = 0; for (int i = 0; i < NDIM; i++) dd += unit(D)[i] * unit(Ed)[i];
    eqn("dir_dot_product", dir_dot_product(d, e), dd);
    eqn("next_direction", next_direction(d), D + 1);
    x = d; eqn("dir++", x++, D); eqn("after dir++", x, D + 1);
    x = d; eqn("++dir", ++x, D + 1);
    eqn("dir mask", get_dir_mask(d), 1 << D);
    static const char *nm[] = {"x", "y", "z", "t"};
    std::string name = std::string(D < NDIM ? "e_" : "-e_") + nm[D < NDIM ? D : 2 * NDIM - 1 - D];
    if (hila::prettyprint(d) != name) hv::fail("direction %d is printed as %s", D, hila::prettyprint(d).c_str());
    std::stringstream os; os << d;
    if (os.str() != name) hv::fail("direction %d is written as %s", D, os.str().c_str());
    int n = 0; bool order = true;
    foralldir(q) { if ((int)q != n) order = false; n++; }
    if (n != NDIM || !order) hv::fail("foralldir visits %d directions", n);
    // parities
    for (Parity p : {EVEN, ODD, ALL, Parity::none}) {
        Parity w = p == EVEN ? ODD : p == ODD ? EVEN : p;
        eqn("opp_parity", (int)opp_parity(p), (int)w);
        eqn("~parity", (int)~p, (int)w);
        eqn("is_even_odd_parity", is_even_odd_parity(p), p == EVEN || p == ODD);
        eqn("parity_bits", parity_bits(p), p == EVEN ? 1 : p == ODD ? 2 : p == ALL ? 3 : 0);
        eqn("parity_bits_inverse", parity_bits_inverse(p), 3 - parity_bits(p));
    }
    eqn("parity of a neighbour", (int)(a + d).parity(), (int)opp_parity(a.parity()));
    // site index
    CoordinateVector c = a.mod(SZ);
    eq("a.mod(size)", c, [&] { V r = A; for (int i = 0; i < NDIM; i++) r[i] = mod(A[i], SZ[i]); return r; }());
    size_t ix = hv::gindex(c, SZ);
    eqn("SiteIndex", SiteIndex(c).value, ix);
    eq("SiteIndex.coordinates", SiteIndex(c).coordinates(), vec(c));
    eq("SiteIndex(v).coordinates", SiteIndex(ix).coordinates(), vec(c));
    // wave number
    Vector<NDIM, double> kk = c.convert_to_k(), k2 = convert_to_k(c);
    for (int i = 0; i < NDIM; i++) {
        long q = c[i] > SZ[i] / 2 ? c[i] - SZ[i] : c[i];
        double w = 2 * M_PI * q / SZ[i];
        hv::nchecks()++;
        if (std::fabs(kk[i] - w) > 1e-14 * 4 || std::fabs(k2[i] - w) > 1e-14 * 4) hv::fail("wave number %d of %s is %.17g, expected %.17g", i, hv::cstr(c).c_str(), kk[i], w);
    }
    // conversions
    Vector<NDIM, int> vi = a;
    Vector<NDIM, double> vd = (Vector<NDIM, double>)a;
    for (int i = 0; i < NDIM; i++) { eqn("conversion to Vector", vi[i], A[i]); eqn("conversion to a double Vector", vd[i], A[i]); }
    CoordinateVector back = vi; eq("conversion from Vector", back, A);
    back = vd; eq("assignment of a double Vector", back, A);
    eqn("a[dir]", a[(Direction)ch], A[ch]);
    eqn("a.e()", a.e(ch), A[ch]);
}
// coordinates as seen in a site loop
static void loopcoord(const hv::Op &o) { // loopcoord SEED
    hv::Rng g(o.u(1));
    hv::nontriv() = true;
    Direction d = (Direction)g.in(0, NDIM - 1);
    CoordinateVector off, m;
    for (int i = 0; i < NDIM; i++) { off[i] = g.in(-9, 9); m[i] = g.in(1, 4); }
    Field<int> ix, par, cd, sh, ev;
    Field<double> tot;
    onsites(ALL) {
        ix[X] = SiteIndex(X.coordinates()).value;
        par[X] = X.parity() == EVEN ? 0 : 1;
        cd[X] = X.coordinate(d) + 1000 * X.x();
        CoordinateVector c = (X.coordinates() + off).mod(lattice.size());
        sh[X] = SiteIndex(c).value;
        ev[X] = X.coordinates().is_divisible(m) ? 1 : 0;
        tot[X] = X.coordinates().dot(off);
    }
    for (size_t i = 0; i < lattice->mynode.volume; i++) {
        CoordinateVector c = lattice->coordinates(i);
        int s = (int)hv::gindex(c, SZ);
        hv::nchecks()++;
        eqn("SiteIndex in a loop", ix.get_value_at(i), s);
        eqn("parity in a loop", par.get_value_at(i), hv::gparity(c));
        eqn("coordinate in a loop", cd.get_value_at(i), c[d] + 1000 * c[0]);
        CoordinateVector t; long dt = 0; bool dv = true;
        for (int j = 0; j < NDIM; j++) { t[j] = c[j] + off[j]; dt += c[j] * off[j]; if (c[j] % m[j]) dv = false; }
        eqn("shifted index in a loop", sh.get_value_at(i), hv::gindex(hv::wrap(t, SZ), SZ));
        eqn("is_divisible in a loop", ev.get_value_at(i), dv);
        eqn("dot in a loop", tot.get_value_at(i), dt);
    }
}

int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    SZ = hv::size_vector();
    lattice.setup(SZ);
    size_t n = 1;
    for (int d = 0; d < NDIM; d++) n *= SZ[d];
    for (size_t s = 0; s < n; s++) cvs.push_back(hv::gcoord(s, SZ));
    hv::run([&](const hv::Case &c) {
        for (auto &o : c.ops) {
            hv::where() = o.name();
            if (o.name() == "sel") sel(o);
            else if (o.name() == "coord") coord(o);
            else if (o.name() == "loopcoord") loopcoord(o);
            if (hv::any_failed()) return;
        }
    });
    hila::finishrun();
    return 0;
}
