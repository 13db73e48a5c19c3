// P16: ExtendedPrecision against exact arithmetic
#include "disp.h"
using L = long double;

// exact fixed-point number: 32-bit limbs, value = sum limb[k] 2^(32 k - BASE)
struct Big {
    static constexpr int N = 80, BASE = 1216;
    int64_t l[N] = {};
    void norm() {
        for (int k = 0; k < N - 1; k++) {
            int64_t c = l[k] >> 32;
            l[k] -= c << 32;
            l[k + 1] += c;
        }
    }
    void add(double x) {
        if (x == 0) return;
        int e;
        double f = std::frexp(x, &e);
        int64_t m = (int64_t)std::ldexp(f, 53);
        int p = e - 53 + BASE;
        bool neg = m < 0;
        unsigned __int128 w = (unsigned __int128)(uint64_t)(neg ? -m : m) << (p % 32);
        for (int k = 0; k < 3; k++) {
            int64_t d = (int64_t)(uint32_t)(w >> (32 * k));
            l[p / 32 + k] += neg ? -d : d;
        }
        norm();
    }
    void add(const Big &o, int s = 1) { for (int k = 0; k < N; k++) l[k] += s * o.l[k]; norm(); }
    void mul(int64_t f) {
        __int128 c = 0;
        for (int k = 0; k < N - 1; k++) {
            c += (__int128)l[k] * f;
            l[k] = (int64_t)(uint32_t)c;
            c >>= 32;
        }
        l[N - 1] = (int64_t)(c + (__int128)l[N - 1] * f);
        norm();
    }
    void neg() { for (auto &x : l) x = -x; norm(); }
    int sign() const {
        if (l[N - 1] < 0) return -1;
        for (int k = N - 1; k >= 0; k--) if (l[k]) return 1;
        return 0;
    }
    L val() const {
        Big b = *this;
        int s = sign();
        if (s < 0) b.neg();
        L r = 0;
        for (int k = N - 1; k >= 0; k--) if (b.l[k]) r += std::ldexp((L)b.l[k], 32 * k - BASE); // top limbs dominate
        return s * r;
    }
};

struct Reg {
    ExtendedPrecision e;
    Big s;
    L n = 0, a = 0; // number of additions, sum of magnitudes
    int lo = 2000;  // every input was a multiple of 2^lo
    void zero() { e = 0; s = Big(); n = 0; a = 0; lo = 2000; }
    L bound() const { return 8 * (n + 4) * (n + 4) * std::ldexp((L)1, -159) * a; }
    bool exact() const { return n == 0 || a < std::ldexp((L)1, lo + 100); }
    void track(double x) {
        if (x != 0) {
            int e;
            int64_t m = (int64_t)std::ldexp(std::frexp(x, &e), 53);
            lo = std::min(lo, e - 53 + __builtin_ctzll(m));
        }
        s.add(x);
        n += 1;
        a += std::abs((L)x);
    }
    void merge(const Reg &o, int sg) { s.add(o.s, sg); n += o.n + 3; a += o.a; lo = std::min(lo, o.lo); }
};

constexpr int NR = 6;
Reg R[NR];

void look(const char *what, double got, const Reg &r) {
    hv::nchecks()++;
    Big d = r.s;
    d.add(-got);
    L tol = r.bound() + std::abs(r.s.val()) * 2.3e-16L;
    if (r.exact() && r.s.sign() == 0) tol = 0;
    if (!(std::abs(d.val()) <= tol))
        hv::fail("%s: %.17g, expected %.20Lg, off by %.3Lg, allowed %.3Lg (%.0Lf additions, magnitudes %.3Lg)", what, got, r.s.val(), d.val(), tol, r.n, r.a);
}
void check(const char *what, const Reg &r) {
    if (!std::isfinite(r.e.value) || !std::isfinite(r.e.compensation) || !std::isfinite(r.e.compensation2)) { hv::fail("%s: not finite", what); return; }
    // the three parts together are the sum, far beyond double
    Big d = r.s;
    d.add(-r.e.value);
    d.add(-r.e.compensation);
    d.add(-r.e.compensation2);
    hv::nchecks()++;
    if (r.exact() ? d.sign() != 0 : !(std::abs(d.val()) <= r.bound()))
        hv::fail("%s: value + compensations are off by %.3Lg of %.17Lg, allowed %.3Lg (%s; %.0Lf additions, magnitudes %.3Lg)", what, d.val(), r.s.val(),
                 r.exact() ? 0 : r.bound(), r.exact() ? "exact" : "rounded", r.n, r.a);
    look("to_double", r.e.to_double(), r);
    look("explicit double", static_cast<double>(r.e), r);
    look("cast_to<double>", hila::cast_to<double>(r.e), r);
}

double draw(hv::Rng &g, int kind, double sc) {
    switch (kind) {
    case 0: return g.in(-1000000, 1000000);                                      // integers
    case 1: return sc * g.gauss();
    case 2: return sc * g.gauss() * std::pow(10.0, g.in(-30, 30));               // wide range
    case 3: return (g.in(0, 1) ? 1 : -1) * std::ldexp(1.0, g.in(-60, 60));       // powers of two
    case 4: return g.in(0, 5) ? sc * g.gauss() * 1e-17 : (g.in(0, 1) ? 1e16 : -1e16) * sc; // large ones cancelling over small ones
    case 5: return g.in(0, 3) ? 0.0 : sc * g.gauss();
    case 6: return 0.1;
    case 7: return std::ldexp((double)((int64_t)(g.u() >> 12) - (1l << 51)), g.in(-20, 20));
    case 8: return sc * g.gauss() * std::pow(10.0, g.in(-100, 100));
    default: return g.in(0, 1) ? 1 : -1;
    }
}

// call f with the number in one of the arithmetic types
template <typename F> void typed(const std::string &t, const std::string &v, F f) {
    if (t == "d") f((double)strtod(v.c_str(), nullptr));
    else if (t == "f") f((float)strtof(v.c_str(), nullptr));
    else if (t == "i") f((int)strtol(v.c_str(), nullptr, 10));
    else if (t == "u") f((unsigned)strtoul(v.c_str(), nullptr, 10));
    else if (t == "l") f((int64_t)strtoll(v.c_str(), nullptr, 10));
    else if (t == "ul") f((uint64_t)strtoull(v.c_str(), nullptr, 10));
    else if (t == "s") f((short)strtol(v.c_str(), nullptr, 10));
    else if (t == "us") f((unsigned short)strtol(v.c_str(), nullptr, 10));
    else f((bool)(v != "0"));
}
template <typename F> void typedint(const std::string &t, const std::string &v, F f) {
    typed(t, v, [&](auto x) { if constexpr (std::is_integral<decltype(x)>::value) f(x); });
}
void sixways(const char *what, int want, bool lt, bool le, bool gt, bool ge, bool eq, bool ne) {
    hv::nchecks()++;
    if (lt != (want < 0) || le != (want <= 0) || gt != (want > 0) || ge != (want >= 0) || eq != (want == 0) || ne != (want != 0))
        hv::fail("%s: < %d, <= %d, > %d, >= %d, == %d, != %d; the first is %s", what, lt, le, gt, ge, eq, ne, want < 0 ? "smaller" : want > 0 ? "greater" : "equal");
}
template <typename X, typename Y> void compare(const char *what, const X &x, const Y &y, const Reg &r, const Reg &q) {
    Big d = r.s;
    d.add(q.s, -1);
    Reg t = r;
    t.merge(q, -1);
    if (t.exact() || std::abs(d.val()) > 2 * t.bound()) sixways(what, d.sign(), x < y, x <= y, x > y, x >= y, x == y, x != y);
    else { // whatever the rounding, the answers fit together
        bool lt = x < y, gt = x > y, eq = x == y;
        if (lt + gt + eq != 1 || (x <= y) != (lt || eq) || (x >= y) != (gt || eq) || (x != y) == eq) hv::fail("%s: inconsistent answers", what);
    }
}

template <typename T> void field(const hv::Op &o, Reg &r) { // r += values over the lattice, in a site loop
    int par = o.i(3), kind = o.i(4), form = o.i(7);
    double sc = o.d(5);
    uint64_t seed = o.u(6);
    Parity p = par == 1 ? EVEN : par == 2 ? ODD : ALL;
    Field<T> f;
    Field<int> on;
    f.check_alloc();
    on.check_alloc();
    // every process tracks all sites of the lattice
    CoordinateVector sz = lattice.size();
    size_t vol = 1;
    foralldir(d) vol *= sz[d];
    for (size_t s = 0; s < vol; s++) {
        CoordinateVector c;
        size_t k = s;
        foralldir(d) { c[d] = k % sz[d]; k /= sz[d]; }
        hv::Rng g(hv::mix(seed, s));
        T v = (T)draw(g, kind, sc);
        if (lattice->is_on_mynode(c)) f.set_value_at(v, lattice->site_index(c));
        int par1 = 0;
        foralldir(d) par1 += c[d];
        if (p == ALL || (p == EVEN) == (par1 % 2 == 0)) r.track((double)v);
    }
    f.mark_changed(ALL);
    if (form == 0) {
        ExtendedPrecision s = 0;
        onsites(p) s += f[X];
        r.e += s;
        r.n += 3 + hila::number_of_nodes() * 4;
    } else if (form == 1) { // continuing a sum
        ExtendedPrecision s = r.e;
        onsites(p) s += f[X];
        r.e = s;
        r.n += 3 + hila::number_of_nodes() * 4;
    } else { // two sums in one loop, and a sum of another expression
        ExtendedPrecision s = 0, m = 0;
        double plain = 0;
        onsites(p) {
            s += f[X];
            m += -f[X];
            plain += 1;
        }
        r.e += s;
        r.n += 3 + hila::number_of_nodes() * 4;
        Reg t = r;
        t.zero();
        t.merge(r, 1);
        t.e = s + m;
        t.s = Big();
        t.n = 2 * r.n;
        check("the sum of the values plus the sum of their negatives", t);
    }
}
template <typename T> void vfield(const hv::Op &o, Reg &r, Reg &r2) { // Vector and Complex of extended numbers
    double sc = o.d(5);
    int kind = o.i(4);
    uint64_t seed = o.u(6);
    Field<Vector<3, double>> f;
    f.check_alloc();
    CoordinateVector sz = lattice.size();
    size_t vol = 1;
    foralldir(d) vol *= sz[d];
    r.zero();
    r2.zero();
    for (size_t s = 0; s < vol; s++) {
        CoordinateVector c;
        size_t k = s;
        foralldir(d) { c[d] = k % sz[d]; k /= sz[d]; }
        hv::Rng g(hv::mix(seed, s));
        Vector<3, double> v;
        for (int j = 0; j < 3; j++) v[j] = draw(g, kind, sc);
        if (lattice->is_on_mynode(c)) f.set_value_at(v, lattice->site_index(c));
        r.track(v[0]);
        r2.track(v[2]);
    }
    f.mark_changed(ALL);
    Vector<3, ExtendedPrecision> s;
    s = 0;
    onsites(ALL) s += f[X];
    r.e = s[0];
    r2.e = s[2];
    r.n += 3 + hila::number_of_nodes() * 4;
    r2.n += 3 + hila::number_of_nodes() * 4;
}

int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    lattice.setup(hv::size_vector());
    hv::run([](const hv::Case &c) {
        for (auto &r : R) r.zero();
        hv::nontriv() = true;
        for (auto &o : c.ops) {
            const std::string &k = o.name();
            hv::where() = k;
            hv::tag(k);
            Reg &r = R[o.i(1)];
            if (k == "set") typed(o.s(2), o.s(3), [&](auto x) {
                r.zero(); r.e = x; r.track((double)x);
                ExtendedPrecision t((double)x);
                if (t.value != r.e.value || t.compensation != 0 || t.compensation2 != 0) hv::fail("constructor");
            });
            else if (k == "add") typed(o.s(2), o.s(3), [&](auto x) { r.e += x; r.track((double)x); });
            else if (k == "sub") typed(o.s(2), o.s(3), [&](auto x) { r.e -= x; r.track(-(double)x); });
            else if (k == "expr") { // r = q op x or x op q
                Reg q = R[o.i(2)], t;
                int form = o.i(3);
                typed(o.s(4), o.s(5), [&](auto x) {
                    t.track((double)x);
                    r.zero();
                    if (form == 0) { r.e = q.e + x; r.merge(q, 1); r.merge(t, 1); }
                    if (form == 1) { r.e = x + q.e; r.merge(q, 1); r.merge(t, 1); }
                    if (form == 2) { r.e = q.e - x; r.merge(q, 1); r.merge(t, -1); }
                    if (form == 3) { r.e = x - q.e; r.merge(q, -1); r.merge(t, 1); }
                });
            } else if (k == "cmp") typed(o.s(2), o.s(3), [&](auto x) {
                Reg t;
                t.track((double)x);
                compare("number compared", r.e, x, r, t);
                compare("compared with a number", x, r.e, t, r);
            });
            else if (k == "reg") { // registers with each other
                Reg &p = R[o.i(2)];
                const Reg q = p, r0 = r;
                int form = o.i(3);
                if (form == 0) { r.e += p.e; r.merge(q, 1); }
                if (form == 1) { r.e -= p.e; r.merge(q, -1); }
                if (form == 2) { r.e = r.e + p.e; r.merge(q, 1); }
                if (form == 3) { r.e = r.e - p.e; r.merge(q, -1); }
                if (form == 4) { r.e = p.e; r = q; }
                if (form == 5) { r.e = -p.e; r.s = q.s; r.s.neg(); r.n = q.n; r.a = q.a; r.lo = q.lo; }
                if (form == 6) { compare("two extended numbers", r.e, q.e, r0, q); }
                if (form == 7) { r.e = +p.e; r.s = q.s; r.n = q.n; r.a = q.a; r.lo = q.lo; compare("a number and itself", r.e, p.e, r, q); }
            } else if (k == "mul") typedint(o.s(2), o.s(3), [&](auto x) {
                int form = o.i(4);
                ExtendedPrecision t = r.e;
                if (form == 0) r.e *= x;
                if (form == 1) r.e = t * x;
                if (form == 2) r.e = x * t;
                r.s.mul((int64_t)x);
                r.n = (r.n + 4) * 70;
                r.a *= std::abs((L)(int64_t)x);
            });
            else if (k == "sum") { // n numbers one by one
                hv::Rng g(o.u(5));
                for (long j = 0; j < o.i(2); j++) { double x = draw(g, o.i(3), o.d(4)); r.e += x; r.track(x); }
            } else if (k == "cancel") { // numbers and, in another order, their negatives
                std::vector<double> x;
                hv::Rng g(o.u(5));
                for (long j = 0; j < o.i(2); j++) { double v = draw(g, o.i(3), o.d(4)); x.push_back(v); x.push_back(-v); }
                for (size_t j = x.size() - 1; j > 0; j--) std::swap(x[j], x[g.in(0, j)]);
                for (double v : x) { r.e += v; r.track(v); }
            } else if (k == "field") {
                const std::string &t = o.s(2);
                if (t == "d") field<double>(o, r);
                else if (t == "f") field<float>(o, r);
                else if (t == "i") field<int>(o, r);
            } else if (k == "vec") vfield<double>(o, r, R[(o.i(1) + 1) % NR]);
            else if (k == "str") {
                std::ostringstream s;
                s.precision(17);
                s << r.e;
                look("<<", strtod(s.str().c_str(), nullptr), r);
                float f = hila::cast_to<float>(r.e);
                if (f != (float)r.e.to_double()) hv::fail("cast_to<float>");
                ExtendedPrecision z = hila::cast_to<ExtendedPrecision>(r.e);
                if (z.value != r.e.value || z.compensation != r.e.compensation || z.compensation2 != r.e.compensation2) hv::fail("cast_to<ExtendedPrecision>");
            }
            for (auto &q : R) if (!hv::failed()) check("register", q);
            if (hv::any_failed()) return;
        }
    });
    hila::finishrun();
    return 0;
}
