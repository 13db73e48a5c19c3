// P01: environment of the generated loops (see hv/gen01.py)
#ifndef P01_H_
#define P01_H_
#include "hv.h"

// functions called from site loops
inline double fsq(double x) { return x * x; }
inline float fsq(float x) { return x * x; }
template <typename T> inline T ftwice(const T &x) { return x + x; }
inline double fdef(double x, double y = 3) { return x - y; }
inline float fdef(float x) { return x - 3; }
inline double fsqd(double x) { return x * x; }
inline double fdefd(double x, double y = 3) { return x - y; }
inline float fsqf(float x) { return x * x; }
inline float fdeff(float x, float y = 3) { return x - y; }
inline int fint(int k) {
    if (k > 3) return k - 1;
    int r = 0;
    for (int j = 0; j < 2; j++) r += k + j;
    return r;
}
template <typename T, typename S> inline void faddto(T &a, const S b) { a += b; }
inline int fdirsel(Direction d, int k) { return d == e_x ? k : 2 * k - (int)d; }
constexpr int GC = 3;
const int gk = 7;
static const double gd = 7;
struct Acc {
    double a;
    int k;
    void bump(double x) { a += x; k += 1; }
    double total() const { return a; }
};

namespace p01 {
constexpr int F = 3;
struct Env {
    Field<double> d0, d1, d2, w[NDIM];
    Field<float> f0, f1;
    Field<int> i0, i1, i2;
    Field<Complex<double>> z0, z1;
    Field<Vector<2, double>> v0, v1;
    Field<SquareMatrix<2, Complex<double>>> m0, m1;
};
inline std::vector<CoordinateVector> &cos() { static std::vector<CoordinateVector> c; return c; }
inline const CoordinateVector &co(int s) { return cos()[s]; }
inline int vol() { return (int)cos().size(); }
inline int index(const CoordinateVector &c) {
    int s = 0;
    for (int d = NDIM - 1; d >= 0; d--) {
        int n = lattice.size(d), x = ((c[d] % n) + n) % n;
        s = s * n + x;
    }
    return s;
}
inline bool on(int s, Parity p) { int k = 0; foralldir(d) k += co(s)[d]; return p == ALL || (p == EVEN) == (k % 2 == 0); }
struct Shift {
    int c[NDIM] = {};
    Shift operator+(Direction d) const { Shift r = *this; if ((int)d < NDIM) r.c[d] += 1; else r.c[2 * NDIM - 1 - (int)d] -= 1; return r; }
    Shift operator-(Direction d) const { Shift r = *this; if ((int)d < NDIM) r.c[d] -= 1; else r.c[2 * NDIM - 1 - (int)d] += 1; return r; }
    Shift operator+(const CoordinateVector &v) const { Shift r = *this; for (int d = 0; d < NDIM; d++) r.c[d] += v[d]; return r; }
};
template <typename T> struct RF {
    std::vector<T> cur, old;
    T &operator()(int s) { return cur[s]; }
    const T &nb(int s, const Shift &h) const {
        CoordinateVector c = co(s);
        for (int d = 0; d < NDIM; d++) c[d] += h.c[d];
        return old[index(c)];
    }
};
struct Ref {
    RF<double> d0, d1, d2, w[NDIM];
    RF<float> f0, f1;
    RF<int> i0, i1, i2;
    RF<Complex<double>> z0, z1;
    RF<Vector<2, double>> v0, v1;
    RF<SquareMatrix<2, Complex<double>>> m0, m1;
};
template <typename L> void each(Env &e, Ref &r, L f) {
    f("d0", e.d0, r.d0); f("d1", e.d1, r.d1); f("d2", e.d2, r.d2);
    for (int d = 0; d < NDIM; d++) f("w", e.w[d], r.w[d]);
    f("f0", e.f0, r.f0); f("f1", e.f1, r.f1);
    f("i0", e.i0, r.i0); f("i1", e.i1, r.i1); f("i2", e.i2, r.i2);
    f("z0", e.z0, r.z0); f("z1", e.z1, r.z1);
    f("v0", e.v0, r.v0); f("v1", e.v1, r.v1);
    f("m0", e.m0, r.m0); f("m1", e.m1, r.m1);
}
inline void begin(Ref &r) {
    Ref &q = r;
    auto c = [](auto &x) { x.old = x.cur; };
    c(q.d0); c(q.d1); c(q.d2); for (auto &x : q.w) c(x);
    c(q.f0); c(q.f1); c(q.i0); c(q.i1); c(q.i2); c(q.z0); c(q.z1); c(q.v0); c(q.v1); c(q.m0); c(q.m1);
}
inline void rnd(double &x, hv::Rng &g) { x = g.in(-4, 4); }
inline void rnd(float &x, hv::Rng &g) { x = g.in(-4, 4); }
inline void rnd(int &x, hv::Rng &g) { x = g.in(-4, 4); }
inline void rnd(Complex<double> &x, hv::Rng &g) { x.re = g.in(-4, 4); x.im = g.in(-4, 4); }
inline void rnd(Vector<2, double> &x, hv::Rng &g) { x[0] = g.in(-4, 4); x[1] = g.in(-4, 4); }
inline void rnd(SquareMatrix<2, Complex<double>> &x, hv::Rng &g) { for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) rnd(x.e(i, j), g); }
inline void put(std::vector<double> &o, double x) { o.push_back(x); }
inline void put(std::vector<double> &o, const Complex<double> &x) { o.push_back(x.re); o.push_back(x.im); }
inline void put(std::vector<double> &o, const Vector<2, double> &x) { o.push_back(x[0]); o.push_back(x[1]); }
inline void put(std::vector<double> &o, const SquareMatrix<2, Complex<double>> &x) { for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) put(o, x.e(i, j)); }
inline std::string show(const std::vector<double> &v) { std::string s; for (double x : v) { char b[40]; snprintf(b, sizeof b, " %.17g", x); s += b; } return s; }

inline void fill(Env &e, Ref &r, uint64_t seed) {
    uint64_t k = 0;
    each(e, r, [&](const char *, auto &f, auto &q) {
        q.cur.resize(vol());
        k++;
        for (int s = 0; s < vol(); s++) { hv::Rng g(hv::mix(seed + k, s)); rnd(q.cur[s], g); }
        f.check_alloc();
        for (size_t i = 0; i < lattice->mynode.volume; i++) f.set_value_at(q.cur[index(lattice->coordinates(i))], i);
        f.mark_changed(ALL);
    });
}
inline void compare(Env &e, Ref &r, const std::vector<double> &o, const std::vector<double> &w) {
    if (o.size() != w.size()) hv::fail("loop-external values: %zu instead of %zu", o.size(), w.size());
    for (size_t k = 0; k < o.size(); k++)
        if (!(o[k] == w[k])) { hv::fail("loop-external value %zu is %.17g, expected %.17g", k, o[k], w[k]); break; }
    each(e, r, [&](const char *n, auto &f, auto &q) {
        for (size_t i = 0; i < lattice->mynode.volume; i++) {
            std::vector<double> a, b;
            CoordinateVector c = lattice->coordinates(i);
            put(a, f.get_value_at(i));
            put(b, q.cur[index(c)]);
            hv::nchecks()++;
            for (size_t j = 0; j < a.size(); j++) if (!(a[j] == b[j])) {
                std::string at;
                for (int d = 0; d < NDIM; d++) at += (d ? "," : "") + std::to_string(c[d]);
                hv::fail("field %s at (%s) is%s, expected%s", n, at.c_str(), show(a).c_str(), show(b).c_str());
                return;
            }
        }
    });
}
typedef void (*runfn)(Env &, hv::Rng &, std::vector<double> &);
typedef void (*reffn)(Ref &, hv::Rng &, std::vector<double> &);
} // namespace p01

// loop-external constants, the same in a loop and its reference
#define P01_EXT \
    double c0 = g.in(-5, 5); float cf = g.in(-5, 5); int k0 = g.in(-5, 5); int k3 = g.in(1, 4), kz = g.in(0, 2); bool flag = g.in(0, 1); \
    double ca[4] = {(double)g.in(-5, 5), (double)g.in(-5, 5), (double)g.in(-5, 5), (double)g.in(-5, 5)}; int ka[3] = {g.in(-5, 5), g.in(-5, 5), g.in(-5, 5)}; \
    Direction dir = (Direction)g.in(0, NDIM - 1), dir2 = (Direction)g.in(0, NDIM - 1); \
    Complex<double> cz = Complex<double>(g.in(-5, 5), g.in(-5, 5)); Vector<2, double> cv; p01::rnd(cv, g); \
    SquareMatrix<2, Complex<double>> cm; p01::rnd(cm, g); CoordinateVector off; foralldir(d) off[d] = g.in(-3, 3); \
    int kp = g.in(0, 2); Parity par = kp == 0 ? EVEN : kp == 1 ? ODD : ALL; \
    (void)c0; (void)cf; (void)k0; (void)k3; (void)kz; (void)flag; (void)ca; (void)ka; (void)dir; (void)dir2; (void)par;
#endif
