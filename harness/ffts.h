// P06: Fourier transforms and reflections against serial sums.  One instantiation per element type.
#ifndef FFTS_H_
#define FFTS_H_
#include "dft.h"
namespace ff {
using hv::Op;
typedef std::complex<double> C;

inline CoordinateVector maskv(int m) {
    CoordinateVector v;
    for (int d = 0; d < NDIM; d++) v[d] = m >> d & 1;
    return v;
}
constexpr int FULL = (1 << NDIM) - 1;

// fields with complex elements
template <typename T>
struct Fc {
    using B = hila::arithmetic_type<T>;
    static constexpr int N = sizeof(T) / sizeof(B) / 2; // complex components
    static constexpr double EPS = sizeof(B) == 4 ? 3e-6 : 3e-13;
    Field<T> f;
    std::vector<std::vector<C>> m; // m[component][site]
    CoordinateVector sz;
    double steps = 1, slack = 0; // slack: rounding error of an earlier, larger field

    static T elem(const C *v) {
        B b[2 * N];
        for (int i = 0; i < N; i++) { b[2 * i] = v[i].real(); b[2 * i + 1] = v[i].imag(); }
        T t;
        memcpy((void *)&t, b, sizeof(T));
        return t;
    }
    void store() {
        f.check_alloc();
        for (size_t i = 0; i < lattice->mynode.volume; i++) {
            size_t g = hv::gindex(lattice->coordinates(i), sz);
            C v[N];
            for (int c = 0; c < N; c++) v[c] = m[c][g];
            f.set_value_at(elem(v), i);
        }
        f.mark_changed(ALL);
    }
    void load(uint64_t seed, int kind) {
        sz = lattice.size();
        size_t V = lattice.volume();
        hv::Rng r(seed);
        CoordinateVector p, k;
        for (int d = 0; d < NDIM; d++) { p[d] = r.in(0, sz[d] - 1); k[d] = r.in(0, sz[d] - 1); }
        m.assign(N, std::vector<C>(V));
        for (int c = 0; c < N; c++) {
            double amp = r.in(1, 9);
            for (size_t i = 0; i < V; i++) {
                C v;
                CoordinateVector x = hv::gcoord(i, sz);
                if (kind == 0) v = C(hv::ival(seed + c, 2 * i), hv::ival(seed + c, 2 * i + 1));
                else if (kind == 1) v = x == p ? C(amp, -c) : C(0);
                else if (kind == 2) {
                    double ph = 0;
                    for (int d = 0; d < NDIM; d++) ph += (double)k[d] * x[d] / sz[d];
                    v = std::polar(amp, 2 * M_PI * ph);
                } else if (kind == 3) v = C((double)(int)(1000 * (2.0 * (hv::mix(seed + c, i) % 100001) / 1e5 - 1)), c);
                else v = C(1e4 * hv::ival(seed + c, i), 1e-2 * hv::ival(seed + c, i + V));
                if (sizeof(B) == 4) v = C((float)v.real(), (float)v.imag());
                m[c][i] = v;
            }
        }
        steps = 1;
        store();
    }
    void check(const char *what, const Field<T> &g) {
        for (int c = 0; c < N; c++) {
            double nrm = 0;
            for (auto &v : m[c]) nrm += std::norm(v);
            double tol = EPS * steps * std::sqrt(nrm) + slack + 1e-300;
            for (size_t i = 0; i < lattice->mynode.volume; i++) {
                CoordinateVector x = lattice->coordinates(i);
                T t = g.get_value_at(i);
                B b[2 * N];
                memcpy(b, (const void *)&t, sizeof(T));
                C v(b[2 * c], b[2 * c + 1]), e = m[c][hv::gindex(x, sz)];
                if (!(std::abs(v - e) <= tol)) {
                    hv::fail("%s at %s component %d: %.12g%+.12gi expected %.12g%+.12gi", what, hv::cstr(x).c_str(), c, v.real(), v.imag(),
                             e.real(), e.imag());
                    return;
                }
            }
        }
    }
    // take the field's own values as the new model, so that errors do not accumulate
    void apply_fft(int mask, int back) {
        for (auto &a : m) dft::transform(a, sz, mask, back ? 1 : -1);
        steps += 1;
    }
    void op(const Op &o) {
        const std::string &k = o.name();
        hv::where() = k;
        if (k == "load") load(o.u(1), o.i(2));
        else if (k == "fft") {
            int mask = o.i(1) & FULL, back = o.i(2), form = o.i(3);
            fft_direction dir = back ? fft_direction::back : fft_direction::forward;
            hv::tag(back ? "back" : "forward");
            hv::tag("form" + std::to_string(form));
            if (form >= 3) mask = FULL;
            hv::tag(mask == FULL ? "all-directions" : mask ? "some-directions" : "no-directions");
            Field<T> res;
            auto before = m;
            if (form == 0) res = f.FFT(maskv(mask), dir);
            else if (form == 1) { // result field that already holds something
                res[ALL] = f[X];
                FFT_field(f, res, maskv(mask), dir);
            } else if (form == 2) FFT_field(f, f, maskv(mask), dir);
            else if (form == 3) res = back ? f.FFT(dir) : f.FFT();
            else if (form == 4) FFT_field(f, res, dir);
            else FFT_field(f, f, dir);
            if (form != 2 && form != 5) {
                check("the argument after the transform", f);
                apply_fft(mask, back);
                check("transform", res);
                if (o.i(4)) f = res;
                else m = before;
            } else {
                apply_fft(mask, back);
                check("transform in place", f);
            }
        } else if (k == "round") { // there and back again
            int mask = o.i(1) & FULL;
            Field<T> g = f.FFT(maskv(mask), o.i(2) ? fft_direction::back : fft_direction::forward);
            g = g.FFT(maskv(mask), o.i(2) ? fft_direction::forward : fft_direction::back);
            double n = 1;
            for (int d = 0; d < NDIM; d++)
                if (mask >> d & 1) n *= sz[d];
            auto before = m;
            for (auto &a : m)
                for (auto &v : a) v *= n;
            check("there and back", g);
            m = before;
        } else if (k == "reflect") {
            int mask = o.i(1) & FULL, form = o.i(2);
            Field<T> res;
            if (form == 0) res = f.reflect(maskv(mask));
            else if (form == 1) { res = f.reflect(); mask = FULL; }
            else { int d = o.i(1) % NDIM; res = f.reflect((Direction)d); mask = 1 << d; }
            for (auto &a : m) dft::reflect(a, sz, mask);
            check("reflect", res);
            f = res;
        } else if (k == "shift") { // the field is read and written by ordinary loops between transforms
            int d = o.i(1) % NDIM;
            Field<T> g;
            g[ALL] = f[X + Direction(d)];
            for (auto &a : m) {
                auto b = a;
                for (size_t i = 0; i < a.size(); i++) {
                    CoordinateVector x = hv::gcoord(i, sz);
                    x[d] = (x[d] + 1) % sz[d];
                    a[i] = b[hv::gindex(x, sz)];
                }
            }
            check("neighbour of the transform", g);
            f = g;
        } else extra(o);
    }
    void setslack() {
        double n = 0;
        for (auto &v : m[0]) n += std::norm(v);
        slack = EPS * steps * std::sqrt(n * m[0].size());
    }
    void extra(const Op &o) {
        if constexpr (hila::is_complex<T>::value) {
            if (o.name() == "c2r") {
                for (int d = 0; d < NDIM; d++)
                    if (sz[d] % 2) return;
                hv::tag("complex-to-real");
                // full field with f(-x) = conj f(x), from the significant half
                auto save = m;
                setslack();
                for (size_t i = 0; i < m[0].size(); i++) {
                    CoordinateVector x = hv::gcoord(i, sz);
                    int s = sig(x);
                    if (s != hila::FFT_complex_to_real_site(x)) hv::fail("FFT_complex_to_real_site%s is %d", hv::cstr(x).c_str(), hila::FFT_complex_to_real_site(x));
                    if (s == 0) m[0][i] = save[0][i].real();
                    else if (s < 0) m[0][i] = std::conj(save[0][hv::gindex(dft::mirror(x, sz, FULL), sz)]);
                }
                apply_fft(FULL, o.i(1));
                auto r = f.FFT_complex_to_real(o.i(1) ? fft_direction::back : fft_direction::forward);
                check("the argument of FFT_complex_to_real", f, save);
                double nrm = 0;
                for (auto &v : m[0]) nrm += std::norm(v);
                double tol = EPS * (steps + 1) * std::sqrt(nrm) + slack + 1e-300;
                for (size_t i = 0; i < lattice->mynode.volume; i++) {
                    CoordinateVector x = lattice->coordinates(i);
                    double v = r.get_value_at(i), e = m[0][hv::gindex(x, sz)].real();
                    if (!(std::abs(v - e) <= tol)) { hv::fail("complex to real at %s: %.12g expected %.12g", hv::cstr(x).c_str(), v, e); break; }
                }
                m = save;
                slack = 0;
            } else if (o.name() == "r2c") {
                hv::tag("real-to-complex");
                Field<B> r;
                r.check_alloc();
                for (size_t i = 0; i < lattice->mynode.volume; i++) r.set_value_at(f.get_value_at(i).re, i);
                r.mark_changed(ALL);
                auto save = m;
                setslack();
                for (auto &v : m[0]) v = v.real();
                apply_fft(FULL, o.i(1));
                Field<T> g = o.i(1) ? r.FFT_real_to_complex(fft_direction::back) : r.FFT_real_to_complex();
                check("real to complex", g);
                m = save;
                slack = 0;
            }
        }
    }
    void check(const char *what, const Field<T> &g, std::vector<std::vector<C>> &model) {
        std::swap(m, model);
        check(what, g);
        std::swap(m, model);
    }
    // +1 significant, 0 real part significant, -1 not significant: first direction whose coordinate is not 0 or L/2 decides
    static int sig(const CoordinateVector &x) {
        for (int d = 0; d < NDIM; d++) {
            int h = lattice.size(d) / 2;
            if (x[d] == 0 || x[d] == h) continue;
            return x[d] < h ? 1 : -1;
        }
        return 0;
    }
    static void runcase(const hv::Case &c) {
        Fc<T> h;
        for (auto &o : c.ops) {
            h.op(o);
            if (hv::any_failed()) return;
        }
    }
};

// reflections of any other element type (exact), and wave numbers
template <typename T>
struct Fr {
    static void runcase(const hv::Case &c) {
        CoordinateVector sz = lattice.size();
        using B = hila::arithmetic_type<T>;
        constexpr int N = sizeof(T) / sizeof(B);
        Field<T> f;
        std::vector<T> m(lattice.volume());
        for (auto &o : c.ops) {
            hv::where() = o.name();
            if (o.name() == "load") {
                f.check_alloc();
                for (size_t i = 0; i < m.size(); i++) {
                    int v[N];
                    for (int k = 0; k < N; k++) v[k] = hv::ival(o.u(1), i * N + k, 1000);
                    m[i] = hv::from_ints<T>(v);
                }
                for (size_t i = 0; i < lattice->mynode.volume; i++) f.set_value_at(m[hv::gindex(lattice->coordinates(i), sz)], i);
                f.mark_changed(ALL);
            } else if (o.name() == "reflect") {
                int mask = o.i(1) & FULL, form = o.i(2);
                Field<T> res;
                if (form == 0) res = f.reflect(maskv(mask));
                else if (form == 1) { res = f.reflect(); mask = FULL; }
                else { int d = o.i(1) % NDIM; res = f.reflect((Direction)d); mask = 1 << d; }
                std::vector<T> b = m;
                for (size_t i = 0; i < m.size(); i++) m[i] = b[hv::gindex(dft::mirror(hv::gcoord(i, sz), sz, mask), sz)];
                for (size_t i = 0; i < lattice->mynode.volume; i++) {
                    CoordinateVector x = lattice->coordinates(i);
                    if (!hv::same(res.get_value_at(i), m[hv::gindex(x, sz)])) {
                        hv::fail("reflected field at %s: %s expected %s", hv::cstr(x).c_str(), hv::estr(res.get_value_at(i)).c_str(),
                                 hv::estr(m[hv::gindex(x, sz)]).c_str());
                        break;
                    }
                }
                f = res;
            } else if (o.name() == "k") { // wave numbers, also of coordinates outside the lattice
                hv::Rng r(o.u(1));
                for (int n = 0; n < 50; n++) {
                    CoordinateVector x;
                    for (int d = 0; d < NDIM; d++) x[d] = r.in(-2 * sz[d], 3 * sz[d]);
                    auto k = x.convert_to_k();
                    auto k2 = convert_to_k(x);
                    for (int d = 0; d < NDIM; d++) {
                        int q = ((x[d] % sz[d]) + sz[d]) % sz[d];
                        double e = 2 * M_PI * (2 * q > sz[d] ? q - sz[d] : q) / sz[d];
                        if (std::abs(k[d] - e) > 1e-13 || k2[d] != k[d]) hv::fail("wave number of %s: component %d is %.15g expected %.15g", hv::cstr(x).c_str(), d, k[d], e);
                    }
                }
            }
            if (hv::any_failed()) return;
        }
    }
};
} // namespace ff
#endif
