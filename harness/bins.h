// P07: k-space binning against a serial model.  Bin of a mode: floor((k/k_max)^p * bins).  Modes whose value is within
// rounding of a bin boundary may be counted in either neighbour.
#ifndef BINS_H_
#define BINS_H_
#include "dft.h"
#include "plumbing/spectraldensity.h"
#include <memory>
namespace bn {
using hv::Op;
typedef std::complex<double> C;

struct KB { // parameters as documented
    std::unique_ptr<hila::k_binning> kb;
    double max, power, width;
    int bins, exact;
    bool set;
    CoordinateVector sz;

    double kof(const CoordinateVector &x) const {
        double s = 0;
        for (int d = 0; d < NDIM; d++) {
            double k = 2 * M_PI * (2 * x[d] > sz[d] ? x[d] - sz[d] : x[d]) / sz[d];
            s += k * k;
        }
        return std::sqrt(s);
    }
    // bin of a site; amb: may also be the bin below
    int bin(const CoordinateVector &x, bool &amb) const {
        double v = std::pow(kof(x) / max, power) * bins;
        double n = std::floor(v + 0.5);
        amb = std::abs(v - n) < 1e-9 * (1 + std::abs(v)) && n > 0;
        return v > 1e9 ? 1000000000 : amb ? (int)n : (int)std::floor(v);
    }
    void make(int b) {
        sz = lattice.size();
        max = M_PI;
        power = 1;
        exact = 0;
        if (b > 0) { kb.reset(new hila::k_binning(b)); bins = b; set = true; }
        else {
            kb.reset(new hila::k_binning());
            bins = 1;
            for (int d = 0; d < NDIM; d++) bins = std::max(bins, sz[d] / 2);
            set = false;
        }
        width = max / bins;
    }
    static bool near(double a, double b) { return std::abs(a - b) <= 1e-12 * (std::abs(a) + std::abs(b)); }
    void recount(double want) { // the number of bins for this (not yet rounded) maximum
        double q = want / width;
        int lo = (int)std::ceil(q - 1e-9), hi = (int)std::ceil(q + 1e-9), n = kb->bins();
        if (n != lo && n != hi) hv::fail("%d bins for maximum %.15g and width %.15g", n, want, width);
        bins = n;
        max = width * n;
    }
    void params() {
        if (kb->bins() != bins) hv::fail("bins() is %d expected %d", kb->bins(), bins);
        if (!near(kb->k_max(), max)) hv::fail("k_max() is %.15g expected %.15g", kb->k_max(), max);
        if (!near(kb->binwidth(), width)) hv::fail("binwidth() is %.15g expected %.15g", kb->binwidth(), width);
        if (kb->power() != power || kb->exact_bins() != exact) hv::fail("power %g exact_bins %d", kb->power(), kb->exact_bins());
    }
    void info(const Op &o) {
        // definite and possible members of each bin
        std::vector<long> n(bins, 0), a(bins, 0);
        std::vector<double> s(bins, 0.0);
        long inside = 0, edge = 0, tot = 0;
        for (size_t i = 0; i < lattice.volume(); i++) {
            CoordinateVector x = hv::gcoord(i, sz);
            bool amb;
            int b = bin(x, amb);
            if (!amb) {
                if (b < bins) { n[b]++; s[b] += kof(x); inside++; }
            } else {
                if (b < bins) { a[b]++; inside++; }
                else if (b == bins) edge++;
                if (b - 1 < bins) a[b - 1]++;
            }
        }
        bool first = o.i(1);
        for (int b = 0; b < bins; b++) {
            long c;
            double k;
            if (first) { k = kb->k(b); c = kb->count(b); }
            else { c = kb->count(b); k = kb->k(b); }
            tot += c;
            if (c < n[b] || c > n[b] + a[b]) hv::fail("count(%d) is %ld, %ld to %ld modes lie in that bin", b, c, n[b], n[b] + a[b]);
            if (c > 0 && (k < kb->bin_min(b) * (1 - 1e-9) - 1e-12 || k > kb->bin_max(b) * (1 + 1e-9))) hv::fail("k(%d) is %.12g outside its bin", b, k);
            if (c > 0 && a[b] == 0 && std::abs(k - s[b] / c) > 1e-10 * (1 + k)) hv::fail("k(%d) is %.12g expected %.12g", b, k, s[b] / c);
            if (std::abs(kb->bin_min(b) - std::pow((double)b / bins, 1 / power) * max) > 1e-11 * max ||
                std::abs(kb->bin_max(b) - std::pow((b + 1.0) / bins, 1 / power) * max) > 1e-11 * max)
                hv::fail("bin %d limits %.12g %.12g", b, kb->bin_min(b), kb->bin_max(b));
        }
        if (tot < inside || tot > inside + edge) hv::fail("counts add up to %ld, %ld to %ld modes are below k_max", tot, inside, inside + edge);
        if (kb->count(-1) != 0 || kb->count(bins) != 0 || kb->k(-1) != 0 || kb->k(bins) != 0) hv::fail("bins outside the range are not empty");
    }
    // k-space data: nothing on the boundary modes, N numbers per site
    template <int N>
    void data(uint64_t seed, std::vector<std::vector<double>> &m) const {
        m.assign(lattice.volume(), std::vector<double>(N, 0.0));
        for (size_t i = 0; i < m.size(); i++) {
            bool amb;
            bin(hv::gcoord(i, sz), amb);
            if (!amb)
                for (int k = 0; k < N; k++) m[i][k] = hv::ival(seed, i * N + k, 20);
        }
    }
    template <typename T>
    static void fill(Field<T> &f, const std::vector<std::vector<double>> &m, const CoordinateVector &sz) {
        using B = hila::arithmetic_type<T>;
        constexpr int N = sizeof(T) / sizeof(B);
        f.check_alloc();
        for (size_t i = 0; i < lattice->mynode.volume; i++) {
            const auto &v = m[hv::gindex(lattice->coordinates(i), sz)];
            B b[N];
            for (int k = 0; k < N; k++) b[k] = (B)v[k];
            T t;
            memcpy((void *)&t, b, sizeof(T));
            f.set_value_at(t, i);
        }
        f.mark_changed(ALL);
    }
    template <typename T>
    void binfield(const Op &o, const char *name) {
        using B = hila::arithmetic_type<T>;
        constexpr int N = sizeof(T) / sizeof(B);
        hv::tag(std::string("field-") + name);
        std::vector<std::vector<double>> m;
        data<N>(o.u(2), m);
        Field<T> f;
        fill(f, m, sz);
        std::vector<std::vector<double>> e(bins, std::vector<double>(N, 0.0));
        std::vector<double> q(bins, 0.0);
        for (size_t i = 0; i < m.size(); i++) {
            bool amb;
            int b = bin(hv::gcoord(i, sz), amb);
            if (amb || b >= bins) continue;
            for (int k = 0; k < N; k++) { e[b][k] += m[i][k]; q[b] += m[i][k] * m[i][k]; }
        }
        std::vector<T> r = kb->bin_k_field(f);
        std::vector<double> s = kb->bin_k_field_squarenorm(f);
        if (hila::myrank() != 0) return;
        if ((int)r.size() != bins || (int)s.size() != bins) { hv::fail("%zu and %zu bins in the result, expected %d", r.size(), s.size(), bins); return; }
        for (int b = 0; b < bins; b++) {
            double v[N];
            hv::to_doubles(r[b], v);
            for (int k = 0; k < N; k++)
                if (v[k] != e[b][k]) hv::fail("bin %d of bin_k_field: component %d is %.12g expected %.12g", b, k, v[k], e[b][k]);
            if (s[b] != q[b]) hv::fail("bin %d of bin_k_field_squarenorm is %.12g expected %.12g", b, s[b], q[b]);
        }
    }
    // spectral density of the real-space field whose transform vanishes on boundary modes
    template <typename T>
    void density(const Op &o, const char *name) {
        using B = hila::arithmetic_type<T>;
        constexpr int N = sizeof(T) / sizeof(B);
        constexpr bool cplx = hila::contains_complex<T>::value;
        constexpr int NC = cplx ? N / 2 : N;
        hv::tag(std::string("density-") + name);
        std::vector<std::vector<double>> kd, m(lattice.volume(), std::vector<double>(N, 0.0));
        data<2 * NC>(o.u(2), kd);
        double tot = 0;
        // real numbers are paired into complex ones: re and im transforms then add up as |F[re + i im]|^2
        constexpr int NP = cplx ? NC : (N + 1) / 2;
        std::vector<std::vector<C>> real(NC, std::vector<C>(lattice.volume()));
        for (int c = 0; c < NC; c++) {
            for (size_t i = 0; i < m.size(); i++) real[c][i] = C(kd[i][2 * c], kd[i][2 * c + 1]);
            dft::transform(real[c], sz, (1 << NDIM) - 1, 1);
            for (size_t i = 0; i < m.size(); i++) {
                C v = real[c][i] / (double)lattice.volume();
                if (cplx) { m[i][2 * c] = (B)v.real(); m[i][2 * c + 1] = (B)v.imag(); }
                else m[i][c] = (B)v.real();
            }
        }
        Field<T> f;
        fill(f, m, sz);
        std::vector<double> e(bins, 0.0);
        std::vector<C> a(lattice.volume());
        for (int c = 0; c < NP; c++) {
            for (size_t i = 0; i < a.size(); i++) a[i] = C(m[i][2 * c], 2 * c + 1 < N ? m[i][2 * c + 1] : 0.0);
            dft::transform(a, sz, (1 << NDIM) - 1, -1);
            for (size_t i = 0; i < a.size(); i++) {
                tot += std::norm(a[i]);
                bool amb;
                int b = bin(hv::gcoord(i, sz), amb);
                if (!amb && b < bins) e[b] += std::norm(a[i]);
            }
        }
        std::vector<double> r = kb->spectraldensity(f);
        std::vector<std::vector<double>> m2(m.size(), std::vector<double>(N));
        for (size_t i = 0; i < lattice->mynode.volume; i++) {
            double v[N];
            hv::to_doubles(f.get_value_at(i), v);
            for (int k = 0; k < N; k++)
                if (v[k] != m[hv::gindex(lattice->coordinates(i), sz)][k]) hv::fail("spectraldensity changed its argument");
        }
        if (hila::myrank() != 0) return;
        if ((int)r.size() != bins) { hv::fail("%zu bins in the spectral density, expected %d", r.size(), bins); return; }
        double tol = (sizeof(B) == 4 ? 1e-5 : 1e-11) * (tot + 1e-20);
        for (int b = 0; b < bins; b++)
            if (!(std::abs(r[b] - e[b]) <= tol)) { hv::fail("bin %d of the spectral density is %.10g expected %.10g", b, r[b], e[b]); break; }
    }
    void op(const Op &o) {
        const std::string &k = o.name();
        hv::where() = k;
        hv::tag(k);
        if (k == "new") make(o.i(1));
        else if (k == "bins") { bins = o.i(1); set = true; width = max / bins; kb->bins(bins); }
        else if (k == "kmax") {
            double w = o.d(1);
            kb->k_max(w);
            if (set) { max = w; width = max / bins; }
            else recount(w);
        } else if (k == "width") { width = o.d(1); kb->binwidth(width); recount(max); set = false; }
        else if (k == "power") { power = o.d(1); kb->power(power); }
        else if (k == "exact") { exact = o.i(1); kb->exact_bins(exact); }
        else if (k == "info") info(o);
        else if (k == "bin") {
            int t = o.i(1);
            if (t == 0) binfield<double>(o, "double");
            else if (t == 1) binfield<Complex<double>>(o, "complex");
            else if (t == 2) binfield<Vector<3, float>>(o, "vector");
            else binfield<int>(o, "int");
        } else if (k == "dens") {
            int t = o.i(1);
            if (t == 0) density<double>(o, "double");
            else if (t == 1) density<Complex<double>>(o, "complex");
            else if (t == 2) density<Vector<2, Complex<float>>>(o, "complex-vector");
            else if (t == 3) density<Vector<3, float>>(o, "real-3-vector");
            else density<Vector<4, double>>(o, "real-4-vector");
        }
        params();
    }
};
inline void runcase(const hv::Case &c) {
    KB h;
    hv::nontriv() = false;
    for (auto &o : c.ops) {
        if (!h.kb && o.name() != "new") continue;
        if (o.name() == "bin" || o.name() == "dens" || o.name() == "info") hv::nontriv() = true;
        h.op(o);
        if (hv::any_failed()) return;
    }
}
} // namespace bn
#endif
