// P11: random numbers: reproducible, distinct between processes and sites, in range, with the stated law
#include "hv.h"
#include <algorithm>
#include <map>

static int W, NP;
static std::vector<double> uniq;        // all uniform doubles drawn since the last seeding, on this process
static std::vector<unsigned char> rec;  // everything drawn

template <typename T> static void put(const T &t) { const unsigned char *p = (const unsigned char *)&t; rec.insert(rec.end(), p, p + sizeof(T)); }
static void put(const long double &) = delete;

// ---- draws ------------------------------------------------------------------------------------------------
static const int KINDS = 27;
static size_t weak; // bytes in rec which take few values only
template <typename T> static T rnd() { T t; hila::random(t); return t; }
template <typename T> static T gau(double w) { T t; hila::gaussian_random(t, w); return t; }
static void in01(const double *p, size_t n, const char *what) {
    for (size_t i = 0; i < n; i++) if (!(p[i] >= 0 && p[i] < 1)) hv::fail("%s gives %.17g, not in [0,1)", what, p[i]);
}
static void in01(const float *p, size_t n, const char *what) {
    for (size_t i = 0; i < n; i++) if (!(p[i] >= 0 && p[i] < 1)) hv::fail("%s gives %.9g, not in [0,1)", what, p[i]);
}
template <typename T> static T put_uniform(const char *what, T t = rnd<T>()) {
    using B = hila::arithmetic_type<T>;
    B b[sizeof(T) / sizeof(B)];
    memcpy(b, (void *)&t, sizeof(T));
    in01(b, sizeof(T) / sizeof(B), what);
    if constexpr (std::is_same<B, double>::value) uniq.insert(uniq.end(), b, b + sizeof(T) / sizeof(B));
    put(t);
    return t;
}
template <typename T> static void check_group(const T &u) {
    constexpr int N = T::size();
    double e = 0;
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
        double re = i == j ? -1 : 0, im = 0;
        for (int k = 0; k < N; k++) {
            double ar = u.e(i, k).re, ai = u.e(i, k).im, br = u.e(j, k).re, bi = u.e(j, k).im;
            re += ar * br + ai * bi;
            im += ai * br - ar * bi;
        }
        e = std::max(e, std::hypot(re, im));
    }
    auto d = u.det();
    e = std::max(e, std::hypot((double)d.re - 1, (double)d.im));
    if (!(e < (sizeof(hila::arithmetic_type<T>) == 4 ? 1e-4 : 1e-12))) hv::fail("random SU(%d) element is off the group by %g", N, e);
}
// the elements of a shuffled list are those of the original, in another order
template <typename A> static void put_shuffled(const A &a, const A &orig, const char *what) {
    auto x = a, y = orig;
    std::sort(x.begin(), x.end());
    std::sort(y.begin(), y.end());
    if (x != y) hv::fail("%s lost or doubled elements of its list", what);
    for (auto e : a) { put(e); weak += sizeof(e); }
}
// numbers which are the same on all processes of the partition
static void same(std::vector<int> v, const char *what) {
    std::vector<int> lo = v, hi = v;
    MPI_Allreduce(v.data(), lo.data(), v.size(), MPI_INT, MPI_MIN, lattice->mpi_comm_lat);
    MPI_Allreduce(v.data(), hi.data(), v.size(), MPI_INT, MPI_MAX, lattice->mpi_comm_lat);
    if (lo != hi) hv::fail("%s differs between the processes", what);
}
static std::vector<int> dirpar() {
    std::vector<int> v;
    for (const auto &s : hila::shuffle_directions_and_parities()) v.push_back(s.parity == EVEN || s.parity == ODD ? 2 * (int)s.direction + (s.parity == ODD) : -1);
    return v;
}
static std::vector<int> dirs() { std::vector<int> v; for (const Direction d : hila::shuffle_directions()) v.push_back(d); return v; }
static std::vector<int> pars() { std::vector<int> v; for (const Parity p : hila::shuffle_parities()) v.push_back(p == EVEN ? 0 : p == ODD ? 1 : -1); return v; }
static std::vector<int> iota(int n) { std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(i); return v; }

static void draw(int k) {
    double d;
    switch (k) {
    case 0: case 1: d = hila::random(); in01(&d, 1, "random()"); uniq.push_back(d); put(d); break;
    case 2: put(hila::gaussrand()); break;
    case 3: put(hila::gaussrand2(d)); put(d); break;
    case 4: put_uniform<double>("random(double)"); break;
    case 5: put_uniform<float>("random(float)"); break;
    case 6: put_uniform<Complex<double>>("random(Complex)"); break;
    case 7: put_uniform<Vector<3, float>>("random(Vector)"); break;
    case 8: put_uniform<SquareMatrix<2, Complex<double>>>("random(Matrix)"); break;
    case 9: put_uniform<Array<2, 3, double>>("random(Array)"); break;
    case 10: put_uniform<DiagonalMatrix<3, double>>("random(DiagonalMatrix)"); break;
    case 11: { auto u = rnd<SU<2, double>>(); check_group(u); put(u); break; }
    case 12: { auto u = rnd<SU<3, float>>(); check_group(u); put(u); break; }
    case 13: { auto u = rnd<SU<4, double>>(); check_group(u); put(u); break; }
    case 14: { auto u = rnd<SU2<double>>(); if (std::abs(u.det() - 1) > 1e-12) hv::fail("random SU2 has determinant %g", u.det()); put(u); break; }
    case 15: { auto u = rnd<U1<double>>(); if (!(std::abs(u.phase) <= M_PI)) hv::fail("random U1 has phase %g", u.phase); put(u); break; }
    case 16: put(gau<double>(0.5)); break;
    case 17: put(gau<Complex<float>>(2)); break;
    case 18: put(gau<Vector<3, double>>(1)); break;
    case 19: put(gau<Algebra<SU<3, double>>>(1)); break;
    case 20: put(gau<Algebra<SU2<double>>>(1.5)); break;
    case 21: put_uniform<double>("random<double>()", hila::random<double>()); break;
    case 22: { std::vector<int> v = iota(rec.size() % 12), w = v; for (int &x : v) x /= 2; w = v; hila::shuffle(v); put_shuffled(v, w, "shuffle(vector)"); break; }
    case 23: { std::array<double, 5> v = {1, 4, 9, 16, 25}, w = v; hila::shuffle(v); put_shuffled(v, w, "shuffle(array)"); break; }
    case 24: { auto v = dirpar(); put_shuffled(v, iota(2 * NDIM), "shuffle_directions_and_parities()"); same(v, "shuffle_directions_and_parities()"); break; }
    case 25: { auto v = dirs(); put_shuffled(v, iota(NDIM), "shuffle_directions()"); same(v, "shuffle_directions()"); break; }
    case 26: { auto v = pars(); put_shuffled(v, iota(2), "shuffle_parities()"); same(v, "shuffle_parities()"); break; }
    }
}
template <typename T> static void put_field(const Field<T> &f, Parity par, const char *what) {
    using B = hila::arithmetic_type<T>;
    for (size_t i = 0; i < lattice->mynode.volume; i++) {
        bool in = par == ALL || (hv::gparity(lattice->coordinates(i)) == 0) == (par == EVEN);
        T t = f.get_value_at(i);
        if (in && what) put_uniform<T>(what, t);
        else if (in) put(t);
        else {
            B b[sizeof(T) / sizeof(B)];
            memcpy(b, (void *)&t, sizeof(T));
            for (auto x : b) if (x != 77) { hv::fail("a loop over one parity changed the other"); break; }
        }
    }
}
template <typename T> static void fill77(Field<T> &f) {
    using B = hila::arithmetic_type<T>;
    T t;
    B b[sizeof(T) / sizeof(B)];
    for (auto &x : b) x = 77;
    memcpy((void *)&t, b, sizeof(T));
    f.check_alloc();
    for (size_t i = 0; i < lattice->mynode.volume; i++) f.set_value_at(t, i);
    f.mark_changed(ALL);
}
static void loop(int k, Parity par) {
    Field<double> f, h;
    fill77(f);
    fill77(h);
    switch (k % 9) {
    case 0: onsites(par) { f[X] = hila::random(); } put_field(f, par, "random() in a loop"); break;
    case 1: onsites(par) { f[X] = hila::random(); h[X] = hila::random(); } put_field(f, par, "random() in a loop"); put_field(h, par, "random() in a loop"); break;
    case 2: onsites(par) { f[X] = hila::gaussrand(); } put_field(f, par, nullptr); break;
    case 3: f.random(); put_field(f, ALL, "Field::random()"); break;
    case 4: f.gaussian_random(2); put_field(f, ALL, nullptr); break;
    case 5: { Field<Complex<double>> c; fill77(c); onsites(par) { c[X].random(); } put_field(c, par, "Complex::random() in a loop"); break; }
    case 6: { Field<Vector<3, float>> c; fill77(c); onsites(par) { hila::random(c[X]); } put_field(c, par, "random(Vector) in a loop"); break; }
    case 7: { Field<SU<3, double>> c; fill77(c); onsites(par) { c[X].random(); } put_field(c, par, nullptr); break; }
    case 8: { // a draw on some of the sites only
        onsites(par) { if (X.coordinate(e_x) % 2 == 0) { f[X] = hila::random(); } else { f[X] = 2; } }
        for (size_t i = 0; i < lattice->mynode.volume; i++) {
            double d = f.get_value_at(i);
            bool even = (hv::gparity(lattice->coordinates(i)) == 0), in = par == ALL || even == (par == EVEN);
            if (in && lattice->coordinates(i)[0] % 2 == 0) put_uniform<double>("random() in a branch", d);
            else if (d != (in ? 2 : 77)) hv::fail("wrong value %g where nothing was drawn", d);
        }
        break;
    }
    }
}

static void check_unique() { // no uniform number twice, over all processes of the run
    int n = uniq.size();
    std::vector<int> cnt(NP), off(NP + 1, 0);
    std::vector<double> all;
    MPI_Status st;
    if (W != 0) {
        MPI_Send(&n, 1, MPI_INT, 0, 900, MPI_COMM_WORLD);
        MPI_Send(uniq.data(), n, MPI_DOUBLE, 0, 901, MPI_COMM_WORLD);
        return;
    }
    for (int p = 0; p < NP; p++) {
        cnt[p] = n;
        if (p > 0) MPI_Recv(&cnt[p], 1, MPI_INT, p, 900, MPI_COMM_WORLD, &st);
        off[p + 1] = off[p] + cnt[p];
        all.resize(off[p + 1]);
        if (p > 0) MPI_Recv(all.data() + off[p], cnt[p], MPI_DOUBLE, p, 901, MPI_COMM_WORLD, &st);
        else std::copy(uniq.begin(), uniq.end(), all.begin());
    }
    std::vector<size_t> ix(all.size());
    for (size_t i = 0; i < ix.size(); i++) ix[i] = i;
    std::sort(ix.begin(), ix.end(), [&](size_t x, size_t y) { return all[x] < all[y] || (all[x] == all[y] && x < y); });
    for (size_t i = 1; i < ix.size(); i++) if (all[ix[i]] == all[ix[i - 1]]) {
        int p = std::upper_bound(off.begin(), off.end(), (int)ix[i - 1]) - off.begin() - 1, q = std::upper_bound(off.begin(), off.end(), (int)ix[i]) - off.begin() - 1;
        hv::fail("uniform number %.17g drawn twice: draw %d of process %d and draw %d of process %d", all[ix[i]], (int)ix[i - 1] - off[p], p, (int)ix[i] - off[q], q);
        break;
    }
}

// ---- distributions ----------------------------------------------------------------------------------------
static const double Z = 6.5;
static double Phi(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
template <typename F> static void ks(std::vector<double> v, const char *what, F cdf) {
    std::sort(v.begin(), v.end());
    double d = 0, n = v.size();
    for (size_t i = 0; i < v.size(); i++) {
        double c = cdf(v[i]);
        d = std::max(d, std::max(std::abs(c - i / n), std::abs(c - (i + 1) / n)));
    }
    if (!(d * std::sqrt(n) < 4)) hv::fail("%s: %d values do not follow the distribution (sqrt(n)D = %g)", what, (int)n, d * std::sqrt(n));
}
// sample mean against a known expectation
static void mean(const std::vector<double> &v, double expect, const char *what) {
    double s = 0, q = 0, n = v.size();
    for (double x : v) s += x;
    s /= n;
    for (double x : v) q += (x - s) * (x - s);
    q = std::sqrt(q / (n - 1) / n);
    if (!(std::abs(s - expect) < Z * q + 1e-5)) hv::fail("%s: mean %g +- %g of %d values, expected %g", what, s, q, (int)n, expect);
}
static std::vector<double> product(const std::vector<double> &v, int lag, int power) {
    std::vector<double> r;
    for (size_t i = lag; i < v.size(); i++) r.push_back(std::pow(v[i], power) * std::pow(v[i - lag], power));
    return r;
}
static void uniform_law(std::vector<double> v, const std::string &what) {
    ks(v, what.c_str(), [](double x) { return x < 0 ? 0 : x > 1 ? 1 : x; });
    mean(v, 0.5, what.c_str());
    for (double &x : v) x -= 0.5;
    for (int lag : {1, 2, 3, 4, 8, 16, 64}) mean(product(v, lag, 1), 0, (what + ": correlation at distance " + std::to_string(lag)).c_str());
    for (double &x : v) x = x * x - 1 / 12.0;
    for (int lag : {1, 2, 4}) mean(product(v, lag, 1), 0, (what + ": correlation of squares at distance " + std::to_string(lag)).c_str());
}
static void gauss_law(std::vector<double> v, double w, const std::string &what) {
    for (double &x : v) x /= w;
    ks(v, what.c_str(), Phi);
    mean(v, 0, (what + ": mean").c_str());
    for (int lag : {1, 2, 3, 4, 8}) mean(product(v, lag, 1), 0, (what + ": correlation at distance " + std::to_string(lag)).c_str());
    std::vector<double> q = v;
    for (double &x : q) x = x * x - 1;
    mean(q, 0, (what + ": variance").c_str());
    for (int lag : {1, 2, 4}) mean(product(q, lag, 1), 0, (what + ": correlation of squares at distance " + std::to_string(lag)).c_str());
}
template <int N, typename T> static void group_law(const std::vector<SU<N, T>> &v) {
    std::string what = "random SU(" + std::to_string(N) + ")";
    auto obs = [&](const char *name, double e, auto f) { std::vector<double> x; for (auto &u : v) x.push_back(f(u)); mean(x, e, (what + ": " + name).c_str()); };
    SU<N, T> g; // a fixed element: the law is invariant under multiplication by it
    g = 1;
    for (int i = 0; i + 1 < N; i++) { SU<N, T> r; r = 1; double t = 0.9 + i; r.e(i, i) = Complex<T>(cos(t), 0); r.e(i + 1, i + 1) = Complex<T>(cos(t), 0); r.e(i, i + 1) = Complex<T>(0, sin(t)); r.e(i + 1, i) = Complex<T>(0, sin(t)); g = g * r; }
    for (int s = 0; s < 3; s++) {
        auto tr = [&](const SU<N, T> &u) { auto x = (s == 0 ? u : s == 1 ? SU<N, T>(g * u) : SU<N, T>(u * g)).trace(); return Complex<double>(x.re, x.im); };
        obs("Re trace", 0, [&](auto &u) { return tr(u).re; });
        obs("Im trace", 0, [&](auto &u) { return tr(u).im; });
        obs("|trace|^2", 1, [&](auto &u) { return tr(u).squarenorm(); });
        obs("|trace|^4", 2, [&](auto &u) { return tr(u).squarenorm() * tr(u).squarenorm(); });
        obs("Re trace^2", N == 2 ? 1 : 0, [&](auto &u) { return (tr(u) * tr(u)).re; });
        obs("Re trace^3", N == 3 ? 1 : 0, [&](auto &u) { return (tr(u) * tr(u) * tr(u)).re; });
    }
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
        obs("element", 0, [&](auto &u) { return (double)u.e(i, j).re; });
        obs("element", 0, [&](auto &u) { return (double)u.e(i, j).im; });
        obs("|element|^2", 1.0 / N, [&](auto &u) { return (double)(u.e(i, j).re * u.e(i, j).re + u.e(i, j).im * u.e(i, j).im); });
        obs("|element|^4", 2.0 / (N * (N + 1)), [&](auto &u) { double q = u.e(i, j).re * u.e(i, j).re + u.e(i, j).im * u.e(i, j).im; return q * q; });
        obs("Re element^2", 0, [&](auto &u) { return (double)(u.e(i, j).re * u.e(i, j).re - u.e(i, j).im * u.e(i, j).im); });
    }
}
// values of a type drawn on the host or in a loop
template <typename T, typename H, typename L> static std::vector<T> sample(int n, bool inloop, H host, L inl) {
    std::vector<T> v;
    if (!inloop) { for (int i = 0; i < n; i++) v.push_back(host()); return v; }
    Field<T> f;
    f.check_alloc();
    while ((int)v.size() < n) {
        inl(f);
        for (size_t i = 0; i < lattice->mynode.volume; i++) v.push_back(f.get_value_at(i));
    }
    return v;
}
template <typename T> static std::vector<double> flat(const std::vector<T> &v) {
    using B = hila::arithmetic_type<T>;
    std::vector<double> r;
    for (auto &t : v) { B b[sizeof(T) / sizeof(B)]; memcpy(b, (void *)&t, sizeof(T)); for (auto x : b) r.push_back(x); }
    return r;
}
template <typename T> static void ulaw(int n, bool inl, const char *name) {
    auto v = sample<T>(n, inl, [] { return rnd<T>(); }, [](Field<T> &f) { f.random(); });
    uniform_law(flat(v), name);
}
template <typename T> static void glaw(int n, bool inl, double w, const char *name) {
    auto v = sample<T>(n, inl, [&] { return gau<T>(w); }, [&](Field<T> &f) { f.gaussian_random(w); });
    gauss_law(flat(v), w, name);
}
template <typename T> static std::vector<T> grp(int n, bool inl) {
    return sample<T>(n, inl, [] { return rnd<T>(); }, [](Field<T> &f) { f.random(); });
}
// all n! orders are equally frequent
template <typename F> static void order_law(int len, int n, const char *what, F draw1) {
    std::map<std::vector<int>, int> cnt;
    int cells = 1;
    for (int i = 2; i <= len; i++) cells *= i;
    for (int i = 0; i < n; i++) cnt[draw1()]++;
    double x2 = 0, e = (double)n / cells, df = cells - 1;
    for (auto &c : cnt) x2 += (c.second - e) * (c.second - e) / e;
    x2 += (cells - (double)cnt.size()) * e;
    double z = (std::cbrt(x2 / df) - (1 - 2 / (9 * df))) / std::sqrt(2 / (9 * df));
    if ((int)cnt.size() > cells || !(z < Z)) hv::fail("%s: %d orders of %d elements, chi2 = %g for %g degrees of freedom", what, (int)cnt.size(), len, x2, df);
}
// in longer lists, each element is equally often in each place
template <typename F> static void place_law(int len, int n, const char *what, F draw1) {
    std::vector<std::vector<double>> x(len * len);
    for (int i = 0; i < n; i++) { auto v = draw1(); for (int j = 0; j < len; j++) for (int k = 0; k < len; k++) x[j * len + k].push_back(v[j] == k); }
    for (auto &c : x) mean(c, 1.0 / len, what);
}
static void law(int k, int n, bool inl, double w) {
    switch (k) {
    case 0: ulaw<double>(n, inl, "random(double)"); break;
    case 1: ulaw<float>(n, inl, "random(float)"); break;
    case 2: ulaw<Complex<double>>(n, inl, "random(Complex)"); break;
    case 3: ulaw<SquareMatrix<2, double>>(n, inl, "random(Matrix)"); break;
    case 4: ulaw<Vector<3, Complex<float>>>(n, inl, "random(Vector)"); break;
    case 5: { std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(hila::random()); uniform_law(v, "random()"); break; }
    case 6: { std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(hila::gaussrand()); gauss_law(v, 1, "gaussrand()"); break; }
    case 7: { std::vector<double> v; double x; for (int i = 0; i < n; i++) { v.push_back(hila::gaussrand2(x)); v.push_back(x); } gauss_law(v, 1, "gaussrand2()"); break; }
    case 8: glaw<double>(n, inl, w, "gaussian_random(double)"); break;
    case 9: glaw<float>(n, inl, w, "gaussian_random(float)"); break;
    case 10: glaw<Complex<double>>(n, inl, w, "gaussian_random(Complex)"); break;
    case 11: glaw<Vector<3, double>>(n, inl, w, "gaussian_random(Vector)"); break;
    case 12: glaw<Matrix<2, 3, Complex<float>>>(n, inl, w, "gaussian_random(Matrix)"); break;
    case 13: glaw<Algebra<SU<3, double>>>(n, inl, w, "gaussian_random(Algebra<SU<3>>)"); break;
    case 14: { auto v = sample<Algebra<SU2<double>>>(n, inl, [&] { return gau<Algebra<SU2<double>>>(w); }, [&](Field<Algebra<SU2<double>>> &f) { f.gaussian_random(w); }); std::vector<double> x; for (auto &a : v) { x.push_back(a.a); x.push_back(a.b); x.push_back(a.c); } gauss_law(x, w, "gaussian_random(Algebra<SU2>)"); break; }
    case 15: glaw<Array<2, 2, double>>(n, inl, w, "gaussian_random(Array)"); break;
    case 16: glaw<SU2<double>>(n, inl, w, "gaussian_random(SU2)"); break;
    case 17: glaw<U1<double>>(n, inl, w, "gaussian_random(U1)"); break;
    case 18: { auto v = flat(grp<U1<double>>(n, inl)); for (double &x : v) x = (x + M_PI) / (2 * M_PI); uniform_law(v, "random(U1)"); break; }
    case 19: { // uniform on the three-sphere
        auto u = grp<SU2<double>>(n, inl);
        std::vector<double> q[4];
        for (auto &x : u) { q[0].push_back(x.a); q[1].push_back(x.b); q[2].push_back(x.c); q[3].push_back(x.d); }
        for (auto &v : q) ks(v, "random(SU2)", [](double x) { return x <= -1 ? 0 : x >= 1 ? 1 : 0.5 + (x * std::sqrt(1 - x * x) + std::asin(x)) / M_PI; });
        for (int i = 0; i < 4; i++) for (int j = 0; j < i; j++) { std::vector<double> p; for (size_t k2 = 0; k2 < u.size(); k2++) p.push_back(q[i][k2] * q[j][k2]); mean(p, 0, "random(SU2): correlation"); }
        break;
    }
    case 20: group_law<2, double>(grp<SU<2, double>>(n, inl)); break;
    case 21: group_law<3, double>(grp<SU<3, double>>(n / 4, inl)); break;
    case 22: group_law<4, double>(grp<SU<4, double>>(n / 8, inl)); break;
    case 23: group_law<2, float>(grp<SU<2, float>>(n, inl)); break;
    case 24: glaw<DiagonalMatrix<3, double>>(n, inl, w, "gaussian_random(DiagonalMatrix)"); break;
    case 25: glaw<Algebra<SU<2, float>>>(n, inl, w, "gaussian_random(Algebra<SU<2>>)"); break;
    case 26: order_law(4, n, "shuffle(array)", [] { std::array<int, 4> a = {0, 1, 2, 3}; hila::shuffle(a); return std::vector<int>(a.begin(), a.end()); }); break;
    case 27: order_law(3, n, "shuffle(vector)", [] { auto v = iota(3); hila::shuffle(v); return v; }); break;
    case 28: place_law(9, n / 4, "shuffle(vector)", [] { auto v = iota(9); hila::shuffle(v); return v; }); break;
    case 29: place_law(2 * NDIM, n / 4, "shuffle_directions_and_parities()", dirpar); break;
    case 30: order_law(NDIM, n / 4, "shuffle_directions()", dirs); break;
    case 31: order_law(2, n / 4, "shuffle_parities()", pars); break;
    }
}

static void run_op(const hv::Op &o) {
    const std::string &k = o.name();
    if (k == "seed") {
        check_unique();
        hila::seed_random(o.u(1));
        uniq.clear();
        if (!hila::is_rng_seeded()) hv::fail("is_rng_seeded() is false after seeding");
    } else if (k == "draw") {
        for (int i = 0; i < o.i(2); i++) draw(o.i(1) % KINDS);
    } else if (k == "loop") {
        loop(o.i(1), (Parity[]){EVEN, ODD, ALL}[o.i(2) % 3]);
    }
}

int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    MPI_Comm_rank(MPI_COMM_WORLD, &W);
    MPI_Comm_size(MPI_COMM_WORLD, &NP);
    lattice.setup(hv::size_vector());
    FILE *dump = nullptr;
    if (getenv("HV_DUMP")) dump = fopen((std::string(getenv("HV_DUMP")) + "." + std::to_string(W)).c_str(), "wb");
    hv::run([&](const hv::Case &c) {
        hv::nontriv() = true;
        const hv::Op &f = c.ops[0];
        hv::where() = f.name();
        hv::tag(f.name());
        if (f.name() == "law") { // law SEED KIND N INLOOP WIDTH
            hila::seed_random(f.u(1));
            hv::tag("law" + f.s(2));
            law(f.i(2), f.i(3), f.i(4), f.d(5));
        } else if (f.name() == "float") { // rounding to 1 must not happen
            hila::seed_random(f.u(1));
            float m = 0;
            double n = f.d(2);
            if (f.i(3) == 0) for (long i = 0; i < n; i++) { float x; hila::random(x); if (x > m) m = x; }
            else for (long i = 0; i < n; i += 2) { Complex<float> x; x.random(); if (x.re > m) m = x.re; if (x.im > m) m = x.im; }
            if (!(m < 1)) hv::fail("%g numbers of random(%s) contain %.9g", n, f.i(3) ? "Complex<float>" : "float", m);
        } else if (f.name() == "hist") { // hist DIRT1 DIRT2 OTHERSEED: the list that follows, twice
            std::vector<unsigned char> first;
            for (int t = 0; t < 3; t++) {
                for (int i = 0; i < f.i(1 + t % 2); i++) hila::gaussrand();
                uniq.clear();
                rec.clear();
                weak = 0;
                for (size_t j = 1; j < c.ops.size(); j++) {
                    if (t == 2 && c.ops[j].name() == "seed") { hv::Op o = c.ops[j]; uint64_t s = o.u(1) ^ f.u(3); o.w[1] = std::to_string(s ? s : 0x5555555555ULL); run_op(o); }
                    else run_op(c.ops[j]);
                }
                check_unique();
                if (t == 0) first = rec;
                if (dump && t == 0) fwrite(rec.data(), 1, rec.size(), dump);
                if (t == 1 && rec != first) {
                    size_t p = 0;
                    while (p < rec.size() && p < first.size() && rec[p] == first[p]) p++;
                    hv::fail("the second run after the same seeding differs from byte %zu of %zu (%zu)", p, first.size(), rec.size());
                }
                if (t == 2 && rec == first && rec.size() - weak > 16) hv::fail("another seed gives the same numbers");
            }
        } else if (f.name() == "clock") { // seed 0: from the clock
            std::vector<double> s[2];
            for (int t = 0; t < 2; t++) {
                uniq.clear();
                hila::seed_random(0);
                for (int i = 0; i < 4; i++) draw(0);
                s[t] = uniq;
                check_unique();
            }
            if (s[0] == s[1]) hv::fail("two seedings from the clock give the same numbers");
        }
    });
    if (dump) fclose(dump);
    hila::finishrun();
    return 0;
}
