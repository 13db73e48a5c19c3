// Reference arithmetic for the algebra properties: matrices of complex long double, each element with a bound for the
// size of the terms that went into it, so that rounding errors can be judged.
#ifndef REF_H_
#define REF_H_
#include "hv.h"
#include <complex>

namespace rf {
typedef long double L;
typedef std::complex<L> Z;
struct E {
    Z v;
    L m; // magnitude of the terms
    E() : v(0), m(0) {}
    E(Z z) : v(z), m(std::abs(z)) {}
    E(L z) : v(z), m(std::abs(z)) {}
    E(double z) : v(z), m(std::abs(z)) {}
    E(int z) : v(z), m(std::abs(z)) {}
    E(Z z, L mm) : v(z), m(mm) {}
};
inline E operator+(const E &a, const E &b) { return E(a.v + b.v, a.m + b.m); }
inline E operator-(const E &a, const E &b) { return E(a.v - b.v, a.m + b.m); }
inline E operator-(const E &a) { return E(-a.v, a.m); }
inline E operator*(const E &a, const E &b) { return E(a.v * b.v, a.m * b.m); }
inline E operator/(const E &a, const E &b) {
    L n = std::norm(b.v);
    return E(a.v * std::conj(b.v) / n, n > 0 ? a.m * b.m / n * (b.m * b.m / n) : 1e300L);
}
inline E conj(const E &a) { return E(std::conj(a.v), a.m); }
inline E re(const E &a) { return E(Z(a.v.real()), a.m); }
inline E im(const E &a) { return E(Z(a.v.imag()), a.m); }
inline E abs(const E &a) { return E(Z(std::abs(a.v)), a.m); }
inline E sq(const E &a) { return E(Z(std::norm(a.v)), a.m * a.m); }
inline E root(const E &a) { return E(std::sqrt(a.v.real()), std::abs(a.v) > 0 ? a.m / std::sqrt(std::abs(a.v)) : 0); }
// f with a numerical derivative for the propagated error
template <typename F>
E fn(const E &z, F f, L extra = 1) {
    Z v = f(z.v), d(0);
    L h = 1e-6L * (z.m > 0 ? z.m : 1);
    d = (f(z.v + h) - f(z.v - h)) / (2 * h);
    return E(v, extra * (std::abs(v) + std::abs(d) * z.m));
}

inline E arg(const E &z) { return E(Z(std::arg(z.v)), std::abs(std::arg(z.v)) + (std::abs(z.v) > 0 ? z.m / std::abs(z.v) : 1e300L)); }

struct M {
    int n = 1, m = 1;
    std::vector<E> v;
    M() : v(1) {}
    M(int n_, int m_) : n(n_), m(m_), v(n_ * m_) {}
    M(const E &e) : v(1, e) {}
    M(double e) : v(1, E(e)) {}
    M(int e) : v(1, E(e)) {}
    E &operator()(int i, int j) { return v[i * m + j]; }
    const E &operator()(int i, int j) const { return v[i * m + j]; }
    const E &s() const { return v[0]; }
    bool sc() const { return n == 1 && m == 1; }
};
#define RF_BAD(...) { M r(97, 89); return r; }
inline M map(const M &a, E (*f)(const E &)) {
    M r = a;
    for (auto &e : r.v) e = f(e);
    return r;
}
template <typename F>
M each(const M &a, F f, L extra = 1) {
    M r = a;
    for (auto &e : r.v) e = fn(e, f, extra);
    return r;
}
template <typename F>
M zip(const M &a, const M &b, F f) { // scalars are spread over all elements
    M r = a.sc() ? b : a;
    if (!a.sc() && !b.sc() && (a.n != b.n || a.m != b.m)) RF_BAD()
    for (size_t i = 0; i < r.v.size(); i++) r.v[i] = f(a.v[a.sc() ? 0 : i], b.v[b.sc() ? 0 : i]);
    return r;
}
inline M eadd(const M &a, const M &b) { return zip(a, b, [](const E &x, const E &y) { return x + y; }); }
inline M esub(const M &a, const M &b) { return zip(a, b, [](const E &x, const E &y) { return x - y; }); }
inline M emul(const M &a, const M &b) { return zip(a, b, [](const E &x, const E &y) { return x * y; }); }
inline M ediv(const M &a, const M &b) { return zip(a, b, [](const E &x, const E &y) { return x / y; }); }
inline M unit(int n, const E &e = E(1.0)) {
    M r(n, n);
    for (int i = 0; i < n; i++) r(i, i) = e;
    return r;
}
// matrix algebra: a scalar stands for scalar * identity in sums
inline M operator+(const M &a, const M &b) {
    if (a.sc() != b.sc()) return a.sc() ? eadd(unit(b.n, a.s()), b) : eadd(a, unit(a.n, b.s()));
    return eadd(a, b);
}
inline M operator-(const M &a) { return map(a, [](const E &x) { return -x; }); }
inline M operator-(const M &a, const M &b) { return a + (-b); }
inline M operator*(const M &a, const M &b) {
    if (a.sc() || b.sc()) return emul(a, b);
    if (a.m != b.n) RF_BAD()
    M r(a.n, b.m);
    for (int i = 0; i < a.n; i++)
        for (int j = 0; j < b.m; j++) {
            E t(0);
            for (int k = 0; k < a.m; k++) t = t + a(i, k) * b(k, j);
            r(i, j) = t;
        }
    return r;
}
inline M operator/(const M &a, const M &b) { return ediv(a, b); }
inline M cj(const M &a) { return map(a, conj); }
inline M T(const M &a) {
    M r(a.m, a.n);
    for (int i = 0; i < a.n; i++)
        for (int j = 0; j < a.m; j++) r(j, i) = a(i, j);
    return r;
}
inline M dag(const M &a) { return cj(T(a)); }
inline M Re(const M &a) { return map(a, re); }
inline M Im(const M &a) { return map(a, im); }
inline M Abs(const M &a) { return map(a, abs); }
inline M sum(const M &a) {
    E t(0);
    for (auto &e : a.v) t = t + e;
    return M(t);
}
inline M tr(const M &a) {
    E t(0);
    for (int i = 0; i < a.n; i++) t = t + a(i, i);
    return M(t);
}
inline M sqn(const M &a) { return sum(map(a, sq)); }
inline M nrm(const M &a) { return M(root(sqn(a).s())); }
inline M ext(const M &a, bool largest, bool absv, int *at = nullptr) {
    int k = 0;
    for (size_t i = 1; i < a.v.size(); i++) {
        L x = absv ? std::abs(a.v[i].v) : a.v[i].v.real(), y = absv ? std::abs(a.v[k].v) : a.v[k].v.real();
        if (largest ? x > y : x < y) k = i;
    }
    if (at) *at = k;
    return M(absv ? abs(a.v[k]) : a.v[k]);
}
inline M dg(const M &a) { // vector -> diagonal matrix
    int n = a.n * a.m;
    M r(n, n);
    for (int i = 0; i < n; i++) r(i, i) = a.v[i];
    return r;
}
inline M dv(const M &a) { // diagonal as a column
    M r(a.n, 1);
    for (int i = 0; i < a.n; i++) r(i, 0) = a(i, i);
    return r;
}
inline M dinv(const M &a) { // inverse of a diagonal matrix
    M r = a;
    for (int i = 0; i < a.n; i++) r(i, i) = E(1.0) / a(i, i);
    return r;
}
inline M embed(int n, int p, int q, const M &b) { // 2x2 block in rows and columns p, q of the identity
    M r = unit(n);
    r(p, p) = b(0, 0), r(p, q) = b(0, 1), r(q, p) = b(1, 0), r(q, q) = b(1, 1);
    return r;
}
inline M sorted(const M &a, bool up) {
    M r = a;
    std::stable_sort(r.v.begin(), r.v.end(), [=](const E &x, const E &y) { return up ? x.v.real() < y.v.real() : x.v.real() > y.v.real(); });
    return r;
}
inline bool same(const M &a, const M &b) {
    if (a.n != b.n || a.m != b.m) return false;
    for (size_t i = 0; i < a.v.size(); i++)
        if (a.v[i].v != b.v[i].v) return false;
    return true;
}
inline M row(const M &a, int i) {
    M r(1, a.m);
    for (int j = 0; j < a.m; j++) r(0, j) = a(i, j);
    return r;
}
inline M col(const M &a, int i) {
    M r(a.n, 1);
    for (int j = 0; j < a.n; j++) r(j, 0) = a(j, i);
    return r;
}
inline M setrow(M a, int i, const M &v) {
    for (int j = 0; j < a.m; j++) a(i, j) = v.v[j];
    return a;
}
inline M setcol(M a, int i, const M &v) {
    for (int j = 0; j < a.n; j++) a(j, i) = v.v[j];
    return a;
}
inline M fill(const M &a, const M &s) {
    M r(a.n, a.m);
    for (auto &e : r.v) e = s.s();
    return r;
}
inline M power(const M &a, int p) {
    M r = a.sc() ? M(1.0) : unit(a.n);
    for (int i = 0; i < p; i++) r = r * a;
    return r;
}
inline M list(std::initializer_list<M> l) { // column of scalars
    M r(l.size(), 1);
    int i = 0;
    for (auto &x : l) r.v[i++] = x.s();
    return r;
}
inline M det(const M &a) { // Leibniz by expansion along the first row
    if (a.n == 1) return M(a(0, 0));
    E t(0);
    for (int j = 0; j < a.n; j++) {
        M s(a.n - 1, a.n - 1);
        for (int i = 1; i < a.n; i++)
            for (int k = 0, c = 0; k < a.n; k++)
                if (k != j) s(i - 1, c++) = a(i, k);
        E x = a(0, j) * det(s).s();
        t = j % 2 ? t - x : t + x;
    }
    return M(t);
}

// conversion of HILA values
template <typename S, std::enable_if_t<hila::is_arithmetic<S>::value, int> = 0>
E el(const S &x) { return E(Z((L)x)); }
template <typename S>
E el(const Complex<S> &x) { return E(Z((L)x.re, (L)x.im)); }
template <typename S, std::enable_if_t<hila::is_arithmetic<S>::value, int> = 0>
M R(const S &x) { return M(el(x)); }
template <typename S>
M R(const Complex<S> &x) { return M(el(x)); }
template <int n, int m, typename S, typename Q>
M R(const Matrix_t<n, m, S, Q> &x) {
    M r(n, m);
    for (int i = 0; i < n * m; i++) r.v[i] = el(x.c[i]);
    return r;
}
template <int n, int m, typename S>
M R(const Array<n, m, S> &x) {
    M r(n, m);
    for (int i = 0; i < n * m; i++) r.v[i] = el(x.c[i]);
    return r;
}
template <int n, typename S>
M R(const DiagonalMatrix<n, S> &x) {
    M r(n, n);
    for (int i = 0; i < n; i++) r(i, i) = el(x.c[i]);
    return r;
}
inline std::string str(const M &a) {
    std::string s = std::to_string(a.n) + "x" + std::to_string(a.m) + "[";
    char b[80];
    for (size_t i = 0; i < a.v.size() && i < 12; i++) {
        snprintf(b, sizeof b, "%s(%.10Lg,%.10Lg)", i ? " " : "", a.v[i].v.real(), a.v[i].v.imag());
        s += b;
    }
    return s + "]";
}
template <typename S>
constexpr L epsof() {
    return std::is_same<S, float>::value ? 1.2e-7L : std::is_same<S, double>::value ? 2.3e-16L : 0.0L;
}
// largest deviation allowed: k rounding errors of the terms
inline bool close(const M &got, const M &want, L eps, std::string &why) {
    if (got.n != want.n || got.m != want.m) {
        why = "shape " + str(got) + " instead of " + str(want);
        return false;
    }
    L lim = eps > 1e-10L ? 1e25L : 1e200L;
    for (size_t i = 0; i < want.v.size(); i++) {
        const E &w = want.v[i];
        if (!(std::abs(w.v) < lim) || !(w.m < lim)) continue;
        L d = std::abs(got.v[i].v - w.v);
        if (!(d <= eps * w.m + (eps > 1e-10L ? 1e-36L : 1e-290L) * (eps > 0))) {
            char b[160];
            snprintf(b, sizeof b, "element %d is (%.17Lg,%.17Lg), expected (%.17Lg,%.17Lg)", (int)i, got.v[i].v.real(), got.v[i].v.imag(), w.v.real(), w.v.imag());
            why = b;
            return false;
        }
    }
    return true;
}

// values of one kind: 0 plain, 1 small integers, 2 varied magnitudes, 3 many zeros and ones
template <typename S>
void draw(S &x, hv::Rng &r, int kind) {
    typedef hila::arithmetic_type<S> B;
    B *b = (B *)&x;
    constexpr int n = sizeof(S) / sizeof(B);
    int special = r.in(0, 5);
    for (int i = 0; i < n; i++) {
        if (std::is_integral<B>::value) b[i] = (B)(r.in(-9, 9));
        else if (kind == 0) b[i] = (B)(r.sym());
        else if (kind == 1) b[i] = (B)(r.in(-4, 4));
        else if (kind == 2) b[i] = (B)((r.sym()) * pow(10.0, r.in(-4, 4)));
        else b[i] = special < 2 ? (B)0 : (B)(r.in(-1, 1));
        if (b[i] == 0) b[i] = 0;
    }
}
} // namespace rf
#endif
