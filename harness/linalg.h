// P14: decompositions and matrix functions against their defining equations, in long double
#ifndef LINALG_H_
#define LINALG_H_
#include "hv.h"
#include <complex>
namespace la {
using L = long double;
using Z = std::complex<L>;
struct D { // n x n matrix of long double complex numbers
    int n;
    std::vector<Z> v;
    D(int n_ = 0) : n(n_), v(n_ * n_) {}
    Z &operator()(int i, int j) { return v[i * n + j]; }
    const Z &operator()(int i, int j) const { return v[i * n + j]; }
    L nrm() const { L s = 0; for (auto &x : v) s += std::norm(x); return std::sqrt(s); }
    D dag() const { D r(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r(i, j) = std::conj((*this)(j, i)); return r; }
};
inline D operator*(const D &a, const D &b) {
    D r(a.n);
    for (int i = 0; i < a.n; i++)
        for (int k = 0; k < a.n; k++)
            for (int j = 0; j < a.n; j++) r(i, j) += a(i, k) * b(k, j);
    return r;
}
inline D operator+(D a, const D &b) { for (size_t i = 0; i < a.v.size(); i++) a.v[i] += b.v[i]; return a; }
inline D operator-(D a, const D &b) { for (size_t i = 0; i < a.v.size(); i++) a.v[i] -= b.v[i]; return a; }
inline D operator*(Z c, D a) { for (auto &x : a.v) x *= c; return a; }
inline D one(int n) { D r(n); for (int i = 0; i < n; i++) r(i, i) = 1; return r; }
inline Z conv(double x) { return Z(x); }
inline Z conv(float x) { return Z(x); }
inline Z conv(int x) { return Z(x); }
template <typename T> Z conv(const Complex<T> &x) { return Z(x.re, x.im); }
template <typename M> D ref(const M &m) {
    constexpr int n = M::rows();
    D r(n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r(i, j) = conv(m.e(i, j));
    return r;
}
template <int n, typename T> D refdiag(const DiagonalMatrix<n, T> &m) {
    D r(n);
    for (int i = 0; i < n; i++) r(i, i) = conv(m.e(i));
    return r;
}
// truncated series, and its majorant: sum over k <= order of |A|^k / k!
inline D series(const D &a, int order) {
    D r = one(a.n), p = one(a.n);
    for (int k = 1; k <= order; k++) { p = Z(1.0L / k) * (p * a); r = r + p; }
    return r;
}
inline L major(L x, int order) { L r = 1, p = 1; for (int k = 1; k <= order; k++) { p *= x / k; r += p; } return r; }
inline D expm(const D &a) {
    L x = a.nrm();
    int s = 0;
    while (x > 0.25L) { x /= 2; s++; }
    D r = series(Z(std::ldexp(1.0L, -s)) * a, 24);
    for (int i = 0; i < s; i++) r = r * r;
    return r;
}
// Frechet derivative of exp at a in direction e
inline D dexp(const D &a, const D &e) {
    int n = a.n;
    D b(2 * n), r(n);
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) { b(i, j) = b(n + i, n + j) = a(i, j); b(i, n + j) = e(i, j); }
    b = expm(b);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r(i, j) = b(i, n + j);
    return r;
}
inline Z detref(D a) {
    Z d = 1;
    int n = a.n;
    for (int i = 0; i < n; i++) {
        int p = i;
        for (int k = i; k < n; k++) if (std::abs(a(k, i)) > std::abs(a(p, i))) p = k;
        if (std::abs(a(p, i)) == 0) return 0;
        if (p != i) { d = -d; for (int j = 0; j < n; j++) std::swap(a(i, j), a(p, j)); }
        d *= a(i, i);
        for (int k = i + 1; k < n; k++) {
            Z f = a(k, i) / a(i, i);
            for (int j = i; j < n; j++) a(k, j) -= f * a(i, j);
        }
    }
    return d;
}
inline D inverse(D a, bool &ok) {
    int n = a.n;
    D r = one(n);
    ok = true;
    for (int i = 0; i < n; i++) {
        int p = i;
        for (int k = i; k < n; k++) if (std::abs(a(k, i)) > std::abs(a(p, i))) p = k;
        if (std::abs(a(p, i)) == 0) { ok = false; return r; }
        for (int j = 0; j < n; j++) { std::swap(a(i, j), a(p, j)); std::swap(r(i, j), r(p, j)); }
        Z f = a(i, i);
        for (int j = 0; j < n; j++) { a(i, j) /= f; r(i, j) /= f; }
        for (int k = 0; k < n; k++) if (k != i) {
            Z g = a(k, i);
            for (int j = 0; j < n; j++) { a(k, j) -= g * a(i, j); r(k, j) -= g * r(i, j); }
        }
    }
    return r;
}
inline std::string show(const D &a) {
    std::string s = "{";
    char b[80];
    for (int i = 0; i < a.n && i < 4; i++)
        for (int j = 0; j < a.n && j < 4; j++) {
            snprintf(b, sizeof b, "%s%.6Lg%+.6Lgi", i || j ? " " : "", a(i, j).real(), a(i, j).imag());
            s += b;
        }
    return s + "}";
}
inline void small(const char *what, const D &r, L tol, const D &a) {
    L x = r.nrm();
    hv::nchecks()++;
    if (!(x <= tol)) hv::fail("%s: off by %.3Lg, tolerance %.3Lg, matrix %s", what, x, tol, show(a).c_str());
}
template <typename T> struct ep { static constexpr L e = sizeof(hila::arithmetic_type<T>) == 4 ? 1.2e-7L : 2.3e-16L; };

inline void setc(double &x, Z z) { x = (double)z.real(); }
inline void setc(float &x, Z z) { x = (float)z.real(); }
inline void setc(int &x, Z z) { x = (int)z.real(); }
template <typename T> void setc(Complex<T> &x, Z z) { x.re = (T)z.real(); x.im = (T)z.imag(); }

// matrix of the given kind
inline D draw(int n, bool cplx, bool herm, int kind, double scale, uint64_t seed) {
    hv::Rng r(hv::mix(seed));
    auto g = [&]() { return cplx ? Z(r.gauss(), r.gauss()) : Z(r.gauss(), 0); };
    auto orth = [&]() { // unitary by Gram-Schmidt
        D q(n);
        for (int i = 0; i < n; i++) {
            for (int j = 0; j < n; j++) q(i, j) = g();
            for (int t = 0; t < 2; t++)
                for (int k = 0; k < i; k++) {
                    Z d = 0;
                    for (int j = 0; j < n; j++) d += std::conj(q(k, j)) * q(i, j);
                    for (int j = 0; j < n; j++) q(i, j) -= d * q(k, j);
                }
            L s = 0;
            for (int j = 0; j < n; j++) s += std::norm(q(i, j));
            for (int j = 0; j < n; j++) q(i, j) /= std::sqrt(s);
        }
        return q;
    };
    D a(n);
    switch (kind) {
    default: for (auto &x : a.v) x = g(); break;
    case 1: for (int i = 0; i < n; i++) a(i, i) = g(); break;                       // diagonal
    case 2: break;                                                                  // zero
    case 3: { Z c = r.in(0, 1) ? Z(-2) : Z(r.in(-4, 4)); a = c * one(n); break; }   // multiple of one
    case 4: {                                                                       // rank one, integer
        std::vector<Z> u(n), w(n);
        for (int i = 0; i < n; i++) { u[i] = Z(r.in(-2, 2), cplx ? r.in(-2, 2) : 0); w[i] = herm ? u[i] : Z(r.in(-2, 2), cplx ? r.in(-2, 2) : 0); }
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a(i, j) = u[i] * std::conj(w[j]);
        break;
    }
    case 5: {                                                                       // repeated eigen- or singular values
        D u = orth(), v = herm ? u.dag() : orth(), s(n);
        for (int i = 0; i < n; i++) s(i, i) = r.in(-1, 2);
        a = u * s * v;
        break;
    }
    case 6: for (auto &x : a.v) x = Z(r.in(-3, 3), cplx ? r.in(-3, 3) : 0); break;  // small integers
    case 7: for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) a(i, j) = g(); break; // strictly triangular
    case 8: {                                                                       // signed permutation
        std::vector<int> p(n);
        for (int i = 0; i < n; i++) p[i] = i;
        for (int i = n - 1; i > 0; i--) std::swap(p[i], p[r.in(0, i)]);
        for (int i = 0; i < n; i++) a(i, p[i]) = r.in(0, 1) ? 1 : -1;
        break;
    }
    case 9: {                                                                       // generator times a multiple of pi / 2
        D q = orth(), s(n);
        if (cplx) {
            for (int i = 0; i < n; i++) s(i, i) = Z(0, r.in(-2, 2) * acosl(0));
            a = q * s * q.dag();
        } else {
            for (int i = 0; i + 1 < n; i += 2) { L t = r.in(-2, 2) * acosl(0); s(i, i + 1) = t; s(i + 1, i) = -t; }
            a = q * s * q.dag();
        }
        break;
    }
    case 10: for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a(i, j) = g() * (L)std::pow(10.0, -2.0 * (i < j ? i : j)); break; // graded
    case 11: { D u = orth(), v = orth(), s(n); for (int i = 0; i < n; i++) s(i, i) = i == n - 1 ? 1e-9 : 1 + r.unit(); a = u * s * v; break; } // nearly singular
    case 12: a = orth(); break;                                                     // unitary
    case 13: for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a(i, j) = j == (int)(seed % n) ? Z(0) : g(); break; // a zero column
    case 14: for (auto &x : a.v) x = r.in(0, 2) ? Z(0) : g(); break;                // sparse
    }
    if (herm) { D t = a + a.dag(); a = Z(0.5) * t; }
    return Z(scale) * a;
}

template <int n, typename T>
struct Lin {
    using M = SquareMatrix<n, T>;
    using B = hila::arithmetic_type<T>;
    static constexpr bool cplx = hila::is_complex<T>::value, integer = std::is_integral<B>::value;
    static constexpr L eps = ep<T>::e;

    static M make(const D &d) { M m; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) setc(m.e(i, j), d(i, j)); return m; }

#ifndef LA_INT
    using DT = typename std::conditional<cplx, Complex<double>, double>::type;
    template <typename UM>
    static void unitary(const char *what, const UM &u, const D &a, L e) { D r = ref(u); small(what, r.dag() * r - one(n), 40 * n * e, a); }
    template <typename E>
    static void order(const char *what, const E &e, int so, const D &a) {
        for (int i = 0; i + 1 < n; i++)
            if ((so == 1 && e.e(i) > e.e(i + 1)) || (so == 2 && e.e(i) < e.e(i + 1))) hv::fail("%s: order of the values, matrix %s", what, show(a).c_str());
    }
    static enum hila::sort srt(int so) { return so == 0 ? hila::sort::unsorted : so == 1 ? hila::sort::ascending : hila::sort::descending; }

    template <typename ED, typename UM>
    static void checkeig(const char *what, const ED &e, const UM &u, int so, const D &a, L ee) {
        D r = ref(u), E = refdiag(e);
        unitary(what, u, a, ee);
        small(what, a * r - r * E, 40 * n * ee * a.nrm() + 1e-300L, a);
        order(what, e, so, a);
    }
    template <typename SD, typename UM>
    static void checksvd(const char *what, const UM &u, const SD &s, const UM &v, int so, const D &a, L ee) {
        D U = ref(u), V = ref(v), S = refdiag(s);
        unitary((std::string(what) + " U").c_str(), u, a, ee);
        unitary((std::string(what) + " V").c_str(), v, a, ee);
        small(what, a - U * S * V.dag(), 40 * n * ee * a.nrm() + 1e-300L, a);
        for (int i = 0; i < n; i++) if (!(s.e(i) >= 0)) hv::fail("%s: negative singular value, matrix %s", what, show(a).c_str());
        order(what, s, so, a);
    }
    static void eig(int kind, double sc, uint64_t seed, int form, int so) {
        M m = make(draw(n, cplx, true, kind, sc, seed));
        D a = ref(m);
        if (form == 0) {
            auto r = m.eigen_hermitean(srt(so));
            checkeig("eigen_hermitean", r.eigenvalues, r.eigenvectors, so, a, eps);
        } else if (form == 1) {
            DiagonalMatrix<n, double> e;
            SquareMatrix<n, DT> u;
            m.eigen_hermitean(e, u, srt(so));
            checkeig("eigen_hermitean to double", e, u, so, a, 2.3e-16L);
        } else {
            Vector<n, B> e;
            M u;
            m.eigen_jacobi(e, u, srt(so));
            DiagonalMatrix<n, B> d;
            for (int i = 0; i < n; i++) d.e(i) = e[i];
            checkeig("eigen_jacobi", d, u, so, a, eps);
        }
    }
    static void svd(int kind, double sc, uint64_t seed, int form, int so) {
        M m = make(draw(n, cplx, false, kind, sc, seed));
        D a = ref(m);
        if (form == 0) { auto r = m.svd(srt(so)); checksvd("svd", r.U, r.singularvalues, r.V, so, a, eps); }
        else if (form == 1) { auto r = m.svd_pivot(srt(so)); checksvd("svd_pivot", r.U, r.singularvalues, r.V, so, a, eps); }
        else {
            SquareMatrix<n, DT> u, v;
            DiagonalMatrix<n, double> s;
            if (form == 2) m.svd(u, s, v, srt(so));
            else m.svd_pivot(u, s, v, srt(so));
            checksvd(form == 2 ? "svd to double" : "svd_pivot to double", u, s, v, so, a, 2.3e-16L);
        }
    }
    static void lu(int kind, double sc, uint64_t seed, int form) {
        M m = make(draw(n, cplx, false, kind, sc, seed));
        D a = ref(m);
        bool ok;
        D ai = inverse(a, ok);
        L cond = ok ? a.nrm() * ai.nrm() : 0;
        if (!ok || cond * eps > 1e-2L || cond > 1e12L) return; // no inverse to speak of
        hv::tag("lu-regular");
        L le = 2.3e-16L; // the factors are double
        if (form == 0) { // P A = L U
            auto r = m.LU_decompose();
            D lo = one(n), up(n), pa(n), f = ref(r.LU);
            std::vector<int> seen(n, 0);
            for (int i = 0; i < n; i++) {
                if (r.P[i] < 0 || r.P[i] >= n || seen[r.P[i]]++) { hv::fail("LU_decompose: not a permutation"); return; }
                for (int j = 0; j < n; j++) { if (j < i) lo(i, j) = f(i, j); else up(i, j) = f(i, j); pa(i, j) = a(r.P[i], j); }
            }
            small("LU_decompose", pa - lo * up, 40 * n * le * (lo.nrm() * up.nrm()), a);
            for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (std::abs(lo(i, j)) > 1 + 1e-6L) hv::fail("LU_decompose: row %d not pivoted, factor %Lg, matrix %s", i, std::abs(lo(i, j)), show(a).c_str());
        } else if (form == 1) {
            M r = m.LU_invert();
            small("LU_invert", ref(r) - ai, 100 * n * eps * cond * ai.nrm(), a);
        } else if (form == 2) {
            Vector<n, T> b;
            D bb = draw(n, cplx, false, 0, 1, seed + 1);
            for (int i = 0; i < n; i++) setc(b[i], bb(i, 0));
            auto x = m.LU_solve(b);
            auto y = m.LU_decompose().solve(b);
            D w(n), e(n), w2(n);
            for (int i = 0; i < n; i++) { w(i, 0) = conv(b[i]); e(i, 0) = conv(x[i]); w2(i, 0) = conv(y[i]); }
            D t = ai * w;
            small("LU_solve", e - t, 100 * n * eps * cond * ai.nrm() * w.nrm(), a);
            small("LU_result::solve", w2 - t, 100 * n * eps * cond * ai.nrm() * w.nrm(), a);
        } else if (form == 3) { // several right-hand sides, left division
            M b = make(draw(n, cplx, false, 0, 1, seed + 1));
            D t = ai * ref(b);
            small("LU_solve of a matrix", ref(m.LU_solve(b)) - t, 100 * n * eps * cond * ai.nrm() * ref(b).nrm(), a);
            small("matrix solve_left", ref(m.LU_decompose().invert()) - ai, 100 * n * eps * cond * ai.nrm(), a);
        }
    }
    static void dpc(uint64_t seed) { // diagonal plus a constant matrix
        hv::Rng r(seed);
        DiagonalMatrix<n, T> d;
        D a(n), dd = draw(n, cplx, false, 1, 1, seed);
        T c;
        setc(c, Z(r.gauss(), cplx ? r.gauss() : 0));
        for (int i = 0; i < n; i++) setc(d.e(i), dd(i, i));
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a(i, j) = conv(c) + (i == j ? conv(d.e(i)) : Z(0));
        bool ok;
        D ai = inverse(a, ok);
        L b = 0; // size of 1 / D and of the correction, whose cancellation loses digits
        for (int i = 0; i < n; i++) b += 1 / std::abs(conv(d.e(i)));
        Z den = 1;
        for (int i = 0; i < n; i++) den += conv(c) / conv(d.e(i));
        L amp = b + b * b * std::abs(conv(c)) / std::abs(den) * (1 + (1 + std::abs(conv(c)) * b) / std::abs(den));
        if (!ok || amp * eps > 1e-2L) return;
        small("invert_diagonal_plus_constant_matrix", ref(hila::invert_diagonal_plus_constant_matrix(d, c)) - ai, 40 * n * eps * amp, a);
    }
    static void expo(int kind, double sc, uint64_t seed, int form, int ord) {
        M m = make(draw(n, cplx, false, kind, sc, seed));
        D a = ref(m);
        L x = a.nrm(), lim = sizeof(B) == 4 ? 4 : 8;
        if (x > lim) { m *= (B)(lim / x); a = ref(m); x = a.nrm(); }
        L c = 200 * n * eps * (1 + x);
        if (form == 0) {
            small("exp(order)", ref(exp(m, ord)) - series(a, ord), c * major(x, ord), a);
        } else if (form == 1) {
            if (x < 0.75) small("exp", ref(exp(m)) - expm(a), c * major(x, 20), a);
            else small("exp", ref(exp(m)) - series(a, 20), c * major(x, 20), a);
        } else if (form == 2) {
            if (x > 2.2) { m *= (B)0.25; a = ref(m); x = a.nrm(); }
            int it;
            small("altexp", ref(altexp(m)) - expm(a), c * expl(x), a);
            small("altexp with count", ref(altexp(m, it)) - expm(a), c * expl(x), a);
        } else if (form == 3) {
            small("chexp", ref(chexp(m)) - expm(a), c * expl(x), a);
            int it;
            small("chexp with count", ref(chexp(m, it)) - expm(a), c * expl(x), a);
        } else if (form == 4) {
            M r, pl[n];
            chexp(m, r);
            small("chexp(mat, out)", ref(r) - expm(a), c * expl(x), a);
            chexp(m, r, pl);
            small("chexp(mat, out, work)", ref(r) - expm(a), c * expl(x), a);
            small("chexp(mat, work)", ref(chexp(m, pl)) - expm(a), c * expl(x), a);
        } else if (form == 5) {
            L s = x > 1.5 ? 1.5L / x : 1; // no scaling inside: moderate norms
            m *= (B)s; a = ref(m); x = a.nrm();
            small("chsexp", ref(chsexp(m)) - expm(a), c * expl(x) * 20, a);
        }
    }
    static void dexpo(int kind, double sc, uint64_t seed, int form, int ord) {
        M m = make(draw(n, cplx, false, kind, sc, seed)), b = make(draw(n, cplx, false, 0, 1, seed + 7));
        D a = ref(m), bb = ref(b);
        L x = a.nrm(), lim = 4;
        if (x > lim) { m *= (B)(lim / x); a = ref(m); x = a.nrm(); }
        L c = 400 * n * eps * (1 + x) * expl(x);
        D ea = expm(a), up = ea.dag() * bb;
        if (form == 0) { // derivative with respect to every element
            M r, dr[n][n];
            chexp(m, r, dr);
            small("chexp with derivative", ref(r) - ea, c, a);
            for (int i = 0; i < n; i++)
                for (int j = 0; j < n; j++) {
                    D e(n);
                    e(j, i) = 1;
                    small("chexp: derivative", ref(dr[i][j]) - dexp(a, e), c * 4, a);
                }
        } else if (form == 1) {
            M r, dr;
            mult_chexp(m, b, r, dr);
            small("mult_chexp", ref(r) - up * ea, c * expl(x) * bb.nrm(), a);
            small("mult_chexp: derivative", ref(dr) - dexp(a, up), 4 * c * expl(x) * bb.nrm(), a);
        } else if (form == 2) {
            M t, k, r, dr;
            chexpk(m, t, k);
            small("chexpk", ref(t) - ea, c, a);
            mult_chexpk_fast(m, t, k, b, r, dr);
            small("mult_chexpk_fast", ref(r) - up * ea, c * expl(x) * bb.nrm(), a);
            small("mult_chexpk_fast: derivative", ref(dr) - dexp(a, up), 4 * c * expl(x) * bb.nrm(), a);
            M k2;
            small("chexpk, value returned", ref(chexpk(m, k2)) - ea, c, a);
        } else if (form == 3) {
            M r, dr;
            if (x > 1) { m *= (B)(1 / x); a = ref(m); x = a.nrm(); ea = expm(a); }
            mult_exp(m, b, r, dr);
            small("mult_exp", ref(r) - bb * ea, c * bb.nrm(), a);
            small("mult_exp: derivative", ref(dr) - dexp(a, bb), 4 * c * bb.nrm(), a);
        }
    }
#endif
    static void det(int kind, double sc, uint64_t seed) {
        M m = make(draw(n, cplx, false, kind, sc, seed));
        D a = ref(m);
        Z d = detref(a);
        L h = 1; // product of the row norms
        for (int i = 0; i < n; i++) { L s = 0; for (int j = 0; j < n; j++) s += std::norm(a(i, j)); h *= std::sqrt(s); }
        L e = integer ? 0 : 100 * n * n * eps, tol = e * h + (integer ? 0.01L : 1e-290L);
        auto chk = [&](const char *w, Z got, L f) {
            hv::nchecks()++;
            if (!(std::abs(got - d) <= f * tol)) hv::fail("%s is %Lg%+Lgi, expected %Lg%+Lgi, matrix %s", w, got.real(), got.imag(), d.real(), d.imag(), show(a).c_str());
        };
        chk("det()", conv(m.det()), 1);
        chk("det(m)", conv(::det(m)), 1);
        if constexpr (n <= 6) chk("det_laplace()", conv(m.det_laplace()), n > 4 ? 30 : 1);
        if constexpr (!integer) {
            chk("det_lu()", conv(m.det_lu()), 1);
            chk("det_lu(m)", conv(::det_lu(m)), 1);
        }
    }
    static void runcase(const hv::Case &c) {
        hv::nontriv() = false;
        for (auto &o : c.ops) {
            const std::string &k = o.name();
            hv::where() = k;
            hv::tag(k);
            hv::tag("kind" + std::to_string(o.i(1)));
            int kind = o.i(1);
            double sc = o.d(2);
            uint64_t seed = o.u(3);
            hv::nontriv() = hv::nontriv() || kind != 2;
            if (k == "det") det(kind, sc, seed);
#ifndef LA_INT
            else if (k == "eig") eig(kind, sc, seed, o.i(4), o.i(5));
            else if (k == "svd") svd(kind, sc, seed, o.i(4), o.i(5));
            else if (k == "lu") lu(kind, sc, seed, o.i(4));
            else if (k == "dpc") dpc(seed);
            else if (k == "exp") expo(kind, sc, seed, o.i(4), o.i(5));
            else if (k == "dexp") dexpo(kind, sc, seed, o.i(4), o.i(5));
#endif
        }
    }
};
} // namespace la
#endif
