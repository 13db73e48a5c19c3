// P15: group types against the long double matrix representation
#ifndef GROUPS_H_
#define GROUPS_H_
#include "linalg.h"
namespace gr {
using la::D;
using la::L;
using la::Z;
inline D dia(std::initializer_list<Z> l) { D r((int)l.size()); int i = 0; for (auto &z : l) { r(i, i) = z; i++; } return r; }
inline L tr2(const D &a, const D &b) { L s = 0; for (int i = 0; i < a.n; i++) for (int j = 0; j < a.n; j++) s += (a(i, j) * b(j, i)).real(); return s; } // Re Tr a b
// generators by their description in sun_matrix.h: antihermitean, -2 Tr l_a l_b = delta_ab, diagonal ones first
inline std::vector<D> lambdas(int N) {
    std::vector<D> r;
    for (int k = 1; k < N; k++) {
        D m(N);
        L c = 1 / std::sqrt(k * (k + 1) / 2.0L) / 2;
        for (int i = 0; i < k; i++) m(i, i) = Z(0, c);
        m(k, k) = Z(0, -c * k);
        r.push_back(m);
    }
    for (int i = 0; i < N; i++)
        for (int j = i + 1; j < N; j++) {
            D m(N), n(N);
            m(i, j) = 0.5L; m(j, i) = -0.5L;
            n(i, j) = Z(0, 0.5L); n(j, i) = Z(0, 0.5L);
            r.push_back(m);
            r.push_back(n);
        }
    return r;
}
inline D comb(const std::vector<D> &lam, const std::vector<L> &a) {
    D r(lam[0].n);
    for (size_t k = 0; k < a.size(); k++) r = r + Z(a[k]) * lam[k];
    return r;
}
inline std::vector<L> proj(const std::vector<D> &lam, const D &m) { // 2 Re Tr l^+ m
    std::vector<L> r;
    for (auto &l : lam) r.push_back(-2 * tr2(l, m));
    return r;
}
inline D fixdet(D u) {
    Z d = la::detref(u);
    return std::polar((L)1, -std::arg(d) / u.n) * u;
}
// group element of the given kind
inline D gelem(const std::vector<D> &lam, int N, int kind, double sc, uint64_t seed) {
    hv::Rng r(hv::mix(seed) + 5);
    switch (kind) {
    default: return fixdet(la::draw(N, true, false, 12, 1, seed));
    case 1: { std::vector<L> a(N * N - 1); for (auto &x : a) x = sc * r.gauss(); return la::expm(comb(lam, a)); }
    case 2: return la::one(N);
    case 3: { L t = 2 * acosl(-1) * r.in(0, N - 1) / N; return std::polar((L)1, t) * la::one(N); } // centre
    case 4: {
        D m(N);
        std::vector<int> p(N);
        for (int i = 0; i < N; i++) p[i] = i;
        for (int i = N - 1; i > 0; i--) std::swap(p[i], p[r.in(0, i)]);
        for (int i = 0; i < N; i++) m(i, p[i]) = r.in(0, 1) ? 1 : -1;
        return la::detref(m).real() > 0 ? m : fixdet(m);
    }
    case 5: { std::vector<L> a(N * N - 1); a[r.in(0, N * N - 2)] = r.in(-3, 3) * acosl(-1) / 2; return la::expm(comb(lam, a)); }
    case 6: { D m(N); L s = 0; for (int i = 0; i < N; i++) { L t = i == N - 1 ? -s : 3 * r.gauss(); s += t; m(i, i) = std::polar((L)1, t); } return m; }
    }
}
inline std::vector<L> aelem(int n, int ndiag, int kind, double sc, uint64_t seed) {
    hv::Rng r(hv::mix(seed) + 9);
    std::vector<L> a(n);
    if (kind == 1) a[r.in(0, n - 1)] = sc * r.in(-2, 2);
    else if (kind == 2) { for (int i = 0; i < ndiag; i++) a[i] = sc * r.gauss(); }
    else if (kind == 3) ;
    else if (kind == 4) { for (auto &x : a) x = r.in(0, 2) ? 0 : sc * r.gauss(); }
    else for (auto &x : a) x = sc * r.gauss();
    return a;
}
inline void num(const char *what, L got, L want, L tol) {
    hv::nchecks()++;
    if (!(std::abs(got - want) <= tol)) hv::fail("%s: %.10Lg, expected %.10Lg", what, got, want);
}
inline L nrm(const std::vector<L> &a) { L s = 0; for (auto x : a) s += x * x; return std::sqrt(s); }
inline L nrm1(const std::vector<L> &a) { L s = 0; for (auto x : a) s += std::abs(x); return s; }
inline void vec(const char *what, const std::vector<L> &got, const std::vector<L> &want, L tol) {
    hv::nchecks()++;
    L s = 0;
    for (size_t i = 0; i < want.size(); i++) s += (got[i] - want[i]) * (got[i] - want[i]);
    if (!(std::sqrt(s) <= tol)) {
        std::string a, b;
        for (size_t i = 0; i < want.size() && i < 8; i++) { a += " " + std::to_string((double)got[i]); b += " " + std::to_string((double)want[i]); }
        hv::fail("%s: off by %.3Lg, tolerance %.3Lg: got%s, expected%s", what, std::sqrt(s), tol, a.c_str(), b.c_str());
    }
}
// in the special unitary group
inline void member(const char *what, const D &u, L tol) {
    la::small((std::string(what) + ": unitarity").c_str(), u.dag() * u - la::one(u.n), tol, u);
    Z d = la::detref(u);
    if (!(std::abs(d - Z(1)) <= tol)) hv::fail("%s: determinant %Lg%+Lgi, tolerance %Lg", what, d.real(), d.imag(), tol);
}
template <typename F> void fill(F &f, const std::vector<typename std::decay<decltype(f.get_value_at(0))>::type> &v) {
    for (size_t i = 0; i < v.size(); i++) f.set_value_at(v[i], i);
    f.mark_changed(ALL);
}

template <int N, typename T>
struct Sun {
    using S = SU<N, T>;
    using G = Algebra<S>;
    using M = SquareMatrix<N, Complex<T>>;
    static constexpr L eps = sizeof(T) == 4 ? 1.2e-7L : 2.3e-16L;
    static constexpr int NA = N * N - 1;
    static S mk(const D &d) { S m; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) la::setc(m.e(i, j), d(i, j)); return m; }
    static G mka(const std::vector<L> &a) { G g; for (int i = 0; i < NA; i++) g.e(i) = (T)a[i]; return g; }
    static std::vector<L> va(const G &g) { std::vector<L> r(NA); for (int i = 0; i < NA; i++) r[i] = g.e(i); return r; }

    std::vector<D> lam = lambdas(N);
    Field<S> u, v, r;
    Field<G> e, w;
    Field<T> x, y;
    std::vector<S> us, vs;
    std::vector<G> es;
    size_t n = 0;

    void loads(int ku, double su, int kv, int ke, double se, uint64_t seed) {
        u.check_alloc(); v.check_alloc(); e.check_alloc(); r.check_alloc(); w.check_alloc(); x.check_alloc(); y.check_alloc();
        n = lattice->mynode.volume;
        us.resize(n); vs.resize(n); es.resize(n);
        for (size_t i = 0; i < n; i++) {
            us[i] = mk(gelem(lam, N, ku, su, hv::mix(seed, i)));
            vs[i] = mk(gelem(lam, N, kv, su, hv::mix(seed + 1, i)));
            es[i] = mka(aelem(NA, N - 1, ke, se, hv::mix(seed + 2, i)));
        }
        fill(u, us); fill(v, vs); fill(e, es);
    }
    D U(size_t i) { return la::ref(us[i]); }
    D V(size_t i) { return la::ref(vs[i]); }
    std::vector<L> E(size_t i) { return va(es[i]); }

    void expo(int form) {
        if (form == 0)
#pragma hila novector
            onsites(ALL) r[X] = exp(e[X]);
        if (form == 1)
#pragma hila novector
            onsites(ALL) r[X] = chexp(e[X]);
        if (form == 2)
#pragma hila novector
            onsites(ALL) r[X] = chsexp(e[X]);
        if (form == 3) onsites(ALL) r[X] = e[X].expand();
        if (form == 4) onsites(ALL) r[X] = e[X].expand_scaled(-1.5);
        for (size_t i = 0; i < n; i++) {
            D a = comb(lam, E(i)), g = la::ref(r.get_value_at(i));
            L q = a.nrm();
            if (form == 0) la::small("exp of the algebra", g - (q < 0.8 ? la::expm(a) : la::series(a, 20)), 200 * N * eps * la::major(q, 20), a);
            if (form == 1) { la::small("chexp of the algebra", g - la::expm(a), 200 * N * eps * (1 + q) * expl(q), a); member("chexp", g, 200 * N * eps * (1 + q) * expl(q)); }
            if (form == 2 && q < 1.5) la::small("chsexp of the algebra", g - la::expm(a), 2000 * N * eps, a);
            if (form == 3) la::small("expand", g - a, 20 * N * eps * q, a);
            if (form == 4) la::small("expand_scaled", g - Z(-1.5) * a, 30 * N * eps * q, a);
        }
    }
    void project(int form, int kind, double sc, uint64_t seed) { // any matrix
        for (size_t i = 0; i < n; i++) us[i] = mk(la::draw(N, true, false, kind, sc, hv::mix(seed, i)));
        fill(u, us);
        if (form == 0) onsites(ALL) w[X] = u[X].project_to_algebra();
        if (form == 1) onsites(ALL) w[X] = u[X].project_to_algebra_scaled(0.25);
        if (form == 2) onsites(ALL) {
            T q;
            w[X] = u[X].project_to_algebra(q);
            x[X] = q;
        }
        if (form == 3) onsites(ALL) w[X] = (u[X] - u[X].dagger()).project_to_algebra();
        for (size_t i = 0; i < n; i++) {
            std::vector<L> p = proj(lam, U(i)), g = va(w.get_value_at(i));
            L tol = 20 * N * eps * U(i).nrm();
            if (form == 1) for (auto &z : p) z *= 0.25;
            if (form == 3) for (auto &z : p) z *= 2;
            vec("project_to_algebra", g, p, tol);
            if (form == 2) num("one-norm of project_to_algebra", x.get_value_at(i), nrm1(p), tol * N);
        }
    }
    void roundtrip() { // algebra -> matrix -> algebra
        onsites(ALL) {
            w[X] = e[X].expand().project_to_algebra();
            x[X] = e[X].dot(w[X]);
            y[X] = -real(trace(e[X].expand() * e[X].expand()));
        }
        for (size_t i = 0; i < n; i++) {
            std::vector<L> a = E(i);
            L q = nrm(a);
            vec("expand and project", va(w.get_value_at(i)), a, 20 * N * eps * q);
            num("dot", x.get_value_at(i), q * q / 2, 20 * N * eps * q * q);
            num("trace of the square", y.get_value_at(i), q * q / 2, 40 * N * eps * q * q);
        }
    }
    void reunit(int form, double pert, uint64_t seed) {
        for (size_t i = 0; i < n; i++) us[i] = mk(U(i) + Z(pert) * la::draw(N, true, false, 0, 1, hv::mix(seed, i)));
        fill(u, us);
        r = u;
        if (form == 0)
#pragma hila novector
            onsites(ALL) r[X].reunitarize();
        if (form == 1)
#pragma hila novector
            onsites(ALL) r[X].make_unitary();
        if (form == 2)
#pragma hila novector
            onsites(ALL) r[X].fix_det();
        for (size_t i = 0; i < n; i++) {
            D g = la::ref(r.get_value_at(i)), a = U(i);
            L tol = 100 * N * N * eps * (1 + 30 * pert);
            if (form == 0) { member("reunitarize", g, tol); la::small("reunitarize moves too far", g - a, tol + 20 * N * N * pert, a); }
            if (form == 1) {
                la::small("make_unitary", g.dag() * g - la::one(N), tol, a);
                la::small("make_unitary moves too far", g - a, tol + 20 * N * N * pert, a);
            }
            if (form <= 1) { // the first row keeps its direction, up to a common phase after fix_det
                Z s = 0;
                L q = 0;
                for (int j = 0; j < N; j++) { s += std::conj(g(0, j)) * a(0, j); q += std::norm(a(0, j)); }
                num("direction of the first row", std::abs(s), std::sqrt(q), tol);
                // and row k stays in the span of rows 0..k
                if (form == 1)
                    for (int k = 1; k < N; k++) {
                        L t = 0, q2 = 0;
                        for (int m = 0; m <= k; m++) { Z d = 0; for (int j = 0; j < N; j++) d += std::conj(g(m, j)) * a(k, j); t += std::norm(d); }
                        for (int j = 0; j < N; j++) q2 += std::norm(a(k, j));
                        num("span of the rows", std::sqrt(t), std::sqrt(q2), tol);
                    }
            }
            if (form == 2) {
                Z d = la::detref(g), da = la::detref(a);
                num("phase of the determinant after fix_det", std::arg(d), 0, tol);
                num("size of the determinant after fix_det", std::abs(d), std::abs(da), tol * (1 + std::abs(da)));
                Z ph = std::polar((L)1, -std::arg(da) / N); // only a phase changes, and the smallest one
                la::small("fix_det", g - ph * a, tol, a);
            }
        }
    }
    void rnd(int form, int hits) {
        if (form == 0)
#pragma hila novector
            onsites(ALL) r[X].random();
        if (form == 1)
#pragma hila novector
            onsites(ALL) r[X].random(hits);
        if (form == 2) onsites(ALL) w[X].gaussian_random();
        if (form == 2) {
#pragma hila novector
            onsites(ALL) r[X] = chexp(w[X]); }
        std::vector<D> all;
        for (size_t i = 0; i < n; i++) {
            D g = la::ref(r.get_value_at(i));
            L t = form == 2 ? 1 + nrm(va(w.get_value_at(i))) : 1;
            member("random element", g, 100 * N * eps * expl(t - 1) * t);
            for (auto &o : all) if ((o - g).nrm() < 1e-6) hv::fail("the same random element on two sites");
            all.push_back(g);
        }
    }
    void logm(int form) {
#pragma hila novector
            onsites(ALL) u[X] = chexp(e[X]);
        if (form == 0)
#pragma hila novector
            onsites(ALL) w[X] = log(u[X]);
        for (size_t i = 0; i < n; i++) {
            std::vector<L> a = E(i), g = va(w.get_value_at(i));
            L q = comb(lam, a).nrm();
            if (q < 3) vec("log of exp", g, a, 1000 * N * N * eps * (1 + q) * expl(q));
        }
    }
    void conjug(int form) {
        if (form == 0) onsites(ALL) w[X] = right_conjugation(u[X], e[X]);
        else onsites(ALL) w[X] = left_conjugation(u[X], e[X]);
        for (size_t i = 0; i < n; i++) {
            D a = comb(lam, E(i)), m = form == 0 ? U(i).dag() * a * U(i) : U(i) * a * U(i).dag();
            vec(form == 0 ? "right_conjugation" : "left_conjugation", va(w.get_value_at(i)), proj(lam, m), 40 * N * eps * nrm(E(i)));
            num("conjugation keeps the norm", nrm(va(w.get_value_at(i))), nrm(E(i)), 80 * N * eps * nrm(E(i)));
        }
    }
    void prod(int form) {
        if (form == 0) onsites(ALL) r[X] = u[X] * v[X];
        if (form == 1) onsites(ALL) r[X] = u[X] * v[X].dagger();
        if (form == 2) onsites(ALL) r[X] = u[X].dagger() * v[X] * u[X];
        if (form == 3) { onsites(ALL) { r[X] = u[X]; r[X] *= v[X]; } }
        if (form == 4) onsites(ALL) { S t; mult(u[X], v[X], t); r[X] = t; x[X] = real(mul_trace(u[X], v[X])); }
        for (size_t i = 0; i < n; i++) {
            D a = U(i), b = V(i), m = form == 1 ? a * b.dag() : form == 2 ? a.dag() * b * a : a * b;
            D g = la::ref(r.get_value_at(i));
            la::small("product", g - m, 20 * N * eps, m);
            member("product", g, 100 * N * eps);
            if (form == 4) num("mul_trace", x.get_value_at(i), tr2(a, b), 20 * N * N * eps);
        }
    }
    void gens() {
        Alg_gen<N, T> gl[NA];
        G::generator_list(gl);
        static Alg_gen<N, T> pl[NA][NA], pl2[NA][NA];
        for (auto &p : pl) for (auto &q : p) q.empty();
        for (auto &p : pl2) for (auto &q : p) q.empty();
        G::generator_product_list(gl, pl);
        G::generator_product_list(pl2);
        for (int i = 0; i < NA; i++) {
            la::small("generator_list", la::ref(gl[i].to_matrix()) - lam[i], 4 * eps, lam[i]);
            G a = 0;
            a.e(i) = 1;
            la::small("expand of one generator", la::ref(a.expand()) - lam[i], 4 * eps, lam[i]);
            for (int j = 0; j < NA; j++) {
                D m = lam[i] * lam[j];
                la::small("generator_product_list", la::ref(pl[i][j].to_matrix()) - m, 8 * eps, m);
                la::small("generator_product_list", la::ref(pl2[i][j].to_matrix()) - m, 8 * eps, m);
            }
        }
    }
    void bilin(int form, uint64_t seed) {
        D a = la::draw(N, true, false, 0, 1, seed), b = la::draw(N, true, false, 0, 1, seed + 1);
        M ma, mb;
        for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { la::setc(ma.e(i, j), a(i, j)); la::setc(mb.e(i, j), b(i, j)); }
        a = la::ref(ma);
        b = la::ref(mb);
        Matrix<NA, NA, T> o;
        static Alg_gen<N, T> gl[NA], pl[NA][NA];
        for (auto &p : pl) for (auto &q : p) q.empty();
        G::generator_list(gl);
        G::generator_product_list(gl, pl);
        std::vector<D> want;
        M dm[N][N], ex;
        L tol = 100 * N * N * eps;
        if (form == 0) project_to_algebra_bilinear(ma, mb, o, gl);
        if (form == 1) project_to_algebra_bilinear(ma, mb, o);
        if (form == 2) project_to_algebra_bilinear(ma, o, pl);
        if (form == 3) project_to_algebra_bilinear(ma, o);
        if (form >= 4) { // derivative of the exponential in the directions of the generators
            std::vector<L> c = aelem(NA, N - 1, seed % 5, 0.7, seed);
            M x = mka(c).expand();
            a = la::ref(x);
            chexp(x, ex, dm);
            if (form == 4) project_to_algebra_bilinear(dm, o, gl);
            else project_to_algebra_bilinear(dm, o);
            tol = 4000 * N * eps * expl(a.nrm());
        }
        for (int j = 0; j < NA; j++) want.push_back(form < 2 ? a * lam[j] * b : form < 4 ? a * lam[j] : la::dexp(a, lam[j]));
        for (int i = 0; i < NA; i++)
            for (int j = 0; j < NA; j++) num(form < 4 ? "project_to_algebra_bilinear" : "project_to_algebra_bilinear of the derivative", o.e(i, j), -2 * tr2(lam[i], want[j]), tol);
    }
    void run(const hv::Case &c) {
        for (auto &o : c.ops) {
            const std::string &k = o.name();
            hv::where() = k;
            hv::tag(k);
            if (k == "load") loads(o.i(1), o.d(2), o.i(3), o.i(4), o.d(5), o.u(6));
            else if (k == "exp") expo(o.i(1));
            else if (k == "proj") project(o.i(1), o.i(2), o.d(3), o.u(4));
            else if (k == "round") roundtrip();
            else if (k == "reunit") reunit(o.i(1), o.d(2), o.u(3));
            else if (k == "rnd") rnd(o.i(1), o.i(2));
            else if (k == "log") logm(o.i(1));
            else if (k == "conj") conjug(o.i(1));
            else if (k == "prod") prod(o.i(1));
            else if (k == "gens") gens();
            else if (k == "bilin") bilin(o.i(1), o.u(2));
            if (hv::any_failed()) return;
        }
    }
    static void runcase(const hv::Case &c) {
        hv::nontriv() = true;
        Sun g;
        g.run(c);
    }
};

template <typename T>
struct Su2 {
    using S = SU2<T>;
    using G = Algebra<S>;
    static constexpr L eps = sizeof(T) == 4 ? 1.2e-7L : 2.3e-16L;
    static D ref(const S &u) { // d + a i s1 + b i s2 + c i s3
        D r(2);
        r(0, 0) = Z(u.d, u.c); r(0, 1) = Z(u.b, u.a); r(1, 0) = Z(-(L)u.b, u.a); r(1, 1) = Z(u.d, -(L)u.c);
        return r;
    }
    static D refa(const G &g) { // a i s1 / 2 + ...
        D r(2);
        r(0, 0) = Z(0, (L)g.c / 2); r(0, 1) = Z((L)g.b / 2, (L)g.a / 2); r(1, 0) = Z(-(L)g.b / 2, (L)g.a / 2); r(1, 1) = Z(0, -(L)g.c / 2);
        return r;
    }
    static std::vector<L> va(const G &g) { return {(L)g.a, (L)g.b, (L)g.c}; }
    static std::vector<L> co(const D &m) { return {m(0, 1).imag() * 2, m(0, 1).real() * 2, m(0, 0).imag() * 2}; } // coefficients of an algebra matrix
    Field<S> u, v, r;
    Field<G> e, f, w;
    Field<T> x, y, z;
    Field<SquareMatrix<2, Complex<T>>> m;
    Field<Vector<2, Complex<T>>> vc, vr;
    Field<RowVector<2, Complex<T>>> rc, rr;
    std::vector<S> us, vs;
    std::vector<G> es, fs;
    size_t n = 0;
    void loads(int ku, double su, int kv, int ke, double se, uint64_t seed) {
        u.check_alloc(); v.check_alloc(); e.check_alloc(); r.check_alloc(); w.check_alloc(); x.check_alloc(); y.check_alloc(); f.check_alloc(); z.check_alloc(); m.check_alloc();
        n = lattice->mynode.volume;
        us.resize(n); vs.resize(n); es.resize(n); fs.resize(n);
        auto lam = lambdas(2);
        auto el = [&](int k, uint64_t sd) {
            S q;
            if (k == 7) { hv::Rng r(sd); q.a = su * r.gauss(); q.b = su * r.gauss(); q.c = su * r.gauss(); q.d = su * r.gauss(); return q; } // any quaternion
            D d = gelem(lam, 2, k, su, sd);
            q.d = d(0, 0).real(); q.c = d(0, 0).imag(); q.b = d(0, 1).real(); q.a = d(0, 1).imag();
            return q;
        };
        auto al = [&](uint64_t sd) { auto t = aelem(3, 1, ke, se, sd); G g; g.a = t[0]; g.b = t[1]; g.c = t[2]; return g; };
        for (size_t i = 0; i < n; i++) {
            us[i] = el(ku, hv::mix(seed, i)); vs[i] = el(kv, hv::mix(seed + 1, i));
            es[i] = al(hv::mix(seed + 2, i)); fs[i] = al(hv::mix(seed + 3, i));
        }
        fill(u, us); fill(v, vs); fill(e, es); fill(f, fs);
    }
    D U(size_t i) { return ref(us[i]); }
    D V(size_t i) { return ref(vs[i]); }
    void arith(int form) {
        const T q = 0.75;
        if (form == 0) onsites(ALL) r[X] = u[X] * v[X];
        if (form == 1) onsites(ALL) r[X] = u[X] + v[X] * q - u[X] / q;
        if (form == 2) onsites(ALL) r[X] = u[X].dagger() * (-v[X]);
        if (form == 3) onsites(ALL) { S t; mult(u[X], v[X], t); r[X] = t; x[X] = mul_trace(u[X], v[X]); }
        if (form == 4) onsites(ALL) { S t = u[X]; t += v[X]; t *= q; t -= u[X]; t += q; r[X] = t; }
        if (form == 5) onsites(ALL) { r[X] = q - u[X]; r[X] /= q; r[X] -= q; }
        if (form == 6) onsites(ALL) r[X] = (u[X] + q) + (q + v[X]) - (u[X] - q) * q;
        if (form == 7) onsites(ALL) { r[X] = q; x[X] = det(u[X]) + trace(v[X]) + squarenorm(u[X]); }
        for (size_t i = 0; i < n; i++) {
            D a = U(i), b = V(i), one = la::one(2), want(2);
            if (form == 0 || form == 3) want = a * b;
            if (form == 1) want = a + Z(q) * b - Z(1 / (L)q) * a;
            if (form == 2) want = Z(-1) * (a.dag() * b);
            if (form == 4) want = Z(q) * (a + b) - a + Z(q) * one;
            if (form == 5) want = Z(1 / (L)q) * (Z(q) * one - a) - Z(q) * one;
            if (form == 6) want = a + Z(q) * one + Z(q) * one + b - Z(q) * (a - Z(q) * one);
            if (form == 7) want = Z(q) * one;
            L s = (1 + a.nrm()) * (1 + b.nrm());
            la::small("SU2 arithmetic", ref(r.get_value_at(i)) - want, 40 * eps * s, a);
            if (form == 3) num("SU2 mul_trace", x.get_value_at(i), tr2(a, b), 40 * eps * s);
            if (form == 7) num("SU2 det, trace, squarenorm", x.get_value_at(i), 2 * la::detref(a).real() + 2 * b(0, 0).real(), 40 * eps * (s + a.nrm() * a.nrm()));
        }
    }
    void convert(int form) {
        vc.check_alloc(); rc.check_alloc(); vr.check_alloc(); rr.check_alloc();
        onsites(ALL) {
            m[X] = u[X].convert_to_2x2_matrix();
            Vector<2, Complex<T>> t;
            t.e(0) = Complex<T>(v[X].a, v[X].b);
            t.e(1) = Complex<T>(v[X].c, v[X].d);
            vc[X] = t;
            rc[X] = t.transpose();
        }
        onsites(ALL) { vr[X] = u[X] * vc[X]; rr[X] = rc[X] * u[X]; r[X] = project_from_matrix(m[X], 0, 1); }
        for (size_t i = 0; i < n; i++) {
            D a = U(i);
            auto g = m.get_value_at(i);
            la::small("convert_to_2x2_matrix", la::ref(g) - a, 0, a);
            la::small("project_from_matrix", ref(r.get_value_at(i)) - a, 4 * eps * a.nrm(), a);
            Z t[2] = {Z(vs[i].a, vs[i].b), Z(vs[i].c, vs[i].d)};
            auto p = vr.get_value_at(i);
            auto q = rr.get_value_at(i);
            L tol = 20 * eps * (a.nrm() + 1) * (1 + V(i).nrm());
            for (int k = 0; k < 2; k++) {
                num("SU2 times vector", std::abs(Z(p.e(k).re, p.e(k).im) - (a(k, 0) * t[0] + a(k, 1) * t[1])), 0, tol);
                num("row vector times SU2", std::abs(Z(q.e(k).re, q.e(k).im) - (a(0, k) * t[0] + a(1, k) * t[1])), 0, tol);
            }
        }
    }
    void expo(int form) {
        if (form == 0) onsites(ALL) r[X] = exp(e[X]);
        if (form == 1) onsites(ALL) r[X] = chexp(e[X]);
        if (form == 2) onsites(ALL) r[X] = e[X].expand();
        if (form == 3) onsites(ALL) r[X] = exp(u[X]);
        if (form == 4) onsites(ALL) r[X] = u[X].exp();
        for (size_t i = 0; i < n; i++) {
            D a = form >= 3 ? U(i) : refa(es[i]), g = ref(r.get_value_at(i));
            L q = a.nrm();
            if (form == 2) { la::small("SU2 expand", g - a, 4 * eps * q, a); continue; }
            if (form < 2) member("SU2 exp", g, 40 * eps);
            L gr = form >= 3 ? expl(us[i].d) : 1;
            la::small("SU2 exp", g - la::expm(a), 40 * eps * gr * (1 + q) + 1e-18L * expl(q), a);
        }
    }
    void alg(int form) {
        const T q = 0.75;
        if (form == 0) onsites(ALL) w[X] = e[X] + f[X] * q - e[X] / q;
        if (form == 1) onsites(ALL) { G t = e[X]; t += f[X]; t *= q; t -= e[X]; t /= q; w[X] = -t; }
        if (form == 2) onsites(ALL) { w[X] = e[X]; x[X] = su2_algebra_dot(e[X], f[X]); y[X] = squarenorm(e[X]); z[X] = e[X].norm(); }
        if (form == 3) onsites(ALL) w[X] = e[X].expand().project_to_algebra();
        if (form == 4) onsites(ALL) w[X] = u[X].project_to_algebra();
        if (form == 5) onsites(ALL) w[X] = u[X].project_to_algebra_scaled(q);
        if (form == 6) onsites(ALL) w[X] = q * e[X] + (+f[X]);
        for (size_t i = 0; i < n; i++) {
            auto a = va(es[i]), b = va(fs[i]), g = va(w.get_value_at(i)), want = a;
            for (int k = 0; k < 3; k++) {
                if (form == 0) want[k] = a[k] + q * b[k] - a[k] / q;
                if (form == 1) want[k] = -(q * (a[k] + b[k]) - a[k]) / q;
                if (form == 6) want[k] = q * a[k] + b[k];
            }
            L s = nrm(a) + nrm(b);
            if (form == 4 || form == 5) { // 2 Re Tr l^+ u with l = i s / 2
                D d = U(i), ah = Z(0.5) * (d - d.dag());
                want = co(ah);
                if (form == 5) for (auto &t : want) t *= q;
                s = d.nrm();
            }
            vec("SU2 algebra", g, want, 20 * eps * s);
            if (form == 2) {
                L d = 0;
                for (int k = 0; k < 3; k++) d += a[k] * b[k];
                num("su2_algebra_dot", x.get_value_at(i), d, 20 * eps * s * s);
                num("SU2 algebra squarenorm", y.get_value_at(i), nrm(a) * nrm(a), 20 * eps * s * s);
                num("SU2 algebra norm", z.get_value_at(i), nrm(a), 20 * eps * s);
            }
        }
    }
    void conjug(int form) {
        if (form == 0) onsites(ALL) w[X] = right_conjugation(u[X], e[X]);
        else onsites(ALL) w[X] = left_conjugation(u[X], e[X]);
        for (size_t i = 0; i < n; i++) {
            D a = refa(es[i]), d = U(i), k = form == 0 ? d.dag() * a * d : d * a * d.dag();
            vec("SU2 conjugation", va(w.get_value_at(i)), co(k), 60 * eps * a.nrm());
        }
    }
    void logm(int form) {
        onsites(ALL) w[X] = log(u[X]);
        onsites(ALL) r[X] = exp(w[X]);
        for (size_t i = 0; i < n; i++) {
            D a = U(i);
            if ((a + la::one(2)).nrm() < 1e-5) continue; // -1 has no unique logarithm
            la::small("SU2 exp of log", ref(r.get_value_at(i)) - a, 60 * eps, a);
            L q = nrm(va(w.get_value_at(i)));
            if (!(q <= 2 * acosl(-1) + 1e-5)) hv::fail("SU2 log: not the principal one, length %Lg", q);
        }
        // and log of exp, relative to the size of the algebra element
        onsites(ALL) r[X] = exp(e[X]);
        onsites(ALL) w[X] = log(r[X]);
        for (size_t i = 0; i < n; i++) {
            auto a = va(es[i]);
            if (nrm(a) < 6) vec("SU2 log of exp", va(w.get_value_at(i)), a, 200 * eps * nrm(a));
        }
    }
    void norm(int form, double pert, uint64_t seed) {
        for (size_t i = 0; i < n; i++) { hv::Rng q(hv::mix(seed, i)); us[i].a += pert * q.gauss(); us[i].b += pert * q.gauss(); us[i].c += pert * q.gauss(); us[i].d += pert * q.gauss(); }
        fill(u, us);
        r = u;
        if (form == 0) onsites(ALL) r[X].normalize();
        if (form == 1) onsites(ALL) r[X].reunitarize();
        if (form == 2) onsites(ALL) r[X].random();
        if (form == 3) onsites(ALL) r[X].random(0.3);
        for (size_t i = 0; i < n; i++) {
            D g = ref(r.get_value_at(i)), a = U(i);
            member("SU2 normalize or random", g, 20 * eps);
            if (form < 2) la::small("SU2 normalize", g - Z(1 / std::sqrt(la::detref(a).real())) * a, 20 * eps, a);
            if (form >= 2) for (size_t j = 0; j < i; j++) if ((ref(r.get_value_at(j)) - g).nrm() < 1e-6) hv::fail("the same random SU2 element on two sites");
        }
    }
    void host(uint64_t seed) { // forms which are not used in loops
        hv::Rng q(seed);
        T a = q.gauss(), b = q.gauss(), c = q.gauss(), d = q.gauss();
        S s{a, b, c, d}, t, p;
        t = {a, b, c, d};
        p = 2;
        G g, h;
        g = {a, b, c};
        h = g;
        if (s.a != a || s.b != b || s.c != c || s.d != d || t.a != a || t.d != d || p.d != 2 || p.a != 0 || g.c != c || g.a != a) hv::fail("SU2 from a list");
        num("SU2 algebra dot", g.dot(h), (L)a * a + (L)b * b + (L)c * c, 20 * eps * ((L)a * a + (L)b * b + (L)c * c));
        h = 0;
        if (h.a != 0 || h.b != 0 || h.c != 0) hv::fail("SU2 algebra zero");
        S one = 1;
        la::small("SU2 one", ref(one) - la::one(2), 0, la::one(2));
    }
    void run(const hv::Case &c) {
        for (auto &o : c.ops) {
            const std::string &k = o.name();
            hv::where() = k;
            hv::tag("su2-" + k);
            if (k == "load") loads(o.i(1), o.d(2), o.i(3), o.i(4), o.d(5), o.u(6));
            else if (k == "arith") arith(o.i(1));
            else if (k == "convert") convert(o.i(1));
            else if (k == "exp") expo(o.i(1));
            else if (k == "alg") alg(o.i(1));
            else if (k == "conj") conjug(o.i(1));
            else if (k == "log") logm(o.i(1));
            else if (k == "norm") norm(o.i(1), o.d(2), o.u(3));
            else if (k == "host") host(o.u(1));
            if (hv::any_failed()) return;
        }
    }
    static void runcase(const hv::Case &c) { hv::nontriv() = true; Su2 g; g.run(c); }
};

template <typename T>
struct U1t {
    using S = U1<T>;
    static constexpr L eps = sizeof(T) == 4 ? 1.2e-7L : 2.3e-16L;
    Field<S> u, v, r;
    Field<Complex<T>> z, q;
    std::vector<S> us, vs;
    size_t n = 0;
    static Z ref(const S &s) { return std::polar((L)1, (L)s.phase); }
    void loads(double sc, uint64_t seed) {
        u.check_alloc(); v.check_alloc(); r.check_alloc(); z.check_alloc(); q.check_alloc();
        n = lattice->mynode.volume;
        us.resize(n); vs.resize(n);
        for (size_t i = 0; i < n; i++) {
            hv::Rng g(hv::mix(seed, i));
            us[i].phase = g.in(0, 4) ? sc * g.gauss() : acos(0.0) * g.in(-4, 4);
            vs[i].phase = g.in(0, 4) ? sc * g.gauss() : acos(0.0) * g.in(-4, 4);
        }
        fill(u, us); fill(v, vs);
    }
    void op(int form) {
        onsites(ALL) q[X] = Complex<T>(0.5, -2) * u[X].real() + Complex<T>(1, 3) * v[X].imag();
        if (form == 0) onsites(ALL) { r[X] = u[X] * v[X]; z[X] = r[X].complex(); }
        if (form == 1) onsites(ALL) { r[X] = u[X]; r[X] *= v[X].dagger(); z[X] = r[X].complex(); }
        if (form == 2) onsites(ALL) { r[X] = -u[X].conj(); z[X] = r[X].complex(); }
        if (form == 3) onsites(ALL) z[X] = u[X] * q[X];
        if (form == 4) onsites(ALL) z[X] = q[X] * u[X];
        if (form == 5) onsites(ALL) { r[X].set_phase(u[X].complex()); z[X] = r[X].complex(); }
        if (form == 6) onsites(ALL) { r[X].set_phase(v[X].phase); z[X] = Complex<T>(real(r[X]), imag(r[X])); }
        if (form == 7) onsites(ALL) { r[X].random(); z[X] = r[X].complex(); }
        if (form == 8) onsites(ALL) z[X] = conj(u[X]).complex() * (+v[X]).complex();
        for (size_t i = 0; i < n; i++) {
            Z a = ref(us[i]), b = ref(vs[i]), w, c = Z(0.5L, -2) * a.real() + Z(1, 3) * b.imag();
            if (form == 0) w = a * b;
            if (form == 1) w = a * std::conj(b);
            if (form == 2) w = -std::conj(a);
            if (form == 3 || form == 4) w = a * c;
            if (form == 5) w = a;
            if (form == 6) w = b;
            if (form == 8) w = std::conj(a) * b;
            Z g = la::conv(z.get_value_at(i));
            L ph = 1 + std::abs(us[i].phase) + std::abs(vs[i].phase);
            if (form == 7) num("random U1", std::abs(g), 1, 8 * eps);
            else num("U1 arithmetic", std::abs(g - w), 0, 40 * eps * ph);
        }
    }
    void run(const hv::Case &c) {
        for (auto &o : c.ops) {
            const std::string &k = o.name();
            hv::where() = k;
            hv::tag("u1-" + k);
            if (k == "load") loads(o.d(2), o.u(6));
            else if (k == "u1") op(o.i(1));
            if (hv::any_failed()) return;
        }
    }
    static void runcase(const hv::Case &c) { hv::nontriv() = true; U1t g; g.run(c); }
};
} // namespace gr
#endif
