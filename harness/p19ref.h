// P19: reference for gauge fields: all links on every process, long double
#ifndef P19REF_H_
#define P19REF_H_
namespace gr19 {
using L = long double;
template <int N> struct M { L r[N][N], i[N][N]; };
template <int N> inline M<N> zero() { M<N> m; for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) m.r[a][b] = m.i[a][b] = 0; return m; }
template <int N> inline M<N> one() { M<N> m = zero<N>(); for (int a = 0; a < N; a++) m.r[a][a] = 1; return m; }
template <int N> inline M<N> operator*(const M<N> &x, const M<N> &y) {
    M<N> m = zero<N>();
    for (int a = 0; a < N; a++) for (int c = 0; c < N; c++) for (int b = 0; b < N; b++) {
        m.r[a][b] += x.r[a][c] * y.r[c][b] - x.i[a][c] * y.i[c][b];
        m.i[a][b] += x.r[a][c] * y.i[c][b] + x.i[a][c] * y.r[c][b];
    }
    return m;
}
template <int N> inline M<N> operator*(const M<N> &x, L s) { M<N> m; for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) { m.r[a][b] = x.r[a][b] * s; m.i[a][b] = x.i[a][b] * s; } return m; }
template <int N> inline M<N> operator+(const M<N> &x, const M<N> &y) { M<N> m; for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) { m.r[a][b] = x.r[a][b] + y.r[a][b]; m.i[a][b] = x.i[a][b] + y.i[a][b]; } return m; }
template <int N> inline M<N> operator-(const M<N> &x, const M<N> &y) { return x + y * (L)-1; }
template <int N> inline M<N> dag(const M<N> &x) { M<N> m; for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) { m.r[a][b] = x.r[b][a]; m.i[a][b] = -x.i[b][a]; } return m; }
template <int N> inline L retr(const M<N> &x) { L s = 0; for (int a = 0; a < N; a++) s += x.r[a][a]; return s; }
template <int N> inline L norm2(const M<N> &x) { L s = 0; for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) s += x.r[a][b] * x.r[a][b] + x.i[a][b] * x.i[a][b]; return s; }
template <int N> inline L norm(const M<N> &x) { return std::sqrt(norm2(x)); }
template <int N> inline M<N> ta(const M<N> &x) { // traceless antihermitean part
    M<N> m = (x - dag(x)) * 0.5L;
    L t = 0;
    for (int a = 0; a < N; a++) t += m.i[a][a] / N;
    for (int a = 0; a < N; a++) m.i[a][a] -= t;
    return m;
}
template <int N> inline M<N> expm(const M<N> &x) {
    int s = 0;
    L n = norm(x), f = 1;
    while (n > 0.25L) { n /= 2; f /= 2; s++; }
    M<N> y = x * f, t = one<N>(), e = t;
    for (int k = 1; k < 22; k++) { t = t * y * (1 / (L)k); e = e + t; }
    for (int k = 0; k < s; k++) e = e * e;
    return e;
}
template <int N> inline M<N> inverse(M<N> x) {
    M<N> y = one<N>();
    for (int c = 0; c < N; c++) {
        int p = c;
        for (int a = c; a < N; a++) if (std::hypot(x.r[a][c], x.i[a][c]) > std::hypot(x.r[p][c], x.i[p][c])) p = a;
        for (int b = 0; b < N; b++) { std::swap(x.r[c][b], x.r[p][b]); std::swap(x.i[c][b], x.i[p][b]); std::swap(y.r[c][b], y.r[p][b]); std::swap(y.i[c][b], y.i[p][b]); }
        L q = x.r[c][c] * x.r[c][c] + x.i[c][c] * x.i[c][c], ir = x.r[c][c] / q, ii = -x.i[c][c] / q;
        auto sc = [&](M<N> &z) { for (int b = 0; b < N; b++) { L a = z.r[c][b], d = z.i[c][b]; z.r[c][b] = a * ir - d * ii; z.i[c][b] = a * ii + d * ir; } };
        sc(x); sc(y);
        for (int a = 0; a < N; a++) if (a != c) {
            L fr = x.r[a][c], fi = x.i[a][c];
            auto el = [&](M<N> &z) { for (int b = 0; b < N; b++) { z.r[a][b] -= fr * z.r[c][b] - fi * z.i[c][b]; z.i[a][b] -= fr * z.i[c][b] + fi * z.r[c][b]; } };
            el(x); el(y);
        }
    }
    return y;
}
template <int N> inline M<N> logm(M<N> x) { // by square roots (Denman-Beavers), then a series
    int s = 0;
    while (norm(x - one<N>()) > 0.05L && s < 12) {
        M<N> y = x, z = one<N>();
        for (int k = 0; k < 12; k++) { M<N> yn = (y + inverse(z)) * 0.5L; z = (z + inverse(y)) * 0.5L; y = yn; }
        x = y;
        s++;
    }
    M<N> d = x - one<N>(), t = d, r = d;
    for (int k = 2; k < 20; k++) { t = t * d; r = r + t * ((k % 2 ? 1 : -1) / (L)k); }
    for (int k = 0; k < s; k++) r = r * 2;
    return r;
}
template <int N> inline void det(const M<N> &m, L &re, L &im) {
    if (N == 2) {
        re = m.r[0][0] * m.r[1][1] - m.i[0][0] * m.i[1][1] - m.r[0][1] * m.r[1][0] + m.i[0][1] * m.i[1][0];
        im = m.r[0][0] * m.i[1][1] + m.i[0][0] * m.r[1][1] - m.r[0][1] * m.i[1][0] - m.i[0][1] * m.r[1][0];
        return;
    }
    // elimination
    M<N> x = m;
    L dr = 1, di = 0;
    for (int c = 0; c < N; c++) {
        int p = c;
        for (int a = c; a < N; a++) if (std::hypot(x.r[a][c], x.i[a][c]) > std::hypot(x.r[p][c], x.i[p][c])) p = a;
        if (p != c) { for (int b = 0; b < N; b++) { std::swap(x.r[c][b], x.r[p][b]); std::swap(x.i[c][b], x.i[p][b]); } dr = -dr; di = -di; }
        L pr = x.r[c][c], pi = x.i[c][c], t = dr * pr - di * pi;
        di = dr * pi + di * pr; dr = t;
        L q = pr * pr + pi * pi;
        if (q == 0) { re = im = 0; return; }
        for (int a = c + 1; a < N; a++) {
            L fr = (x.r[a][c] * pr + x.i[a][c] * pi) / q, fi = (x.i[a][c] * pr - x.r[a][c] * pi) / q;
            for (int b = 0; b < N; b++) { L yr = x.r[c][b], yi = x.i[c][b]; x.r[a][b] -= fr * yr - fi * yi; x.i[a][b] -= fr * yi + fi * yr; }
        }
    }
    re = dr; im = di;
}
// sum of e_a lambda_a: antihermitean generators with -2 tr l_a l_b = delta_ab, diagonal ones first
template <int N> inline M<N> comb(const std::vector<L> &e) {
    M<N> m = zero<N>();
    int n = 0;
    for (int k = 1; k < N; k++, n++) {
        L c = e[n] / std::sqrt(k * (k + 1) / 2.0L) / 2;
        for (int a = 0; a < k; a++) m.i[a][a] += c;
        m.i[k][k] -= c * k;
    }
    for (int a = 0; a < N; a++) for (int b = a + 1; b < N; b++) {
        m.r[a][b] += e[n] / 2; m.r[b][a] -= e[n] / 2; n++;
        m.i[a][b] += e[n] / 2; m.i[b][a] += e[n] / 2; n++;
    }
    return m;
}
template <int N> inline M<N> rnd(uint64_t seed, int kind, double amp) {
    hv::Rng g(seed);
    std::vector<L> e(N * N - 1);
    M<N> m = one<N>();
    for (int k = 0; k < (kind == 0 ? 3 : 1); k++) {
        for (auto &q : e) q = (kind == 0 ? 3.5 : amp) * g.gauss();
        m = m * expm(comb<N>(e));
    }
    return m;
}
template <int N> struct Ref {
    using T = M<N>;
    int n[NDIM];
    size_t vol;
    std::vector<T> U[NDIM];
    mutable L maxterm = 0;
    std::vector<int> nbt;
    void init() {
        vol = 1;
        for (int d = 0; d < NDIM; d++) vol *= n[d];
        for (auto &u : U) u.assign(vol, one<N>());
        nbt.resize(vol * 2 * NDIM);
        for (size_t x = 0; x < vol; x++) {
            int c[NDIM], y = (int)x;
            for (int d = 0; d < NDIM; d++) { c[d] = y % n[d]; y /= n[d]; }
            for (int d = 0; d < 2 * NDIM; d++) {
                int e = d % NDIM, o = c[e];
                c[e] = (o + (d < NDIM ? 1 : n[e] - 1)) % n[e];
                int s = 0;
                for (int q = NDIM - 1; q >= 0; q--) s = s * n[q] + c[q];
                c[e] = o;
                nbt[x * 2 * NDIM + d] = s;
            }
        }
    }
    int nb(int x, int d) const { return nbt[(size_t)x * 2 * NDIM + d]; } // directions 0..NDIM-1 up, then down
    int parity(int x) const { int s = 0; for (int d = 0; d < NDIM; d++) { s += x % n[d]; x /= n[d]; } return s % 2; }
    void transform(uint64_t seed) {
        std::vector<T> g(vol);
        for (size_t x = 0; x < vol; x++) g[x] = rnd<N>(hv::mix(seed, x), 0, 0);
        for (int d = 0; d < NDIM; d++) for (size_t x = 0; x < vol; x++) U[d][x] = g[x] * U[d][x] * dag(g[nb(x, d)]);
    }
    void fill(uint64_t seed, int kind, double amp) {
        for (int d = 0; d < NDIM; d++) {
            T c = rnd<N>(hv::mix(seed, 777 + d), 1, amp);
            for (size_t x = 0; x < vol; x++)
                U[d][x] = kind == 0 ? rnd<N>(hv::mix(seed, x * NDIM + d), 0, 0) : kind == 3 ? c : rnd<N>(hv::mix(seed, x * NDIM + d), 1, kind == 4 ? 0 : amp);
        }
        if (kind == 2) transform(seed + 1); // small field in a rough gauge
        if (kind == 5) { hv::Rng g(seed); U[g.in(0, NDIM - 1)][g.in(0, (int)vol - 1)] = rnd<N>(seed, 0, 0); } // one different link
    }
    template <typename R> void roundto() { for (auto &u : U) for (auto &m : u) for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) { m.r[a][b] = (R)m.r[a][b]; m.i[a][b] = (R)m.i[a][b]; } }
    T link(int x, int d) const { return d < NDIM ? U[d][x] : dag(U[d - NDIM][nb(x, d)]); }
    T line(const std::vector<int> &p, int x) const { T m = one<N>(); for (int d : p) { m = m * link(x, d); x = nb(x, d); } return m; }
    int back(const std::vector<int> &p, int x) const { for (size_t k = p.size(); k-- > 0;) x = nb(x, p[k] < NDIM ? p[k] + NDIM : p[k] - NDIM); return x; }
    T lineto(const std::vector<int> &p, int x) const { return line(p, back(p, x)); }
    bool closed(const std::vector<int> &p) const { int s[NDIM] = {0}; for (int d : p) s[d % NDIM] += d < NDIM ? 1 : -1; for (int d = 0; d < NDIM; d++) if (s[d]) return false; return true; }
    T plaq(int x, int a, int b) const { return U[a][x] * U[b][nb(x, a)] * dag(U[b][x] * U[a][nb(x, b)]); }
    L maxplaq() const { L m = 0; for (size_t x = 0; x < vol; x++) for (int a = 0; a < NDIM; a++) for (int b = a + 1; b < NDIM; b++) m = std::max(m, norm(plaq(x, a, b) - one<N>())); return m; }
    template <typename F> L plaqsum(F f) const { L s = 0; for (size_t x = 0; x < vol; x++) for (int a = 0; a < NDIM; a++) for (int b = a + 1; b < NDIM; b++) s += f((int)x, a, b); return s; }
    L wplaq() const {
        maxterm = -1;
        return plaqsum([&](int x, int a, int b) { L t = 1 - retr(plaq(x, a, b)) / N; maxterm = std::max(maxterm, t); return t; });
    }
    L wloop(const std::vector<int> &p) const { L s = 0; for (size_t x = 0; x < vol; x++) s += 1 - retr(line(p, x)) / N; return s; }
    L impr(L c11, L c12) const {
        L s = 0;
        for (int a = 0; a < NDIM; a++) for (int b = 0; b < NDIM; b++) if (a != b) {
            if (a < b) s += c11 * wloop({a, b, a + NDIM, b + NDIM});
            s += c12 * wloop({a, a, b, a + NDIM, a + NDIM, b + NDIM});
        }
        return s;
    }
    T leaves(int x, int a, int b) const {
        return line({a, b, a + NDIM, b + NDIM}, x) + line({b, a + NDIM, b + NDIM, a}, x) + line({a + NDIM, b + NDIM, a, b}, x) + line({b + NDIM, a, b, a + NDIM}, x);
    }
    T logleaves(int x, int a, int b) const {
        return logm(line({a, b, a + NDIM, b + NDIM}, x)) + logm(line({b, a + NDIM, b + NDIM, a}, x)) + logm(line({a + NDIM, b + NDIM, a, b}, x)) + logm(line({b + NDIM, a, b, a + NDIM}, x));
    }
    L clover() const { return plaqsum([&](int x, int a, int b) { return norm2(ta(leaves(x, a, b) * 0.25L)) / (2 * N); }); }
    L logclover() const { return plaqsum([&](int x, int a, int b) { return norm2(logleaves(x, a, b) * 0.25L) / (2 * N); }); }
    L logplaq() const { return plaqsum([&](int x, int a, int b) { return norm2(logm(plaq(x, a, b))) / (2 * N); }); }
    L bp() const {
        return plaqsum([&](int x, int a, int b) {
            T o = (plaq(x, a, b) + one<N>()) * 0.5L, i = inverse(o), q = i * dag(i);
            return retr(q * q) / N - 1;
        });
    }
    template <typename W> T staple(int d, int x, W w) const { // sum of the staples parallel to the link
        T s = zero<N>();
        for (int b = 0; b < NDIM; b++) if (b != d) {
            int y = nb(x, b + NDIM);
            s = s + line({b, d, b + NDIM}, x) * w(b, x) + line({b + NDIM, d, b}, x) * w(b, y);
        }
        return s;
    }
    void polyakov(int d, L &re, L &im) const {
        re = im = 0;
        std::vector<int> p(n[d], d);
        for (size_t x = 0; x < vol; x++) { T m = line(p, (int)x); for (int a = 0; a < N; a++) { re += m.r[a][a] / vol; im += m.i[a][a] / vol; } }
    }
    // minus the algebra projection of link times staples
    void wforce(std::vector<T> *f) const {
        for (int d = 0; d < NDIM; d++) {
            f[d].resize(vol);
            for (size_t x = 0; x < vol; x++) f[d][x] = ta(U[d][x] * dag(staple(d, (int)x, [](int, int) { return (L)1; }))) * -2;
        }
    }
    void implforce(L c11, L c12, std::vector<T> *f) const { // all loops through the link, one by one
        std::vector<T> s[NDIM];
        for (int d = 0; d < NDIM; d++) { f[d].assign(vol, zero<N>()); }
        auto add = [&](const std::vector<int> &p, L c) {
            for (size_t x = 0; x < vol; x++) {
                int y = (int)x;
                std::vector<int> q = p;
                for (size_t k = 0; k < p.size(); k++) { // loop starting with its k-th step
                    T m = line(q, y);
                    if (q[0] < NDIM) f[q[0]][y] = f[q[0]][y] - ta(m) * (2 * c / 2);
                    else { int e = q[0] - NDIM, z = nb(y, q[0]); T w = U[e][z] * m * dag(U[e][z]); f[e][z] = f[e][z] + ta(w) * (2 * c / 2); }
                    y = nb(y, q[0]);
                    std::rotate(q.begin(), q.begin() + 1, q.end());
                }
            }
        };
        for (int a = 0; a < NDIM; a++) for (int b = 0; b < NDIM; b++) if (a != b) {
            if (a < b) add({a, b, a + NDIM, b + NDIM}, c11);
            add({a, a, b, a + NDIM, a + NDIM, b + NDIM}, c12);
        }
    }
    Ref stout(L c) const {
        Ref r = *this;
        for (int d = 0; d < NDIM; d++) for (size_t x = 0; x < vol; x++)
            r.U[d][x] = expm(ta(U[d][x] * dag(staple(d, (int)x, [](int, int) { return (L)1; }))) * (-2 * c / 2)) * U[d][x];
        return r;
    }
    Ref flow(L t, int steps) const {
        Ref r = *this;
        L h = t / steps;
        for (int k = 0; k < steps; k++) {
            std::vector<T> z0[NDIM], z1[NDIM], z2[NDIM];
            auto up = [&](std::vector<T> *a, L ca, std::vector<T> *b, L cb, std::vector<T> *c, L cc) {
                for (int d = 0; d < NDIM; d++) for (size_t x = 0; x < vol; x++) {
                    T s = a[d][x] * (ca * h / 2);
                    if (cb) s = s + b[d][x] * (cb * h / 2);
                    if (cc) s = s + c[d][x] * (cc * h / 2);
                    r.U[d][x] = expm(s) * r.U[d][x];
                }
            };
            r.wforce(z0); up(z0, 0.25L, z0, 0, z0, 0);
            r.wforce(z1); up(z1, 8 / 9.0L, z0, -17 / 36.0L, z0, 0);
            r.wforce(z2); up(z2, 0.75L, z1, -8 / 9.0L, z0, 17 / 36.0L);
        }
        return r;
    }
    void topo(bool lg, L &q, L &e) const {
        q = e = 0;
#if NDIM == 4
        for (size_t x = 0; x < vol; x++) {
            T f[4][4];
            for (int a = 0; a < 4; a++) for (int b = a + 1; b < 4; b++) { f[a][b] = (lg ? logleaves((int)x, a, b) : ta(leaves((int)x, a, b))) * 0.25L; e += norm2(f[a][b]); }
            q += (retr(f[0][1] * f[2][3]) - retr(f[0][2] * f[1][3]) + retr(f[0][3] * f[1][2]));
        }
        q /= 4 * acosl(-1) * acosl(-1);
#endif
    }
};
} // namespace gr19
#endif
