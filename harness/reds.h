// Reductions over site loops against serial sums (P04).  Elements hold integers (products: powers of two), so every
// order of summation gives the same exact result.
#ifndef REDS_H_
#define REDS_H_
#include "hv.h"

namespace rd {
using hv::Case;
using hv::Op;
typedef long long I;

template <typename T>
T mk(const I *v) {
    using B = hila::arithmetic_type<T>;
    constexpr int N = sizeof(T) / sizeof(B);
    B b[N];
    for (int i = 0; i < N; i++) b[i] = (B)v[i];
    T t;
    memcpy((void *)&t, b, sizeof(T));
    return t;
}
template <typename T>
void un(const T &t, I *out) {
    using B = hila::arithmetic_type<T>;
    constexpr int N = sizeof(T) / sizeof(B);
    B b[N];
    memcpy(b, (const void *)&t, sizeof(T));
    for (int i = 0; i < N; i++) {
        out[i] = (I)b[i];
        if ((B)out[i] != b[i]) out[i] = 0x7eadbeef; // not an integer: cannot equal any expected value
    }
}

template <typename T>
struct Red {
    using B = hila::arithmetic_type<T>;
    static constexpr int N = sizeof(T) / sizeof(B);
    Field<T> f[2];
    std::vector<I> m[2];
    CoordinateVector sz;
    size_t V;
    std::vector<CoordinateVector> loc;
    Reduction<T> *r = nullptr;
    ReductionVector<T> *rv = nullptr;
    I rm[N];                 // model of r
    std::vector<I> rvm;      // model of rv
    bool rall = true, rdel = false, rvall = true, rvdel = false, rvpend = false;

    Red() {
        sz = hv::size_vector();
        V = 1;
        for (int d = 0; d < NDIM; d++) V *= sz[d];
        for (size_t i = 0; i < (size_t)lattice->mynode.volume; i++) loc.push_back(lattice->coordinates(i));
        m[0].assign(V * N, 0);
        m[1].assign(V * N, 0);
    }
    ~Red() { delete r; delete rv; }
    const I *e(int k, const CoordinateVector &c) { return &m[k][hv::gindex(c, sz) * N]; }
    bool inpar(size_t i, int par) { return par & (hv::gparity(hv::gcoord(i, sz)) == 0 ? 1 : 2); }
    void put(int k) {
        f[k].check_alloc();
        for (size_t i = 0; i < loc.size(); i++) f[k].set_value_at(mk<T>(e(k, loc[i])), i);
        f[k].mark_changed(ALL);
    }
    void load(int k, uint64_t seed, I range) {
        for (size_t i = 0; i < V * N; i++) m[k][i] = (I)(hv::mix(seed, i) % (2 * range + 1)) - range;
        put(k);
    }
    std::string istr(const I *a) {
        std::string s;
        for (int k = 0; k < N; k++) s += (k ? " " : "") + std::to_string(a[k]);
        return s;
    }
    void eq(const T &got, const I *want, bool here, const char *what) {
        if (!here) return;
        I g[N];
        un<T>(got, g);
        for (int k = 0; k < N; k++)
            if (g[k] != want[k]) {
                hv::fail("%s is %s, expected %s", what, istr(g).c_str(), istr(want).c_str());
                return;
            }
    }
    void addsum(I *s, int k, int par, int cond, int c0) {
        for (size_t i = 0; i < V; i++) {
            if (!inpar(i, par)) continue;
            if (cond && (hv::gcoord(i, sz)[0] + hv::gcoord(i, sz)[NDIM - 1]) % 3 != c0) continue;
            for (int j = 0; j < N; j++) s[j] += m[k][i * N + j];
        }
    }
    bool root() { return hila::myrank() == 0; }

    void sum_forms(const Op &o) { // sum form par allreduce init dir
        int form = o.i(1);
        Parity par = (Parity)o.i(2);
        bool all = o.i(3);
        Direction dir = (Direction)o.i(5);
        I init[N], want[N];
        for (int k = 0; k < N; k++) init[k] = want[k] = hv::ival(o.u(4), k, 50);
        T s = mk<T>(init);
        if (!all) hila::set_allreduce(false);
        if (form == 0) {
            onsites(par) s += f[0][X];
            addsum(want, 0, o.i(2), 0, 0);
            eq(s, want, all || root(), "sum");
        } else if (form == 1) {
            int c0 = o.i(5) % 3;
            onsites(par) {
                auto c = X.coordinates();
                if ((c[0] + c[NDIM - 1]) % 3 == c0) s += f[0][X];
            }
            addsum(want, 0, o.i(2), 1, c0);
            eq(s, want, all || root(), "conditional sum");
        } else if (form == 2) {
            onsites(par) {
                s += f[0][X + dir];
                s += f[1][X];
            }
            for (size_t i = 0; i < V; i++) {
                if (!inpar(i, o.i(2))) continue;
                CoordinateVector c = hv::gcoord(i, sz);
                if ((int)dir < NDIM) c[dir] += 1; else c[2 * NDIM - 1 - dir] -= 1;
                const I *p = e(0, hv::wrap(c, sz));
                for (int k = 0; k < N; k++) want[k] += p[k] + m[1][i * N + k];
            }
            eq(s, want, all || root(), "sum of neighbours");
        } else if (form == 3) {
            double n = 3;
            float q = 5;
            int64_t cnt = 7;
            T u = mk<T>(init);
            onsites(par) {
                s += f[0][X];
                n += 1;
                q += 2;
                u += f[1][X];
                cnt += X.coordinates()[0];
            }
            I wu[N];
            for (int k = 0; k < N; k++) wu[k] = init[k];
            addsum(want, 0, o.i(2), 0, 0);
            addsum(wu, 1, o.i(2), 0, 0);
            I wn = 0, wc = 7;
            for (size_t i = 0; i < V; i++)
                if (inpar(i, o.i(2))) { wn++; wc += hv::gcoord(i, sz)[0]; }
            eq(s, want, all || root(), "first of several sums");
            eq(u, wu, all || root(), "fourth of several sums");
            if (all || root()) {
                if (n != 3 + wn) hv::fail("double sum in a loop with several is %.17g, expected %lld", n, 3 + wn);
                if (q != 5 + 2 * wn) hv::fail("float sum in a loop with several is %.9g, expected %lld", (double)q, 5 + 2 * wn);
                if (cnt != wc) hv::fail("integer sum in a loop with several is %lld, expected %lld", (long long)cnt, wc);
            }
        } else if (form == 4) {
            // accumulated over several loops
            onsites(EVEN) s += f[0][X];
            onsites(ODD) s += f[0][X];
            onsites(par) s += f[1][X];
            if (!all) return; // only the first loop was affected
            addsum(want, 0, 3, 0, 0);
            addsum(want, 1, o.i(2), 0, 0);
            eq(s, want, true, "sum accumulated over three loops");
        } else if (form == 5) {
            Vector<5, int> h = 0;
            h[2] = 11;
            onsites(par) {
                int c = X.coordinates()[0] + 2 * X.coordinates()[NDIM - 1];
                h[c % 5] += c + 1;
            }
            I w[5] = {0, 0, 11, 0, 0};
            for (size_t i = 0; i < V; i++)
                if (inpar(i, o.i(2))) {
                    int c = hv::gcoord(i, sz)[0] + 2 * hv::gcoord(i, sz)[NDIM - 1];
                    w[c % 5] += c + 1;
                }
            if (all || root())
                for (int k = 0; k < 5; k++)
                    if (h[k] != w[k]) hv::fail("histogram entry %d is %d, expected %lld", k, h[k], w[k]);
        } else if (form == 6) {
            hila::set_allreduce(true);
            T g = f[0].sum(par, all);
            for (int k = 0; k < N; k++) want[k] = 0;
            addsum(want, 0, o.i(2), 0, 0);
            eq(g, want, all || root(), "Field::sum");
            if (all && o.i(2) == 3) eq(f[0].sum(), want, true, "Field::sum()");
        } else {
            hila::set_allreduce(true);
            double a = f[0].squarenorm(), b = squarenorm(f[0]), c = squarenorm_relative(f[0], f[1]), n = f[0].norm();
            double w = 0, w2 = 0;
            for (size_t i = 0; i < V * N; i++) {
                w += (double)m[0][i] * m[0][i];
                w2 += (double)(m[0][i] - m[1][i]) * (m[0][i] - m[1][i]);
            }
            if (a != w || b != w) hv::fail("squarenorm is %.17g and %.17g, expected %.17g", a, b, w);
            if (c != w2) hv::fail("squarenorm_relative is %.17g, expected %.17g", c, w2);
            if (fabs(n - std::sqrt(w)) > 1e-12 * (1 + n)) hv::fail("norm is %.17g, expected %.17g", n, std::sqrt(w));
        }
    }

#if RD_SCALAR
    void prod(const Op &o) { // prod form par allreduce seed
        Parity par = (Parity)o.i(2);
        bool all = o.i(3);
        uint64_t seed = o.u(4);
        for (size_t i = 0; i < V; i++) m[1][i] = hv::mix(seed, i) % 3 == 0 ? -1 : 1;
        for (int k = 0; k < 9; k++) m[1][hv::mix(seed, 1000000 + k) % V] *= 2;
        if (hv::mix(seed) % 7 == 0) m[1][hv::mix(seed, 4) % V] = 0;
        put(1);
        I init = 3, want = 1;
        for (size_t i = 0; i < V; i++)
            if (inpar(i, o.i(2))) want *= m[1][i];
        if (o.i(1) == 0) {
            T g = f[1].product(par, all);
            eq(g, &want, all || root(), "Field::product");
        } else {
            T p = init;
            onsites(par) p *= f[1][X];
            want *= init;
            eq(p, &want, true, "product");
        }
    }
    void minmax(const Op &o) { // mm par kind seed
        int p = o.i(1), kind = o.i(2);
        uint64_t seed = o.u(3);
        bool fl = std::is_floating_point<T>::value;
        for (size_t i = 0; i < V; i++) {
            I v = hv::ival(seed, i, kind == 5 ? 1 : 1000);
            if (kind == 1) v = -abs(v) - 1;
            else if (kind == 2) v = abs(v) + 1;
            else if (kind == 3) v = 7;
            else if (kind == 4) v *= (sizeof(T) >= 8 && !fl) ? 4000000001LL : 1000000;
            m[1][i] = v;
        }
        if (kind == 4 && fl)
            for (size_t i = 0; i < V; i++) m[1][i] = hv::ival(seed, i, 1000);
        put(1);
        bool first = true;
        I mn = 0, mx = 0;
        for (size_t i = 0; i < V; i++)
            if (inpar(i, p)) {
                if (first || m[1][i] < mn) mn = m[1][i];
                if (first || m[1][i] > mx) mx = m[1][i];
                first = false;
            }
        CoordinateVector cn, cx;
        T a = f[1].min((Parity)p, cn), b = f[1].max((Parity)p, cx);
        chk(a, mn, cn, p, "min");
        chk(b, mx, cx, p, "max");
        eq(f[1].min((Parity)p), &mn, true, "min without location");
        eq(f[1].max((Parity)p), &mx, true, "max without location");
        if (p == 3) {
            CoordinateVector c2, c3;
            eq(f[1].min(c2), &mn, true, "min(loc)");
            chk(f[1].max(c3), mx, c3, p, "max(loc)");
            chk(f[1].min(), mn, c2, p, "min(loc)");
        }
    }
    void chk(const T &v, I want, const CoordinateVector &c, int par, const char *what) {
        eq(v, &want, true, what);
        for (int d = 0; d < NDIM; d++)
            if (c[d] < 0 || c[d] >= sz[d]) {
                hv::fail("location of %s is %s", what, hv::cstr(c).c_str());
                return;
            }
        if (!inpar(hv::gindex(c, sz), par)) hv::fail("location of %s %s has the wrong parity", what, hv::cstr(c).c_str());
        if (m[1][hv::gindex(c, sz)] != want)
            hv::fail("the value at %s, location of %s, is %lld, not %lld", hv::cstr(c).c_str(), what, m[1][hv::gindex(c, sz)], want);
        // identical on all processes
        int loc[NDIM], loc0[NDIM];
        for (int d = 0; d < NDIM; d++) loc[d] = loc0[d] = c[d];
        MPI_Bcast(loc0, NDIM, MPI_INT, 0, MPI_COMM_WORLD);
        for (int d = 0; d < NDIM; d++)
            if (loc[d] != loc0[d]) hv::fail("processes disagree on the location of %s", what);
    }
#endif

    // ---- Reduction<T>
    void rnew(const Op &o) { // rnew allreduce nonblocking delayed init(seed or -1)
        delete r;
        for (int k = 0; k < N; k++) rm[k] = o.i(4) < 0 ? 0 : hv::ival(o.u(4), k, 40);
        if (o.i(4) < 0) r = new Reduction<T>();
        else r = new Reduction<T>(mk<T>(rm));
        rall = o.i(1);
        rdel = o.i(3);
        r->allreduce(rall).nonblocking(o.i(2)).delayed(rdel);
        if (r->is_allreduce() != rall || r->is_nonblocking() != (bool)o.i(2) || r->is_delayed() != rdel)
            hv::fail("option queries of Reduction");
    }
    void rloop(const Op &o) { // rloop par k cond
        Parity par = (Parity)o.i(1);
        int k = o.i(2);
        Reduction<T> &red = *r;
        if (o.i(3)) {
            onsites(par) {
                auto c = X.coordinates();
                if ((c[0] + c[NDIM - 1]) % 3 == 1) red += f[k][X];
            }
        } else {
            onsites(par) red += f[k][X];
        }
        addsum(rm, k, o.i(1), o.i(3), 1);
    }
    // ---- ReductionVector<T>
    void vnew(const Op &o) { // vnew n allreduce nonblocking delayed init
        delete rv;
        int n = o.i(1);
        rvm.assign(n * N, 0);
        if (o.i(5) < 0) rv = new ReductionVector<T>(n);
        else {
            for (int i = 0; i < n; i++)
                for (int k = 0; k < N; k++) rvm[i * N + k] = hv::ival(o.u(5), k, 40);
            rv = new ReductionVector<T>(n, mk<T>(rvm.data()));
        }
        rvall = o.i(2);
        rvdel = o.i(4);
        rvpend = false;
        rv->allreduce(rvall).nonblocking(o.i(3)).delayed(rvdel);
        if (rv->is_allreduce() != rvall || rv->is_nonblocking() != (bool)o.i(3) || rv->is_delayed() != rvdel || (int)rv->size() != n)
            hv::fail("option queries of ReductionVector");
    }
    void vloop(const Op &o) { // vloop par k a b
        Parity par = (Parity)o.i(1);
        int k = o.i(2), a = o.i(3), b = o.i(4), n = rvm.size() / N;
        if (n == 0) return;
        ReductionVector<T> &red = *rv;
        onsites(par) {
            auto c = X.coordinates();
            int i = (a * c[0] + b * c[NDIM - 1]) % n;
            red[i] += f[k][X];
        }
        for (size_t i = 0; i < V; i++)
            if (inpar(i, o.i(1))) {
                auto c = hv::gcoord(i, sz);
                int x = (a * c[0] + b * c[NDIM - 1]) % n;
                for (int j = 0; j < N; j++) rvm[x * N + j] += m[k][i * N + j];
            }
        rvpend = true;
    }
    void vcheck() {
        rv->reduce();
        rvpend = false;
        if (rv->size() * N != rvm.size()) {
            hv::fail("ReductionVector has %zu elements, expected %zu", rv->size(), rvm.size() / N);
            return;
        }
        std::vector<T> v = rv->vector();
        for (size_t i = 0; i < rv->size() && (rvall || root()); i++) {
            eq((*rv)[i], &rvm[i * N], true, ("ReductionVector element " + std::to_string(i)).c_str());
            eq(v[i], &rvm[i * N], true, "ReductionVector::vector() element");
        }
    }
#if RD_SCALAR
    void vprod(const Op &o) { // vprod n all delayed nonblocking seed nloops
        int n = o.i(1);
        ReductionVector<T> p(n, (T)3);
        p.allreduce(o.i(2)).delayed(o.i(3)).nonblocking(o.i(4));
        std::vector<I> want(n, 3);
        for (int l = 0; l < o.i(6); l++) {
            uint64_t seed = hv::mix(o.u(5), l);
            for (size_t i = 0; i < V; i++) m[1][i] = hv::mix(seed, i) % 3 == 0 ? -1 : 1;
            for (int k = 0; k < 9; k++) m[1][hv::mix(seed, 1000000 + k) % V] *= 2;
            put(1);
            Parity par = (Parity)(1 + (l + o.i(5)) % 3);
            onsites(par) {
                auto c = X.coordinates();
                p[(c[0] + c[NDIM - 1]) % n] *= f[1][X];
            }
            for (size_t i = 0; i < V; i++)
                if (inpar(i, (int)par)) {
                    auto c = hv::gcoord(i, sz);
                    want[(c[0] + c[NDIM - 1]) % n] *= m[1][i];
                }
        }
        p.reduce();
        for (int i = 0; i < n; i++) eq(p[i], &want[i], o.i(2) || root(), "product in a ReductionVector element");
    }
#endif

    void step(const Op &o) {
        const std::string &n = o.name();
        if (n == "load") load(o.i(1), o.u(2), o.i(3));
        else if (n == "sum") sum_forms(o);
#if RD_SCALAR
        else if (n == "prod") prod(o);
        else if (n == "mm") minmax(o);
        else if (n == "vprod") vprod(o);
#endif
        else if (n == "rnew") rnew(o);
        else if (n == "rloop") rloop(o);
        else if (n == "rset") {
            I v[N];
            for (int k = 0; k < N; k++) v[k] = rm[k] = hv::ival(o.u(1), k, 40);
            if (o.u(1) % 2) (*r) = mk<T>(v);
            else r->set(mk<T>(v));
        } else if (n == "rstart") r->start_reduce();
        else if (n == "rval") {
            T v = r->value();
            eq(v, rm, rall || root(), "Reduction::value");
            eq(r->value(), rm, rall || root(), "Reduction::value, second call");
        } else if (n == "vnew") vnew(o);
        else if (n == "vloop") vloop(o);
        else if (n == "vset") {
            if (o.i(1) < 0) {
                *rv = 0;
                std::fill(rvm.begin(), rvm.end(), 0);
            } else {
                I v[N];
                for (int k = 0; k < N; k++) v[k] = hv::ival(o.u(1), k, 40);
                *rv = mk<T>(v);
                for (size_t i = 0; i < rvm.size(); i++) rvm[i] = v[i % N];
            }
            rvpend = false;
        } else if (n == "vstart") rv->start_reduce();
        else if (n == "vval") vcheck();
        else if (n == "vsize") { // only when nothing is pending
            rv->reduce();
            size_t c = o.i(1);
            I v[N];
            for (int k = 0; k < N; k++) v[k] = hv::ival(o.u(2), k, 40);
            if (c > 1000) {
                rv->push_back(mk<T>(v));
                for (int k = 0; k < N; k++) rvm.push_back(v[k]);
            } else {
                size_t old = rvm.size() / N;
                rv->resize(c, mk<T>(v));
                rvm.resize(c * N);
                for (size_t i = old; i < c; i++)
                    for (int k = 0; k < N; k++) rvm[i * N + k] = v[k];
            }
            vcheck();
        } else {
            fprintf(stderr, "unknown op %s\n", n.c_str());
            abort();
        }
    }

    static void runcase(const Case &c) {
        Red h;
        int n = 0;
        for (auto &o : c.ops) {
            hv::where() = "op " + std::to_string(n++) + " " + o.name();
            hv::tag(o.name() == "sum" ? "sum" + o.s(1) : o.name());
            h.step(o);
        }
    }
};
} // namespace rd
#endif
