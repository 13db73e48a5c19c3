// P08: files of fields and configurations against bytes built by hand.  One instantiation per element type.
#ifndef IO_H_
#define IO_H_
#include "hv.h"
#include "plumbing/plaquettefield.h"
namespace io {
using hv::Op;
constexpr const char *FILE1 = "f1.dat";

inline std::string slurp(const char *fn) {
    std::ifstream f(fn, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}
inline void spill(const char *fn, const std::string &s) {
    if (hila::myrank() == 0) {
        std::ofstream f(fn, std::ios::binary | std::ios::trunc);
        f << s;
    }
    MPI_Barrier(MPI_COMM_WORLD);
}
// all numbers printed in s
inline std::vector<double> numbers(const std::string &s) {
    std::vector<double> r;
    const char *p = s.c_str();
    while (*p) {
        if ((*p >= '0' && *p <= '9') || *p == '-' || *p == '+' || *p == '.') {
            char *e;
            double v = strtod(p, &e);
            if (e != p) { r.push_back(v); p = e; continue; }
        }
        p++;
    }
    return r;
}

template <typename T>
struct Io {
    using B = hila::arithmetic_type<T>;
    static constexpr int N = sizeof(T) / sizeof(B);
    static constexpr int NF = NDIM * NDIM;
    Field<T> f[3];
    std::vector<std::vector<T>> m{3};
    CoordinateVector sz = lattice.size();
    size_t V = lattice.volume();

    static T value(uint64_t seed, size_t i) {
        B b[N];
        for (int k = 0; k < N; k++) {
            uint64_t x = hv::mix(seed, i * N + k);
            if (std::is_integral<B>::value) b[k] = (B)x;
            else b[k] = (B)(((int64_t)x) * 1e-9) * (x % 7 ? (B)1 : (B)1e-12);
        }
        T t;
        memcpy((void *)&t, b, sizeof(T));
        return t;
    }
    static std::vector<T> values(uint64_t seed, size_t n) {
        std::vector<T> v(n);
        for (size_t i = 0; i < n; i++) v[i] = value(seed, i);
        return v;
    }
    static std::string bytes(const std::vector<T> &v) { return std::string((const char *)v.data(), v.size() * sizeof(T)); }
    static bool eq(const T &a, const T &b) { return memcmp((const void *)&a, (const void *)&b, sizeof(T)) == 0; }
    void store(Field<T> &g, const std::vector<T> &v) {
        g.check_alloc();
        for (size_t i = 0; i < lattice->mynode.volume; i++) g.set_value_at(v[hv::gindex(lattice->coordinates(i), sz)], i);
        g.mark_changed(ALL);
    }
    // contents and neighbours (a stale halo would show)
    void verify(const char *what, const Field<T> &g, const std::vector<T> &v, int d) {
        for (size_t i = 0; i < lattice->mynode.volume; i++) {
            CoordinateVector x = lattice->coordinates(i);
            if (!eq(g.get_value_at(i), v[hv::gindex(x, sz)])) {
                hv::fail("%s: at %s %s expected %s", what, hv::cstr(x).c_str(), hv::estr(g.get_value_at(i)).c_str(), hv::estr(v[hv::gindex(x, sz)]).c_str());
                return;
            }
        }
        if (d < 0) return;
        Field<T> h;
        Direction dir = (Direction)(d % (2 * NDIM));
        h[ALL] = g[X + dir];
        for (size_t i = 0; i < lattice->mynode.volume; i++) {
            CoordinateVector x = lattice->coordinates(i), y = hv::wrap(x + CoordinateVector(dir), sz);
            if (!eq(h.get_value_at(i), v[hv::gindex(y, sz)])) {
                hv::fail("%s: neighbour %d of %s is not up to date", what, d, hv::cstr(x).c_str());
                return;
            }
        }
    }
    void filecheck(const char *what, const std::string &want) {
        MPI_Barrier(MPI_COMM_WORLD);
        if (hila::myrank() == 0) {
            std::string s = slurp(FILE1);
            if (s.size() != want.size()) hv::fail("%s: file of %zu bytes, expected %zu", what, s.size(), want.size());
            else if (s != want) {
                size_t k = 0;
                while (s[k] == want[k]) k++;
                hv::fail("%s: file differs at byte %zu (element %zu) of %zu", what, k, k / sizeof(T), s.size());
            }
        }
        MPI_Barrier(MPI_COMM_WORLD);
    }
    void fetch(int k, int d) { // bring the halo in before the field is overwritten
        Field<T> h;
        h[ALL] = f[k][X + (Direction)(d % (2 * NDIM))];
    }
    // sites of [lo,hi] with x fastest
    static std::vector<CoordinateVector> range(const CoordinateVector &lo, const CoordinateVector &hi) {
        std::vector<CoordinateVector> r;
        CoordinateVector c = lo;
        while (1) {
            r.push_back(c);
            int d = 0;
            while (d < NDIM && ++c[d] > hi[d]) { c[d] = lo[d]; d++; }
            if (d == NDIM) return r;
        }
    }
    void listing(const char *what, const std::vector<CoordinateVector> &cl, const std::vector<T> &v, int mode, int prec) {
        if (mode == 1) {
            std::vector<T> w;
            for (auto &c : cl) w.push_back(v[hv::gindex(c, sz)]);
            filecheck(what, bytes(w));
        } else if (mode == 2) {
            std::vector<float> w;
            for (auto &c : cl) {
                B b[N];
                memcpy(b, (const void *)&v[hv::gindex(c, sz)], sizeof(T));
                for (int k = 0; k < N; k++) w.push_back((float)b[k]);
            }
            filecheck(what, std::string((const char *)w.data(), w.size() * sizeof(float)));
        } else {
            MPI_Barrier(MPI_COMM_WORLD);
            if (hila::myrank() == 0) textcheck(what, slurp(FILE1), cl, v, prec, true);
            MPI_Barrier(MPI_COMM_WORLD);
        }
    }
    void textcheck(const char *what, const std::string &s, const std::vector<CoordinateVector> &cl, const std::vector<T> &v, int prec, bool lines) {
        auto q = numbers(s);
        if (q.size() != cl.size() * N) { hv::fail("%s: %zu numbers in the file, expected %zu", what, q.size(), cl.size() * N); return; }
        double rel = std::max(std::pow(10.0, 1 - prec), 1e-15);
        for (size_t i = 0; i < cl.size(); i++) {
            B b[N];
            memcpy(b, (const void *)&v[hv::gindex(cl[i], sz)], sizeof(T));
            for (int k = 0; k < N; k++)
                if (!(std::abs(q[i * N + k] - (double)b[k]) <= rel * std::abs((double)b[k]))) {
                    hv::fail("%s: number %d of site %s is %.15g, the field has %.15g", what, k, hv::cstr(cl[i]).c_str(), q[i * N + k], (double)b[k]);
                    return;
                }
        }
        if (lines && (size_t)std::count(s.begin(), s.end(), '\n') != cl.size()) hv::fail("%s: %zu lines for %zu sites", what, (size_t)std::count(s.begin(), s.end(), '\n'), cl.size());
    }
    std::vector<CoordinateVector> all() {
        CoordinateVector lo(0), hi;
        for (int d = 0; d < NDIM; d++) hi[d] = sz[d] - 1;
        return range(lo, hi);
    }
    // replicate values of a smaller lattice
    std::vector<T> tile(const std::vector<T> &v, const CoordinateVector &in) {
        std::vector<T> r(V);
        for (size_t i = 0; i < V; i++) r[i] = v[hv::gindex(hv::wrap(hv::gcoord(i, sz), in), in)];
        return r;
    }
    static size_t vol(const CoordinateVector &s) {
        size_t v = 1;
        for (int d = 0; d < NDIM; d++) v *= s[d];
        return v;
    }
    CoordinateVector shrink(uint64_t seed) { // a size dividing the lattice's
        hv::Rng r(seed);
        CoordinateVector s;
        for (int d = 0; d < NDIM; d++) {
            std::vector<int> dv;
            for (int q = 1; q <= sz[d]; q++)
                if (sz[d] % q == 0) dv.push_back(q);
            s[d] = dv[r.in(0, dv.size() - 1)];
        }
        return s;
    }
    static std::string header(const CoordinateVector &s) {
        std::vector<int64_t> h{394824242, NDIM, (int64_t)sizeof(T)};
        for (int d = 0; d < NDIM; d++) h.push_back(s[d]);
        return std::string((const char *)h.data(), 8 * h.size());
    }
    void op(const Op &o) {
        const std::string &k = o.name();
        hv::where() = k;
        hv::tag(k);
        if (k == "load") {
            m[o.i(1)] = values(o.u(2), V);
            store(f[o.i(1)], m[o.i(1)]);
            if (o.i(3) >= 0) fetch(o.i(1), o.i(3));
        } else if (k == "write") {
            f[o.i(1)].write(FILE1);
            filecheck("write", bytes(m[o.i(1)]));
            verify("field after write", f[o.i(1)], m[o.i(1)], -1);
        } else if (k == "read") {
            auto v = values(o.u(2), V);
            spill(FILE1, bytes(v));
            f[o.i(1)].read(FILE1);
            m[o.i(1)] = v;
            verify("read", f[o.i(1)], v, o.i(3));
        } else if (k == "readnew") { // into a field never used before
            auto v = values(o.u(1), V);
            spill(FILE1, bytes(v));
            Field<T> g;
            g.read(FILE1);
            verify("read into a new field", g, v, o.i(2));
        } else if (k == "stream") { // several fields and other data through one stream
            {
                std::ofstream out;
                hila::open_output_file(FILE1, out);
                if (hila::myrank() == 0) out.write("head", 4);
                f[0].write(out);
                if (hila::myrank() == 0) out.write("mid", 3);
                f[1].write(out, true);
                hila::close_file(FILE1, out);
            }
            filecheck("stream", "head" + bytes(m[0]) + "mid" + bytes(m[1]));
            std::ifstream in;
            char b[4];
            hila::open_input_file(FILE1, in);
            if (hila::myrank() == 0) in.read(b, 4);
            f[2].read(in);
            if (hila::myrank() == 0) in.read(b, 3);
            f[0].read(in);
            hila::close_file(FILE1, in);
            m[2] = m[0];
            m[0] = m[1];
            verify("first field of the stream", f[2], m[2], o.i(1));
            verify("second field of the stream", f[0], m[0], o.i(1));
        } else if (k == "list") {
            if (o.i(1) == 3) write_fields(FILE1, f[0], f[1], f[2]);
            else write_fields(FILE1, f[0], f[1]);
            filecheck("write_fields", bytes(m[0]) + bytes(m[1]) + (o.i(1) == 3 ? bytes(m[2]) : ""));
            auto a = values(o.u(2), V), b = values(o.u(2) + 1, V), c = values(o.u(2) + 2, V);
            spill(FILE1, bytes(a) + bytes(b) + bytes(c));
            read_fields(FILE1, f[1], f[2], f[0]);
            m[1] = a; m[2] = b; m[0] = c;
            for (int i = 0; i < 3; i++) verify("read_fields", f[i], m[i], o.i(3));
        } else if (k == "text") {
            int prec = o.i(2);
            if (o.i(3)) f[o.i(1)].write(FILE1, false, prec);
            else {
                std::ofstream out;
                hila::open_output_file(FILE1, out, false);
                f[o.i(1)].write(out, false, prec);
                hila::close_file(FILE1, out);
            }
            MPI_Barrier(MPI_COMM_WORLD);
            if (hila::myrank() == 0) textcheck("text", slurp(FILE1), all(), m[o.i(1)], prec, N == 1);
            MPI_Barrier(MPI_COMM_WORLD);
        } else if (k == "sub" || k == "slice") {
            hv::Rng r(o.u(1));
            int mode = o.i(2), prec = o.i(3), q = o.i(4);
            CoordinateVector lo, hi, sl;
            for (int d = 0; d < NDIM; d++) {
                lo[d] = r.in(0, sz[d] - 1);
                hi[d] = r.in(lo[d], sz[d] - 1);
                if (r.in(0, 3) == 0) { lo[d] = 0; hi[d] = sz[d] - 1; }
                sl[d] = r.in(0, 1) ? -1 : lo[d];
            }
            if (k == "slice") {
                if (mode == 0) f[q].write_slice(FILE1, sl, prec);
                else f[q].write_slice_binary(FILE1, sl, mode == 2);
                for (int d = 0; d < NDIM; d++)
                    if (sl[d] < 0) { lo[d] = 0; hi[d] = sz[d] - 1; }
                    else lo[d] = hi[d] = sl[d];
            } else if (mode == 0) f[q].write_subvolume(FILE1, lo, hi, prec);
            else f[q].write_subvolume_binary(FILE1, lo, hi, mode == 2);
            listing(k.c_str(), range(lo, hi), m[q], mode == 2 && std::is_same<B, float>::value ? 1 : mode, prec);
        } else if (k == "tile") { // a stored smaller field replicated over the lattice
            CoordinateVector in = shrink(o.u(2));
            auto v = values(o.u(2), vol(in));
            spill(FILE1, "ab" + bytes(v));
            std::ifstream s;
            char b[2];
            hila::open_input_file(FILE1, s);
            if (hila::myrank() == 0) s.read(b, 2);
            f[o.i(1)].read(s, in);
            hila::close_file(FILE1, s);
            m[o.i(1)] = tile(v, in);
            hv::tag(in == sz ? "tile-same-size" : "tile-smaller");
            verify("replicated field", f[o.i(1)], m[o.i(1)], o.i(3));
        } else group(o);
    }
    void group(const Op &o) {
#ifdef IO_GAUGE
        const std::string &k = o.name();
        if (k == "gauge") { // GaugeField forms: 0 write/read, 1 config, 2 config of a smaller lattice
            int form = o.i(1);
            GaugeField<T> U, W;
            std::vector<T> g[NDIM];
            std::string all;
            for (int d = 0; d < NDIM; d++) {
                g[d] = values(o.u(2) + d, V);
                store(U[(Direction)d], g[d]);
                all += bytes(g[d]);
            }
            if (form == 0) {
                U.write(FILE1);
                filecheck("gauge write", all);
                W.read(FILE1);
                W.read(FILE1);
            } else if (form == 1) {
                U.config_write(FILE1);
                filecheck("config_write", header(sz) + all);
                W.config_read(FILE1);
            } else {
                CoordinateVector in = shrink(o.u(2));
                all = header(in);
                for (int d = 0; d < NDIM; d++) {
                    auto v = values(o.u(2) + 100 + d, vol(in));
                    g[d] = tile(v, in);
                    all += bytes(v);
                }
                spill(FILE1, all);
                W = U;
                W.config_read(FILE1);
            }
            for (int d = 0; d < NDIM; d++) verify("gauge field", W[(Direction)d], g[d], o.i(3));
        } else if (k == "plaq") {
            int form = o.i(1);
            PlaquetteField<T> U, W;
            std::vector<T> g[NDIM][NDIM];
            std::string all;
            for (int d = 0; d < NDIM; d++)
                for (int e = 0; e < NDIM; e++) {
                    g[d][e] = values(o.u(2) + d * NDIM + e, V);
                    store(U[(Direction)d][(Direction)e], g[d][e]);
                    all += bytes(g[d][e]);
                }
            if (form == 0) {
                U.write(FILE1);
                filecheck("plaquette field write", all);
                W.read(FILE1);
            } else if (form == 1) {
                U.config_write(FILE1);
                filecheck("plaquette field config_write", header(sz) + all);
                W.config_read(FILE1);
            } else {
                CoordinateVector in = shrink(o.u(2));
                all = header(in);
                for (int d = 0; d < NDIM; d++)
                    for (int e = 0; e < NDIM; e++) {
                        auto v = values(o.u(2) + 100 + d * NDIM + e, vol(in));
                        g[d][e] = tile(v, in);
                        all += bytes(v);
                    }
                spill(FILE1, all);
                W.config_read(FILE1);
            }
            for (int d = 0; d < NDIM; d++)
                for (int e = 0; e < NDIM; e++) verify("plaquette field", W[(Direction)d][(Direction)e], g[d][e], -1);
        } else if (k == "damage") { // field: 0 id, 1 dimensionality, 2 element size, 3+d size; value: new content; then truncation
            GaugeField<T> W;
            std::vector<int64_t> h{394824242, NDIM, (int64_t)sizeof(T)};
            for (int d = 0; d < NDIM; d++) h.push_back(sz[d]);
            int w = o.i(1);
            int64_t val = strtoll(o.s(2).c_str(), nullptr, 10);
            if (w == 2) val += sizeof(T);
            if (w >= 0) h[w] = val;
            std::string s((const char *)h.data(), 8 * h.size());
            for (int d = 0; d < NDIM; d++) s += bytes(values(7 + d, V));
            s.resize(s.size() - o.i(3));
            spill(FILE1, s);
            if (hila::myrank() == 0) { fprintf(hv::outf(), "D\n"); fflush(hv::outf()); }
            W.config_read(FILE1);
            hv::fail("a damaged configuration file was read");
        }
#endif
        if (o.name() == "short") { // file that ends early
            spill(FILE1, bytes(values(3, V)).substr(0, V * sizeof(T) - o.i(1)));
            f[0].read(FILE1);
            hv::fail("a file with %d bytes missing was read", (int)o.i(1));
        } else if (o.name() == "nofile") {
            f[0].read("no/such/file");
            hv::fail("a file that does not exist was read");
        }
    }
    static void runcase(const hv::Case &c) {
        Io<T> h;
        for (int i = 0; i < 3; i++) {
            h.m[i] = values(i, h.V);
            h.store(h.f[i], h.m[i]);
        }
        for (auto &o : c.ops) {
            h.op(o);
            int bad = hv::failed(), any;
            MPI_Allreduce(&bad, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
            if (any) return;
        }
    }
};
} // namespace io
#endif
