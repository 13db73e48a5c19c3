// P23: broadcasts, point-to-point transfers and reductions between processes, also within partitions
#include "hv.h"

static int W, NP, P, K, R, N; // world rank and size, partition, number of partitions, rank and size in the partition

struct Plain { char c; double d; int i[3]; uint8_t b; };
enum Colour { red, green = 7, blue = 1000000 };

static std::vector<char> bytes(uint64_t seed, size_t n) {
    std::vector<char> r(n);
    for (size_t i = 0; i < n; i++) r[i] = (char)(hv::mix(seed, i) >> 9);
    return r;
}
// any bit pattern which is a valid value of T
template <typename T> static T value(uint64_t seed) { T t; auto b = bytes(seed, sizeof(T)); memcpy((void *)&t, b.data(), sizeof(T)); return t; }
template <> bool value<bool>(uint64_t seed) { return hv::mix(seed) & 1; }
template <> Colour value<Colour>(uint64_t seed) { return (Colour[]){red, green, blue}[hv::mix(seed) % 3]; }
template <> Plain value<Plain>(uint64_t s) { Plain p; memset((void *)&p, 0, sizeof p); p.c = s; p.d = s * 0.37; for (int k = 0; k < 3; k++) p.i[k] = hv::mix(s, k); p.b = s >> 3; return p; }
template <typename T> static bool eq(const T &a, const T &b) { return memcmp((const void *)&a, (const void *)&b, sizeof(T)) == 0; }
template <> bool eq<long double>(const long double &a, const long double &b) { return memcmp(&a, &b, 10) == 0; }
template <> bool eq<Plain>(const Plain &a, const Plain &b) { return a.c == b.c && eq(a.d, b.d) && a.i[0] == b.i[0] && a.i[1] == b.i[1] && a.i[2] == b.i[2] && a.b == b.b; }
template <typename T> static bool eqv(const std::vector<T> &a, const std::vector<T> &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (!eq(a[i], b[i])) return false;
    return true;
}
template <typename T> static std::vector<T> values(uint64_t seed, size_t n) { std::vector<T> v; for (size_t i = 0; i < n; i++) v.push_back(value<T>(hv::mix(seed, i))); return v; }
static std::string text(uint64_t seed, size_t n) { auto b = bytes(seed, n); return std::string(b.begin(), b.end()); }

template <typename T, size_t n> static void array_n(uint64_t seed, int root) {
    std::array<T, n> a, e;
    for (size_t i = 0; i < n; i++) { a[i] = value<T>(seed + R * 1000 + i); e[i] = value<T>(seed + root * 1000 + i); }
    hila::broadcast(a, root);
    for (size_t i = 0; i < n; i++) if (!eq(a[i], e[i])) hv::fail("std::array of %zu: element %zu differs from that of process %d", n, i, root);
}

template <typename T> static void typed(const hv::Op &o) {
    const std::string &k = o.name();
    uint64_t seed = o.u(2);
    int root = o.i(3) % N;
    long len = o.n() > 4 ? o.i(4) : 0;
    if (k == "bc") {
        T v = value<T>(seed + R), r, e = value<T>(seed + root);
        r = len == 1 && root == 0 ? hila::broadcast(v) : hila::broadcast(v, root);
        if (!eq(v, e)) hv::fail("broadcast from %d: the variable differs from that of the sender", root);
        if (!eq(r, e)) hv::fail("broadcast from %d: the returned value differs from that of the sender", root);
        const T c = value<T>(seed + 77 + R);
        r = hila::broadcast(c, root);
        if (!eq(r, value<T>(seed + 77 + root))) hv::fail("broadcast of a constant from %d: wrong value returned", root);
        if (!eq(c, value<T>(seed + 77 + R))) hv::fail("broadcast changed a constant");
    } else if (k == "bcv") {
        if constexpr (!std::is_same<T, bool>::value) {
            std::vector<T> v = values<T>(seed + R, R == root ? len : hv::mix(seed, R + 5) % (2 * len + 3));
            auto &r = hila::broadcast(v, root);
            if (!eqv(v, values<T>(seed + root, len))) hv::fail("broadcast of a vector of length %ld from %d arrives wrong (length %zu)", len, root, v.size());
            if (&r != &v) hv::fail("broadcast of a vector returns another vector");
        }
    } else if (k == "bcarr") {
        std::vector<char> mem((len + 2) * sizeof(T), 0);
        T *a = (T *)mem.data();
        for (long i = 0; i < len + 2; i++) a[i] = value<T>(seed + R * 100000 + i);
        T *r = hila::broadcast_array(a + 1, (int)len, root);
        if (r != a + 1) hv::fail("broadcast_array returns another pointer");
        for (long i = 0; i < len + 2; i++) {
            T e = value<T>(seed + (i == 0 || i == len + 1 ? R : root) * 100000 + i);
            if (!eq(a[i], e)) hv::fail("broadcast_array of %ld from %d: element %ld is wrong", len, root, i - 1);
        }
    } else if (k == "array") {
        array_n<T, 1>(seed, root);
        array_n<T, 3>(seed, root);
        array_n<T, 8>(seed, root);
        array_n<T, 130>(seed, root);
    } else if (k == "bc2") {
        T a = value<T>(seed + R);
        int b = value<int>(seed + 50 + R);
        Complex<double> c(R + 0.5, seed % 1000);
        if (len & 1) { hila::broadcast2(a, b, root); } else { hila::broadcast2(b, a, root); }
        if (!eq(a, value<T>(seed + root)) || b != value<int>(seed + 50 + root)) hv::fail("broadcast2 from %d delivers other values", root);
    } else if (k == "msg") { // a chain of messages, all processes in the same order
        hv::Rng g(seed);
        for (int j = 0; j < 1 + (int)(seed % 12); j++) {
            int from = g.in(0, N - 1), to = g.in(0, N - 1);
            size_t n = g.in(0, 3) == 0 ? 0 : g.in(0, 9) == 0 ? len * 40 : g.in(0, (int)len);
            uint64_t s = g.u();
            int kind = g.in(0, 1);
            if (from == to) continue;
            if (kind == 0) {
                if (R == from) { T v = value<T>(s); hila::send_to(to, v); }
                if (R == to) { T v = value<T>(s + 1); hila::receive_from(from, v); if (!eq(v, value<T>(s))) hv::fail("value sent from %d to %d arrives wrong", from, to); }
            } else if constexpr (!std::is_same<T, bool>::value) {
                if (R == from) { auto v = values<T>(s, n); hila::send_to(to, v); if (!eqv(v, values<T>(s, n))) hv::fail("sending changed the data"); }
                if (R == to) {
                    auto v = values<T>(s + 1, g.s % 2 ? 3 : 0);
                    hila::receive_from(from, v);
                    if (!eqv(v, values<T>(s, n))) hv::fail("vector of %zu sent from %d to %d arrives wrong (length %zu)", n, from, to, v.size());
                }
            }
        }
    }
}

template <typename T> static void fill_small(T &t, uint64_t s) {
    using B = hila::arithmetic_type<T>;
    B b[sizeof(T) / sizeof(B)];
    for (size_t i = 0; i < sizeof(T) / sizeof(B); i++) b[i] = (B)((long)(hv::mix(s, i) % 2001) - (std::is_unsigned<B>::value ? 0 : 1000));
    memcpy((void *)&t, b, sizeof(T));
}
template <typename T> static void reduced(const hv::Op &o) { // sum TYPE SEED ALL LEN; prod
    using B = hila::arithmetic_type<T>;
    constexpr int C = sizeof(T) / sizeof(B);
    uint64_t seed = o.u(2);
    bool all = o.i(3) & 1, sum = o.name() == "sum";
    int len = (int)o.i(4);
    std::vector<T> v(len + 2), e(len + 2);
    auto init = [&](T &t, int r, int i) {
        if (sum) fill_small(t, seed + r * 1000003 + i);
        else { B b[C]; for (auto &x : b) { x = (B)(hv::mix(seed + r, i) % 3 + 1); } memcpy((void *)&t, b, sizeof(T)); }
    };
    for (int i = 0; i < len + 2; i++) {
        init(v[i], R, i);
        e[i] = v[i];
        if (i == 0 || i == len + 1 || (!all && R != 0)) continue;
        B b[C];
        for (auto &x : b) x = sum ? 0 : 1;
        for (int r = 0; r < N; r++) { T t; init(t, r, i); B c[C]; memcpy(c, (void *)&t, sizeof(T)); for (int k = 0; k < C; k++) { if (sum) b[k] += c[k]; else b[k] *= c[k]; } }
        memcpy((void *)&e[i], b, sizeof(T));
    }
    if (sum) {
        if (len == 1 && (seed & 1)) { T r = all && (seed & 2) ? hila::reduce_node_sum(v[1]) : hila::reduce_node_sum(v[1], all); if (!eq(r, v[1])) hv::fail("reduce_node_sum returns another value"); }
        else hila::reduce_node_sum(v.data() + 1, len, all);
    } else if constexpr (std::is_same<T, B>::value) {
        if (len == 1 && (seed & 1)) hila::reduce_node_product(v[1], all);
        else hila::reduce_node_product(v.data() + 1, len, all);
    } else return;
    for (int i = 0; i < len + 2; i++) if (!eq(v[i], e[i])) {
        if (i == 0 || i == len + 1) hv::fail("%s of %d elements changes data outside", o.name().c_str(), len);
        else if (!all && R != 0) hv::fail("%s of %d elements to process 0 changes element %d on another process", o.name().c_str(), len, i - 1);
        else hv::fail("%s of %d elements: element %d is %s, expected %s", o.name().c_str(), len, i - 1, hv::estr(v[i]).c_str(), hv::estr(e[i]).c_str());
        break;
    }
}

static void loops(uint64_t seed) { // field operations within the partition
    Field<double> f, g;
    CoordinateVector sz = lattice.size();
    f.check_alloc();
    for (size_t i = 0; i < lattice->mynode.volume; i++) f.set_value_at((double)(hv::mix(seed, hv::gindex(lattice->coordinates(i), sz)) % 10000), i);
    f.mark_changed(ALL);
    double s = 0, e = 0;
    for (size_t k = 0; k < (size_t)lattice.volume(); k++) e += hv::mix(seed, k) % 10000;
    Direction d = (Direction)(seed % NDIRS);
    onsites(ALL) { g[X] = f[X + d]; s += f[X]; }
    if (s != e) hv::fail("sum over the lattice is %g, expected %g", s, e);
    for (size_t i = 0; i < lattice->mynode.volume; i++) {
        CoordinateVector c = lattice->coordinates(i);
        double w = hv::mix(seed, hv::gindex(hv::wrap(c + d, sz), sz)) % 10000;
        if (g.get_value_at(i) != w) { hv::fail("neighbour of %s is %g, expected %g", hv::cstr(c).c_str(), g.get_value_at(i), w); break; }
    }
    CoordinateVector c = hv::gcoord(hv::mix(seed) % lattice.volume(), sz);
    double x = f[c];
    if (x != hv::mix(seed, hv::gindex(c, sz)) % 10000) hv::fail("element %s is wrong", hv::cstr(c).c_str());
}

static void run_op(const hv::Op &o) {
    const std::string &k = o.name();
    hv::where() = k + (o.n() > 1 ? " " + o.s(1) : "");
    hv::tag(k);
    if (k == "bcs") { // bcs x SEED ROOT LEN
        int root = o.i(3) % N;
        std::string v = text(o.u(2) + R, R == root ? o.i(4) : hv::mix(o.u(2), R) % (2 * o.i(4) + 2));
        auto &r = hila::broadcast(v, root);
        if (v != text(o.u(2) + root, o.i(4))) hv::fail("string of length %ld broadcast from %d arrives wrong (length %zu)", o.i(4), root, v.size());
        if (&r != &v) hv::fail("broadcast of a string returns another string");
    } else if (k == "bcvs") {
        int root = o.i(3) % N;
        auto make = [&](int r) {
            hv::Rng g(o.u(2) + r);
            std::vector<std::string> v;
            for (int j = r == root ? (int)o.i(4) : g.in(0, 2 * (int)o.i(4) + 1); j > 0; j--) v.push_back(text(g.u(), g.in(0, 3) ? g.in(0, 20) : 0));
            return v;
        };
        auto v = make(R);
        hila::broadcast(v, root);
        if (v != make(root)) hv::fail("list of %ld strings broadcast from %d arrives wrong", o.i(4), root);
    } else if (k == "sync") {
        if (o.i(1) & 1) hila::synchronize(); else hila::barrier();
    } else if (k == "loops") {
        loops(o.u(2));
    } else if (k == "who") {
        if (hila::myrank() != R) hv::fail("myrank() is %d, expected %d", hila::myrank(), R);
        if (hila::number_of_nodes() != N) hv::fail("number_of_nodes() is %d, expected %d", hila::number_of_nodes(), N);
        if ((int)hila::partitions.number() != K) hv::fail("%d partitions, expected %d", (int)hila::partitions.number(), K);
        if (K > 1 && (int)hila::partitions.mylattice() != P) hv::fail("partition %d, expected %d", (int)hila::partitions.mylattice(), P);
    } else if (k == "sum" || k == "prod") {
        switch (o.i(1) % 10) {
        case 0: reduced<int>(o); break;
        case 1: reduced<double>(o); break;
        case 2: reduced<float>(o); break;
        case 3: reduced<long>(o); break;
        case 4: reduced<unsigned>(o); break;
        case 5: reduced<uint64_t>(o); break;
        case 6: reduced<Complex<double>>(o); break;
        case 7: reduced<Vector<3, Complex<float>>>(o); break;
        case 8: reduced<Vector<5, int>>(o); break;
        case 9: reduced<SquareMatrix<2, double>>(o); break;
        }
    } else {
        switch (o.i(1) % 12) {
        case 0: typed<int>(o); break;
        case 1: typed<double>(o); break;
        case 2: typed<char>(o); break;
        case 3: typed<bool>(o); break;
        case 4: typed<int64_t>(o); break;
        case 5: typed<float>(o); break;
        case 6: typed<Complex<double>>(o); break;
        case 7: typed<SquareMatrix<3, Complex<float>>>(o); break;
        case 8: typed<CoordinateVector>(o); break;
        case 9: typed<Plain>(o); break;
        case 10: typed<Colour>(o); break;
        case 11: typed<short>(o); break;
        }
    }
}

int main(int argc, char **argv) {
    K = 1;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "-partitions")) K = atoi(argv[i + 1]);
    hila::initialize(argc, argv);
    MPI_Comm_rank(MPI_COMM_WORLD, &W);
    MPI_Comm_size(MPI_COMM_WORLD, &NP);
    N = NP / K;
    P = W / N;
    R = W % N;
    lattice.setup(hv::size_vector());
    hila::seed_random(1);
    hv::run([](const hv::Case &c) {
        // partitions execute different parts of the list
        size_t n = c.ops.size(), first = K > 1 ? (P * 5) % n : 0, last = first + (K > 1 && P % 2 ? (n + 1) / 2 : n);
        for (size_t j = first; j < last; j++) {
            hv::Op o = c.ops[j % n];
            if (K > 1 && o.n() > 2) o.w[2] = std::to_string(o.u(2) + 1000 * P);
            run_op(o);
        }
        hv::nontriv() = N > 1;
        hv::tag("partitions=" + std::to_string(K));
    });
    hila::finishrun();
    return 0;
}
