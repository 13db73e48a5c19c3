// P21, run-time part: one scenario per process.  HV_SCEN = "type scenario parity dir seed nvalid"
// Valid field work is done first; the last step either breaks a rule (the program has to stop with a message) or not.
#include "hila.h"
#include <cstdlib>
#include <sstream>

static uint64_t st;
static unsigned rnd(unsigned n) {
    st = st * 6364136223846793005ull + 1442695040888963407ull;
    return (unsigned)(st >> 33) % n;
}

template <typename T>
T val(int k) {
    T r;
    r = k;
    return r;
}

inline double deep2(double a) {
    return a + hila::random();
}
inline double deep1(double a) {
    return 2 * deep2(a);
}
template <typename T>
inline void overwrite(out_only T &a) {
    a = 2;
}
template <typename T>
inline void modify(T &a) {
    a += a;
}
template <typename T>
inline T readit(const T &a) {
    return a;
}

template <typename T>
void valid_work(Field<T> &a, Field<T> &b, Parity p, Direction d) {
    switch (rnd(9)) {
    case 0:
        onsites(ALL) b[X] = a[X];
        break;
    case 1:
        onsites(ALL) b[X] = a[X + d];
        break;
    case 2:
        onsites(p) a[X] = b[X - d];
        break;
    case 3:
        b = a;
        break;
    case 4: {
        T s = 0;
        onsites(ALL) s += a[X];
        break;
    }
    case 5: {
        Field<T> c;
        c[p] = a[X];
        onsites(p) b[X] = c[X];
        break;
    }
    case 6: {
        Field<T> c;
        onsites(p) overwrite(c[X]);
        onsites(opp_parity(p)) overwrite(c[X]);
        onsites(ALL) b[X] = c[X] + c[X + d];
        break;
    }
    case 7:
        a[ALL] = 3;
        break;
    default: {
        Field<T> c = a;
        b = c;
        c.clear();
        break;
    }
    }
}

template <typename T>
void scenario(const std::string &w, Parity p, Direction d, int nvalid) {
    Field<T> a, b, u, v;
    a = 1;
    b = 2;
    for (int i = 0; i < nvalid; i++) valid_work(a, b, p, d);
    hila::out0 << "VALID-DONE" << std::endl;
    CoordinateVector off(0);
    off[d] += 1;
    off[e_x] += 1;
    if (w == "nothing") {
        valid_work(a, b, p, d);
    } else if (w == "rhs") {
        onsites(p) a[X] = u[X];
    } else if (w == "rhs_nb") {
        onsites(p) a[X] = u[X + d];
    } else if (w == "rhs_offset") {
        onsites(p) a[X] = u[X + off];
    } else if (w == "expr") {
        onsites(p) a[X] = b[X] + a[X] * u[X];
    } else if (w == "second") {
        onsites(p) {
            b[X] = a[X];
            a[X] = u[X];
        }
    } else if (w == "plusassign") {
        onsites(p) u[X] += a[X];
    } else if (w == "cond") {
        onsites(p) {
            if (X.coordinate(e_x) == 0) a[X] = u[X];
        }
    } else if (w == "inner") {
        onsites(p) {
            for (int i = 0; i < 2; i++) a[X] += u[X + d];
        }
    } else if (w == "sum") {
        T s = 0;
        onsites(p) s += u[X];
        hila::out0 << s << '\n';
    } else if (w == "sum_nb") {
        T s = 0;
        onsites(p) s += u[X - d];
        hila::out0 << s << '\n';
    } else if (w == "method_sum") {
        T s = u.sum(p);
        hila::out0 << s << '\n';
    } else if (w == "modify") {
        onsites(p) modify(u[X]);
    } else if (w == "readfn") {
        onsites(p) a[X] = readit(u[X]);
    } else if (w == "one_parity") {     // assigned on the other parity only
        u[opp_parity(p)] = 1;
        onsites(p) a[X] = u[X];
    } else if (w == "one_parity_nb") {  // neighbours of p are of the other parity
        u[p] = 1;
        onsites(p) a[X] = u[X + d];
    } else if (w == "copy_one") {
        u[opp_parity(p)] = 1;
        v = u;
        onsites(p) a[X] = v[X];
    } else if (w == "cleared") {
        u = 1;
        u.clear();
        onsites(p) a[X] = u[X];
    } else if (w == "cleared_nb") {
        u = 1;
        onsites(ALL) a[X] = u[X + d];
        u.clear();
        onsites(p) a[X] = u[X + d];
    } else if (w == "shift") {
        b = u.shift(off);
    } else if (w == "assign") {
        a = u;
        hila::out0 << a.get_element(off * 0) << '\n';
    } else if (w == "ctor") {
        Field<T> c(u);
        hila::out0 << c.get_element(off * 0) << '\n';
    } else if (w == "ctor_par") {
        a = u + b;
    } else if (w == "unary") {
        a = -u;
    } else if (w == "get_element") {
        T x = u.get_element(off * 0);
        hila::out0 << x << '\n';
    } else if (w == "get_elements") {
        auto x = u.get_elements({off * 0, off});
        hila::out0 << (int)x.size() << '\n';
    } else if (w == "get_slice") {
        CoordinateVector c(0);
        foralldir(k) c[k] = -1;
        c[e_x] = 1;
        auto x = u.get_slice(c);
        hila::out0 << (int)x.size() << '\n';
    } else if (w == "reflect") {
        a = u.reflect();
    } else if (w == "squarenorm") {
        hila::out0 << u.squarenorm() << '\n';
    } else if (w == "write") {
        u.write("f21.dat");
    } else if (w == "dot") {
        hila::out0 << squarenorm(u) << '\n';
    } else if (w == "vector") {
        VectorField<T> f;
        f[e_x] = 1;
        onsites(p) a[X] = f[e_x][X] + f[Direction(NDIM - 1)][X];
    } else if (w == "allocated") {
        u.check_alloc();
        onsites(p) a[X] = u[X];
    } else if (w == "moved") {
        u = 1;
        v = std::move(u);
        u.clear();
        onsites(p) a[X] = u[X];
    } else if (w == "rng") {
        onsites(p) a[X] = hila::random();
    } else if (w == "rng_gauss") {
        onsites(p) a[X] = hila::gaussrand();
    } else if (w == "rng_cond") {
        onsites(p) {
            if (hila::random() < 0.5) a[X] = 1;
        }
    } else if (w == "rng_deep") {
        onsites(p) a[X] = deep1(1.0);
    } else if (w == "rng_inner") {
        onsites(p) {
            for (int i = 0; i < 2; i++) {
                a[X] += deep2(1.0);
            }
        }
    } else if (w == "rng_red") {
        double s = 0;
        onsites(p) s += hila::random();
    } else if (w == "rng_method") {
        onsites(p) hila::random(a[X]);
    } else if (w == "ok_out") {
        onsites(p) overwrite(u[X]);
        onsites(p) a[X] = u[X];
    } else if (w == "ok_parity") {
        u[p] = 1;
        onsites(p) a[X] = u[X];
    } else if (w == "ok_parity_nb") {
        u[opp_parity(p)] = 1;
        onsites(p) a[X] = u[X + d];
    } else if (w == "ok_copy") {
        u = a;
        onsites(ALL) b[X] = u[X];
    } else if (w == "ok_unused") {
        if (&u == nullptr) onsites(p) a[X] = u[X];
        v = a;
        onsites(ALL) b[X] = v[X];
    } else if (w == "ok_vector") {
        VectorField<T> f;
        foralldir(k) f[k] = 1;
        onsites(p) a[X] = f[e_x][X] + f[Direction(NDIM - 1)][X];
    } else if (w == "ok_element") {
        u[p] = 0;
        u[opp_parity(p)] = 1;
        onsites(ALL) a[X] = u[X + off];
    } else {
        hila::out0 << "UNKNOWN" << std::endl;
    }
    hila::out0 << "SCENARIO-DONE" << std::endl;
}

// needs matrix elements
template <typename T>
void mscenario(const std::string &w, Parity p, Direction d, int nvalid) {
    if (w == "rng_site") {
        Field<T> a;
        a = 1;
        hila::out0 << "VALID-DONE" << std::endl;
        onsites(p) a[X].gaussian_random();
        hila::out0 << "SCENARIO-DONE" << std::endl;
    } else {
        scenario<T>(w, p, d, nvalid);
    }
}

int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    CoordinateVector size;
    {
        std::string s = getenv("HV_SIZE");
        for (auto &c : s)
            if (c == ',') c = ' ';
        std::istringstream is(s);
        foralldir(d) is >> size[d];
    }
    lattice.setup(size);
    std::istringstream is(getenv("HV_SCEN"));
    std::string t, w;
    int p, d, nv, seeded;
    is >> t >> w >> p >> d >> st >> nv >> seeded;
    if (seeded) hila::seed_random(seeded);
    Parity par = (Parity)p;
    Direction dir = (Direction)(d % NDIM);
    if (t == "double") scenario<double>(w, par, dir, nv);
    if (t == "float") scenario<float>(w, par, dir, nv);
    if (t == "complex") mscenario<Complex<double>>(w, par, dir, nv);
    if (t == "matrix") mscenario<SquareMatrix<3, Complex<float>>>(w, par, dir, nv);
    hila::finishrun();
    return 0;
}
