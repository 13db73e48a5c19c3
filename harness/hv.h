// Common part of the harness programs: case files, result lines, failure collection over all processes.
#ifndef HV_H_
#define HV_H_
#include "hila.h"
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace hv {

struct Op {
    std::vector<std::string> w;
    const std::string &name() const { return w[0]; }
    size_t n() const { return w.size(); }
    long i(size_t k) const {
        if (k >= w.size()) { fprintf(stderr, "hv: op %s lacks argument %zu\n", w[0].c_str(), k); abort(); }
        return strtol(w[k].c_str(), nullptr, 10);
    }
    uint64_t u(size_t k) const { return strtoull(w.at(k).c_str(), nullptr, 10); }
    double d(size_t k) const { return strtod(w.at(k).c_str(), nullptr); }
    const std::string &s(size_t k) const { return w.at(k); }
};
struct Case {
    std::string id;
    std::vector<Op> ops;
};

inline std::string &failmsg() { static std::string m; return m; }
inline bool &failed() { static bool f = false; return f; }
inline bool &nontriv() { static bool f = false; return f; }
inline std::set<std::string> &tags() { static std::set<std::string> t; return t; }
inline std::string &where() { static std::string m; return m; }
inline uint64_t &nchecks() { static uint64_t n = 0; return n; }

inline void fail(const char *fmt, ...) {
    if (failed()) return;
    char b[1200];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    failed() = true;
    failmsg() = where() + ": " + b;
}
// collective: every rank must leave a case together
inline bool any_failed() {
    int bad = failed(), any = 0;
    MPI_Allreduce(&bad, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
    return any;
}
inline void tag(const std::string &t) { tags().insert(t); }

// deterministic values: splitmix64
inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b) { return mix(mix(a) ^ (b + 0x1234567)); }
inline int ival(uint64_t seed, uint64_t k, int range = 15) { // integer in [-range, range]
    return (int)(mix(seed, k) % (2 * range + 1)) - range;
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix(seed)) {}
    uint64_t u() { return s = mix(s); }
    int in(int a, int b) { return a + (int)(u() % (uint64_t)(b - a + 1)); }
    double unit() { return (u() >> 11) * (1.0 / 9007199254740992.0); }
    double sym() { return 2 * unit() - 1; }
    double gauss() {
        double s = 0;
        for (int i = 0; i < 12; i++) s += unit();
        return s - 6;
    }
};

inline const char *getenvs(const char *k, const char *def) { const char *v = getenv(k); return v ? v : def; }

inline std::vector<int> size_env() {
    std::vector<int> r;
    std::stringstream ss(getenvs("HV_SIZE", ""));
    std::string t;
    while (std::getline(ss, t, ',')) r.push_back(atoi(t.c_str()));
    return r;
}
inline CoordinateVector size_vector() {
    CoordinateVector s;
    auto v = size_env();
    for (int d = 0; d < NDIM; d++) s[d] = v.at(d);
    return s;
}

// row-major-like global index of a coordinate: x runs fastest
inline size_t gindex(const CoordinateVector &c, const CoordinateVector &sz) {
    size_t r = 0;
    for (int d = NDIM - 1; d >= 0; d--) r = r * sz[d] + c[d];
    return r;
}
inline CoordinateVector gcoord(size_t i, const CoordinateVector &sz) {
    CoordinateVector c;
    for (int d = 0; d < NDIM; d++) { c[d] = i % sz[d]; i /= sz[d]; }
    return c;
}
inline int gparity(const CoordinateVector &c) {
    int s = 0;
    for (int d = 0; d < NDIM; d++) s += c[d];
    return ((s % 2) + 2) % 2; // 0 even
}
inline CoordinateVector wrap(CoordinateVector c, const CoordinateVector &sz) {
    for (int d = 0; d < NDIM; d++) c[d] = ((c[d] % sz[d]) + sz[d]) % sz[d];
    return c;
}
inline std::string cstr(const CoordinateVector &c) {
    std::string s = "(";
    for (int d = 0; d < NDIM; d++) s += (d ? "," : "") + std::to_string(c[d]);
    return s + ")";
}

inline std::vector<Case> read_cases() {
    std::ifstream f(getenvs("HV_CASES", "cases.txt"));
    std::vector<Case> r;
    std::string line;
    while (std::getline(f, line)) {
        std::stringstream ss(line);
        std::vector<std::string> w;
        std::string t;
        while (ss >> t) w.push_back(t);
        if (w.empty()) continue;
        if (w[0] == "case") { r.push_back({w.at(1), {}}); continue; }
        if (w[0] == "end") continue;
        r.back().ops.push_back({w});
    }
    return r;
}

inline FILE *outf() {
    static FILE *f = nullptr;
    if (!f) f = fopen(getenvs("HV_OUT", "out.txt"), "a");
    return f;
}

// runs every case on all processes and reports from process 0 of MPI_COMM_WORLD
inline void run(const std::function<void(const Case &)> &fn, MPI_Comm comm = MPI_COMM_WORLD) {
    auto cases = read_cases();
    int rank, np;
    MPI_Comm_rank(comm, &rank);
    MPI_Comm_size(comm, &np);
    for (auto &c : cases) {
        if (rank == 0) { fprintf(outf(), "B %s\n", c.id.c_str()); fflush(outf()); }
        failed() = false;
        nontriv() = false;
        tags().clear();
        where() = "";
        failmsg() = "";
        fn(c);
        int bad = failed() ? rank : np, first;
        MPI_Allreduce(&bad, &first, 1, MPI_INT, MPI_MIN, comm);
        if (first < np) {
            char b[1400];
            memset(b, 0, sizeof b);
            if (rank == first) snprintf(b, sizeof b, "[rank %d] %s", rank, failmsg().c_str());
            MPI_Bcast(b, sizeof b, MPI_CHAR, first, comm);
            for (char *p = b; *p; p++) if (*p == '\n') *p = ' ';
            if (rank == 0) fprintf(outf(), "R %s FAIL %s\n", c.id.c_str(), b);
        } else if (rank == 0) {
            std::string t;
            for (auto &s : tags()) t += (t.empty() ? "" : ",") + s;
            fprintf(outf(), "R %s OK %d %s\n", c.id.c_str(), (int)nontriv(), t.c_str());
        }
        if (rank == 0) fflush(outf());
    }
    if (rank == 0) { fprintf(outf(), "E\n"); fflush(outf()); }
}

// ---- element types as arrays of base numbers -------------------------------------------------------------
template <typename T>
struct El {
    using B = hila::arithmetic_type<T>;
    static constexpr int N = sizeof(T) / sizeof(B);
};
template <typename T>
T from_ints(const int *v) {
    using B = hila::arithmetic_type<T>;
    constexpr int N = sizeof(T) / sizeof(B);
    B b[N];
    for (int i = 0; i < N; i++) b[i] = (B)v[i];
    T t;
    memcpy((void *)&t, b, sizeof(T));
    return t;
}
template <typename T>
void to_doubles(const T &t, double *out) {
    using B = hila::arithmetic_type<T>;
    constexpr int N = sizeof(T) / sizeof(B);
    B b[N];
    memcpy(b, (const void *)&t, sizeof(T));
    for (int i = 0; i < N; i++) out[i] = (double)b[i];
}
template <typename T>
std::string estr(const T &t) {
    constexpr int N = El<T>::N;
    double b[N];
    to_doubles(t, b);
    std::string s;
    char x[40];
    for (int i = 0; i < N && i < 6; i++) { snprintf(x, sizeof x, "%s%.9g", i ? " " : "", b[i]); s += x; }
    return s;
}
template <typename T>
bool same(const T &a, const T &b) {
    constexpr int N = El<T>::N;
    double x[N], y[N];
    to_doubles(a, x);
    to_doubles(b, y);
    for (int i = 0; i < N; i++)
        if (!(x[i] == y[i])) return false;
    return true;
}

} // namespace hv
#endif
