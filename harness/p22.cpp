// P22: checkpoints and multicanonical weights
#include "hv.h"
#include "tools/checkpoint.h"
#include "tools/multicanonical.h"
#include <sys/resource.h>
#include <algorithm>
#include <unistd.h>

#ifndef PGROUP
#define PGROUP 0
#endif
#if PGROUP == 0
using G = SU<2, double>;
#elif PGROUP == 1
using G = SU<3, float>;
#elif PGROUP == 2
using G = SU<3, double>;
#else
using G = U1<double>;
#endif

static int W, NP;

// ---- checkpoints ------------------------------------------------------------------------------------------
static void fill(GaugeField<G> &U, uint64_t seed) {
    using B = hila::arithmetic_type<G>;
    CoordinateVector sz = lattice.size();
    foralldir(d) {
        U[d].check_alloc();
        for (size_t i = 0; i < lattice->mynode.volume; i++) {
            B b[sizeof(G) / sizeof(B)];
            size_t k = hv::gindex(lattice->coordinates(i), sz) * NDIM + d;
            for (size_t j = 0; j < sizeof(G) / sizeof(B); j++) b[j] = (B)(hv::mix(hv::mix(seed, k), j) % 100003) / (B)331 - 150;
            G g;
            memcpy((void *)&g, b, sizeof g);
            U[d].set_value_at(g, i);
        }
        U[d].mark_changed(ALL);
    }
}
static void compare(const GaugeField<G> &U, uint64_t seed, const char *what) {
    using B = hila::arithmetic_type<G>;
    CoordinateVector sz = lattice.size();
    foralldir(d) for (size_t i = 0; i < lattice->mynode.volume; i++) {
        G g = U[d].get_value_at(i);
        B b[sizeof(G) / sizeof(B)];
        memcpy(b, (void *)&g, sizeof g);
        size_t k = hv::gindex(lattice->coordinates(i), sz) * NDIM + d;
        for (size_t j = 0; j < sizeof(G) / sizeof(B); j++) {
            B e = (B)(hv::mix(hv::mix(seed, k), j) % 100003) / (B)331 - 150;
            if (b[j] != e) { hv::fail("%s: link %d at %s, component %zu is %g, saved was %g", what, (int)d, hv::cstr(lattice->coordinates(i)).c_str(), j, (double)b[j], (double)e); return; }
        }
    }
}
struct Ck {
    std::map<std::string, uint64_t> file;  // content of the configuration files
    bool status = false;
    int ntraj = 0, traj = 0;
    uint64_t id = 0;                       // of the status file
    std::map<uint64_t, std::vector<double>> draws;
    int my_ntraj = 50;
    uint64_t cur = 1;
};
static void rm(const std::string &f) { hila::synchronize(); if (W == 0) unlink(f.c_str()); hila::synchronize(); }

static void ck_case(const hv::Case &c) {
    for (auto f : {"cfg", "cfg.prev", "b.cfg", "b.cfg.prev", "run_status"}) rm(f);
    Ck m;
    GaugeField<G> U;
    hila::seed_random(hv::mix(c.ops[0].u(1)) | 1);
    fill(U, m.cur);
    for (auto &o : c.ops) {
        const std::string &k = o.name();
        hv::tag(k);
        hv::where() = k;
        if (k == "fill") { // fill SEED
            m.cur = o.u(1);
            fill(U, m.cur);
        } else if (k == "save") { // save FILE TRAJ OLD
            std::string f = o.s(1);
            bool old = o.i(3) & 1;
            int nt = m.my_ntraj;
            if (o.i(3) & 2) checkpoint(U, f, nt, (int)o.i(2)); else checkpoint(U, f, nt, (int)o.i(2), old);
            if (o.i(3) & 2) old = true;
            if (old && m.file.count(f)) m.file[f + ".prev"] = m.file[f];
            m.file[f] = m.cur;
            if (m.status) m.my_ntraj = m.ntraj;
            if (nt != m.my_ntraj) hv::fail("number of trajectories is %d after saving, expected %d", nt, m.my_ntraj);
            m.ntraj = m.my_ntraj;
            m.traj = o.i(2) + 1;
            m.status = true;
            m.id++;
            compare(U, m.cur, "saving changed the configuration");
        } else if (k == "trajectories") { // the user edits the file, or changes the variable
            if (o.i(2) & 1) { m.my_ntraj = o.i(1); continue; }
            if (!m.status) continue;
            hila::synchronize();
            if (W == 0) {
                std::ifstream in("run_status");
                std::string line, all;
                while (std::getline(in, line)) all += (line.compare(0, 13, "trajectories ") == 0 ? "trajectories " + o.s(1) + "   # edited" : line) + "\n";
                in.close();
                std::ofstream("run_status") << all;
            }
            hila::synchronize();
            m.ntraj = o.i(1);
        } else if (k == "load") { // load FILE: into another configuration
            std::string f = o.s(1);
            if (m.status && !m.file.count(f)) continue;
            GaugeField<G> V;
            fill(V, 999);
            int nt = m.my_ntraj, tr = 12345;
            bool ok = restore_checkpoint(V, f, nt, tr);
            if (m.status) {
                if (!ok) hv::fail("restoring reports failure");
                if (nt != m.ntraj) hv::fail("restored number of trajectories is %d, saved was %d", nt, m.ntraj);
                if (tr != m.traj) hv::fail("restored trajectory is %d, expected %d", tr, m.traj);
                m.my_ntraj = m.ntraj;
                compare(V, m.file[f], "restored configuration");
                std::vector<double> d;
                for (int i = 0; i < 3; i++) d.push_back(hila::random());
                d.push_back(hila::gaussrand());
                auto &e = m.draws[m.id];
                if (e.empty()) e = d;
                else if (e != d) hv::fail("restoring the same checkpoint again gives other random numbers");
                for (auto &x : m.draws) if (x.first != m.id && x.second == d) hv::fail("different checkpoints restore the same random numbers");
            } else if (m.file.count(f)) {
                if (!ok) hv::fail("reading an existing initial configuration reports failure");
                compare(V, m.file[f], "initial configuration");
                if (nt != m.my_ntraj || tr != 12345) hv::fail("trajectory numbers changed without a status file");
            } else {
                if (ok) hv::fail("restoring from nothing reports success");
                compare(V, 999, "failed restoration");
                if (nt != m.my_ntraj || tr != 12345) hv::fail("trajectory numbers changed without a status file");
            }
            if (m.file.count(f) && (o.n() > 2 && o.i(2) & 1)) { U = V; m.cur = m.file[f]; }
        } else if (k == "prev") { // the configuration before the last one
            for (auto &x : m.file) {
                GaugeField<G> V;
                V.config_read(x.first);
                compare(V, x.second, ("file " + x.first).c_str());
            }
        } else if (k == "nostatus") {
            rm("run_status");
            m.status = false;
        }
    }
}

// ---- multicanonical ---------------------------------------------------------------------------------------
struct Ref {
    std::vector<double> lim, cen, w, noc, hist;
    std::vector<long> hits, total, nsum, gsum;
    std::string method;
    bool ends = false;
    int ss = 1, interval = 1, count = 0, ciss = 1, minhits = 1, maxit = 1, updates = 0;
    double C = 0, Cmin = 0, oc = 0;
    bool hard = false;
    int bin(double x) const {
        if (!(x > lim.front() && x < lim.back())) return -1;
        int i = 0;
        while (x > lim[i + 1]) i++;
        return i;
    }
    double weight(double x) const {
        if (x <= cen.front()) return hard ? INFINITY : w.front();
        if (x >= cen.back()) return hard ? INFINITY : w.back();
        int i = 0;
        while (x > cen[i + 1]) i++;
        return w[i] + (x - cen[i]) / (cen[i + 1] - cen[i]) * (w[i + 1] - w[i]);
    }
    void floor() { double b = *std::min_element(w.begin(), w.end()); for (double &x : w) x -= b; }
    bool done() const { if (ends) return total.front() && total.back(); for (long t : total) if (!t) return false; return true; }
    void finish() { if (done()) { std::fill(total.begin(), total.end(), 0); C /= 1.5; } }
    int step(double x) { // expected return value, 2: either
        int n = w.size(), b = bin(x);
        count++;
        if (method == "single") {
            if (b >= 0) { total[b]++; w[b] += C; }
            if (count % interval) return C < Cmin ? 2 : 1;
            floor();
            finish();
            return C >= Cmin;
        }
        if (method == "smooth") {
            static const int k[5] = {1, 3, 5, 3, 1};
            for (int j = -2; j <= 2; j++) if (b >= 0 && b + j >= 0 && b + j < n) hits[b + j] += k[j + 2];
            if (count >= ss) {
                for (int i = 0; i < n; i++) { w[i] += C * (hits[i] - hits[0]) / n; total[i] += hits[i]; }
                std::fill(hits.begin(), hits.end(), 0);
                count = 0;
                finish();
            }
            return C >= Cmin;
        }
        if (method == "canonical") {
            if (b >= 0) { hits[b]++; hist[b] += std::exp(weight(x)); }
            if (count < ciss) return 1;
            count = 0;
            std::vector<double> p = noc;
            for (int i = 0; i < n; i++) { hist[i] /= lim[i + 1] - lim[i]; nsum[i] += hits[i]; }
            for (int i = 1; i < n; i++) {
                double d = p[i] - p[i - 1];
                if (hits[i] >= minhits && hits[i - 1] >= minhits) {
                    double g = hits[i] + hits[i - 1];
                    d = (d * gsum[i] + g * std::log(hist[i] / hist[i - 1])) / (gsum[i] + g);
                    gsum[i] += hits[i] + hits[i - 1];
                }
                noc[i] = noc[i - 1] + d;
            }
            for (int i = 0; i < n; i++) w[i] = noc[i] + oc * std::log((lim[1] - lim[0]) / (lim[i + 1] - lim[i]) * nsum[i] / nsum[0]);
            std::fill(hits.begin(), hits.end(), 0);
            std::fill(hist.begin(), hist.end(), 0);
            return ++updates <= maxit;
        }
        if (b >= 0) hits[b]++;
        if (count >= ss) {
            for (int i = 0; i < n; i++) { w[i] += C * hits[i] * n / ss; total[i] += hits[i]; }
            floor();
            std::fill(hits.begin(), hits.end(), 0);
            count = 0;
            finish();
        }
        return C >= Cmin;
    }
};

static bool near(double x, double y, double rel = 1e-9) { return x == y || std::abs(x - y) <= rel * (1 + std::abs(x) + std::abs(y)); }
static void put_params(const std::string &f, const std::string &loc, const hv::Op &o) {
    // muca METHOD HARD MIN MAX NB ENDS SS INTERVAL C CMIN CISS INITHITS MINHITS MAXIT OC
    hila::synchronize();
    if (W == 0) {
        std::ofstream p(f);
        p << "weight_file_location " << loc << "\niteration_method " << (o.s(1) == "single" ? "direct" : o.s(1) == "smooth" ? "direct_smooth" : o.s(1)) << "\nhard_walls "
          << (o.i(2) ? "YES" : "NO") << "\nmax_OP " << o.s(4) << "\nmin_OP " << o.s(3) << "\nnumber_of_bins " << o.s(5) << "\niteration_visuals NO\nDI_finish_condition "
          << (o.i(6) ? "ends_visited" : "all_visited") << "\nDI_sample_size " << (o.s(1) == "single" ? "1" : o.s(7)) << "\nDI_single_check_interval " << o.s(8) << "\nDI_C_init " << o.s(9) << "\nDI_C_min "
          << o.s(10) << "\nCI_sample_size " << o.s(11) << "\nCI_initial_bin_hits " << o.s(12) << "\nCI_min_bin_hits " << o.s(13) << "\nCI_max_iters " << o.s(14)
          << "\nCI_overcorrect_factor " << o.s(15) << "\nCI_overcorrect_max_iter -1\nCI_overcorrect_frequency 0\n";
    }
    hila::synchronize();
}
static double ref_op(const Ref &r, hv::Rng &g, bool outside) { // a value of the order parameter, not on a bin limit
    double a = r.lim.front(), b = r.lim.back();
    for (;;) {
        double x;
        int k = g.in(0, 9);
        if (k == 0 && outside) x = g.in(0, 1) ? a - (b - a) * g.unit() : b + (b - a) * g.unit();
        else if (k == 1) x = r.cen[g.in(0, r.cen.size() - 1)];
        else if (k == 2) { int i = g.in(0, r.cen.size() - 1); x = r.lim[i] + (r.lim[i + 1] - r.lim[i]) * g.unit(); }
        else x = a + (b - a) * (k < 6 ? g.unit() : g.unit() * g.unit());
        bool ok = true;
        for (double l : r.lim) if (std::abs(x - l) < 1e-6 * (b - a) / r.cen.size()) ok = false;
        if (r.hard && (std::abs(x - r.cen.front()) < 1e-6 * (b - a) / r.cen.size() || std::abs(x - r.cen.back()) < 1e-6 * (b - a) / r.cen.size())) ok = false;
        if (ok) return x;
    }
}
static void same_weights(const hila::Muca &m, const Ref &r, const char *what, double tol) {
    if (W != 0) return;
    if (m.weights.size() != r.w.size() || m.OP_bin_centers.size() != r.cen.size() || m.OP_bin_limits.size() != r.lim.size()) { hv::fail("%s: table of %zu bins, expected %zu", what, m.weights.size(), r.w.size()); return; }
    double range = r.lim.back() - r.lim.front(), off = std::max(std::abs(r.lim.front()), std::abs(r.lim.back()));
    for (size_t i = 0; i < r.w.size(); i++) {
        if (!near(m.weights[i], r.w[i], tol)) hv::fail("%s: weight of bin %zu of %zu is %.12g, expected %.12g", what, i, r.w.size(), m.weights[i], r.w[i]);
        if (std::abs(m.OP_bin_centers[i] - r.cen[i]) > tol * (range + off)) hv::fail("%s: centre of bin %zu is %.12g, expected %.12g", what, i, m.OP_bin_centers[i], r.cen[i]);
    }
    for (size_t i = 0; i < r.lim.size(); i++) if (std::abs(m.OP_bin_limits[i] - r.lim[i]) > tol * (range + off)) hv::fail("%s: limit %zu is %.12g, expected %.12g", what, i, m.OP_bin_limits[i], r.lim[i]);
}

static void muca_case(const hv::Case &c) {
    Ref r;
    hila::Muca m;
    hv::Op par = c.ops[0];
    hila::seed_random(77);
    std::string loc = "NONE";
    int n = par.i(5);
    for (auto &o : c.ops) if (o.name() == "table") { // table NB SEED HEADER
        hv::Rng g(o.u(2));
        n = o.i(1);
        double x = g.in(-20, 20);
        for (int i = 0; i <= n; i++) { r.lim.push_back(x); x += g.in(1, 16) / 8.0; }
        for (int i = 0; i < n; i++) { r.cen.push_back((r.lim[i] + r.lim[i + 1]) / 2); r.w.push_back(g.in(-800, 800) / 64.0); }
        loc = "table.dat";
        if (W == 0) {
            std::ofstream f(loc);
            for (int i = 0; i < o.i(3); i++) f << "# a header line " << i << "\t1\t2\n";
            f << "OP_bin_limit\tOP_value\tWeight\n";
            f.precision(12);
            for (int i = 0; i < n; i++) f << r.lim[i] << "\t" << r.cen[i] << "\t" << r.w[i] << "\n";
            f << r.lim[n] << "\n";
        }
    }
    if (r.w.empty()) {
        double a = par.d(3), b = par.d(4), d = (b - a) / (n - 1);
        for (int i = 0; i <= n; i++) r.lim.push_back(a + d * (i - 0.5));
        for (int i = 0; i < n; i++) { r.cen.push_back(a + d * i); r.w.push_back(0); }
    }
    r.method = par.s(1);
    r.hard = par.i(2);
    r.ends = par.i(6);
    r.ss = par.i(7);
    r.interval = par.i(8);
    r.C = par.d(9);
    r.Cmin = par.d(10);
    r.ciss = par.i(11);
    r.minhits = par.i(13);
    r.maxit = par.i(14);
    r.oc = par.d(15);
    r.hits.assign(n, 0);
    r.total.assign(n, 0);
    r.nsum.assign(n, 1);
    r.gsum.assign(n, par.i(12));
    r.hist.assign(n, 0);
    r.noc = r.w;
    put_params("muca_par", loc, par);
    if (!m.initialise("muca_par")) { hv::fail("initialise() fails"); return; }
    same_weights(m, r, "table after initialise()", loc == "NONE" ? 1e-10 : 1e-6);
    if (W == 0 && loc != "NONE") { r.w = m.weights; r.noc = r.w; r.cen = m.OP_bin_centers; r.lim = m.OP_bin_limits; }
    hila::broadcast(r.w); hila::broadcast(r.noc); hila::broadcast(r.cen); hila::broadcast(r.lim);
    bool cont = false;
    for (auto &o : c.ops) {
        const std::string &k = o.name();
        hv::where() = k;
        hv::tag(k == "iter" ? "iter-" + r.method : k);
        if (k == "w") { // w K SEED
            hv::Rng g(o.u(2));
            for (int i = 0; i < o.i(1); i++) {
                double x = ref_op(r, g, true), e = r.weight(x), y = m.weight(x);
                if (!near(y, e)) hv::fail("weight(%.12g) is %.12g, expected %.12g", x, y, e);
                double z = m.weight_function(x);
                if (W == 0 && !near(z, e)) hv::fail("weight_function(%.12g) is %.12g, expected %.12g", x, z, e);
            }
        } else if (k == "iter") {
            hv::Rng g(o.u(2));
            for (int i = 0; i < o.i(1); i++) {
                double x = ref_op(r, g, true);
                int e = r.step(x);
                bool b = m.iterate_weights(m, x);
                if (e != 2 && b != (bool)e) { hv::fail("iteration %d of %s returns %d, expected %d", i, r.method.c_str(), (int)b, e); break; }
            }
            same_weights(m, r, ("after iterations of " + r.method).c_str(), 1e-8);
            // a step back to the exact values keeps rounding differences from growing
            if (W == 0 && !hv::failed()) { r.w = m.weights; if (r.method == "canonical") r.noc = m.CI.noc_weights; }
            hila::broadcast(r.w); hila::broadcast(r.noc);
        } else if (k == "accept") { // accept K SEED
            hv::Rng g(o.u(2));
            for (int i = 0; i < o.i(1); i++) {
                double x = ref_op(r, g, false), y = ref_op(r, g, true), a = r.weight(x), b = r.weight(y);
                if (std::isinf(a)) continue;
                bool acc = m.accept_reject(x, y);
                if (b - a < -1e-9 && !acc) hv::fail("an update which lowers the weight from %g to %g is rejected", a, b);
                if (b - a > 60 && acc) hv::fail("an update which raises the weight from %g to %g is accepted", a, b);
                int same = acc;
                hila::broadcast(same);
                if (same != (int)acc) hv::fail("processes disagree on the acceptance");
                if (cont) {
                    int e = r.step(acc ? y : x);
                    if (e != 2 && m.check_weight_iter_flag() != (bool)e) hv::fail("check_weight_iter_flag() is %d, expected %d", (int)!e, e);
                    else if (e == 2) m.check_weight_iter_flag();
                }
            }
            same_weights(m, r, cont ? "after accept_reject with continuous iteration" : "after accept_reject", 1e-8);
            if (W == 0 && !hv::failed()) { r.w = m.weights; if (r.method == "canonical") r.noc = m.CI.noc_weights; }
            hila::broadcast(r.w); hila::broadcast(r.noc);
        } else if (k == "rate") { // rate SEED: the fraction of accepted updates
            hv::Rng g(o.u(1));
            if (cont) continue;
            double best = -1, x = 0, y = 0;
            for (int i = 0; i < 40; i++) { // a pair with a medium probability
                double u = ref_op(r, g, false), v = ref_op(r, g, false), d = r.weight(v) - r.weight(u);
                if (std::isnan(d) || std::isinf(d) || d < 0) continue;
                double q = std::exp(-d) * (1 - std::exp(-d));
                if (q > best) { best = q; x = u; y = v; }
            }
            if (best <= 0.01) continue;
            double p = std::exp(-(r.weight(y) - r.weight(x)));
            int N = 3000, s = 0;
            for (int i = 0; i < N; i++) s += m.accept_reject(x, y);
            if (std::abs(s - N * p) > 6.5 * std::sqrt(N * p * (1 - p)) + 1) hv::fail("%d of %d updates accepted, expected probability %g", s, N, p);
            hv::tag("rate-measured");
        } else if (k == "cont") {
            cont = o.i(1);
            m.set_continuous_iteration(cont);
        } else if (k == "write") { // write and read back
            bool ok = true;
            if (W == 0) ok = m.write_weight_function("w.dat");
            if (!ok) hv::fail("write_weight_function() fails");
            hila::synchronize();
            hila::Muca q;
            put_params("muca_par2", "w.dat", par);
            if (!q.initialise("muca_par2")) hv::fail("the written weight function cannot be read");
            else {
                same_weights(q, r, "written and read again", 2e-6);
            }
            rm("w.dat");
            if (q.initialise("muca_par2")) hv::fail("initialise() succeeds without the weight file");
        }
    }
    rm("intermediate_weight.dat");
}

int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    MPI_Comm_rank(MPI_COMM_WORLD, &W);
    MPI_Comm_size(MPI_COMM_WORLD, &NP);
    lattice.setup(hv::size_vector());
    hila::seed_random(1);
    hv::run([](const hv::Case &c) {
        hv::nontriv() = c.ops.size() > 1;
        if (c.ops[0].name() == "ck") ck_case(c);
        else if (c.ops[0].name() == "muca") muca_case(c);
        else if (c.ops[0].name() == "crash") { // crash SEED LIMIT: ends during the second save
            GaugeField<G> U;
            int n = 10;
            fill(U, c.ops[0].u(1));
            checkpoint(U, "cfg", n, 1);
            fill(U, c.ops[0].u(1) + 1);
            struct rlimit l = {(rlim_t)c.ops[0].u(2), (rlim_t)c.ops[0].u(2)};
            if (W == 0) setrlimit(RLIMIT_FSIZE, &l);
            checkpoint(U, "cfg", n, 2);
        } else if (c.ops[0].name() == "survive") {
            Ck m;
            bool found = false;
            for (auto f : {"cfg", "cfg.prev"}) {
                size_t n = 0;
                if (W == 0) { std::ifstream in(f, std::ios::binary | std::ios::ate); if (in) n = in.tellg(); }
                hila::broadcast(n);
                if (n < (size_t)lattice.volume() * NDIM * sizeof(G) + 8 * (3 + NDIM)) continue;
                GaugeField<G> V;
                V.config_read(f);
                compare(V, c.ops[0].u(1), "x");
                if (!hv::any_failed()) found = true;
                hv::failed() = false;
            }
            if (!found) hv::fail("no complete copy of the previous configuration is left after an interrupted save");
        } else if (c.ops[0].name() == "resume") { // another program run
            GaugeField<G> V;
            int nt = 3, tr = 0;
            if (!restore_checkpoint(V, "cfg", nt, tr)) hv::fail("nothing to restore");
            compare(V, c.ops[0].u(1), "configuration restored by another run");
            if (nt != 10 || tr != 3) hv::fail("trajectory %d of %d restored, expected 3 of 10", tr, nt);
        }
    });
    hila::finishrun();
    return 0;
}
