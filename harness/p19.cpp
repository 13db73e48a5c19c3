// P19: gauge observables, forces, smearing, flow and updates against sums over link products in long double
#include "hv.h"
#include "gauge/staples.h"
#include "gauge/polyakov.h"
#include "gauge/sun_overrelax.h"
#include "gauge/sun_heatbath.h"
#include "gauge/sun_max_staple_sum_rot.h"
#include "gauge/degauss.h"
#include "gauge/gradient_flow.h"
#include "gauge/log_clover_action.h"
#include "gauge/stout_smear.h"
#include "gauge/stout_smear_nch.h"
#include "gauge/stout_smear_nchm.h"
#include "p19ref.h"

#ifndef NC
#define NC 3
#endif
#ifndef HVREAL
#define HVREAL double
#endif
GradientFlowAction g_GF_action = GradientFlowAction::Wilson;
using G = SU<NC, HVREAL>;
using Ref = gr19::Ref<NC>;
using M = gr19::M<NC>;
using L = long double;
constexpr L eps = sizeof(HVREAL) == 4 ? 1.2e-7L : 2.3e-16L;

static G toG(const M &m) { G g_; for (int i = 0; i < NC; i++) for (int j = 0; j < NC; j++) { g_.e(i, j).re = (HVREAL)m.r[i][j]; g_.e(i, j).im = (HVREAL)m.i[i][j]; } return g_; }
template <typename S> static M fromG(const S &s) { M m; for (int i = 0; i < NC; i++) for (int j = 0; j < NC; j++) { m.r[i][j] = s.e(i, j).real(); m.i[i][j] = s.e(i, j).imag(); } return m; }
template <typename A> static std::vector<L> vecA(const A &a) { std::vector<L> r(NC * NC - 1); for (int k = 0; k < NC * NC - 1; k++) r[k] = a.e(k); return r; }

static std::vector<CoordinateVector> &sites() { static std::vector<CoordinateVector> s; return s; }
static size_t nloc() { return lattice->mynode.volume; }
static int sidx(size_t i) { auto c = lattice->coordinates(i); int s = 0; for (int d = NDIM - 1; d >= 0; d--) s = s * lattice.size(d) + c[d]; return s; }
template <typename F> static void load(F &U, const Ref &R) {
    for (int d = 0; d < NDIM; d++) {
        U[(Direction)d].check_alloc();
        for (size_t i = 0; i < nloc(); i++) U[(Direction)d].set_value_at(toG(R.U[d][sidx(i)]), i);
        U[(Direction)d].mark_changed(ALL);
    }
}
static void num(const char *what, L got, L want, L tol) {
    hv::nchecks()++;
    if (!(std::abs(got - want) <= tol)) hv::fail("%s: %.12Lg, expected %.12Lg (tolerance %.2Lg)", what, got, want, tol);
}
static void mat(const char *what, int d, int s, const M &got, const M &want, L tol) {
    hv::nchecks()++;
    L e = gr19::norm(got - want);
    if (!(e <= tol)) hv::fail("%s: direction %d site %d: off by %.3Lg (tolerance %.2Lg)", what, d, s, e, tol);
}
template <typename F> static void cmpfield(const char *what, F &f, int d, const std::vector<M> &want, L tol) {
    for (size_t i = 0; i < nloc(); i++) mat(what, d, sidx(i), fromG(f.get_value_at(i)), want[sidx(i)], tol);
}

// force component along e against the numerical derivative of the reference action
template <typename K, typename S>
static void cmpforce(const char *what, const Ref &R, K &k, const S &action, uint64_t seed, int ns, L scale) {
    hv::Rng g(seed);
    for (int n = 0; n < ns; n++) {
        int d = g.in(0, NDIM - 1);
        int s = g.in(0, (int)R.vol - 1);
        std::vector<L> e(NC * NC - 1);
        int only = g.in(-1, NC * NC - 2);
        for (int a = 0; a < (int)e.size(); a++) e[a] = only < 0 ? g.sym() : a == only;
        for (size_t i = 0; i < nloc(); i++) {
            if (sidx(i) != s) continue;
            auto v = vecA(k[(Direction)d].get_value_at(i));
            L got = 0, mag = 0;
            for (size_t a = 0; a < e.size(); a++) { got += e[a] * v[a]; mag += std::abs(e[a] * v[a]); }
            M E = gr19::comb<NC>(e);
            auto f = [&](L h) { Ref T = R; T.U[d][s] = gr19::expm(E * h) * T.U[d][s]; return action(T); };
            const L h = 1e-3L;
            L d1 = (f(h) - f(-h)) / (2 * h), d2 = (f(2 * h) - f(-2 * h)) / (4 * h);
            L want = -2 * NC * scale * (4 * d1 - d2) / 3;
            num(what, got, want, 2e-8L * (1 + std::abs(want) + mag) + 3e3L * eps * (10 + mag));
            if (std::abs(want) > 1e-6) hv::nontriv() = true;
        }
    }
}
static L act(const Ref &R, int a, L c11, L c12) {
    switch (a) {
    case 0: return R.wplaq();
    case 1: return R.bp();
    case 2: return R.impr(1 + 8 / 12.0L, -1 / 12.0L);
    case 3: return R.impr(1 + 8 * 0.331L, -0.331L);
    case 4: return R.impr(1 + 8 * 1.4088L, -1.4088L);
    case 5: return R.logplaq();
    case 7: return R.impr(c11, c12);
    case 8: return R.clover();
    default: return 0;
    }
}
template <typename U_, typename K_> static void hforce(const U_ &U, K_ &K, int a, HVREAL ep, HVREAL c11, HVREAL c12, bool add) {
    switch (a) {
    case 0: if (add) get_force_wplaq_add(U, K, ep); else get_force_wplaq(U, K, ep); break;
    case 1: if (add) get_force_bp_add(U, K, ep); else get_force_bp(U, K, ep); break;
    case 5: if (add) get_force_log_plaq_add(U, K, ep); else get_force_log_plaq(U, K, ep); break;
    case 7: if (add) get_force_impr_add(U, K, ep * c11, ep * c12); else get_force_impr(U, K, ep * c11, ep * c12); break;
    case 8: if (add) get_force_clover_add(U, K, ep); else get_force_clover(U, K, ep); break;
    }
}
// one-link averages of Re tr(U V^dagger)/N
static L onelink(L x) { // weight exp(x Re tr(U V^+)), group integral over the eigenvalues
    const L pi = acosl(-1);
    L z = 0, w = 0;
    if (NC == 2) {
        const int n = 4000;
        for (int i = 0; i < n; i++) { L t = pi * (i + 0.5L) / n, c = cosl(t), p = sinl(t) * sinl(t) * expl(2 * x * (c - 1)); z += p; w += p * c; }
        return w / z;
    }
    const int n = 300;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        L a = 2 * pi * i / n, b = 2 * pi * j / n, c = -a - b;
        auto s2 = [](L u, L v) { L q = sinl((u - v) / 2); return 4 * q * q; };
        L t = cosl(a) + cosl(b) + cosl(c), p = s2(a, b) * s2(b, c) * s2(a, c) * expl(x * (t - 3));
        z += p; w += p * t / 3;
    }
    return w / z;
}

int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    lattice.setup(hv::size_vector());
    hila::seed_random(11);
    hv::run([](const hv::Case &c) {
        Ref R;
        for (int d = 0; d < NDIM; d++) R.n[d] = lattice.size(d);
        R.init();
        GaugeField<G> U;
        VectorField<Algebra<G>> K;
        L rough = 0;
        for (auto &o : c.ops) {
            hv::where() = o.name();
            const std::string &k = o.name();
            hv::tag("op=" + k);
            const L T = 2e3L * eps;
            if (k == "u") { // u SEED KIND AMP
                R.fill(o.u(1), o.i(2), o.d(3));
                if (sizeof(HVREAL) == 4) R.roundto<HVREAL>();
                load(U, R);
                rough = R.maxplaq();
                hv::tag("kind=" + std::to_string(o.i(2)));
            } else if (k == "staple") { // staple DIR PARITY WEIGHTS
                Direction d = (Direction)(o.i(1) % NDIM);
                Parity p = (Parity)o.i(2);
                int w = o.i(3);
                Field<G> s;
                s.check_alloc();
                for (size_t i = 0; i < nloc(); i++) s.set_value_at(toG(gr19::one<NC>() * 7), i);
                s.mark_changed(ALL);
                auto wt = [&](int a, int b, int x) -> L { return (hv::mix(a < b ? a * 8 + b : b * 8 + a, x + 1000 * w) % 64) / 16.0L; };
                if (w) {
                    plaqw_t<HVREAL> pw;
                    for (int a = 0; a < NDIM; a++) for (int b = 0; b < NDIM; b++) {
                        pw[a][b].check_alloc();
                        for (size_t i = 0; i < nloc(); i++) pw[a][b].set_value_at((HVREAL)wt(a, b, sidx(i)), i);
                        pw[a][b].mark_changed(ALL);
                    }
                    staplesum(U, s, d, pw, p);
                } else {
                    staplesum(U, s, d, p);
                }
                for (size_t i = 0; i < nloc(); i++) {
                    int x = sidx(i);
                    bool in = p == ALL || (R.parity(x) == 0) == (p == EVEN);
                    M want = gr19::one<NC>() * 7;
                    if (in) want = R.staple(d, x, [&](int b, int y) { return w ? wt(d, b, y) : (L)1; });
                    mat("staplesum", d, x, fromG(s.get_value_at(i)), want, in ? 8 * T : 0);
                }
                hv::nontriv() = true;
            } else if (k == "obs") { // plaquette observables
                L np = R.vol * NDIM * (NDIM - 1) / 2 + 1;
                L sp = R.wplaq(), mx = R.maxterm;
                double s1 = measure_s_wplaq(U), s3 = U.measure_plaq();
                HVREAL mp;
                double s2 = measure_s_wplaq(U, mp);
                double s4 = measure_s_clover(U), s5 = measure_s_bp(U);
                double s6 = measure_s_impr(U, (HVREAL)1.25, (HVREAL)-0.125);
                if (hila::myrank() == 0) {
                    num("measure_s_wplaq", s1, sp, T * np);
                    num("measure_plaq", s3, sp, T * np);
                    num("measure_s_wplaq (with maximum)", s2, sp, T * np);
                    num("measure_s_impr", s6, R.impr(1.25L, -0.125L), 3 * T * np);
                    num("measure_s_clover", s4, R.clover(), 10 * T * np);
                    if (rough < 1.2) num("measure_s_bp", s5, R.bp(), 100 * T * np);
                }
                num("maximal plaquette", mp, mx, T);
                if (rough < 0.7) {
                    double s7 = measure_s_log_plaq(U), s8 = measure_s_log(U);
                    if (hila::myrank() == 0) { num("measure_s_log_plaq", s7, R.logplaq(), 10 * T * np); num("measure_s_log", s8, R.logclover(), 10 * T * np); }
                }
                for (int a = 0; a < 7; a++) {
                    if (a == 6) continue;
                    if ((a == 5 && rough > 0.7) || (a == 1 && rough > 1.2)) continue;
                    g_GF_action = (GradientFlowAction)a;
                    double s = measure_gf_s(U);
                    if (hila::myrank() == 0) num("measure_gf_s", s, act(R, a, 0, 0), 100 * T * np);
                }
                hv::nontriv() = hv::nontriv() || sp > 1e-6;
            } else if (k == "poly") { // poly DIR
                int d = o.i(1) % NDIM;
                auto p = measure_polyakov(U, (Direction)d);
                L re, im;
                R.polyakov(d, re, im);
                num("measure_polyakov (real)", p.re, re, T * 10 * R.n[d]);
                num("measure_polyakov (imaginary)", p.im, im, T * 10 * R.n[d]);
                hv::nontriv() = true;
            } else if (k == "wline") { // wline directions...
                std::vector<Direction> path;
                std::vector<int> ip;
                for (size_t j = 1; j < o.n(); j++) { int q = o.i(j); ip.push_back(q); path.push_back(q < NDIM ? (Direction)q : -(Direction)(q - NDIM)); }
                Field<G> W;
                get_wilson_line(U, path, W);
                for (size_t i = 0; i < nloc(); i++) mat("get_wilson_line", 0, sidx(i), fromG(W.get_value_at(i)), R.lineto(ip, sidx(i)), T * (4 + ip.size()));
                if (R.closed(ip)) hv::tag("closed");
                hv::nontriv() = true;
            } else if (k == "wforce") { // wforce SEED MODE directions...: closed path
                std::vector<Direction> path;
                std::vector<int> ip;
                for (size_t j = 3; j < o.n(); j++) { int q = o.i(j); ip.push_back(q); path.push_back(q < NDIM ? (Direction)q : -(Direction)(q - NDIM)); }
                int mode = o.i(2);
                const HVREAL ep = 0.75;
                Field<G> W;
                if (mode == 0) { foralldir(d) K[d] = 0; get_wloop_force_add(U, path, ep, K); }
                else if (mode == 1) { get_wilson_line(U, path, W); foralldir(d) K[d] = 0; get_wloop_force_from_wl_add(U, path, W, ep, K); }
                else if (mode == 2) get_wloop_force(U, path, ep, K);
                else { get_wilson_line(U, path, W); get_wloop_force_from_wl(U, path, W, ep, K); }
                cmpforce("force of a Wilson loop", R, K, [&](const Ref &t) { return t.wloop(ip); }, o.u(1), 4, ep);
            } else if (k == "force") { // force SEED ACTION ADD C11 C12
                int a = o.i(2);
                if (a < 5 && a != 1) a = a == 0 ? 0 : 7;
                if ((a == 5 && rough > 0.7) || (a == 1 && rough > 1.2)) continue;
                hv::tag("action=" + std::to_string(a));
                L c11 = o.d(4), c12 = o.d(5);
                const HVREAL ep = 1.5;
                if (o.i(3)) {
                    foralldir(d) { K[d].check_alloc(); K[d] = 0; }
                    hforce(U, K, a, 1.0, c11, c12, true);
                    hforce(U, K, a, 0.5, c11, c12, true);
                } else {
                    hforce(U, K, a, ep, c11, c12, false);
                }
                cmpforce("force", R, K, [&](const Ref &t) { return act(t, a, c11, c12); }, o.u(1), 4, ep);
            } else if (k == "gff") { // gff SEED ACTION: force of the gradient flow
                int a = o.i(2) % 6;
                if ((a == 5 && rough > 0.7) || (a == 1 && rough > 1.2)) continue;
                hv::tag("flow action=" + std::to_string(a));
                g_GF_action = (GradientFlowAction)a;
                get_gf_force(U, K);
                cmpforce("get_gf_force", R, K, [&](const Ref &t) { return act(t, a, 0, 0); }, o.u(1), 4, 1);
            } else if (k == "logforce") { // logforce SEED: clover-averaged logarithm (see known_findings.txt)
                get_force_log(U, K, 1.0);
                cmpforce("get_force_log", R, K, [&](const Ref &t) { return t.logclover(); }, o.u(1), 6, 1);
            } else if (k == "zeuthen") { // (1 + 1/12 D D*) of the Luescher-Weisz force
                VectorField<Algebra<G>> F;
                get_zeuthen_flow_force(U, K);
                std::vector<M> f[NDIM];
                R.implforce(5 / 3.0L, -1 / 12.0L, f);
                for (int d = 0; d < NDIM; d++)
                    for (size_t i = 0; i < nloc(); i++) {
                        int x = sidx(i), u = R.nb(x, d), w = R.nb(x, d + NDIM);
                        M t = R.U[d][x] * f[d][u] * dag(R.U[d][x]) - f[d][x] * 2 + dag(R.U[d][w]) * f[d][w] * R.U[d][w];
                        mat("get_zeuthen_flow_force", d, x, gr19::comb<NC>(vecA(K[(Direction)d].get_value_at(i))), f[d][x] + t * (1 / 12.0L), 100 * T * (1 + gr19::norm(f[d][x])));
                    }
                hv::nontriv() = hv::nontriv() || rough > 1e-3;
            } else if (k == "stout") { // stout COEFF ITER VARIANT
                L cf = o.d(1);
                int it = o.i(2), v = o.i(3);
                Ref Q = R;
                for (int j = 0; j < it; j++) Q = Q.stout((HVREAL)cf);
                GaugeField<G> V;
                if (v == 0) stout_smear(U, V, (HVREAL)cf, it);
                else if (v == 1) nch_stout_smear(U, V, (HVREAL)cf, it);
                else if (v == 5) nchm_stout_smear(U, V, (HVREAL)cf, it);
                else if (v == 6) { std::vector<std::array<Field<int>, NDIM>> ni(it); nchm_stout_smear(U, V, ni, (HVREAL)cf); }
                else if (v == 7) {
                    std::vector<std::array<Field<int>, NDIM>> ni(it);
                    std::vector<std::array<Field<HVREAL>, NDIM>> no(it);
                    nchm_stout_smear(U, V, ni, no, (HVREAL)cf);
                }
                else {
                    std::vector<GaugeField<G>> sl(it + 1);
                    std::vector<VectorField<G>> st(it + 1);
                    std::vector<GaugeField<G>> sg(it + 1);
                    std::vector<std::array<Field<int>, NDIM>> ni(it + 1);
                    std::vector<std::array<Field<HVREAL>, NDIM>> no(it + 1);
                    if (v == 2) stout_smear(U, sl, st, (HVREAL)cf);
                    else if (v == 8) nchm_stout_smear(U, sl, sg, ni, (HVREAL)cf);
                    else if (v == 9) nchm_stout_smear(U, sl, sg, ni, no, (HVREAL)cf);
                    else if (v == 3) nch_stout_smear(U, sl, st, (HVREAL)cf);
                    else { std::vector<VectorField<G>> sk(it + 1); stout_smeark(U, sl, st, sk, (HVREAL)cf); }
                    V = sl[it];
                }
                for (int d = 0; d < NDIM; d++) cmpfield("stout_smear", V[(Direction)d], d, Q.U[d], 100 * T * (1 + it));
                hv::tag("stout=" + std::to_string(v));
                hv::nontriv() = hv::nontriv() || (it > 0 && rough > 1e-3);
            } else if (k == "sforce") { // sforce SEED COEFF ITER VARIANT ACTION
                L cf = (HVREAL)o.d(2);
                int it = o.i(3), v = o.i(4), a = o.i(5);
                std::vector<GaugeField<G>> sl(it + 1);
                std::vector<VectorField<G>> st(it + 1), sk(it + 1);
                VectorField<Algebra<G>> KS;
                std::vector<std::array<Field<int>, NDIM>> ni(it + 1);
                if (v == 0) stout_smear(U, sl, st, (HVREAL)cf);
                else if (v == 1) nch_stout_smear(U, sl, st, (HVREAL)cf);
                else if (v == 3) {
                    std::vector<GaugeField<G>> sg(it + 1);
                    nchm_stout_smear(U, sl, sg, ni, (HVREAL)cf);
                    for (int j = 0; j < it; j++) foralldir(d) st[j][d] = sg[j][d];
                }
                else stout_smeark(U, sl, st, sk, (HVREAL)cf);
                hforce(sl[it], K, a, 1.0, 1.25, -0.125, false);
                if (v == 0) stout_smear_force(sl, st, K, KS, (HVREAL)cf);
                else if (v == 1) nch_stout_smear_force(sl, st, K, KS, (HVREAL)cf);
                else if (v == 3) nchm_stout_smear_force(sl, st, K, KS, ni, (HVREAL)cf);
                else stout_smeark_force(sl, st, sk, K, KS, (HVREAL)cf);
                hv::tag("sforce=" + std::to_string(v));
                cmpforce("force through stout smearing", R, KS, [&](const Ref &t) { Ref q = t; for (int j = 0; j < it; j++) q = q.stout(cf); return act(q, a, 1.25L, -0.125L); }, o.u(1), 2, 1);
            } else if (k == "flow") { // flow L_END
                L le = o.d(1);
                g_GF_action = GradientFlowAction::Wilson;
                GaugeField<G> V = U;
                const HVREAL acc = sizeof(HVREAL) == 4 ? 1e-3 : 1e-7;
                do_gradient_flow_adapt(V, (HVREAL)0, (HVREAL)le, acc, acc);
                Ref Q = R.flow(le * le / 8, 24);
                L tol = sizeof(HVREAL) == 4 ? 2e-2L : 2e-5L;
                for (int d = 0; d < NDIM; d++) cmpfield("do_gradient_flow_adapt", V[(Direction)d], d, Q.U[d], tol);
                hv::nontriv() = hv::nontriv() || rough > 1e-3;
            } else if (k == "topo") {
#if NDIM == 4
                HVREAL q, e, ql = 0, el = 0;
                measure_topo_charge_and_energy_clover(U, q, e);
                L wq, we;
                R.topo(false, wq, we);
                if (hila::myrank() == 0) { num("topological charge (clover)", q, wq, 10 * T * R.vol); num("energy (clover)", e, we, 30 * T * R.vol); }
                if (rough < 0.7) {
                    measure_topo_charge_and_energy_log(U, ql, el);
                    R.topo(true, wq, we);
                    if (hila::myrank() == 0) { num("topological charge (log)", ql, wq, 30 * T * R.vol); num("energy (log)", el, we, 30 * T * R.vol); }
                }
                hv::nontriv() = hv::nontriv() || rough > 1e-3;
#endif
            } else if (k == "gauge") { // gauge SEED: local gauge transformation
                R.transform(o.u(1));
                if (sizeof(HVREAL) == 4) R.roundto<HVREAL>();
                load(U, R);
            } else if (k == "or") { // or SEED KIND: overrelaxation of links with given staples
                hv::Rng g(o.u(1));
                for (int j = 0; j < 30; j++) {
                    M u = gr19::rnd<NC>(g.u(), g.in(0, 1), 0.5), s = gr19::zero<NC>();
                    int ns = g.in(1, 6);
                    for (int q = 0; q < ns; q++) s = s + gr19::rnd<NC>(g.u(), 0, 0);
                    G gu = toG(u), gs = toG(s);
                    L before = gr19::retr(fromG(gu) * dag(fromG(gs)));
                    int kind = o.i(2), acc = 1;
                    if (kind == 0) suN_overrelax(gu, gs);
                    
#if NC > 2
                    else if (kind == 1) acc = suN_overrelax_dFJ(gu, gs, 1.0);
#endif
                   
                    else acc = suN_overrelax(gu, gs, 1.0);
                    M v = fromG(gu);
                    L after = gr19::retr(v * dag(fromG(gs)));
                    if (kind == 0) num("suN_overrelax: Re tr(U S^+)", after, before, T * (4 + std::abs(before)) * 10);
                    if (kind && NC == 2) num("overrelaxation of SU(2): Re tr(U S^+)", after, before, T * (4 + std::abs(before)) * 100);
                    if (!acc) mat("rejected overrelaxation changes the link", 0, 0, v, u, 4 * T);
                    if (kind == 0 || acc) { if (gr19::norm(v - u) < 1e-12) hv::tag("link unchanged"); }
                    num("overrelaxed link is not unitary", gr19::norm(v * dag(v) - gr19::one<NC>()), 0, 1e2L * T);
                    L dr, di;
                    gr19::det(v, dr, di);
                    num("determinant of the overrelaxed link", std::hypot(dr - 1, di), 0, 1e2L * T);
                    hv::nontriv() = true;
                }
            } else if (k == "chain") { // chain SEED KIND X N: average of Re tr(U V^+)/NC with weight exp(X Re tr(U V^+))
                hv::Rng g(o.u(1));
                L x = o.d(3);
                int n = o.i(4), kind = o.i(2);
                L sc = 0.5 + 2 * g.unit();
                M vv = gr19::rnd<NC>(g.u(), 0, 0);
                G gs = toG(vv * sc), gv = toG(vv), gu = toG(gr19::rnd<NC>(g.u(), 0, 0));
                double beta = NC * (double)(x / sc);
                const int NB = 50;
                std::vector<double> bin(NB);
                for (int j = 0; j < 50; j++) suN_heatbath(gu, gs, beta);
                for (int b = 0; b < NB; b++) {
                    for (int j = 0; j < n / NB; j++) {
                        if (kind == 0 || j % 2 == 0) suN_heatbath(gu, gs, beta);
                        else if (kind == 1) suN_overrelax(gu, gs);
                        
#if NC > 2
                        else if (kind == 2) suN_overrelax_dFJ(gu, gs, beta);
#endif
                       
                        else suN_overrelax(gu, gs, beta);
                        if (j % 64 == 63) { gu.reunitarize(); }
                        bin[b] += real(mul_trace(gu, gv.dagger())) / NC;
                    }
                    bin[b] /= n / NB;
                }
                double m = 0, v = 0;
                for (auto q : bin) m += q / NB;
                for (auto q : bin) v += (q - m) * (q - m) / (NB - 1.0) / NB;
                L want = onelink(x);
                hv::tag("chain=" + std::to_string(kind));
                num("average of Re tr(U V^+)/N over updates", m, want, 7.5L * std::sqrt(v) + 20 * T);
                num("updated link is not unitary", gr19::norm(fromG(gu) * dag(fromG(gu)) - gr19::one<NC>()), 0, 3e3L * T);
                hv::nontriv() = true;
            } else if (k == "degauss") { // degauss SEED
                std::vector<std::vector<L>> e[NDIM];
                VectorField<Algebra<G>> E;
                for (int d = 0; d < NDIM; d++) {
                    hv::Rng g(hv::mix(o.u(1), d));
                    e[d].resize(R.vol);
                    for (auto &w : e[d]) { w.resize(NC * NC - 1); for (auto &q : w) q = (HVREAL)g.sym(); }
                    E[(Direction)d].check_alloc();
                    for (size_t i = 0; i < nloc(); i++) { Algebra<G> a; for (int q = 0; q < NC * NC - 1; q++) a.e(q) = (HVREAL)e[d][sidx(i)][q]; E[(Direction)d].set_value_at(a, i); }
                    E[(Direction)d].mark_changed(ALL);
                }
                Field<Algebra<G>> v;
                get_gauss_violation(U, E, v);
                for (size_t i = 0; i < nloc(); i++) {
                    M w = gr19::zero<NC>();
                    int x = sidx(i);
                    for (int d = 0; d < NDIM; d++) { int y = R.nb(x, d + NDIM); w = w + gr19::comb<NC>(e[d][x]) - dag(R.U[d][y]) * gr19::comb<NC>(e[d][y]) * R.U[d][y]; }
                    mat("get_gauss_violation", 0, x, gr19::comb<NC>(vecA(v.get_value_at(i))), w, 20 * T);
                }
                double q0 = 1e-5;
                degauss(U, E, q0);
                get_gauss_violation(U, E, v);
                double viol = v.squarenorm() / lattice.volume();
                if (!(viol <= 1.01 * q0)) hv::fail("degauss leaves violation %g, asked for %g", viol, q0);
                hv::nontriv() = true;
            }
            if (hv::any_failed()) return;
        }
    });
    hila::finishrun();
    return 0;
}
