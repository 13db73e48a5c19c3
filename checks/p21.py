"""P21: loops that break the rules are refused by the translator; uninitialised fields and random numbers stop the run."""
import concurrent.futures as cf
import json, os, random, re, shutil, tempfile
from hv import build
from hv.run import Check, mpirun

H = build.VERIF + "/harness"

# ---------------------------------------------------------------------------------------------------------------
# Site loops with exactly one broken rule.  (name, kind, text).  kind: "in" a statement for the inside of a loop over any
# parity; "all" only broken in a loop over ALL; "eo" only broken in loops over one parity; "out" a statement outside loops.
# Names in the text: f g h: Field<T>; w: VectorField<T>; k: Field<int>; s, n, arr, vec, z, v2, ptr: variables of the function.
FIELDREF = "[X]"
BAD = [
    ("assign-shifted", "in", "f[X + d] = g[X];"), ("assign-shifted", "in", "f[X - e_x] = 1;"), ("assign-shifted", "in", "f[X + e_y] += g[X];"),
    ("assign-shifted", "in", "f[X + off] = g[X];"), ("assign-shifted", "in", "w[d][X + e_x] = g[X];"), ("assign-shifted", "in", "f[X + d] *= 2;"),
    ("assign-shifted", "in", "f[X + e_x + e_y] = g[X];"), ("assign-shifted", "in", "f[X + 2 * d] -= g[X];"), ("assign-shifted", "in", "f[X + d] /= 2;"),
    ("shifted-to-reference", "in", "setit(f[X + d]);"), ("shifted-to-reference", "in", "setout(f[X - e_x]);"), ("shifted-to-reference", "in", "setdeep(f[X + d]);"),
    ("shifted-to-reference", "in", "T &q = f[X + d]; q = 1;"),
    ("random-in-reference", "in", "f[X] = g[X + Direction((int)(hila::random() * 2))];"),
    ("random-in-reference", "in", "f[X] = g[X + off * (int)(hila::random() * 3)];"),
    ("random-in-reference", "in", "f[X] = g[X + randdir()];"),
    ("all-neighbour", "all", "f[X] = f[X + d];"), ("all-neighbour", "all", "f[X] += f[X - e_x];"), ("all-neighbour", "all", "g[X] = f[X + d]; f[X] = 1;"),
    ("all-neighbour", "all", "f[X] = 1; g[X] = f[X + d];"), ("all-neighbour", "all", "setit(f[X]); g[X] = f[X + d];"), ("all-neighbour", "all", "setout(f[X]); g[X] = f[X - d];"),
    ("all-neighbour", "all", "w[d][X] = w[d][X + d];"), ("all-neighbour", "all", "w[e_x][X] = g[X]; f[X] = w[e_x][X + e_y];"),
    ("all-neighbour", "all", "if (h[X] > 1) { f[X] = 2; } g[X] = f[X + e_x];"), ("all-neighbour", "all", "for (int i = 0; i < 2; i++) { f[X] -= g[X + e_x] * f[X + d]; }"),
    ("all-neighbour", "all", "T q = f[X + d]; f[X] = q + g[X];"), ("all-neighbour", "all", "f[X] = g[X] + useit(f[X + d]);"), ("all-neighbour", "all", "setdeep(f[X]); g[X] += f[X - e_x];"),
    ("change-outside", "in", "s = h[X];"), ("change-outside", "in", "n = 1;"), ("change-outside", "in", "n++; f[X] = g[X];"), ("change-outside", "in", "--n;"),
    ("change-outside", "in", "s /= 2;"), ("change-outside", "in", "s -= h[X];"), ("change-outside", "in", "s = s + h[X];"), ("change-outside", "in", "setd(s);"),
    ("change-outside", "in", "setod(s);"), ("change-outside", "in", "z.re = h[X];"), ("change-outside", "in", "v2.e(0) = h[X];"), ("change-outside", "in", "v2[0] = h[X];"),
    ("change-outside", "in", "*ptr = h[X];"), ("change-outside", "in", "gvar = k[X];"), ("change-outside", "in", "hglob = h[X];"), ("change-outside", "in", "double &q = s; q = h[X];"),
    ("change-outside", "in", "double *q = &s; *q = h[X];"), ("change-outside", "in", "setdeepd(s);"), ("change-outside", "in", "d = e_x;"), ("change-outside", "in", "off[e_x] = k[X];"),
    ("reduction", "in", "f[X] = red.value();"), ("reduction", "in", "red = h[X];"),
    ("reduction", "in", "rv[1] += h[X]; h2[X] = rv[0];"), ("reduction", "in", "rv[1] += h[X]; rv[0] *= 2;"),
    ("array", "in", "arr[1] = h[X];"), ("array", "in", "arr[k[X]] = h[X];"), ("array", "in", "arr[k[X]] += h[X];"), ("array", "in", "vec[1] = h[X];"), ("array", "in", "vec[k[X]] += h[X];"),
    ("nested-loop", "in", "onsites(EVEN) { f[X] = 1; }"), ("nested-loop", "in", "f[EVEN] = 1;"), ("nested-loop", "in", "onsites(ALL) f[X] = g[X];"),
    ("field-without-site", "in", "f = 1;"), ("field-without-site", "in", "h2[X] = h.sum();"), ("field-without-site", "in", "f[X] = 1; g = f;"),
    ("declaration", "in", "static int q = 0; f[X] = q;"), ("declaration", "in", "Field<T> q; f[X] = 1;"), ("declaration", "in", "std::vector<double> q(3); f[X] = 1;"),
    ("declaration", "in", "Reduction<double> q; f[X] = 1;"),
    ("outside-loop", "out", "f[X] = 1;"), ("outside-loop", "out", "s = h[X];"), ("outside-loop", "out", "if (h[X] > 1) s = 1;"), ("outside-loop", "out", "for (int i = 0; i < 2; i++) f[X] = g[X];"),
    ("outside-loop", "out", "s = useit(h[X + d]);"),
    ("parity-mismatch", "out", "f[EVEN] = g[ODD];"), ("parity-mismatch", "in", "f[X] = g[EVEN];"), ("parity-mismatch", "out", "f[p] = g[EVEN];"),
    ("all-neighbour-statement", "out", "f[ALL] = f[X + d];"), ("all-neighbour-statement", "out", "f[ALL] += g[X] * f[X - e_x];"),
    ("shifted-statement", "out", "f[ALL] = g[X + hila_none];"),
    ("loop-local-offset", "in", "CoordinateVector q; q[e_x] = 2; f[X] = g[X + q];"),
    ("loop-local-index", "in", "Direction q = Direction(k[X]); f[X] = w[q][X];"),
    ("address", "in", "T *q = &f[X]; *q = 1;"),
    ("site-selection", "in", "sel = X;"), ("site-selection", "in", "h2[X] = sel.size();"),
    ("function", "in", "h2[X] = withstatic_@(h[X]);"), ("function", "in", "h2[X] = withglobal_@(h[X]);"), ("function", "in", "h2[X] = modglobal_@(h[X]);"), ("function", "in", "h2[X] = deepglobal_@(h[X]);"),
    ("out_only", "in", "h2[X] = constout_@(h[X]);"), ("out_only", "in", "h2[X] = valueout_@(h[X]);"), ("function", "in", "h2[X] = setglobal_@(h[X]);"),
    ("function", "in", "h2[X] = thing_@().m(h[X]);"), ("function", "in", "thing2_@ q_@; h2[X] = q_@ + h[X];"), ("function", "in", "h2[X] = tmpl_@(h[X]);"),
    ("field-in-function", "in", "h2[X] = infield_@(h[X]);"),
    ("loop-parity", "out", "onsites(n) { f[X] = 1; }"), ("loop-parity", "out", "f[n] = 1;"), ("global-declaration", "out", "hila::global<int> q_@;"),
    ("neighbour-dependent", "in", "CoordinateVector q = off; q[e_x] = k[X]; f[X] = g[X + q];"),
    ("safe-pragma", "out", "\n#pragma hila safe_access(g)\n    onsites(ALL) { f[X] = f[X + d]; }\n"), ("safe-pragma", "out", "\n#pragma hila safe_access(h2)\n    onsites(ALL) { h[X] = h2[X + d]; h2[X] = h[X + e_x]; }\n"),
    ("setup-in-loop", "in", "lattice.setup(off); f[X] = 1;"),
    ("const-field", "in", "cf[X] = 1;"), ("const-field", "in", "cf[X] += g[X];"), ("const-field", "in", "setit(cf[X]);"),
]
BAD = [b for b in BAD if "hila_none" not in b[2]]
HELPERS = {
    "withstatic_": "inline double withstatic_@(double a) { static int n = 0; n++; return a + n; }\n",
    "withglobal_": "inline double withglobal_@(double a) { return a + gvar; }\n",
    "modglobal_": "inline double modglobal_@(double a) { gvar = 2; return a; }\n",
    "constout_": "inline double constout_@(out_only const double &a) { return a; }\n",
    "valueout_": "inline double valueout_@(out_only double a) { return a; }\n",
    "setglobal_": "inline double setglobal_@(double a) { gvar += 1; return a; }\n",
    "thing_": "struct thing_@ { double m(double a) { static int n = 0; n++; return a + n; } };\n",
    "thing2_": "struct thing2_@ { double v; thing2_@() { v = gvar; } operator double() const { return v; } };\n",
    "tmpl_": "template <typename Q> inline Q tmpl_@(const Q &a) { return a + gvar; }\n",
    "infield_": "static Field<double> *fp_@; inline double infield_@(double a) { return (*fp_@)[X] + a; }\n",
    "deepglobal_": "inline double deepglobal1_@(double a) { return a * gvar; }\ninline double deepglobal_@(double a) { return deepglobal1_@(a) + 1; }\n",
}
# statements which follow the rules; "in": inside a loop over any parity (fields a b c and reductions r1 r2 only)
GOOD_IN = ["a[X] = b[X];", "a[X] = b[X + d];", "a[X] += b[X - e_x] * 2;", "r1 += h3[X];", "r2 *= h3[X];", "if (h3[X] > 1) a[X] = b[X + e_y]; else a[X] = b[X];",
           "for (int i = 0; i < 3; i++) { if (i > 1) break; a[X] += b[X] * i; }", "T q_@ = b[X]; a[X] = q_@ + b[X];", "setit(a[X]);", "setout(a[X]);", "a[X] = useit(b[X + d]);",
           "a[X] = b[X + e_x + e_y];", "a[X] = b[X + off];", "if (X.parity() == EVEN) a[X] = 1;", "if (X.coordinate(e_x) > 1) { r1 += 1; }",
           "rv2[k[X] % 2 + 1] += h3[X];", "vecc[d][X] = b[X];", "if (hila::random() < 0.5) a[X] = 2;", "{ int n_@ = 0; n_@++; a[X] = n_@; }", "foralldir(dd) a[X] += b[X + dd];",
           "a[X] = arr[1] + vec[2];", "Direction q_@ = e_x; a[X] = b[X + q_@];", "sl.select(X);", "a[X] = lattice.volume();", "red3 += h3[X];",
           "a[X] = hglob() + gpar().a;", "h4[X] = gpar().b[1] * hglob.get() + h3[X];", "h4[X] = gpar.get().b[n];", "h4[X] = globfun(h3[X]);", "r1 += globfun(h3[X]) * gpar().b[k[X] % 2];"]
GOOD_EO = ["c[X] = c[X + d];", "c[X] += c[X - e_x] + c[X + e_y];", "setit(c[X]); a[X] = c[X + d];", "vecc[d][X] = vecc[d][X + e_x];"]
GOOD_OUT = ["\n#pragma hila safe_access(vecc, c)\n    onsites(ALL) { c[X] = c[X + d]; }\n", "\n#pragma hila safe_access(c)\n    onsites(ALL) { c[X] = c[X + d]; }\n", "a[ALL] = b[X + d];", "a[EVEN] = b[X];", "c[ODD] = c[X + d];", "a = b;", "s = 1; n++;", "arr[1] = n;", "a[p] += 2;", "foralldir(dd) { vecc[dd] = b; }", "s = h.sum();", "if (n > 1) { s += 2; off[e_x] = 1; }",
            "foralldir(dd) { if (dd != d) { onsites(p) a[X] += b[X + dd]; } }", "s = gvar;", "a[ALL] = b[X + e_x + e_y];", "d = e_x;"]
PRE = """#include "hila.h"
static int gvar = 3;
hila::global<double> hglob;
struct gpar_t { double a, b[2]; };
hila::global<gpar_t> gpar;
inline double globfun(double q) { return q * gpar.get().b[1] / hglob.get() + gpar().a; }
template <typename T> inline void setit(T &q) { q = 1; }
template <typename T> inline void setout(out_only T &q) { q = 1; }
template <typename T> inline void setdeep(T &q) { setit(q); }
template <typename T> inline T useit(const T &q) { return q; }
inline void setd(double &q) { q = 1; }
inline void setod(out_only double &q) { q = 1; }
inline void setdeepd(double &q) { setd(q); }
inline Direction randdir() { return hila::random() < 0.5 ? e_x : e_y; }
"""
PARAMS = ("Field<T> &f, Field<T> &g, Field<double> &h, Field<double> &h2, Field<int> &k, VectorField<T> &w, Field<T> &a, Field<T> &b, Field<T> &c, "
          "Field<double> &h3, Field<double> &h4, VectorField<T> &vecb, VectorField<T> &vecc, const Field<T> &cf, Direction d, Parity p")
LOCALS = ("    double s = 0, r1 = 0, r2 = 1; int n = 0; double arr[4] = {0}; std::vector<double> vec(4); Reduction<double> red = 0, red3 = 0; CoordinateVector off(0); double *ptr = &s;\n"
          "    ReductionVector<double> rv(4), rv2(4); rv = 0; rv2 = 0; SiteSelect sel, sl; Complex<double> z = 0; Vector<2, double> v2; v2 = 0; (void)ptr; (void)n;\n")
TYPES = ["double", "double", "float", "Complex<double>", "int"]


def good(r, g, n, eo, uid):
    out = []
    for _ in range(n):
        s = r.choice(GOOD_IN + (GOOD_EO * 3 if eo else []))
        uid[0] += 1
        out.append(s.replace("@", str(uid[0])))
    # the same field assigned with ALL and read at a neighbour would be a violation of its own: a, vecc only read at X by construction
    return out


def wrap(r, st, uid):
    """place a statement list inside ordinary control structure"""
    k = r.randrange(8)
    uid[0] += 1
    i = "i_%d" % uid[0]
    if k == 0:
        return "if (h3[X] > 0.5) { %s }" % st
    if k == 1:
        return "if (X.coordinate(e_x) == 1) { a[X] = b[X]; } else { %s }" % st
    if k == 2:
        return "for (int %s = 0; %s < 2; %s++) { %s }" % (i, i, i, st)
    if k == 3:
        return "{ %s }" % st
    if k == 4:
        return "{ int %s = 0; while (%s < 2) { %s++; %s } }" % (i, i, i, st)
    if k == 5:
        return "if (X.parity() == EVEN) { if (h3[X] < 2) { %s } }" % st
    return st


def loop(r, par, body, uid):
    lines = "".join("        %s\n" % b for b in body)
    k = r.randrange(5)
    if k == 0:
        return "    if (n < 5) {\n    onsites(%s) {\n%s    }\n    }\n" % (par, lines)
    if k == 1:
        uid[0] += 1
        return "    for (int l_%d = 0; l_%d < 2; l_%d++) {\n    onsites(%s) {\n%s    }\n    }\n" % (uid[0], uid[0], uid[0], par, lines)
    return "    onsites(%s) {\n%s    }\n" % (par, lines)


class Func:
    """one generated function: .text, .bad (rule it breaks or None), .call (text for main)"""


def function(r, num, bad):
    F = Func()
    F.bad = bad
    uid = [num * 1000]
    body = ""
    for _ in range(r.randrange(3)):
        if r.random() < .5:
            body += "    " + r.choice(GOOD_OUT) + "\n"
        else:
            par = r.choice(["ALL", "EVEN", "ODD", "p"])
            body += loop(r, par, good(r, None, r.randrange(1, 4), par in ("EVEN", "ODD"), uid), uid)
    pre = ""
    if bad:
        name, kind, st = bad
        for hn, ht in HELPERS.items():
            if hn in st:
                pre += ht.replace("@", str(num))
        st = st.replace("@", str(num))
        if kind == "out":
            if r.random() < .3 and not st.startswith("if"):
                st = "if (n == 0) { %s }" % st
            body += "    %s\n" % st
        else:
            par = {"all": "ALL", "in": r.choice(["ALL", "EVEN", "ODD", "p"])}[kind]
            bd = good(r, None, r.choice([0, 0, 1, 2]), False, uid) + [wrap(r, st, uid)] + good(r, None, r.choice([0, 0, 1, 2]), False, uid)
            body += loop(r, par, bd, uid)
    for _ in range(r.randrange(2) + (0 if bad else 1)):
        par = r.choice(["ALL", "EVEN", "ODD", "p"])
        body += loop(r, par, good(r, None, r.randrange(1, 4), par in ("EVEN", "ODD"), uid), uid)
    kind = r.choice(["plain", "plain", "template", "member", "static-member", "template-class"])
    F.kind = kind
    t = r.choice(TYPES)
    if kind == "plain":
        F.text = pre + "void t_%d(%s) {\n%s%s}\n" % (num, PARAMS, LOCALS, body)
        F.text = re.sub(r"\bT\b", t, F.text)      # (a macro for the type makes the translator stop in vector builds)
        F.call = "t_%d" % num
    elif kind == "template":
        F.text = pre + "template <typename T> void t_%d(%s) {\n%s%s}\n" % (num, PARAMS, LOCALS, body)
        F.call = "t_%d<%s>" % (num, t)
    elif kind in ("member", "static-member"):
        F.text = pre + "struct S_%d {\n    typedef %s T;\n    %svoid t(%s) {\n%s%s    }\n};\n" % (
            num, t, "static " if kind == "static-member" else "", PARAMS, LOCALS, body)
        F.call = ("S_%d::t" if kind == "static-member" else "S_%d().t") % num
    else:
        F.text = pre + "template <typename T> struct S_%d {\n    void t(%s) {\n%s%s    }\n};\n" % (num, PARAMS, LOCALS, body)
        F.call = "S_%d<%s>().t" % (num, t)
    F.type = t
    return F


def source(funcs):
    """text of the file and the line range of each function"""
    text, rng = PRE, []
    for F in funcs:
        a = text.count("\n") + 1
        text += F.text
        rng.append((a, text.count("\n")))
    text += ("template <typename T> struct Args { Field<T> f, g, a, b, c; Field<double> h, h2, h3, h4; Field<int> k; VectorField<T> w, vecb, vecc; };\n"
             "int main(int argc, char **argv) {\n    hila::initialize(argc, argv);\n    lattice.setup({8, 8});\n")
    for F in funcs:
        text += "    { Args<%s> z; %s(z.f, z.g, z.h, z.h2, z.k, z.w, z.a, z.b, z.c, z.h3, z.h4, z.vecb, z.vecc, z.f, e_x, EVEN); }\n" % (F.type, F.call)
    return text + "    hila::finishrun();\n}\n", rng


READ = ["rhs", "rhs_nb", "rhs_offset", "expr", "second", "cond", "inner", "sum", "sum_nb", "method_sum", "readfn", "cleared", "cleared_nb", "vector", "moved", "assign",
        "ctor_par", "unary", "reflect", "squarenorm", "dot"]
STOP = ["ctor", "get_element", "get_elements", "get_slice", "shift", "write"]        # these only have to stop
RNGS = ["rng", "rng_gauss", "rng_cond", "rng_deep", "rng_inner", "rng_red", "rng_method", "rng_site"]
FINE = ["nothing", "ok_out", "ok_parity", "ok_parity_nb", "ok_copy", "ok_unused", "ok_vector", "ok_element"]
KNOWN = ["one_parity", "one_parity_nb", "plusassign"]


class C(Check):
    pid = "P21"
    rule = ("a translator case is one generated function with at most one broken rule, in a file of about ten; a run-time case is one program run; "
            "non-trivial: a rule is broken (refusal required)")
    assumptions = ["the rules are those the translator documents or enforces; jumps out of a loop, scalar variables both reduced and read, and changes through lambdas are not refused and not claimed",
                   "run time: a field counts as assigned once it has been written in any loop (also component by component)"]

    def plan(self):
        p = {"v2": ("vanilla", 2), "a2": ("avx2", 2), "o2": ("openmp", 2)}
        if self.thorough():
            p.update({"v3": ("vanilla", 3), "v4": ("vanilla", 4)})
        return p

    def programs(self):
        return {k: build.program("p21" + k, [H + "/p21.cpp"], v, nd, [], [H]) for k, (v, nd) in self.plan().items()}

    # ---- the translator
    def translate(self, funcs, var, nd, d):
        text, rng = source(funcs)
        src, out = d + "/loops.cpp", d + "/loops.cpt"
        for p in (src, out):
            if os.path.exists(p):
                os.unlink(p)
        with open(src, "w") as f:
            f.write(text)
        rc, log = build.translate(src, out, var, nd)
        errs = [int(m.group(1)) for m in re.finditer(r"loops\.cpp:(\d+):\d+: (?:fatal )?error:", log)]
        return rc, os.path.exists(out) and os.path.getsize(out) > 0, errs, rng, log, text

    def judge(self, funcs, var, nd, d):
        """None, or (what, function index or None, text, log)"""
        rc, written, errs, rng, log, text = self.translate(funcs, var, nd, d)
        anybad = any(F.bad for F in funcs)
        if (rc < 0 or rc >= 128) and anybad and not written:
            self.stats["translator_aborted"] += 1       # refused all the same
            return None
        loglines = " | ".join(l for l in log.split("\n") if "error" in l)[:600]
        for i, (F, (a, b)) in enumerate(zip(funcs, rng)):
            n = sum(1 for e in errs if a <= e <= b)
            if F.bad and not n:
                return "a loop which breaks a rule (%s: %s) was not refused" % (F.bad[0], F.bad[2]), i, text, loglines
            if not F.bad and n:
                return "a function which follows the rules was refused", i, text, loglines
        if anybad and rc == 0:
            return "errors were found but the translator's exit status is 0", None, text, loglines
        if anybad and written:
            return "errors were found but output was written", None, text, loglines
        if not anybad and (rc or errs or not written):
            return "a file which follows the rules was refused", None, text, loglines
        return None

    def one_file(self, seed, var, nd):
        r = random.Random("P21-%s" % seed)
        nbad = r.choice([0, 1, 1, 2, 3, 4, 4])
        kinds = [True] * nbad + [False] * (r.choice([4, 6, 8]) if nbad == 0 else r.choice([0, 2, 4]))
        r.shuffle(kinds)
        deck = list(BAD)        # every broken rule is used about equally often
        random.Random("P21-deck-%d" % self.seed).shuffle(deck)
        at = 4 * int(seed.split("-")[-1])
        funcs = [function(r, i, deck[(at + i) % len(deck)] if k else None) for i, k in enumerate(kinds)]
        if nbad and not any(kinds):
            return funcs, None
        d = tempfile.mkdtemp(prefix="p21_", dir=build.workdir())
        try:
            bad = self.judge(funcs, var, nd, d)
            if bad and len(funcs) > 1:
                # alone in its file, the function has to give the same verdict (errors elsewhere can hide one)
                i = bad[1]
                cands = [[funcs[i]]] if i is not None else [[F] for F in funcs]
                if not any(F.bad for F in funcs):
                    cands = [[F] for F in funcs] + [funcs]
                for c in cands:
                    b2 = self.judge(c, var, nd, d)
                    if b2:
                        return funcs, (b2, c)
                return funcs, ("hidden" if i is not None else (bad, funcs))
            return funcs, (bad, funcs) if bad else None
        finally:
            shutil.rmtree(d, ignore_errors=True)

    # ---- the run
    def scenario(self, name, spec, np, size, env, seeded):
        d = tempfile.mkdtemp(prefix="p21_", dir=build.workdir())
        try:
            e = dict(env, HV_SIZE=",".join(map(str, size)), HV_SCEN="%s %d" % (spec, seeded))
            rc, out = mpirun(self.exes[name], np, [], e, d, 90)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return rc, out

    def judge_run(self, scen, rc, out):
        done = "SCENARIO-DONE" in out
        if "VALID-DONE" not in out:
            return None if any(t in out for t in ("Could not successfully lay out", "Lattice must be even", "CANNOT HAPPEN")) else "valid field operations did not finish"
        if scen in FINE:
            return None if rc == 0 and done else "a program which only reads assigned fields did not finish normally"
        if done or rc == 0:
            return "the program was not stopped"
        if rc is None:
            return "the program hangs"
        if scen in READ and "is not properly initialized" not in out:
            return "the program stopped without the message about the field"
        if scen in RNGS and "without initializing the generator" not in out:
            return "the program stopped without the message about random numbers"
        return None

    def extra(self):
        rng = random.Random("P21x-%d" % self.seed)
        nfile = 1500 if self.thorough() else 100
        plan = self.plan()
        jobs = []
        for i in range(nfile):
            name = rng.choice(list(plan))
            jobs.append(("%d-%d" % (self.seed, i), plan[name][0], rng.choice([2, 3, 4]) if self.thorough() else rng.choice([2, 2, 3])))
        runs = []
        for i in range(600 if self.thorough() else 80):
            name = rng.choice(list(plan))
            var, nd = plan[name]
            scen = (READ + FINE + RNGS + READ + FINE + RNGS + STOP)[i % (2 * len(READ + FINE + RNGS) + len(STOP))]
            t = "complex" if scen == "rng_site" else rng.choice(["double", "double", "float", "complex", "matrix"])
            if t == "matrix" and scen in ("cond", "rng_gauss"):
                t = "complex"
            seeded = 0 if scen in RNGS or rng.random() < .6 else rng.randrange(1, 1 << 20)
            size = {2: [(8, 8), (8, 6), (16, 8)], 3: [(4, 4, 4), (8, 4, 4)], 4: [(4, 4, 4, 4)]}[nd]
            runs.append((name, scen, "%s %s %d %d %d %d" % (t, scen, rng.choice([1, 2, 3]), rng.randrange(4), rng.randrange(1 << 30), rng.choice([0, 1, 3, 8])),
                         rng.choice([1, 1, 2, 4]), (16, 16) if nd == 2 and var == "avx2" else rng.choice(size), {"OMP_NUM_THREADS": "2"} if var == "openmp" else {}, seeded))
        with cf.ThreadPoolExecutor(12) as ex:
            fr = [(a, ex.submit(self.scenario, a[0], a[2], a[3], a[4], a[5], a[6])) for a in runs]
            fs = [(a, ex.submit(self.one_file, *a)) for a in jobs]
            for a, q in fs:
                funcs, bad = q.result()
                for i, F in enumerate(funcs):
                    self.record("%s %d" % (a, i), bool(F.bad), ["rule=" + F.bad[0] if F.bad else "rule=none", "in=" + F.kind, "target=" + a[1]], "%s: %s" % (a[1], F.text))
                if bad == "hidden":
                    self.stats["hidden_by_other_errors"] += 1
                elif bad:
                    (what, i, text, log), fl = bad
                    self.violation("%s (target %s, NDIM=%d); messages: %s" % (what, a[1], a[2], log or "none"),
                                   dict(variant=a[1], ndim=a[2], source=text, bad=[F.bad for F in fl]))
            for a, q in fr:
                rc, out = q.result()
                w = self.judge_run(a[1], rc, out)
                self.record("run " + str(a), a[1] not in FINE, ["run=" + a[1], "np=%d" % a[3]], "%s %s np=%d" % (a[0], a[2], a[3]))
                if w:
                    rs = [self.judge_run(a[1], *self.scenario(a[0], a[2], a[3], a[4], a[5], a[6])) for _ in range(2)]
                    if all(rs):
                        self.violation("%s: %s np=%d: %s: exit status %s: %s" % (a[0], a[2], a[3], w, rc, out[-500:]), dict(run=list(a)))
                    else:
                        self.stats["not_reproduced"] += 1

    def replay_known(self):
        n = 0
        for s in KNOWN:
            rc, out = self.scenario("v2", "double %s 1 0 1 0" % s, 1, (8, 8), {}, 0)
            n += "VALID-DONE" in out and rc == 0
        if n:
            self.known_hits.append("a field which has been allocated counts as assigned on both parities: reading the parity which was never assigned, "
                                   "or f[X] += on a field never assigned, is not stopped (field.h allocate(), mark_changed(ALL))")

    def replay_data(self, j):
        d = j["data"]
        if "run" in d:
            a = d["run"]
            rc, out = self.scenario(a[0], a[2], a[3], a[4], a[5], a[6])
            w = self.judge_run(a[1], rc, out)
        else:
            t = tempfile.mkdtemp(prefix="p21_", dir=build.workdir())
            src, o = t + "/loops.cpp", t + "/loops.cpt"
            open(src, "w").write(d["source"])
            rc, log = build.translate(src, o, d["variant"], d["ndim"])
            w = None
            if any(d["bad"]) and (rc == 0 or os.path.exists(o)):
                w = "not refused"
            if not any(d["bad"]) and rc:
                w = "refused: " + log[-500:]
            shutil.rmtree(t, ignore_errors=True)
        if w:
            print("P21: %s" % w)
            print("VIOLATION property=P21 replay=%s" % os.environ.get("HV_REPLAY", "given"))
            return 1
        print("P21: the replayed case passes")
        return 0
