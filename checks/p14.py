"""P14: matrix decompositions and functions against their defining equations."""
from hv import build
from hv.run import Check, Config

H = build.VERIF + "/harness"
TY = [(2, "double"), (3, "Complex<double>"), (4, "Complex<float>"), (5, "double"), (7, "Complex<double>"), (6, "float"),
      (2, "Complex<double>"), (3, "float"), (3, "int"), (5, "int"), (4, "Complex<double>"), (8, "double")]
QUICK = (0, 1, 2, 3, 5, 6, 9)


def program(name, variant, types):
    srcs = [("la_t%d" % i, ("#define LA_INT\n" if TY[i][1] == "int" else "") +
             '#include "linalg.h"\nvoid run_t%d(const hv::Case &c) { la::Lin<%d, %s>::runcase(c); }\n' % ((i,) + TY[i])) for i in types]
    main = '#include "disp.h"\n' + "".join("void run_t%d(const hv::Case &c);\n" % i for i in types) + \
        "int main(int argc, char **argv) {\n hila::initialize(argc, argv);\n lattice.setup(hv::size_vector());\n" \
        " hv::run([](const hv::Case &c) { dispatch(c, {%s}); });\n hila::finishrun();\n return 0;\n}\n" % \
        ", ".join("run_t%d" % i if i in types else "nullptr" for i in range(len(TY)))
    return build.program(name, srcs + [("la_main", main)], variant, 2, [], [H])


class C(Check):
    pid = "P14"
    rule = "a case applies 1-8 decompositions or matrix functions to generated matrices; non-trivial: at least one of them is not zero"
    assumptions = ["matrices of 2 x 2 and more; singular and nearly singular ones are left out of LU solutions and inverses",
                   "equations are evaluated in long double; allowed error is a small multiple of n times the rounding unit of the "
                   "element type, times the condition of the problem (norms, condition number, exponential of the norm)",
                   "chsexp and altexp without internal scaling only up to norms 1.5 and 2.2"]

    def plan(self):
        p = {"v": ("vanilla", QUICK), "s": ("asan", (1, 5))}
        if self.thorough():
            p = {"v": ("vanilla", tuple(range(len(TY)))), "s": ("asan", tuple(range(len(TY)))), "a": ("avx2", QUICK)}
        return p

    def programs(self):
        return {k: program(k, *v) for k, v in self.plan().items()}

    def op(self, r, t):
        n, ty = TY[t]
        sc = r.choice([1, 1, 1, 0.3, 3, 1e-3, 1e4])
        seed = r.randrange(1 << 40)
        kind = r.choice([0, 0, 0, 0] + list(range(1, 15)))
        if ty == "int":
            return "det %d 1 %d" % (r.choice([4, 6, 6, 6, 8, 2, 3]), seed)
        o = r.choice(["det", "eig", "eig", "svd", "svd", "lu", "lu", "exp", "exp", "dexp", "dpc"])
        if o == "det":
            return "det %d %g %d" % (kind, sc, seed)
        if o == "eig":
            return "eig %d %g %d %d %d" % (kind, sc, seed, r.randrange(3), r.randrange(3))
        if o == "svd":
            return "svd %d %g %d %d %d" % (kind, sc, seed, r.randrange(4), r.randrange(3))
        if o == "lu":
            return "lu %d %g %d %d" % (kind, sc, seed, r.randrange(4))
        if o == "dpc":
            return "dpc 0 1 %d" % seed
        if o == "exp":
            return "exp %d %g %d %d %d" % (kind, sc, seed, r.randrange(6), r.choice([0, 1, 2, 3, 6, 11, 20]))
        return "dexp %d %g %d %d 0" % (kind, r.choice([1, 0.1, 0.01, 2]), seed, r.randrange(4))

    def jobs(self, rng, tier):
        jobs, n = [], 0
        for rd in range(60 if self.thorough() else 24):
            for k, (var, types) in self.plan().items():
                for t in types:
                    cases = []
                    for _ in range((120 if var != "asan" else 30) if TY[t][0] < 5 else 50):
                        n += 1
                        cases.append(("c%d" % n, ["type %d" % t] + [self.op(rng, t) for _ in range(rng.choice([1, 1, 2, 4, 8]))]))
                    jobs.append((Config(k, 1, (8, 8)), cases))
        return jobs

    def keep(self, line):
        return line.startswith("type")
