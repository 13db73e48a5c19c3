"""P15: group-valued types against the long double matrix representation."""
from hv import build
from hv.run import Check, Config

H = build.VERIF + "/harness"
TY = ["Sun<2, double>", "Sun<3, double>", "Sun<4, double>", "Su2<double>", "Su2<float>", "U1t<double>", "Sun<3, float>",
      "Sun<5, double>", "U1t<float>", "Sun<2, float>"]
QUICK = (0, 1, 3, 4, 5, 6)


def program(name, variant, types):
    srcs = [("gr_t%d" % i, '#include "groups.h"\nvoid run_g%d(const hv::Case &c) { gr::%s::runcase(c); }\n' % (i, TY[i])) for i in types]
    main = '#include "disp.h"\n' + "".join("void run_g%d(const hv::Case &c);\n" % i for i in types) + \
        "int main(int argc, char **argv) {\n hila::initialize(argc, argv);\n lattice.setup(hv::size_vector());\n" \
        " hila::seed_random(91);\n hv::run([](const hv::Case &c) { dispatch(c, {%s}); });\n hila::finishrun();\n return 0;\n}\n" % \
        ", ".join("run_g%d" % i if i in types else "nullptr" for i in range(len(TY)))
    return build.program(name, srcs + [("gr_main", main)], variant, 2, [], [H])


class C(Check):
    pid = "P15"
    rule = ("a case loads fields of group and algebra elements (random, near one, centre, permutation, diagonal, single generator) "
            "and applies 1-8 operations in site loops; every site is compared with the matrix representation, so every case is non-trivial")
    assumptions = ["matrices to be reunitarised are at most 0.3 off a group element",
                   "exp of large algebra elements is a series of order 20, as documented",
                   "the matrix representation is evaluated in long double; errors of a small multiple of N times the rounding unit are allowed"]

    def plan(self):
        p = {"v": ("vanilla", QUICK), "a": ("avx2", (1, 3, 5))}
        if self.thorough():
            al = tuple(range(len(TY)))
            p = {"v": ("vanilla", al), "a": ("avx2", al), "s": ("asan", al), "o": ("openmp", QUICK)}
        return p

    def programs(self):
        return {k: program(k, *v) for k, v in self.plan().items()}

    def load(self, r, t):
        return "load %d %g %d %d %g %d" % (r.choice([0, 0, 1, 1, 2, 3, 4, 5, 6] + ([7] if "Su2" in TY[t] else [])), r.choice([1e-9, 1e-4, 0.1, 1, 1, 3]),
                                           r.choice([0, 0, 1, 1, 2, 3, 4, 5, 6]), r.choice([0, 0, 0, 1, 2, 3, 4]),
                                           r.choice([1e-9, 1e-4, 0.1, 0.5, 1, 1, 2]), r.randrange(1 << 40))

    def ops(self, r, t):
        ty, sd = TY[t], r.randrange(1 << 40)
        out = []
        for _ in range(r.choice([1, 2, 4, 8])):
            out.append(self.load(r, t))
            if ty.startswith("U1"):
                out.append("u1 %d" % r.randrange(9))
            elif ty.startswith("Su2"):
                o = r.choice("arith arith convert exp exp alg alg conj log norm host".split())
                ld = out[-1].split()
                if o in ("conj", "log", "norm") and ld[1] == "7":
                    ld[1] = "0"
                    out[-1] = " ".join(ld)
                n = {"arith": 8, "exp": 5, "alg": 7, "conj": 2, "norm": 4}.get(o, 1)
                out.append({"host": "host %d" % sd, "norm": "norm %d %g %d" % (r.randrange(4), r.choice([0, 1e-6, 0.1]), sd)}.get(o, "%s %d" % (o, r.randrange(n))))
            else:
                o = r.choice("exp exp proj proj round reunit reunit rnd log log conj prod prod gens bilin bilin".split())
                if o == "exp":
                    out.append("exp %d" % r.randrange(5))
                elif o == "proj":
                    out.append("proj %d %d %g %d" % (r.randrange(4), r.choice([0, 0, 1, 3, 6, 12]), r.choice([1, 1, 1e-3, 30]), sd))
                elif o == "reunit":
                    out.append("reunit %d %g %d" % (r.randrange(3), r.choice([0, 1e-10, 1e-4, 0.05, 0.1]), sd))
                elif o == "rnd":
                    out.append("rnd %d %d" % (r.randrange(3), r.choice([1, 3, 16, 17, 32])))
                elif o == "bilin":
                    out.append("bilin %d %d" % (r.randrange(6), sd))
                else:
                    out.append("%s %d" % (o, {"conj": r.randrange(2), "prod": r.randrange(5)}.get(o, 0)))
        return out

    def jobs(self, rng, tier):
        jobs, n = [], 0
        for rd in range(60 if self.thorough() else 20):
            for k, (var, types) in self.plan().items():
                for t in types:
                    cases = []
                    for _ in range(25):
                        n += 1
                        cases.append(("c%d" % n, ["type %d" % t] + self.ops(rng, t)))
                    jobs.append((Config(k, rng.choice([1, 1, 2]), (8, 8), {"OMP_NUM_THREADS": "3"} if var == "openmp" else {}), cases))
        return jobs

    def keep(self, line):
        return line.startswith("type")

    def valid(self, lines):
        return len(lines) > 1 and lines[1].startswith("load")
