"""P06: Fourier transforms and reflections against serial sums."""
from hv import build
from hv.run import Check, Config
from p02 import fits

H = build.VERIF + "/harness"
CT = ["Complex<double>", "Complex<float>", "Vector<3, Complex<double>>", "SquareMatrix<2, Complex<float>>", "Array<2, 3, Complex<double>>", "SU<2, double>"]
RT = ["double", "int", "Vector<5, float>"]
NT = len(CT) + len(RT)
QUICK = {"v3": (0, 1, 2, 6, 8), "v2": (0, 3, 7), "a3": (1, 2, 8), "v4": (4,)}


def tname(i):
    return "Fc<%s>" % CT[i] if i < len(CT) else "Fr<%s>" % RT[i - len(CT)]


def program(name, variant, ndim, types):
    srcs = [("ft_t%d" % i, '#include "ffts.h"\nvoid run_t%d(const hv::Case &c) { ff::%s::runcase(c); }\n' % (i, tname(i))) for i in types]
    main = '#include "disp.h"\n' + "".join("void run_t%d(const hv::Case &c);\n" % i for i in types) + \
        "int main(int argc, char **argv) {\n hila::initialize(argc, argv);\n lattice.setup(hv::size_vector());\n" \
        " hv::run([](const hv::Case &c) { dispatch(c, {%s}); });\n hila::finishrun();\n return 0;\n}\n" % \
        ", ".join("run_t%d" % i if i in types else "nullptr" for i in range(NT))
    return build.program(name, srcs + [("ft_main", main)], variant, ndim, [], [H])


class C(Check):
    pid = "P06"
    rule = "a case loads a field and applies 1-6 transforms, reflections or shifts to it, each compared site by site; all are non-trivial"
    assumptions = ["forward is exp(-ikx), as implemented and as in the tests (docs/field.dox prints the opposite sign)",
                   "rounding error below 3e-13 (double) or 3e-6 (float) of the norm of the transformed component per transform",
                   "complex-to-real transforms only on even lattices, as the code demands"]

    def plan(self):
        p = {"v3": ("vanilla", 3), "v2": ("vanilla", 2), "a3": ("avx2", 3), "v4": ("vanilla", 4)}
        if self.thorough():
            p.update({"a2": ("avx2", 2), "a4": ("avx2", 4), "o3": ("openmp", 3), "s3": ("asan", 3), "s2": ("asan", 2)})
        return p

    def types(self, k):
        return tuple(range(NT)) if self.thorough() else QUICK[k]

    def programs(self):
        return {k: program(k, v[0], v[1], self.types(k)) for k, v in self.plan().items()}

    SIZES = {2: [(4, 4), (8, 6), (5, 7), (16, 4), (6, 10), (12, 3), (9, 2), (30, 7)],
             3: [(4, 4, 4), (6, 4, 2), (8, 6, 4), (3, 5, 7), (4, 2, 10), (9, 4, 5), (2, 12, 3), (8, 8, 8)],
             4: [(4, 4, 4, 4), (2, 4, 2, 6), (3, 2, 5, 4), (6, 3, 4, 2)]}
    ASIZES = {2: [(16, 16), (8, 16), (32, 8)], 3: [(8, 8, 8), (16, 8, 4), (4, 8, 16)],
              4: [(4, 4, 4, 8), (8, 8, 4, 4)]}

    def gen(self, r, nd, t):
        out = ["type %d" % t]
        if t >= len(CT):
            out.append("load %d" % r.randrange(1 << 40))
            for _ in range(r.choice([1, 2, 3])):
                out.append("reflect %d %d" % (r.randrange(1, 1 << nd) if r.random() < .9 else 0, r.randrange(3)))
            out.append("k %d" % r.randrange(1 << 40))
            return out
        out.append("load %d %d" % (r.randrange(1 << 40), r.choice([0, 0, 1, 2, 3, 4])))
        for _ in range(r.choice([1, 1, 2, 3, 6])):
            o = r.choice("fft fft fft fft round reflect shift c2r r2c load".split())
            m = r.choice([(1 << nd) - 1, r.randrange(1 << nd), 1 << r.randrange(nd)])
            if o == "fft":
                out.append("fft %d %d %d %d" % (m, r.randrange(2), r.randrange(6), r.randrange(2)))
            elif o == "round":
                out.append("round %d %d" % (m, r.randrange(2)))
            elif o == "reflect":
                out.append("reflect %d %d" % (m, r.randrange(3)))
            elif o == "shift":
                out.append("shift %d" % r.randrange(nd))
            elif o == "load":
                out.append("load %d %d" % (r.randrange(1 << 40), r.choice([0, 1, 2, 3, 4])))
            elif t < 2:
                out.append("%s %d" % (o, r.randrange(2)))
        return out if len(out) > 2 else out + ["fft %d 0 0 1" % ((1 << nd) - 1)]

    def jobs(self, rng, tier):
        jobs, n = [], 0
        for rd in range(60 if self.thorough() else 12):
            for k, (var, nd) in self.plan().items():
                for np in (1, 2, 3, 4, 6) if var != "avx2" else (1, 2, 4):
                    sz = rng.choice(self.ASIZES[nd] if var == "avx2" else self.SIZES[nd])
                    if not fits(sz, np, var):
                        continue
                    cases = []
                    for _ in range(25):
                        n += 1
                        cases.append(("f%d" % n, self.gen(rng, nd, rng.choice(self.types(k)))))
                    jobs.append((Config(k, np, sz, {"OMP_NUM_THREADS": "3"} if var == "openmp" else {}), cases))
        return jobs

    def keep(self, line):
        return line.split()[0] in ("type",)

    def valid(self, lines):
        return len(lines) > 1 and lines[1].startswith("load")

    def shrink_cfgs(self, cfg):
        return [Config(cfg.prog, np, cfg.size, cfg.env) for np in range(cfg.np - 1, 0, -1)]
