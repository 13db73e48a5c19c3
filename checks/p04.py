"""P04: reductions against serial sums."""
from hv import build
from hv.run import Check, Config
from p02 import fits

H = build.VERIF + "/harness"
TYPES = [("int", 1), ("int64_t", 1), ("float", 1), ("double", 1), ("Complex<double>", 0), ("Vector<3, float>", 0),
         ("SquareMatrix<2, Complex<float>>", 0)]
QUICK = {"v3": (0, 1, 3, 4, 5), "v2": (1, 2, 6), "a3": (0, 2, 3, 4), "o2": (0, 3, 4)}


def program(name, variant, ndim, types, defs=()):
    srcs = [("rd_t%d" % i, '#define RD_SCALAR %d\n#include "reds.h"\nvoid run_t%d(const hv::Case &c) { rd::Red<%s>::runcase(c); }\n' % (TYPES[i][1], i, TYPES[i][0]))
            for i in types]
    main = '#include "disp.h"\n' + "".join("void run_t%d(const hv::Case &c);\n" % i for i in types) + \
        "int main(int argc, char **argv) {\n hila::initialize(argc, argv);\n lattice.setup(hv::size_vector());\n" \
        " hv::run([](const hv::Case &c) { dispatch(c, {%s}); });\n hila::finishrun();\n return 0;\n}\n" % \
        ", ".join("run_t%d" % i if i in types else "nullptr" for i in range(len(TYPES)))
    return build.program(name, srcs + [("rd_main", main)], variant, ndim, list(defs), [H])


class C(Check):
    pid = "P04"
    rule = "a case loads two fields and performs 2-15 reductions or reduction-object operations; all are non-trivial"
    assumptions = ["integer-valued (products: power-of-two) elements, so that every summation order is exact",
                   "a delayed or non-blocking result is only read after value(), reduce() or a later blocking loop"]

    def plan(self):
        p = {"v3": ("vanilla", 3), "v2": ("vanilla", 2), "a3": ("avx2", 3), "o2": ("openmp", 2)}
        if self.thorough():
            p.update({"v4": ("vanilla", 4), "a2": ("avx2", 2), "a4": ("avx2", 4), "o3": ("openmp", 3), "s3": ("asan", 3)})
        return p

    def types(self, k):
        return tuple(range(len(TYPES))) if self.thorough() else QUICK[k]

    def programs(self):
        return {k: program(k, v[0], v[1], self.types(k)) for k, v in self.plan().items()}

    SIZES = {2: [(4, 4), (8, 6), (2, 8), (16, 4), (6, 10), (12, 2)],
             3: [(4, 4, 4), (6, 4, 2), (8, 6, 4), (2, 2, 8), (4, 2, 10)],
             4: [(4, 4, 4, 4), (2, 4, 2, 6), (6, 2, 2, 4)]}
    ASIZES = {2: [(16, 16), (8, 16), (32, 8)], 3: [(8, 8, 8), (16, 8, 4), (4, 8, 16)],
              4: [(4, 4, 4, 8), (8, 8, 4, 4)]}

    def gen(self, r, nd, t):
        sc = TYPES[t][1]
        flt = TYPES[t][0] in ("float", "Vector<3, float>", "SquareMatrix<2, Complex<float>>")
        rng = 30 if flt else 1000
        if TYPES[t][0] == "int64_t" and r.random() < .5:
            rng = 1 << 40

        def sd():
            return r.randrange(1 << 40)
        out = ["type %d" % t, "load 0 %d %d" % (sd(), rng), "load 1 %d %d" % (sd(), rng)]
        hasr = hasv = pend = False
        for _ in range(r.choice([2, 4, 8, 15])):
            o = r.choice("sum sum sum R R R R V V V prod mm mm vprod load".split())
            par = r.choice([1, 2, 3, 3])
            if o == "load":
                out.append("load %d %d %d" % (r.randrange(2), sd(), rng))
            elif o == "sum":
                form = r.randrange(8)
                if form == 7 and rng > 1000:
                    form = 6
                out.append("sum %d %d %d %d %d" % (form, par, r.random() < .8, sd(), r.randrange(2 * nd)))
            elif o == "prod" and sc:
                out.append("prod %d %d %d %d" % (r.randrange(2), par, r.random() < .8, sd()))
                out.append("load 1 %d %d" % (sd(), rng))
            elif o == "mm" and sc:
                out.append("mm %d %d %d" % (par, r.randrange(6), sd()))
                out.append("load 1 %d %d" % (sd(), rng))
            elif o == "vprod" and sc:
                out.append("vprod %d %d %d %d %d %d" % (r.choice([1, 2, 5]), r.random() < .7, r.randrange(2), r.randrange(2), sd(), r.choice([1, 2])))
                out.append("load 1 %d %d" % (sd(), rng))
            elif o == "R":
                if not hasr or r.random() < .15:
                    out.append("rnew %d %d %d %d" % (r.random() < .7, r.randrange(2), r.randrange(2), r.choice([-1, sd()])))
                    hasr = True
                for _ in range(r.randint(1, 3)):
                    out.append("rloop %d %d %d" % (r.choice([1, 2, 3]), r.randrange(2), r.random() < .4))
                k = r.random()
                if k < .2:
                    out.append("rstart")
                if k < .6:
                    out.append("rval")
                elif k < .8:
                    out.append("rset %d" % sd())
                    out.append("rloop %d %d 0" % (par, r.randrange(2)))
                    if r.random() < .8:
                        out.append("rval")
            elif o == "V":
                if not hasv or r.random() < .15:
                    out.append("vnew %d %d %d %d %d" % (r.choice([1, 3, 7, 20]), r.random() < .7, r.randrange(2), r.randrange(2), r.choice([-1, sd()])))
                    hasv = True
                for _ in range(r.randint(1, 3)):
                    out.append("vloop %d %d %d %d" % (r.choice([1, 2, 3]), r.randrange(2), r.randrange(4), r.randrange(4)))
                k = r.random()
                if k < .15:
                    out.append("vstart")
                if k < .5:
                    out.append("vval")
                    if r.random() < .2:
                        out.append("vsize %d %d" % (r.choice([2, 5, 9, 9999]), sd()))
                elif k < .8:
                    out.append("vset %d" % r.choice([-1, sd()]))
                    if r.random() < .5:
                        out.append("vval")
        if hasr:
            out.append("rval")
        if hasv:
            out.append("vval")
        return out

    def jobs(self, rng, tier):
        jobs, n = [], 0
        for rd in range(60 if self.thorough() else 5):
            for k, (var, nd) in self.plan().items():
                for np in (1, 2, 3, 4, 6) if var != "avx2" else (1, 2, 4):
                    sz = rng.choice(self.ASIZES[nd] if var == "avx2" else self.SIZES[nd])
                    if not fits(sz, np, var):
                        continue
                    cases = []
                    for _ in range(30):
                        n += 1
                        cases.append(("r%d" % n, self.gen(rng, nd, rng.choice(self.types(k)))))
                    jobs.append((Config(k, np, sz, {"OMP_NUM_THREADS": "3"} if var == "openmp" else {}), cases))
        return jobs

    def keep(self, line):
        return line.split()[0] in ("type", "load", "rnew", "vnew")

    def valid(self, lines):
        return True

    def shrink_cfgs(self, cfg):
        return [Config(cfg.prog, np, cfg.size, cfg.env) for np in range(cfg.np - 1, 0, -1)]
