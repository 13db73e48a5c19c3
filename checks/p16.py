"""P16: ExtendedPrecision against exact (fixed-point) arithmetic."""
from hv import build
from hv.run import Check, Config

H = build.VERIF + "/harness"
RANGE = {"i": (-2**31 + 1, 2**31 - 1), "u": (0, 2**32 - 1), "l": (-2**52, 2**52), "ul": (0, 2**52), "s": (-2**15, 2**15 - 1),
         "us": (0, 2**16 - 1), "b": (0, 1)}


def program(variant, ndim):
    return build.program("p16", [H + "/p16.cpp"], variant, ndim, [], [H])


class C(Check):
    pid = "P16"
    rule = ("a case applies 1-14 operations (assignments, sums, differences, products with integers, comparisons, lattice sums) to six "
            "extended-precision registers and compares every register with an exact value after every operation, so every case is non-trivial")
    assumptions = ["integers added are below 2^53 in size (they are converted to double first)",
                   "no overflow or underflow: magnitudes between 1e-150 and 1e150",
                   "the value may be off by 8 (n+4)^2 2^-159 times the sum of magnitudes after n additions, plus one rounding in to_double"]

    def plan(self):
        p = {"v": ("vanilla", 2), "a": ("avx2", 2), "o": ("openmp", 2)}
        if self.thorough():
            p.update({"s": ("asan", 2), "v3": ("vanilla", 3), "v1": ("vanilla", 1)})
        return p

    def programs(self):
        return {k: program(*v) for k, v in self.plan().items()}

    def num(self, r, small=False):
        t = r.choice(["d", "d", "f", "i", "u", "l", "ul", "s", "us", "b"])
        if t in ("d", "f"):
            v = r.choice([0.0, 1.0, -1.0, 0.1, r.uniform(-10, 10), r.uniform(-1, 1) * 10.0 ** r.randint(-20, 20), float(r.randint(-1000, 1000))])
            return t, repr(v) if t == "d" else "%.6g" % v
        lo, hi = RANGE[t]
        v = r.choice([0, 1, 2, 3, hi, lo, hi - 1, r.randint(lo, hi), r.randint(max(lo, -100), min(hi, 100)), 2 ** r.randint(0, 30) if hi > 2**30 else 1])
        if small:
            v = min(hi, max(lo, v))
        return t, str(v)

    def factor(self, r):
        t = r.choice(["i", "i", "u", "l", "ul", "s", "us", "b"])
        lo, hi = RANGE[t]
        if t == "i":
            lo = -2**31
        v = r.choice([0, 1, 2, 3, -1, -2, -3, 5, 7, 12, 1000, lo, hi, hi - 1, lo + 1, r.randint(lo, hi), r.randint(lo, hi),
                      2 ** r.randint(0, 40) + r.choice([-1, 0, 1]), -(2 ** r.randint(0, 40)) + r.choice([-1, 0, 1])])
        return t, str(min(hi, max(lo, v)))

    def ops(self, r):
        out, muls = [], 0
        R = lambda: r.randrange(6)
        draw = lambda: (r.randrange(10), r.choice([1, 1, 1e-3, 1e5]))
        for _ in range(r.choice([1, 3, 6, 10, 14])):
            o = r.choice("set add add sub sub expr expr cmp cmp reg reg reg mul mul sum sum cancel field field field vec str".split())
            seed = r.randrange(1 << 40)
            if o == "mul":
                muls += 1
                if muls > 2:
                    continue
                out.append("mul %d %s %s %d" % ((R(),) + self.factor(r) + (r.randrange(3),)))
            elif o in ("set", "add", "sub", "cmp"):
                out.append("%s %d %s %s" % ((o, R()) + self.num(r)))
            elif o == "expr":
                out.append("expr %d %d %d %s %s" % ((R(), R(), r.randrange(4)) + self.num(r)))
            elif o == "reg":
                out.append("reg %d %d %d" % (R(), R(), r.randrange(8)))
            elif o in ("sum", "cancel"):
                out.append("%s %d %d %d %g %d" % ((o, R(), r.choice([1, 2, 3, 5, 10, 100, 1000])) + draw() + (seed,)))
            elif o == "field":
                t = r.choice("ddfi")
                k, s = draw()
                if t == "f" and k == 8:
                    k = 2
                if t == "i":
                    k = r.choice([0, 9])
                out.append("field %d %s %d %d %g %d %d" % (R(), t, r.randrange(1, 4), k, s, seed, r.randrange(3)))
            elif o == "vec":
                k, s = draw()
                out.append("vec %d x 3 %d %g %d" % (R(), k, s, seed))
            else:
                out.append("str %d" % R())
        return out or ["str 0"]

    def jobs(self, rng, tier):
        jobs, n = [], 0
        for rd in range(120 if self.thorough() else 8):
            for k, (var, nd) in self.plan().items():
                cases = []
                for _ in range(60):
                    n += 1
                    cases.append(("c%d" % n, self.ops(rng)))
                size = {1: rng.choice([(16,), (7,)]), 2: rng.choice([(8, 8), (16, 8)] if var == "avx2" else [(4, 4), (8, 8), (6, 4)]), 3: (4, 4, 4)}[nd]
                np = rng.choice([1, 2] if var == "avx2" else [1, 2, 3, 4])
                if nd == 1 or size == (4, 4) and np == 3:
                    np = 1
                jobs.append((Config(k, np, size, {"OMP_NUM_THREADS": rng.choice(["2", "5"])} if var == "openmp" else {}), cases))
        return jobs
