"""P03: ownership, index maps, neighbours and parities of all kinds of lattice sizes, divisions and layout options."""
import math
from hv import build
from hv.run import Check, Config

H = build.VERIF + "/harness"


def plausible(sz, np, vec):
    """a division into np pieces (and vector sub-pieces) exists"""
    left = sorted(sz)
    k, p, fac = np * (8 if vec else 1), 2, []
    while k > 1:
        if k % p == 0:
            fac.append(p)
            k //= p
        else:
            p += 1
    for p in reversed(fac):
        i = max((i for i in range(len(left)) if left[i] % p == 0 and left[i] // p > 1), key=lambda i: left[i], default=None)
        if i is None:
            return False
        left[i] //= p
    return not vec or all(n % 2 == 0 for n in sz)


def divides_evenly(sz, np):
    """sizes which the start-up must accept: one direction can be cut into np pieces of at least two sites"""
    return min(sz) > 1 and any(n % (2 * np) == 0 for n in sz)


class C(Check):
    pid = "P03"
    quick_timeout = 60
    refused_limit = 1.0     # lattices and process counts are chosen freely here
    rule = ("a case is one start-up of a program with a random lattice size, process count and layout option, followed by a complete scan of the site maps, "
            "of loops and of the neighbours and elements of fields of one or two types; non-trivial if the lattice has more than one site or process")
    assumptions = ["lattices which start-up refuses are only counted; sizes which can evidently be divided must not be refused",
                   "-DEVEN_SITES_FIRST=0 does not compile for CPU targets and is left out"]

    def plan(self):
        p = {"v2": ("vanilla", 2, []), "v3": ("vanilla", 3, []), "v4": ("vanilla", 4, []), "t3": ("vanilla", 3, ["-DNODE_LAYOUT_TRIVIAL"]),
             "b2": ("vanilla", 2, ["-DNODE_LAYOUT_BLOCK=6"]), "a2": ("avx2", 2, []), "a3": ("avx2", 3, []), "a4": ("avx2", 4, []),
             "s3": ("vanilla", 3, ["-DSPECIAL_BOUNDARY_CONDITIONS"])}
        if self.thorough():
            p.update({"v1": ("vanilla", 1, []), "b3": ("vanilla", 3, ["-DNODE_LAYOUT_BLOCK=2"]), "b4": ("vanilla", 4, ["-DNODE_LAYOUT_BLOCK=16"]),
                      "o3": ("openmp", 3, []), "g2": ("asan", 2, []), "t2": ("avx2", 2, ["-DNODE_LAYOUT_TRIVIAL"]), "x2": ("avx2", 2, ["-DSPECIAL_BOUNDARY_CONDITIONS"])})
        return p

    def programs(self):
        return {k: build.program("p03" + k, [H + "/p03.cpp"], v, nd, defs, [H]) for k, (v, nd, defs) in self.plan().items()}

    def size(self, r, var, nd):
        big = {1: 60, 2: 24, 3: 14, 4: 10}[nd]
        for _ in range(100):
            k = r.random()
            if var == "avx2":
                sz = [r.choice([2, 4, 4, 6, 8, 8, 10, 12, 16, 18, 20, 24, 32]) for _ in range(nd)]
            elif k < .3:
                sz = [r.choice([2, 4, 8, 6, 12, 16]) for _ in range(nd)]
            elif k < .6:
                sz = [2 * r.randint(1, big // 2) for _ in range(nd)]
            else:
                sz = [r.randint(1 if r.random() < .2 else 2, big) for _ in range(nd)]
            if math.prod(sz) <= (6000 if var == "avx2" else 2500):
                return tuple(sz)
        return (8,) * nd

    def jobs(self, rng, tier):
        jobs, n = [], 0
        for rd in range(120 if self.thorough() else 24):
            for name, (var, nd, _) in self.plan().items():
                sz = self.size(rng, var, nd)
                np = 1 if nd == 1 else rng.choice([1, 2, 2, 3, 3, 4, 4, 4, 5, 5, 6, 6, 7, 8, 8, 9, 10, 12])
                if var == "avx2" and rng.random() < .7:
                    np = rng.choice([1, 2, 4, 6, 8])
                odd = rng.random() < .12        # any combination; start-up may refuse it
                for _ in range(200):
                    if odd or plausible(sz, np, var == "avx2"):
                        break
                    sz = self.size(rng, var, nd)
                    np = rng.choice([1, 2, 3, 4, 4, 5, 6, 6, 7, 8, 8, 9, 10, 12]) if nd > 1 else 1
                cases = []
                for ops in (["scan", "loops"], ["type %d %d" % (rng.randrange(8), rng.randrange(1 << 40)) for _ in range(2)]):
                    n += 1
                    cases.append(("c%d" % n, ops))
                jobs.append((Config(name, np, sz, {"OMP_NUM_THREADS": "2"} if var == "openmp" else {}), cases))
        return jobs

    def must_accept(self, cfg):
        return not cfg.prog.startswith(("a", "x")) and cfg.prog != "t2" and divides_evenly(cfg.size, cfg.np)

    def keep(self, line):
        return False

    def shrink_cfgs(self, cfg):
        for k in (1, 2, 3, 4):
            if k < cfg.np:
                yield Config(cfg.prog, k, cfg.size, cfg.env, cfg.args)
        for d in range(len(cfg.size)):
            for s in (2, 3, 4, 6, 8):
                if s < cfg.size[d]:
                    yield Config(cfg.prog, cfg.np, cfg.size[:d] + (s,) + cfg.size[d + 1:], cfg.env, cfg.args)
