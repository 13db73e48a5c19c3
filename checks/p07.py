"""P07: spectral binning against a serial model."""
import math
from hv import build
from hv.run import Check, Config
from p02 import fits

H = build.VERIF + "/harness"


class C(Check):
    pid = "P07"
    rule = "a case sets binning parameters in 1-5 steps with bins read in between; non-trivial when something is binned"
    assumptions = ["modes within 1e-9 of a bin boundary may go to either side; field data vanish there",
                   "results of bin_k_field and spectraldensity are read on process 0 only (not allreduced)",
                   "float data: spectral densities to 1e-5 of the total"]

    def plan(self):
        p = {"v3": ("vanilla", 3), "v2": ("vanilla", 2), "a3": ("avx2", 3)}
        if self.thorough():
            p.update({"v4": ("vanilla", 4), "a2": ("avx2", 2), "o3": ("openmp", 3), "s3": ("asan", 3)})
        return p

    def programs(self):
        return {k: build.program("bins", [H + "/bins_main.cpp"], v[0], v[1], [], [H]) for k, v in self.plan().items()}

    SIZES = {2: [(4, 4), (8, 6), (5, 7), (16, 4), (12, 3), (30, 7)],
             3: [(4, 4, 4), (6, 4, 2), (8, 6, 4), (3, 5, 7), (9, 4, 5), (2, 12, 3)],
             4: [(4, 4, 4, 4), (2, 4, 2, 6), (3, 2, 5, 4)]}
    ASIZES = {2: [(16, 16), (8, 16), (32, 8)], 3: [(8, 8, 8), (16, 8, 4)]}

    def gen(self, r):
        out = ["new %d" % r.choice([0, 0, r.randint(1, 40)])]
        for _ in range(r.choice([1, 2, 3, 5])):
            for _ in range(r.choice([0, 1, 1, 2])):
                o = r.choice("bins bins kmax kmax width power power exact".split())
                if o == "bins":
                    out.append("bins %d" % r.choice([1, 2, 3, 8, 8, 16, r.randint(1, 60)]))
                elif o == "kmax":
                    out.append("kmax %r" % r.choice([math.pi, 2 * math.pi, 1.0, 6.0, r.uniform(.05, 7)]))
                elif o == "width":
                    out.append("width %r" % r.choice([.1, .5, 1.0, r.uniform(.1, 4)]))
                elif o == "power":
                    out.append("power %r" % r.choice([1.0, 2.0, .5, 3.0, r.uniform(.3, 4)]))
                else:
                    out.append("exact %d" % r.randrange(9))
            for _ in range(r.choice([1, 1, 2])):
                o = r.choice("info info bin bin dens".split())
                if o == "info":
                    out.append("info %d" % r.randrange(2))
                elif o == "bin":
                    out.append("bin %d %d" % (r.randrange(4), r.randrange(1 << 40)))
                else:
                    out.append("dens %d %d" % (r.randrange(5), r.randrange(1 << 40)))
        return out

    def jobs(self, rng, tier):
        jobs, n = [], 0
        for rd in range(80 if self.thorough() else 8):
            for k, (var, nd) in self.plan().items():
                for np in (1, 2, 3, 4) if var != "avx2" else (1, 2, 4):
                    sz = rng.choice(self.ASIZES[nd] if var == "avx2" else self.SIZES[nd])
                    if not fits(sz, np, var):
                        continue
                    cases = []
                    for _ in range(30):
                        n += 1
                        cases.append(("b%d" % n, self.gen(rng)))
                    jobs.append((Config(k, np, sz, {"OMP_NUM_THREADS": "3"} if var == "openmp" else {}), cases))
        return jobs

    def keep(self, line):
        return line.startswith("new")

    def shrink_cfgs(self, cfg):
        return [Config(cfg.prog, np, cfg.size, cfg.env) for np in range(cfg.np - 1, 0, -1)]
