"""P17: site selection, site indices, coordinate algebra."""
from hv import build
from hv.run import Check, Config

H = build.VERIF + "/harness"


class C(Check):
    pid = "P17"
    rule = ("a case performs 1-6 selections with random patterns, maxima, parities and joins, or evaluates all coordinate and direction "
            "operations on random vectors; non-trivial if a site is selected or coordinates are compared")
    assumptions = ["the result of a joined selection is examined on process 0", "a site selected more than once in a loop keeps the value given last"]

    def plan(self):
        p = {"v2": ("vanilla", 2), "v3": ("vanilla", 3), "a3": ("avx2", 3), "o2": ("openmp", 2), "s2": ("asan", 2)}
        if self.thorough():
            p.update({"v4": ("vanilla", 4), "v1": ("vanilla", 1), "s3": ("asan", 3), "a2": ("avx2", 2)})
        return p

    def programs(self):
        return {k: build.program("p17" + k, [H + "/p17.cpp"], v, nd, [], [H]) for k, (v, nd) in self.plan().items()}

    def sizes(self, name):
        var, nd = self.plan()[name]
        if var == "avx2":
            return {2: [(16, 8), (16, 16)], 3: [(8, 8, 8), (16, 8, 4)]}[nd]
        return {1: [(8,), (30,)], 2: [(4, 4), (8, 6), (2, 8), (12, 4), (20, 2), (5, 5), (7, 4)], 3: [(4, 4, 4), (6, 4, 2), (2, 4, 8), (3, 4, 5)],
                4: [(4, 4, 4, 4), (2, 4, 2, 6)]}[nd]

    def gen(self, r, nd, sz):
        vol = 1
        for x in sz:
            vol *= x
        if r.random() < .3:
            return ["coord %d %d" % (r.randrange(1 << 40), r.choice([1, 1, 2, 5, 40, 1000])) for _ in range(r.choice([1, 5, 20]))] + \
                ["loopcoord %d" % r.randrange(1 << 40)]
        odd = any(x % 2 for x in sz)
        return ["sel %d %d %d %d %d %d" % (r.randrange(8), r.randrange(1 << 40), r.choice([0, 3, 20, 50, 90, 100, 100]), r.choice([3, 3, 3, 1, 2]),
                                           r.choice([-1, -1, 0, 1, 2, 3, 5, vol // 4, vol // 2, vol - 1, vol, vol + 5]), r.choice([0, 0, 1])) for _ in range(r.choice([1, 2, 6]))]

    def jobs(self, rng, tier):
        jobs, n = [], 0
        for rd in range(40 if self.thorough() else 10):
            for name, (var, nd) in self.plan().items():
                sz = rng.choice(self.sizes(name))
                cases = []
                for _ in range(60):
                    n += 1
                    cases.append(("c%d" % n, self.gen(rng, nd, sz)))
                np = 1 if nd == 1 else rng.choice([1, 2, 4] if var == "avx2" else [1, 2, 3, 4])
                jobs.append((Config(name, np, sz, {"OMP_NUM_THREADS": "3"} if var == "openmp" else {}), cases))
        return jobs

    def line_variants(self, line):
        w = line.split()
        if w[0] == "sel":
            for p in ("100", "20", "3"):
                if w[3] != p:
                    yield " ".join(w[:3] + [p] + w[4:])

    def shrink_cfgs(self, cfg):
        return [Config(cfg.prog, k, cfg.size, cfg.env, cfg.args) for k in (1, 2) if k < cfg.np]
