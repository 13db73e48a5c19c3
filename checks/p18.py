"""P18: cluster finding against a breadth-first search."""
from hv import build
from hv.run import Check, Config

H = build.VERIF + "/harness"


class C(Check):
    pid = "P18"
    rule = ("a case builds site types or links from random, walk, line, spiral and single-site operations and searches the clusters 1-3 times; "
            "it is non-trivial if the reference finds a cluster")
    assumptions = ["links are given as 0 or small non-zero numbers"]

    def plan(self):
        p = {"v2": ("vanilla", 2), "v3": ("vanilla", 3), "a3": ("avx2", 3), "o2": ("openmp", 2)}
        if self.thorough():
            p.update({"v4": ("vanilla", 4), "v1": ("vanilla", 1), "s3": ("asan", 3), "a2": ("avx2", 2)})
        return p

    def programs(self):
        return {k: build.program("p18" + k, [H + "/p18.cpp"], v, nd, [], [H]) for k, (v, nd) in self.plan().items()}

    def sizes(self, name):
        var, nd = self.plan()[name]
        if var == "avx2":
            return {2: [(16, 8), (16, 16)], 3: [(8, 8, 8), (16, 8, 4)]}[nd]
        return {1: [(8,), (30,)], 2: [(4, 4), (8, 6), (2, 8), (12, 4), (16, 16), (20, 2)], 3: [(4, 4, 4), (6, 4, 2), (2, 4, 8), (8, 8, 6)],
                4: [(4, 4, 4, 4), (2, 4, 2, 6)]}[nd] + ([(5, 5), (3, 8), (7, 4)] if nd == 2 else [(3, 4, 5), (5, 5, 5)] if nd == 3 else [])

    def gen(self, r, nd, sz):
        out = []
        T = r.choice([[0, 1], [0, 1, 255], [7], [0, 254, 255], list(range(6))])

        def crd():
            return " ".join(str(r.randrange(x)) for x in sz)
        for _ in range(r.choice([1, 1, 2, 3])):
            if r.random() < .8 or not out:
                if r.random() < .5:
                    out.append("rnd %d %d %d %d" % (r.randrange(1 << 40), r.choice([1, 2, 2, 3, 5, 255]), r.choice([0, 0, 30, 50, 70]), r.choice([0, 5, 20, 35, 50, 90])))
                else:
                    out.append("all %d" % r.choice(T + [255, 255, 255]))
            for _ in range(r.choice([0, 1, 2, 4, 8, 20])):
                k = r.random()
                if k < .3:
                    out.append("walk %d %d %d" % (r.randrange(1 << 40), r.choice(T), r.choice([2, 5, 20, 100])))
                elif k < .5:
                    out.append("line %d %d %s" % (r.randrange(nd), r.choice(T), crd()))
                elif k < .55 and nd > 1:
                    out.append("spiral %d %d %d" % (r.randrange(nd), r.choice(T), r.choice([2, 3, sz[0]])))
                elif k < .8:
                    out.append("site %d %s" % (r.choice(T), crd()))
                else:
                    out.append("link %d %d %s" % (r.randrange(nd), r.choice([0, 1, 1, 2]), crd()))
            out.append("find %d" % r.randrange(5))
        return out

    def keep(self, line):
        return False

    def valid(self, lines):
        return any(l.startswith("find") for l in lines)

    def jobs(self, rng, tier):
        jobs, n = [], 0
        for rd in range(60 if self.thorough() else 30):
            for name, (var, nd) in self.plan().items():
                sz = rng.choice(self.sizes(name))
                cases = []
                for _ in range(40 if self.thorough() else 30):
                    n += 1
                    cases.append(("c%d" % n, self.gen(rng, nd, sz)))
                np = 1 if nd == 1 else rng.choice([1, 2, 4] if var == "avx2" else [1, 2, 3, 4])
                jobs.append((Config(name, np, sz, {"OMP_NUM_THREADS": "3"} if var == "openmp" else {}), cases))
        return jobs

    def shrink_cfgs(self, cfg):
        return [Config(cfg.prog, k, cfg.size, cfg.env, cfg.args) for k in (1, 2) if k < cfg.np]
