"""P23: broadcasts, messages, reductions between processes; partitions."""
from hv import build
from hv.run import Check, Config

H = build.VERIF + "/harness"


class C(Check):
    pid = "P23"
    quick_timeout = 60
    rule = ("a case is a list of 1-40 transfers (broadcasts, messages, reductions, field loops) of random types, lengths, roots and contents; "
            "non-trivial if more than one process takes part")
    assumptions = ["point-to-point messages carry trivially copyable values and vectors of them, and no process sends to itself",
                   "reductions over processes are made of exactly representable integers"]

    def plan(self):
        p = {"v": ("vanilla", 2), "o": ("openmp", 2), "s": ("asan", 2), "a": ("avx2", 2)}
        if self.thorough():
            p.update({"v4": ("vanilla", 4)})
        return p

    def programs(self):
        return {k: build.program("p23" + k, [H + "/p23.cpp"], v, nd, [], [H]) for k, (v, nd) in self.plan().items()}

    def gen(self, r):
        out = ["who"]
        for _ in range(r.choice([1, 3, 10, 20, 40])):
            o = r.choice("bc bc bcv bcv bcs bcvs bcarr array bc2 msg msg sum sum prod sync loops".split())
            L = r.choice([0, 0, 1, 1, 2, 3, 5, 17, 100, 1000 if r.random() < .3 else 8, 20000 if r.random() < .05 else 4])
            if o == "bcvs":
                L = min(L, 30)
            if o == "prod":
                L = min(max(L, 1), 100)
            if o in ("array", "bc2", "bc"):
                L = r.randrange(4)
            out.append("%s %d %d %d %d" % (o, r.randrange(120), r.randrange(1 << 40), r.randrange(60), L))
        return out

    def jobs(self, rng, tier):
        jobs, n = [], 0
        for rd in range(60 if self.thorough() else 12):
            for name, (var, nd) in self.plan().items():
                np, part = rng.choice([(1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (6, 1), (8, 1), (2, 2), (4, 2), (6, 2), (6, 3), (4, 4), (8, 2), (8, 4)])
                sz = {2: (16, 16), 4: (4, 8, 4, 8)}[nd]
                if var == "avx2":
                    np, part = rng.choice([(1, 1), (2, 1), (4, 1), (4, 2), (8, 4), (8, 2)])
                elif (np // part) % 3 == 0:
                    sz = {2: (12, 18), 4: (4, 6, 4, 6)}[nd]
                cases = []
                for _ in range(40):
                    n += 1
                    cases.append(("c%d" % n, self.gen(rng)))
                args = [] if part == 1 else ["-partitions", str(part)] + (["dir"] if rng.random() < .3 else [])
                jobs.append((Config(name, np, sz, {"OMP_NUM_THREADS": "2"} if var == "openmp" else {}, args), cases))
        return jobs

    def line_variants(self, line):
        w = line.split()
        if len(w) > 4:
            for k, vs in ((4, "0 1 2"), (3, "0 1"), (1, "0")):
                for v in vs.split():
                    if w[k] != v and int(w[k]) > int(v):
                        yield " ".join(w[:k] + [v] + w[k + 1:])

    def shrink_cfgs(self, cfg):
        if cfg.args:
            return [Config(cfg.prog, k, cfg.size, cfg.env, []) for k in (2, 4)]
        return [Config(cfg.prog, k, cfg.size, cfg.env, []) for k in (1, 2, 3) if k < cfg.np]
