"""P19: gauge observables, forces, smearing, flow and updates against sums over link products."""
from hv import build
from hv.run import Check, Config

H = build.VERIF + "/harness"


class C(Check):
    pid = "P19"
    rule = ("a case fills the links (rough, smooth, smooth in a rough gauge, constant, identity, one different link) and runs 2-6 operations, "
            "each compared with a long double reference built from link products or with the numerical derivative of the reference action; "
            "it is non-trivial if a compared quantity depends on the links (non-zero action, force component or update)")
    assumptions = ["matrix logarithms and the bulk-prevention action only for plaquettes away from their singularities",
                   "SU(2) and SU(3), double and float; results of measure_* are examined on process 0"]
    batch_timeout = 600

    def plan(self):
        # name: (variant, dimensions, colours, type)
        p = {"v3": ("vanilla", 3, 3, "double"), "v2": ("vanilla", 2, 2, "double"), "v4": ("vanilla", 4, 2, "double"), "f3": ("vanilla", 3, 2, "float")}
        if self.thorough():
            p.update({"w4": ("vanilla", 4, 3, "double"), "w3": ("vanilla", 3, 2, "double"), "w2": ("vanilla", 2, 3, "double"), "o4": ("openmp", 4, 3, "float"),
                      "s3": ("asan", 3, 3, "double")})
        return p

    def programs(self):
        return {k: build.program("p19" + k, [H + "/p19.cpp"], v, nd, ["-DNC=%d" % nc, "-DHVREAL=" + t], [H]) for k, (v, nd, nc, t) in self.plan().items()}

    SIZES = {2: [(4, 4), (6, 4), (2, 8), (5, 4), (3, 7), (8, 6)], 3: [(4, 4, 4), (2, 4, 6), (3, 4, 4), (4, 2, 2), (5, 3, 4)],
             4: [(2, 4, 2, 4), (4, 4, 2, 2), (2, 2, 2, 4), (3, 2, 4, 2)]}
    # relative weights of the operations
    OPS = [("staple", 10), ("obs", 5), ("poly", 3), ("wline", 6), ("wforce", 3), ("force", 10), ("gff", 3), ("zeuthen", 2), ("stout", 6), ("sforce", 5), ("flow", 2),
           ("topo", 2), ("gauge", 3), ("or", 4), ("chain", 2), ("degauss", 1), ("u", 2)]

    def fill(self, r):
        kind = r.choice([0, 1, 1, 2, 2, 3, 4, 5])
        return "u %d %d %s" % (r.randrange(1 << 40), kind, r.choice(["0.05", "0.15", "0.15", "0.5"]))

    def path(self, r, nd, closed):
        if closed:
            k = r.randrange(4)
            a, b = r.sample(range(nd), 2)
            na, nb = r.choice([1, 1, 2, 3]), r.choice([1, 1, 2])
            if r.random() < .5:
                a += nd
            ra = a + nd if a < nd else a - nd
            p = [a] * na + [b] * nb + [ra] * na + [b + nd] * nb
            if k == 0 and nd > 2:
                c = next(d for d in range(nd) if d not in (a % nd, b))
                p = [a, b, c, ra, b + nd, c + nd]
            if k == 1:
                p = p + p[:na + nb] + [(d + nd) % (2 * nd) for d in reversed(p[:na + nb])]
            j = r.randrange(len(p))
            return p[j:] + p[:j]
        return [r.randrange(2 * nd) for _ in range(r.choice([1, 2, 2, 3, 4, 7]))]

    def gen(self, r, nd, nc, sz, alleven):
        out = [self.fill(r)]
        for _ in range(r.choice([2, 3, 4, 6])):
            op = r.choices([o for o, _ in self.OPS], [w for _, w in self.OPS])[0]
            sd = r.randrange(1 << 40)
            if op == "staple":
                out.append("staple %d %d %d" % (r.randrange(nd), r.choice([1, 2, 3, 3]) if alleven else 3, r.choice([0, 0, r.randrange(1, 99)])))
            elif op in ("obs", "zeuthen"):
                out.append(op)
            elif op == "topo":
                if nd == 4:
                    out.append(op)
            elif op == "poly":
                out.append("poly %d" % r.randrange(nd))
            elif op == "wline":
                out.append("wline " + " ".join(map(str, self.path(r, nd, r.random() < .3))))
            elif op == "wforce":
                out.append("wforce %d %d %s" % (sd, r.randrange(4), " ".join(map(str, self.path(r, nd, True)))))
            elif op == "force":
                c11, c12 = r.choice([(1, 0), (1.25, -0.125), (0.5, 1), (0, 1), (2, -0.331)])
                out.append("force %d %d %d %s %s" % (sd, r.choice([0, 1, 5, 7, 7, 8, 8]), r.randrange(2), c11, c12))
            elif op == "gff":
                out.append("gff %d %d" % (sd, r.randrange(6)))
            elif op == "stout":
                out.append("stout %s %d %d" % (r.choice(["0.1", "0.05", "0.2"]), r.choice([0, 1, 1, 2, 3]), r.randrange(10)))
            elif op == "sforce":
                out.append("sforce %d %s %d %d %d" % (sd, r.choice(["0.1", "0.15"]), r.choice([1, 1, 2] if nd < 4 else [1]), r.choice([0, 0, 1, 2, 3]), r.choice([0, 0, 7, 8])))
            elif op == "flow":
                out.append("flow %s" % r.choice(["0.5", "0.8", "1"]))
            elif op in ("gauge", "degauss"):
                out.append("%s %d" % (op, sd))
            elif op == "or":
                out.append("or %d %d" % (sd, r.randrange(3)))
            elif op == "chain":
                out.append("chain %d %d %s %d" % (sd, r.randrange(4), r.choice(["0.3", "1", "2.5", "6"]), 20000 if self.thorough() else 6000))
            elif op == "u":
                out.append(self.fill(r))
        return out

    def keep(self, line):
        return line.startswith("u ")

    def valid(self, lines):
        return len(lines) > 0 and lines[0].startswith("u ")

    def jobs(self, rng, tier):
        jobs, n = [], 0
        for rd in range(60 if self.thorough() else 24):
            for name, (var, nd, nc, t) in self.plan().items():
                sz = rng.choice(self.SIZES[nd])
                cases = []
                for _ in range(20 if self.thorough() else 12):
                    n += 1
                    cases.append(("c%d" % n, self.gen(rng, nd, nc, sz, all(x % 2 == 0 for x in sz))))
                jobs.append((Config(name, rng.choice([1, 2, 2, 4] if all(x % 2 == 0 for x in sz) else [1, 2, 2, 3]), sz, {"OMP_NUM_THREADS": "3"} if var == "openmp" else {}), cases))
        return jobs

    def shrink_cfgs(self, cfg):
        return [Config(cfg.prog, k, cfg.size, cfg.env, cfg.args) for k in (1, 2) if k < cfg.np]

    def replay_known(self):
        r = self.single(Config("v2", 1, (4, 4)), ["u 5 1 0.1", "logforce 77"])
        if r and r[0] == "FAIL" and "get_force_log" in r[1]:
            self.known_hits.append("get_force_log() is not the derivative of measure_s_log() (4x4 lattice, smooth SU(2) links)")
