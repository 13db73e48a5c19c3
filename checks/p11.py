"""P11: random numbers."""
import concurrent.futures as cf
import filecmp
import os
import shutil
import tempfile
from hv import build, run
from hv.run import Check, Config

H = build.VERIF + "/harness"


class C(Check):
    pid = "P11"
    quick_timeout = 100
    rule = ("a case is a list of seedings, draws and loops run twice from the same seed and once from another, or a sample of one kind of draw "
            "tested against its law; non-trivial if numbers were drawn")
    assumptions = ["sequences are compared for one number of processes and one build, as different numbers of processes use different streams",
                   "samples of 2000-40000 values are tested with thresholds at 6.5 standard deviations (mean values) and sqrt(n)D < 4 (Kolmogorov-Smirnov); "
                   "smaller deviations from a law are not seen",
                   "widths of Gaussian group algebra elements are passed explicitly: the coefficients have that width"]

    def plan(self):
        p = {"v": ("vanilla", 2), "o": ("openmp", 2), "a": ("avx2", 2), "w": ("vanilla", 3)}
        if self.thorough():
            p.update({"s": ("asan", 2), "v4": ("vanilla", 4)})
        return p

    def programs(self):
        return {k: build.program("p11" + k, [H + "/p11.cpp"], v, nd, [], [H]) for k, (v, nd) in self.plan().items()}

    def seedval(self, r):
        return r.choice([1, 2, 3, 12345, r.randrange(1, 100), r.randrange(1, 1 << 20), r.randrange(1, 1 << 31), r.randrange(1, 1 << 63), (1 << 64) - 1, (1 << 31) - 1,
                         (1 << 31) + r.randrange(8), 1 << 28, 1 << 32])

    def hist(self, r):
        s = self.seedval(r)
        out = ["hist %d %d %d" % (r.choice([0, 1, 2, 3, 5]), r.choice([0, 1, 1, 2, 3]), r.choice([1, 3, 1 << 20, r.randrange(1, 1 << 60)])), "seed %d" % s]
        for _ in range(r.choice([1, 2, 4, 10])):
            k = r.random()
            if k < .6:
                out.append("draw %d %d" % (r.randrange(27), r.choice([1, 1, 2, 3, 5, 10, 60, 300])))
            elif k < .9:
                out.append("loop %d %d" % (r.randrange(9), r.randrange(3)))
            else:
                out.append("seed %d" % r.choice([s, s + 1, self.seedval(r) or 1]))
        return out

    def jobs(self, rng, tier):
        jobs, n = [], 0
        self.xrng = rng
        for rd in range(20 if self.thorough() else 2):
            for name, (var, nd) in self.plan().items():
                np, part = rng.choice([(1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (8, 1), (2, 2), (4, 2), (6, 3), (4, 4), (8, 4)])
                sz = {2: (16, 16), 3: (8, 4, 4), 4: (4, 4, 4, 4)}[nd]
                if var == "avx2":
                    np, part = rng.choice([(1, 1), (2, 1), (4, 1), (4, 2), (8, 4)])
                elif (np // part) % 3 == 0:
                    sz = {2: (12, 18), 3: (6, 6, 6), 4: (6, 6, 2, 2)}[nd]
                elif (np // part) % 5 == 0:
                    sz = {2: (20, 10), 3: (10, 2, 2), 4: (10, 2, 2, 2)}[nd]
                cases = []
                for _ in range(40):
                    n += 1
                    cases.append(("c%d" % n, self.hist(rng)))
                n += 1
                cases.append(("c%d" % n, ["clock"]))
                for k in rng.sample(range(32), 13):
                    n += 1
                    cases.append(("c%d" % n, ["law %d %d %d %d %s" % (self.seedval(rng), k, rng.choice([2000, 10000, 20000]), rng.randrange(2), rng.choice("0.25 1 1 2 3.5".split()))]))
                args = [] if part == 1 else ["-partitions", str(part)]
                jobs.append((Config(name, np, sz, {"OMP_NUM_THREADS": "3"} if var == "openmp" else {}, args), cases))
        # all kinds of law once on the plain build
        cases = []
        for k in range(32):
            for inl in (0, 1) if k < 26 else (0,):
                n += 1
                cases.append(("c%d" % n, ["law %d %d %d %d %s" % (self.seedval(rng), k, 200000 if self.thorough() else 40000, inl, rng.choice("0.25 1 2 3.5".split()))]))
        jobs.append((Config("v", 2, (16, 16), {}, []), cases))
        jobs.append((Config("v", 4, (16, 16), {}, []), [("f%d" % k, ["float %d %g %d" % (self.seedval(rng), 1e8, k % 2)]) for k in range(8 if self.thorough() else 2)]))
        return jobs

    def line_variants(self, line):
        w = line.split()
        if w[0] == "draw" and int(w[2]) > 1:
            for v in (1, int(w[2]) // 2):
                yield "draw %s %d" % (w[1], v)
        if w[0] == "seed" and w[1] != "1":
            yield "seed 1"
        if w[0] == "hist":
            for i in (1, 2, 3):
                if int(w[i]) > 1:
                    yield " ".join(w[:i] + ["1" if i == 3 or int(w[i]) % 2 else "0"] + w[i + 1:])

    def keep(self, line):
        return not line.startswith(("draw", "loop"))

    def valid(self, lines):
        return bool(lines) and lines[0].split()[0] in ("hist", "law", "float", "clock") and (not lines[0].startswith("hist") or (len(lines) > 1 and lines[1].startswith("seed")))

    def shrink_cfgs(self, cfg):
        if cfg.args:
            return [Config(cfg.prog, k, cfg.size, cfg.env, []) for k in (2, 4)]
        return [Config(cfg.prog, k, cfg.size, cfg.env, []) for k in (1, 2, 3) if k < cfg.np]

    # two separate executions give the same numbers
    def again(self, cfg, cases):
        exe = self.exes[cfg.prog]
        d = tempfile.mkdtemp(dir=build.VERIF + "/.work")
        try:
            with open(d + "/cases", "w") as f:
                for cid, ls in cases:
                    f.write("case %s\n%s\nend\n" % (cid, "\n".join(ls)))
            for t in "12":
                os.mkdir(d + "/" + t)
                env = dict(cfg.env, HV_CASES=d + "/cases", HV_OUT=d + "/out" + t, HV_SIZE=",".join(map(str, cfg.size)), HV_DUMP=d + "/dump" + t)
                if t == "2":
                    env["HV_PAD"] = "x" * 5000
                rc, o = run.mpirun(exe, cfg.np, cfg.args, env, d + "/" + t, timeout=100)
                if rc != 0:
                    return "exit status %s: %s" % (rc, o[-200:].replace("\n", " "))
            for r in range(cfg.np):
                if not filecmp.cmp(d + "/dump1.%d" % r, d + "/dump2.%d" % r, False):
                    return "two executions draw different numbers on process %d" % r
            return None
        finally:
            shutil.rmtree(d, True)

    def extra(self):
        todo = []
        for np in (1, 2, 4):
            for name in self.plan():
                if name in "vo":
                    todo.append((Config(name, np, (16, 16), {"OMP_NUM_THREADS": "3"} if name == "o" else {}, []), [("e%d" % i, self.hist(self.xrng)) for i in range(15)]))
        with cf.ThreadPoolExecutor(3) as ex:
            for (cfg, cases), msg in zip(todo, ex.map(lambda a: self.again(*a), todo)):
                self.record(cfg.key() + str(cases), True, ["two-executions"])
                if msg and all(self.again(cfg, cases) for _ in range(2)):
                    self.violation("%s: %s" % (cfg.key(), msg), dict(config=cfg.to_json(), cases=cases))

    def replay_data(self, j):
        m = self.again(Config.from_json(j["data"]["config"]), j["data"]["cases"])
        if m:
            print("%s\nVIOLATION property=P11 replay=?" % m)
        return 1 if m else 0
