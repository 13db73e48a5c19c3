"""P22: checkpoints and multicanonical weights."""
import concurrent.futures as cf
import os
import shutil
import tempfile
from hv import build, run
from hv.run import Check, Config

H = build.VERIF + "/harness"


class C(Check):
    pid = "P22"
    quick_timeout = 60
    rule = ("a case is a history of saves, restorations, edits of the status file and changes of the configuration, or a weight table (given or equidistant) with "
            "weight look-ups, acceptance decisions, iterations of one of the four methods and a write/read; non-trivial if it has at least two operations")
    assumptions = ["written weight tables are compared to 7 significant digits, the precision of the file format",
                   "interrupted saves are file-size limits hit by process 0 at any byte of the files written (no power failure, all completed writes are kept)",
                   "order parameters closer than 1e-6 bin widths to a bin limit are left out; hard walls are not combined with the canonical iteration"]

    def plan(self):
        p = {"v0": ("vanilla", 2, 0), "v1": ("vanilla", 3, 1), "a": ("avx2", 2, 0), "s": ("asan", 2, 2), "o": ("openmp", 2, 3)}
        if self.thorough():
            p.update({"v4": ("vanilla", 4, 2)})
        return p

    def programs(self):
        return {k: build.program("p22" + k, [H + "/p22.cpp", build.REPO + "/libraries/tools/multicanonical.cpp"], v, nd, ["-DPGROUP=%d" % g], [H])
                for k, (v, nd, g) in self.plan().items()}

    def ck(self, r):
        out = ["ck %d" % r.randrange(1 << 30)]
        for _ in range(r.choice([2, 4, 8, 16])):
            k = r.random()
            f = r.choice(["cfg", "cfg", "cfg", "b.cfg"])
            if k < .25:
                out.append("fill %d" % r.randrange(1, 1 << 40))
            elif k < .5:
                out.append("save %s %d %d" % (f, r.choice([0, 1, 2, 9, 100, r.randrange(1 << 20)]), r.choice([0, 1, 1, 2])))
            elif k < .75:
                out.append("load %s %d" % (f, r.randrange(2)))
            elif k < .85:
                out.append("trajectories %d %d" % (r.choice([1, 10, 50, 51, r.randrange(1 << 25)]), r.choice([0, 0, 1])))
            elif k < .95:
                out.append("prev")
            else:
                out.append("nostatus")
        return out

    def muca(self, r):
        m = r.choice(["direct", "single", "smooth", "canonical"])
        a = r.choice([-0.6, 0, 1, -5, 0.001, 10])
        nb = r.choice([2, 3, 4, 7, 10, 20, 60])
        few = r.random() < .5
        out = ["muca %s %d %s %s %d %d %d %d %s %s %d %d %d %d %s" %
               (m, r.random() < .25 and m != "canonical", a, a + r.choice([0.1, 1, 1.2, 8, 100]), nb, r.randrange(2), r.choice([2, 3, 10, 100]) if not few else r.choice([2, 3]), r.choice([1, 2, 7, 100]),
                r.choice([0.1, 1, 0.5, 4]), r.choice([0.001, 0.05, 0.09, 0.4]), r.choice([1, 5, 100, 300]), r.choice([1, 5, 20]), r.choice([1, 2, 8]), r.choice([1, 2, 5, 20, 99, 100, 101, 200, 400]),
                r.choice([0, 2.0, 0.5]))]
        if r.random() < .5:
            out.append("table %d %d %d" % (r.choice([1, 2, 3, 5, 12, 40]) if m != "canonical" else r.choice([2, 3, 5, 12]), r.randrange(1 << 30), r.choice([0, 0, 1, 4])))
        for _ in range(r.choice([1, 3, 6, 10])):
            k = r.random()
            s = r.randrange(1 << 30)
            if k < .25:
                out.append("w %d %d" % (r.choice([3, 20, 100]), s))
            elif k < .6:
                out.append("iter %d %d" % (r.choice([1, 2, 10, 100, 1000]), s))
            elif k < .75:
                out.append("accept %d %d" % (r.choice([1, 10, 100]), s))
            elif k < .82:
                out.append("rate %d" % s)
            elif k < .9:
                out.append("cont %d" % r.randrange(2))
            else:
                out.append("write")
        return out

    def jobs(self, rng, tier):
        jobs, n = [], 0
        self.xrng = rng
        for rd in range(40 if self.thorough() else 6):
            for name, (var, nd, g) in self.plan().items():
                np = rng.choice([1, 2, 3, 4, 6])
                sz = {2: (8, 8), 3: (4, 4, 8), 4: (4, 4, 2, 4)}[nd]
                if var == "avx2":
                    np, sz = rng.choice([1, 2, 4]), (16, 16)
                elif np % 3 == 0:
                    sz = {2: (6, 12), 3: (6, 4, 4), 4: (6, 4, 2, 2)}[nd]
                cases = []
                for _ in range(15):
                    n += 1
                    cases.append(("c%d" % n, self.ck(rng)))
                for _ in range(50):
                    n += 1
                    cases.append(("c%d" % n, self.muca(rng)))
                jobs.append((Config(name, np, sz, {"OMP_NUM_THREADS": "2"} if var == "openmp" else {}, []), cases))
        return jobs

    def keep(self, line):
        return line.startswith(("ck", "muca"))

    def valid(self, lines):
        return bool(lines) and lines[0].startswith(("ck", "muca"))

    def line_variants(self, line):
        w = line.split()
        if w[0] in ("w", "iter", "accept"):
            for v in (1, int(w[1]) // 2):
                if v and v < int(w[1]):
                    yield "%s %d %s" % (w[0], v, w[2])
        if w[0] == "table" and int(w[1]) > 2:
            yield "table %d %s %s" % (int(w[1]) // 2, w[2], w[3])

    def shrink_cfgs(self, cfg):
        return [Config(cfg.prog, k, cfg.size, cfg.env, []) for k in (1, 2, 3) if k < cfg.np]

    # a save interrupted at any byte, looked at by another program run
    def crash(self, cfg, seed, limit):
        d = tempfile.mkdtemp(dir=build.VERIF + "/.work")
        try:
            for step, case in (("a", "crash %d %d" % (seed, limit)), ("b", "survive %d" % seed)):
                with open(d + "/cases", "w") as f:
                    f.write("case x\n%s\nend\n" % case)
                if step == "a":
                    os.makedirs(d + "/w")
                rc, o = run.mpirun(self.exes[cfg.prog], cfg.np, [], dict(cfg.env, HV_CASES=d + "/cases", HV_OUT=d + "/out" + step, HV_SIZE=",".join(map(str, cfg.size))), d + "/w", 60)
                res = open(d + "/out" + step).read() if os.path.exists(d + "/out" + step) else ""
                if rc is None:
                    return "time limit"
                if step == "b" and "R x OK" not in res:
                    return res.strip().replace("\n", " ")[-300:] or "exit %s %s" % (rc, o[-200:].replace("\n", " "))
            return None
        finally:
            shutil.rmtree(d, True)

    def resume(self, cfg, seed, limit):
        d = tempfile.mkdtemp(dir=build.VERIF + "/.work")
        try:
            os.makedirs(d + "/w")
            for step, case in (("a", "crash %d %d" % (seed - 1, 1 << 40)), ("b", "resume %d" % seed)):
                with open(d + "/cases", "w") as f:
                    f.write("case x\n%s\nend\n" % case.replace("resume", "resume"))
                rc, o = run.mpirun(self.exes[cfg.prog], cfg.np if step == "a" else 1, [], dict(cfg.env, HV_CASES=d + "/cases", HV_OUT=d + "/out" + step, HV_SIZE=",".join(map(str, cfg.size))), d + "/w", 60)
                res = open(d + "/out" + step).read() if os.path.exists(d + "/out" + step) else ""
                if "R x OK" not in res:
                    return "%s: %s" % (case, res.strip().replace("\n", " ")[-300:] or "exit %s %s" % (rc, o[-200:].replace("\n", " ")))
            return None
        finally:
            shutil.rmtree(d, True)

    def extra(self):
        r, todo = self.xrng, []
        for i in range(150 if self.thorough() else 16):
            cfg = Config("v0", r.choice([1, 1, 2, 4]), (8, 8), {}, [])
            full = 64 * 2 * 64 + 40       # bytes of a complete file; the status file is smaller
            todo.append(("crash", cfg, r.randrange(1, 1 << 30), r.choice([0, 1, 8, 20, 39, 40, 50, full - 1, full, r.randrange(full), r.randrange(full)])))
            if i % 4 == 0:
                todo.append(("resume", cfg, r.randrange(1, 1 << 30), 0))
        with cf.ThreadPoolExecutor(4) as ex:
            for t, msg in zip(todo, ex.map(lambda a: getattr(self, a[0])(*a[1:]), todo)):
                self.record(t[1].key() + str(t[2:]), True, [t[0]])
                if msg and all(getattr(self, t[0])(*t[1:]) for _ in range(2)):
                    self.violation("%s at byte %d: %s" % (t[0], t[3], msg), dict(kind=t[0], config=t[1].to_json(), seed=t[2], limit=t[3]))

    def replay_data(self, j):
        d = j["data"]
        m = getattr(self, d["kind"])(Config.from_json(d["config"]), d["seed"], d["limit"])
        if m:
            print("%s\nVIOLATION property=P22 replay=?" % m)
        return 1 if m else 0
