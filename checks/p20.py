"""P20: blocked lattices."""
from hv import build
from hv.run import Check, Config

H = build.VERIF + "/harness"


class C(Check):
    pid = "P20"
    rule = ("a case is a history of blockings, returns, transfers between lattices and ordinary field operations on four fields, compared with a model after "
            "every step; non-trivial if the lattice is blocked at least once")
    assumptions = ["the vector (AVX) layout refuses blocking and is left out",
                   "a field of a lattice which is blocked again by the same factors from the same parent stays usable",
                   "the Fourier transform is used only if each process has sites of the blocked lattice", "lattices made in one case are met again by later cases of the same run"]

    def plan(self):
        p = {"v2": ("vanilla", 2), "v3": ("vanilla", 3), "o2": ("openmp", 2), "s2": ("asan", 2)}
        if self.thorough():
            p.update({"v4": ("vanilla", 4), "v1": ("vanilla", 1), "s3": ("asan", 3)})
        return p

    def programs(self):
        return {k: build.program("p20" + k, [H + "/p20.cpp"], v, nd, [], [H]) for k, (v, nd) in self.plan().items()}

    def sizes(self, name):
        return {1: [(16,), (24,), (30,)], 2: [(8, 8), (12, 8), (16, 4), (18, 6), (12, 12), (16, 16), (9, 6), (15, 4), (10, 14)],
                3: [(8, 8, 4), (4, 4, 4), (6, 12, 4), (8, 4, 6), (9, 6, 6), (8, 8, 8)], 4: [(4, 4, 4, 4), (8, 4, 4, 2), (6, 4, 2, 6)]}[self.plan()[name][1]]

    def gen(self, r, nd, sz):
        out = ["T %d" % r.randrange(4)]
        cur, stack = list(sz), []
        fields = {}
        for k in range(r.choice([1, 2, 2, 3])):
            out.append("set %d %d" % (k, r.randrange(1 << 30)))
            fields[k] = len(stack)
        for _ in range(r.choice([4, 8, 15, 25, 40])):
            k = r.random()
            a, b = r.randrange(4), r.randrange(4)
            if k < .16:
                fs = []
                for n in cur:
                    dv = [q for q in range(1, n + 1) if n % q == 0]
                    fs.append(r.choice(dv if r.random() < .2 else [q for q in dv if q <= 3]) if r.random() < .97 else r.choice([2, 3, 5, 7]))
                if r.random() < .3:
                    f = r.choice([2, 2, 3])
                    if all(n % f == 0 for n in cur):
                        out.append("blockn %d" % f)
                        fs = [f] * nd
                    else:
                        out.append("block " + " ".join(map(str, fs)))
                else:
                    out.append("block " + " ".join(map(str, fs)))
                if all(n % f == 0 for n, f in zip(cur, fs)):
                    if any(f > 1 for f in fs):
                        stack.append(cur)
                    cur = [n // f for n, f in zip(cur, fs)]
            elif k < .26:
                out.append("unblock")
                if stack:
                    cur = stack.pop()
            elif k < .29:
                out.append("base")
                if stack:
                    cur, stack = stack[0], []
            elif k < .40:
                out.append("set %d %d" % (a, r.randrange(1 << 30)))
            elif k < .52:
                out.append("from %d %d" % (a, b))
            elif k < .62:
                out.append("to %d %d" % (a, b))
            elif k < .70:
                out.append("cur %d" % a)
            elif k < .80:
                out.append("nb %d %d %d %d" % (a, b, r.randrange(2 * nd), r.choice([1, 2, 3, 3])))
            elif k < .84:
                out.append("elem %d %d %d" % (a, r.randrange(1 << 20), r.randrange(100000)))
            elif k < .87:
                out.append("shift %d %d %d" % (a, b, r.randrange(1 << 30)))
            elif k < .90:
                out.append("copy %d %d" % (a, b))
            elif k < .92:
                out.append("clear %d" % a)
            elif k < .94:
                out.append("scan")
            elif k < .955:
                out.append("loops")
            elif k < .975:
                out.append("typed %d %d" % (r.randrange(8), r.randrange(1 << 30)))
            elif k < .985:
                out.append("fft %d" % r.randrange(1 << 30))
            else:
                out.append("switch %d" % a)
        return out

    def jobs(self, rng, tier):
        jobs, n = [], 0
        for rd in range(60 if self.thorough() else 24):
            for name, (var, nd) in self.plan().items():
                sz = rng.choice(self.sizes(name))
                cases = []
                for _ in range(60):
                    n += 1
                    cases.append(("c%d" % n, self.gen(rng, nd, sz)))
                np = 1 if nd == 1 else rng.choice([1, 2, 3, 4, 4, 6])
                jobs.append((Config(name, np, sz, {"OMP_NUM_THREADS": "2"} if var == "openmp" else {}), cases))
        return jobs

    def keep(self, line):
        return line.startswith("T ")

    def valid(self, lines):
        return bool(lines) and lines[0].startswith("T ")

    def line_variants(self, line):
        if line.startswith("T ") and line != "T 0":
            yield "T 0"

    def shrink_cfgs(self, cfg):
        return [Config(cfg.prog, k, cfg.size, cfg.env, cfg.args) for k in (1, 2, 3) if k < cfg.np]
