"""P02: neighbour reads see current values at any distance; histories against a serial model."""
import random
from hv import build
from hv.run import Check, Config

H = build.VERIF + "/harness"
TYPES = ["int", "float", "double", "Complex<float>", "Vector<3, double>"]
MAXMAG = 1 << 20


def program(name, variant, ndim, defs=(), opts=()):
    srcs = [H + "/fieldhist_main.cpp"] + [
        ("fh_t%d" % i, ('#define HV_ARITH\n' if i < 3 else '') + '#include "fieldhist.h"\nvoid runhist_t%d(const hv::Case &c) { fh::Hist<%s>::runcase(c); }\n' % (i, t))
        for i, t in enumerate(TYPES)]
    return build.program(name, srcs, variant, ndim, list(defs), [H], list(opts))


class Gen:
    def __init__(self, rng, ndim, size, bc, allpar):
        self.r, self.nd, self.size, self.bc, self.allpar = rng, ndim, size, bc, allpar
        self.mag = [None] * 4      # None: not initialised
        self.anti = [[False] * ndim for _ in range(4)]
        self.out = []
        self.seed = rng.randrange(1 << 40)

    def s(self):
        self.seed += 1
        return self.seed

    def par(self):
        return 3 if self.allpar else self.r.choice([1, 2, 3, 3])

    def init(self):
        return [i for i in range(4) if self.mag[i] is not None]

    def dst(self, excl=(), full=False):
        """a destination not in excl; uninitialised ones only if the write is to ALL"""
        c = [i for i in range(4) if i not in excl and (full or self.mag[i] is not None)]
        return self.r.choice(c) if c else None

    def put(self, i, m, par):
        if self.mag[i] is None:
            self.anti[i] = [False] * self.nd
        self.mag[i] = m if par == 3 or self.mag[i] is None else max(m, self.mag[i])

    def step(self):
        r = self.r
        ini = self.init()
        op = r.choice("NNNNNNNNSSSAAOOOHHIITTKKEEEJGGGGGgDDLCYPMWUUXXXZ" + ("BBBB" if self.bc else ""))
        d = r.randrange(2 * self.nd)
        par = self.par()
        if not ini or op == "L":
            i = r.randrange(4)
            if self.mag[i] is None:
                par = 3
            self.put(i, 15, par)
            return "L %d %d %d" % (i, self.s(), par)
        j = r.choice(ini)
        mj = self.mag[j]
        if op in "CNIOH":
            full = par == 3 and op != "I"
            i = self.dst((j,), full)
            if op == "N" and r.random() < .2 and not self.allpar:
                p = r.choice([1, 2])
                return "N %d %d %d %d 0" % (j, j, d, p)
            if i is None:
                return None
            if op == "C":
                self.put(i, mj, par)
                return "C %d %d %d" % (i, j, par)
            if op == "N":
                self.put(i, mj, par)
                return "N %d %d %d %d %d" % (i, j, d, par, r.randrange(4 if self.allpar else 5))
            if op == "I":
                self.put(i, max(mj, self.mag[i]), par)
                return "I %d %d %d %d %d %d" % (i, j, d, par, r.randrange(2), r.randrange(self.nd))
            k = r.random()
            if k < .4:
                v = [r.choice([-1, 0, 0, 1]) for _ in range(self.nd)]
            elif k < .8:
                v = [r.choice([-2, -1, 0, 0, 1, 2, 3]) for _ in range(self.nd)]
            else:
                v = [0] * self.nd
                q = r.randrange(self.nd)
                v[q] = r.choice([-1, 1]) * r.randint(1, self.size[q] + 2)
            form = r.randrange(3)
            if op == "O":
                m = mj
                if form == 2:
                    e = (j + 1) % 4
                    if e == i:
                        e = (j + 2) % 4
                    if self.mag[e] is not None:
                        m = mj + self.mag[e]
                        if m > MAXMAG:
                            return None
                self.put(i, m, par)
                return "O %d %d %d %d %s" % (i, j, form, par, " ".join(map(str, v)))
            if form == 0:
                self.mag[i], self.anti[i] = mj, [False] * self.nd
            elif form == 1:
                self.put(i, mj, 3)
            else:
                self.put(i, mj, par)
            return "H %d %d %d %d %s" % (i, j, form, par, " ".join(map(str, v)))
        if op == "S":
            i = self.dst((j,), par == 3)
            if i is None or mj * (2 * self.nd + 1) > MAXMAG:
                return None
            self.put(i, mj * (2 * self.nd + 1), par)
            return "S %d %d %d %d" % (i, j, par, r.choice([0, 1, 2]))
        if op == "A":
            k = r.choice(ini)
            i = self.dst((j, k), par == 3)
            if i is None or mj + self.mag[k] > MAXMAG:
                return None
            self.put(i, mj + self.mag[k], par)
            return "A %d %d %d %d %d %d" % (i, j, k, d, r.randrange(2 * self.nd), par)
        if op == "T":
            i = self.dst((j,), par == 3)
            if i is None:
                return None
            k = self.dst((j, i), par == 3)
            if k is None or 2 * mj > MAXMAG:
                return None
            self.put(i, mj, par)
            self.put(k, 2 * mj, par)
            return "T %d %d %d %d %d" % (i, j, k, d, par)
        if op == "K":
            form = r.randrange(4)
            if self.mag[j] + 3 > MAXMAG:
                return None
            self.put(j, self.mag[j] + 3, 1)
            return "K %d %d %d %d" % (j, self.s(), par, form)
        if op == "E":
            self.put(j, max(mj, 3), 1)
            return "E %d %d %s" % (j, self.s(), " ".join(str(r.randrange(x)) for x in self.size))
        if op == "X":
            f = r.randrange(9)
            i = r.choice(ini)
            if f in (0, 1, 8):
                if self.mag[i] + 3 > MAXMAG:
                    return None
                self.put(i, self.mag[i] + 3, 1)
            elif f in (4, 5, 7):
                self.put(i, mj, 3)
            return "X %d %d %d %d %s" % (i, j, f, self.s(), " ".join(str(r.randrange(x)) for x in self.size))
        if op == "J":
            self.put(j, max(mj, 3), 1)
            return "J %d %d %d" % (j, self.s(), r.choice([0, 1, 2, 7, 30]))
        if op in "Gg":
            return "%s %d %d %d" % (op, j, d, par)
        if op == "D":
            return "D %d %d 3" % (j, d)
        if op == "B":
            return "B %d %d %d" % (j, d, r.choice([0, 1, 1]))
        i = r.randrange(4)
        if op == "Y" and i != j:
            self.put(i, mj, 3)
            return "Y %d %d" % (i, j)
        if op == "P":
            self.mag[i] = mj
            return "P %d %d" % (i, j)
        if op == "M" and i != j and len(ini) > 1:
            self.mag[i], self.mag[j] = mj, None
            return "M %d %d" % (i, j)
        if op == "W" and self.mag[i] is not None and i != j:
            self.mag[i], self.mag[j] = mj, self.mag[i]
            return "W %d %d" % (i, j)
        if op == "U" and self.mag[i] is not None:
            f = r.randrange(4)
            if self.mag[i] + mj > MAXMAG:
                return None
            self.mag[i] = mj if f == 3 else self.mag[i] + mj
            return "U %d %d %d" % (i, j, f)
        if op == "Z" and len(ini) > 1:
            self.mag[j] = None
            return "Z %d" % j
        return None

    def case(self, nops):
        while len(self.out) < nops:
            o = self.step()
            if o:
                self.out.append(o)
        return self.out


class C(Check):
    pid = "P02"
    rule = ("a case is a history of 4-30 field operations on up to four fields; non-trivial: every case (each reads "
            "all neighbours of all fields at the end and after its own neighbour reads)")
    assumptions = ["integer-valued elements, so that every intermediate result is exact in every element type",
                   "lattices with an odd side only see whole-lattice loops (parity loops need even sides)"]

    def plan(self):
        bc = ["-DSPECIAL_BOUNDARY_CONDITIONS"]
        p = {"v3bc": ("vanilla", 3, bc, []), "v2": ("vanilla", 2, [], []), "a4bc": ("avx2", 4, bc, []),
             "a3": ("avx2", 3, [], [])}
        if self.thorough():
            p.update({"v4bc": ("vanilla", 4, bc, []), "a2bc": ("avx2", 2, bc, []), "o3bc": ("openmp", 3, bc, []),
                      "s3bc": ("asan", 3, bc, []), "e3bc": ("vanilla", 3, bc + ["-DNODE_LAYOUT_TRIVIAL"], []),
                      "n3bc": ("vanilla", 3, bc, ["--no-interleave"])})
        return p

    def programs(self):
        return {k: program(k, *v) for k, v in self.plan().items()}

    SIZES = {2: [(4, 4), (8, 6), (2, 8), (16, 16), (6, 10), (12, 2), (8, 8)],
             3: [(4, 4, 4), (6, 4, 2), (8, 6, 4), (2, 2, 8), (4, 2, 10), (8, 8, 8), (2, 2, 2)],
             4: [(4, 4, 4, 4), (2, 4, 2, 6), (6, 2, 2, 4), (2, 2, 2, 2), (4, 4, 2, 8)]}
    ODD = {2: [(5, 4), (3, 7), (9, 9)], 3: [(3, 4, 5), (5, 5, 5), (7, 2, 3)], 4: [(3, 2, 4, 5), (3, 3, 3, 3)]}
    ASIZES = {2: [(16, 16), (8, 16), (32, 8), (24, 16)], 3: [(8, 8, 8), (16, 8, 4), (4, 8, 16), (8, 12, 8)],
              4: [(4, 4, 4, 8), (8, 8, 4, 4), (4, 8, 4, 4)]}

    def jobs(self, rng, tier):
        jobs = []
        n = 0
        rounds = 90 if self.thorough() else 8
        percase = 40
        for rd in range(rounds):
            for k, (var, nd, defs, opts) in self.plan().items():
                isz = list(self.ASIZES[nd] if var == "avx2" else self.SIZES[nd])
                combos = []
                for np in (1, 2, 3, 4, 6, 8) if var != "avx2" else (1, 2, 4, 8):
                    for sz in rng.sample(isz, 2 if np in (2, 4) else 1):
                        if var != "avx2" and not any(x % np == 0 or x >= np for x in sz):
                            continue
                        combos.append((np, sz, False))
                if var != "avx2":
                    combos.append((1, rng.choice(self.ODD[nd]), True))
                    combos.append((rng.choice([2, 3]), rng.choice(self.ODD[nd]), True))
                for np, sz, odd in combos:
                    if not fits(sz, np, var):
                        continue
                    vol = 1
                    for x in sz:
                        vol *= x
                    m = percase if vol <= 512 else percase * 2 // 3
                    if var == "asan":
                        m //= 2
                    cases = []
                    for _ in range(m):
                        g = Gen(rng, nd, sz, "bc" in k, odd)
                        n += 1
                        t = rng.randrange(len(TYPES))
                        cases.append(("h%d" % n, ["type %d" % t] + g.case(rng.choice([4, 8, 15, 30]))))
                    env = {"OMP_NUM_THREADS": "3"} if var == "openmp" else {}
                    jobs.append((Config(k, np, sz, env), cases))
        return jobs

    def keep(self, line):
        return line.startswith("type")

    def valid(self, lines):
        """replays the initialisation rules"""
        ini = set()
        for l in lines[1:]:
            w = l.split()
            o = w[0]
            a = [int(x) for x in w[1:]] if o != "type" else []
            if o in "CNIOHYPMU":
                need = {a[1]}
                if o in "UI":
                    need.add(a[0])
                par = {"C": 2, "N": 3, "I": 3, "O": 3, "H": 3}.get(o)
                if par is not None and a[par] != 3 and not (o == "H" and a[2] < 2):
                    need.add(a[0])
                if not need <= ini:
                    return False
                if o == "M":
                    ini.discard(a[1])
                ini.add(a[0])
            elif o == "X":
                if not {a[0], a[1]} <= ini:
                    return False
            elif o == "L":
                if a[2] != 3 and a[0] not in ini:
                    return False
                ini.add(a[0])
            elif o == "S":
                if a[1] not in ini or (a[2] != 3 and a[0] not in ini):
                    return False
                ini.add(a[0])
            elif o == "A":
                if not {a[1], a[2]} <= ini or (a[5] != 3 and a[0] not in ini):
                    return False
                ini.add(a[0])
            elif o == "T":
                if a[1] not in ini or (a[4] != 3 and not {a[0], a[2]} <= ini):
                    return False
                ini |= {a[0], a[2]}
            elif o == "W":
                if not {a[0], a[1]} <= ini:
                    return False
            elif o == "Z":
                ini.discard(a[0])
            elif a[0] not in ini:
                return False
        return True

    def shrink_cfgs(self, cfg):
        out = []
        for np in range(1, cfg.np):
            out.append(Config(cfg.prog, np, cfg.size, cfg.env))
        return out[::-1]


def fits(sz, np, var):
    """conservative: np splits into factors dividing the sides and every local side is >= 2 (>= 2 vector slices)"""
    vec = 16 if var == "avx2" else 1

    def rec(s, n, v):
        if n == 1 and v == 1:
            return True
        for p in (2, 3, 5):
            if n % p == 0:
                for i in range(len(s)):
                    if s[i] % p == 0 and s[i] // p >= 2:
                        if rec(s[:i] + (s[i] // p,) + s[i + 1:], n // p, v):
                            return True
                return False
        if v > 1:
            for i in range(len(s)):
                if s[i] % 2 == 0 and s[i] // 2 >= 2:
                    if rec(s[:i] + (s[i] // 2,) + s[i + 1:], n, v // 2):
                        return True
            return False
        return True
    if var != "avx2" and any(x % 2 for x in sz):
        return all(x >= 2 for x in sz)
    return rec(tuple(sz), np, vec)
