"""P05: global access to fields against a serial model."""
from hv import build
from hv.run import Check, Config
from p02 import fits

H = build.VERIF + "/harness"
#        type, complex (has reflect), has ++
TYPES = [("int", 0, 1), ("double", 0, 1), ("Complex<double>", 1, 0), ("Complex<float>", 1, 0), ("Vector<3, float>", 0, 0)]


def program(name, variant, ndim, defs=(), opts=()):
    srcs = [H + "/access_main.cpp"] + [
        ("ac_t%d" % i, '#define AC_CPLX %d\n#define AC_INCR %d\n#include "access.h"\nvoid runacc_t%d(const hv::Case &c) { ac::Acc<%s>::runcase(c); }\n' % (t[1], t[2], i, t[0]))
        for i, t in enumerate(TYPES)]
    return build.program(name, srcs, variant, ndim, list(defs), [H], list(opts))


class C(Check):
    pid = "P05"
    rule = ("a case loads a field of a given element type and performs 3-20 element, list, slice, box, local-data, shift "
            "or reflect operations; every case is non-trivial (the whole field and all neighbours are compared)")
    assumptions = ["integer-valued elements, exact in every element type",
                   "process-local data with halo is only required where every process has at least two sites in each "
                   "direction (see known_findings.txt)"]

    def plan(self):
        p = {"v3": ("vanilla", 3, [], []), "v2": ("vanilla", 2, [], []), "a3": ("avx2", 3, [], [])}
        if self.thorough():
            p.update({"v4": ("vanilla", 4, [], []), "a2": ("avx2", 2, [], []), "a4": ("avx2", 4, [], []),
                      "o3": ("openmp", 3, [], []), "s3": ("asan", 3, [], [])})
        return p

    def programs(self):
        return {k: program(k, *v) for k, v in self.plan().items()}

    SIZES = {2: [(4, 4), (8, 6), (2, 8), (16, 4), (6, 10), (12, 2), (5, 7), (3, 8), (9, 4)],
             3: [(4, 4, 4), (6, 4, 2), (8, 6, 4), (2, 2, 8), (4, 2, 10), (3, 4, 5), (5, 5, 5), (7, 2, 3)],
             4: [(4, 4, 4, 4), (2, 4, 2, 6), (6, 2, 2, 4), (3, 2, 4, 5)]}
    ASIZES = {2: [(16, 16), (8, 16), (32, 8)], 3: [(8, 8, 8), (16, 8, 4), (4, 8, 16)],
              4: [(4, 4, 4, 8), (8, 8, 4, 4)]}

    def gen(self, r, nd, sz, t):
        vol = 1
        for x in sz:
            vol *= x
        out = ["type %d" % t, "load %d" % r.randrange(1 << 40)]

        def crd():
            if r.random() < .2:
                return [r.choice([0, x - 1]) for x in sz]
            return [r.randrange(x) for x in sz]
        muls = 0
        for _ in range(r.choice([3, 6, 12, 20])):
            o = r.choice("get get get set set add sub mul inc inc gets gets sets sets slice slice boxr boxr local setlocal halo shift shift reflect reflect load".split())
            s = r.randrange(1 << 40)
            c = " ".join(map(str, crd()))
            if o == "get":
                out.append("get " + c)
            elif o in ("set", "add"):
                out.append("%s %d %s" % (o, s, c))
            elif o == "sub":
                out.append("add %d %s" % (s, c))
            elif o == "mul":
                if muls < 6:
                    muls += 1
                    out.append("mul %d %s" % (s, c))
            elif o == "inc":
                if TYPES[t][2]:
                    out.append("inc %d %s" % (r.randrange(4), c))
            elif o in ("gets", "sets"):
                n = r.choice([0, 1, 2, 5, 17, 60])
                out.append("%s %d %d" % (o, s, n) + (" %d" % r.randrange(2) if o == "gets" else ""))
            elif o == "slice":
                v = [r.choice([-1, r.randrange(x)]) for x in sz]
                out.append("slice %d %s" % (r.randrange(2), " ".join(map(str, v))))
            elif o == "boxr":
                a = crd()
                b = [r.randint(x, y - 1) for x, y in zip(a, sz)]
                out.append("boxr %d %s" % (r.randrange(2), " ".join(map(str, a + b))))
            elif o in ("local", "halo"):
                out.append(o)
            elif o in ("setlocal", "load"):
                out.append("%s %d" % (o, s))
            elif o == "shift":
                v = [r.choice([-3, -2, -1, 0, 0, 1, 2, x, -x - 1]) for x in sz]
                if r.random() < .1:
                    v = [r.choice([0, 0, 0, 1, x]) for x in sz]
                out.append("shift %d %s" % (r.randrange(5), " ".join(map(str, v))))
            elif o == "reflect":
                if TYPES[t][1]:
                    out.append("reflect %d %d" % (r.randrange(1, 1 << nd), r.randrange(2)))
        return out

    def jobs(self, rng, tier):
        jobs, n = [], 0
        for rd in range(60 if self.thorough() else 9):
            for k, (var, nd, defs, opts) in self.plan().items():
                for np in (1, 2, 3, 4, 6, 8) if var != "avx2" else (1, 2, 4, 8):
                    for sz in rng.sample(self.ASIZES[nd] if var == "avx2" else self.SIZES[nd], 2):
                        if not fits(sz, np, var):
                            continue
                        cases = []
                        for _ in range(25):
                            n += 1
                            t = rng.randrange(len(TYPES))
                            cases.append(("a%d" % n, self.gen(rng, nd, sz, t)))
                        jobs.append((Config(k, np, sz, {"OMP_NUM_THREADS": "3"} if var == "openmp" else {}), cases))
        return jobs

    def keep(self, line):
        return line.startswith("type")

    def valid(self, lines):
        return len(lines) > 1 and lines[1].startswith("load")

    def shrink_cfgs(self, cfg):
        return [Config(cfg.prog, np, cfg.size, cfg.env) for np in range(cfg.np - 1, 0, -1)]

    def replay_known(self):
        cfg = Config("v2", 4, (5, 7))
        r = self.single(cfg, ["type 0", "load 7", "halo 1"])
        if r and r[0] == "FAIL" and "copy_local_data_with_halo: element" in r[1]:
            self.known_hits.append("copy_local_data_with_halo() leaves corner sites of the halo unset on processes whose "
                                   "local extent is 1 in some direction (5x7 lattice, 4 processes)")
