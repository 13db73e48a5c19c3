"""P08: files of fields and configurations."""
from hv import build
from hv.run import Check, Config, scratch, mpirun
from p02 import fits
import os, shutil, random

H = build.VERIF + "/harness"
TYPES = ["double", "int", "Complex<float>", "Vector<3, float>", "SU<3, double>", "SU<2, float>", "Array<2, 2, double>", "int64_t"]
GAUGE = (4, 5)
QUICK = {"v3": (0, 2, 4), "v2": (1, 3, 5), "a3": (0, 4), "b3": (6, 5)}


def program(name, variant, ndim, types, defs=()):
    srcs = [("io_t%d" % i, '%s#include "io.h"\nvoid run_t%d(const hv::Case &c) { io::Io<%s>::runcase(c); }\n' %
             ("#define IO_GAUGE\n" if i in GAUGE else "", i, TYPES[i])) for i in types]
    main = '#include "disp.h"\n' + "".join("void run_t%d(const hv::Case &c);\n" % i for i in types) + \
        "int main(int argc, char **argv) {\n hila::initialize(argc, argv);\n lattice.setup(hv::size_vector());\n" \
        " hv::run([](const hv::Case &c) { dispatch(c, {%s}); });\n hila::finishrun();\n return 0;\n}\n" % \
        ", ".join("run_t%d" % i if i in types else "nullptr" for i in range(len(TYPES)))
    return build.program(name, srcs + [("io_main", main)], variant, ndim, list(defs), [H])


class C(Check):
    pid = "P08"
    rule = "a case loads three fields and does 1-6 file operations, each compared byte by byte or site by site; all are non-trivial"
    assumptions = ["the file format is that of the code: raw elements, x fastest, configurations with a header of 64-bit integers",
                   "text output is compared to the requested number of digits"]

    def plan(self):
        # b3: buffers of the default size; the others have small ones so that a field takes many blocks
        p = {"v3": ("vanilla", 3, 700), "v2": ("vanilla", 2, 333), "a3": ("avx2", 3, 5000), "b3": ("vanilla", 3, 0)}
        if self.thorough():
            p.update({"v4": ("vanilla", 4, 1000), "o3": ("openmp", 3, 640), "s3": ("asan", 3, 700), "a4": ("avx2", 4, 0)})
        return p

    def types(self, k):
        return tuple(range(len(TYPES))) if self.thorough() else QUICK[k]

    def programs(self):
        return {k: program("io" + k, v[0], v[1], self.types(k), ["-DWRITE_BUFFER_SIZE=%d" % v[2]] if v[2] else []) for k, v in self.plan().items()}

    SIZES = {2: [(4, 4), (8, 6), (2, 8), (16, 4), (6, 10), (5, 7), (9, 2)],
             3: [(4, 4, 4), (6, 4, 2), (8, 6, 4), (2, 2, 8), (3, 5, 7), (12, 3, 4)],
             4: [(4, 4, 4, 4), (2, 4, 2, 6), (3, 2, 5, 4)]}
    ASIZES = {2: [(16, 16), (8, 16)], 3: [(8, 8, 8), (16, 8, 4)], 4: [(4, 4, 4, 8)]}

    def gen(self, r, nd, t):
        out = ["type %d" % t]

        def sd():
            return r.randrange(1 << 40)

        def dr():
            return r.randrange(-1, 2 * nd)
        for _ in range(r.choice([1, 2, 3, 6])):
            o = r.choice("load write read read readnew stream list text sub sub slice tile tile gauge gauge plaq".split())
            q = r.randrange(3)
            if o == "load":
                out.append("load %d %d %d" % (q, sd(), dr()))
            elif o == "write":
                out.append("write %d" % q)
            elif o in ("read", "tile"):
                out.append("%s %d %d %d" % (o, q, sd(), dr()))
            elif o == "readnew":
                out.append("readnew %d %d" % (sd(), dr()))
            elif o == "stream":
                out.append("stream %d" % dr())
            elif o == "list":
                out.append("list %d %d %d" % (r.choice([2, 3]), sd(), dr()))
            elif o == "text":
                out.append("text %d %d %d" % (q, r.choice([3, 6, 8, 12, 17]), r.randrange(2)))
            elif o in ("sub", "slice"):
                out.append("%s %d %d %d %d" % (o, sd(), r.choice([0, 0, 1, 2]), r.choice([4, 6, 8, 12]), q))
            elif t in GAUGE:
                out.append("%s %d %d %d" % (o, r.randrange(3), sd(), dr()))
        return out if len(out) > 1 else out + ["write 0"]

    def jobs(self, rng, tier):
        jobs, n = [], 0
        for rd in range(60 if self.thorough() else 6):
            for k, (var, nd, _) in self.plan().items():
                for np in (1, 2, 3, 4, 6) if var != "avx2" else (1, 2, 4):
                    sz = rng.choice(self.ASIZES[nd] if var == "avx2" else self.SIZES[nd])
                    if not fits(sz, np, var):
                        continue
                    cases = []
                    for _ in range(20):
                        n += 1
                        cases.append(("i%d" % n, self.gen(rng, nd, rng.choice(self.types(k)))))
                    jobs.append((Config(k, np, sz, {"OMP_NUM_THREADS": "3"} if var == "openmp" else {}), cases))
        return jobs

    def keep(self, line):
        return line.split()[0] in ("type", "load")

    def shrink_cfgs(self, cfg):
        return [Config(cfg.prog, np, cfg.size, cfg.env) for np in range(cfg.np - 1, 0, -1)]

    # ---- damaged files: each must end the run instead of being loaded
    def damage(self, cfg, lines):
        d = scratch()
        try:
            with open(d + "/cases.txt", "w") as f:
                f.write("case d\n%s\nend\n" % "\n".join(lines))
            rc, out = mpirun(self.exes[cfg.prog], cfg.np, [], dict(HV_CASES=d + "/cases.txt", HV_OUT=d + "/out.txt",
                             HV_SIZE=",".join(map(str, cfg.size))), d, 60)
            res = open(d + "/out.txt").read() if os.path.exists(d + "/out.txt") else ""
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if rc is None:
            return "the run hangs after a damaged file"
        if "R d" in res:
            return "damaged file accepted: " + res.strip()[-300:]
        if "B d" not in res:
            return None
        if "ERROR" not in out:
            return "no refusal is reported (exit %s): %s" % (rc, out[-300:])
        return None

    def extra(self):
        r = random.Random("dmg%d" % self.seed)
        todo = []
        for prog, t, nd, sz in (("v2", 5, 2, (4, 6)), ("v3", 4, 3, (4, 4, 2))):
            for np in (1, 2):
                for w, v in [(0, 0), (0, 394824243), (0, 1 << 32 | 394824242), (1, 0), (1, 5 - nd), (1, nd + (1 << 32)), (2, 8), (2, -4), (2, 1 << 32)] + \
                        [(3 + d, x) for d in range(nd) for x in (0, -sz[d], sz[d] + (1 << 32), 2 * sz[d], sz[d] - 1 if sz[d] > 2 else 3)]:
                    todo.append((Config(prog, np, sz), ["type %d" % t, "damage %d %d 0" % (w, v)]))
                for cut in (1, 7, 100, r.randrange(1, 300)):
                    todo.append((Config(prog, np, sz), ["type %d" % t, "damage -1 0 %d" % cut]))
                    todo.append((Config(prog, np, sz), ["type %d" % t, "short %d" % cut]))
                todo.append((Config(prog, np, sz), ["type %d" % t, "nofile"]))
        if not self.thorough():
            r.shuffle(todo)
            keep = todo[:60]
            todo = keep
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(8) as ex:
            for (cfg, lines), msg in zip(todo, ex.map(lambda a: self.damage(*a), todo)):
                self.record(cfg.key() + lines[1], True, ["damaged-file"])
                if msg:
                    if all(self.damage(cfg, lines) for _ in range(2)):
                        self.violation("%s: %s: %s" % (cfg.key(), " ; ".join(lines), msg), dict(config=cfg.to_json(), lines=lines))

    def replay_data(self, j):
        cfg = Config.from_json(j["data"]["config"])
        m = self.damage(cfg, j["data"]["lines"])
        if m:
            print("%s\nVIOLATION property=P08 replay=?" % m)
            return 1
        return 0
