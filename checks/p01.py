"""P01: generated site loops against a serial execution of the same body."""
import concurrent.futures as cf
import json, os, random, re, time
from hv import build, gen01
from hv.run import Check, Config, run_batch

H = build.VERIF + "/harness"


def renamed(f, k):
    return tuple(re.sub(r"(hl|run|ref|L)_k\d+", r"\1_k%d" % k, x) for x in f[:2])


def sources(funcs, tag):
    """funcs: [(hila, ref)] -> sources; about 6 functions per translation unit"""
    srcs, decl, tab = [], "", []
    per = 6
    for u in range(0, len(funcs), per):
        t = '#include "p01.h"\n'
        for k, (h, r) in enumerate(funcs[u:u + per], u):
            t += h + r
            decl += "void run_k%d(p01::Env &, hv::Rng &, std::vector<double> &);\nvoid ref_k%d(p01::Ref &, hv::Rng &, std::vector<double> &);\n" % (k, k)
            tab.append("{run_k%d, ref_k%d}" % (k, k))
        srcs.append(("p01_%s_%d" % (tag, u // per), t))
    main = '#include "p01.h"\n' + decl + """
int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    lattice.setup(hv::size_vector());
    int n = 1;
    foralldir(d) n *= lattice.size(d);
    for (int s = 0; s < n; s++) {
        CoordinateVector c;
        int k = s;
        for (int d = 0; d < NDIM; d++) { c[d] = k % lattice.size(d); k /= lattice.size(d); }
        p01::cos().push_back(c);
    }
    static struct { p01::runfn run; p01::reffn ref; } tab[] = {""" + ", ".join(tab) + """};
    p01::Env e;
    hv::run([&](const hv::Case &c) {
        hv::nontriv() = true;
        for (auto &o : c.ops) {
            hv::where() = o.name() + " " + o.s(1);
            p01::Ref r;
            std::vector<double> out, want;
            uint64_t seed = o.u(2);
            p01::fill(e, r, seed);
            hv::Rng g(seed), q(seed);
            tab[o.i(1)].run(e, g, out);
            tab[o.i(1)].ref(r, q, want);
            p01::compare(e, r, out, want);
            if (hv::any_failed()) return;
        }
    });
    hila::finishrun();
    return 0;
}
"""
    return srcs + [("p01_main_" + tag, main)]


class C(Check):
    pid = "P01"
    rule = ("a case runs one generated loop function (1-3 site loops over random fields, with neighbour reads, conditions, inner loops, "
            "functions, reductions) with random fields, directions, offsets, parities and constants, and compares all fields and "
            "loop-external values with the serial reference; every case is non-trivial")
    assumptions = ["all values are integers or dyadic fractions small enough for every order of evaluation to be exact",
                   "even lattice sides (parities of neighbours differ)"]

    def plan(self):
        #      name: variant, ndim, number of functions
        p = {"v2": ("vanilla", 2, 44), "a3": ("avx2", 3, 36), "o2": ("openmp", 2, 24), "v4": ("vanilla", 4, 20)}
        if self.thorough():
            p = {"v1": ("vanilla", 1, 60), "v2": ("vanilla", 2, 120), "v3": ("vanilla", 3, 120), "v4": ("vanilla", 4, 60), "a2": ("avx2", 2, 120),
                 "a3": ("avx2", 3, 120), "a4": ("avx2", 4, 60), "o2": ("openmp", 2, 120), "o3": ("openmp", 3, 60), "s3": ("asan", 3, 60)}
        return p

    def make(self, name):
        var, nd, n = self.plan()[name]
        g = gen01.Gen(random.Random("P01-%s-%d" % (name, self.seed)), nd, var == "avx2")
        return [g.function("k%d" % k) for k in range(n)]

    def programs(self):
        self.funcs = {k: self.make(k) for k in self.plan()}
        self.drop = {k: [] for k in self.plan()}
        return {k: (lambda k=k: self.prog(k)) for k in self.plan()}

    def compiled(self, name, funcs, tag):
        var, nd, _ = self.plan()[name]
        return build.program("p01" + tag, sources(funcs, tag), var, nd, [], [H])()

    def prog(self, name):
        """the program of one build; functions which do not compile are replaced by empty ones"""
        fs = [(h, r) for h, r, _, _ in self.funcs[name]]
        for rnd in range(4):
            tag = name + "_d%d" % rnd if rnd else name
            try:
                return self.compiled(name, fs, tag)
            except build.BuildError as e:
                err = e
            units = {int(x) for x in re.findall(r"p01_%s_(\d+)\.cp" % tag, err.log + err.what)}
            todo = [k for k in range(len(fs)) if not units or rnd > 1 or k // 6 in units]

            def one(k):
                try:
                    self.compiled(name, [renamed(fs[k], 0)], "%s_f%d" % (name, k))
                except build.BuildError as e:
                    return e.log
            bad = 0
            with cf.ThreadPoolExecutor(6) as ex:
                for k, log in zip(todo, ex.map(one, todo)):
                    if log:
                        bad += 1
                        self.drop[name].append((k, log))
                        fs[k] = ("void run_k%d(p01::Env &, hv::Rng &, std::vector<double> &) {}\n" % k, "void ref_k%d(p01::Ref &, hv::Rng &, std::vector<double> &) {}\n" % k)
            if not bad or len(self.drop[name]) == len(fs):
                break
        raise err

    def extra(self):
        for name, l in self.drop.items():
            self.stats["functions"] += len(self.funcs[name])
            self.stats["functions_not_compiled"] += len(l)
            if len(l) > 0.15 * len(self.funcs[name]):
                k, log = min(l, key=lambda x: len(self.funcs[name][x[0]][0]))
                self.violation("%s: %d of %d generated loops do not compile, for example: %s" % (name, len(l), len(self.funcs[name]), "\n".join(x for x in log.splitlines() if "rror" in x)[:400]),
                               dict(compile=name, hila=renamed(self.funcs[name][k], 0)[0], ref=renamed(self.funcs[name][k], 0)[1]))

    # ---- a failing loop is reduced by removing loops and statements
    def shrink(self, cfg, lines, last):
        self.repsrc = None
        seed = lines[0].split()[2]
        name, k = cfg.prog, int(lines[0].split()[1])
        h, r, _, loops = self.funcs[name][k]
        best, t_end = None, time.time() + 90
        cand = [[list(l[2]) for l in loops]]
        cur = None

        def build_of(bodies):
            hh, rr = h, r
            for l, b in zip(loops, bodies):
                old = "\n".join(l[2])
                if len(l[2]) == 1 and l[0].count("\n") == 0:  # the one-line form
                    hh, rr = (hh, rr) if b else (hh.replace(l[0], ""), rr.replace(l[1], ""))
                else:
                    t = "\n".join(b)
                    hh = hh.replace(l[0], l[0].replace(gen01.hila(old), gen01.hila(t)) if b else "")
                    rr = rr.replace(l[1], l[1].replace(gen01.ref(old), gen01.ref(t)) if b else "")
            return renamed((hh, rr), 0)

        def test(bodies):
            if time.time() > t_end:
                return None
            try:
                src = build_of(bodies)
                key = "x%s_%d" % (name, abs(hash(src)))
                self.exes[key] = self.compiled(name, [src], key)
            except build.BuildError:
                return None
            c = Config(key, cfg.np, cfg.size, cfg.env, cfg.args)
            res = self.single(c, ["f 0 " + seed], 30)
            return (bodies, src, res) if res else None
        first = test(cand[0])
        if not first:
            return cfg, lines, last
        cur = first
        while time.time() < t_end:
            bodies, cands = cur[0], []
            for i, b in enumerate(bodies):
                if b and sum(1 for x in bodies if x) > 1:
                    cands.append(bodies[:i] + [[]] + bodies[i + 1:])
            for i, b in enumerate(bodies):
                for j in range(len(b)):
                    d, e = b[j].count("{") - b[j].count("}"), j + 1
                    while d > 0 and e < len(b):
                        d += b[e].count("{") - b[e].count("}")
                        e += 1
                    if d == 0 and len(b) > e - j:
                        cands.append(bodies[:i] + [b[:j] + b[e:]] + bodies[i + 1:])
            with cf.ThreadPoolExecutor(6) as ex:
                ok = [x for x in ex.map(test, cands) if x]
            if not ok:
                break
            cur = min(ok, key=lambda x: sum(len(b) for b in x[0]))
        self.repsrc = (name, cur[1])
        return cfg, ["f 0 " + seed], cur[2]

    def write_replay(self, cfg, lines, result, cases=None):
        p = super().write_replay(cfg, lines, result, cases)
        j = json.load(open(p))
        if lines and self.repsrc:
            j["source"] = dict(hila=self.repsrc[1][0], ref=self.repsrc[1][1])
        elif lines:
            f = self.funcs[cfg.prog][int(lines[0].split()[1])]
            f = renamed(f, 0)
            j["lines"] = ["f 0 " + lines[0].split()[2]]
            j["source"] = dict(hila=f[0], ref=f[1])
        json.dump(j, open(p, "w"), indent=1)
        return p

    def replay(self, path):
        j = json.load(open(path))
        if j.get("data", {}).get("compile"):
            try:
                self.compiled(j["data"]["compile"], [(j["data"]["hila"], j["data"]["ref"])], "replay")
            except build.BuildError as e:
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                return 1
            return 0
        if not j.get("source"):
            return super().replay(path)
        cfg = Config.from_json(j["config"])
        self.exes[cfg.prog] = self.compiled(cfg.prog, [(j["source"]["hila"], j["source"]["ref"])], "replay")
        r = self.single(cfg, j["lines"])
        if r:
            print("%s: %s %s" % (self.pid, r[0], r[1]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("%s: the replayed case passes" % self.pid)
        return 0

    def sizes(self, name):
        var, nd, _ = self.plan()[name]
        if var == "avx2":
            return {2: [(16, 8), (16, 16)], 3: [(8, 8, 8), (16, 8, 4)], 4: [(8, 4, 4, 4), (4, 4, 4, 8)]}[nd]
        return {1: [(8,), (16,), (2,)], 2: [(4, 4), (8, 6), (2, 8), (12, 4)], 3: [(4, 4, 4), (6, 4, 2), (2, 4, 8)], 4: [(4, 4, 4, 4), (2, 4, 4, 2)]}[nd]

    def jobs(self, rng, tier):
        jobs, n = [], 0
        for rd in range(12 if self.thorough() else 3):
            for name, (var, nd, nf) in self.plan().items():
                cases = []
                for k in range(len(self.funcs[name])):
                    for _ in range(3):
                        n += 1
                        cases.append(("c%d" % n, ["f %d %d" % (k, rng.randrange(1 << 40))]))
                size = rng.choice(self.sizes(name))
                np = rng.choice([1, 2, 4]) if nd > 1 else 1
                jobs.append((Config(name, np, size, {"OMP_NUM_THREADS": rng.choice(["2", "4"])} if var == "openmp" else {}), cases))
        return jobs
