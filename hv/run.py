"""Runs harness programs over batches of cases, and drives a whole check: jobs, replays, shrinking, evidence."""
import collections, concurrent.futures as cf, hashlib, json, os, random, shutil, signal, subprocess, sys, tempfile, threading, time, traceback
from . import build

VERIF = build.VERIF
MPI_ENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_plm="isolated",
               OMPI_MCA_pml="ob1", OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none",
               OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none",
               OMPI_MCA_mpi_yield_when_idle="1", OMP_NUM_THREADS="1",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=97:detect_stack_use_after_return=0",
               UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1")


class Slots:
    """at most n process slots in use"""
    def __init__(self, n):
        self.n, self.free, self.cv = n, n, threading.Condition()

    def take(self, k):
        k = min(k, self.n)
        with self.cv:
            while self.free < k:
                self.cv.wait()
            self.free -= k
        return k

    def give(self, k):
        with self.cv:
            self.free += k
            self.cv.notify_all()


SLOTS = Slots(build.NJ)


def launcher_failed(out):
    """MPI itself did not start: nothing of the program ran"""
    return ("orte_init" in out or "ORTE_ERROR_LOG" in out or "opal_init" in out or "PMIX ERROR" in out) and "hila" not in out.lower()


def mpirun(exe, np, args=(), env=None, cwd=None, timeout=240, stdin=None):
    """returns (exit status or None on time-out, output)"""
    e = build.env()
    e.setdefault("OMP_WAIT_POLICY", "passive")     # spinning threads of oversubscribed runs only waste time
    e.update(MPI_ENV)
    e.update(env or {})
    cmd = [exe] + list(args)
    if np > 1:
        cmd = ["mpirun", "--oversubscribe", "--bind-to", "none", "-n", str(np)] + cmd
    k = SLOTS.take(np)
    try:
        for attempt in range(4):
            td = tempfile.mkdtemp(prefix="hv", dir="/tmp")   # own session directory: launchers must not share one
            e["TMPDIR"] = e["OMPI_MCA_orte_tmpdir_base"] = td
            try:
                p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=open(stdin, 'rb') if stdin else subprocess.DEVNULL, stdout=subprocess.PIPE,
                                     stderr=subprocess.STDOUT, start_new_session=True)
                try:
                    out, _ = p.communicate(timeout=timeout)
                    out = out.decode(errors="replace")
                    if p.returncode != 0 and launcher_failed(out):
                        time.sleep(0.5 + attempt)
                        continue
                    return p.returncode, out
                except subprocess.TimeoutExpired:
                    try:
                        os.killpg(p.pid, signal.SIGTERM)
                        time.sleep(1.0)
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    out, _ = p.communicate()
                    return None, out.decode(errors="replace")
            finally:
                shutil.rmtree(td, ignore_errors=True)
        raise build.BuildError("mpirun", out)
    finally:
        SLOTS.give(k)


class Config:
    """how a batch of cases is run: a built program (key into Check.programs), ranks, lattice size, environment"""
    def __init__(self, prog, np, size, env=None, args=()):
        self.prog, self.np, self.size, self.env, self.args = prog, np, tuple(size), dict(env or {}), list(args)

    def key(self):
        return "%s np=%d size=%s" % (self.prog, self.np, "x".join(map(str, self.size)))

    def to_json(self):
        return dict(prog=self.prog, np=self.np, size=list(self.size), env=self.env, args=self.args)

    @staticmethod
    def from_json(j):
        return Config(j["prog"], j["np"], j["size"], j.get("env"), j.get("args", ()))


_tmp_n = 0
_tmp_lock = threading.Lock()


def scratch():
    global _tmp_n
    with _tmp_lock:
        _tmp_n += 1
        d = os.path.join(build.workdir(), "r%06d" % _tmp_n)
    os.makedirs(d)
    return d


REFUSALS = ("Could not successfully lay out", "Lattice must be even to all directions for vector/AVX layout", "CANNOT HAPPEN! in setup_layout_vector.c")


def run_batch(exe, cfg, cases, timeout=300, must_accept=False):
    """cases: list of (id, [lines]).  Returns {id: (status, msg, nontrivial, tags)}; status OK, FAIL, CRASH, HANG,
    LOST (not reached)."""
    res = {}
    todo = list(cases)
    rounds = 0
    while todo:
        rounds += 1
        d = scratch()
        try:
            with open(d + "/cases.txt", "w") as f:
                for cid, lines in todo:
                    f.write("case %s\n%s\nend\n" % (cid, "\n".join(lines)))
            env = dict(cfg.env)
            env.update(HV_CASES=d + "/cases.txt", HV_OUT=d + "/out.txt", HV_SIZE=",".join(map(str, cfg.size)))
            rc, out = mpirun(exe, cfg.np, cfg.args, env, d, timeout)
            begun, ended = None, False
            if os.path.exists(d + "/out.txt"):
                for line in open(d + "/out.txt", errors="replace"):
                    w = line.rstrip("\n").split(" ", 3)
                    if w[0] == "B":
                        begun = w[1]
                    elif w[0] == "R":
                        if w[2] == "OK":
                            r = w[3].split(" ") if len(w) > 3 else ["0"]
                            res[w[1]] = ("OK", "", r[0] == "1", r[1].split(",") if len(r) > 1 and r[1] else [])
                        else:
                            res[w[1]] = ("FAIL", w[3] if len(w) > 3 else "", True, [])
                        begun = None
                    elif w[0] == "E":
                        ended = True
        finally:
            shutil.rmtree(d, ignore_errors=True)
        tail = " | ".join([l for l in out.replace("\r", "\n").split("\n") if l.strip()][-14:])[-900:]
        if ended and rc == 0:
            break
        if ended:      # every case passed its oracle, but the program did not end cleanly
            res["@exit"] = ("CRASH" if rc is not None else "HANG", "end of program: exit %s: %s" % (rc, tail), True, [])
            break
        if begun is None and rc == 0 and not must_accept and any(t in out for t in REFUSALS):
            for c, _ in todo:
                res[c] = ("REFUSED", "", False, [])
            break
        if begun is None and not any(c in res for c, _ in todo):
            res["@start"] = ("CRASH" if rc is not None else "HANG", "before the first case: exit %s: %s" % (rc, tail), True, [])
            break
        if begun is not None:
            res[begun] = ("CRASH" if rc is not None else "HANG", "exit %s: %s" % (rc, tail), True, [])
        todo = [c for c in todo if c[0] not in res]
        if rounds >= 3 or rc is None:
            break
    for cid, _ in cases:
        res.setdefault(cid, ("LOST", "", False, []))
    return res


class Violation(Exception):
    pass


class Check:
    """One property.  Subclasses give: pid, rule, programs() -> {name: builder callable}, jobs(rng, tier) -> list of
    (Config, [(id, lines)]), and optionally shrink_cfgs(cfg), keep(line) (lines never dropped), line_variants(line)."""
    pid = None
    rule = ""
    level = "exploration"
    assumptions = []
    batch_timeout = 400
    quick_timeout = 150
    single_timeout = 60
    refused_limit = 0.4

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.t0 = time.time()
        self.stats = collections.Counter()
        self.tagc = collections.Counter()
        self.samples = []
        self.distinct = set()
        self.evals = 0
        self.violations = []
        self.known_hits = []
        self.exes = {}
        self.notes = {}

    # ---- to be overridden
    def programs(self):
        return {}

    def jobs(self, rng, tier):
        return []

    def keep(self, line):
        return False

    def line_variants(self, line):
        return []

    def shrink_cfgs(self, cfg):
        return []

    def known(self):
        """list of (description, predicate(cfg, lines, msg)) for recorded findings"""
        return []

    def must_accept(self, cfg):
        """true if start-up may not refuse this lattice size and process count"""
        return False

    def extra(self):
        """additional direct checks; call self.record(...)"""

    # ---- machinery
    def thorough(self):
        return self.tier == "thorough"

    def build(self):
        progs = self.programs()
        for k, f in progs.items():
            self.exes[k] = f()
        self.stats["build_s"] = int(time.time() - self.t0)

    def record(self, key, nontrivial, tags=(), sample=None, n=1):
        """book-keeping for one evaluated case; key identifies it"""
        self.evals += n
        if nontrivial:
            self.distinct.add(hashlib.md5(key.encode()).digest())
            if sample is not None and len(self.samples) < 6:
                self.samples.append(sample[:700])
        for t in tags:
            self.tagc[t] += 1

    def run_jobs(self, jobs):
        fails = []
        lk = threading.Lock()

        def one(job):
            cfg, cases = job
            if len(fails) > 40 or any(f[3] == "HANG" for f in fails):
                return
            if not self.thorough() and fails and time.time() - self.t0 > 240:
                return
            r = run_batch(self.exes[cfg.prog], cfg, cases, self.batch_timeout if self.thorough() else self.quick_timeout, must_accept=self.must_accept(cfg))
            bylines = dict(cases)
            with lk:
                for cid, (st, msg, nt, tags) in r.items():
                    if cid.startswith("@"):
                        fails.append((cfg, cases, None, st, msg))
                        continue
                    if st in ("LOST", "REFUSED"):
                        self.stats[st.lower()] += 1
                        continue
                    lines = bylines[cid]
                    self.record(cfg.key() + "\n".join(lines), nt, tags,
                                "%s: %s" % (cfg.key(), " ; ".join(lines)))
                    self.tagc["np=%d" % cfg.np] += 1
                    self.tagc["build=" + cfg.prog] += 1
                    if st != "OK":
                        fails.append((cfg, cases, cid, st, msg))
        jobs = sorted(jobs, key=lambda j: -j[0].np)
        with cf.ThreadPoolExecutor(12) as ex:
            for f in [ex.submit(one, j) for j in jobs]:
                f.result()
        return fails

    def single(self, cfg, lines, timeout=None):
        r = run_batch(self.exes[cfg.prog], cfg, [("c", lines)], timeout or self.single_timeout, must_accept=self.must_accept(cfg))
        for k in ("c", "@exit", "@start"):
            if k in r and r[k][0] not in ("OK", "LOST", "REFUSED"):
                return r[k][0], r[k][1]
        return None

    def match_known(self, cfg, lines, msg):
        for desc, pred in self.known():
            try:
                if pred(cfg, lines, msg):
                    return desc
            except Exception:
                pass
        return None

    def handle(self, fails):
        """confirm, shrink and report; one violation is enough"""
        seen_known = set()
        for cfg, cases, cid, st, msg in sorted(fails, key=lambda f: (f[3] == "HANG", f[2] is None, f[0].np, len(dict(f[1]).get(f[2], [])))):
            lines = dict(cases)[cid] if cid is not None else []
            k = self.match_known(cfg, lines, msg)
            if k:
                if k not in seen_known:
                    seen_known.add(k)
                    self.known_hits.append(k)
                self.stats["known_finding_cases"] += 1
                continue
            if self.violations:
                self.stats["further_failures"] += 1
                continue
            prefix = False
            reps = [self.single(cfg, lines, None if self.thorough() else 40) for _ in range(3)] if cid is not None else [None]
            if not all(reps):
                # state left by earlier cases of the batch may matter
                idx = [c for c, _ in cases].index(cid) if cid is not None else len(cases) - 1
                pre = cases[:idx + 1]

                def again():
                    r = run_batch(self.exes[cfg.prog], cfg, pre, self.batch_timeout if self.thorough() else 80, must_accept=self.must_accept(cfg))
                    for c, v in r.items():
                        if v[0] not in ("OK", "LOST", "REFUSED"):
                            return v[0], v[1]
                    return None
                reps = [again() for _ in range(3)]
                prefix = True
            if not all(reps):
                self.stats["not_reproduced"] += 1
                print("note: %s: a failure did not reproduce 3 of 3 times (%s: %s)" % (self.pid, cfg.key(), msg[:300]))
                continue
            if prefix:
                flat = [("%s" % c, l) for c, l in pre]
                path = self.write_replay(cfg, None, reps[0], flat)
            else:
                cfg2, lines2, last = self.shrink(cfg, lines, reps[0])
                path = self.write_replay(cfg2, lines2, last)
            self.violations.append(path)
            print("%s: %s: %s" % (self.pid, cfg.key(), msg[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)

    def shrink(self, cfg, lines, last):
        t_end = time.time() + 60
        best = list(lines)

        def bad(c, ls):
            nonlocal last
            if time.time() > t_end:
                return False
            r = self.single(c, ls, 20)
            if r and r[0] == "HANG" and last[0] != "HANG":
                return False
            if r and not self.match_known(c, ls, r[1]):
                last = r
                return True
            return False
        if last[0] == "HANG":
            return cfg, best, last
        n = max(1, len(best) // 2)
        while n >= 1 and time.time() < t_end:
            i, changed = 0, False
            while i < len(best):
                cand = best[:i] + [l for l in best[i:i + n] if self.keep(l)] + best[i + n:]
                if len(cand) < len(best) and self.valid(cand) and bad(cfg, cand):
                    best, changed = cand, True
                else:
                    i += n
            if n == 1 and not changed:
                break
            n = n // 2 if n > 1 else 1
        for i in range(len(best)):
            for v in self.line_variants(best[i]):
                cand = best[:i] + [v] + best[i + 1:]
                if bad(cfg, cand):
                    best = cand
        for c in self.shrink_cfgs(cfg):
            if bad(c, best):
                cfg = c
        return cfg, best, last

    def valid(self, lines):
        return True

    def write_replay(self, cfg, lines, result, cases=None):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        body = dict(property=self.pid, config=cfg.to_json() if cfg else None, lines=lines, result=list(result), seed=self.seed, tier=self.tier)
        if cases:
            body["cases"] = cases
        s = json.dumps(body, indent=1)
        p = os.path.join(d, "%s-%s.json" % (self.pid, hashlib.md5(s.encode()).hexdigest()[:10]))
        with open(p, "w") as f:
            f.write(s)
        return p

    def violation(self, what, data):
        """report a violation found outside the batch protocol"""
        if self.violations:
            self.stats["further_failures"] += 1
            return
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        s = json.dumps(dict(property=self.pid, what=what, data=data, seed=self.seed, tier=self.tier), indent=1)
        p = os.path.join(d, "%s-%s.json" % (self.pid, hashlib.md5(s.encode()).hexdigest()[:10]))
        with open(p, "w") as f:
            f.write(s)
        self.violations.append(p)
        print("%s: %s" % (self.pid, what[:800]))
        print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)

    def evidence(self):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(evaluations=self.evals, distinct_nontrivial=len(self.distinct), rule=self.rule,
                                samples=self.samples or ["none"], classes=dict(sorted(self.tagc.items())),
                                stats=dict(self.stats), **self.notes),
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations),
                  assumptions=list(self.assumptions))
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        p = VERIF + "/evidence/%s.json" % self.pid
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)

    def replay_known(self):
        """subclasses may re-run recorded findings and append to self.known_hits"""

    def main(self):
        rng = random.Random("%s-%d" % (self.pid, self.seed))
        try:
            self.build()
            self.replay_known()
            jobs = self.jobs(rng, self.tier)
            fails = self.run_jobs(jobs) if jobs else []
            self.handle(fails)
            if not self.violations:
                self.extra()
            self.evidence()
        except build.BuildError as e:
            print("%s: the harness could not be built: %s\n%s" % (self.pid, e.what, e.log[-3000:]))
            return 3
        for k in self.known_hits:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if self.violations:
            return 1
        ncase = self.evals
        if self.stats["refused"] > self.refused_limit * max(1, ncase):
            print("%s: the layout of %d cases was refused" % (self.pid, self.stats["refused"]))
            return 3
        if self.stats["lost"] > 0.2 * max(1, ncase):
            print("%s: %d cases were not reached" % (self.pid, self.stats["lost"]))
            return 3
        print("%s: %d cases, %d distinct non-trivial, %.0f s, no violation" % (self.pid, ncase, len(self.distinct), time.time() - self.t0))
        return 0

    def replay(self, path):
        j = json.load(open(path))
        self.build()
        if j.get("config") is None:
            return self.replay_data(j)
        cfg = Config.from_json(j["config"])
        if j.get("cases"):
            r = run_batch(self.exes[cfg.prog], cfg, [(c, l) for c, l in j["cases"]], self.batch_timeout, must_accept=self.must_accept(cfg))
            r = [v for v in r.values() if v[0] not in ("OK", "LOST", "REFUSED")]
            r = r[0] if r else None
        else:
            r = self.single(cfg, j["lines"])
        if r:
            print("%s: %s %s" % (self.pid, r[0], r[1]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("%s: the replayed case passes" % self.pid)
        return 0

    def replay_data(self, j):
        print("this replay file is re-run by the check itself")
        return 2
