"""P10: command lines generated with declared flags, and a model of what the program must then see."""
import os, re, shutil, struct, threading, concurrent.futures as cf
from hv import build
from hv.run import Check, Config, scratch, mpirun

H = build.VERIF + "/harness"
BUILTIN = {"-t": 1, "-o": 1, "-i": 1, "-device": 1, "-check": -1, "-partitions": -1, "-p": 2}
USER = "-a -b -muca -n -num -pp -p2 -tt -out -I -x_1 -Zed -check2 -inp -devices -A -q- -k=v".split()
FLAGLIKE = re.compile(r"-[a-zA-Z].*")


def hx(s):
    return s.encode().hex() or "-"


def isflag(s):
    return FLAGLIKE.fullmatch(s) is not None


class Refused(Exception):
    pass


def seconds(t):
    m = re.fullmatch(r"(?:(?:(?:(\d+)-)?(\d+):)?(\d+):)?(\d+)", t)
    if not m:
        return None
    d, h, mi, s = [int(x or 0) for x in m.groups()]
    return s + 60 * (mi + 60 * (h + 24 * d))


class Model:
    """what each process must answer"""
    def __init__(self, case):
        self.c = case
        self.out = []

    def parse(self):
        decl = dict((f, n) for f, n, _ in self.c["decls"])
        if len(decl) != len(self.c["decls"]) or any(f in BUILTIN for f in decl):
            raise Refused
        decl.update(BUILTIN)
        self.vals, self.present = {f: [] for f in decl}, {f: False for f in decl}
        cur, n = None, 0
        for a in self.c["argv"] + [None]:
            if a is None or isflag(a):
                if cur is not None and decl[cur] >= 0 and n != decl[cur]:
                    raise Refused
                if a is None:
                    break
                if a not in decl:
                    raise Refused
                cur, n = a, 0
                self.present[a] = True
            else:
                if cur is None:
                    raise Refused
                self.vals[cur].append(a)
                n += 1

    def entry(self, f, i):
        v = self.vals.get(f, [])
        if i >= len(v):
            raise Refused
        return v[i]

    def int(self, f, i):
        v = self.entry(f, i)
        if not re.fullmatch(r"[+-]?[0-9]+", v) or not -2 ** 63 <= int(v) < 2 ** 63:
            raise Refused
        return int(v)

    def run(self):
        """lists of expected lines per world rank, and whether the program goes on to the end"""
        c, np = self.c, self.c["np"]
        self.nodes, self.parts = np, 1
        try:
            self.parse()
            self.check = None
            if self.present["-check"] and np == 1:
                self.check = self.int("-check", 0) if self.vals["-check"] else 1
                self.check = max(1, self.check)
                self.nodes = self.check
            if self.present["-partitions"]:
                self.parts = self.int("-partitions", 0)
                if self.parts <= 0 or self.nodes % self.parts:
                    raise Refused
            if self.present["-o"] and c.get("badout"):
                raise Refused
            self.limit = 0
            if self.present["-t"]:
                t = self.entry("-t", 0)
                self.limit = seconds(t)
                if self.limit is None:
                    raise Refused
            self.out.append("init")
            self.sig = False
            self.nopen = 0
            self.over = None
            for q in c["queries"]:
                self.out.append(self.query(q))
            if any(o[0] is not None for o in self.over or []):
                raise Refused
            self.out.append("done")
            return self.out, True
        except Refused:
            return self.out, False

    def query(self, q):
        k = q[0]
        if k == "set":
            return str(len(self.vals.get(q[1], [])))
        if k == "present":
            return str(int(self.present.get(q[1], False)))
        if k == "vals":
            if q[1] not in self.vals:
                raise Refused
            return "v" + "".join(" " + hx(v) for v in self.vals[q[1]])
        if k == "int":
            return str(self.int(q[1], q[2]))
        if k == "dbl":
            v = self.entry(q[1], q[2])
            m = re.match(r"\s*[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", v)
            if not m:
                raise Refused
            return "%.17g" % float(m.group())
        if k == "str":
            v = self.entry(q[1], q[2])
            if q[3]:
                self.vals[q[1]][q[2]] = ""
            return hx(v)
        if k == "help":
            return "help"
        if k == "limit":
            self.limit = q[1]
            return "limit"
        if k == "sig":
            self.sig = True
            return "sig"
        if k == "finish":
            return str(int(self.sig or 0 < self.limit <= 110))
        if k == "say":
            return "say"
        if k == "open":
            self.nopen += 1
            name = self.vals["-i"][0] if self.nopen == 1 and self.present["-i"] else q[1]
            self.over = []
            if self.nopen == 1 and (name == "-" or name in self.c["files"]):
                v = self.vals["-p"]
                self.over = [[v[i], v[i + 1]] for i in range(0, len(v), 2)]
            self.file = list(self.c["files"].get(name, [])) if name != "-" else list(self.c["stdin"])
            self.opened = name in self.c["files"] or name == "-"
            return str(int(self.opened))
        if k == "get":
            if not self.opened or not self.file or self.file[0][0] != q[1]:
                raise Refused
            v = self.file.pop(0)[1]
            for o in self.over:
                if o[0] == q[1]:
                    v, o[0] = o[1], None
                    break
            return self.value(q[2], v)
        if k == "close":
            if any(o[0] is not None for o in self.over):
                raise Refused
            return "close"
        if k == "setup":
            if self.check:
                raise Refused
            return "setup"
        if k == "where":
            per = self.nodes // self.parts
            return ["%d %d %d %d %d %d" % (self.parts, w // per, w % per, per, w // per * per, self.vol()) for w in range(self.c["np"])]
        return k

    def vol(self):
        s = [q for q in self.c["queries"] if q[0] == "setup"][0][1:]
        v = 1
        for x in s:
            v *= x
        return v

    def value(self, t, v):
        if t == "int":
            if not re.fullmatch(r"[+-]?[0-9]+", v):
                raise Refused
            return str(int(v))
        if t == "dbl":
            try:
                return "%.17g" % float(v)
            except ValueError:
                raise Refused
        if t == "str":
            return hx(v[1:-1] if v[:1] == '"' else v)
        w = [x.strip() for x in v.split(",")]
        if not all(re.fullmatch(r"[+-]?[0-9]+", x) for x in w):
            raise Refused
        return "l" + "".join(" %d" % int(x) for x in w)


class Gen:
    VALUES = ["1", "0", "-5", "+7", "42", "9223372036854775807", "-9223372036854775808", "99999999999999999999", "3.5", "-.5", "1e3", "x", "red",
              "two words", "", "-", "--", "--long", "-1x", "a=b", "/tmp/x", "1,2,3", "é", "-5.25e-3", "007", "*", "'q'", '"', "beta 5", "-0", "+", "."]

    def __init__(self, r):
        self.r = r

    def flags(self, arity=None):
        """part of a command line: declared flags and appearances"""
        r = self.r
        decls = []
        for f in r.sample(USER, r.choice([1, 2, 3, 5])):
            decls.append((f, r.choice([-1, -1, 0, 1, 2, 3]), r.choice(["help", "a longer help\nof two lines", "x\n\ny", ""] if r.random() < .1 else ["help text"])))
        argv = []
        bad = r.random() < .25
        for _ in range(r.choice([0, 1, 2, 3, 6])):
            f, n, _h = r.choice(decls)
            if n < 0:
                n = r.choice([0, 0, 1, 2, 4])
            elif bad and r.random() < .5:
                n = max(0, n + r.choice([-1, 1]))
            argv.append(f)
            argv += [r.choice(self.VALUES) for _ in range(n)]
        if bad and r.random() < .3:
            argv.insert(r.randint(0, len(argv)), r.choice(["stray", "-unknown", "-aa", "5", decls[0][0] + "x", decls[0][0][:-1] if len(decls[0][0]) > 2 else "-zz", decls[0][0].swapcase()]))
        if bad and r.random() < .2:
            decls.append(r.choice([(decls[0][0], 1, "again"), ("-p", 2, "mine"), ("-t", 1, "mine")]))
        return decls, argv

    def asks(self, decls, n):
        r = self.r
        qs = []
        names = [d[0] for d in decls] * 3 + ["-nosuch", "-t", "-p"]
        last = n
        for i in range(n):
            f = r.choice(names)
            k = r.choice(["set", "present", "vals", "int", "dbl", "str", "set", "present", "str"])
            if k in ("int", "dbl"):
                qs.append((k, f, r.choice([0, 0, 0, 1, 2])))
            elif k == "str":
                qs.append((k, f, r.choice([0, 0, 1, 2, 5]), r.choice([0, 0, 1])))
            else:
                qs.append((k, f))
        return qs

    def good(self, case):
        """drop the requests that would end the program, but for at most one at the end"""
        r = self.r
        qs, keep = case["queries"], []
        lethal = None
        for q in qs:
            t = dict(case, queries=keep + [q])
            if Model(t).run()[1]:
                keep.append(q)
            elif lethal is None and q[0] in ("int", "dbl", "str", "vals"):
                lethal = q
        case["queries"] = keep + ([lethal] if lethal and r.random() < .4 else [])
        return case

    def case_flags(self):
        d, a = self.flags()
        c = dict(np=self.r.choice([1, 1, 1, 2]), decls=d, argv=a, queries=[], files={}, stdin=[])
        if Model(c).run()[1]:
            c["queries"] = self.asks(d, self.r.choice([2, 5, 10, 20]))
            self.good(c)
        if self.r.random() < .1:
            c["queries"].insert(0, ("help",))
        return c

    def case_time(self):
        r = self.r
        big = lambda: r.choice([0, 1, 5, 59, 60, 61, 23, 24, 100])
        t = r.choice(["%d" % r.choice([1, 50, 100, 400, 86400, 4000000]), "%d:%02d" % (r.choice([0, 1, 7, 90]), r.choice([0, 5, 40, 50, 900])),
                      "%d:%02d:%02d" % (r.choice([0, 0, 1, 30]), r.choice([0, 1, 10]), r.choice([5, 45])),
                      "%d-%d:%d:%d" % (r.choice([0, 0, 1, 8]), r.choice([0, 0, 5]), r.choice([0, 1, 70]), r.choice([3, 48])),
                      "30m", "1.5h", "1-12:00", "abc", "", "1:2:3:4", "1-2", "10:", ":10", "1:2:", "5 s", "slurm"])
        s = seconds(t)
        if s is not None and (s == 0 or 110 < s < 400):
            t = "400"
        if t == "slurm":
            t = "0-0:01:30"
        argv = ["-t", t] if r.random() < .85 else []
        qs = []
        for _ in range(r.choice([1, 2, 4])):
            qs += [r.choice([("finish",), ("finish",), ("sig",), ("limit", r.choice([1, 50, 100.5, 500, 1e6]))]), ("finish",)]
        c = dict(np=r.choice([1, 2, 3]), decls=[], argv=argv, queries=qs, files={}, stdin=[])
        return c

    def ftext(self, lines):
        return "".join("%s %s\n" % (k, v) for k, v, _t in lines)

    def lines(self, n):
        r = self.r
        keys = [("beta", "dbl"), ("n steps", "int"), ("mass^2", "dbl"), ("out file", "str"), ("beta", "dbl"), ("x", "str"), ("loops", "list"), ("lattice size", "list")]
        res = []
        for _ in range(n):
            k, t = r.choice(keys)
            res.append((k, self.val(t), t))
        return res

    def val(self, t):
        r = self.r
        if t == "int":
            return str(r.randint(-1000, 1000))
        if t == "dbl":
            return r.choice(["1.5", "-2.25e3", "0.001", "7", "-.5"])
        if t == "str":
            return r.choice(["name", "data_1", '"two words"', '"a,b"', "5", "-", "./dir/file"])
        return r.choice([",", ", ", " , "]).join(str(r.randint(-9, 9)) for _ in range(r.choice([1, 2, 3, 4])))

    def case_input(self):
        r = self.r
        files = {"f1": self.lines(r.choice([1, 2, 5, 8])), "f2": self.lines(r.choice([1, 3])), "other": self.lines(r.choice([1, 4]))}
        stdin = self.lines(r.choice([1, 3]))
        argv = []
        first = "f1"
        if r.random() < .5:
            first = r.choice(["other", "other", "f2", "-", "nosuch"])
            argv += ["-i", first]
        src = stdin if first == "-" else files.get(first, [])
        over = []
        for k, _v, t in src:
            if r.random() < .35:
                over.append((k, self.val(t) if r.random() < .93 or t == "str" else "x y,"[:r.choice([1, 4])]))
        if r.random() < .12:
            over.append((r.choice(["nokey", "bet", "beta ", "n  steps", "Beta", "loops"]), "5"))
        r.shuffle(over)
        for k, v in over:
            if isflag(v):
                continue
            argv += ["-p", k, v]
        qs = [("open", "f1")]
        n = len(src) if r.random() < .8 else r.randint(1, max(1, len(src)))
        if src:
            qs += [("get", k, t) for k, _v, t in src[:n]]
        else:
            qs = [("open", "f1")]
        if src and first != "-":
            qs.append(("close",))
            if r.random() < .6:
                nm = r.choice(["f2", "f1", "other"])
                qs += [("open", nm)] + [("get", k, t) for k, _v, t in files[nm]] + [("close",)]
        elif src and r.random() < .5:
            qs.append(("close",))
        return dict(np=r.choice([1, 1, 2, 3]) if first != "-" else 1, decls=[], argv=argv, queries=qs, files=files, stdin=stdin)

    def case_out(self):
        r = self.r
        argv = []
        c = dict(np=r.choice([1, 2, 2, 4, 6]), decls=[], files={"f1": self.lines(3)}, stdin=[], out="stdout")
        if r.random() < .5:
            c["out"] = r.choice(["res.txt", "o u t", "sub/o.txt", "nodir/o.txt"])
            argv += ["-o", c["out"]]
            c["badout"] = c["out"].startswith("nodir")
            c["append"] = r.random() < .5
        if r.random() < .6:
            n = r.choice([1, 2, 2, 3, 4, 0, -1]) if r.random() < .9 else "x"
            argv += ["-partitions", str(n)] + r.choice([[], ["strm"]])
            if c["out"].startswith("sub/") and n != 1:
                c["badout"] = True
        c["argv"] = argv
        qs = [("say", "m%d" % r.randrange(10 ** 6)), ("open", "f1"), ("get",) + (c["files"]["f1"][0][0], c["files"]["f1"][0][2])]
        if r.random() < .7:
            qs += [("setup", 4, 4, 4), ("where",), ("say", "n%d" % r.randrange(10 ** 6))]
        c["queries"] = qs
        return c

    def case_check(self):
        r = self.r
        n = r.choice([1, 2, 3, 4, 5, 6, 8, 7])
        L = r.choice([(4, 4, 4), (8, 4, 6), (3, 5, 7), (6, 10, 2), (12, 12, 2), (2, 2, 2), (7, 7, 7), (16, 4, 4), (5, 2, 9), (3, 2, 2)])
        return dict(np=1, decls=[], files={"f1": self.lines(2)}, stdin=[], argv=["-check", str(n)], compare=n,
                    queries=[("open", "f1"), ("setup",) + L])


class C(Check):
    pid = "P10"
    rule = "a case is one command line with declared flags, files and requests; non-trivial when the line has at least one argument"
    assumptions = ["a number is read from the front of an argument when a floating point value is asked for", "'-t 0' means no limit",
                   "an out-of-range integer may end the program by an exception"]

    def programs(self):
        return {"v3": build.program("cmd", [H + "/cmd.cpp"], "vanilla", 3, [], [H])}

    def plan(self, c):
        return "".join("decl %s %d %s -\n" % (hx(f), n, hx(h)) for f, n, h in c["decls"]) + \
            "".join(" ".join([q[0]] + [(hx(a) if q[0] not in ("setup", "limit") and i == 0 else str(a)) for i, a in enumerate(q[1:])]) + "\n" for q in c["queries"])

    def launch(self, c, np=None, argv=None):
        d = scratch()
        try:
            os.makedirs(d + "/sub")
            for n, l in c["files"].items():
                open(d + "/" + n, "w").write("".join("%s %s\n" % (x[0], x[1]) for x in l))
            open(d + "/stdin", "w").write("".join("%s %s\n" % (x[0], x[1]) for x in c["stdin"]))
            open(d + "/plan", "w").write(self.plan(c))
            if c.get("append") and not c.get("badout") and "-partitions" not in c["argv"]:
                open(d + "/" + c["out"], "w").write("already here\n")
            rc, out = mpirun(self.exes["v3"], np or c["np"], c["argv"] if argv is None else argv,
                             dict(HV_PLAN=d + "/plan", HV_OUT=d + "/ans"), d, 60, d + "/stdin")
            ans = []
            for w in range(np or c["np"]):
                p = d + "/ans.%d" % w
                ans.append(open(p).read().split("\n")[:-1] if os.path.exists(p) else [])
            files = {}
            for root, _s, fs in os.walk(d):
                for f in fs:
                    p = os.path.join(root, f)
                    files[os.path.relpath(p, d)] = open(p, errors="replace").read()
            return rc, out, ans, files
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def judge(self, c):
        want, goes = Model(c).run()
        m = Model(c)
        m.run()
        rc, out, ans, files = self.launch(c)
        if rc is None:
            return "the program hangs"
        overflow = any(len(v) > 18 for v in c["argv"])
        if len(set(f for f, _n, _h in c["decls"])) != len(c["decls"]):
            return None if not any(ans) else "a flag declared twice is not refused"     # however the program ends
        if rc not in (0, 1) and not (overflow and rc in (134, -6)):
            return "the program dies (exit %s): %s" % (rc, out[-300:])
        if rc != 0 and goes:
            return "exit %s: %s" % (rc, out[-300:])
        for w in range(c["np"]):
            exp = [x[w] if isinstance(x, list) else x for x in want]
            if ans[w] != exp:
                i = next((i for i in range(min(len(exp), len(ans[w]))) if ans[w][i] != exp[i]), min(len(exp), len(ans[w])))
                q = (["start"] + [str(q) for q in c["queries"]] + ["end"])[i] if i <= len(c["queries"]) + 1 else "?"
                a = ans[w][i] if i < len(ans[w]) else "(the program ended)"
                e = exp[i] if i < len(exp) else "(to be refused)"
                return "process %d: %s: got %s, expected %s; output ends %r" % (w, q, a[:200], e[:200], out[-200:])
        if not goes and not out.strip() and not any(f.endswith("output") or f == c.get("out") for f in files):
            return "refused without a message"
        if "out" in c and goes:
            return self.where(c, m, out, files)
        if c.get("compare"):
            return self.compare(c, out)
        return None

    def where(self, c, m, out, files):
        """where the text went"""
        marks = [hx(q[1]) and "MARK%sKRAM" % q[1] for q in c["queries"] if q[0] == "say"]
        named = c["out"] != "stdout"
        if m.parts > 1:
            base = m.vals["-partitions"][1] if len(m.vals["-partitions"]) > 1 else "partition"
            want = ["%s%d/%s" % (base, i, c["out"] if named else "output") for i in range(m.parts)]
        else:
            want = [c["out"]] if named else []
        for mk in marks:
            for n, t in files.items():
                k = t.count(mk)
                if n == "plan" or n.startswith("ans"):
                    continue
                if k != (1 if n in want else 0):
                    return "text printed once appears %d times in %s" % (k, n)
            if any(w not in files for w in want):
                return "no output file %s" % want
            if out.count(mk) != (0 if want else 1):
                return "text printed once appears %d times in standard output" % out.count(mk)
        if c.get("append") and m.parts == 1 and "-partitions" not in c["argv"] and named and not files[c["out"]].startswith("already here\n"):
            return "the output file is not appended to"
        return None

    @staticmethod
    def layout(out):
        ls = out.replace("\r", "").split("\n")
        i = next((i for i, l in enumerate(ls) if l.startswith("LAYOUT")), None)
        if i is None:
            return None
        res = []
        for l in ls[i:]:
            if l.startswith("---") or l.startswith("*****") or "-- date" in l or "timer" in l.lower():
                break
            if "remapping" in l.lower() or "Node block" in l:
                continue
            res.append(" ".join(l.split()))
        return res

    def compare(self, c, out):
        rc, out2, _a, _f = self.launch(c, c["compare"], [])
        if rc is None:
            return "the program hangs"
        a, b = self.layout(out), self.layout(out2)
        ok, ok2 = "Input check done" in out or "check done" in out, all("done" in x for x in _a)
        if a is None or a != b:
            return "-check %d reports layout %s, a run with as many processes %s" % (c["compare"], a, b)
        if ok != ok2:
            return "-check %d %s, a run with as many processes %s" % (c["compare"], ok, ok2)
        return None

    def shrunk(self, c):
        """smaller failing variants, as long as time allows"""
        import time
        t = time.time() + 60
        go = True
        while go and time.time() < t:
            go = False
            for part in ("queries", "argv", "decls"):
                i = 0
                while i < len(c[part]) and time.time() < t:
                    d = dict(c)
                    d[part] = c[part][:i] + c[part][i + 1:]
                    try:
                        bad = self.judge(d)
                    except Exception:
                        bad = None
                    if bad:
                        c, go = d, True
                    else:
                        i += 1
        return c

    def extra(self):
        import random
        rng = random.Random("%s-%d" % (self.pid, self.seed))
        n = 12 if self.thorough() else 1
        cases = []
        for kind, k in [("flags", 260), ("time", 50), ("input", 120), ("out", 60), ("check", 24)]:
            g = Gen(rng)
            for _ in range(k * n):
                cases.append((kind, getattr(g, "case_" + kind)()))
        stop = threading.Event()

        def one(kc):
            return None if stop.is_set() else (self.judge(kc[1]), stop.set)[0]
        with cf.ThreadPoolExecutor(10) as ex:
            for (kind, c), msg in zip(cases, ex.map(one, cases)):
                want, goes = Model(c).run()
                self.record(repr(c), bool(c["argv"]), [kind, "goes-on" if goes else "refused", "np=%d" % c["np"]], "%s: %s" % (kind, " ".join(c["argv"])))
                if msg and not self.violations:
                    if all(self.judge(c) for _ in range(2)):
                        c = self.shrunk(c)
                        self.violation("%s: %s: %s" % (kind, c["argv"], self.judge(c) or msg), c)
                        stop.set()
                    else:
                        self.stats["not_reproduced"] += 1

    def replay_data(self, j):
        c = j["data"]
        for k in ("decls", "queries"):
            c[k] = [tuple(x) for x in c[k]]
        m = self.judge(c)
        if m:
            print("P10: %s\nVIOLATION property=P10 replay=this" % m)
        else:
            print("P10: the replayed case passes")
        return 1 if m else 0
