"""P09: parameter files generated with their expected reading."""
import os, shutil, struct
from hv import build
from hv.run import Check, Config, scratch, mpirun

H = build.VERIF + "/harness"
WORDS = "beta lattice size number of cats mass^2 kappa n_steps T x y1 file-name a bb seed (opt) hot/cold A.B N_c =".split()
NUMERIC = "int long unsigned ulong float double bool".split()


def hx(s):
    return s.encode().hex() or "-"


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def g17(x):
    return "%.17g" % x


def g9(x):
    return "%.9g" % f32(x)


class Gen:
    def __init__(self, r):
        self.r = r

    def ws(self, least=1):
        r = self.r
        return "".join(r.choice(" \t ") for _ in range(r.choice([least, least, least + 1, least + 3]))) if least or r.random() < .5 else ""

    def word(self):
        r = self.r
        return r.choice(["abc", "x", "config.dat", "../dir/f_1", "é", "5", "-", "red", "1.5e3", "a=b", "(q)", "!$%&/"] + WORDS)

    def integer(self, lo, hi):
        r = self.r
        v = r.choice([0, 1, lo, hi, r.randint(lo, hi), r.randint(max(lo, -100), min(hi, 100))])
        s = str(v)
        if v >= 0 and r.random() < .1:
            s = "+" + s
        if r.random() < .05 and v >= 0:
            s = "00" + s.lstrip("+")
        return s, str(v)

    def real(self, f):
        r = self.r
        v = r.choice([0.0, 1.0, -2.5, r.uniform(-1, 1), r.gauss(0, 1) * 10.0 ** r.randint(-30, 30), float(r.randint(-9999, 9999))])
        s = r.choice(["%.15g", "%g", "%.3f", "%e", "%.17g", "%+.5f"]) % v
        if "." not in s and "e" not in s and r.random() < .3:
            s += "."
        if s.startswith("0.") and len(s) > 2 and r.random() < .3:
            s = s[1:]
        s = s.replace("e", r.choice("eE"))
        v = float(s)
        return s, (g9(v) if f else g17(v))

    def scalar(self, t):
        r = self.r
        if t == "int":
            return self.integer(-2 ** 31, 2 ** 31 - 1)
        if t == "long":
            return self.integer(-2 ** 63, 2 ** 63 - 1)
        if t == "unsigned":
            return self.integer(0, 2 ** 32 - 1)
        if t == "ulong":
            return self.integer(0, 2 ** 64 - 1)
        if t == "bool":
            v = r.choice("01")
            return v, v
        if t in ("float", "double"):
            return self.real(t == "float")
        if t in ("complex", "complexf"):
            a, b = self.real(t == "complexf"), self.real(t == "complexf")
            return "(%s%s%s,%s%s%s)" % (self.ws(0), a[0], self.ws(0), self.ws(0), b[0], self.ws(0)), "(%s,%s)" % (a[1], b[1])
        if t == "string":
            if r.random() < .5:
                w = self.word()
                return w, "<%s>" % w
            w = r.choice(["", "two words", "a, b", " lead", "tail ", "tab\there", self.word(), ",", "beta 5", "(1,2)"])
            s = '"%s"' % w
            if r.random() < .15:
                s, w = "pre" + s + "post", "pre" + w + "post"
            return s, "<%s>" % w
        raise KeyError(t)

    ELEM = dict(v3i="int", v4d="double", cv="int", li="int", ld="double", lf="float", ls="string", lc="complex")

    def sep(self, lists):
        """a comma between elements; the list may go on on the next line"""
        r = self.r
        s = self.ws(0) + "," + self.ws(0)
        if lists and r.random() < .15:
            s = self.ws(0) + "," + r.choice(["", " # more follows"]) + "\n" + r.choice(["", "\n", "# comment, 1, 2\n"]) + self.ws(0)
        return s

    def value(self, t, nd):
        r = self.r
        if t not in self.ELEM:
            return self.scalar(t)
        e = self.ELEM[t]
        n = dict(v3i=3, v4d=4, cv=nd).get(t) or r.choice([1, 2, 3, 7])
        v = [self.scalar(e) for _ in range(n)]
        s = v[0][0]
        for x in v[1:]:
            s += self.sep(True) + x[0]
        return s, ",".join(x[1] for x in v)

    def key(self):
        return " ".join(self.r.sample(WORDS, self.r.choice([1, 1, 2, 3])))

    def keytext(self, k):
        return self.ws().join(k.split()) if self.r.random() < .5 else k

    def filler(self):
        r = self.r
        return "".join(r.choice(["\n", "# a comment, with 1, 2 \"\n", "   \t\n", "  #\n"]) for _ in range(r.choice([0, 0, 0, 1, 2])))

    def eol(self):
        r = self.r
        return self.ws(0) + r.choice(["", "", "", "# trailing", " #", "\r"]) + "\n"

    BAD = dict(
        int=["x", "3.7", "5x", "1e3", "99999999999", "-99999999999", "0x10", "--5", "5-", "1_000", "(3)", "5;", "+-3", ".5"],
        long=["x", "3.7", "99999999999999999999", "1e3", "7L"],
        unsigned=["-1", "4294967296", "x", "2.0", "-0x1"],
        ulong=["-1", "18446744073709551616", "1.5"],
        bool=["2", "true", "1.0", "-1"],
        float=["x", "1.5x", "1,5x"[:1] + "..2", "1e", "1e99", "e5", "1.2.3", "--1.0", "1d3"],
        double=["x", "1.5x", "1e", "1e999", "1.2.3", "5 6"[:1] + "f", "0.1.", "nought"],
        complex=["1.0", "(1.0)", "(1.0,2.0", "(1.0 2.0)", "(1.0,)", "(,1.0)", "1.0,2.0", "(a,b)", "[1,2]", "(1x,2)", "(1,2x)"],
        complexf=["(1.0)", "(1.0;2.0)", "(x,1)"],
        v3i=["1", "1,2", "1,2,x", "1,,2", "1 2 3", "1,2.5,3", ",1,2"],
        v4d=["1.0", "1,2,3", "1,2,3,x", "1;2;3;4", "1,2,3,4x"],
        li=["x", "1,x", "1,,2", "1,2,3.5", ",1"],
        ld=["x", "1.0,y", "1.0,2.0,,3"],
        ls=[], string=[], cv=["1", "x", "1,y", "1.5,2,3,4"], lf=["1.0,q"], lc=["(1,2),3", "(1,2),(3)"])

    def case(self, nd):
        r = self.r
        ops, text = [], []
        types = NUMERIC[:6] + ["string", "string", "complex", "complexf", "v3i", "v4d", "cv", "li", "ld", "lf", "ls", "lc", "bool", "item", "item"]
        n = r.choice([1, 2, 4, 8])
        end = r.random() < .5
        for i in range(n):
            t = r.choice(types)
            k = self.key() if r.random() < .9 else ""
            form = r.choice([0, 0, 1, 2])
            text.append(self.filler())
            head = self.ws(0) + self.keytext(k) + (self.ws() if k else "")
            if k and r.random() < .25:      # wrong key first: refused, then the right key is still there
                for _ in range(r.choice([1, 2])):
                    w = self.wrong(k)
                    if w:
                        ops.append("get %s %s %d 0 -" % (r.choice(["int", "double", "string", "cv", "li", "complex"]), hx(w), r.randrange(2)))
            if t == "item":
                self.item(ops, text, head, k)
                continue
            if i == n - 1 and end and self.BAD.get(t):
                ops.append("get %s %s %d 0 -" % (t, hx(k), r.randrange(2)))
                if r.random() < .2:          # value missing
                    text.append(head.rstrip() + r.choice(["", "\n", " # nothing\n", "\n\n", "\nnext value\n"]))
                else:
                    text.append(head + r.choice([b for b in self.BAD[t] if k or b[0] != ","]) + r.choice(["", "\n", self.eol(), self.eol() + "next 5\n"]))
                break
            s, w = self.value(t, nd)
            if t == "string" and form == 2:
                ops.append("get gstring %s 0 1 %s" % (hx(k), hx(w)))
            else:
                ops.append("get %s %s %d 1 %s" % (t, hx(k), form, hx(w)))
            text.append(head + s + (self.eol() if i < n - 1 or r.random() < .8 else ""))
        else:
            if r.random() < .3:             # too many values: noticed at the next key
                text.append("\n" + self.ws(0) + "k 1%s 2\n" % r.choice(["", ",", " ,"]))
                ops.append("get int %s 0 1 %s" % (hx("k"), hx("1")))
                text.append("last 3\n")
                ops.append("get int %s 0 0 -" % hx("last"))
            elif r.random() < .3:           # end of the file
                ops.append("get %s %s 0 0 -" % (r.choice(["int", "string", "li", "v3i", "complex"]), hx(r.choice(["", "more"]))))
        return "".join(text), ops

    def wrong(self, k):
        r = self.r
        w = k.split()
        c = [k + "x", k[:-1], k.swapcase(), "zzz", "x" + k, "".join(w) if len(w) > 1 else "", " ".join(w + ["qq"]), " ".join(w[::-1]), k[0] + "," + k[1:]]
        c = [x for x in c if x.strip() and x.split() != w and not (len(x.split()) < len(w) and w[:len(x.split())] == x.split())]
        return r.choice(c) if c else None

    def item(self, ops, text, head, k):
        r = self.r
        items = r.sample(["red", "green", "blue", "tree", "perturbative", "redder", "light blue", "off"], r.choice([1, 2, 4]))
        extra = r.choice([[], [], ["%i"], ["%f"], ["%i", "%f"], ["%i", "%f", "%s"], ["%s"]])
        allit = items + extra
        form = r.randrange(2)
        v = r.choice(["item", "item", "int", "float", "word"])
        if v == "item":
            s = r.choice(items)
            want = items.index(s)
            # a shorter item matching the first word is found first
            for i, x in enumerate(items):
                if x.split() == s.split()[:len(x.split())]:
                    want = i
                    break
            nxt = None
        else:
            if v == "int":
                s, w = self.integer(-1000, 1000)
                want = next((i for i, x in enumerate(allit) if x in ("%i", "%f", "%s")), -1)
                nxt = {"%i": ("int", w), "%f": ("double", g17(float(w))), "%s": ("string", "<%s>" % s)}.get(allit[want]) if want >= 0 else None
            elif v == "float":
                x = r.randint(-999, 999) + .5
                s = "%.1f" % x
                want = next((i for i, x in enumerate(allit) if x in ("%f", "%s")), -1)
                nxt = {"%f": ("double", g17(x)), "%s": ("string", "<%s>" % s)}.get(allit[want]) if want >= 0 else None
            else:
                s = r.choice(["mauve", "re", "reddish", "5x", "1.5.2", "gree"])
                want = next((i for i, x in enumerate(allit) if x == "%s"), -1)
                nxt = ("string", "<%s>" % s) if want >= 0 else None
        if want < 0:
            form = 1
        ops.append("item %s %d %d %s" % (hx(k), want, form, " ".join(hx(x) for x in allit)))
        if nxt:
            ops.append("get %s - %d 1 %s" % (nxt[0], r.randrange(2), hx(nxt[1])))
        elif want < 0:
            ops.append("get string - 0 1 %s" % hx("<%s>" % s))
        else:
            w, t = len(items[want].split()), s.split()
            for x in t[w:]:
                ops.append("get string - 0 1 %s" % hx("<%s>" % x))
        text.append(head + s + self.eol())


class C(Check):
    pid = "P09"
    rule = "a case is one to three generated files with the requests that read them; all are non-trivial"
    assumptions = ["'#' starts a comment anywhere, also within quotes", "a string value may stand on the line after its key (as the reader does)",
                   "surplus values are noticed at the next request with a key"]

    def programs(self):
        p = {"v3": ("vanilla", 3)}
        if self.thorough():
            p.update(s2=("asan", 2), v4=("vanilla", 4))
        return {k: build.program("inp", [H + "/inp.cpp"], v[0], v[1], [], [H]) for k, v in p.items()}

    def lines(self, r, nd):
        out = []
        for i in range(r.choice([1, 1, 1, 2, 3])):
            t, ops = Gen(r).case(nd)
            out.append("file %s %d" % (hx(t), r.randrange(3)))
            if r.random() < .05:
                out.append("nofile")
            if r.random() < .05:
                out.append("again")
            k = len(ops) if r.random() < .8 else r.randint(0, len(ops))   # some files are left half read
            out += ops[:k]
        return out

    def jobs(self, rng, tier):
        jobs, n = [], 0
        progs = {"v3": 3}
        if self.thorough():
            progs.update(s2=2, v4=4)
        for rd in range(40 if self.thorough() else 10):
            for k, nd in progs.items():
                for np in (1, 2, 3):
                    cases = []
                    for _ in range(100):
                        n += 1
                        cases.append(("p%d" % n, self.lines(rng, nd)))
                    jobs.append((Config(k, np, (4,) * nd), cases))
        return jobs

    def keep(self, line):
        return line.startswith("file")

    def shrink_cfgs(self, cfg):
        return [Config(cfg.prog, np, cfg.size, cfg.env) for np in range(cfg.np - 1, 0, -1)]

    # ---- refusals that end the program
    def dies(self, cfg, lines):
        d = scratch()
        try:
            with open(d + "/cases.txt", "w") as f:
                f.write("case d\n%s\nend\n" % "\n".join(lines))
            rc, out = mpirun(self.exes[cfg.prog], cfg.np, [], dict(HV_CASES=d + "/cases.txt", HV_OUT=d + "/out.txt",
                             HV_SIZE=",".join(map(str, cfg.size))), d, 60)
            res = open(d + "/out.txt").read() if os.path.exists(d + "/out.txt") else ""
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if rc is None:
            return "the program hangs"
        if "R d" in res:
            return "not refused: " + res.strip()[-300:]
        if "B d" in res and "rror" not in out and "must be one of" not in out and "could not be opened" not in out:
            return "ended without a message (exit %s): %s" % (rc, out[-300:])
        return None

    def extra(self):
        todo = []
        for np in (1, 2, 3):
            for t, text in [("int", "a x\n"), ("int", "b 1\n"), ("int", ""), ("int", "a 1.5\n"), ("string", "ab x\n"), ("string", ""), ("v3i", "a 1,2\nb 3\n"),
                            ("li", "a 1,x\n"), ("item", "a green\n"), ("item", "b red\n"), ("item", "a"), ("open", "a 1\n")]:
                todo.append((Config("v3", np, (4, 4, 4)), ["file %s 0" % hx(text), "die %s %s" % (t, hx("a"))]))
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(8) as ex:
            for (cfg, lines), msg in zip(todo, ex.map(lambda a: self.dies(*a), todo)):
                self.record(cfg.key() + lines[0] + lines[1], True, ["ends-program"])
                if msg and all(self.dies(cfg, lines) for _ in range(2)):
                    self.violation("%s: %s: %s" % (cfg.key(), " ; ".join(lines), msg), dict(config=cfg.to_json(), lines=lines))

    def replay_data(self, j):
        m = self.dies(Config.from_json(j["data"]["config"]), j["data"]["lines"])
        if m:
            print("%s\nVIOLATION property=P09 replay=?" % m)
        return 1 if m else 0
